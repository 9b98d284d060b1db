package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type typeCanon struct {
	mu sync.Mutex
	m  typeutil.Map
}

// of returns a canonical representative of t (identical types share one).
func (c *typeCanon) of(t types.Type) types.Type {
	t = types.Unalias(t)
	c.mu.Lock()
	defer c.mu.Unlock()
	if x := c.m.At(t); x != nil {
		return x.(types.Type)
	}
	c.m.Set(t, t)
	return t
}

func (fn *Fn) compile(p *Prog) {
	fn.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					fn.err = fmt.Errorf("%s", u.msg)
					return
				}
				panic(r)
			}
		}()
		if !fn.hasBody {
			fn.err = fmt.Errorf("no body")
			return
		}
		c := &comp{p: p, fn: fn, regs: map[ssa.Value]int{}}
		c.run()
	})
}

type comp struct {
	p    *Prog
	fn   *Fn
	regs map[ssa.Value]int
}

func (c *comp) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.fn.nregs
	c.fn.nregs++
	c.regs[v] = r
	return r
}

func constV(c *ssa.Const) V {
	if c.Value == nil {
		return zeroV(c.Type())
	}
	k := kindOf(c.Type())
	switch {
	case k.isBool:
		return vBool(constant.BoolVal(c.Value))
	case k.isStr:
		return vStr(constant.StringVal(c.Value))
	case k.isInt:
		if k.signed {
			return vInt(c.Int64())
		}
		return vInt(int64(c.Uint64()))
	case k.isFloat:
		return vF(c.Float64())
	}
	return V{}
}

func (c *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: constV(x)}
	case *ssa.Global:
		return opnd{reg: -2 - c.p.global(x)}
	case *ssa.Function:
		return opnd{reg: -1, c: V{r: &Closure{fn: c.p.fn(x)}}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: V{r: &Closure{bi: x}}}
	}
	return opnd{reg: c.reg(v)}
}

func (c *comp) run() {
	f := c.fn.ssa
	for _, p := range f.Params {
		c.reg(p)
	}
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	blocks := make([]*Blk, len(f.Blocks))
	for i := range blocks {
		blocks[i] = &Blk{idx: i}
	}
	c.fn.blocks = blocks
	for i, b := range f.Blocks {
		blk := blocks[i]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				pc := phiCopy{dst: c.reg(x)}
				for _, e := range x.Edges {
					pc.edges = append(pc.edges, c.op(e))
				}
				blk.phis = append(blk.phis, pc)
				continue
			case *ssa.DebugRef:
				continue
			}
			fn := c.instr(in, b)
			blk.ins = append(blk.ins, fn)
			blk.src = append(blk.src, in)
		}
	}
	if f.Recover != nil {
		c.fn.recover = blocks[f.Recover.Index]
	}
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	return -1
}

func (m *M) jump(f *Frame, to *Blk, pi int) {
	if n := len(to.phis); n == 1 {
		f.regs[to.phis[0].dst] = m.get(f, to.phis[0].edges[pi])
	} else if n > 0 {
		var buf [8]V
		tmp := buf[:0]
		for i := range to.phis {
			tmp = append(tmp, m.get(f, to.phis[i].edges[pi]))
		}
		for i := range to.phis {
			f.regs[to.phis[i].dst] = tmp[i]
		}
	}
	f.blk = to
	f.pc = 0
}

func (c *comp) instr(in ssa.Instruction, b *ssa.BasicBlock) insFn {
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := c.reg(x)
		n := slotsOf(x.Type().Underlying().(*types.Pointer).Elem())
		return func(m *M, f *Frame) ctl {
			f.regs[dst] = V{r: m.newObj(n)}
			return ctlNext
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(&x.Call, c.reg(x), x)
	case *ssa.ChangeInterface:
		dst, a := c.reg(x), c.op(x.X)
		return func(m *M, f *Frame) ctl { f.regs[dst] = m.get(f, a); return ctlNext }
	case *ssa.ChangeType:
		dst, a := c.reg(x), c.op(x.X)
		return func(m *M, f *Frame) ctl { f.regs[dst] = m.get(f, a); return ctlNext }
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), c.reg(x))
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), c.reg(x))
	case *ssa.Defer:
		return c.deferI(x)
	case *ssa.Extract:
		dst, a, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(m *M, f *Frame) ctl {
			f.regs[dst] = m.get(f, a).r.(Tuple)[i]
			return ctlNext
		}
	case *ssa.Field:
		dst, a := c.reg(x), c.op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		n, ag := slotsOf(ft), isAgg(ft)
		return func(m *M, f *Frame) ctl {
			g := m.get(f, a).r.(*Agg)
			if ag {
				f.regs[dst] = V{r: &Agg{vs: append([]V(nil), g.vs[off:off+n]...)}}
			} else {
				f.regs[dst] = g.vs[off]
			}
			return ctlNext
		}
	case *ssa.FieldAddr:
		dst, a := c.reg(x), c.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := int64(fieldOff(st, x.Field))
		fname := st.Field(x.Field).Name()
		return func(m *M, f *Frame) ctl {
			p := m.get(f, a)
			if p.r == nil {
				return m.goPanic("runtime error: invalid memory address or nil pointer dereference (field %s)", fname)
			}
			if _, ok := p.r.(*Obj); !ok {
				m.unsup("field address of %T", p.r)
			}
			f.regs[dst] = V{r: p.r, n: p.n + off}
			return ctlNext
		}
	case *ssa.If:
		a := c.op(x.Cond)
		bt, bf := c.fn.blocks[b.Succs[0].Index], c.fn.blocks[b.Succs[1].Index]
		pt := predIndex(b, b.Succs[0], 0)
		nf := 0
		if b.Succs[0] == b.Succs[1] {
			nf = 1
		}
		pf := predIndex(b, b.Succs[1], nf)
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			if v.r == nil {
				if v.n != 0 {
					m.jump(f, bt, pt)
				} else {
					m.jump(f, bf, pf)
				}
				return ctlJump
			}
			at, af, conc, val := m.boolAlts(v)
			if conc {
				if val {
					m.jump(f, bt, pt)
				} else {
					m.jump(f, bf, pf)
				}
				return ctlJump
			}
			at.patch = func(m *M) { m.jump(m.top(), bt, pt) }
			af.patch = func(m *M) { m.jump(m.top(), bf, pf) }
			return m.choose([]alt{at, af})
		}
	case *ssa.Index:
		return c.index(x.X, x.Index, c.reg(x))
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Jump:
		to := c.fn.blocks[b.Succs[0].Index]
		pi := predIndex(b, b.Succs[0], 0)
		return func(m *M, f *Frame) ctl { m.jump(f, to, pi); return ctlJump }
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return c.index(x.X, x.Index, c.reg(x))
		}
		return c.lookup(x)
	case *ssa.MakeClosure:
		dst := c.reg(x)
		fn := c.p.fn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, bnd := range x.Bindings {
			bs = append(bs, c.op(bnd))
		}
		return func(m *M, f *Frame) ctl {
			cl := &Closure{fn: fn, bind: make([]V, len(bs))}
			for i, o := range bs {
				cl.bind[i] = m.get(f, o)
			}
			f.regs[dst] = V{r: cl}
			return ctlNext
		}
	case *ssa.MakeInterface:
		dst, a := c.reg(x), c.op(x.X)
		t := c.p.canon.of(x.X.Type())
		return func(m *M, f *Frame) ctl {
			f.regs[dst] = V{r: &Iface{t: t, v: m.get(f, a)}}
			return ctlNext
		}
	case *ssa.MakeMap:
		dst := c.reg(x)
		return func(m *M, f *Frame) ctl {
			f.regs[dst] = V{r: m.newMap()}
			return ctlNext
		}
	case *ssa.MakeSlice:
		dst, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		es := slotsOf(x.Type().Underlying().(*types.Slice).Elem())
		return func(m *M, f *Frame) ctl {
			ln, ct := m.concInt(f, m.get(f, l), intK)
			if ct != ctlNext {
				return ct
			}
			cn, ct := m.concInt(f, m.get(f, cp), intK)
			if ct != ctlNext {
				return ct
			}
			if ln < 0 || cn < ln || cn > 1<<24 {
				return m.goPanic("runtime error: makeslice: len out of range")
			}
			o := m.newObj(int(cn) * es)
			f.regs[dst] = V{r: &SliceV{obj: o, len: int(ln), cap: int(cn), es: es}}
			return ctlNext
		}
	case *ssa.MapUpdate:
		mo, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(m *M, f *Frame) ctl {
			mv := m.get(f, mo)
			if mv.r == nil {
				return m.goPanic("assignment to entry in nil map")
			}
			key, ct := m.concKey(f, m.get(f, k), kt)
			if ct != ctlNext {
				return ct
			}
			m.mapSet(mv.r.(*MapObj), key, m.get(f, v), kt)
			return ctlNext
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Panic:
		a := c.op(x.X)
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			m.panicAt = m.backtrace()
			m.panicV = &v
			return m.unwind()
		}
	case *ssa.Range:
		return c.rangeI(x)
	case *ssa.Return:
		var rs []opnd
		for _, r := range x.Results {
			rs = append(rs, c.op(r))
		}
		switch len(rs) {
		case 0:
			return func(m *M, f *Frame) ctl { return m.doReturn(V{}) }
		case 1:
			o := rs[0]
			return func(m *M, f *Frame) ctl { return m.doReturn(m.get(f, o)) }
		}
		return func(m *M, f *Frame) ctl {
			t := make(Tuple, len(rs))
			for i, o := range rs {
				t[i] = m.get(f, o)
			}
			return m.doReturn(V{r: t})
		}
	case *ssa.RunDefers:
		return func(m *M, f *Frame) ctl {
			if len(f.defers) == 0 {
				return ctlNext
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.fn.fn == nil || d.fn.fn.intr != nil {
				return ctlSwitch // intrinsic deferred calls (unlock and the like) have no effect here
			}
			nf := m.pushCall(m.p.target(d.fn.fn), d.args, d.fn.bind, -1)
			nf.noAdvance = true
			return ctlSwitch
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		dst, a := c.reg(x), c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			if v.r == nil {
				if n == 0 {
					f.regs[dst] = V{}
					return ctlNext
				}
				return m.goPanic("runtime error: cannot convert slice to array pointer")
			}
			s := v.r.(*SliceV)
			if s.len < n {
				return m.goPanic("runtime error: cannot convert slice to array pointer")
			}
			f.regs[dst] = V{r: s.obj, n: int64(s.off)}
			return ctlNext
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		ag := isAgg(x.Val.Type())
		return func(m *M, f *Frame) ctl {
			p := m.get(f, a)
			if p.r == nil {
				return m.goPanic("runtime error: invalid memory address or nil pointer dereference (store)")
			}
			if sp, ok := p.r.(*SymPtr); ok {
				return m.forkIdx(f, sp)
			}
			o, ok := p.r.(*Obj)
			if !ok {
				m.unsup("store through %T", p.r)
			}
			val := m.get(f, v)
			if ag {
				for i, s := range val.r.(*Agg).vs {
					m.set(o, int(p.n)+i, s)
				}
			} else {
				m.set(o, int(p.n), val)
			}
			return ctlNext
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		s := in.String()
		return func(m *M, f *Frame) ctl { m.unsup("concurrency: %s", s); return ctlEnd }
	}
	s := fmt.Sprintf("%T", in)
	return func(m *M, f *Frame) ctl { m.unsup("instruction %s", s); return ctlEnd }
}

var intK = numKind{isInt: true, signed: true, w: 64}
var byteK = numKind{isInt: true, w: 8}
var runeK = numKind{isInt: true, signed: true, w: 32}

func (c *comp) binop(x *ssa.BinOp) insFn {
	dst, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	k := kindOf(x.X.Type())
	op := x.Op
	ky := kindOf(x.Y.Type())
	t := x.X.Type()
	if k.isInt {
		// fast paths
		switch op {
		case token.ADD:
			return func(m *M, f *Frame) ctl {
				u, v := m.get(f, a), m.get(f, b)
				if u.r == nil && v.r == nil {
					f.regs[dst] = V{n: wrapInt(u.n+v.n, k)}
					return ctlNext
				}
				return m.binSym(f, dst, op, u, v, k, ky)
			}
		case token.LSS:
			if k.signed {
				return func(m *M, f *Frame) ctl {
					u, v := m.get(f, a), m.get(f, b)
					if u.r == nil && v.r == nil {
						f.regs[dst] = vBool(u.n < v.n)
						return ctlNext
					}
					return m.binSym(f, dst, op, u, v, k, ky)
				}
			}
		}
		return func(m *M, f *Frame) ctl {
			u, v := m.get(f, a), m.get(f, b)
			if u.r == nil && v.r == nil {
				r, msg := intBin(op, u.n, v.n, k, ky)
				if msg != "" {
					return m.goPanic("%s", msg)
				}
				f.regs[dst] = V{n: r}
				return ctlNext
			}
			return m.binSym(f, dst, op, u, v, k, ky)
		}
	}
	if k.isFloat {
		return func(m *M, f *Frame) ctl {
			u, v := m.get(f, a), m.get(f, b)
			if u.r == nil && v.r == nil {
				f.regs[dst] = floatBin(op, u, v, k)
				return ctlNext
			}
			return m.liftInto(f, dst, []V{u, v}, func(c []V) V { return floatBin(op, c[0], c[1], k) })
		}
	}
	if k.isStr {
		return func(m *M, f *Frame) ctl {
			u, v := m.get(f, a), m.get(f, b)
			su, ok1 := u.str()
			sv, ok2 := v.str()
			if ok1 && ok2 {
				f.regs[dst] = strBin(op, su, sv)
				return ctlNext
			}
			if op == token.ADD {
				f.regs[dst] = m.concat(u, v)
				return ctlNext
			}
			r, ct := m.strCmp(op, u, v)
			if ct != ctlNext {
				return ct
			}
			f.regs[dst] = r
			return ctlNext
		}
	}
	// == / != on everything else
	neg := op == token.NEQ
	ty := t
	if types.IsInterface(x.Y.Type()) && !types.IsInterface(t) {
		ty = x.Y.Type()
	}
	if cst, ok := x.X.(*ssa.Const); ok && cst.Value == nil {
		ty = x.Y.Type()
	}
	return func(m *M, f *Frame) ctl {
		r, ct := m.eq(f, m.get(f, a), m.get(f, b), ty)
		if ct != ctlNext {
			return ct
		}
		if neg {
			r = m.notV(r)
		}
		f.regs[dst] = r
		return ctlNext
	}
}

func strBin(op token.Token, a, b string) V {
	switch op {
	case token.ADD:
		return vStr(a + b)
	case token.EQL:
		return vBool(a == b)
	case token.NEQ:
		return vBool(a != b)
	case token.LSS:
		return vBool(a < b)
	case token.LEQ:
		return vBool(a <= b)
	case token.GTR:
		return vBool(a > b)
	case token.GEQ:
		return vBool(a >= b)
	}
	panic("strBin")
}

func floatBin(op token.Token, a, b V, k numKind) V {
	x, y := a.f(), b.f()
	r := func(z float64) V {
		if k.w == 32 {
			z = float64(float32(z))
		}
		return vF(z)
	}
	switch op {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO:
		return r(x / y)
	case token.EQL:
		return vBool(x == y)
	case token.NEQ:
		return vBool(x != y)
	case token.LSS:
		return vBool(x < y)
	case token.LEQ:
		return vBool(x <= y)
	case token.GTR:
		return vBool(x > y)
	case token.GEQ:
		return vBool(x >= y)
	}
	panic("floatBin")
}

func intBin(op token.Token, a, b int64, k, ky numKind) (int64, string) {
	bi := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case token.ADD:
		return wrapInt(a+b, k), ""
	case token.SUB:
		return wrapInt(a-b, k), ""
	case token.MUL:
		return wrapInt(a*b, k), ""
	case token.QUO:
		if b == 0 {
			return 0, "runtime error: integer divide by zero"
		}
		if k.signed {
			if b == -1 {
				return wrapInt(-a, k), ""
			}
			return wrapInt(a/b, k), ""
		}
		return int64(uint64(a) / uint64(b)), ""
	case token.REM:
		if b == 0 {
			return 0, "runtime error: integer divide by zero"
		}
		if k.signed {
			if b == -1 {
				return 0, ""
			}
			return wrapInt(a%b, k), ""
		}
		return int64(uint64(a) % uint64(b)), ""
	case token.AND:
		return a & b, ""
	case token.OR:
		return a | b, ""
	case token.XOR:
		return wrapInt(a^b, k), ""
	case token.AND_NOT:
		return a &^ b, ""
	case token.SHL:
		if ky.signed && b < 0 {
			return 0, "runtime error: negative shift amount"
		}
		if uint64(b) >= 64 {
			return 0, ""
		}
		return wrapInt(a<<uint(b), k), ""
	case token.SHR:
		if ky.signed && b < 0 {
			return 0, "runtime error: negative shift amount"
		}
		if k.signed {
			if uint64(b) >= 64 {
				b = 63
			}
			return a >> uint(b), ""
		}
		if uint64(b) >= 64 {
			return 0, ""
		}
		return int64(uint64(a) >> uint(b)), ""
	case token.EQL:
		return bi(a == b), ""
	case token.NEQ:
		return bi(a != b), ""
	}
	if k.signed {
		switch op {
		case token.LSS:
			return bi(a < b), ""
		case token.LEQ:
			return bi(a <= b), ""
		case token.GTR:
			return bi(a > b), ""
		case token.GEQ:
			return bi(a >= b), ""
		}
	} else {
		x, y := uint64(a), uint64(b)
		switch op {
		case token.LSS:
			return bi(x < y), ""
		case token.LEQ:
			return bi(x <= y), ""
		case token.GTR:
			return bi(x > y), ""
		case token.GEQ:
			return bi(x >= y), ""
		}
	}
	panic("intBin " + op.String())
}

func (c *comp) unop(x *ssa.UnOp) insFn {
	dst, a := c.reg(x), c.op(x.X)
	switch x.Op {
	case token.MUL:
		et := x.Type()
		if x.CommaOk {
			break
		}
		ag, n := isAgg(et), slotsOf(et)
		if g, ok := x.X.(*ssa.Global); ok {
			pkg := ""
			if g.Pkg != nil {
				pkg = g.Pkg.Pkg.Path()
			}
			gi := c.p.global(g)
			set := c.p.cmdPkg != nil && harnessSets[pkg+"."+g.Name()]
			return func(m *M, f *Frame) ctl {
				if m.poisoned[pkg] && !set {
					m.unsup("read of global %s of a package whose initialiser is not encoded", g.Name())
				}
				o := m.globals[gi]
				if ag {
					f.regs[dst] = V{r: &Agg{vs: append([]V(nil), o.slots[:n]...)}}
				} else {
					f.regs[dst] = o.slots[0]
				}
				return ctlNext
			}
		}
		return func(m *M, f *Frame) ctl {
			p := m.get(f, a)
			switch o := p.r.(type) {
			case *Obj:
				if ag {
					f.regs[dst] = V{r: &Agg{vs: append([]V(nil), o.slots[p.n:int(p.n)+n]...)}}
				} else {
					f.regs[dst] = o.slots[p.n]
				}
				return ctlNext
			case nil:
				return m.goPanic("runtime error: invalid memory address or nil pointer dereference")
			case *SymPtr:
				if ag {
					return m.forkIdx(f, o)
				}
				return m.loadSym(f, dst, o, et)
			}
			m.unsup("load through %T", p.r)
			return ctlEnd
		}
	case token.NOT:
		return func(m *M, f *Frame) ctl { f.regs[dst] = m.notV(m.get(f, a)); return ctlNext }
	case token.SUB:
		k := kindOf(x.Type())
		if k.isFloat {
			return func(m *M, f *Frame) ctl {
				return m.liftInto(f, dst, []V{m.get(f, a)}, func(c []V) V { return vF(-c[0].f()) })
			}
		}
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			if v.r == nil {
				f.regs[dst] = V{n: wrapInt(-v.n, k)}
				return ctlNext
			}
			return m.binSym(f, dst, token.SUB, V{}, v, k, k)
		}
	case token.XOR:
		k := kindOf(x.Type())
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			if v.r == nil {
				f.regs[dst] = V{n: wrapInt(^v.n, k)}
				return ctlNext
			}
			return m.binSym(f, dst, token.XOR, v, V{n: wrapInt(-1, k)}, k, k)
		}
	}
	s := x.String()
	return func(m *M, f *Frame) ctl { m.unsup("unop %s", s); return ctlEnd }
}

func (c *comp) convert(src ssa.Value, to types.Type, dst int) insFn {
	a := c.op(src)
	from := src.Type()
	kf, kt := kindOf(from), kindOf(to)
	switch {
	case kf.isInt && kt.isInt:
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			switch t := v.r.(type) {
			case nil:
				f.regs[dst] = V{n: wrapInt(v.n, kt)}
			case *Term:
				f.regs[dst] = m.fromTerm(m.ctx.Ext(t, kt.w, kf.signed), kt)
			case *Tab:
				return m.liftInto(f, dst, []V{v}, func(c []V) V { return V{n: wrapInt(c[0].n, kt)} })
			default:
				f.regs[dst] = v // pointer bits through uintptr
			}
			return ctlNext
		}
	case kf.isInt && kt.isFloat:
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			return m.liftInto(f, dst, []V{v}, func(c []V) V {
				z := float64(c[0].n)
				if !kf.signed {
					z = float64(uint64(c[0].n))
				}
				if kt.w == 32 {
					z = float64(float32(z))
				}
				return vF(z)
			})
		}
	case kf.isFloat && kt.isInt:
		return func(m *M, f *Frame) ctl {
			return m.liftInto(f, dst, []V{m.get(f, a)}, func(c []V) V {
				z := c[0].f()
				if kt.signed {
					return V{n: wrapInt(int64(z), kt)}
				}
				return V{n: wrapInt(int64(uint64(z)), kt)}
			})
		}
	case kf.isFloat && kt.isFloat:
		return func(m *M, f *Frame) ctl {
			return m.liftInto(f, dst, []V{m.get(f, a)}, func(c []V) V {
				if kt.w == 32 {
					return vF(float64(float32(c[0].f())))
				}
				return c[0]
			})
		}
	case kf.isInt && kt.isStr:
		return func(m *M, f *Frame) ctl {
			v := m.get(f, a)
			return m.liftInto(f, dst, []V{v}, func(c []V) V {
				n := c[0].n
				if n < 0 || n > math.MaxInt32 {
					n = 0xFFFD
				}
				return vStr(string(rune(n)))
			})
		}
	case kf.isStr && kt.isStr:
		return func(m *M, f *Frame) ctl { f.regs[dst] = m.get(f, a); return ctlNext }
	case kf.isStr:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			runes := kindOf(sl.Elem()).w == 32
			return func(m *M, f *Frame) ctl {
				v := m.normS(m.get(f, a))
				s, ok := v.str()
				if ok {
					f.regs[dst] = m.bytesOrRunes(s, runes)
				} else {
					f.regs[dst] = V{r: &LazySlice{s: v, runes: runes}}
				}
				return ctlNext
			}
		}
	case kt.isStr:
		if sl, ok := from.Underlying().(*types.Slice); ok {
			runes := kindOf(sl.Elem()).w == 32
			return func(m *M, f *Frame) ctl {
				v := m.get(f, a)
				switch s := v.r.(type) {
				case nil:
					f.regs[dst] = V{}
				case *LazySlice:
					if runes {
						// []rune -> string: invalid UTF-8 becomes U+FFFD; identity for valid strings
						return m.liftStr(f, dst, []V{s.s}, func(c []string) V { return vStr(string([]rune(c[0]))) })
					}
					f.regs[dst] = s.s
				case *SliceV:
					r, ct := m.sliceToStr(f, s, runes)
					if ct != ctlNext {
						return ct
					}
					f.regs[dst] = r
				}
				return ctlNext
			}
		}
	}
	// pointers, unsafe.Pointer, channels: identity
	return func(m *M, f *Frame) ctl { f.regs[dst] = m.get(f, a); return ctlNext }
}

func (c *comp) deferI(x *ssa.Defer) insFn {
	if x.Call.IsInvoke() {
		recv := c.op(x.Call.Value)
		name := x.Call.Method.Name()
		pkg := x.Call.Method.Pkg()
		var as []opnd
		for _, a := range x.Call.Args {
			as = append(as, c.op(a))
		}
		return func(m *M, f *Frame) ctl {
			r := m.get(f, recv)
			if r.r == nil {
				return m.goPanic("runtime error: nil dereference in deferred interface call")
			}
			ifc := r.r.(*Iface)
			fn := m.p.method(ifc.t, pkg, name)
			args := []V{ifc.v}
			for _, o := range as {
				args = append(args, m.get(f, o))
			}
			f.defers = append(f.defers, deferred{fn: &Closure{fn: fn}, args: args})
			return ctlNext
		}
	}
	fv := c.op(x.Call.Value)
	var as []opnd
	for _, a := range x.Call.Args {
		as = append(as, c.op(a))
	}
	return func(m *M, f *Frame) ctl {
		cl := m.get(f, fv).r.(*Closure)
		var args []V
		for _, o := range as {
			args = append(args, m.get(f, o))
		}
		f.defers = append(f.defers, deferred{fn: cl, args: args})
		return ctlNext
	}
}

func (p *Prog) method(t types.Type, pkg *types.Package, name string) *Fn {
	key := methodKey{t, name}
	if x, ok := p.methods.Load(key); ok {
		return x.(*Fn)
	}
	sf := func() *ssa.Function {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.prog.LookupMethod(t, pkg, name)
	}()
	if sf == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %v", name, t)})
	}
	fn := p.fn(sf)
	p.methods.Store(key, fn)
	return fn
}

type callSite struct {
	dst  int
	fn   *Fn
	rt   types.Type
	args []types.Type
}

func (c *comp) call(cc *ssa.CallCommon, dst int, in *ssa.Call) insFn {
	var as []opnd
	for _, a := range cc.Args {
		as = append(as, c.op(a))
	}
	rt := in.Type()
	getArgs := func(m *M, f *Frame, extra int) []V {
		args := make([]V, extra, extra+len(as))
		for _, o := range as {
			args = append(args, m.get(f, o))
		}
		return args
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name := cc.Method.Name()
		pkg := cc.Method.Pkg()
		site := &callSite{dst: dst, rt: rt}
		return func(m *M, f *Frame) ctl {
			r := m.get(f, recv)
			if t, ok := r.r.(*Tab); ok {
				r = m.normTab(t)
			}
			if r.r == nil {
				return m.goPanic("runtime error: invalid memory address or nil pointer dereference (call of %s on nil interface)", name)
			}
			ifc, ok := r.r.(*Iface)
			if !ok {
				if t, ok := r.r.(*Tab); ok {
					return m.forkTab(t)
				}
				m.unsup("invoke on %T", r.r)
			}
			fn := m.p.method(ifc.t, pkg, name)
			args := getArgs(m, f, 1)
			args[0] = ifc.v
			return m.callFn(f, site, fn, args, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		site := &callSite{dst: dst, rt: rt, args: ats}
		name := b.Name()
		return func(m *M, f *Frame) ctl {
			return m.builtin(f, site, name, getArgs(m, f, 0))
		}
	}
	if sf := cc.StaticCallee(); sf != nil {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			fn := c.p.fn(sf)
			site := &callSite{dst: dst, rt: rt, fn: fn}
			return func(m *M, f *Frame) ctl {
				return m.callFn(f, site, fn, getArgs(m, f, 0), nil)
			}
		}
	}
	fv := c.op(cc.Value)
	site := &callSite{dst: dst, rt: rt}
	return func(m *M, f *Frame) ctl {
		v := m.get(f, fv)
		if v.r == nil {
			return m.goPanic("runtime error: invalid memory address or nil pointer dereference (call of nil func)")
		}
		cl := v.r.(*Closure)
		if cl.bi != nil {
			return m.builtin(f, site, cl.bi.Name(), getArgs(m, f, 0))
		}
		return m.callFn(f, site, cl.fn, getArgs(m, f, 0), cl.bind)
	}
}

func (m *M) callFn(f *Frame, site *callSite, fn *Fn, args, bind []V) ctl {
	if fn.intr != nil {
		v, ct := fn.intr(m, f, site, args)
		switch ct {
		case ctlNext:
			m.fnSeen[fn]++
			f.regs[site.dst] = v
			return ctlNext
		case ctlInterp:
		default:
			return ct
		}
	}
	if fn.isInit && m.initing {
		return ctlNext // dependencies are initialised separately
	}
	fn = m.p.target(fn)
	if !fn.hasBody {
		m.unsup("call of function without body: %s", fn.name)
	}
	m.pushCall(fn, args, bind, site.dst)
	return ctlSwitch
}

func (c *comp) typeAssert(x *ssa.TypeAssert) insFn {
	dst, a := c.reg(x), c.op(x.X)
	at := x.AssertedType
	cat := c.p.canon.of(at)
	isI := types.IsInterface(at)
	var it *types.Interface
	if isI {
		it = at.Underlying().(*types.Interface)
	}
	commaOk := x.CommaOk
	check := func(v V) (V, bool) {
		if v.r == nil {
			return zeroV(at), false
		}
		ifc := v.r.(*Iface)
		if isI {
			if types.Implements(ifc.t, it) {
				return v, true
			}
			return V{}, false
		}
		if ifc.t == cat || types.Identical(ifc.t, cat) {
			return ifc.v, true
		}
		return zeroV(at), false
	}
	return func(m *M, f *Frame) ctl {
		v := m.get(f, a)
		if t, ok := v.r.(*Tab); ok {
			v = m.normTab(t)
			if t, ok := v.r.(*Tab); ok {
				if commaOk && !isAgg(at) {
					rv := m.mapTab(t, func(e V) V { r, _ := check(e); return r })
					ro := m.mapTab(t, func(e V) V { _, ok := check(e); return vBool(ok) })
					f.regs[dst] = V{r: Tuple{rv, ro}}
					return ctlNext
				}
				return m.forkTab(t)
			}
		}
		r, ok := check(v)
		if commaOk {
			f.regs[dst] = V{r: Tuple{r, vBool(ok)}}
			return ctlNext
		}
		if !ok {
			dyn := "nil"
			if v.r != nil {
				dyn = v.r.(*Iface).t.String()
			}
			return m.goPanic("interface conversion: interface is %s, not %s", dyn, at)
		}
		f.regs[dst] = r
		return ctlNext
	}
}
