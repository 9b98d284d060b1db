package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// SymPtr is the address of an element at a symbolic index.
type SymPtr struct {
	s   *SliceV
	idx *Tab
}

func (m *M) forkIdx(f *Frame, sp *SymPtr) ctl { return m.forkTab(sp.idx) }

func (m *M) loadSym(f *Frame, dst int, sp *SymPtr, t types.Type) ctl {
	nv := m.normTab(sp.idx)
	tb, ok := nv.r.(*Tab)
	if !ok {
		f.regs[dst] = sp.s.obj.slots[sp.s.off+int(nv.n)]
		return ctlNext
	}
	if kindOf(t) == (numKind{}) {
		return m.forkTab(tb)
	}
	sym := false
	r := m.mapTab(tb, func(e V) V {
		x := sp.s.obj.slots[sp.s.off+int(e.n)]
		if isSymScalar(x) {
			sym = true
		}
		return x
	})
	if sym {
		return m.forkTab(tb)
	}
	f.regs[dst] = r
	return ctlNext
}

func (m *M) expandLazy(ls *LazySlice) (*SliceV, ctl) {
	var vs []V
	var ct ctl
	if ls.runes {
		vs, ct = m.expandRunes(ls.s)
	} else {
		vs, ct = m.expandBytes(ls.s)
	}
	if ct != ctlNext {
		return nil, ct
	}
	return m.mkSlice(vs, 1).r.(*SliceV), ctlNext
}

// materialise replaces a lazy slice held in register (or returns a fresh one).
func (m *M) sliceOf(f *Frame, o opnd) (*SliceV, ctl) {
	v := m.get(f, o)
	switch s := v.r.(type) {
	case nil:
		return nil, ctlNext
	case *SliceV:
		return s, ctlNext
	case *LazySlice:
		e, ct := m.expandLazy(s)
		if ct != ctlNext {
			return nil, ct
		}
		if o.reg >= 0 {
			f.regs[o.reg] = V{r: e}
		}
		return e, ctlNext
	}
	m.unsup("slice %T", v.r)
	return nil, ctlEnd
}

func (m *M) oob(i, n int64) ctl {
	return m.goPanic("runtime error: index out of range [%d] with length %d", i, n)
}

// index: ssa.Index (array value or string) and string Lookup.
func (c *comp) index(xv, iv ssa.Value, dst int) insFn {
	a, i := c.op(xv), c.op(iv)
	if kindOf(xv.Type()).isStr {
		return func(m *M, f *Frame) ctl {
			s, idx := m.get(f, a), m.get(f, i)
			if str, ok := s.str(); ok && idx.r == nil {
				if idx.n < 0 || idx.n >= int64(len(str)) {
					return m.oob(idx.n, int64(len(str)))
				}
				f.regs[dst] = vInt(int64(str[idx.n]))
				return ctlNext
			}
			if idx.r != nil {
				// try joint table
				nf := false
				st, ok1 := m.asTab(s)
				if t, ok := idx.r.(*Tab); ok && ok1 {
					ts := []*Tab{t}
					if x, ok := st.r.(*Tab); ok {
						ts = append(ts, x)
					}
					if m.fits(ts) {
						ob, ct := m.lift(f, []V{st, idx}, func(c []V) V {
							x, _ := c[0].str()
							return vBool(c[1].n < 0 || c[1].n >= int64(len(x)))
						})
						if ct != ctlNext {
							return ct
						}
						if ob.r == nil && ob.n == 0 {
							return m.liftInto(f, dst, []V{st, idx}, func(c []V) V {
								x, _ := c[0].str()
								return vInt(int64(x[c[1].n]))
							})
						}
						if ob.r != nil {
							return m.forkTab(ob.r.(*Tab))
						}
						nf = true
					}
				}
				_ = nf
				n, ct := m.concInt(f, idx, intK)
				if ct != ctlNext {
					return ct
				}
				idx = vInt(n)
			}
			r, ct, ok := m.byteAt(s, int(idx.n))
			if ct != ctlNext {
				return ct
			}
			if !ok {
				return m.oob(idx.n, -1)
			}
			f.regs[dst] = r
			return ctlNext
		}
	}
	at := xv.Type().Underlying().(*types.Array)
	es, n := slotsOf(at.Elem()), at.Len()
	ag := isAgg(at.Elem())
	return func(m *M, f *Frame) ctl {
		g := m.get(f, a).r.(*Agg)
		idx, ct := m.concInt(f, m.get(f, i), intK)
		if ct != ctlNext {
			return ct
		}
		if idx < 0 || idx >= n {
			return m.oob(idx, n)
		}
		if ag {
			f.regs[dst] = V{r: &Agg{vs: append([]V(nil), g.vs[int(idx)*es:(int(idx)+1)*es]...)}}
		} else {
			f.regs[dst] = g.vs[idx]
		}
		return ctlNext
	}
}

func (c *comp) indexAddr(x *ssa.IndexAddr) insFn {
	dst, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
	var arrN = -1
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arrN = int(at.Len())
		et = at.Elem()
	case *types.Slice:
		et = u.Elem()
	}
	es := slotsOf(et)
	return func(m *M, f *Frame) ctl {
		var s *SliceV
		v := m.get(f, a)
		if arrN >= 0 {
			o, ok := v.r.(*Obj)
			if !ok {
				if v.r == nil {
					return m.goPanic("runtime error: invalid memory address or nil pointer dereference (index)")
				}
				m.unsup("index address of %T", v.r)
			}
			s = &SliceV{obj: o, off: int(v.n), len: arrN, cap: arrN, es: es}
		} else {
			var ct ctl
			s, ct = m.sliceOf(f, a)
			if ct != ctlNext {
				return ct
			}
			if s == nil {
				idx := m.get(f, i)
				return m.oob(idx.n, 0)
			}
		}
		iv := m.get(f, i)
		if iv.r != nil {
			if t, ok := iv.r.(*Tab); ok && es == 1 {
				nv := m.normTab(t)
				if t, ok := nv.r.(*Tab); ok {
					ob := m.mapTab(t, func(e V) V { return vBool(e.n < 0 || e.n >= int64(s.len)) })
					if ob.r != nil {
						return m.forkTab(ob.r.(*Tab))
					}
					if ob.n == 0 {
						f.regs[dst] = V{r: &SymPtr{s: s, idx: t}}
						return ctlNext
					}
				}
			}
			n, ct := m.concInt(f, iv, intK)
			if ct != ctlNext {
				return ct
			}
			iv = vInt(n)
		}
		if iv.n < 0 || iv.n >= int64(s.len) {
			return m.oob(iv.n, int64(s.len))
		}
		f.regs[dst] = V{r: s.obj, n: int64(s.off) + iv.n*int64(es)}
		return ctlNext
	}
}

// ---- maps ----

func (m *M) newMap() *MapObj {
	return &MapObj{in: &mapInner{idx: map[any]int{}}, epoch: m.epoch}
}

type ptrKey struct {
	o any
	n int64
}
type ifKey struct {
	t types.Type
	k any
}

func (m *M) keyOf(v V, t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(t)
		if k.isStr {
			s, ok := v.str()
			if !ok {
				m.unsup("symbolic map key")
			}
			return s
		}
		if v.r != nil {
			m.unsup("symbolic map key %T", v.r)
		}
		if k.isFloat {
			return v.f()
		}
		return v.n
	case *types.Interface:
		if v.r == nil {
			return nil
		}
		i := v.r.(*Iface)
		return ifKey{i.t, m.keyOf(i.v, i.t)}
	case *types.Struct:
		off := 0
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slotsOf(ft)
			var fv V
			if isAgg(ft) {
				fv = V{r: &Agg{vs: v.r.(*Agg).vs[off : off+n]}}
			} else {
				fv = v.r.(*Agg).vs[off]
			}
			s += fmt.Sprintf("%T:%v|", m.keyOf(fv, ft), m.keyOf(fv, ft))
			off += n
		}
		return "struct:" + s
	case *types.Array:
		n := slotsOf(u.Elem())
		s := ""
		for i := 0; i < int(u.Len()); i++ {
			var fv V
			if isAgg(u.Elem()) {
				fv = V{r: &Agg{vs: v.r.(*Agg).vs[i*n : i*n+n]}}
			} else {
				fv = v.r.(*Agg).vs[i]
			}
			s += fmt.Sprintf("%v|", m.keyOf(fv, u.Elem()))
		}
		return "array:" + s
	}
	return ptrKey{v.r, v.n}
}

// concKey makes a map key concrete, forking if needed.
func (m *M) concKey(f *Frame, v V, t types.Type) (V, ctl) {
	switch x := v.r.(type) {
	case *Tab, *Rope:
		if kindOf(t).isStr {
			s, ct := m.concStr(v)
			return vStr(s), ct
		}
		n, ct := m.concInt(f, v, kindOf(t))
		return vInt(n), ct
	case *Term:
		n, ct := m.concInt(f, v, kindOf(t))
		return vInt(n), ct
	case *Iface:
		iv, ct := m.concKey(f, x.v, x.t)
		return V{r: &Iface{t: x.t, v: iv}}, ct
	}
	return v, ctlNext
}

func (m *M) mapSet(mo *MapObj, key, val V, kt types.Type) {
	in := m.mapW(mo)
	k := m.keyOf(key, kt)
	if i, ok := in.idx[k]; ok {
		in.vals[i] = val
		return
	}
	in.idx[k] = len(in.keys)
	in.keys = append(in.keys, key)
	in.vals = append(in.vals, val)
	in.dead = append(in.dead, false)
	in.n++
}

func (m *M) mapDel(mo *MapObj, key V, kt types.Type) {
	k := m.keyOf(key, kt)
	if _, ok := mo.in.idx[k]; !ok {
		return
	}
	in := m.mapW(mo)
	i := in.idx[k]
	delete(in.idx, k)
	in.dead[i] = true
	in.n--
}

func (c *comp) lookup(x *ssa.Lookup) insFn {
	dst, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	kt, vt := mt.Key(), mt.Elem()
	commaOk := x.CommaOk
	scalar := kindOf(vt) != (numKind{})
	return func(m *M, f *Frame) ctl {
		mv := m.get(f, a)
		key := m.get(f, i)
		res := func(v V, ok V) {
			if commaOk {
				f.regs[dst] = V{r: Tuple{v, ok}}
			} else {
				f.regs[dst] = v
			}
		}
		if mv.r == nil {
			res(zeroV(vt), vBool(false))
			return ctlNext
		}
		mo, ok := mv.r.(*MapObj)
		if !ok {
			m.unsup("lookup in %T", mv.r)
		}
		if len(mo.in.idx) == 0 {
			res(zeroV(vt), vBool(false))
			return ctlNext
		}
		switch key.r.(type) {
		case *Rope, *Tab:
			kv, ok := m.asTab(key)
			if !ok {
				return m.forkRope(key.r.(*Rope))
			}
			key = kv
			if t, ok := key.r.(*Tab); ok {
				sym := !scalar
				rv := m.mapTab(t, func(e V) V {
					if j, ok := mo.in.idx[m.keyOf(e, kt)]; ok {
						x := mo.in.vals[j]
						if isSymScalar(x) {
							sym = true
						}
						return x
					}
					return zeroV(vt)
				})
				ro := m.mapTab(t, func(e V) V { _, ok := mo.in.idx[m.keyOf(e, kt)]; return vBool(ok) })
				if sym {
					// fork on which entry is hit
					ct := m.forkBy(t, func(e V) int64 {
						if j, ok := mo.in.idx[m.keyOf(e, kt)]; ok {
							return int64(j)
						}
						return -1
					})
					if ct != ctlNext {
						return ct
					}
					// all combos hit the same entry
					var any V
					m.each(t, func(i int) bool {
						if isBad(t.t[i]) {
							return true
						}
						any = t.t[i]
						return false
					})
					key = any
				} else {
					res(rv, ro)
					return ctlNext
				}
			}
		case *Term:
			n, ct := m.concInt(f, key, kindOf(kt))
			if ct != ctlNext {
				return ct
			}
			key = vInt(n)
		case *Iface:
			k2, ct := m.concKey(f, key, kt)
			if ct != ctlNext {
				return ct
			}
			key = k2
		}
		if j, ok := mo.in.idx[m.keyOf(key, kt)]; ok {
			v := mo.in.vals[j]
			if ag, ok := v.r.(*Agg); ok {
				v = V{r: &Agg{vs: append([]V(nil), ag.vs...)}}
			}
			res(v, vBool(true))
		} else {
			res(zeroV(vt), vBool(false))
		}
		return ctlNext
	}
}

// ---- range ----

type strIter struct {
	pos []int
	rn  []V
}

func (c *comp) rangeI(x *ssa.Range) insFn {
	dst, a := c.reg(x), c.op(x.X)
	if kindOf(x.X.Type()).isStr {
		return func(m *M, f *Frame) ctl {
			v := m.normS(m.get(f, a))
			it := &strIter{}
			if s, ok := v.str(); ok {
				for i, r := range s {
					it.pos = append(it.pos, i)
					it.rn = append(it.rn, vInt(int64(r)))
				}
			} else {
				segs := m.segsOf(v)
				p := 0
				for _, s := range segs {
					if s.tab == nil {
						for i, r := range s.lit {
							it.pos = append(it.pos, p+i)
							it.rn = append(it.rn, vInt(int64(r)))
						}
						p += len(s.lit)
						continue
					}
					// uniform shape of rune widths
					ct := m.forkBy(s.tab, func(e V) int64 {
						x, _ := e.str()
						h := int64(1)
						for i := range x {
							h = h*31 + int64(i) + 7
						}
						return h*31 + int64(len(x))
					})
					if ct != ctlNext {
						return ct
					}
					var sample string
					m.each(s.tab, func(i int) bool {
						if isBad(s.tab.t[i]) {
							return true
						}
						sample, _ = s.tab.t[i].str()
						return false
					})
					k := 0
					for i := range sample {
						kk := k
						it.pos = append(it.pos, p+i)
						it.rn = append(it.rn, m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vInt(int64([]rune(x)[kk])) }))
						k++
					}
					p += len(sample)
				}
			}
			o := m.newObj(2)
			o.slots[1] = V{r: &Host{it}}
			f.regs[dst] = V{r: o}
			return ctlNext
		}
	}
	return func(m *M, f *Frame) ctl {
		o := m.newObj(2)
		o.slots[1] = m.get(f, a)
		f.regs[dst] = V{r: o}
		return ctlNext
	}
}

func (c *comp) next(x *ssa.Next) insFn {
	dst, a := c.reg(x), c.op(x.Iter)
	if x.IsString {
		return func(m *M, f *Frame) ctl {
			o := m.get(f, a).r.(*Obj)
			it := o.slots[1].r.(*Host).x.(*strIter)
			i := int(o.slots[0].n)
			if i >= len(it.pos) {
				f.regs[dst] = V{r: Tuple{vBool(false), V{}, V{}}}
				return ctlNext
			}
			m.set(o, 0, vInt(int64(i+1)))
			f.regs[dst] = V{r: Tuple{vBool(true), vInt(int64(it.pos[i])), it.rn[i]}}
			return ctlNext
		}
	}
	return func(m *M, f *Frame) ctl {
		o := m.get(f, a).r.(*Obj)
		mo, _ := o.slots[1].r.(*MapObj)
		i := int(o.slots[0].n)
		if mo != nil {
			for i < len(mo.in.keys) && mo.in.dead[i] {
				i++
			}
			if i < len(mo.in.keys) {
				m.set(o, 0, vInt(int64(i+1)))
				f.regs[dst] = V{r: Tuple{vBool(true), mo.in.keys[i], mo.in.vals[i]}}
				return ctlNext
			}
		}
		m.set(o, 0, vInt(int64(i)))
		f.regs[dst] = V{r: Tuple{vBool(false), V{}, V{}}}
		return ctlNext
	}
}

// ---- slicing ----

func (c *comp) slice(x *ssa.Slice) insFn {
	dst, a := c.reg(x), c.op(x.X)
	var lo, hi, mx opnd
	if x.Low != nil {
		lo = c.op(x.Low)
	}
	if x.High != nil {
		hi = c.op(x.High)
	}
	if x.Max != nil {
		mx = c.op(x.Max)
	}
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	if kindOf(x.X.Type()).isStr {
		return func(m *M, f *Frame) ctl {
			s := m.normS(m.get(f, a))
			var lv V
			var hv V
			if hasLo {
				lv = m.get(f, lo)
			}
			if hasHi {
				hv = m.get(f, hi)
			}
			if isSymScalar(lv) || isSymScalar(hv) {
				st, ok := m.asTab(s)
				if ok {
					args := []V{st, lv}
					if hasHi {
						args = append(args, hv)
					}
					var ts []*Tab
					for _, v := range args {
						if t, ok := v.r.(*Tab); ok {
							ts = append(ts, t)
						}
					}
					if m.fits(ts) {
						bnd := func(c []V) (string, int64, int64, bool) {
							x, _ := c[0].str()
							l, h := c[1].n, int64(len(x))
							if hasHi {
								h = c[2].n
							}
							return x, l, h, l >= 0 && l <= h && h <= int64(len(x))
						}
						ob, ct := m.lift(f, args, func(c []V) V { _, _, _, ok := bnd(c); return vBool(!ok) })
						if ct != ctlNext {
							return ct
						}
						if ob.r != nil {
							_, _, conc, val := m.boolAlts(ob)
							if !conc {
								return m.forkBoolV(ob)
							}
							if val {
								return m.goPanic("runtime error: slice bounds out of range")
							}
						} else if ob.n != 0 {
							return m.goPanic("runtime error: slice bounds out of range")
						}
						return m.liftInto(f, dst, args, func(c []V) V {
							x, l, h, ok := bnd(c)
							if !ok {
								return bad
							}
							return vStr(x[l:h])
						})
					}
				}
			}
			l, ct := m.concInt(f, lv, intK)
			if ct != ctlNext {
				return ct
			}
			h := int64(-1)
			if hasHi {
				h, ct = m.concInt(f, hv, intK)
				if ct != ctlNext {
					return ct
				}
				if h < 0 {
					return m.goPanic("runtime error: slice bounds out of range [:%d]", h)
				}
			}
			r, ct, ok := m.substr(s, int(l), int(h))
			if ct != ctlNext {
				return ct
			}
			if !ok {
				return m.goPanic("runtime error: slice bounds out of range [%d:%d]", l, h)
			}
			f.regs[dst] = r
			return ctlNext
		}
	}
	arrN := -1
	es := 1
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arrN = int(at.Len())
		es = slotsOf(at.Elem())
	case *types.Slice:
		es = slotsOf(u.Elem())
	}
	return func(m *M, f *Frame) ctl {
		var s *SliceV
		if arrN >= 0 {
			v := m.get(f, a)
			if v.r == nil {
				return m.goPanic("runtime error: invalid memory address or nil pointer dereference (slice)")
			}
			s = &SliceV{obj: v.r.(*Obj), off: int(v.n), len: arrN, cap: arrN, es: es}
		} else {
			if ls, ok := m.get(f, a).r.(*LazySlice); ok && !ls.runes {
				// keep it lazy when only the bounds are concrete
				if !hasMx {
					l, h := int64(0), int64(-1)
					var ct ctl
					if hasLo {
						if l, ct = m.concInt(f, m.get(f, lo), intK); ct != ctlNext {
							return ct
						}
					}
					if hasHi {
						if h, ct = m.concInt(f, m.get(f, hi), intK); ct != ctlNext {
							return ct
						}
					}
					if !(hasHi && h < 0) {
						r, ct, ok := m.substr(ls.s, int(l), int(h))
						if ct != ctlNext {
							return ct
						}
						if ok {
							if str, ok := r.str(); ok {
								f.regs[dst] = m.bytesOrRunes(str, false)
							} else {
								f.regs[dst] = V{r: &LazySlice{s: r}}
							}
							return ctlNext
						}
					}
					return m.goPanic("runtime error: slice bounds out of range [%d:%d]", l, h)
				}
			}
			var ct ctl
			s, ct = m.sliceOf(f, a)
			if ct != ctlNext {
				return ct
			}
			if s == nil {
				s = &SliceV{es: es}
			}
		}
		l, h, mm := int64(0), int64(s.len), int64(s.cap)
		var ct ctl
		if hasLo {
			if l, ct = m.concInt(f, m.get(f, lo), intK); ct != ctlNext {
				return ct
			}
		}
		if hasHi {
			if h, ct = m.concInt(f, m.get(f, hi), intK); ct != ctlNext {
				return ct
			}
		}
		if hasMx {
			if mm, ct = m.concInt(f, m.get(f, mx), intK); ct != ctlNext {
				return ct
			}
		}
		if l < 0 || l > h || h > mm || mm > int64(s.cap) {
			return m.goPanic("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mm, s.cap)
		}
		if s.obj == nil {
			f.regs[dst] = V{}
			return ctlNext
		}
		f.regs[dst] = V{r: &SliceV{obj: s.obj, off: s.off + int(l)*es, len: int(h - l), cap: int(mm - l), es: es}}
		return ctlNext
	}
}

// ---- equality ----

func (m *M) andV(a, b V) V {
	if a.r == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.r == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	ta, o1 := a.r.(*Tab)
	tb, o2 := b.r.(*Tab)
	if o1 && o2 && m.fits([]*Tab{ta, tb}) {
		return m.zip([]*Tab{ta, tb}, func(e []V) V { return vBool(e[0].n != 0 && e[1].n != 0) })
	}
	bk := numKind{isBool: true}
	return m.fromTerm(m.ctx.And(m.toTerm(a, bk), m.toTerm(b, bk)), bk)
}

func (m *M) eq(f *Frame, a, b V, t types.Type) (V, ctl) {
	if isBad(a) || isBad(b) {
		return bad, ctlNext
	}
	k := kindOf(t)
	switch {
	case k.isBool:
		if a.r == nil && b.r == nil {
			return vBool(a.n == b.n), ctlNext
		}
		if a.r == nil {
			a, b = b, a
		}
		if b.r == nil {
			if b.n != 0 {
				return a, ctlNext
			}
			return m.notV(a), ctlNext
		}
		bk := numKind{isBool: true}
		return m.fromTerm(m.ctx.Eq(m.toTerm(a, bk), m.toTerm(b, bk)), bk), ctlNext
	case k.isStr:
		sa, o1 := a.str()
		sb, o2 := b.str()
		if o1 && o2 {
			return vBool(sa == sb), ctlNext
		}
		return m.strCmp(eqlTok, a, b)
	case k.isInt:
		if a.r == nil && b.r == nil {
			return vBool(a.n == b.n), ctlNext
		}
		fr := &Frame{regs: make([]V, 1)}
		ct := m.binSym(fr, 0, eqlTok, a, b, k, k)
		return fr.regs[0], ct
	case k.isFloat:
		return m.lift(f, []V{a, b}, func(c []V) V { return vBool(c[0].f() == c[1].f()) })
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for _, x := range []*V{&a, &b} {
			if tb, ok := x.r.(*Tab); ok {
				*x = m.normTab(tb)
			}
		}
		if a.r == nil {
			a, b = b, a
		}
		if ta, ok := a.r.(*Tab); ok && b.r == nil {
			return m.mapTab(ta, func(e V) V { return vBool(e.r == nil) }), ctlNext
		}
		for _, x := range []V{a, b} {
			if tb, ok := x.r.(*Tab); ok {
				return V{}, m.forkTab(tb)
			}
		}
		if a.r == nil || b.r == nil {
			return vBool(a.r == nil && b.r == nil), ctlNext
		}
		ia, oka := a.r.(*Iface)
		ib, okb := b.r.(*Iface)
		if !oka && !okb {
			return vBool(a == b), ctlNext
		}
		if !oka { // concrete compared with interface
			return m.eq(f, a, ib.v, ib.t)
		}
		if !okb {
			return m.eq(f, ia.v, b, ia.t)
		}
		if ia.t != ib.t && !types.Identical(ia.t, ib.t) {
			return vBool(false), ctlNext
		}
		if !types.Comparable(ia.t) {
			return V{}, m.goPanic("runtime error: comparing uncomparable type %s", ia.t)
		}
		return m.eq(f, ia.v, ib.v, ia.t)
	case *types.Struct:
		r := vBool(true)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slotsOf(ft)
			x, y := subAgg(a, off, n, ft), subAgg(b, off, n, ft)
			e, ct := m.eq(f, x, y, ft)
			if ct != ctlNext {
				return V{}, ct
			}
			r = m.andV(r, e)
			off += n
		}
		return r, ctlNext
	case *types.Array:
		r := vBool(true)
		n := slotsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			x, y := subAgg(a, i*n, n, u.Elem()), subAgg(b, i*n, n, u.Elem())
			e, ct := m.eq(f, x, y, u.Elem())
			if ct != ctlNext {
				return V{}, ct
			}
			r = m.andV(r, e)
		}
		return r, ctlNext
	case *types.Pointer:
		if sa, ok := a.r.(*SymPtr); ok {
			return V{}, m.forkIdx(f, sa)
		}
		if sb, ok := b.r.(*SymPtr); ok {
			return V{}, m.forkIdx(f, sb)
		}
	case *types.Slice:
		return vBool(a.r == nil && b.r == nil), ctlNext
	case *types.Signature:
		return vBool(a.r == nil && b.r == nil), ctlNext
	}
	return vBool(a.r == b.r && a.n == b.n), ctlNext
}

func subAgg(v V, off, n int, t types.Type) V {
	vs := v.r.(*Agg).vs
	if isAgg(t) {
		return V{r: &Agg{vs: vs[off : off+n]}}
	}
	return vs[off]
}

// ---- builtins ----

func (m *M) builtin(f *Frame, site *callSite, name string, args []V) ctl {
	ret := func(v V) ctl {
		if site.dst >= 0 {
			f.regs[site.dst] = v
		}
		return ctlNext
	}
	switch name {
	case "len":
		v := args[0]
		if kindOf(site.args[0]).isStr {
			return ret(m.strLen(v))
		}
		switch x := v.r.(type) {
		case nil:
			return ret(V{})
		case *SliceV:
			return ret(vInt(int64(x.len)))
		case *LazySlice:
			if !x.runes {
				return ret(m.strLen(x.s))
			}
			return ret(m.runeCount(x.s))
		case *MapObj:
			return ret(vInt(int64(x.in.n)))
		case *Agg:
			return ret(vInt(site.args[0].Underlying().(*types.Array).Len()))
		case *Obj:
			return ret(vInt(site.args[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].r.(type) {
		case nil:
			return ret(V{})
		case *SliceV:
			return ret(vInt(int64(x.cap)))
		case *Obj:
			return ret(vInt(site.args[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		st := site.args[0].Underlying().(*types.Slice)
		es := slotsOf(st.Elem())
		var base *SliceV
		switch x := args[0].r.(type) {
		case nil:
			base = &SliceV{es: es}
		case *SliceV:
			base = x
		case *LazySlice:
			e, ct := m.expandLazy(x)
			if ct != ctlNext {
				return ct
			}
			base = e
		}
		var add []V
		if kindOf(site.args[1]).isStr {
			vs, ct := m.expandBytes(args[1])
			if ct != ctlNext {
				return ct
			}
			add = vs
		} else {
			switch x := args[1].r.(type) {
			case nil:
			case *SliceV:
				add = x.obj.slots[x.off : x.off+x.len*es]
			case *LazySlice:
				e, ct := m.expandLazy(x)
				if ct != ctlNext {
					return ct
				}
				add = e.obj.slots[e.off : e.off+e.len*es]
			}
		}
		n := 0
		if es > 0 {
			n = len(add) / es
		} else if x, ok := args[1].r.(*SliceV); ok {
			n = x.len
		}
		if n == 0 {
			if args[0].r == nil {
				return ret(V{})
			}
			return ret(V{r: base})
		}
		nl := base.len + n
		if nl <= base.cap {
			tmp := append([]V(nil), add...)
			for i, v := range tmp {
				m.set(base.obj, base.off+base.len*es+i, v)
			}
			return ret(V{r: &SliceV{obj: base.obj, off: base.off, len: nl, cap: base.cap, es: es}})
		}
		nc := m.p.growCap(st.Elem(), base.len, base.cap, n)
		o := m.newObj(nc * es)
		if base.obj != nil {
			copy(o.slots, base.obj.slots[base.off:base.off+base.len*es])
		}
		copy(o.slots[base.len*es:], add)
		return ret(V{r: &SliceV{obj: o, len: nl, cap: nc, es: es}})
	case "copy":
		var d *SliceV
		switch x := args[0].r.(type) {
		case nil:
			return ret(V{})
		case *SliceV:
			d = x
		default:
			m.unsup("copy to %T", args[0].r)
		}
		var src []V
		if kindOf(site.args[1]).isStr {
			vs, ct := m.expandBytes(args[1])
			if ct != ctlNext {
				return ct
			}
			src = vs
		} else {
			switch x := args[1].r.(type) {
			case nil:
			case *SliceV:
				src = x.obj.slots[x.off : x.off+x.len*x.es]
			case *LazySlice:
				e, ct := m.expandLazy(x)
				if ct != ctlNext {
					return ct
				}
				src = e.obj.slots[e.off : e.off+e.len]
			}
		}
		n := d.len * d.es
		if len(src) < n {
			n = len(src)
		}
		tmp := append([]V(nil), src[:n]...)
		for i, v := range tmp {
			m.set(d.obj, d.off+i, v)
		}
		if d.es == 0 {
			return ret(V{})
		}
		return ret(vInt(int64(n / d.es)))
	case "delete":
		if args[0].r == nil {
			return ret(V{})
		}
		kt := site.args[0].Underlying().(*types.Map).Key()
		k, ct := m.concKey(f, args[1], kt)
		if ct != ctlNext {
			return ct
		}
		m.mapDel(args[0].r.(*MapObj), k, kt)
		return ret(V{})
	case "clear":
		switch x := args[0].r.(type) {
		case *MapObj:
			m.mapW(x)
			x.in = &mapInner{idx: map[any]int{}}
		case *SliceV:
			for i := 0; i < x.len*x.es; i++ {
				m.set(x.obj, x.off+i, V{})
			}
		}
		return ret(V{})
	case "min", "max":
		k := kindOf(site.args[0])
		r := args[0]
		for _, a := range args[1:] {
			fr := &Frame{regs: make([]V, 1)}
			ct := m.liftInto(fr, 0, []V{r, a}, func(c []V) V {
				var lt bool
				switch {
				case k.isFloat:
					lt = c[0].f() < c[1].f()
				case k.isStr:
					x, _ := c[0].str()
					y, _ := c[1].str()
					lt = x < y
				case k.signed:
					lt = c[0].n < c[1].n
				default:
					lt = uint64(c[0].n) < uint64(c[1].n)
				}
				if lt == (name == "min") {
					return c[0]
				}
				return c[1]
			})
			if ct != ctlNext {
				return ct
			}
			r = fr.regs[0]
		}
		return ret(r)
	case "recover":
		if m.panicV != nil && f.panicDef {
			v := *m.panicV
			m.panicV = nil
			return ret(v)
		}
		return ret(V{})
	case "print", "println":
		return ret(V{})
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			return m.goPanic("runtime error: invalid memory address or nil pointer dereference (wrapper)")
		}
		return ret(args[0])
	case "panic":
		v := args[0]
		m.panicAt = m.backtrace()
		m.panicV = &v
		return m.unwind()
	case "String": // unsafe.String(ptr, len)
		n, ct := m.concInt(f, args[1], intK)
		if ct != ctlNext {
			return ct
		}
		if n == 0 {
			return ret(V{})
		}
		o := args[0].r.(*Obj)
		r, ct := m.sliceToStr(f, &SliceV{obj: o, off: int(args[0].n), len: int(n), cap: int(n), es: 1}, false)
		if ct != ctlNext {
			return ct
		}
		return ret(r)
	case "SliceData":
		switch x := args[0].r.(type) {
		case nil:
			return ret(V{})
		case *SliceV:
			return ret(V{r: x.obj, n: int64(x.off)})
		case *LazySlice:
			e, ct := m.expandLazy(x)
			if ct != ctlNext {
				return ct
			}
			return ret(V{r: e.obj, n: int64(e.off)})
		}
	}
	m.unsup("builtin %s(%v)", name, args)
	return ctlEnd
}
