package main

import (
	"go/token"
	"math"
	"sort"
	"strings"
)

// ---- tables over finite choice variables ----

const (
	maxCombos   = 4096
	maxTabBytes = 1 << 20
)

func (m *M) domOf(v int) []int16 {
	if v < len(m.dom) && m.dom[v] != nil {
		return m.dom[v]
	}
	return m.cvars[v].full
}

func (m *M) varTab(v int, ents []V) V {
	t := &Tab{vars: []int{v}, sizes: []int{m.cvars[v].size}, t: ents}
	return m.normTab(t)
}

// eqv compares two concrete entry values structurally.
func eqv(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.r.(type) {
	case nil:
		return b.r == nil
	case string:
		y, ok := b.r.(string)
		return ok && x == y
	case *Iface:
		y, ok := b.r.(*Iface)
		return ok && (x == y || x.t == y.t && eqv(x.v, y.v))
	case badMark:
		return isBad(b)
	case Tuple:
		y, ok := b.r.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqv(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Obj:
		return a.r == b.r
	case *Host:
		return a.r == b.r
	case *SliceV:
		return a.r == b.r
	case *MapObj:
		return a.r == b.r
	case *Closure:
		return a.r == b.r
	case hostSlice:
		y, ok := b.r.(hostSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqv(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// hostSlice is a list result inside a table entry, expanded into a SliceV when
// the table has been resolved.
type hostSlice []V

// each visits the in-domain entries of t: cb(index, assignment).
func (m *M) each(t *Tab, cb func(i int) bool) {
	switch len(t.vars) {
	case 0:
		cb(0)
		return
	case 1:
		for _, x := range m.domOf(t.vars[0]) {
			if !cb(int(x)) {
				return
			}
		}
		return
	}
	var rec func(k, base int) bool
	rec = func(k, base int) bool {
		if k == len(t.vars) {
			return cb(base)
		}
		for _, x := range m.domOf(t.vars[k]) {
			if !rec(k+1, base*t.sizes[k]+int(x)) {
				return false
			}
		}
		return true
	}
	rec(0, 0)
}

func (m *M) normTab(t *Tab) V {
	if t.ver == m.domVer && t.ver != 0 {
		return t.norm
	}
	first := true
	var fv V
	same := true
	m.each(t, func(i int) bool {
		if isBad(t.t[i]) {
			return true
		}
		if first {
			fv, first = t.t[i], false
			return true
		}
		if !eqv(fv, t.t[i]) {
			same = false
			return false
		}
		return true
	})
	t.ver = m.domVer
	if first {
		t.norm = bad
	} else if same {
		t.norm = fv
	} else {
		t.norm = V{r: t}
		if len(t.vars) > 1 {
			// drop variables that no longer matter
			for k := range t.vars {
				d := m.domOf(t.vars[k])
				if len(d) == 1 || m.indep(t, k, d) {
					nt := m.dropVar(t, k, int(d[0]))
					t.norm = m.normTab(nt)
					return t.norm
				}
			}
		}
	}
	return t.norm
}

func (t *Tab) stride(k int) int {
	s := 1
	for j := k + 1; j < len(t.sizes); j++ {
		s *= t.sizes[j]
	}
	return s
}

func (m *M) indep(t *Tab, k int, d []int16) bool {
	st := t.stride(k)
	ok := true
	m.each(t, func(i int) bool {
		x := (i / st) % t.sizes[k]
		if x != int(d[0]) {
			return true
		}
		b := i - x*st
		ref := t.t[i]
		for _, y := range d[1:] {
			e := t.t[b+int(y)*st]
			if isBad(ref) {
				ref = e
				continue
			}
			if isBad(e) {
				continue
			}
			if !eqv(ref, e) {
				ok = false
				return false
			}
		}
		return true
	})
	return ok
}

func (m *M) dropVar(t *Tab, k, val int) *Tab {
	nt := &Tab{}
	for j := range t.vars {
		if j != k {
			nt.vars = append(nt.vars, t.vars[j])
			nt.sizes = append(nt.sizes, t.sizes[j])
		}
	}
	st := t.stride(k)
	n := len(t.t) / t.sizes[k]
	nt.t = make([]V, n)
	for i := 0; i < n; i++ {
		hi, lo := i/st, i%st
		e := t.t[hi*st*t.sizes[k]+val*st+lo]
		if isBad(e) {
			for _, y := range m.domOf(t.vars[k]) {
				e2 := t.t[hi*st*t.sizes[k]+int(y)*st+lo]
				if !isBad(e2) {
					e = e2
					break
				}
			}
		}
		nt.t[i] = e
	}
	return nt
}

func (m *M) mapTab(t *Tab, fn func(V) V) V {
	nt := &Tab{vars: t.vars, sizes: t.sizes, t: make([]V, len(t.t))}
	for i := range nt.t {
		nt.t[i] = bad
	}
	m.each(t, func(i int) bool {
		if !isBad(t.t[i]) {
			nt.t[i] = fn(t.t[i])
		}
		return true
	})
	return m.normTab(nt)
}

// combos returns the union of variables of the tables and the in-domain size.
func (m *M) unionVars(ts []*Tab) (vars []int, n int) {
	seen := map[int]bool{}
	for _, t := range ts {
		for _, v := range t.vars {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	sort.Ints(vars)
	n = 1
	for _, v := range vars {
		n *= len(m.domOf(v))
		if n > 1<<30 {
			n = 1 << 30
		}
	}
	return
}

// zip builds a table over the union of the tables' variables.
func (m *M) zip(ts []*Tab, fn func([]V) V) V {
	vars, _ := m.unionVars(ts)
	nt := &Tab{vars: vars, sizes: make([]int, len(vars))}
	tot := 1
	for i, v := range vars {
		nt.sizes[i] = m.cvars[v].size
		tot *= nt.sizes[i]
	}
	if tot > 1<<20 {
		m.unsup("table too large")
	}
	nt.t = make([]V, tot)
	for i := range nt.t {
		nt.t[i] = bad
	}
	// strides of each source table in terms of union variables
	type src struct {
		t   *Tab
		mul []int
	}
	srcs := make([]src, len(ts))
	for i, t := range ts {
		mul := make([]int, len(vars))
		for k, v := range t.vars {
			for j, u := range vars {
				if u == v {
					mul[j] = t.stride(k)
				}
			}
		}
		srcs[i] = src{t, mul}
	}
	idx := make([]int, len(ts))
	args := make([]V, len(ts))
	var rec func(k, base int)
	rec = func(k, base int) {
		if k == len(vars) {
			for i := range srcs {
				args[i] = srcs[i].t.t[idx[i]]
				if isBad(args[i]) {
					return
				}
			}
			nt.t[base] = fn(args)
			return
		}
		for _, x := range m.domOf(vars[k]) {
			for i := range srcs {
				idx[i] += srcs[i].mul[k] * int(x)
			}
			rec(k+1, base*nt.sizes[k]+int(x))
			for i := range srcs {
				idx[i] -= srcs[i].mul[k] * int(x)
			}
		}
	}
	rec(0, 0)
	return m.normTab(nt)
}

// fits reports whether the tables can be combined exactly.
func (m *M) fits(ts []*Tab) bool {
	vars, n := m.unionVars(ts)
	if n > m.comboLimit() {
		return false
	}
	tot := 1
	for _, v := range vars {
		tot *= m.cvars[v].size
		if tot > 1<<20 {
			return false
		}
	}
	return true
}

func (m *M) comboLimit() int { return maxCombos }

// asTab brings a scalar or string into table (or concrete) form if it fits.
func (m *M) asTab(v V) (V, bool) {
	switch x := v.r.(type) {
	case *Tab:
		return m.normTab(x), true
	case *Rope:
		return m.ropeToTab(x)
	case *Term:
		return v, false
	}
	return v, true
}

// liftInto applies fn to all combinations of the arguments.
func (m *M) liftInto(f *Frame, dst int, args []V, fn func([]V) V) ctl {
	r, ct := m.lift(f, args, fn)
	if ct != ctlNext {
		return ct
	}
	f.regs[dst] = r
	return ctlNext
}

func (m *M) liftStr(f *Frame, dst int, args []V, fn func([]string) V) ctl {
	return m.liftInto(f, dst, args, func(vs []V) V {
		ss := make([]string, len(vs))
		for i, v := range vs {
			ss[i], _ = v.str()
		}
		return fn(ss)
	})
}

// lift evaluates fn on every combination of values; if that is too large it
// forks on one of the arguments and returns ctlSwitch.
func (m *M) lift(f *Frame, args []V, fn func([]V) V) (V, ctl) {
	conc := true
	for i := range args {
		switch x := args[i].r.(type) {
		case *Tab:
			a := m.normTab(x)
			if !isSameSlice(args, i, a) {
				args[i] = a
			}
			if _, ok := a.r.(*Tab); ok {
				conc = false
			}
		case *Rope:
			args[i] = m.normS(args[i])
			if isSymScalar(args[i]) {
				conc = false
			}
		case *Term:
			st := m.simp(x)
			if st.op != OConst {
				return V{}, m.forkTerm(f, x)
			}
			args[i] = V{n: sx(st.val, st.w)}
			if st.w == 0 {
				args[i] = V{n: int64(st.val)}
			}
		}
	}
	if conc {
		for _, a := range args {
			if isBad(a) {
				return bad, ctlNext
			}
		}
		return fn(args), ctlNext
	}
	vs := make([]V, len(args))
	var ts []*Tab
	var pos []int
	bytes := 0
	for i, a := range args {
		if r, ok := a.r.(*Rope); ok {
			t, ok := m.ropeToTab(r)
			if !ok {
				return V{}, m.forkRope(r)
			}
			a = t
		}
		vs[i] = a
		if t, ok := a.r.(*Tab); ok {
			ts = append(ts, t)
			pos = append(pos, i)
		} else if s, ok := a.r.(string); ok {
			bytes += len(s)
		}
	}
	if !m.fits(ts) {
		// fork on the table with the fewest classes
		best := ts[0]
		for _, t := range ts {
			if len(t.t) < len(best.t) {
				best = t
			}
		}
		return V{}, m.forkTab(best)
	}
	cur := make([]V, len(args))
	copy(cur, vs)
	r := m.zip(ts, func(e []V) V {
		for k, p := range pos {
			cur[p] = e[k]
		}
		return fn(cur)
	})
	return r, ctlNext
}

func isSameSlice(args []V, i int, a V) bool {
	return args[i].n == a.n && args[i].r == a.r && a.r != nil
}

// member is the condition "variable v takes a value in set" given its domain.
func (m *M) member(v int, set []int16) *Term {
	d := m.domOf(v)
	if len(set) == len(d) {
		return m.ctx.T
	}
	if len(set) == 0 {
		return m.ctx.F
	}
	cv := m.cvars[v]
	neg := false
	if len(set) > len(d)/2 {
		in := map[int16]bool{}
		for _, x := range set {
			in[x] = true
		}
		var c []int16
		for _, x := range d {
			if !in[x] {
				c = append(c, x)
			}
		}
		set, neg = c, true
	}
	var ors []*Term
	w := cv.t.w
	for i := 0; i < len(set); {
		j := i
		for j+1 < len(set) && set[j+1] == set[j]+1 {
			j++
		}
		if j == i {
			ors = append(ors, m.ctx.Eq(cv.t, m.ctx.BV(uint64(set[i]), w)))
		} else {
			ors = append(ors, m.ctx.And(m.ctx.Cmp(OUle, m.ctx.BV(uint64(set[i]), w), cv.t), m.ctx.Cmp(OUle, cv.t, m.ctx.BV(uint64(set[j]), w))))
		}
		i = j + 1
	}
	t := m.ctx.Or(ors...)
	if neg {
		t = m.ctx.Not(t)
	}
	return t
}

// tabCond builds the condition under which pred holds of t's value.
func (m *M) tabCond(t *Tab, pred func(V) bool) *Term {
	memo := map[string]*Term{}
	var rec func(k, base, span int) *Term
	rec = func(k, base, span int) *Term {
		if k == len(t.vars) {
			e := t.t[base]
			return m.ctx.Bool(!isBad(e) && pred(e))
		}
		sub := span / t.sizes[k]
		groups := map[string][]int16{}
		var order []string
		rep := map[string]int{}
		for _, x := range m.domOf(t.vars[k]) {
			b := base + int(x)*sub
			var sb strings.Builder
			m.sig(t, k+1, b, sub, pred, &sb)
			s := sb.String()
			if _, ok := groups[s]; !ok {
				order = append(order, s)
				rep[s] = b
			}
			groups[s] = append(groups[s], x)
		}
		var ors []*Term
		for _, s := range order {
			key := string(rune(k)) + s
			st, ok := memo[key]
			if !ok {
				st = rec(k+1, rep[s], sub)
				memo[key] = st
			}
			ors = append(ors, m.ctx.And(m.member(t.vars[k], groups[s]), st))
		}
		return m.ctx.Or(ors...)
	}
	return rec(0, 0, len(t.t))
}

func (m *M) sig(t *Tab, k, base, span int, pred func(V) bool, sb *strings.Builder) {
	if k == len(t.vars) {
		e := t.t[base]
		if !isBad(e) && pred(e) {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
		return
	}
	sub := span / t.sizes[k]
	for _, x := range m.domOf(t.vars[k]) {
		m.sig(t, k+1, base+int(x)*sub, sub, pred, sb)
	}
}

func noAlt(c *Term) alt { return alt{cond: c, nvar: -1} }

// boolAlts splits on a symbolic boolean.
func (m *M) boolAlts(v V) (at, af alt, conc, val bool) {
	switch x := v.r.(type) {
	case *Tab:
		nv := m.normTab(x)
		t, ok := nv.r.(*Tab)
		if !ok {
			return at, af, true, nv.n != 0
		}
		c := m.tabCond(t, func(e V) bool { return e.n != 0 })
		at, af = noAlt(c), noAlt(m.ctx.Not(c))
		if len(t.vars) == 1 {
			var ts, fs []int16
			for _, x := range m.domOf(t.vars[0]) {
				if e := t.t[x]; !isBad(e) && e.n != 0 {
					ts = append(ts, x)
				} else {
					fs = append(fs, x)
				}
			}
			at.nvar, at.narrow = t.vars[0], ts
			af.nvar, af.narrow = t.vars[0], fs
		}
		return at, af, false, false
	case *Term:
		if x == m.ctx.T {
			return at, af, true, true
		}
		if x == m.ctx.F {
			return at, af, true, false
		}
		nx := m.ctx.Not(x)
		for _, p := range m.pc {
			if p == x {
				return at, af, true, true
			}
			if p == nx {
				return at, af, true, false
			}
		}
		return noAlt(x), noAlt(nx), false, false
	}
	m.unsup("branch on %T", v.r)
	return
}

func (m *M) notV(v V) V {
	switch x := v.r.(type) {
	case nil:
		return V{n: 1 - v.n}
	case *Tab:
		return m.mapTab(x, func(e V) V { return V{n: 1 - e.n} })
	case *Term:
		return m.fromTerm(m.ctx.Not(x), numKind{isBool: true})
	}
	if isBad(v) {
		return v
	}
	m.unsup("not %T", v.r)
	return V{}
}

func (m *M) fromTerm(t *Term, k numKind) V {
	if t.op == OConst {
		if k.isBool {
			return V{n: int64(t.val)}
		}
		return V{n: wrapInt(int64(t.val), k)}
	}
	return V{r: t}
}

func (m *M) toTerm(v V, k numKind) *Term {
	w := k.w
	if k.isBool {
		w = 0
	}
	switch x := v.r.(type) {
	case nil:
		if k.isBool {
			return m.ctx.Bool(v.n != 0)
		}
		return m.ctx.BV(uint64(v.n), w)
	case *Term:
		return x
	case *Tab:
		nv := m.normTab(x)
		t, ok := nv.r.(*Tab)
		if !ok {
			return m.toTerm(nv, k)
		}
		if k.isBool {
			return m.tabCond(t, func(e V) bool { return e.n != 0 })
		}
		// ite over distinct values
		groups := map[int64]bool{}
		var vals []int64
		m.each(t, func(i int) bool {
			e := t.t[i]
			if !isBad(e) && !groups[e.n] {
				groups[e.n] = true
				vals = append(vals, e.n)
			}
			return true
		})
		r := m.ctx.BV(uint64(vals[0]), w)
		for _, x := range vals[1:] {
			c := m.tabCond(t, func(e V) bool { return e.n == x })
			r = m.ctx.Ite(c, m.ctx.BV(uint64(x), w), r)
		}
		if _, ok := m.termTabs[r]; !ok {
			m.termTabs[r] = t
			m.ttLog = append(m.ttLog, r)
		}
		return r
	}
	m.unsup("term of %T", v.r)
	return nil
}

func (m *M) binSym(f *Frame, dst int, op token.Token, u, v V, k, ky numKind) ctl {
	if isBad(u) || isBad(v) {
		f.regs[dst] = bad
		return ctlNext
	}
	_, tu := u.r.(*Term)
	_, tv := v.r.(*Term)
	if !tu && !tv {
		var ts []*Tab
		for _, x := range []V{u, v} {
			if t, ok := x.r.(*Tab); ok {
				nv := m.normTab(t)
				if nt, ok := nv.r.(*Tab); ok {
					ts = append(ts, nt)
				}
			}
		}
		if m.fits(ts) {
			if op == token.QUO || op == token.REM {
				if t, ok := v.r.(*Tab); ok {
					z := false
					m.each(t, func(i int) bool {
						if !isBad(t.t[i]) && t.t[i].n == 0 {
							z = true
						}
						return true
					})
					if z {
						if nv, ok := m.normTab(t).r.(*Tab); ok {
							return m.forkTab(nv)
						}
					}
				}
			}
			return m.liftInto(f, dst, []V{u, v}, func(c []V) V {
				r, msg := intBin(op, c[0].n, c[1].n, k, ky)
				if msg != "" {
					return bad
				}
				return V{n: r}
			})
		}
	}
	if ky != k && (op == token.SHL || op == token.SHR) {
		if t, ok := v.r.(*Tab); ok {
			if nt, ok := m.normTab(t).r.(*Tab); ok {
				return m.forkTab(nt)
			}
		}
		if t, ok := v.r.(*Term); ok {
			return m.forkTerm(f, t)
		}
	}
	x, y := m.toTerm(u, k), m.toTerm(v, k)
	c := m.ctx
	setI := func(t *Term) ctl { f.regs[dst] = m.fromTerm(t, k); return ctlNext }
	setB := func(t *Term) ctl { f.regs[dst] = m.fromTerm(t, numKind{isBool: true}); return ctlNext }
	lt, le := OUlt, OUle
	if k.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return setI(c.Bin(OAdd, x, y))
	case token.SUB:
		return setI(c.Bin(OSub, x, y))
	case token.MUL:
		return setI(c.Bin(OMul, x, y))
	case token.AND:
		return setI(c.Bin(OBAnd, x, y))
	case token.OR:
		return setI(c.Bin(OBOr, x, y))
	case token.XOR:
		return setI(c.Bin(OBXor, x, y))
	case token.EQL:
		return setB(c.Eq(x, y))
	case token.NEQ:
		return setB(c.Not(c.Eq(x, y)))
	case token.LSS:
		return setB(c.Cmp(lt, x, y))
	case token.LEQ:
		return setB(c.Cmp(le, x, y))
	case token.GTR:
		return setB(c.Cmp(lt, y, x))
	case token.GEQ:
		return setB(c.Cmp(le, y, x))
	case token.QUO, token.REM:
		if y.op == OConst && y.val != 0 {
			o := OUDiv
			switch {
			case op == token.QUO && k.signed:
				o = OSDiv
			case op == token.REM && k.signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return setI(c.Bin(o, x, y))
		}
	case token.SHL, token.SHR:
		if v.r == nil {
			o := OShl
			if op == token.SHR {
				o = OLshr
				if k.signed {
					o = OAshr
				}
			}
			return setI(c.Bin(o, x, c.BV(uint64(v.n), k.w)))
		}
	}
	m.unsup("symbolic %s", op)
	return ctlEnd
}

// forkTab splits on the value of a table (one variable at a time).
func (m *M) forkTab(t *Tab) ctl {
	nv := m.normTab(t)
	nt, ok := nv.r.(*Tab)
	if !ok {
		return ctlSwitch
	}
	t = nt
	// choose the variable with the fewest column classes
	best, bestN := -1, 1<<30
	var bestG [][]int16
	for k := range t.vars {
		g := m.columns(t, k)
		if len(g) > 1 && len(g) < bestN {
			best, bestN, bestG = k, len(g), g
		}
	}
	if best < 0 {
		m.unsup("forkTab: no split")
	}
	var alts []alt
	for _, g := range bestG {
		alts = append(alts, alt{cond: m.member(t.vars[best], g), nvar: t.vars[best], narrow: g})
	}
	return m.choose(alts)
}

func (m *M) columns(t *Tab, k int) [][]int16 {
	st := t.stride(k)
	d := m.domOf(t.vars[k])
	var groups [][]int16
	var reps []int16
next:
	for _, x := range d {
		for gi, r := range reps {
			same := true
			m.each(t, func(i int) bool {
				y := (i / st) % t.sizes[k]
				if y != int(d[0]) {
					return true
				}
				b := i - y*st
				if !eqv(t.t[b+int(x)*st], t.t[b+int(r)*st]) {
					same = false
					return false
				}
				return true
			})
			if same {
				groups[gi] = append(groups[gi], x)
				continue next
			}
		}
		reps = append(reps, x)
		groups = append(groups, []int16{x})
	}
	return groups
}

// forkBy splits the domain of a one-variable table by class; for tables over
// several variables it forks on the mapped table.
func (m *M) forkBy(t *Tab, class func(V) int64) ctl {
	nv := m.mapTab(t, func(e V) V { return V{n: class(e)} })
	nt, ok := nv.r.(*Tab)
	if !ok {
		return ctlNext
	}
	return m.forkTab(nt)
}

// simp rebuilds a term under the current domains.
func (m *M) simp(t *Term) *Term {
	if t.op == OConst || t.op == OVar {
		return t
	}
	if tb, ok := m.termTabs[t]; ok {
		nv := m.normTab(tb)
		if nv.r == nil {
			if t.w == 0 {
				return m.ctx.Bool(nv.n != 0)
			}
			return m.ctx.BV(uint64(nv.n), t.w)
		}
		return t
	}
	ch := false
	as := make([]*Term, len(t.a))
	for i, x := range t.a {
		as[i] = m.simp(x)
		if as[i] != x {
			ch = true
		}
	}
	if !ch {
		return t
	}
	c := m.ctx
	switch t.op {
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OEq:
		return c.Eq(as[0], as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OUlt, OUle, OSlt, OSle:
		return c.Cmp(t.op, as[0], as[1])
	case OZext:
		return c.Ext(as[0], t.w, false)
	case OSext:
		return c.Ext(as[0], t.w, true)
	case OExtract:
		return c.Ext(as[0], t.w, false)
	case OBNot, ONeg:
		return c.Un(t.op, as[0])
	}
	return c.Bin(t.op, as[0], as[1])
}

// forkTerm makes progress towards a concrete value for a term by splitting on
// one of the tables it was built from.
func (m *M) forkTerm(f *Frame, t *Term) ctl {
	var found *Tab
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if found != nil || seen[t] {
			return
		}
		seen[t] = true
		if tb, ok := m.termTabs[t]; ok {
			if nt, ok := m.normTab(tb).r.(*Tab); ok {
				found = nt
			}
			return
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(t)
	if found == nil {
		m.unsup("concretisation of an arithmetic term")
	}
	return m.forkTab(found)
}

// termInterval: not tracked; a term is only known small if it is an extension.
func (m *M) knownLess(t *Term, n uint64) bool {
	return t.op == OZext && mask(t.a[0].w) < n
}

// concInt makes an integer concrete, forking if needed.
func (m *M) concInt(f *Frame, v V, k numKind) (int64, ctl) {
	switch x := v.r.(type) {
	case nil:
		return v.n, ctlNext
	case *Tab:
		nv := m.normTab(x)
		if t, ok := nv.r.(*Tab); ok {
			return 0, m.forkTab(t)
		}
		return nv.n, ctlNext
	case *Term:
		st := m.simp(x)
		if st.op == OConst {
			return wrapInt(int64(st.val), k), ctlNext
		}
		return 0, m.forkTerm(f, x)
	}
	m.unsup("integer %T", v.r)
	return 0, ctlEnd
}

func (m *M) concStr(v V) (string, ctl) {
	v = m.normS(v)
	if s, ok := v.str(); ok {
		return s, ctlNext
	}
	switch x := v.r.(type) {
	case *Tab:
		return "", m.forkTab(x)
	case *Rope:
		return "", m.forkRope(x)
	}
	m.unsup("string %T", v.r)
	return "", ctlEnd
}

// ---- strings ----

func (m *M) normS(v V) V {
	switch x := v.r.(type) {
	case *Tab:
		return m.normTab(x)
	case *Rope:
		ch := false
		for _, s := range x.segs {
			if s.tab != nil {
				nv := m.normTab(s.tab)
				if nv.r != any(s.tab) {
					ch = true
					break
				}
			}
		}
		if !ch {
			return v
		}
		var rb ropeB
		for _, s := range x.segs {
			if s.tab == nil {
				rb.lit(s.lit)
			} else {
				rb.add(m.normTab(s.tab))
			}
		}
		return rb.v()
	}
	return v
}

type ropeB struct{ segs []seg }

func (b *ropeB) lit(s string) {
	if s == "" {
		return
	}
	if n := len(b.segs); n > 0 && b.segs[n-1].tab == nil {
		b.segs[n-1].lit += s
		return
	}
	b.segs = append(b.segs, seg{lit: s})
}

func (b *ropeB) add(v V) {
	switch x := v.r.(type) {
	case nil:
	case string:
		b.lit(x)
	case *Tab:
		b.segs = append(b.segs, seg{tab: x})
	case *Rope:
		for _, s := range x.segs {
			if s.tab == nil {
				b.lit(s.lit)
			} else {
				b.segs = append(b.segs, s)
			}
		}
	}
}

func (b *ropeB) v() V {
	if len(b.segs) == 0 {
		return V{}
	}
	if len(b.segs) == 1 {
		if b.segs[0].tab != nil {
			return V{r: b.segs[0].tab}
		}
		return vStr(b.segs[0].lit)
	}
	return V{r: &Rope{segs: b.segs}}
}

func (m *M) concat(vs ...V) V {
	var rb ropeB
	for _, v := range vs {
		rb.add(m.normS(v))
	}
	return rb.v()
}

func (m *M) segsOf(v V) []seg {
	v = m.normS(v)
	switch x := v.r.(type) {
	case nil:
		return nil
	case string:
		return []seg{{lit: x}}
	case *Tab:
		return []seg{{tab: x}}
	case *Rope:
		return x.segs
	}
	m.unsup("segments of %T", v.r)
	return nil
}

// ropeToTab flattens a rope into one table when small enough.
func (m *M) ropeToTab(r *Rope) (V, bool) {
	v := m.normS(V{r: r})
	rr, ok := v.r.(*Rope)
	if !ok {
		return v, true
	}
	var ts []*Tab
	n := 0
	for _, s := range rr.segs {
		if s.tab != nil {
			ts = append(ts, s.tab)
		} else {
			n += len(s.lit)
		}
	}
	_, c := m.unionVars(ts)
	if !m.fits(ts) || c*(n+16*len(ts)) > maxTabBytes {
		return V{r: r}, false
	}
	segs := rr.segs
	return m.zip(ts, func(e []V) V {
		var sb strings.Builder
		k := 0
		for _, s := range segs {
			if s.tab != nil {
				x, _ := e[k].str()
				k++
				sb.WriteString(x)
			} else {
				sb.WriteString(s.lit)
			}
		}
		return vStr(sb.String())
	}), true
}

// forkRope splits on the table segment with the fewest alternatives.
func (m *M) forkRope(r *Rope) ctl {
	v := m.normS(V{r: r})
	rr, ok := v.r.(*Rope)
	if !ok {
		return ctlSwitch
	}
	var best *Tab
	bn := 1 << 30
	for _, s := range rr.segs {
		if s.tab != nil {
			_, n := m.unionVars([]*Tab{s.tab})
			if n < bn {
				best, bn = s.tab, n
			}
		}
	}
	return m.forkTab(best)
}

// strLen is the length of a string value (may be a table or a term).
func (m *M) strLen(v V) V {
	v = m.normS(v)
	switch x := v.r.(type) {
	case nil:
		return V{}
	case string:
		return vInt(int64(len(x)))
	case *Tab:
		return m.mapTab(x, func(e V) V { s, _ := e.str(); return vInt(int64(len(s))) })
	case *Rope:
		return m.sumSegs(x, func(s string) int { return len(s) })
	}
	m.unsup("len of %T", v.r)
	return V{}
}

func (m *M) sumSegs(r *Rope, measure func(string) int) V {
	base := int64(0)
	var ts []*Tab
	for _, s := range r.segs {
		if s.tab == nil {
			base += int64(measure(s.lit))
			continue
		}
		nv := m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vInt(int64(measure(x))) })
		if t, ok := nv.r.(*Tab); ok {
			ts = append(ts, t)
		} else {
			base += nv.n
		}
	}
	if len(ts) == 0 {
		return vInt(base)
	}
	if m.fits(ts) {
		return m.zip(ts, func(e []V) V {
			n := base
			for _, x := range e {
				n += x.n
			}
			return vInt(n)
		})
	}
	t := m.ctx.BV(uint64(base), 64)
	for _, x := range ts {
		t = m.ctx.Bin(OAdd, t, m.toTerm(V{r: x}, intK))
	}
	return V{r: t}
}

// strCmp compares two strings, at least one symbolic.
func (m *M) strCmp(op token.Token, u, v V) (V, ctl) {
	u, v = m.normS(u), m.normS(v)
	if isBad(u) || isBad(v) {
		return bad, ctlNext
	}
	su, ok1 := u.str()
	sv, ok2 := v.str()
	if ok1 && ok2 {
		return strBin(op, su, sv), ctlNext
	}
	ut, o1 := m.asTab(u)
	vt, o2 := m.asTab(v)
	if o1 && o2 {
		var ts []*Tab
		for _, x := range []V{ut, vt} {
			if t, ok := x.r.(*Tab); ok {
				ts = append(ts, t)
			}
		}
		if m.fits(ts) {
			return m.lift(nil, []V{ut, vt}, func(c []V) V {
				a, _ := c[0].str()
				b, _ := c[1].str()
				return strBin(op, a, b)
			})
		}
	}
	if op == token.EQL || op == token.NEQ {
		r, ok := m.ropeEq(u, v)
		if ok {
			if op == token.NEQ {
				return m.notV(r), ctlNext
			}
			return r, ctlNext
		}
	}
	for _, x := range []V{u, v} {
		if r, ok := x.r.(*Rope); ok {
			return V{}, m.forkRope(r)
		}
	}
	if t, ok := u.r.(*Tab); ok {
		return V{}, m.forkTab(t)
	}
	return V{}, m.forkTab(v.r.(*Tab))
}

// ropeEq decides equality of ropes segment-wise where alignment is clear.
func (m *M) ropeEq(u, v V) (V, bool) {
	a := append([]seg(nil), m.segsOf(u)...)
	b := append([]seg(nil), m.segsOf(v)...)
	// strip equal prefixes and suffixes
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if x.tab != nil && x.tab == y.tab {
			a, b = a[1:], b[1:]
			continue
		}
		if x.tab == nil && y.tab == nil {
			n := 0
			for n < len(x.lit) && n < len(y.lit) && x.lit[n] == y.lit[n] {
				n++
			}
			if n < len(x.lit) && n < len(y.lit) {
				return vBool(false), true
			}
			a[0].lit, b[0].lit = x.lit[n:], y.lit[n:]
			if a[0].lit == "" {
				a = a[1:]
			}
			if len(b) > 0 && b[0].lit == "" {
				b = b[1:]
			}
			continue
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		x, y := a[len(a)-1], b[len(b)-1]
		if x.tab != nil && x.tab == y.tab {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if x.tab == nil && y.tab == nil {
			n := 0
			for n < len(x.lit) && n < len(y.lit) && x.lit[len(x.lit)-1-n] == y.lit[len(y.lit)-1-n] {
				n++
			}
			if n < len(x.lit) && n < len(y.lit) {
				return vBool(false), true
			}
			a[len(a)-1].lit, b[len(b)-1].lit = x.lit[:len(x.lit)-n], y.lit[:len(y.lit)-n]
			if a[len(a)-1].lit == "" {
				a = a[:len(a)-1]
			}
			if b[len(b)-1].lit == "" {
				b = b[:len(b)-1]
			}
			continue
		}
		break
	}
	if len(a) == 0 && len(b) == 0 {
		return vBool(true), true
	}
	// one side empty: all segments of the other must be empty
	if len(a) == 0 || len(b) == 0 {
		rest := a
		if len(a) == 0 {
			rest = b
		}
		c := m.ctx.T
		for _, s := range rest {
			if s.tab == nil {
				return vBool(false), true
			}
			c = m.ctx.And(c, m.tabCond(s.tab, func(e V) bool { x, _ := e.str(); return x == "" }))
		}
		return m.fromTerm(c, numKind{isBool: true}), true
	}
	// remaining middles small enough?
	ra, rb := m.ropeOf(a), m.ropeOf(b)
	ta, o1 := m.asTab(ra)
	tb, o2 := m.asTab(rb)
	if o1 && o2 {
		var ts []*Tab
		for _, x := range []V{ta, tb} {
			if t, ok := x.r.(*Tab); ok {
				ts = append(ts, t)
			}
		}
		if m.fits(ts) {
			r, ct := m.lift(nil, []V{ta, tb}, func(c []V) V {
				a, _ := c[0].str()
				b, _ := c[1].str()
				return vBool(a == b)
			})
			if ct == ctlNext {
				return r, true
			}
		}
	}
	return V{}, false
}

func (m *M) ropeOf(s []seg) V {
	var rb ropeB
	for _, x := range s {
		if x.tab != nil {
			rb.add(V{r: x.tab})
		} else {
			rb.lit(x.lit)
		}
	}
	return rb.v()
}

// fixLens makes sure every table segment has one length, forking otherwise.
func (m *M) fixLens(segs []seg) ctl {
	for _, s := range segs {
		if s.tab == nil {
			continue
		}
		if ct := m.forkBy(s.tab, func(e V) int64 { x, _ := e.str(); return int64(len(x)) }); ct != ctlNext {
			return ct
		}
	}
	return ctlNext
}

func (m *M) tabLen(t *Tab) int {
	n := -1
	m.each(t, func(i int) bool {
		if !isBad(t.t[i]) {
			s, _ := t.t[i].str()
			n = len(s)
			return false
		}
		return true
	})
	return n
}

// uniformLen returns the common length of a table's strings, or -1.
func (m *M) uniformLen(t *Tab) int {
	n := -2
	m.each(t, func(i int) bool {
		if isBad(t.t[i]) {
			return true
		}
		s, _ := t.t[i].str()
		if n == -2 {
			n = len(s)
		} else if n != len(s) {
			n = -1
			return false
		}
		return true
	})
	return n
}

// byteAt returns the byte at concrete index i.
func (m *M) byteAt(v V, i int) (V, ctl, bool) {
	v = m.normS(v)
	if s, ok := v.str(); ok {
		if i < 0 || i >= len(s) {
			return V{}, ctlNext, false
		}
		return vInt(int64(s[i])), ctlNext, true
	}
	if t, ok := v.r.(*Tab); ok {
		// every entry must be long enough, else fork
		if ct := m.forkBy(t, func(e V) int64 {
			x, _ := e.str()
			if i >= len(x) {
				return 0
			}
			return 1
		}); ct != ctlNext {
			return V{}, ct, true
		}
		if i < 0 {
			return V{}, ctlNext, false
		}
		oob := false
		r := m.mapTab(t, func(e V) V {
			x, _ := e.str()
			if i >= len(x) {
				oob = true
				return bad
			}
			return vInt(int64(x[i]))
		})
		return r, ctlNext, !oob
	}
	segs := m.segsOf(v)
	for k, s := range segs {
		if s.tab == nil {
			if i < len(s.lit) {
				return vInt(int64(s.lit[i])), ctlNext, true
			}
			i -= len(s.lit)
			continue
		}
		n := m.uniformLen(s.tab)
		if n < 0 {
			ct := m.fixLens(segs[k : k+1])
			return V{}, ct, true
		}
		if i < n {
			return m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vInt(int64(x[i])) }), ctlNext, true
		}
		i -= n
	}
	return V{}, ctlNext, false
}

// substr takes v[i:j] (j<0: to the end) for concrete bounds; ok=false: out of range.
func (m *M) substr(v V, i, j int) (V, ctl, bool) {
	v = m.normS(v)
	if s, ok := v.str(); ok {
		if j < 0 {
			j = len(s)
		}
		if i < 0 || i > j || j > len(s) {
			return V{}, ctlNext, false
		}
		return vStr(s[i:j]), ctlNext, true
	}
	if t, ok := v.r.(*Tab); ok {
		fit := func(x string) bool {
			jj := j
			if jj < 0 {
				jj = len(x)
			}
			return i >= 0 && i <= jj && jj <= len(x)
		}
		if ct := m.forkBy(t, func(e V) int64 {
			x, _ := e.str()
			if fit(x) {
				return 1
			}
			return 0
		}); ct != ctlNext {
			return V{}, ct, true
		}
		oob := false
		r := m.mapTab(t, func(e V) V {
			x, _ := e.str()
			if !fit(x) {
				oob = true
				return bad
			}
			jj := j
			if jj < 0 {
				jj = len(x)
			}
			return vStr(x[i:jj])
		})
		return r, ctlNext, !oob
	}
	if i < 0 || (j >= 0 && j < i) {
		return V{}, ctlNext, false
	}
	segs := m.segsOf(v)
	var rb ropeB
	pos := 0
	for k, s := range segs {
		if pos >= i && j < 0 {
			if s.tab != nil {
				rb.add(V{r: s.tab})
			} else {
				rb.lit(s.lit)
			}
			continue
		}
		if j >= 0 && pos >= j && pos >= i {
			return rb.v(), ctlNext, true
		}
		n := 0
		if s.tab == nil {
			n = len(s.lit)
		} else {
			n = m.uniformLen(s.tab)
			if n < 0 {
				return V{}, m.fixLens(segs[k : k+1]), true
			}
		}
		lo, hi := 0, n
		if i > pos {
			lo = i - pos
		}
		if j >= 0 && j < pos+n {
			hi = j - pos
		}
		if lo < hi {
			if s.tab == nil {
				rb.lit(s.lit[lo:hi])
			} else if lo == 0 && hi == n {
				rb.add(V{r: s.tab})
			} else {
				rb.add(m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vStr(x[lo:hi]) }))
			}
		}
		pos += n
	}
	if pos < i || (j >= 0 && pos < j) {
		return V{}, ctlNext, false
	}
	return rb.v(), ctlNext, true
}

// expand turns a string into per-byte values.
func (m *M) expandBytes(v V) ([]V, ctl) {
	v = m.normS(v)
	var out []V
	segs := m.segsOf(v)
	if ct := m.fixLens(segs); ct != ctlNext {
		return nil, ct
	}
	for _, s := range segs {
		if s.tab == nil {
			for i := 0; i < len(s.lit); i++ {
				out = append(out, vInt(int64(s.lit[i])))
			}
			continue
		}
		n := m.tabLen(s.tab)
		for i := 0; i < n; i++ {
			out = append(out, m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vInt(int64(x[i])) }))
		}
	}
	return out, ctlNext
}

func (m *M) expandRunes(v V) ([]V, ctl) {
	v = m.normS(v)
	var out []V
	segs := m.segsOf(v)
	for _, s := range segs {
		if s.tab == nil {
			continue
		}
		if ct := m.forkBy(s.tab, func(e V) int64 { x, _ := e.str(); return int64(len([]rune(x))) }); ct != ctlNext {
			return nil, ct
		}
	}
	for _, s := range segs {
		if s.tab == nil {
			for _, r := range s.lit {
				out = append(out, vInt(int64(r)))
			}
			continue
		}
		n := 0
		m.each(s.tab, func(i int) bool {
			if isBad(s.tab.t[i]) {
				return true
			}
			x, _ := s.tab.t[i].str()
			n = len([]rune(x))
			return false
		})
		for i := 0; i < n; i++ {
			out = append(out, m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vInt(int64([]rune(x)[i])) }))
		}
	}
	return out, ctlNext
}

func (m *M) mkSlice(vs []V, es int) V {
	o := &Obj{slots: vs, epoch: m.epoch}
	n := len(vs) / es
	return V{r: &SliceV{obj: o, len: n, cap: n, es: es}}
}

func (m *M) bytesOrRunes(s string, runes bool) V {
	var vs []V
	if runes {
		for _, r := range s {
			vs = append(vs, vInt(int64(r)))
		}
	} else {
		for i := 0; i < len(s); i++ {
			vs = append(vs, vInt(int64(s[i])))
		}
	}
	return m.mkSlice(vs, 1)
}

func (m *M) sliceToStr(f *Frame, s *SliceV, runes bool) (V, ctl) {
	vs := s.obj.slots[s.off : s.off+s.len]
	var rb ropeB
	var lit []byte
	for _, v := range vs {
		switch x := v.r.(type) {
		case nil:
			if runes {
				lit = append(lit, string(rune(v.n))...)
			} else {
				lit = append(lit, byte(v.n))
			}
		case *Tab:
			rb.lit(string(lit))
			lit = nil
			rb.add(m.mapTab(x, func(e V) V {
				if runes {
					return vStr(string(rune(e.n)))
				}
				return vStr(string([]byte{byte(e.n)}))
			}))
		default:
			m.unsup("string from %T", v.r)
		}
	}
	rb.lit(string(lit))
	return rb.v(), ctlNext
}

var _ = math.Pi
