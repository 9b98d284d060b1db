package main

import (
	"fmt"
	"sort"
	"strings"
)

const repoPath = "github.com/giulianopz/go-readability"

func (m *M) newCvar(name string, size int, full []int16, isB bool) int {
	key := fmt.Sprintf("%s/%d", name, size)
	if i, ok := m.cvIdx[key]; ok {
		m.useCvar(i)
		return i
	}
	w := 16
	if isB {
		w = 8
	}
	i := len(m.cvars)
	cv := &cvar{name: name, size: size, full: full, isB: isB}
	cv.t = m.ctx.Var(key, w)
	m.cvars = append(m.cvars, cv)
	m.cvIdx[key] = i
	m.useCvar(i)
	return i
}

// useCvar records the variable's domain in the path condition, once per path.
func (m *M) useCvar(i int) {
	for _, u := range m.used {
		if u == i {
			return
		}
	}
	m.used = append(m.used, i)
	cv := m.cvars[i]
	var ors []*Term
	d := cv.full
	for a := 0; a < len(d); {
		b := a
		for b+1 < len(d) && d[b+1] == d[b]+1 {
			b++
		}
		lo, hi := m.ctx.BV(uint64(d[a]), cv.t.w), m.ctx.BV(uint64(d[b]), cv.t.w)
		ors = append(ors, m.ctx.And(m.ctx.Cmp(OUle, lo, cv.t), m.ctx.Cmp(OUle, cv.t, hi)))
		a = b + 1
	}
	m.assume(m.ctx.Or(ors...))
}

func seq(n int) []int16 {
	r := make([]int16, n)
	for i := range r {
		r[i] = int16(i)
	}
	return r
}

type violation struct {
	Msg     string           `json:"msg"`
	Kind    string           `json:"kind"`
	At      string           `json:"at"`
	Assign  map[string]int64 `json:"assign"`
	Harness string           `json:"harness"`
}

func (m *M) nameArg(v V) string {
	s, ok := v.str()
	if !ok {
		m.unsup("symbolic variable name")
	}
	return s
}

func regHarness() {
	I := intrinsics
	P := repoPath + "."
	I[P+"vxPick"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s := args[1].r.(*SliceV)
		n := s.len
		i := m.newCvar(m.nameArg(args[0]), n, seq(n), false)
		ents := make([]V, n)
		for k := range ents {
			x, ct := m.concStr(s.obj.slots[s.off+k])
			if ct != ctlNext {
				return V{}, ct
			}
			ents[k] = vStr(x)
		}
		return m.varTab(i, ents), ctlNext
	}
	I[P+"vxBool"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		i := m.newCvar(m.nameArg(args[0]), 2, seq(2), false)
		return m.varTab(i, []V{vBool(false), vBool(true)}), ctlNext
	}
	I[P+"vxInt"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		lo, hi := args[1].n, args[2].n
		n := int(hi - lo + 1)
		i := m.newCvar(m.nameArg(args[0]), n, seq(n), false)
		ents := make([]V, n)
		for k := range ents {
			ents[k] = vInt(lo + int64(k))
		}
		return m.varTab(i, ents), ctlNext
	}
	// vxByte(name, set): a one-byte string; set "" means 0x01..0x7f
	I[P+"vxByte"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		set := m.nameArg(args[1])
		var full []int16
		if set == "" {
			for b := 1; b < 128; b++ {
				full = append(full, int16(b))
			}
		} else {
			for b := 0; b < len(set); b++ {
				full = append(full, int16(set[b]))
			}
			sort.Slice(full, func(i, j int) bool { return full[i] < full[j] })
		}
		i := m.newCvar(m.nameArg(args[0]), 256, full, true)
		ents := make([]V, 256)
		for b := range ents {
			ents[b] = vStr(string([]byte{byte(b)}))
		}
		return m.varTab(i, ents), ctlNext
	}
	I[P+"vxAssume"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		v := args[0]
		if v.r == nil {
			if v.n == 0 {
				return V{}, m.end("assumefail", "")
			}
			return V{}, ctlNext
		}
		at, _, conc, val := m.boolAlts(v)
		if conc {
			if !val {
				return V{}, m.end("assumefail", "")
			}
			return V{}, ctlNext
		}
		if m.rpos >= len(m.replay) && !m.feasible(at.cond) {
			return V{}, m.end("assumefail", "")
		}
		m.take(at, true)
		return V{}, ctlNext
	}
	I[P+"vxAssert"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		v := args[0]
		msg := "assertion"
		if s, ok := m.normS(args[1]).str(); ok {
			msg = s
		} else if s, ok := m.evalModelStr(args[1]); ok {
			msg = s
		}
		m.asserts++
		if isBad(v) {
			return V{}, ctlNext
		}
		if v.r == nil {
			if v.n == 0 {
				m.fail("assert", msg, nil)
				return V{}, m.end("assertfail", msg)
			}
			m.assertsConst++
			return V{}, ctlNext
		}
		at, af, conc, val := m.boolAlts(v)
		if conc {
			if !val {
				m.fail("assert", msg, nil)
				return V{}, m.end("assertfail", msg)
			}
			// the entries left by the path condition agree; the solver confirms
			if t, ok := v.r.(*Tab); ok && m.rpos >= len(m.replay) {
				m.confirm(t)
			} else {
				m.assertsConst++
			}
			return V{}, ctlNext
		}
		if m.rpos >= len(m.replay) {
			ans, mod := m.sol.check(m.pc, af.cond)
			switch ans {
			case "sat":
				m.fail("assert", msg, mod)
			case "unsat":
			default:
				m.stat.unknown++
			}
			if ans == "sat" && !m.feasible(at.cond) {
				return V{}, m.end("assertfail", msg)
			}
		}
		m.take(at, true)
		return V{}, ctlNext
	}
	I[P+"vxObserve"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		m.obs = append(m.obs, obsEnt{m.nameArg(args[0]), args[1], false})
		return V{}, ctlNext
	}
	I[P+"vxObserveInt"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		m.obs = append(m.obs, obsEnt{m.nameArg(args[0]), args[1], true})
		return V{}, ctlNext
	}
	I[P+"vxReach"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		m.reach = append(m.reach, m.nameArg(args[0]))
		return V{}, ctlNext
	}
	I[P+"vxThorough"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return vBool(m.thorough), ctlNext
	}
	// what exists at vxFreeze may not be written until vxThaw, which asserts it
	I[P+"vxFreeze"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		old := m.freeze
		m.bumpEpoch()
		m.trail = append(m.trail, undo{fn: func() { m.freeze = old }})
		m.freeze = m.epoch
		return V{}, ctlNext
	}
	I[P+"vxThaw"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		old := m.freeze
		m.trail = append(m.trail, undo{fn: func() { m.freeze = old }})
		m.freeze = 0
		m.asserts++
		if m.written != "" {
			msg := "shared memory is written at " + m.written
			m.fail("assert", msg, nil)
			return V{}, m.end("assertfail", msg)
		}
		m.assertsConst++
		return V{}, ctlNext
	}
	// vxFork(s): resolve a symbolic string to one value per path
	I[P+"vxFork"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s, ct := m.concStr(args[0])
		if ct != ctlNext {
			return V{}, ct
		}
		return vStr(s), ctlNext
	}
}

// ensureModel returns a model of the current path condition.
func (m *M) ensureModel() map[string]uint64 {
	if m.model != nil {
		return m.model
	}
	ans, mod := m.sol.check(m.pc, nil)
	if ans == "sat" {
		m.model = mod
		return mod
	}
	return nil
}

// assignment maps the path's input variables to values under a model.
func (m *M) assignment(mod map[string]uint64) map[string]int64 {
	a := map[string]int64{}
	for _, i := range m.used {
		cv := m.cvars[i]
		v, ok := mod[cv.t.name]
		if !ok {
			v = uint64(m.domOf(i)[0])
		} else {
			in := false
			for _, x := range m.domOf(i) {
				if uint64(x) == v {
					in = true
				}
			}
			if !in {
				v = uint64(m.domOf(i)[0])
			}
		}
		a[cv.name] = int64(v)
	}
	return a
}

func (m *M) tabVal(t *Tab, mod map[string]uint64) V {
	idx := 0
	for k, v := range t.vars {
		cv := m.cvars[v]
		x, ok := mod[cv.t.name]
		if !ok {
			x = uint64(m.domOf(v)[0])
		}
		idx = idx*t.sizes[k] + int(x)
	}
	if idx >= len(t.t) {
		return bad
	}
	return t.t[idx]
}

func (m *M) evalV(v V, mod map[string]uint64) V {
	switch x := v.r.(type) {
	case *Tab:
		return m.tabVal(x, mod)
	case *Rope:
		var sb strings.Builder
		for _, s := range x.segs {
			if s.tab == nil {
				sb.WriteString(s.lit)
			} else {
				y, _ := m.tabVal(s.tab, mod).str()
				sb.WriteString(y)
			}
		}
		return vStr(sb.String())
	case *Term:
		r := x.Eval(mod, map[*Term]uint64{})
		if x.w == 0 {
			return V{n: int64(r)}
		}
		return V{n: sx(r, x.w)}
	}
	return v
}

func (m *M) evalModelStr(v V) (string, bool) {
	mod := m.ensureModel()
	if mod == nil {
		return "", false
	}
	return m.evalV(v, mod).str()
}

func (m *M) fail(kind, msg string, mod map[string]uint64) {
	if mod == nil {
		mod = m.ensureModel()
		if mod == nil {
			return
		}
	}
	m.viol = append(m.viol, violation{Msg: msg, Kind: kind, At: m.backtrace(), Assign: m.assignment(mod)})
}

// confirm asks the solver whether the path condition leaves a false entry of a
// table that simplification took for true.
func (m *M) confirm(t *Tab) {
	d := m.dom
	m.dom = nil
	c := m.tabCond(m.mapBad(t), func(e V) bool { return e.n != 0 })
	m.dom = d
	if c == m.ctx.T {
		m.assertsConst++
		return
	}
	m.stat.confirmed++
	switch ans, _ := m.sol.check(m.pc, m.ctx.Not(c)); ans {
	case "unsat":
	case "sat":
		m.unsup("the solver refutes a simplification")
	default:
		m.stat.unknown++
	}
}

// mapBad makes the entries that no path can reach true.
func (m *M) mapBad(t *Tab) *Tab {
	n := &Tab{vars: t.vars, sizes: t.sizes, t: make([]V, len(t.t))}
	for i, e := range t.t {
		if isBad(e) {
			e = V{n: 1}
		}
		n.t[i] = e
	}
	return n
}
