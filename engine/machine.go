package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	ctlNext ctl = iota
	ctlJump
	ctlSwitch // frames/state changed (or retry): refetch top frame
	ctlInterp // intrinsic declined: interpret the body
	ctlEnd    // path over
)

type opnd struct {
	reg int // >=0 register; -1 const; <=-2 global index -(reg+2)
	c   V
}

type Frame struct {
	fn     *Fn
	regs   []V
	blk    *Blk
	pc     int
	dst    int
	epoch  int64
	defers []deferred
	// noAdvance: on return the caller's pc is not advanced (deferred calls)
	noAdvance bool
	panicDef  bool
}

type deferred struct {
	fn   *Closure
	args []V
}

type insFn func(m *M, f *Frame) ctl

type Blk struct {
	idx  int
	ins  []insFn
	src  []ssa.Instruction
	phis []phiCopy
}

type phiCopy struct {
	dst   int
	edges []opnd
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	intr     intrinsic
	blocks   []*Blk
	recover  *Blk
	nregs    int
	once     sync.Once
	hasBody  bool
	err      error
	calls    int64
	isInit   bool
	redirect *ssa.Function
}

// Prog is shared, read-only after compilation of each function.
type Prog struct {
	prog       *ssa.Program
	fset       *token.FileSet
	mu         sync.Mutex
	fns        map[*ssa.Function]*Fn
	gidx       map[*ssa.Global]int
	globals    []*ssa.Global
	canon      typeCanon
	repoPkg    *ssa.Package
	cmdPkg     *ssa.Package // the command's package, where it is looked into
	methods    sync.Map // methodKey -> *Fn
	sizes      types.Sizes
	pkgNames   map[string]*ssa.Package
	errStringT types.Type
	anyT       types.Type
	redir      map[string]*ssa.Function
}

type methodKey struct {
	t types.Type
	n string
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.fns[f]; ok {
		return x
	}
	x := &Fn{ssa: f}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	x.name = o.RelString(nil)
	x.intr = intrinsics[x.name]
	if x.intr == nil && f.Name() == "init" && f.Synthetic == "package initializer" {
		x.isInit = true
	}
	if r, ok := p.redir[x.name]; ok && f != r {
		x.redirect = r
		x.intr = nil
	}
	x.hasBody = len(f.Blocks) > 0
	p.fns[f] = x
	return x
}

// target is the function that is executed in place of fn.
func (p *Prog) target(fn *Fn) *Fn {
	if fn.redirect != nil {
		return p.fn(fn.redirect)
	}
	return fn
}

func (p *Prog) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

type undo struct {
	o   *Obj
	i   int
	old V
	m   *MapObj
	in  *mapInner
	mep int64
	fn  func()
}

type choicePoint struct {
	frames []*Frame
	trail  int
	pc     int
	dom    [][]int16
	decs   int
	alts   []alt
	model  map[string]uint64
	obs    int
	panicV *V
	depth  int
	known  int
	steps  int64
	reach  int
	used   int
	ncv    int
	tt     int
}

type alt struct {
	cond     *Term
	nvar     int // -1: none
	narrow   []int16
	patch    func(m *M)
	idx      int
	known    *Term // term known to equal val under this alternative
	knownVal uint64
}

type dec struct {
	Idx    int  `json:"i"`
	Forced bool `json:"f"`
}

type cvar struct {
	name string
	size int
	full []int16
	isB  bool // a byte variable
	t    *Term
	lbl  []string // description of each value
}

type knownEnt struct {
	t *Term
	v uint64
}

type M struct {
	p         *Prog
	ctx       *TermCtx
	sol       *Solver
	frames    []*Frame
	globals   []*Obj
	trail     []undo
	freeze    int64  // objects of an older epoch are shared (0: none)
	written   string // where a shared object was first written
	epoch     int64
	pc        []*Term
	model     map[string]uint64
	cvars     []*cvar
	cvIdx     map[string]int
	bvars     map[string]*Term // other symbolic vars by name
	dom       [][]int16
	domVer    int64
	verCtr    int64
	stack     []*choicePoint
	decs      []dec
	replay    []dec
	rpos      int
	panicV    *V
	panicAt   string
	obs       []obsEnt
	reach     []string
	known     []knownEnt
	steps     int64
	budget    int64
	halted    *atomic.Bool
	wallEnd   time.Time
	maxDep    int
	maxRegs   int
	forksOn   map[string]int
	profile   map[string]int64
	outcome   outcome
	noFork    bool
	initing   bool
	minDonate int
	poisoned  map[string]bool
	onFork    func()
	stat      struct {
		forks, decisions  int64
		unknown           int64
		covers, confirmed int64
	}
	fnSeen                map[*Fn]int64
	termTabs              map[*Term]*Tab
	ttLog                 []*Term
	thorough              bool
	params                map[string]int64
	used                  []int
	viol                  []violation
	asserts, assertsConst int64
	initErrs              []string
	choiceLimit           int
}

type obsEnt struct {
	name string
	v    V
	num  bool
}

type outcome struct {
	kind string // done, panic, assertfail, assumefail, unsupported, budget, infeasible, overflow
	msg  string
	at   string
}

type unsupported struct{ msg string }

func (m *M) unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (m *M) newObj(n int) *Obj { return &Obj{slots: make([]V, n), epoch: m.epoch} }

// sharedWrite notes a write to memory that existed before vxFreeze.
func (m *M) sharedWrite() {
	if m.written != "" || len(m.frames) == 0 {
		return
	}
	for _, f := range m.frames {
		if strings.Contains(f.fn.name, ".vpOnce") || strings.Contains(f.fn.name, ".vpPool") || strings.Contains(f.fn.name, ".vpMap") || strings.Contains(f.fn.name, ".vpAtomic") {
			return // synchronised
		}
	}
	f := m.frames[len(m.frames)-1]
	m.trail = append(m.trail, undo{fn: func() { m.written = "" }})
	m.written = f.fn.name + " " + m.posOf(f)
}

func (m *M) set(o *Obj, i int, v V) {
	if o.epoch < m.freeze {
		m.sharedWrite()
	}
	if o.epoch != m.epoch {
		m.trail = append(m.trail, undo{o: o, i: i, old: o.slots[i]})
	}
	o.slots[i] = v
}

func (m *M) mapW(mo *MapObj) *mapInner {
	if mo.epoch < m.freeze {
		m.sharedWrite()
	}
	if mo.epoch != m.epoch {
		old := mo.in
		m.trail = append(m.trail, undo{m: mo, in: old, mep: mo.epoch})
		ni := &mapInner{idx: make(map[any]int, len(old.idx)), keys: append([]V(nil), old.keys...), vals: append([]V(nil), old.vals...), dead: append([]bool(nil), old.dead...), n: old.n}
		for k, v := range old.idx {
			ni.idx[k] = v
		}
		mo.in = ni
		mo.epoch = m.epoch
	}
	return mo.in
}

func (m *M) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		switch {
		case u.o != nil:
			u.o.slots[u.i] = u.old
		case u.m != nil:
			u.m.in = u.in
			u.m.epoch = u.mep
		case u.fn != nil:
			u.fn()
		}
		m.trail[i] = undo{}
	}
	m.trail = m.trail[:n]
}

func (m *M) bumpEpoch() { m.verCtr++; m.epoch = m.verCtr }

func (m *M) top() *Frame {
	f := m.frames[len(m.frames)-1]
	if f.epoch != m.epoch {
		g := *f
		g.regs = append([]V(nil), f.regs...)
		if len(f.defers) > 0 {
			g.defers = append([]deferred(nil), f.defers...)
		}
		g.epoch = m.epoch
		m.frames[len(m.frames)-1] = &g
		return &g
	}
	return f
}

func (m *M) get(f *Frame, o opnd) V {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	if o.reg == -1 {
		return o.c
	}
	return V{r: m.globals[-o.reg-2]}
}

func (m *M) setDom(v int, d []int16) {
	nd := make([][]int16, len(m.dom))
	copy(nd, m.dom)
	for len(nd) <= v {
		nd = append(nd, nil)
	}
	nd[v] = d
	m.dom = nd
	m.verCtr++
	m.domVer = m.verCtr
}

func (m *M) assume(t *Term) {
	if t == nil || t == m.ctx.T {
		return
	}
	m.pc = append(m.pc, t)
	if m.model != nil && t.Eval(m.model, map[*Term]uint64{}) == 0 {
		m.model = nil
	}
}

func (m *M) feasible(t *Term) bool {
	if t == m.ctx.T {
		return true
	}
	if t == m.ctx.F {
		return false
	}
	if m.model != nil && t.Eval(m.model, map[*Term]uint64{}) == 1 {
		return true
	}
	ans, mod := m.sol.check(m.pc, t)
	switch ans {
	case "sat":
		if m.model == nil {
			// model of pc && t is also a model of pc
			m.model = mod
		}
		return true
	case "unsat":
		return false
	}
	if m.sol.err != nil {
		panic(fmt.Sprintf("solver failure: %v", m.sol.err))
	}
	m.stat.unknown++
	return true
}

// choose resolves a set of exhaustive, mutually exclusive alternatives.
func (m *M) choose(alts []alt) ctl {
	m.stat.decisions++
	if m.noFork {
		m.unsup("fork during initialisation")
	}
	for i := range alts {
		alts[i].idx = i
	}
	if m.rpos < len(m.replay) {
		d := m.replay[m.rpos]
		m.rpos++
		m.decs = append(m.decs, d)
		m.take(alts[d.Idx], !d.Forced || alts[d.Idx].again())
		return ctlSwitch
	}
	var feas []alt
	for i, a := range alts {
		if i == len(alts)-1 && len(feas) == 0 {
			feas = append(feas, a) // pc is satisfiable, so the last one must be
			break
		}
		if a.cond == nil || m.feasible(a.cond) {
			feas = append(feas, a)
		}
	}
	if len(feas) == 1 {
		if m.forksOn != nil && len(m.frames) > 0 {
			f := m.frames[len(m.frames)-1]
			m.forksOn["decided: "+f.fn.name+" "+m.posOf(f)]++
		}
		m.decs = append(m.decs, dec{feas[0].idx, true})
		m.take(feas[0], feas[0].again())
		return ctlSwitch
	}
	m.stat.forks++
	// the solver confirms that the alternatives leave no value out
	rest := make([]*Term, 0, len(feas))
	for _, a := range feas {
		if a.cond != nil {
			rest = append(rest, m.ctx.Not(a.cond))
		}
	}
	if len(rest) == len(feas) {
		m.stat.covers++
		switch ans, _ := m.sol.check(m.pc, m.ctx.And(rest...)); ans {
		case "unsat":
		case "sat":
			m.unsup("the alternatives of a branch leave values out")
		default:
			m.stat.unknown++
		}
	}
	if m.forksOn != nil && len(m.frames) > 0 {
		f := m.frames[len(m.frames)-1]
		m.forksOn[f.fn.name+" "+m.posOf(f)]++
	}
	// deterministic order; take the first, save the rest
	cp := &choicePoint{
		frames: append([]*Frame(nil), m.frames...),
		trail:  len(m.trail), pc: len(m.pc), dom: m.dom, decs: len(m.decs),
		alts: feas[1:], model: m.model, obs: len(m.obs), panicV: m.panicV, known: len(m.known), steps: m.steps, reach: len(m.reach), used: len(m.used), ncv: len(m.cvars), tt: len(m.ttLog),
	}
	m.stack = append(m.stack, cp)
	m.bumpEpoch()
	m.decs = append(m.decs, dec{feas[0].idx, false})
	m.take(feas[0], true)
	if m.onFork != nil {
		m.onFork()
	}
	return ctlSwitch
}

// again: the decision changes nothing but the path condition, from which the
// re-executed instruction has to learn it.
func (a alt) again() bool { return a.patch == nil && a.narrow == nil }

func (m *M) take(a alt, assert bool) {
	if assert {
		m.assume(a.cond)
	}
	if a.nvar >= 0 && a.narrow != nil {
		m.setDom(a.nvar, a.narrow)
	}
	if a.known != nil {
		m.known = append(m.known, knownEnt{a.known, a.knownVal})
	}
	if a.patch != nil {
		m.top()
		a.patch(m)
	}
}

// cutVars forgets variables and term tables created after a point.
func (m *M) cutVars(ncv, tt int) {
	for i := ncv; i < len(m.cvars); i++ {
		cv := m.cvars[i]
		delete(m.cvIdx, fmt.Sprintf("%s/%d", cv.name, cv.size))
	}
	m.cvars = m.cvars[:ncv]
	for _, t := range m.ttLog[tt:] {
		delete(m.termTabs, t)
	}
	m.ttLog = m.ttLog[:tt]
}

// backtrack resumes the most recent pending alternative; false if none.
func (m *M) backtrack() bool {
	for len(m.stack) > 0 {
		cp := m.stack[len(m.stack)-1]
		if len(cp.alts) == 0 {
			m.stack = m.stack[:len(m.stack)-1]
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		m.undoTo(cp.trail)
		m.pc = m.pc[:cp.pc]
		m.dom = cp.dom
		m.verCtr++
		m.domVer = m.verCtr
		m.decs = m.decs[:cp.decs]
		m.obs = m.obs[:cp.obs]
		m.reach = m.reach[:cp.reach]
		m.used = m.used[:cp.used]
		m.cutVars(cp.ncv, cp.tt)
		m.known = m.known[:cp.known]
		m.panicV = cp.panicV
		m.steps = cp.steps
		m.model = cp.model
		m.frames = append(m.frames[:0:0], cp.frames...)
		if len(cp.alts) == 0 {
			m.stack = m.stack[:len(m.stack)-1]
		}
		m.bumpEpoch()
		m.decs = append(m.decs, dec{a.idx, false})
		m.take(a, true)
		return true
	}
	return false
}

func (m *M) posOf(f *Frame) string {
	if f.blk == nil || f.pc >= len(f.blk.src) {
		return ""
	}
	p := f.blk.src[f.pc].Pos()
	for i := f.pc; p == token.NoPos && i >= 0; i-- {
		p = f.blk.src[i].Pos()
	}
	ps := m.p.fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (m *M) backtrace() string {
	var sb strings.Builder
	for i := len(m.frames) - 1; i >= 0 && i > len(m.frames)-12; i-- {
		f := m.frames[i]
		fmt.Fprintf(&sb, "%s(%s) < ", f.fn.name, m.posOf(f))
	}
	return sb.String()
}

func (m *M) end(kind, msg string) ctl {
	m.outcome = outcome{kind: kind, msg: msg, at: m.backtrace()}
	return ctlEnd
}

// pushCall enters fn.
func (m *M) pushCall(fn *Fn, args []V, bind []V, dst int) *Frame {
	fn.compile(m.p)
	if fn.err != nil {
		m.unsup("compile %s: %v", fn.name, fn.err)
	}
	if len(m.frames) > m.maxDep {
		panic(stackOverflow{})
	}
	m.fnSeen[fn]++
	f := &Frame{fn: fn, regs: make([]V, fn.nregs), blk: fn.blocks[0], dst: dst, epoch: m.epoch}
	copy(f.regs, args)
	copy(f.regs[len(args):], bind)
	m.frames = append(m.frames, f)
	return f
}

type stackOverflow struct{}

var engineErrs atomic.Int32

// run executes until the frame stack is shorter than base+1 or the path ends.
// Returns false if the path ended abnormally.
func (m *M) run(base int) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				m.outcome = outcome{kind: "unsupported", msg: x.msg, at: m.backtrace()}
				ok = false
			case stackOverflow:
				m.outcome = outcome{kind: "overflow", msg: "unbounded recursion: stack overflow", at: m.backtrace()}
				ok = false
			default:
				if !m.initing && engineErrs.Add(1) <= 3 {
					buf := make([]byte, 1<<14)
					n := runtime.Stack(buf, false)
					fmt.Fprintf(os.Stderr, "engine error %v at %s\n%s\n", r, m.backtrace(), buf[:n])
				}
				m.outcome = outcome{kind: "unsupported", msg: fmt.Sprintf("engine error: %v", r), at: m.backtrace()}
				ok = false
			}
		}
	}()
	for {
		if len(m.frames) == base {
			return true
		}
		f := m.top()
		blk := f.blk
	inner:
		for {
			m.steps++
			c := blk.ins[f.pc](m, f)
			switch c {
			case ctlNext:
				f.pc++
			case ctlJump:
				blk = f.blk
				if m.steps > m.budget {
					m.outcome = outcome{kind: "budget", msg: "instruction budget exceeded", at: m.backtrace()}
					return false
				}
			case ctlSwitch:
				if m.steps > m.budget {
					m.outcome = outcome{kind: "budget", msg: "instruction budget exceeded", at: m.backtrace()}
					return false
				}
				if m.halted != nil && m.steps&0xff == 0 && (m.halted.Load() || time.Now().After(m.wallEnd)) {
					m.outcome = outcome{kind: "deadline"}
					return false
				}
				break inner
			case ctlEnd:
				return false
			}
		}
	}
}

func (m *M) doReturn(v V) ctl {
	f := m.frames[len(m.frames)-1]
	m.frames = m.frames[:len(m.frames)-1]
	if f.panicDef {
		// a deferred call run during panicking returned
		if m.panicV == nil {
			// recovered: the frame below returns normally
			g := m.top()
			if g.fn.recover != nil {
				g.blk = g.fn.recover
				g.pc = 0
				return ctlSwitch
			}
			return m.doReturn(zeroV(resultType(g.fn.ssa)))
		}
		return m.unwind()
	}
	if len(m.frames) == 0 {
		return ctlSwitch
	}
	g := m.top()
	if f.dst >= 0 {
		g.regs[f.dst] = v
	}
	if !f.noAdvance && g.blk != nil {
		g.pc++
	}
	return ctlSwitch
}

func resultType(f *ssa.Function) types.Type {
	r := f.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (m *M) goPanic(format string, a ...any) ctl {
	msg := fmt.Sprintf(format, a...)
	m.panicAt = m.backtrace()
	v := V{r: &Iface{t: types.Typ[types.String], v: vStr(msg)}}
	m.panicV = &v
	return m.unwind()
}

func (m *M) panicText() string {
	if m.panicV == nil {
		return ""
	}
	if i, ok := m.panicV.r.(*Iface); ok {
		if s, ok := i.v.str(); ok {
			return s
		}
		return i.t.String()
	}
	return "panic"
}

func (m *M) unwind() ctl {
	for len(m.frames) > 0 {
		f := m.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.fn.fn == nil || (d.fn.fn.intr != nil) {
				continue
			}
			nf := m.pushCall(m.p.target(d.fn.fn), d.args, d.fn.bind, -1)
			nf.panicDef = true
			return ctlSwitch
		}
		if f.panicDef {
			// panic inside deferred function replaces; drop
		}
		if len(m.frames) == 1 {
			break
		}
		m.frames = m.frames[:len(m.frames)-1]
	}
	m.outcome = outcome{kind: "panic", msg: m.panicText(), at: m.panicAt}
	return ctlEnd
}
