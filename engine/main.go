package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// HarnessSpec is one entry of harness/index.json.
type HarnessSpec struct {
	Name     string   `json:"name"`
	Property string   `json:"property"`
	Tier     string   `json:"tier"` // "", "quick" (both tiers) or "thorough"
	Bounds   string   `json:"bounds"`
	Outside  string   `json:"outside"`
	Reach    []string `json:"reach"` // labels some path must reach (vacuity guard)
	Weight   float64  `json:"weight"`
}

type pathRec struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	At      string            `json:"at"`
	Assign  map[string]int64  `json:"assign"`
	Obs     map[string]string `json:"obs"`
	hash    uint64
}

type hresult struct {
	spec              HarnessSpec
	paths             int64
	kinds             map[string]int64
	forks             int64
	decisions         int64
	steps             int64
	asserts           int64
	assertsC          int64
	covers, confirmed int64
	unknown           int64
	queries           int
	sat, unsat        int
	unk               int
	solver            time.Duration
	wall              time.Duration
	complete          bool
	leftJobs          int
	fns               map[string]int64
	reach             map[string]int64
	unsup             map[string]int64
	sample            []pathRec // validated natively
	fail              []pathRec // native replay candidates
	forksOn           map[string]int
	vars              map[string]int
	engineErr         string
}

type explorer struct {
	p        *Prog
	h        HarnessSpec
	solver   string
	thorough bool
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]dec
	idle     int
	nw       int
	stop     atomic.Bool
	res      *hresult
	hungry   atomic.Int32
	cand     func(pathRec) bool // called for each candidate; true: stop
	maxSamp  int
	profile  bool
	seed     uint64
}

func hashDecs(ds []dec, seed uint64) uint64 {
	h := uint64(14695981039346656037) ^ (seed * 0x9E3779B97F4A7C15)
	for _, d := range ds {
		h ^= uint64(d.Idx) + 1
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

func (m *M) reset() {
	m.undoTo(0)
	m.pc = nil
	m.model = nil
	m.dom = nil
	m.verCtr++
	m.domVer = m.verCtr
	m.cutVars(0, 0)
	m.stack = nil
	m.decs = nil
	m.obs = nil
	m.reach = nil
	m.known = nil
	m.used = nil
	m.frames = nil
	m.panicV = nil
	m.steps = 0
	m.bumpEpoch()
}

func (m *M) record(h string) pathRec {
	r := pathRec{Harness: h, Kind: m.outcome.kind, Msg: m.outcome.msg, At: m.outcome.at}
	mod := m.ensureModel()
	if mod == nil {
		r.Kind = "nomodel"
		return r
	}
	r.Assign = m.assignment(mod)
	r.Obs = map[string]string{}
	for _, o := range m.obs {
		v := m.evalV(o.v, mod)
		if s, ok := v.str(); ok && !o.num {
			if v.r == nil {
				s = ""
			}
			r.Obs[o.name] = s
		} else {
			r.Obs[o.name] = fmt.Sprint(v.n)
		}
	}
	return r
}

func (e *explorer) next() ([]dec, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() {
			return nil, false
		}
		if len(e.queue) > 0 {
			j := e.queue[len(e.queue)-1]
			e.queue = e.queue[:len(e.queue)-1]
			return j, true
		}
		e.idle++
		e.hungry.Store(int32(e.idle))
		if e.idle == e.nw {
			e.stop.Store(true)
			e.res.complete = e.res.engineErr == ""
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
		e.idle--
		e.hungry.Store(int32(e.idle))
	}
}

func (e *explorer) halt() {
	e.mu.Lock()
	e.stop.Store(true)
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *explorer) worker(m *M) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			n := runtime.Stack(buf, false)
			e.mu.Lock()
			e.res.engineErr = fmt.Sprint(r)
			e.mu.Unlock()
			fmt.Fprintf(os.Stderr, "engine error in %s: %v\n%s\n", e.h.Name, r, buf[:n])
			e.halt()
		}
	}()
	entry := e.p.member(e.h.Name)
	if entry == nil {
		panic("no harness " + e.h.Name)
	}
	fn := e.p.fn(entry)
	m.thorough = e.thorough
	if e.profile {
		m.forksOn = map[string]int{}
	}
	m.fnSeen = map[*Fn]int64{}
	m.asserts, m.assertsConst = 0, 0
	m.stat.forks, m.stat.decisions, m.stat.unknown = 0, 0, 0
	m.stat.covers, m.stat.confirmed = 0, 0
	q0, s0, u0, k0, d0 := m.sol.queries, m.sol.sat, m.sol.unsat, m.sol.unknown, m.sol.dur
	loc := &hresult{kinds: map[string]int64{}, reach: map[string]int64{}, unsup: map[string]int64{}, vars: map[string]int{}}
	var samp []pathRec
	donateIn := 0
	m.onFork = func() {
		if e.hungry.Load() == 0 {
			return
		}
		donateIn++
		e.mu.Lock()
		if e.idle > len(e.queue) {
			// give away the oldest pending alternative
			for _, cp := range m.stack {
				if len(cp.alts) > 0 {
					a := cp.alts[len(cp.alts)-1]
					cp.alts = cp.alts[:len(cp.alts)-1]
					j := append([]dec(nil), m.decs[:cp.decs]...)
					j = append(j, dec{a.idx, false})
					e.queue = append(e.queue, j)
					e.cond.Signal()
					break
				}
			}
		}
		e.mu.Unlock()
	}
	checkpoint := time.Now()
jobs:
	for {
		job, ok := e.next()
		if !ok {
			break
		}
		m.reset()
		m.replay = job
		m.halted, m.wallEnd = &e.stop, e.deadline
		m.rpos = 0
		m.pushCall(fn, nil, nil, -1)
		for {
			if e.stop.Load() {
				e.mu.Lock()
				e.res.leftJobs++
				e.mu.Unlock()
				break jobs
			}
			nv := len(m.viol)
			st0 := m.steps
			okRun := m.run(0)
			loc.steps += m.steps - st0
			if okRun {
				m.outcome = outcome{kind: "done"}
			}
			kind := m.outcome.kind
			if kind == "deadline" {
				e.mu.Lock()
				e.res.leftJobs += 1 + len(m.stack)
				e.mu.Unlock()
				e.halt()
				break jobs
			}
			loc.kinds[kind]++
			loc.paths++
			for _, l := range m.reach {
				loc.reach[l]++
			}
			for _, i := range m.used {
				cv := m.cvars[i]
				loc.vars[cv.name] = len(cv.full)
			}
			for _, v := range m.viol[nv:] {
				r := pathRec{Harness: e.h.Name, Kind: "assert", Msg: v.Msg, At: v.At, Assign: v.Assign}
				if e.cand(r) {
					e.halt()
				}
			}
			m.viol = m.viol[:0]
			switch kind {
			case "panic", "overflow", "budget":
				if e.cand(m.record(e.h.Name)) {
					e.halt()
				}
			case "unsupported":
				k := m.outcome.msg + " @ " + cut(m.outcome.at, 300)
				loc.unsup[k]++
				r := m.record(e.h.Name)
				r.hash = hashDecs(m.decs, e.seed)
				samp = addSample(samp, r, e.maxSamp/e.nw+1)
			case "done":
				h := hashDecs(m.decs, e.seed)
				if len(samp) < e.maxSamp/e.nw+1 || h < samp[len(samp)-1].hash {
					r := m.record(e.h.Name)
					r.hash = h
					if r.Kind == "nomodel" {
						loc.kinds["nomodel"]++
					} else {
						samp = addSample(samp, r, e.maxSamp/e.nw+1)
					}
				}
			}
			if time.Since(checkpoint) > 200*time.Millisecond {
				checkpoint = time.Now()
				if checkpoint.After(e.deadline) {
					e.mu.Lock()
					e.res.leftJobs += len(m.stack)
					e.mu.Unlock()
					e.halt()
					break jobs
				}
			}
			if !m.backtrack() {
				break
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.res
	r.paths += loc.paths
	r.steps += loc.steps
	for k, v := range loc.kinds {
		r.kinds[k] += v
	}
	for k, v := range loc.reach {
		r.reach[k] += v
	}
	for k, v := range loc.unsup {
		r.unsup[k] += v
	}
	for k, v := range loc.vars {
		r.vars[k] = v
	}
	for f, n := range m.fnSeen {
		r.fns[f.name] += n
	}
	r.forks += m.stat.forks
	r.covers += m.stat.covers
	r.confirmed += m.stat.confirmed
	r.decisions += m.stat.decisions
	r.unknown += m.stat.unknown
	r.asserts += m.asserts
	r.assertsC += m.assertsConst
	r.queries += m.sol.queries - q0
	r.sat += m.sol.sat - s0
	r.unsat += m.sol.unsat - u0
	r.unk += m.sol.unknown - k0
	r.solver += m.sol.dur - d0
	r.sample = append(r.sample, samp...)
	for k, v := range m.forksOn {
		r.forksOn[k] += v
	}
}

func addSample(s []pathRec, r pathRec, max int) []pathRec {
	i := sort.Search(len(s), func(i int) bool { return s[i].hash >= r.hash })
	s = append(s, pathRec{})
	copy(s[i+1:], s[i:])
	s[i] = r
	if len(s) > max {
		s = s[:max]
	}
	return s
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (e *explorer) run(ms []*M) *hresult {
	e.cond = sync.NewCond(&e.mu)
	e.nw = len(ms)
	e.res = &hresult{spec: e.h, kinds: map[string]int64{}, fns: map[string]int64{}, reach: map[string]int64{}, unsup: map[string]int64{}, forksOn: map[string]int{}, vars: map[string]int{}}
	e.queue = [][]dec{nil}
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func() { defer wg.Done(); e.worker(m) }()
	}
	wg.Wait()
	e.res.wall = time.Since(t0)
	return e.res
}

// readOverlay gives the harness files, as files of the package they look into:
// that of the library and, with the command's, that of the command as well.
func readOverlay(repo, dir string, cmd bool) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	rep := map[string]string{}
	if cmd {
		o, r, err := readOverlay(filepath.Join(repo, "cmd/readability"), filepath.Join(dir, "cmd"), false)
		if err != nil {
			return nil, nil, err
		}
		ov, rep = o, r
	}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		dst := filepath.Join(repo, "zz_verif_"+filepath.Base(f))
		ov[dst] = b
		rep[dst] = f
	}
	return ov, rep, nil
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "repository")
		hdir    = flag.String("harness", "/verif/harness", "harness directory")
		build   = flag.String("build", "/verif/.build", "scratch build directory")
		prop    = flag.String("prop", "", "property id")
		only    = flag.String("only", "", "run only this harness")
		tier    = flag.String("tier", "quick", "quick or thorough")
		nw      = flag.Int("workers", runtime.NumCPU(), "workers")
		limit   = flag.Float64("time", 600, "seconds for exploration")
		solver  = flag.String("solver", "z3", "SMT solver binary")
		evid    = flag.String("evidence", "", "evidence file")
		replays = flag.String("replays", "", "directory for counterexamples")
		known   = flag.String("known", "", "known findings file")
		prof    = flag.Bool("profile", false, "print fork profile")
		cpu     = flag.String("cpuprofile", "", "")
		seed    = flag.Int64("seed", 1, "seed")
		replay  = flag.String("replay", "", "replay a counterexample file natively")
		keepOn  = flag.Bool("all", false, "keep going after a violation")
		dump    = flag.Bool("dump", false, "print sampled paths")
	)
	flag.Parse()
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := func() int {
		c := &check{repo: *repo, hdir: *hdir, build: *build, prop: *prop, only: *only, tier: *tier, nw: *nw, limit: *limit, solver: *solver,
			evid: *evid, replays: *replays, knownFile: *known, prof: *prof, seed: *seed, keepOn: *keepOn, dump: *dump}
		if *replay != "" {
			return c.replayFile(*replay)
		}
		return c.run()
	}()
	if *cpu != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func loadIndex(dir string) ([]HarnessSpec, error) {
	b, err := os.ReadFile(filepath.Join(dir, "index.json"))
	if err != nil {
		return nil, err
	}
	var hs []HarnessSpec
	if err := json.Unmarshal(b, &hs); err != nil {
		return nil, err
	}
	return hs, nil
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, repoPath+".", "")
}
