package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type check struct {
	repo, hdir, build, prop, only, tier string
	nw                                  int
	limit                               float64
	solver                              string
	evid, replays, knownFile            string
	prof, keepOn, dump                  bool
	seed                                int64
	native                              *nativeRunner
}

type knownFinding struct {
	Property string           `json:"property"`
	Status   string           `json:"status"` // "open" or "fixed"
	Harness  string           `json:"harness"`
	Msg      string           `json:"msg"`    // regular expression on the message
	Assign   map[string]int64 `json:"assign"` // values the counterexample must have
	What     string           `json:"what"`
	Commit   string           `json:"commit"`
}

func loadKnown(f string) ([]knownFinding, error) {
	if f == "" {
		return nil, nil
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var ks []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, err
		}
		ks = append(ks, k)
	}
	return ks, nil
}

// ---- native execution of harnesses ----

type nativeRes struct {
	Outcome string            `json:"outcome"` // ok, assert, panic, assume, crash, hang
	Msg     string            `json:"msg"`
	Obs     map[string]string `json:"obs"`
}

type nativeRunner struct {
	bin  string
	mu   sync.Mutex
	tier string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
}

// command tells whether the property is one of the command, not the library.
func (c *check) command() bool { return c.prop == "C22" }

func (c *check) buildNative() (*nativeRunner, error) {
	_, rep, err := readOverlay(c.repo, c.hdir, c.command())
	if err != nil {
		return nil, err
	}
	rep[filepath.Join(c.repo, "cmd/zzverif/main.go")] = filepath.Join(c.hdir, "native/main.go")
	tmp, err := os.MkdirTemp(c.build, "native")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(tmp, "vxnative")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	env := goEnv()
	if c.prop == "C21" { // concurrent use: replayed under the race detector
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1", "CC=gcc")
	}
	target := "./cmd/zzverif"
	if c.command() {
		target = "./cmd/readability"
	}
	cmd := exec.Command("go", append(args, target)...)
	cmd.Dir = c.repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		os.RemoveAll(tmp)
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return &nativeRunner{bin: bin, tier: c.tier}, nil
}

func (n *nativeRunner) close() { os.RemoveAll(filepath.Dir(n.bin)) }

type nativeJob struct {
	H string           `json:"h"`
	A map[string]int64 `json:"a"`
}

// run executes the jobs in order; a job that kills or hangs the process is
// attributed and the rest continue in a new process.
func (n *nativeRunner) run(jobs []nativeJob, per time.Duration) ([]nativeRes, error) {
	out := make([]nativeRes, 0, len(jobs))
	for len(out) < len(jobs) {
		rest := jobs[len(out):]
		cmd := exec.Command(n.bin)
		cmd.Env = append(os.Environ(), "VX_TIER="+n.tier, "VX_NATIVE=1")
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		op, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		var eb tailBuf
		cmd.Stderr = &eb
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		go func() {
			w := bufio.NewWriter(in)
			enc := json.NewEncoder(w)
			for _, j := range rest {
				enc.Encode(j)
			}
			w.Flush()
			in.Close()
		}()
		lines := make(chan string)
		go func() {
			sc := bufio.NewScanner(op)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		k := 0
		hung, closed := false, false
		for k < len(rest) && !hung && !closed {
			select {
			case l, ok := <-lines:
				if !ok {
					closed = true
					break
				}
				var r nativeRes
				if err := json.Unmarshal([]byte(l), &r); err != nil {
					continue
				}
				out = append(out, r)
				k++
			case <-time.After(per):
				hung = true
			}
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
		if k < len(rest) {
			if hung {
				out = append(out, nativeRes{Outcome: "hang", Msg: "no result within " + per.String()})
			} else {
				out = append(out, nativeRes{Outcome: "crash", Msg: "process died: " + eb.head()})
			}
		}
	}
	return out, nil
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) head() string { return cut(string(t.b), 400) }

// ---- one check ----

type confirmed struct {
	rec   pathRec
	nat   nativeRes
	known *knownFinding
	file  string
}

func (c *check) run() int {
	t0 := time.Now()
	if err := os.MkdirAll(c.build, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	specs, err := loadIndex(c.hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var hs []HarnessSpec
	for _, h := range specs {
		if c.only != "" {
			if h.Name == c.only || (strings.HasSuffix(c.only, "*") && strings.HasPrefix(h.Name, c.only[:len(c.only)-1])) {
				hs = append(hs, h)
			}
			continue
		}
		if h.Property == c.prop && (h.Tier != "thorough" || c.tier == "thorough") {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	known, err := loadKnown(c.knownFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type nb struct {
		n   *nativeRunner
		err error
	}
	nch := make(chan nb, 1)
	go func() { n, err := c.buildNative(); nch <- nb{n, err} }()
	ov, _, err := readOverlay(c.repo, c.hdir, c.command())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := loadProg(c.repo, ov, c.command())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := <-nch
	if x.err != nil {
		fmt.Fprintln(os.Stderr, x.err)
		return 2
	}
	c.native = x.n
	defer c.native.close()
	ms := make([]*M, c.nw)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() { defer wg.Done(); ms[i] = newMachine(p, c.solver) }()
	}
	wg.Wait()
	defer func() {
		for _, m := range ms {
			m.sol.close()
		}
	}()
	for _, e := range ms[0].initErrs {
		fmt.Fprintln(os.Stderr, "init:", e)
	}
	loadWall := time.Since(t0)

	var mu sync.Mutex
	var conf []confirmed
	var spurious []confirmed
	seenMsg := map[string]int{}
	knownHit := map[string]bool{}
	cand := func(r pathRec) bool {
		if r.Assign == nil {
			return false
		}
		mu.Lock()
		key := r.Harness + "|" + r.Kind + "|" + cut(r.Msg, 60)
		seenMsg[key]++
		n := seenMsg[key]
		mu.Unlock()
		if n > 200 {
			return false
		}
		res, err := c.native.run([]nativeJob{{r.Harness, r.Assign}}, 20*time.Second)
		if err != nil || len(res) == 0 {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		cf := confirmed{rec: r, nat: res[0]}
		switch res[0].Outcome {
		case "ok", "assume":
			spurious = append(spurious, cf)
			return false
		}
		if k := matchKnown(known, c.prop, r, res[0]); k != nil {
			cf.known = k
			knownHit[k.What] = true
			return false
		}
		conf = append(conf, cf)
		return !c.keepOn
	}

	var results []*hresult
	tw := 0.0
	for _, h := range hs {
		w := h.Weight
		if w == 0 {
			w = 1
		}
		tw += w
	}
	end := t0.Add(time.Duration(c.limit * float64(time.Second)))
	for _, h := range hs {
		w := h.Weight
		if w == 0 {
			w = 1
		}
		left := time.Until(end).Seconds()
		share := left * w / tw
		tw -= w
		ex := &explorer{p: p, h: h, solver: c.solver, thorough: c.tier == "thorough", cand: cand, maxSamp: 160, profile: c.prof, seed: uint64(c.seed)}
		ex.deadline = time.Now().Add(time.Duration(share * float64(time.Second)))
		r := ex.run(ms)
		results = append(results, r)
		if c.prof || c.only != "" {
			c.printResult(r)
		}
		mu.Lock()
		n := len(conf)
		mu.Unlock()
		if n > 0 && !c.keepOn {
			break
		}
	}

	// native validation of sampled paths: same outcome, same observations
	validated, mismatched := 0, 0
	var mism []map[string]any
	var jobs []nativeJob
	var recs []*pathRec
	for _, r := range results {
		for i := range r.sample {
			if r.sample[i].Assign != nil {
				jobs = append(jobs, nativeJob{r.spec.Name, r.sample[i].Assign})
				recs = append(recs, &r.sample[i])
			}
		}
	}
	if len(jobs) > 0 && len(conf) == 0 {
		res, err := c.native.run(jobs, 20*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		for i, nr := range res {
			rc := recs[i]
			if c.dump {
				b, _ := json.Marshal(map[string]any{"rec": rc, "nat": nr})
				fmt.Println(string(b))
			}
			switch nr.Outcome {
			case "assert", "panic", "crash", "hang":
				cf := confirmed{rec: *rc, nat: nr}
				cf.rec.Msg = "native run of a path witness: " + nr.Msg
				if k := matchKnown(known, c.prop, cf.rec, nr); k != nil {
					knownHit[k.What] = true
				} else {
					conf = append(conf, cf)
				}
				continue
			}
			if rc.Kind == "unsupported" {
				continue
			}
			bad := ""
			if nr.Outcome != "ok" {
				bad = "outcome " + nr.Outcome
			}
			for k, v := range rc.Obs {
				if nr.Obs[k] != v {
					bad = fmt.Sprintf("%s: encoding %q, native %q", k, v, nr.Obs[k])
				}
			}
			if bad != "" {
				mismatched++
				if len(mism) < 5 {
					mism = append(mism, map[string]any{"harness": rc.Harness, "assign": rc.Assign, "difference": bad})
				}
			} else {
				validated++
			}
		}
	}

	// report
	code := 0
	for i := range conf {
		cf := &conf[i]
		cf.file = c.writeReplay(*cf, i)
		if i < 5 {
			fmt.Printf("counterexample in %s: %s\n  native: %s %s\n", cf.rec.Harness, cf.rec.Msg, cf.nat.Outcome, cf.nat.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, cf.file)
		}
		code = 1
	}
	for _, k := range known {
		if k.Status == "open" && k.Property == c.prop && knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
		}
	}
	c.writeEvidence(results, conf, spurious, validated, mismatched, mism, loadWall, time.Since(t0))
	return code
}

func matchKnown(ks []knownFinding, prop string, r pathRec, nr nativeRes) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Status != "open" || k.Property != prop || (k.Harness != "" && k.Harness != r.Harness) {
			continue
		}
		if k.Msg != "" && !regexp.MustCompile(k.Msg).MatchString(r.Msg+"\n"+nr.Msg) {
			continue
		}
		ok := true
		for n, v := range k.Assign {
			if r.Assign[n] != v {
				ok = false
			}
		}
		if ok {
			return k
		}
	}
	return nil
}

func (c *check) writeReplay(cf confirmed, i int) string {
	dir := c.replays
	if dir == "" {
		dir = filepath.Join(c.build, "replays")
	}
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, cf.rec.Harness, i))
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.prop, "harness": cf.rec.Harness, "assign": cf.rec.Assign, "solver_verdict": cf.rec.Msg, "at": cf.rec.At,
		"native_outcome": cf.nat.Outcome, "native_message": cf.nat.Msg, "observations": cf.nat.Obs, "tier": c.tier,
		"how_to_replay": "/verif/bin/replay " + f,
	}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func (c *check) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Harness string
		Assign  map[string]int64
		Tier    string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if r.Tier != "" {
		c.tier = r.Tier
	}
	os.MkdirAll(c.build, 0o755)
	n, err := c.buildNative()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer n.close()
	res, err := n.run([]nativeJob{{r.Harness, r.Assign}}, 20*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(o))
	if res[0].Outcome == "ok" {
		return 0
	}
	return 1
}

func (c *check) printResult(r *hresult) {
	fmt.Printf("%s: paths=%d complete=%v left=%d kinds=%v forks=%d dec=%d steps=%d asserts=%d const=%d q=%d sat=%d unsat=%d unk=%d solver=%.1fs wall=%.1fs reach=%v\n",
		r.spec.Name, r.paths, r.complete, r.leftJobs, r.kinds, r.forks, r.decisions, r.steps, r.asserts, r.assertsC, r.queries, r.sat, r.unsat, r.unk, r.solver.Seconds(), r.wall.Seconds(), r.reach)
	for k, v := range r.unsup {
		fmt.Printf("  UNSUPPORTED %d× %s\n", v, k)
	}
	if c.prof {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range r.forksOn {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i > 25 {
				break
			}
			fmt.Printf("  fork %6d %s\n", x.v, x.k)
		}
	}
}

func (c *check) writeEvidence(rs []*hresult, conf, spur []confirmed, validated, mismatched int, mism []map[string]any, load, wall time.Duration) {
	var paths, forks, steps, asserts, assertsC, unknown, covers int64
	var q, sat, unsat, unk int
	var st time.Duration
	fns := map[string]int64{}
	var hl []map[string]any
	var samples []any
	exh := len(spur) == 0 && mismatched == 0
	var vac []string
	for _, r := range rs {
		paths += r.paths
		forks += r.forks
		steps += r.steps
		asserts += r.asserts
		assertsC += r.assertsC
		covers += r.covers
		unknown += r.unknown
		q += r.queries
		sat += r.sat
		unsat += r.unsat
		unk += r.unk
		st += r.solver
		for k, v := range r.fns {
			fns[k] += v
		}
		un := []string{}
		for k, v := range r.unsup {
			if len(un) < 8 {
				un = append(un, fmt.Sprintf("%d paths: %s", v, k))
			}
		}
		if !r.complete || len(r.unsup) > 0 || r.unk > 0 || r.kinds["budget"] > 0 {
			exh = false
		}
		miss := []string{}
		for _, l := range r.spec.Reach {
			if r.reach[l] == 0 {
				miss = append(miss, l)
			}
		}
		if len(miss) > 0 {
			vac = append(vac, fmt.Sprintf("%s: no path reached %v", r.spec.Name, miss))
		}
		hl = append(hl, map[string]any{
			"harness": r.spec.Name, "bounds": r.spec.Bounds, "outside": r.spec.Outside, "paths": r.paths, "outcomes": r.kinds, "all_paths_explored": r.complete,
			"pending_jobs_at_deadline": r.leftJobs, "assertions_reached": r.asserts, "assertions_folded_true": r.assertsC,
			"branch_cover_queries_unsat": r.covers, "assertion_queries": r.asserts - r.assertsC,
			"queries": r.queries, "unsat": r.unsat, "sat": r.sat, "unknown": r.unk, "solver_s": r.solver.Seconds(), "wall_s": r.wall.Seconds(),
			"unsupported": un, "reached": r.reach, "reach_labels_missed": miss, "symbolic_variables": r.vars, "engine_error": r.engineErr,
		})
		for i := range r.sample {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.spec.Name, "assign": r.sample[i].Assign, "outcome": r.sample[i].Kind, "observed": trimObs(r.sample[i].Obs)})
			}
		}
	}
	repoFns := []string{}
	other := 0
	for k := range fns {
		if strings.Contains(k, "go-readability.") && !strings.Contains(k, ".vx") && !strings.Contains(k, ".Vx") {
			repoFns = append(repoFns, shortFn(k))
		} else {
			other++
		}
	}
	sort.Strings(repoFns)
	sp := []any{}
	for i, s := range spur {
		if i < 5 {
			sp = append(sp, map[string]any{"harness": s.rec.Harness, "assign": s.rec.Assign, "encoding": s.rec.Kind + ": " + s.rec.Msg, "native": s.nat.Outcome, "at": s.rec.At})
		}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": len(conf),
		"assumptions": []string{
			"bounds as listed per harness; nothing is claimed outside them",
			"functions named under trusted_contracts are not executed from source: they are applied to every value of a finite table, or to class representatives, by the Go library itself",
			"each counterexample is reported only after the real code, compiled by the Go toolchain, failed on it too",
		},
		"coverage": map[string]any{
			"states": paths + forks, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exh && len(conf) == 0,
			"paths": paths, "harnesses": hl, "functions_encoded": repoFns, "library_functions_encoded": other,
			"assertions_reached": asserts, "assertions_discharged_by_folding": assertsC,
			"branch_cover_queries": covers,
			"queries":              q, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "solver": c.solver, "solver_time_s": st.Seconds(),
			"encoding_mismatches": mismatched, "mismatch_samples": mism, "candidates_not_reproduced": len(spur), "candidates_not_reproduced_samples": sp,
			"vacuity": vac, "load_s": load.Seconds(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	f := c.evid
	if f == "" {
		if c.only != "" {
			fmt.Printf("validated=%d mismatched=%d spurious=%d vacuity=%v exhaustive=%v\n", validated, mismatched, len(spur), vac, exh)
			for _, x := range mism {
				fmt.Println("  MISMATCH", x)
			}
			for _, x := range sp {
				fmt.Println("  SPURIOUS", x)
			}
			return
		}
		f = "/verif/evidence/" + c.prop + ".json"
	}
	os.MkdirAll(filepath.Dir(f), 0o755)
	os.WriteFile(f, b, 0o644)
	fmt.Printf("%s %s: %d paths, %d queries (%d unsat), %d assertions, %d validated natively, %d mismatches, exhaustive=%v, %.1fs\n", c.prop, c.tier, paths, q, unsat, asserts, validated, mismatched, exh, wall.Seconds())
	for _, v := range vac {
		fmt.Println("vacuity warning:", v)
	}
}

func trimObs(o map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range o {
		r[k] = cut(v, 300)
	}
	return r
}
