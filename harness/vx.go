package readability

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"sync"
	"unicode/utf8"
)

// Harness primitives. The symbolic executor intercepts them; compiled
// natively they read the values of one solver assignment, which is how
// counterexamples and path witnesses are replayed on the real code.

type vxState struct {
	assign map[string]int64
	obs    map[string]string
}

var vxCur *vxState

type vxStop struct {
	kind string
	msg  string
}

func vxPick(name string, alts ...string) string {
	i := vxCur.assign[name]
	if i < 0 || int(i) >= len(alts) {
		i = 0
	}
	return alts[i]
}

func vxBool(name string) bool { return vxCur.assign[name] != 0 }

func vxInt(name string, lo, hi int) int {
	// the assignment holds the offset from lo
	return lo + int(vxCur.assign[name])
}

func vxByte(name, set string) string {
	v, ok := vxCur.assign[name]
	if !ok {
		v = 'a'
		if set != "" {
			v = int64(set[0])
		}
	}
	return string([]byte{byte(v)})
}

func vxAssume(c bool) {
	if !c {
		panic(vxStop{"assume", ""})
	}
}

func vxAssert(c bool, msg string) {
	if !c {
		panic(vxStop{"assert", msg})
	}
}

func vxObserve(name, s string)        { vxCur.obs[name] = s }
func vxObserveInt(name string, n int) { vxCur.obs[name] = fmt.Sprint(n) }
func vxReach(label string)            {}
func vxFork(s string) string          { return s }
func vxThorough() bool                { return os.Getenv("VX_TIER") == "thorough" }

func vxFreeze() {}
func vxThaw()   {}

// vxPar runs f and g at the same time under the race detector. Symbolically
// it asserts that neither writes memory that existed before it started, so
// that no interleaving of theirs can differ from running them in turn.
func vxPar(f, g func() any) (any, any) {
	if !vxRace {
		vxFreeze()
		a := f()
		vxThaw()
		vxFreeze()
		b := g()
		vxThaw()
		return a, b
	}
	before := vxRaces()
	type out struct{ v, p any }
	start := make(chan struct{})
	run := func(h func() any) chan out {
		c := make(chan out, 1)
		go func() {
			var o out
			defer func() {
				o.p = recover()
				c <- o
			}()
			<-start
			o.v = h()
		}()
		return c
	}
	// each of the two twice, all at once: a write shared by one call with
	// itself is a race of two such calls
	cs := []chan out{run(f), run(g), run(f), run(g)}
	close(start)
	var os []out
	for _, c := range cs {
		os = append(os, <-c)
	}
	for _, o := range os {
		if o.p != nil {
			panic(o.p)
		}
	}
	a, b := os[0], os[1]
	if vxRaces() > before {
		panic(vxStop{"assert", "data race"})
	}
	return a.v, b.v
}

// VxRun runs one harness natively under an assignment.
func VxRun(h string, assign map[string]int64) (outcome, msg string, obs map[string]string) {
	f, ok := vxHarnesses[h]
	if !ok {
		return "error", "no harness " + h, nil
	}
	vxCur = &vxState{assign: assign, obs: map[string]string{}}
	outcome = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(vxStop); ok {
					outcome, msg = s.kind, s.msg
					return
				}
				outcome, msg = "panic", fmt.Sprint(r)
			}
		}()
		f()
	}()
	return outcome, msg, vxCur.obs
}

// ---- prelude: library functions taking callbacks, executed from these
// bodies by the symbolic executor so that the callback is executed too ----

func vpReplaceAllStringFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	out := ""
	last := 0
	for _, loc := range re.FindAllStringIndex(src, -1) {
		out += src[last:loc[0]]
		out += repl(src[loc[0]:loc[1]])
		last = loc[1]
	}
	return out + src[last:]
}

var vpOnces = map[*sync.Once]bool{}

func vpOnceDo(o *sync.Once, f func()) {
	if vpOnces[o] {
		return
	}
	vpOnces[o] = true
	f()
}

func vpFieldsFunc(s string, f func(rune) bool) []string {
	var out []string
	cur := ""
	for _, r := range s {
		if f(r) {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += string(r)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func vpIndexFunc(s string, f func(rune) bool) int {
	for i, r := range s {
		if f(r) {
			return i
		}
	}
	return -1
}

func vpContainsFunc(s string, f func(rune) bool) bool { return vpIndexFunc(s, f) >= 0 }

func vpStringsMap(f func(rune) rune, s string) string {
	out := ""
	for _, r := range s {
		if x := f(r); x >= 0 {
			out += string(x)
		}
	}
	return out
}

func vpTrimFunc(s string, f func(rune) bool) string {
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if !f(r) {
			break
		}
		s = s[n:]
	}
	for len(s) > 0 {
		r, n := utf8.DecodeLastRuneInString(s)
		if !f(r) {
			break
		}
		s = s[:len(s)-n]
	}
	return s
}

// the synchronised containers, as plain ones

var vpPools = map[*sync.Pool][]any{}

func vpPoolGet(p *sync.Pool) any {
	if l := vpPools[p]; len(l) > 0 {
		vpPools[p] = l[:len(l)-1]
		return l[len(l)-1]
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func vpPoolPut(p *sync.Pool, x any) {
	if x != nil {
		vpPools[p] = append(vpPools[p], x)
	}
}

type vpMapEnt struct{ k, v any }

var vpMaps = map[*sync.Map][]vpMapEnt{}

func vpMapLoad(p *sync.Map, k any) (any, bool) {
	for _, e := range vpMaps[p] {
		if e.k == k {
			return e.v, true
		}
	}
	return nil, false
}

func vpMapDelete(p *sync.Map, k any) {
	var out []vpMapEnt
	for _, e := range vpMaps[p] {
		if e.k != k {
			out = append(out, e)
		}
	}
	vpMaps[p] = out
}

func vpMapStore(p *sync.Map, k, v any) {
	vpMapDelete(p, k)
	vpMaps[p] = append(vpMaps[p], vpMapEnt{k, v})
}

func vpMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	if x, ok := vpMapLoad(p, k); ok {
		return x, true
	}
	vpMapStore(p, k, v)
	return v, false
}

func vpMapRange(p *sync.Map, f func(k, v any) bool) {
	for _, e := range vpMaps[p] {
		if !f(e.k, e.v) {
			return
		}
	}
}

func vpAtomicAddInt64(p *int64, d int64) int64  { *p += d; return *p }
func vpAtomicLoadInt64(p *int64) int64          { return *p }
func vpAtomicStoreInt64(p *int64, v int64)      { *p = v }
func vpAtomicSwapInt64(p *int64, v int64) int64 { o := *p; *p = v; return o }
func vpAtomicCompareAndSwapInt64(p *int64, o, v int64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}
func vpAtomicAddInt32(p *int32, d int32) int32  { *p += d; return *p }
func vpAtomicLoadInt32(p *int32) int32          { return *p }
func vpAtomicStoreInt32(p *int32, v int32)      { *p = v }
func vpAtomicSwapInt32(p *int32, v int32) int32 { o := *p; *p = v; return o }
func vpAtomicCompareAndSwapInt32(p *int32, o, v int32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}
func vpAtomicAddUint64(p *uint64, d uint64) uint64  { *p += d; return *p }
func vpAtomicLoadUint64(p *uint64) uint64           { return *p }
func vpAtomicStoreUint64(p *uint64, v uint64)       { *p = v }
func vpAtomicSwapUint64(p *uint64, v uint64) uint64 { o := *p; *p = v; return o }
func vpAtomicCompareAndSwapUint64(p *uint64, o, v uint64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}
func vpAtomicAddUint32(p *uint32, d uint32) uint32  { *p += d; return *p }
func vpAtomicLoadUint32(p *uint32) uint32           { return *p }
func vpAtomicStoreUint32(p *uint32, v uint32)       { *p = v }
func vpAtomicSwapUint32(p *uint32, v uint32) uint32 { o := *p; *p = v; return o }
func vpAtomicCompareAndSwapUint32(p *uint32, o, v uint32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

// Models of sort.Slice and sort.SliceStable. vpLen and vpSwap are done by the
// executor.
func vpLen(x any) int { return reflect.ValueOf(x).Len() }

func vpSwap(x any, i, j int) { reflect.Swapper(x)(i, j) }

func vpSortSlice(x any, less func(i, j int) bool) {
	n := vpLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vpSwap(x, j, j-1)
		}
	}
}

func vpLastIndexFunc(s string, f func(rune) bool) int {
	last := -1
	for i, r := range s {
		if f(r) {
			last = i
		}
	}
	return last
}

func vpTrimLeftFunc(s string, f func(rune) bool) string {
	for i, r := range s {
		if !f(r) {
			return s[i:]
		}
	}
	return ""
}

func vpTrimRightFunc(s string, f func(rune) bool) string {
	end := 0
	for i, r := range s {
		if !f(r) {
			end = i + 1
			for end < len(s) && !utf8.RuneStart(s[end]) {
				end++
			}
		}
	}
	return s[:end]
}

// Models of the fmt functions that write.
func vpFprintf(w io.Writer, format string, a ...any) (int, error) {
	return io.WriteString(w, fmt.Sprintf(format, a...))
}

func vpFprint(w io.Writer, a ...any) (int, error) { return io.WriteString(w, fmt.Sprint(a...)) }

func vpFprintln(w io.Writer, a ...any) (int, error) { return io.WriteString(w, fmt.Sprintln(a...)) }

// ---- for the harness of the command, which is another package ----

func VxPick(name string, alts ...string) string { return vxFork(vxPick(name, alts...)) }
func VxBool(name string) bool                   { return vxBool(name) }
func VxAssert(c bool, msg string)               { vxAssert(c, msg) }
func VxObserve(name, s string)                  { vxObserve(name, s) }
func VxReach(label string)                      { vxReach(label) }
func VxThorough() bool                          { return vxThorough() }
func VxRegister(name string, h func())          { vxHarnesses[name] = h }
