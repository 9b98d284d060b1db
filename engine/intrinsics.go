package main

import (
	"errors"
	"fmt"
	"go/types"
	"html"
	"math"
	"mime"
	"net/url"
	"path"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/net/html/atom"
)

type intrinsic func(m *M, f *Frame, c *callSite, args []V) (V, ctl)

var intrinsics map[string]intrinsic

// redirects sends a library function to a model written in Go in the harness
// package (interpreted like everything else).
var redirects = map[string]string{}

func simpleFold(r rune) rune { return unicode.SimpleFold(r) }

func init() {
	intrinsics = map[string]intrinsic{}
	regNatives()
	regOther()
	regTok()
	regJSON()
	regHarness()
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

// native registers a pure library function: it is run natively on concrete
// arguments and lifted exactly over tables.
func native(name string, fn any) {
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	intrinsics[name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return m.callNative(f, rv, rt, args)
	}
}

func (m *M) callNative(f *Frame, rv reflect.Value, rt reflect.Type, args []V) (V, ctl) {
	// flatten: []string arguments become several scalars
	type argd struct {
		lo, n int
		list  bool
		isnil bool
	}
	var flat []V
	ds := make([]argd, len(args))
	for i, a := range args {
		pt := rt.In(i)
		if pt.Kind() == reflect.Slice && pt.Elem().Kind() == reflect.Uint8 {
			s, ct := m.bytesToStr(f, a)
			if ct != ctlNext {
				return V{}, ct
			}
			a = s
		} else if pt.Kind() == reflect.Slice {
			d := argd{lo: len(flat), list: true}
			switch s := a.r.(type) {
			case nil:
				d.isnil = true
			case *SliceV:
				d.n = s.len
				flat = append(flat, s.obj.slots[s.off:s.off+s.len*s.es]...)
			default:
				m.unsup("list argument %T", a.r)
			}
			ds[i] = d
			continue
		}
		ds[i] = argd{lo: len(flat), n: 1}
		flat = append(flat, a)
	}
	conv := func(t reflect.Type, v V) reflect.Value {
		x := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.String:
			s, ok := v.str()
			if !ok {
				m.unsup("native argument %v", v)
			}
			x.SetString(s)
		case reflect.Bool:
			x.SetBool(v.n != 0)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x.SetInt(v.n)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			x.SetUint(uint64(v.n))
		case reflect.Float64, reflect.Float32:
			x.SetFloat(v.f())
		case reflect.Slice:
			s, _ := v.str()
			x.SetBytes([]byte(s))
		default:
			m.unsup("native argument kind %s", t.Kind())
		}
		return x
	}
	var back func(x reflect.Value) V
	back = func(x reflect.Value) V {
		switch x.Kind() {
		case reflect.String:
			return vStr(x.String())
		case reflect.Bool:
			return vBool(x.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return vInt(x.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return vInt(int64(x.Uint()))
		case reflect.Float64, reflect.Float32:
			return vF(x.Float())
		case reflect.Slice:
			if x.IsNil() {
				return V{r: hostSlice(nil)}
			}
			hs := make(hostSlice, x.Len())
			for i := range hs {
				hs[i] = back(x.Index(i))
			}
			return V{r: hs}
		case reflect.Interface:
			if x.IsNil() {
				return V{}
			}
			return m.errV(x.Interface().(error).Error())
		}
		m.unsup("native result kind %s", x.Kind())
		return V{}
	}
	paniced := ""
	r, ct := m.lift(f, flat, func(c []V) (out V) {
		in := make([]reflect.Value, len(args))
		for i, d := range ds {
			pt := rt.In(i)
			if d.list {
				if d.isnil {
					in[i] = reflect.Zero(pt)
					continue
				}
				l := reflect.MakeSlice(pt, d.n, d.n)
				for j := 0; j < d.n; j++ {
					l.Index(j).Set(conv(pt.Elem(), c[d.lo+j]))
				}
				in[i] = l
			} else {
				in[i] = conv(pt, c[d.lo])
			}
		}
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					panic(u)
				}
				paniced = fmt.Sprint(e)
				out = bad
			}
		}()
		var res []reflect.Value
		if rt.IsVariadic() {
			res = rv.CallSlice(in)
		} else {
			res = rv.Call(in)
		}
		switch len(res) {
		case 0:
			return V{}
		case 1:
			return back(res[0])
		}
		t := make(Tuple, len(res))
		for i := range t {
			t[i] = back(res[i])
		}
		return V{r: t}
	})
	if ct != ctlNext {
		return V{}, ct
	}
	if paniced != "" {
		if isBad(r) {
			return V{}, m.goPanic("%s", paniced)
		}
		m.unsup("library call may panic: %s", paniced)
	}
	return m.unhost(r)
}

func (m *M) bytesToStr(f *Frame, a V) (V, ctl) {
	switch s := a.r.(type) {
	case nil:
		return V{}, ctlNext
	case *LazySlice:
		return s.s, ctlNext
	case *SliceV:
		return m.sliceToStr(f, s, false)
	}
	m.unsup("bytes %T", a.r)
	return V{}, ctlEnd
}

// unhost splits tables of tuples and expands list results.
func (m *M) unhost(v V) (V, ctl) {
	switch x := v.r.(type) {
	case Tuple:
		out := make(Tuple, len(x))
		for i := range x {
			r, ct := m.unhost(x[i])
			if ct != ctlNext {
				return V{}, ct
			}
			out[i] = r
		}
		return V{r: out}, ctlNext
	case hostSlice:
		if x == nil {
			return V{}, ctlNext
		}
		vs := make([]V, len(x))
		for i := range x {
			e, ct := m.unhost(x[i])
			if ct != ctlNext {
				return V{}, ct
			}
			vs[i] = e
		}
		return m.mkSlice(vs, 1), ctlNext
	case *Tab:
		var first V
		m.each(x, func(i int) bool {
			if isBad(x.t[i]) {
				return true
			}
			first = x.t[i]
			return false
		})
		switch y := first.r.(type) {
		case Tuple:
			out := make(Tuple, len(y))
			for i := range y {
				r, ct := m.unhost(m.mapTab(x, func(e V) V { return e.r.(Tuple)[i] }))
				if ct != ctlNext {
					return V{}, ct
				}
				out[i] = r
			}
			return V{r: out}, ctlNext
		case hostSlice:
			if ct := m.forkBy(x, func(e V) int64 {
				h := e.r.(hostSlice)
				if h == nil {
					return -1
				}
				return int64(len(h))
			}); ct != ctlNext {
				return V{}, ct
			}
			if y == nil {
				return V{}, ctlNext
			}
			vs := make([]V, len(y))
			for i := range y {
				r, ct := m.unhost(m.mapTab(x, func(e V) V { return e.r.(hostSlice)[i] }))
				if ct != ctlNext {
					return V{}, ct
				}
				vs[i] = r
			}
			return m.mkSlice(vs, 1), ctlNext
		}
	}
	return v, ctlNext
}

func (m *M) errV(msg string) V {
	t := m.p.errStringT
	o := m.newObj(1)
	o.slots[0] = vStr(msg)
	return V{r: &Iface{t: t, v: V{r: o}}}
}

func regNatives() {
	for n, fn := range map[string]any{
		"strings.Contains": nil, "strings.Index": nil, "strings.LastIndex": nil, "strings.HasPrefix": nil, "strings.HasSuffix": nil,
		"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace,
		"strings.Title":     strings.Title,
		"strings.EqualFold": strings.EqualFold, "strings.Repeat": strings.Repeat, "strings.Fields": strings.Fields,
		"strings.Compare": strings.Compare, "strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny,
		"strings.ContainsRune": strings.ContainsRune, "strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.ToValidUTF8": strings.ToValidUTF8, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
		"strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.Count": strings.Count,
		"strconv.Atoi":  strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
		"strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
		"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool, "strconv.Unquote": strconv.Unquote,
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
		"unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
		"unicode.SimpleFold": unicode.SimpleFold, "unicode.IsSymbol": unicode.IsSymbol,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.ValidRune": utf8.ValidRune,
		"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "unicode/utf8.Valid": utf8.Valid, "unicode/utf8.RuneCount": utf8.RuneCount,
		"unicode/utf8.FullRune": utf8.FullRune, "unicode/utf8.DecodeLastRune": utf8.DecodeLastRune,
		"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Max": math.Max, "math.Min": math.Min, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs,
		"math.Pow": math.Pow, "math.Log": math.Log, "math.Round": math.Round, "math.Trunc": math.Trunc, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf,
		"math.Inf": math.Inf, "math.NaN": math.NaN, "math.Mod": math.Mod, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Exp": math.Exp,
		"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
		"html.EscapeString": html.EscapeString, "html.UnescapeString": html.UnescapeString,
		"golang.org/x/net/html.EscapeString": html.EscapeString, "golang.org/x/net/html.UnescapeString": html.UnescapeString,
		"net/url.QueryEscape": url.QueryEscape, "net/url.PathEscape": url.PathEscape,
		"path.Ext": path.Ext, "path.Base": path.Base, "path.Clean": path.Clean, "path.Dir": path.Dir,
		"mime.TypeByExtension":              mime.TypeByExtension,
		"golang.org/x/net/html/atom.String": atom.String,
		"internal/bytealg.IndexByteString":  strings.IndexByte, "internal/stringslite.IndexByte": strings.IndexByte,
		"internal/stringslite.Index": strings.Index, "internal/stringslite.HasPrefix": strings.HasPrefix, "internal/stringslite.HasSuffix": strings.HasSuffix,
		"internal/bytealg.CountString":             func(s string, b byte) int { return strings.Count(s, string([]byte{b})) },
		"internal/bytealg.IndexString":             strings.Index,
		"internal/bytealg.LastIndexByteString":     strings.LastIndexByte,
		"internal/bytealg.IndexByte":               func(b []byte, c byte) int { return strings.IndexByte(string(b), c) },
		"internal/bytealg.Count":                   func(b []byte, c byte) int { return strings.Count(string(b), string([]byte{c})) },
		"internal/bytealg.Equal":                   func(a, b []byte) bool { return string(a) == string(b) },
		"internal/bytealg.Compare":                 func(a, b []byte) int { return strings.Compare(string(a), string(b)) },
		"internal/bytealg.Index":                   func(a, b []byte) int { return strings.Index(string(a), string(b)) },
		"bytes.Equal":                              func(a, b []byte) bool { return string(a) == string(b) },
		"bytes.Contains":                           func(a, b []byte) bool { return strings.Contains(string(a), string(b)) },
		"bytes.Index":                              func(a, b []byte) int { return strings.Index(string(a), string(b)) },
		"bytes.IndexByte":                          func(a []byte, b byte) int { return strings.IndexByte(string(a), b) },
		"bytes.HasPrefix":                          func(a, b []byte) bool { return strings.HasPrefix(string(a), string(b)) },
		"bytes.HasSuffix":                          func(a, b []byte) bool { return strings.HasSuffix(string(a), string(b)) },
		"(golang.org/x/net/html/atom.Atom).String": func(a uint32) string { return atom.Atom(a).String() },
		"golang.org/x/net/html/atom.Lookup":        func(b []byte) uint32 { return uint32(atom.Lookup(b)) },
		"math/bits.Len64": func(x uint64) int {
			n := 0
			for x != 0 {
				n++
				x >>= 1
			}
			return n
		},
		"math/bits.Len": func(x uint) int {
			n := 0
			for x != 0 {
				n++
				x >>= 1
			}
			return n
		},
		"math/bits.Len32": func(x uint32) int {
			n := 0
			for x != 0 {
				n++
				x >>= 1
			}
			return n
		},
	} {
		if fn != nil {
			native(n, fn)
		}
	}

	// functions with a rope-level fallback when the table would be too large
	withFallback := func(name string, nat any, fb func(m *M, args []V) (V, ctl)) {
		rv := reflect.ValueOf(nat)
		rt := rv.Type()
		intrinsics[name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			ok := true
			for i := range args {
				if _, isr := args[i].r.(*Rope); isr {
					v, o := m.small(args[i])
					args[i] = v
					ok = ok && o
				}
			}
			if !ok {
				return fb(m, args)
			}
			return m.callNative(f, rv, rt, args)
		}
	}
	idxFn := func(find func(s, p string) int, conv func(i int, s, p string) V) func(m *M, args []V) (V, ctl) {
		return func(m *M, args []V) (V, ctl) {
			p, ct := m.concStr(args[1])
			if ct != ctlNext {
				return V{}, ct
			}
			s, ct := m.repr(args[0], exactClasses(p))
			if ct != ctlNext {
				return V{}, ct
			}
			return conv(find(s, p), s, p), ctlNext
		}
	}
	toInt := func(i int, s, p string) V { return vInt(int64(i)) }
	withFallback("strings.Index", strings.Index, idxFn(strings.Index, toInt))
	withFallback("strings.LastIndex", strings.LastIndex, idxFn(strings.LastIndex, toInt))
	withFallback("strings.Contains", strings.Contains, idxFn(strings.Index, func(i int, s, p string) V { return vBool(i >= 0) }))
	withFallback("strings.Count", strings.Count, idxFn(strings.Count, toInt))
	withFallback("strings.ContainsAny", strings.ContainsAny, idxFn(strings.IndexAny, func(i int, s, p string) V { return vBool(i >= 0) }))
	withFallback("strings.IndexAny", strings.IndexAny, idxFn(strings.IndexAny, toInt))
	prefixV := func(v V, n int) V { return v }
	_ = prefixV
	withFallback("strings.HasPrefix", strings.HasPrefix, func(m *M, args []V) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		return m.prefixTest(args[0], p, false)
	})
	withFallback("strings.HasSuffix", strings.HasSuffix, func(m *M, args []V) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		return m.prefixTest(args[0], p, true)
	})
	byteIdx := func(last bool) func(m *M, args []V) (V, ctl) {
		return func(m *M, args []V) (V, ctl) {
			b, ct := m.concInt(nil, args[1], intK)
			if ct != ctlNext {
				return V{}, ct
			}
			p := string(rune(b))
			s, ct := m.repr(args[0], exactClasses(p))
			if ct != ctlNext {
				return V{}, ct
			}
			if last {
				return vInt(int64(strings.LastIndex(s, p))), ctlNext
			}
			return vInt(int64(strings.Index(s, p))), ctlNext
		}
	}
	withFallback("strings.IndexByte", strings.IndexByte, byteIdx(false))
	withFallback("strings.IndexRune", strings.IndexRune, byteIdx(false))
	withFallback("strings.LastIndexByte", strings.LastIndexByte, byteIdx(true))
	withFallback("strings.ContainsRune", strings.ContainsRune, func(m *M, args []V) (V, ctl) {
		r, ct := byteIdx(false)(m, args)
		if ct != ctlNext {
			return V{}, ct
		}
		return vBool(r.n >= 0), ctlNext
	})
	pieces := func(m *M, v V, p string, n int) ([]V, ctl) {
		s, ct := m.repr(v, exactClasses(p))
		if ct != ctlNext {
			return nil, ct
		}
		parts := strings.SplitN(s, p, n)
		var out []V
		pos := 0
		for _, x := range parts {
			out = append(out, m.sub(v, pos, pos+len(x)))
			pos += len(x) + len(p)
		}
		return out, ctlNext
	}
	withFallback("strings.Split", strings.Split, func(m *M, args []V) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		if p == "" {
			s, ct := m.concStr(args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			var vs []V
			for _, x := range strings.Split(s, "") {
				vs = append(vs, vStr(x))
			}
			return m.mkSlice(vs, 1), ctlNext
		}
		vs, ct := pieces(m, args[0], p, -1)
		if ct != ctlNext {
			return V{}, ct
		}
		return m.mkSlice(vs, 1), ctlNext
	})
	withFallback("strings.SplitN", strings.SplitN, func(m *M, args []V) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		n, ct := m.concInt(nil, args[2], intK)
		if ct != ctlNext {
			return V{}, ct
		}
		if p == "" || n == 0 {
			s, ct := m.concStr(args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			var vs []V
			for _, x := range strings.SplitN(s, p, int(n)) {
				vs = append(vs, vStr(x))
			}
			return m.mkSlice(vs, 1), ctlNext
		}
		vs, ct := pieces(m, args[0], p, int(n))
		if ct != ctlNext {
			return V{}, ct
		}
		return m.mkSlice(vs, 1), ctlNext
	})
	cut := func(m *M, args []V) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		vs, ct := pieces(m, args[0], p, 2)
		if ct != ctlNext {
			return V{}, ct
		}
		if len(vs) == 2 {
			return V{r: Tuple{vs[0], vs[1], vBool(true)}}, ctlNext
		}
		return V{r: Tuple{args[0], V{}, vBool(false)}}, ctlNext
	}
	withFallback("strings.Cut", strings.Cut, cut)
	withFallback("internal/stringslite.Cut", strings.Cut, cut)
	repl := func(m *M, args []V, n int) (V, ctl) {
		p, ct := m.concStr(args[1])
		if ct != ctlNext {
			return V{}, ct
		}
		if p == "" {
			s, ct := m.concStr(args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			r, ct := m.concStr(args[2])
			if ct != ctlNext {
				return V{}, ct
			}
			return vStr(strings.Replace(s, p, r, n)), ctlNext
		}
		if n >= 0 {
			n++
		}
		vs, ct := pieces(m, args[0], p, n)
		if ct != ctlNext {
			return V{}, ct
		}
		var rb ropeB
		for i, v := range vs {
			if i > 0 {
				rb.add(m.normS(args[2]))
			}
			rb.add(v)
		}
		return rb.v(), ctlNext
	}
	withFallback("strings.ReplaceAll", strings.ReplaceAll, func(m *M, args []V) (V, ctl) { return repl(m, args, -1) })
	withFallback("strings.Replace", strings.Replace, func(m *M, args []V) (V, ctl) {
		n, ct := m.concInt(nil, args[3], intK)
		if ct != ctlNext {
			return V{}, ct
		}
		return repl(m, args, int(n))
	})
	for _, n := range []string{"strings.TrimPrefix", "internal/stringslite.TrimPrefix"} {
		withFallback(n, strings.TrimPrefix, func(m *M, args []V) (V, ctl) {
			p, ct := m.concStr(args[1])
			if ct != ctlNext {
				return V{}, ct
			}
			r, ct := m.prefixTest(args[0], p, false)
			if ct != ctlNext {
				return V{}, ct
			}
			if r.r != nil {
				return V{}, m.forkBoolV(r)
			}
			if r.n != 0 {
				v, ct, _ := m.substr(args[0], len(p), -1)
				return v, ct
			}
			return args[0], ctlNext
		})
	}
	for n, fn := range map[string]func(string) string{"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower} {
		fn := fn
		intrinsics[n] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			return m.segMap(args[0], fn), ctlNext
		}
	}
	intrinsics["strings.TrimSpace"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return m.trimFunc(args[0], strings.TrimSpace, true, true)
	}
	trimSet := func(name string, fn func(string, string) string, l, r bool) {
		intrinsics[name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			set, ct := m.concStr(args[1])
			if ct != ctlNext {
				return V{}, ct
			}
			if strings.Contains(set, "x") {
				s, ct := m.concStr(args[0])
				if ct != ctlNext {
					return V{}, ct
				}
				return vStr(fn(s, set)), ctlNext
			}
			return m.trimFunc(args[0], func(s string) string { return fn(s, set) }, l, r)
		}
	}
	trimSet("strings.Trim", strings.Trim, true, true)
	trimSet("strings.TrimLeft", strings.TrimLeft, true, false)
	trimSet("strings.TrimRight", strings.TrimRight, false, true)
	intrinsics["unicode/utf8.RuneCountInString"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return m.runeCount(args[0]), ctlNext
	}
	dec := func(m *M, s V) (V, ctl) {
		s = m.normS(s)
		// only the first segment matters if it cannot be empty
		segs := m.segsOf(s)
		if len(segs) == 0 {
			return V{r: Tuple{vInt(utf8.RuneError), V{}}}, ctlNext
		}
		head := s
		if len(segs) > 1 {
			h := segs[0]
			if h.tab == nil {
				if r, _ := utf8.DecodeRuneInString(h.lit); r != utf8.RuneError {
					head = vStr(h.lit)
				}
			} else {
				if ct := m.forkBy(h.tab, func(e V) int64 {
					x, _ := e.str()
					if x == "" {
						return 0
					}
					return 1
				}); ct != ctlNext {
					return V{}, ct
				}
				head = m.normTab(h.tab)
				if x, ok := head.str(); ok && x == "" {
					return V{}, ctlSwitch
				}
			}
		}
		r, ct := m.lift(nil, []V{head}, func(c []V) V {
			x, _ := c[0].str()
			r, n := utf8.DecodeRuneInString(x)
			return V{r: Tuple{vInt(int64(r)), vInt(int64(n))}}
		})
		if ct != ctlNext {
			return V{}, ct
		}
		return m.unhost(r)
	}
	intrinsics["unicode/utf8.DecodeRuneInString"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return dec(m, args[0]) }
	intrinsics["unicode/utf8.DecodeRune"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s, ct := m.bytesToStr(f, args[0])
		if ct != ctlNext {
			return V{}, ct
		}
		return dec(m, s)
	}
}

func (m *M) forkBoolV(v V) ctl {
	at, af, conc, _ := m.boolAlts(v)
	if conc {
		return ctlSwitch
	}
	if t, ok := v.r.(*Tab); ok && at.narrow == nil {
		// one variable at a time, so that the table shrinks
		return m.forkTab(t)
	}
	return m.choose([]alt{at, af})
}

// prefixTest decides HasPrefix/HasSuffix on a rope.
func (m *M) prefixTest(v V, p string, suffix bool) (V, ctl) {
	segs := m.segsOf(v)
	// gather just enough segments
	need := len(p)
	var use []seg
	got := 0
	for k := 0; k < len(segs) && got < need; k++ {
		s := segs[k]
		if suffix {
			s = segs[len(segs)-1-k]
		}
		if suffix {
			use = append([]seg{s}, use...)
		} else {
			use = append(use, s)
		}
		if s.tab == nil {
			got += len(s.lit)
		} else {
			mn := 1 << 30
			m.each(s.tab, func(i int) bool {
				if !isBad(s.tab.t[i]) {
					x, _ := s.tab.t[i].str()
					if len(x) < mn {
						mn = len(x)
					}
				}
				return true
			})
			got += mn
		}
	}
	head := m.ropeOf(use)
	hv, ok := m.small(head)
	if ok {
		return m.lift(nil, []V{hv}, func(c []V) V {
			x, _ := c[0].str()
			if suffix {
				return vBool(strings.HasSuffix(x, p))
			}
			return vBool(strings.HasPrefix(x, p))
		})
	}
	s, ct := m.repr(head, exactClasses(p))
	if ct != ctlNext {
		return V{}, ct
	}
	if suffix {
		return vBool(strings.HasSuffix(s, p)), ctlNext
	}
	return vBool(strings.HasPrefix(s, p)), ctlNext
}

type replacer struct {
	r    *strings.Replacer
	olds []string
	hom  bool
}

func hostOf[T any](m *M, v V) (T, bool) {
	var z T
	h, ok := v.r.(*Host)
	if !ok {
		return z, false
	}
	x, ok := h.x.(T)
	return x, ok
}

func regOther() {
	intrinsics["internal/reflectlite.TypeOf"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return V{r: &Iface{t: types.Typ[types.Int], v: V{}}}, ctlNext
	}

	I := intrinsics
	nop := func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return zeroV(c.rt), ctlNext }
	for _, n := range []string{"Debug", "Error", "Info", "Warn", "Log", "DebugContext", "ErrorContext"} {
		I["log/slog."+n] = nop
	}
	for _, n := range []string{"String", "Int", "Any", "Bool", "Float64", "Int64", "Group", "Duration"} {
		I["log/slog."+n] = nop
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		I["log."+n] = nop
		I["fmt."+n] = nop
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		I["log."+n] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			return V{}, m.end("panic", "log.Fatal: process exit")
		}
	}
	I["(*internal/godebug.Setting).Value"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return V{}, ctlNext }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["os.Exit"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return V{}, m.end("panic", "os.Exit")
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.GC", "runtime.KeepAlive", "runtime.Gosched", "runtime.SetFinalizer"} {
		I[n] = nop
	}
	fmtFn := func(name string, mk func(m *M, s V) (V, ctl)) {
		I[name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			format, ct := m.concStr(args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			if v, ok, ct := m.formatRope(f, format, args[1]); ok {
				if ct != ctlNext {
					return V{}, ct
				}
				return mk(m, v)
			}
			as, ct := m.goArgs(f, args[1])
			if ct != ctlNext {
				return V{}, ct
			}
			return mk(m, vStr(fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), as...)))
		}
	}
	fmtFn("fmt.Errorf", func(m *M, v V) (V, ctl) {
		s, ct := m.concStr(v)
		if ct != ctlNext {
			return V{}, ct
		}
		return m.errV(s), ctlNext
	})
	fmtFn("fmt.Sprintf", func(m *M, v V) (V, ctl) { return v, ctlNext })
	for _, ln := range []bool{false, true} {
		ln := ln
		name := "fmt.Sprint"
		if ln {
			name += "ln"
		}
		I[name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			if s, ok := args[0].r.(*SliceV); ok && s.len == 1 && !ln {
				if v, ok, ct := m.formatRope(f, "%s", args[0]); ok {
					return v, ct
				}
			}
			as, ct := m.goArgs(f, args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			if ln {
				return vStr(fmt.Sprintln(as...)), ctlNext
			}
			return vStr(fmt.Sprint(as...)), ctlNext
		}
	}
	// strings.Join is concatenation
	I["strings.Join"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		if args[0].r == nil {
			return V{}, ctlNext
		}
		s := args[0].r.(*SliceV)
		var rb ropeB
		for i := 0; i < s.len; i++ {
			if i > 0 {
				rb.add(m.normS(args[1]))
			}
			rb.add(m.normS(s.obj.slots[s.off+i]))
		}
		return rb.v(), ctlNext
	}
	I["strings.Clone"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return args[0], ctlNext }
	I["internal/stringslite.Clone"] = I["strings.Clone"]

	// builders: the accumulated string lives in the object's first slot
	addStr := func(slot int) intrinsic {
		return func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			o := args[0].r.(*Obj)
			i := int(args[0].n) + slot
			m.set(o, i, m.concat(o.slots[i], args[1]))
			return V{r: Tuple{m.strLen(args[1]), V{}}}, ctlNext
		}
	}
	for _, b := range []struct {
		t    string
		slot int
	}{{"(*strings.Builder)", 1}, {"(*bytes.Buffer)", 0}} {
		slot := b.slot
		I[b.t+".WriteString"] = addStr(slot)
		I[b.t+".Write"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			s, ct := m.bytesToStr(f, args[1])
			if ct != ctlNext {
				return V{}, ct
			}
			return addStr(slot)(m, f, c, []V{args[0], s})
		}
		I[b.t+".WriteByte"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			s, ct := m.lift(f, []V{args[1]}, func(c []V) V { return vStr(string([]byte{byte(c[0].n)})) })
			if ct != ctlNext {
				return V{}, ct
			}
			addStr(slot)(m, f, c, []V{args[0], s})
			return V{}, ctlNext
		}
		I[b.t+".WriteRune"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			s, ct := m.lift(f, []V{args[1]}, func(c []V) V { return vStr(string(rune(c[0].n))) })
			if ct != ctlNext {
				return V{}, ct
			}
			return addStr(slot)(m, f, c, []V{args[0], s})
		}
		I[b.t+".String"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			if args[0].r == nil {
				return V{}, ctlInterp
			}
			o := args[0].r.(*Obj)
			return m.normS(o.slots[int(args[0].n)+slot]), ctlNext
		}
		I[b.t+".Len"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			o := args[0].r.(*Obj)
			return m.strLen(o.slots[int(args[0].n)+slot]), ctlNext
		}
		I[b.t+".Reset"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			m.set(args[0].r.(*Obj), int(args[0].n)+slot, V{})
			return V{}, ctlNext
		}
		I[b.t+".Grow"] = nop
		I[b.t+".Bytes"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			o := args[0].r.(*Obj)
			v := m.normS(o.slots[int(args[0].n)+slot])
			if s, ok := v.str(); ok {
				return m.bytesOrRunes(s, false), ctlNext
			}
			return V{r: &LazySlice{s: v}}, ctlNext
		}
	}

	// strings.Replacer
	I["strings.NewReplacer"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s := args[0].r.(*SliceV)
		var on []string
		for i := 0; i < s.len; i++ {
			x, ct := m.concStr(s.obj.slots[s.off+i])
			if ct != ctlNext {
				return V{}, ct
			}
			on = append(on, x)
		}
		r := &replacer{r: strings.NewReplacer(on...), hom: true}
		for i := 0; i < len(on); i += 2 {
			r.olds = append(r.olds, on[i])
			if utf8.RuneCountInString(on[i]) != 1 {
				r.hom = false
			}
		}
		return V{r: &Host{r}}, ctlNext
	}
	I["(*strings.Replacer).Replace"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		r, ok := hostOf[*replacer](m, args[0])
		if !ok {
			return V{}, m.goPanic("runtime error: nil pointer dereference (Replacer)")
		}
		if r.hom {
			return m.segMap(args[1], r.r.Replace), ctlNext
		}
		return m.lift(f, []V{args[1]}, func(c []V) V { s, _ := c[0].str(); return vStr(r.r.Replace(s)) })
	}

	// regexp
	compile := func(must bool) intrinsic {
		return func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			s, ct := m.concStr(args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			re, err := regexp.Compile(s)
			if must {
				if err != nil {
					return V{}, m.goPanic("regexp: Compile: %v", err)
				}
				return V{r: &Host{re}}, ctlNext
			}
			if err != nil {
				return V{r: Tuple{V{}, m.errV(err.Error())}}, ctlNext
			}
			return V{r: Tuple{V{r: &Host{re}}, V{}}}, ctlNext
		}
	}
	I["regexp.MustCompile"] = compile(true)
	I["regexp.Compile"] = compile(false)
	I["regexp.QuoteMeta"] = nil
	delete(I, "regexp.QuoteMeta")
	native("regexp.QuoteMeta", regexp.QuoteMeta)
	I["regexp.MatchString"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s, ct := m.concStr(args[0])
		if ct != ctlNext {
			return V{}, ct
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return V{r: Tuple{V{}, m.errV(err.Error())}}, ctlNext
		}
		r, ct := m.reMatch(re, args[1])
		return V{r: Tuple{r, V{}}}, ct
	}
	reM := func(name string, fn func(m *M, f *Frame, re *regexp.Regexp, args []V) (V, ctl)) {
		I["(*regexp.Regexp)."+name] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			re, ok := hostOf[*regexp.Regexp](m, args[0])
			if !ok {
				return V{}, m.goPanic("runtime error: invalid memory address or nil pointer dereference (nil *Regexp)")
			}
			return fn(m, f, re, args[1:])
		}
	}
	reM("MatchString", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) { return m.reMatch(re, a[0]) })
	reM("Match", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) {
		s, ct := m.bytesToStr(f, a[0])
		if ct != ctlNext {
			return V{}, ct
		}
		return m.reMatch(re, s)
	})
	reM("String", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) { return vStr(re.String()), ctlNext })
	reM("NumSubexp", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) { return vInt(int64(re.NumSubexp())), ctlNext })
	reM("ReplaceAllString", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) { return m.reReplace(re, a[0], a[1]) })
	reM("ReplaceAllLiteralString", func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) {
		r, ct := m.concStr(a[1])
		if ct != ctlNext {
			return V{}, ct
		}
		return m.reReplace(re, a[0], vStr(strings.ReplaceAll(r, "$", "$$")))
	})
	// list-valued results: lifted when small, else via a representative
	strList := func(ss []string) V {
		if ss == nil {
			return V{r: hostSlice(nil)}
		}
		hs := make(hostSlice, len(ss))
		for i, s := range ss {
			hs[i] = vStr(s)
		}
		return V{r: hs}
	}
	ints := func(is []int) V {
		if is == nil {
			return V{r: hostSlice(nil)}
		}
		hs := make(hostSlice, len(is))
		for i, s := range is {
			hs[i] = vInt(int64(s))
		}
		return V{r: hs}
	}
	lifted := func(name string, nat func(re *regexp.Regexp, s string, n int) V, onRope func(m *M, re *regexp.Regexp, v V, all [][]int) V, one bool) {
		reM(name, func(m *M, f *Frame, re *regexp.Regexp, a []V) (V, ctl) {
			n := int64(-1)
			if len(a) > 1 {
				var ct ctl
				n, ct = m.concInt(f, a[1], intK)
				if ct != ctlNext {
					return V{}, ct
				}
			}
			v, ok := m.small(a[0])
			if ok {
				r, ct := m.lift(f, []V{v}, func(c []V) V { s, _ := c[0].str(); return nat(re, s, int(n)) })
				if ct != ctlNext {
					return V{}, ct
				}
				return m.unhost(r)
			}
			if one {
				n = 1
			}
			all, ct := m.reAll(re, v, int(n))
			if ct != ctlNext {
				return V{}, ct
			}
			return m.unhost(onRope(m, re, v, all))
		})
	}
	subs := func(m *M, v V, x []int) hostSlice {
		hs := make(hostSlice, len(x)/2)
		for i := range hs {
			if x[2*i] >= 0 {
				hs[i] = m.sub(v, x[2*i], x[2*i+1])
			}
		}
		return hs
	}
	lifted("FindString", func(re *regexp.Regexp, s string, n int) V { return vStr(re.FindString(s)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			if len(all) == 0 {
				return V{}
			}
			return m.sub(v, all[0][0], all[0][1])
		}, true)
	lifted("FindStringIndex", func(re *regexp.Regexp, s string, n int) V { return ints(re.FindStringIndex(s)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			if len(all) == 0 {
				return V{r: hostSlice(nil)}
			}
			return ints(all[0][:2])
		}, true)
	lifted("FindStringSubmatch", func(re *regexp.Regexp, s string, n int) V { return strList(re.FindStringSubmatch(s)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			if len(all) == 0 {
				return V{r: hostSlice(nil)}
			}
			return V{r: subs(m, v, all[0])}
		}, true)
	lifted("FindStringSubmatchIndex", func(re *regexp.Regexp, s string, n int) V { return ints(re.FindStringSubmatchIndex(s)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			if len(all) == 0 {
				return V{r: hostSlice(nil)}
			}
			return ints(all[0])
		}, true)
	lifted("FindAllString", func(re *regexp.Regexp, s string, n int) V { return strList(re.FindAllString(s, n)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			if all == nil {
				return V{r: hostSlice(nil)}
			}
			hs := hostSlice{}
			for _, x := range all {
				hs = append(hs, m.sub(v, x[0], x[1]))
			}
			return V{r: hs}
		}, false)
	list2 := func(ss [][]int) V {
		if ss == nil {
			return V{r: hostSlice(nil)}
		}
		hs := hostSlice{}
		for _, x := range ss {
			hs = append(hs, ints(x))
		}
		return V{r: hs}
	}
	lifted("FindAllStringIndex", func(re *regexp.Regexp, s string, n int) V { return list2(re.FindAllStringIndex(s, n)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			var o [][]int
			for _, x := range all {
				o = append(o, x[:2])
			}
			return list2(o)
		}, false)
	lifted("FindAllStringSubmatchIndex", func(re *regexp.Regexp, s string, n int) V { return list2(re.FindAllStringSubmatchIndex(s, n)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V { return list2(all) }, false)
	lifted("FindAllStringSubmatch", func(re *regexp.Regexp, s string, n int) V {
		ss := re.FindAllStringSubmatch(s, n)
		if ss == nil {
			return V{r: hostSlice(nil)}
		}
		hs := hostSlice{}
		for _, x := range ss {
			hs = append(hs, strList(x))
		}
		return V{r: hs}
	}, func(m *M, re *regexp.Regexp, v V, all [][]int) V {
		if all == nil {
			return V{r: hostSlice(nil)}
		}
		hs := hostSlice{}
		for _, x := range all {
			hs = append(hs, V{r: subs(m, v, x)})
		}
		return V{r: hs}
	}, false)
	lifted("Split", func(re *regexp.Regexp, s string, n int) V { return strList(re.Split(s, n)) },
		func(m *M, re *regexp.Regexp, v V, all [][]int) V {
			ln := m.strLen(v)
			if ln.r != nil {
				m.unsup("regexp split on rope of unknown length")
			}
			hs := hostSlice{}
			beg, end := 0, 0
			for _, x := range all {
				end = x[0]
				if x[1] != 0 {
					hs = append(hs, m.sub(v, beg, end))
				}
				beg = x[1]
			}
			if end != int(ln.n) {
				hs = append(hs, m.sub(v, beg, int(ln.n)))
			}
			return V{r: hs}
		}, false)
	redirects["(*regexp.Regexp).ReplaceAllStringFunc"] = "vpReplaceAllStringFunc"
	redirects["(*sync.Once).Do"] = "vpOnceDo"
	redirects["(*sync.Pool).Get"] = "vpPoolGet"
	redirects["(*sync.Pool).Put"] = "vpPoolPut"
	redirects["(*sync.Map).Load"] = "vpMapLoad"
	redirects["(*sync.Map).Store"] = "vpMapStore"
	redirects["(*sync.Map).Delete"] = "vpMapDelete"
	redirects["(*sync.Map).LoadOrStore"] = "vpMapLoadOrStore"
	redirects["(*sync.Map).Range"] = "vpMapRange"
	for _, t := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		for _, o := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			redirects["sync/atomic."+o+t] = "vpAtomic" + o + t
		}
	}
	// the command: its surroundings are modelled in harness/cmd
	for k, v := range map[string]string{
		"os.Exit": "vpcExit", "log.Fatal": "vpcFatal", "log.Fatalf": "vpcFatalf", "log.Fatalln": "vpcFatalln",
		"fmt.Print": "vpcPrint", "fmt.Println": "vpcPrintln", "fmt.Printf": "vpcPrintf",
		"log.Print": "vpcLogPrint", "log.Println": "vpcLogPrint", "log.Printf": "vpcLogPrintf",
		"(*os.File).Write": "vpcFileWrite", "(*os.File).WriteString": "vpcFileWriteString", "(*os.File).Sync": "vpcFileSync", "(*os.File).Close": "vpcFileSync",
		"(*os.File).ReadFrom": "vpcFileReadFrom",
		"net/http.Get":        "vpcGet", "(*net/http.Client).Get": "vpcClientGet", "(*net/http.Client).Do": "vpcClientDo",
		"net/http.NewRequest": "vpcNewRequest", "net/http.NewRequestWithContext": "vpcNewRequestCtx",
		"log/slog.SetDefault": "vpcSetDefault", "log/slog.New": "vpcNewLogger", "log/slog.NewTextHandler": "vpcTextHandler", "log/slog.NewJSONHandler": "vpcJSONHandler",
		"log/slog.Info": "vpcSlog", "log/slog.Warn": "vpcSlog", "log/slog.Error": "vpcSlog", "log/slog.Debug": "vpcSlogDebug",
		"log.SetOutput": "vpcLogOutput", "log.SetFlags": "vpcLogFlags",
		"os.Getenv": "vpcGetenv",
	} {
		redirects[k] = v
	}
	I[repoPath+"/cmd/readability.vpcSymbolic"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return vBool(true), ctlNext
	}
	// ends the command as os.Exit does: no deferred call runs
	I[repoPath+"/cmd/readability.vpcUnwind"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		for k := len(m.frames) - 1; k > 0; k-- {
			if m.frames[k].fn.ssa.Name() == "vpcMain" {
				m.frames = m.frames[:k+1]
				m.top().defers = nil
				m.panicV = nil
				return V{}, m.doReturn(V{})
			}
		}
		return V{}, m.end("panic", "os.Exit")
	}
	redirects["fmt.Fprintf"] = "vpFprintf"
	redirects["fmt.Fprint"] = "vpFprint"
	redirects["fmt.Fprintln"] = "vpFprintln"
	redirects["sort.Slice"] = "vpSortSlice"
	redirects["sort.SliceStable"] = "vpSortSlice"
	redirects["strings.LastIndexFunc"] = "vpLastIndexFunc"
	redirects["strings.TrimLeftFunc"] = "vpTrimLeftFunc"
	redirects["strings.TrimRightFunc"] = "vpTrimRightFunc"
	redirects["strings.FieldsFunc"] = "vpFieldsFunc"
	redirects["strings.IndexFunc"] = "vpIndexFunc"
	redirects["strings.ContainsFunc"] = "vpContainsFunc"
	redirects["strings.Map"] = "vpStringsMap"
	redirects["strings.TrimFunc"] = "vpTrimFunc"

	// reflect, as far as type switches on decoded JSON need it
	I["reflect.ValueOf"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		z := zeroV(c.rt)
		if t, ok := args[0].r.(*Tab); ok {
			nv := m.normTab(t)
			if t, ok := nv.r.(*Tab); ok {
				return V{}, m.forkTab(t)
			}
			args[0] = nv
		}
		z.r.(*Agg).vs[0] = V{r: &Host{args[0]}}
		return z, ctlNext
	}
	I["reflect.TypeOf"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		m.unsup("reflect.TypeOf")
		return V{}, ctlEnd
	}
	rvOf := func(v V) V {
		h, ok := v.r.(*Agg).vs[0].r.(*Host)
		if !ok {
			return V{}
		}
		return h.x.(V)
	}
	I["(reflect.Value).Kind"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		x := rvOf(args[0])
		if x.r == nil {
			return V{}, ctlNext
		}
		return vInt(int64(goKind(x.r.(*Iface).t))), ctlNext
	}
	I["(reflect.Value).IsValid"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return vBool(rvOf(args[0]).r != nil), ctlNext
	}
	I["(reflect.Value).String"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		x := rvOf(args[0])
		if x.r != nil && kindOf(x.r.(*Iface).t).isStr {
			return x.r.(*Iface).v, ctlNext
		}
		m.unsup("reflect.Value.String")
		return V{}, ctlEnd
	}
	I["(reflect.Value).Len"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		x := rvOf(args[0])
		switch s := x.r.(*Iface).v.r.(type) {
		case *SliceV:
			return vInt(int64(s.len)), ctlNext
		case *MapObj:
			return vInt(int64(s.in.n)), ctlNext
		case nil:
			return V{}, ctlNext
		case string:
			return vInt(int64(len(s))), ctlNext
		}
		m.unsup("reflect.Value.Len")
		return V{}, ctlEnd
	}
	sliceOf := func(m *M, v V) *SliceV {
		if i, ok := v.r.(*Iface); ok {
			switch s := i.v.r.(type) {
			case nil:
				return &SliceV{}
			case *SliceV:
				return s
			}
		}
		m.unsup("sort of %T", v.r)
		return nil
	}
	I[repoPath+".vpLen"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		return vInt(int64(sliceOf(m, args[0]).len)), ctlNext
	}
	I[repoPath+".vpSwap"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s := sliceOf(m, args[0])
		if args[1].r != nil || args[2].r != nil {
			m.unsup("sort: symbolic position")
		}
		for k := 0; k < s.es; k++ {
			i, j := s.off+int(args[1].n)*s.es+k, s.off+int(args[2].n)*s.es+k
			x, y := s.obj.slots[i], s.obj.slots[j]
			m.set(s.obj, i, y)
			m.set(s.obj, j, x)
		}
		return V{}, ctlNext
	}
	I["errors.Is"] = nil
	delete(I, "errors.Is")

	// membership tests are evaluated without branching
	I["slices.Contains"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		if !isSymScalar(args[1]) {
			sym := false
			if s, ok := args[0].r.(*SliceV); ok {
				for i := 0; i < s.len && s.es == 1; i++ {
					if isSymScalar(s.obj.slots[s.off+i]) {
						sym = true
					}
				}
			}
			if !sym {
				return V{}, ctlInterp
			}
		}
		if args[0].r == nil {
			return vBool(false), ctlNext
		}
		s := args[0].r.(*SliceV)
		et := c.fn.ssa.Signature.Params().At(1).Type()
		if !kindOf(et).isStr && !kindOf(et).isInt {
			return V{}, ctlInterp
		}
		r := vBool(false)
		for i := 0; i < s.len; i++ {
			e, ct := m.eq(f, s.obj.slots[s.off+i], args[1], et)
			if ct != ctlNext {
				return V{}, ct
			}
			r = m.notV(m.andV(m.notV(r), m.notV(e)))
		}
		return r, ctlNext
	}
	I["internal/abi.NoEscape"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return args[0], ctlNext }
	I["internal/race.Enabled"] = nop
	_ = errors.New
}

func goKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.String:
			return reflect.String
		case types.Int:
			return reflect.Int
		case types.Int64:
			return reflect.Int64
		case types.Int32:
			return reflect.Int32
		case types.Float64:
			return reflect.Float64
		case types.Float32:
			return reflect.Float32
		case types.Uint8:
			return reflect.Uint8
		}
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Array:
		return reflect.Array
	}
	panic(unsupported{"reflect kind of " + t.String()})
}

// goArgs converts a []any to native values for formatting.
func (m *M) goArgs(f *Frame, v V) ([]any, ctl) {
	if v.r == nil {
		return nil, ctlNext
	}
	s := v.r.(*SliceV)
	var out []any
	for i := 0; i < s.len; i++ {
		x := s.obj.slots[s.off+i]
		if x.r == nil {
			out = append(out, nil)
			continue
		}
		ifc, ok := x.r.(*Iface)
		if !ok {
			m.unsup("format argument %T", x.r)
		}
		k := kindOf(ifc.t)
		switch {
		case k.isStr:
			str, ct := m.concStr(ifc.v)
			if ct != ctlNext {
				return nil, ct
			}
			out = append(out, str)
		case k.isBool:
			n, ct := m.concInt(f, ifc.v, k)
			if ct != ctlNext {
				return nil, ct
			}
			out = append(out, n != 0)
		case k.isInt:
			n, ct := m.concInt(f, ifc.v, k)
			if ct != ctlNext {
				return nil, ct
			}
			out = append(out, n)
		case k.isFloat:
			n, ct := m.concInt(f, ifc.v, k)
			if ct != ctlNext {
				return nil, ct
			}
			out = append(out, math.Float64frombits(uint64(n)))
		default:
			if types.Identical(ifc.t, m.p.errStringT) {
				str, ct := m.concStr(ifc.v.r.(*Obj).slots[ifc.v.n])
				if ct != ctlNext {
					return nil, ct
				}
				out = append(out, str)
			} else {
				out = append(out, "?")
			}
		}
	}
	return out, ctlNext
}

// formatRope formats without branching where each verb is a plain %s or %v of
// a string, or a plain verb of something concrete.
func (m *M) formatRope(f *Frame, format string, v V) (V, bool, ctl) {
	var list []V
	if s, ok := v.r.(*SliceV); ok {
		list = s.obj.slots[s.off : s.off+s.len]
	}
	var rb ropeB
	at := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			rb.add(vStr(format[i : i+j]))
			i += j - 1
			continue
		}
		i++
		if i == len(format) {
			return V{}, false, ctlNext
		}
		if format[i] == '%' {
			rb.add(vStr("%"))
			continue
		}
		if at >= len(list) {
			return V{}, false, ctlNext
		}
		ifc, ok := list[at].r.(*Iface)
		at++
		if !ok {
			return V{}, false, ctlNext
		}
		k := kindOf(ifc.t)
		switch format[i] {
		case 's', 'v':
			if !k.isStr || m.p.hasStringer(ifc.t) {
				return V{}, false, ctlNext
			}
			rb.add(m.normS(ifc.v))
		case 'd', 'c':
			if !k.isInt {
				return V{}, false, ctlNext
			}
			n, ct := m.concInt(f, ifc.v, k)
			if ct != ctlNext {
				return V{}, true, ct
			}
			if format[i] == 'c' {
				rb.add(vStr(string(rune(n))))
			} else {
				rb.add(vStr(strconv.FormatInt(n, 10)))
			}
		default:
			return V{}, false, ctlNext
		}
	}
	if at != len(list) {
		return V{}, false, ctlNext
	}
	return rb.v(), true, ctlNext
}

// hasStringer: whether values of the type format themselves.
func (p *Prog) hasStringer(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.NumMethods() > 0
}
