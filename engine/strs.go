package main

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// classes is a partition of the runes: the behaviour of some string function
// on a text depends only on the classes of its runes.
type classes struct {
	bounds []rune // sorted start points of intervals
	exact  map[rune]int
}

func (c *classes) of(r rune) int {
	if c.exact != nil {
		if i, ok := c.exact[r]; ok {
			return i + 1
		}
		return 0
	}
	return sort.Search(len(c.bounds), func(i int) bool { return c.bounds[i] > r })
}

func exactClasses(pats ...string) *classes {
	c := &classes{exact: map[rune]int{}}
	for _, p := range pats {
		for _, r := range p {
			if _, ok := c.exact[r]; !ok {
				c.exact[r] = len(c.exact)
			}
		}
	}
	return c
}

var spaceClasses = exactClasses("\t\n\v\f\r \u0085\u00A0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")

var reClassMu sync.Mutex
var reClassCache = map[string]*classes{}

func reClasses(re *regexp.Regexp) *classes {
	reClassMu.Lock()
	defer reClassMu.Unlock()
	if c, ok := reClassCache[re.String()]; ok {
		return c
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return nil
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		return nil
	}
	set := map[rune]bool{}
	add := func(lo, hi rune) { set[lo] = true; set[hi+1] = true }
	for _, in := range prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				r := in.Rune[0]
				add(r, r)
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for x := simpleFold(r); x != r; x = simpleFold(x) {
						add(x, x)
					}
				}
			} else {
				for i := 0; i+1 < len(in.Rune); i += 2 {
					add(in.Rune[i], in.Rune[i+1])
				}
			}
		case syntax.InstRuneAnyNotNL:
			add('\n', '\n')
		case syntax.InstEmptyWidth:
			add('\n', '\n')
			add('0', '9')
			add('A', 'Z')
			add('_', '_')
			add('a', 'z')
		}
	}
	c := &classes{}
	for r := range set {
		c.bounds = append(c.bounds, r)
	}
	sort.Slice(c.bounds, func(i, j int) bool { return c.bounds[i] < c.bounds[j] })
	reClassCache[re.String()] = c
	return c
}

// repr resolves a string to a representative concrete string with the same
// segment offsets, forking so that every table segment has one class sequence.
func (m *M) repr(v V, c *classes) (string, ctl) {
	segs := m.segsOf(v)
	var sb strings.Builder
	for _, s := range segs {
		if s.tab == nil {
			sb.WriteString(s.lit)
			continue
		}
		ids := map[string]int64{}
		nv := m.mapTab(s.tab, func(e V) V {
			x, _ := e.str()
			var kb strings.Builder
			for i := 0; i < len(x); {
				r, n := utf8.DecodeRuneInString(x[i:])
				kb.WriteRune(rune(c.of(r) + 1))
				kb.WriteByte(byte('0' + n))
				i += n
			}
			k := kb.String()
			id, ok := ids[k]
			if !ok {
				id = int64(len(ids))
				ids[k] = id
			}
			return vInt(id)
		})
		if t, ok := nv.r.(*Tab); ok {
			return "", m.forkTab(t)
		}
		m.each(s.tab, func(i int) bool {
			if isBad(s.tab.t[i]) {
				return true
			}
			x, _ := s.tab.t[i].str()
			sb.WriteString(x)
			return false
		})
	}
	return sb.String(), ctlNext
}

// sub is substr for bounds known to be valid and aligned.
func (m *M) sub(v V, i, j int) V {
	r, ct, ok := m.substr(v, i, j)
	if ct != ctlNext || !ok {
		m.unsup("substring [%d:%d] not aligned", i, j)
	}
	return r
}

// small reports whether v is concrete or a table small enough to lift over.
func (m *M) small(v V) (V, bool) {
	v = m.normS(v)
	switch x := v.r.(type) {
	case nil, string:
		return v, true
	case *Tab:
		return v, true
	case *Rope:
		var ts []*Tab
		n := 0
		for _, s := range x.segs {
			if s.tab != nil {
				ts = append(ts, s.tab)
			} else {
				n += len(s.lit)
			}
		}
		_, c := m.unionVars(ts)
		if c > 600 || c*(n+16) > 1<<18 {
			return v, false
		}
		if t, ok := m.ropeToTab(x); ok {
			return t, true
		}
		return v, false
	}
	return v, false
}

func (m *M) runeCount(v V) V {
	v = m.normS(v)
	switch x := v.r.(type) {
	case nil:
		return V{}
	case string:
		return vInt(int64(utf8.RuneCountInString(x)))
	case *Tab:
		return m.mapTab(x, func(e V) V { s, _ := e.str(); return vInt(int64(utf8.RuneCountInString(s))) })
	case *Rope:
		return m.sumSegs(x, utf8.RuneCountInString)
	}
	m.unsup("rune count of %T", v.r)
	return V{}
}

// segMap applies a string homomorphism segment-wise.
func (m *M) segMap(v V, fn func(string) string) V {
	v = m.normS(v)
	var rb ropeB
	for _, s := range m.segsOf(v) {
		if s.tab == nil {
			rb.lit(fn(s.lit))
		} else {
			rb.add(m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vStr(fn(x)) }))
		}
	}
	return rb.v()
}

// trimSpace trims a rope, forking only on the segments at the ends.
func (m *M) trimFunc(v V, fn func(string) string, left, right bool) (V, ctl) {
	v = m.normS(v)
	if t, ok := v.r.(*Tab); ok {
		return m.mapTab(t, func(e V) V { x, _ := e.str(); return vStr(fn(x)) }), ctlNext
	}
	if s, ok := v.str(); ok {
		return vStr(fn(s)), ctlNext
	}
	segs := append([]seg(nil), m.segsOf(v)...)
	trimL := func(s string) string { r := fn(s + "x"); return r[:len(r)-1] }
	trimR := func(s string) string { return fn("x" + s)[1:] }
	if left {
		for len(segs) > 0 {
			s := segs[0]
			if s.tab == nil {
				r := trimL(s.lit)
				if r == "" {
					segs = segs[1:]
					continue
				}
				segs[0].lit = r
				break
			}
			if ct := m.forkBy(s.tab, func(e V) int64 {
				x, _ := e.str()
				if trimL(x) == "" {
					return 0
				}
				return 1
			}); ct != ctlNext {
				return V{}, ct
			}
			nv := m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vStr(trimL(x)) })
			if x, ok := nv.str(); ok {
				if x == "" {
					segs = segs[1:]
					continue
				}
				segs[0] = seg{lit: x}
			} else {
				segs[0] = seg{tab: nv.r.(*Tab)}
			}
			break
		}
	}
	if right {
		for len(segs) > 0 {
			k := len(segs) - 1
			s := segs[k]
			if s.tab == nil {
				r := trimR(s.lit)
				if r == "" {
					segs = segs[:k]
					continue
				}
				segs[k].lit = r
				break
			}
			if ct := m.forkBy(s.tab, func(e V) int64 {
				x, _ := e.str()
				if trimR(x) == "" {
					return 0
				}
				return 1
			}); ct != ctlNext {
				return V{}, ct
			}
			nv := m.mapTab(s.tab, func(e V) V { x, _ := e.str(); return vStr(trimR(x)) })
			if x, ok := nv.str(); ok {
				if x == "" {
					segs = segs[:k]
					continue
				}
				segs[k] = seg{lit: x}
			} else {
				segs[k] = seg{tab: nv.r.(*Tab)}
			}
			break
		}
	}
	return m.ropeOf(segs), ctlNext
}

// ---- regexps ----

// reFind returns match indices on a rope: either as a table-free list over a
// representative, valid for the rope itself.
func (m *M) reAll(re *regexp.Regexp, v V, n int) ([][]int, ctl) {
	v = m.normS(v)
	s, ok := v.str()
	if !ok {
		var ct ctl
		c := reClasses(re)
		if c == nil {
			_, ct = m.concStr(v)
			return nil, ct
		}
		s, ct = m.repr(v, c)
		if ct != ctlNext {
			return nil, ct
		}
	}
	return re.FindAllStringSubmatchIndex(s, n), ctlNext
}

func (m *M) reMatch(re *regexp.Regexp, v V) (V, ctl) {
	v, ok := m.small(v)
	if ok {
		return m.lift(nil, []V{v}, func(c []V) V { s, _ := c[0].str(); return vBool(re.MatchString(s)) })
	}
	all, ct := m.reAll(re, v, 1)
	return vBool(len(all) > 0), ct
}

func (m *M) reReplace(re *regexp.Regexp, v, repl V) (V, ctl) {
	rs, ct := m.concStr(repl)
	if ct != ctlNext {
		return V{}, ct
	}
	v, ok := m.small(v)
	if ok {
		return m.lift(nil, []V{v}, func(c []V) V { s, _ := c[0].str(); return vStr(re.ReplaceAllString(s, rs)) })
	}
	if strings.Contains(rs, "$") {
		s, ct := m.concStr(v)
		if ct != ctlNext {
			return V{}, ct
		}
		return vStr(re.ReplaceAllString(s, rs)), ctlNext
	}
	all, ct := m.reAll(re, v, -1)
	if ct != ctlNext {
		return V{}, ct
	}
	var rb ropeB
	pos := 0
	for _, x := range all {
		rb.add(m.sub(v, pos, x[0]))
		rb.lit(rs)
		pos = x[1]
	}
	rb.add(m.sub(v, pos, -1))
	return rb.v(), ctlNext
}
