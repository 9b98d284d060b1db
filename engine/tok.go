package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// The HTML tokenizer is a library outside the repository. Its contract is
// taken from the library itself: the concrete parts of the input are tokenised
// by the real tokenizer, symbolic parts are carried through as placeholders,
// and for every alternative of every symbolic part the real tokenizer is asked
// whether it yields the same token; alternatives for which it does not are
// split off and tokenised on their own.

type tokState struct {
	rest   V
	rawTag string
	cdata  bool
	tt     html.TokenType
	raw    V
	data   V // tag name / text / comment
	attrs  [][2]V
	apos   int
	eof    bool
	wasRaw string
}

const phLen = 8

func ph(i int) string { return fmt.Sprintf("qz%04dzq", i) }

type ntok struct {
	tt     html.TokenType
	rawLen int
	data   string
	attrs  []html.Attribute
	next   string
	eof    bool
}

var rawTags = map[string]bool{"iframe": true, "noembed": true, "noframes": true, "noscript": true, "plaintext": true, "script": true, "style": true, "title": true, "textarea": true, "xmp": true}

type ntokKey struct {
	s, raw string
	cdata  bool
}

var ntokMu sync.RWMutex
var ntokCache = map[ntokKey]*ntok{}

func nativeTok(s, rawTag string, cdata bool) *ntok {
	if len(s) > 4096 {
		// a token that ends well before the cut does not depend on the rest
		if t := nativeTok1(s[:4096], rawTag, cdata); !t.eof && t.rawLen < 4000 {
			return t
		}
		return nativeTok1(s, rawTag, cdata)
	}
	k := ntokKey{s, rawTag, cdata}
	ntokMu.RLock()
	r := ntokCache[k]
	ntokMu.RUnlock()
	if r != nil {
		return r
	}
	r = nativeTok1(s, rawTag, cdata)
	ntokMu.Lock()
	if len(ntokCache) > 200000 {
		ntokCache = map[ntokKey]*ntok{}
	}
	ntokCache[k] = r
	ntokMu.Unlock()
	return r
}

func nativeTok1(s, rawTag string, cdata bool) *ntok {
	z := html.NewTokenizerFragment(strings.NewReader(s), rawTag)
	z.AllowCDATA(cdata)
	t := &ntok{tt: z.Next()}
	t.rawLen = len(z.Raw())
	if t.tt == html.ErrorToken {
		t.eof = true
		return t
	}
	if rawTag == "plaintext" {
		t.next = "plaintext"
	}
	tok := z.Token()
	t.data, t.attrs = tok.Data, tok.Attr
	if (t.tt == html.StartTagToken || t.tt == html.SelfClosingTagToken) && rawTags[t.data] {
		t.next = t.data
	}
	return t
}

func (m *M) unph(s string, tabs map[string]*Tab) V {
	var rb ropeB
	last := 0
	for i := 0; i+phLen <= len(s); {
		if s[i+1] == 'z' {
			if t, ok := tabs[s[i:i+phLen]]; ok {
				rb.lit(s[last:i])
				rb.add(V{r: t})
				i += phLen
				last = i
				continue
			}
		}
		i++
	}
	rb.lit(s[last:])
	return rb.v()
}

// consistent: u (the token of an alternative) is t (the token of the text with
// placeholder p) with p replaced by x.
func (t *ntok) consistent(u *ntok, p, x string, reLen int) bool {
	if u.tt != t.tt || u.rawLen != reLen || u.next != t.next {
		return false
	}
	if t.tt == html.TextToken {
		return true
	}
	if u.data != strings.ReplaceAll(t.data, p, x) || len(u.attrs) != len(t.attrs) {
		return false
	}
	for j := range u.attrs {
		if u.attrs[j].Key != strings.ReplaceAll(t.attrs[j].Key, p, x) || u.attrs[j].Val != strings.ReplaceAll(t.attrs[j].Val, p, x) {
			return false
		}
	}
	return true
}

// tokNext advances the tokenizer; the result is a new state.
func (m *M) tokNext(st *tokState) (*tokState, ctl) {
	rest := m.normS(st.rest)
	segs := m.segsOf(rest)
	tabs := map[string]*Tab{}
	var phs []string
	var ptab []*Tab
	for _, s := range segs {
		if s.tab != nil {
			phs = append(phs, ph(len(phs)))
			ptab = append(ptab, s.tab)
		}
	}
	n := len(phs)
	window := 2
	if st.rawTag != "" {
		window = len(st.rawTag) + 3
	}
	var str, raw, after string
	var t *ntok
	swaps := 0
again:
	if n == 0 && len(segs) == 1 {
		str = segs[0].lit
	} else {
		var sb strings.Builder
		i := 0
		for _, s := range segs {
			if s.tab == nil {
				sb.WriteString(s.lit)
			} else {
				sb.WriteString(phs[i])
				i++
			}
		}
		str = sb.String()
	}
	t = nativeTok(str, st.rawTag, st.cdata)
	raw = str[:t.rawLen]
	after = str[t.rawLen:]
	// a token boundary inside a symbolic part: decide it
	pos := 0
	for _, s := range segs {
		l := len(s.lit)
		if s.tab != nil {
			l = phLen
		}
		if s.tab != nil && pos < t.rawLen && pos+l > t.rawLen {
			return nil, m.forkTab(s.tab)
		}
		pos += l
	}
	if t.tt == html.ErrorToken {
		// Only an (unterminated) remainder is left. If it holds symbolic parts,
		// decide them individually.
		if n > 0 {
			return nil, m.forkTab(ptab[0])
		}
	}
	ctx := after
	if len(ctx) > 160 {
		ctx = ctx[:160]
	}
	look := ""
	if t.tt == html.TextToken {
		look = after[:min(len(after), window+phLen-1)]
	}
	var rel []int
	nin := 0
	for i := range phs {
		if strings.Contains(raw, phs[i]) {
			nin++
			rel = append(rel, i)
		} else if k := strings.Index(look, phs[i]); k >= 0 && k < window {
			if len(rel) > nin && st.rawTag != "" {
				return nil, m.forkTab(ptab[rel[len(rel)-1]])
			}
			rel = append(rel, i)
		}
	}
	for _, i := range rel {
		p := phs[i]
		tb := ptab[i]
		alt2 := "\x01" + p[1:]
		if p[0] == 1 {
			alt2 = "q" + p[1:]
		}
		t2 := nativeTok(strings.ReplaceAll(str, p, alt2), st.rawTag, st.cdata)
		uniq := map[string]int64{}
		all2 := true
		at := strings.Index(str, p)
		cls := func(e V) int64 {
			x, _ := e.str()
			uq := func() int64 {
				if id, ok := uniq[x]; ok {
					return id
				}
				uniq[x] = int64(len(uniq) + 2)
				return uniq[x]
			}
			if strings.ContainsAny(x, "\x00\r") {
				return uq()
			}
			if x == "" && n > 1 && at > 0 && strings.IndexByte("</&!-?", str[at-1]) >= 0 {
				return uq()
			}
			if nin > 1 {
				switch t.tt {
				case html.TextToken:
					if strings.ContainsAny(x, "<") || (st.cdata && strings.HasPrefix(raw, "<![CDATA[") && strings.ContainsAny(x, "]>")) {
						return uq()
					}
				case html.CommentToken, html.DoctypeToken:
					if strings.ContainsAny(x, "->!<") {
						return uq()
					}
				default:
					if strings.ContainsAny(x, "&<") {
						return uq()
					}
				}
			}
			full := strings.ReplaceAll(raw+ctx, p, x)
			u := nativeTok(full, st.rawTag, st.cdata)
			if t.consistent(u, p, x, len(strings.ReplaceAll(raw, p, x))) {
				return 0
			}
			r2 := strings.ReplaceAll(raw+ctx, p, alt2)
			if t2.rawLen <= len(r2) && t2.consistent(u, alt2, x, len(strings.ReplaceAll(r2[:t2.rawLen], alt2, x))) {
				return 1
			}
			return uq()
		}
		all0, cnt := true, 0
		m.each(tb, func(k int) bool {
			if isBad(tb.t[k]) {
				return true
			}
			cnt++
			c := cls(tb.t[k])
			all0 = all0 && c == 0
			all2 = all2 && c == 1
			return true
		})
		if all0 || cnt == 0 {
			continue
		}
		if all2 && swaps < 2*n {
			swaps++
			phs[i] = alt2
			goto again
		}
		ct := m.forkBy(tb, cls)
		if ct != ctlNext {
			return nil, ct
		}
		if nt, ok := m.normTab(tb).r.(*Tab); ok {
			return nil, m.forkTab(nt)
		}
	}
	for i, p := range phs {
		tabs[p] = ptab[i]
	}
	ns := &tokState{cdata: st.cdata, tt: t.tt, rawTag: t.next, wasRaw: st.rawTag}
	if t.eof {
		ns.eof = true
		ns.rest = V{}
		return ns, ctlNext
	}
	ns.raw = m.unph(raw, tabs)
	ns.rest = m.unph(after, tabs)
	if t.tt == html.TextToken {
		ns.data = ns.raw // decoded on demand
	} else {
		ns.data = m.unph(t.data, tabs)
	}
	for _, a := range t.attrs {
		ns.attrs = append(ns.attrs, [2]V{m.unph(a.Key, tabs), m.unph(a.Val, tabs)})
	}
	return ns, ctlNext
}

func (m *M) tokText(st *tokState) (V, ctl) {
	plain := true
	for _, s := range m.segsOf(st.raw) {
		if s.tab == nil {
			plain = plain && !strings.ContainsAny(s.lit, "&\r\x00") && !strings.HasPrefix(s.lit, "<![CDATA[")
		} else {
			m.each(s.tab, func(i int) bool {
				if !isBad(s.tab.t[i]) {
					x, _ := s.tab.t[i].str()
					plain = plain && !strings.ContainsAny(x, "&\r\x00")
				}
				return plain
			})
		}
	}
	if plain {
		return st.raw, ctlNext
	}
	rt, cd := st.wasRaw, st.cdata
	return m.lift(nil, []V{st.raw}, func(c []V) V {
		x, _ := c[0].str()
		return vStr(nativeTok(x, rt, cd).data)
	})
}

func tokOf(m *M, v V) (*Obj, *tokState) {
	o, ok := v.r.(*Obj)
	if !ok {
		m.unsup("tokenizer %T", v.r)
	}
	return o, o.slots[v.n].r.(*Host).x.(*tokState)
}

func (m *M) lazyBytes(v V) V {
	v = m.normS(v)
	if s, ok := v.str(); ok {
		return m.bytesOrRunes(s, false)
	}
	return V{r: &LazySlice{s: v}}
}

// readAll extracts the unread contents of a strings.Reader/bytes.Reader/bytes.Buffer.
func (m *M) readerContents(f *Frame, r V) (V, ctl) {
	ifc, ok := r.r.(*Iface)
	if !ok {
		m.unsup("reader %T", r.r)
	}
	o, ok := ifc.v.r.(*Obj)
	if !ok {
		m.unsup("reader %v", ifc.t)
	}
	b := int(ifc.v.n)
	switch ifc.t.String() {
	case "*strings.Reader":
		i, ct := m.concInt(f, o.slots[b+1], intK)
		if ct != ctlNext {
			return V{}, ct
		}
		s, ct, _ := m.substr(o.slots[b], int(i), -1)
		return s, ct
	case "*bytes.Reader":
		s, ct := m.bytesToStr(f, o.slots[b])
		if ct != ctlNext {
			return V{}, ct
		}
		i, ct := m.concInt(f, o.slots[b+1], intK)
		if ct != ctlNext {
			return V{}, ct
		}
		s, ct, _ = m.substr(s, int(i), -1)
		return s, ct
	case "*bytes.Buffer":
		return o.slots[b], ctlNext
	}
	m.unsup("reader of type %v", ifc.t)
	return V{}, ctlEnd
}

func regTok() {
	I := intrinsics
	const P = "golang.org/x/net/html."
	const T = "(*golang.org/x/net/html.Tokenizer)."
	mk := func(frag bool) intrinsic {
		return func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
			s, ct := m.readerContents(f, args[0])
			if ct != ctlNext {
				return V{}, ct
			}
			st := &tokState{rest: s}
			if frag {
				tag, ct := m.concStr(args[1])
				if ct != ctlNext {
					return V{}, ct
				}
				if rawTags[strings.ToLower(tag)] {
					st.rawTag = strings.ToLower(tag)
				}
			}
			n := slotsOf(c.rt.Underlying().(*types.Pointer).Elem())
			o := m.newObj(n)
			o.slots[0] = V{r: &Host{st}}
			return V{r: o}, ctlNext
		}
	}
	I[P+"NewTokenizer"] = mk(false)
	I[P+"NewTokenizerFragment"] = mk(true)
	upd := func(m *M, v V, fn func(st *tokState)) {
		o, st := tokOf(m, v)
		ns := *st
		fn(&ns)
		m.set(o, int(v.n), V{r: &Host{&ns}})
	}
	I[T+"AllowCDATA"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		b, ct := m.concInt(f, args[1], numKind{isBool: true})
		if ct != ctlNext {
			return V{}, ct
		}
		upd(m, args[0], func(st *tokState) { st.cdata = b != 0 })
		return V{}, ctlNext
	}
	I[T+"NextIsNotRawText"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		upd(m, args[0], func(st *tokState) { st.rawTag = "" })
		return V{}, ctlNext
	}
	I[T+"SetMaxBuf"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) { return V{}, ctlNext }
	I[T+"Next"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		o, st := tokOf(m, args[0])
		if st.eof {
			return vInt(int64(html.ErrorToken)), ctlNext
		}
		ns, ct := m.tokNext(st)
		if ct != ctlNext {
			return V{}, ct
		}
		m.set(o, int(args[0].n), V{r: &Host{ns}})
		return vInt(int64(ns.tt)), ctlNext
	}
	I[T+"Err"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		if st.tt != html.ErrorToken {
			return V{}, ctlNext
		}
		return m.ioEOF(), ctlNext
	}
	I[T+"Raw"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		return m.lazyBytes(st.raw), ctlNext
	}
	I[T+"Buffered"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		return m.lazyBytes(st.rest), ctlNext
	}
	I[T+"Text"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		switch st.tt {
		case html.TextToken:
			s, ct := m.tokText(st)
			if ct != ctlNext {
				return V{}, ct
			}
			return m.lazyBytes(s), ctlNext
		case html.CommentToken, html.DoctypeToken:
			return m.lazyBytes(st.data), ctlNext
		}
		return V{}, ctlNext
	}
	I[T+"TagName"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		switch st.tt {
		case html.StartTagToken, html.SelfClosingTagToken, html.EndTagToken:
			return V{r: Tuple{m.lazyBytes(st.data), vBool(st.apos < len(st.attrs))}}, ctlNext
		}
		return V{r: Tuple{V{}, V{}}}, ctlNext
	}
	I[T+"TagAttr"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		if st.apos >= len(st.attrs) {
			return V{r: Tuple{V{}, V{}, V{}}}, ctlNext
		}
		a := st.attrs[st.apos]
		more := st.apos+1 < len(st.attrs)
		upd(m, args[0], func(s *tokState) { s.apos++ })
		return V{r: Tuple{m.lazyBytes(a[0]), m.lazyBytes(a[1]), vBool(more)}}, ctlNext
	}
	I[T+"Token"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		_, st := tokOf(m, args[0])
		// Token{Type, DataAtom, Data, Attr}
		g := &Agg{vs: make([]V, 4)}
		g.vs[0] = vInt(int64(st.tt))
		switch st.tt {
		case html.TextToken:
			s, ct := m.tokText(st)
			if ct != ctlNext {
				return V{}, ct
			}
			g.vs[2] = m.normS(s)
		case html.CommentToken, html.DoctypeToken:
			g.vs[2] = m.normS(st.data)
		case html.StartTagToken, html.SelfClosingTagToken, html.EndTagToken:
			d := m.normS(st.data)
			a, ct := m.lift(f, []V{d}, func(c []V) V {
				x, _ := c[0].str()
				return vInt(int64(atom.Lookup([]byte(x))))
			})
			if ct != ctlNext {
				return V{}, ct
			}
			g.vs[1], g.vs[2] = a, d
			if n := len(st.attrs) - st.apos; n > 0 {
				// []Attribute{Namespace, Key, Val}; capacity as append would give
				cp := 1
				for cp < n {
					cp *= 2
				}
				o := m.newObj(3 * cp)
				for i := 0; i < n; i++ {
					o.slots[3*i+1] = m.normS(st.attrs[st.apos+i][0])
					o.slots[3*i+2] = m.normS(st.attrs[st.apos+i][1])
				}
				g.vs[3] = V{r: &SliceV{obj: o, len: n, cap: cp, es: 3}}
			}
		}
		return V{r: g}, ctlNext
	}
}

func (m *M) ioEOF() V {
	g := m.p.pkgNames["io"].Var("EOF")
	return m.globals[m.p.global(g)].slots[0]
}
