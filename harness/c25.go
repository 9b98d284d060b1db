package readability

import "strings"

// The choice of the article among the blocks of a page, after a reference
// that follows the documented rules on a plain tree of blocks.

type vblk struct {
	tag, class string
	kids       []*vblk
	up         *vblk
	// a paragraph
	mark string
	size int     // characters of its text
	part int     // parts between commas
	link float64 // characters of its link text, by weight
	stop bool    // ends a sentence
	html string

	scored bool
	score  float64
}

// vleaf makes a paragraph of this many characters (at least 16), commas and
// characters of link text.
func vleaf(mark string, size, commas, link int, hash, stop bool) *vblk {
	t := mark + strings.Repeat(",a", commas) + " "
	end := ""
	if stop {
		end = "."
	}
	w := float64(link)
	href := "/x"
	if hash {
		href, w = "#x", w*0.3
	}
	rest := size - len(t) - link - len(end)
	h := t + strings.Repeat("x", rest) + end
	if link > 0 {
		h = t + strings.Repeat("x", rest) + "<a href='" + href + "'>" + strings.Repeat("y", link) + "</a>" + end
	}
	return &vblk{tag: "p", mark: mark, size: size, part: commas + 1, link: w, stop: stop, html: h}
}

func vtree(tag, class string, kids ...*vblk) *vblk {
	return &vblk{tag: tag, class: class, kids: kids}
}

func (b *vblk) render() string {
	s := "<" + b.tag
	if b.class != "" && b.class[0] == '#' {
		s += " id='" + b.class[1:] + "'"
	} else if b.class != "" {
		s += " class='" + b.class + "'"
	}
	s += ">" + b.html
	for _, k := range b.kids {
		s += k.render()
	}
	return s + "</" + b.tag + ">"
}

func (b *vblk) leaves(f func(*vblk)) {
	if b.mark != "" {
		f(b)
	}
	for _, k := range b.kids {
		k.leaves(f)
	}
}

// totals gives the characters and the commas of the text.
func (b *vblk) totals() (size, commas int) {
	b.leaves(func(p *vblk) {
		size += p.size
		commas += p.part - 1
	})
	return
}

// scorable visits the elements whose text makes points for their ancestors.
func (b *vblk) scorable(f func(*vblk)) {
	switch b.tag {
	case "p", "section", "td", "pre", "h2", "h3", "h4", "h5", "h6":
		f(b)
	}
	for _, k := range b.kids {
		k.scorable(f)
	}
}

func (b *vblk) weight() float64 {
	w := 0.0
	if strings.Contains(b.class, "widget") {
		w -= 25
	}
	if strings.Contains(b.class, "story") {
		w += 25
	}
	return w
}

func (b *vblk) first() {
	b.scored = true
	switch b.tag {
	case "div":
		b.score = 5
	case "pre", "td", "blockquote":
		b.score = 3
	case "address", "ol", "ul", "dl", "dd", "dt", "li", "form":
		b.score = -3
	case "th", "h1", "h2", "h3", "h4", "h5", "h6":
		b.score = -5
	default:
		b.score = 0
	}
	b.score += b.weight()
}

func (b *vblk) density() float64 {
	l := 0.0
	n, _ := b.totals()
	b.leaves(func(p *vblk) { l += p.link })
	if n == 0 {
		return 0
	}
	return l / float64(n)
}

// vcollapse: a div that holds just a paragraph is that paragraph.
func (b *vblk) vcollapse() *vblk {
	for i, k := range b.kids {
		c := k.vcollapse()
		if k.tag == "div" && len(k.kids) == 1 && k.kids[0].tag == "p" && k.density() < 0.25 {
			c = k.kids[0]
		}
		b.kids[i] = c
		c.up = b
	}
	return b
}

// vclean drops the elements of this tag that look fishy.
func (b *vblk) vclean(tag string) {
	var kept []*vblk
	for i := len(b.kids) - 1; i >= 0; i-- {
		k := b.kids[i]
		k.vclean(tag)
		if k.tag == tag {
			n, commas := k.totals()
			w, d := k.weight(), k.density()
			if w < 0 || commas < 10 && (n < 25 || w < 25 && d > 0.2 || w >= 25 && d > 0.5) {
				continue
			}
		}
		kept = append([]*vblk{k}, kept...)
	}
	b.kids = kept
}

// vchoose gives the marks of the paragraphs that make the article.
func vchoose(body *vblk, ntop int) []string {
	body.vcollapse()
	var cands []*vblk
	body.scorable(func(p *vblk) {
		size, commas := p.totals()
		if size < 25 {
			return
		}
		s := float64(commas + 2)
		if size >= 300 {
			s += 3
		} else {
			s += float64(size / 100)
		}
		level := 0
		for a := p.up; a != nil && level < 5; a = a.up {
			if !a.scored {
				a.first()
				cands = append(cands, a)
			}
			switch level {
			case 0:
				a.score += s
			case 1:
				a.score += s / 2
			default:
				a.score += s / float64(level*3)
			}
			level++
		}
	})
	var top []*vblk
	for _, c := range cands {
		c.score *= 1 - c.density()
		for t := 0; t < ntop; t++ {
			if t >= len(top) {
				top = append(top, c)
				break
			}
			if c.score > top[t].score {
				top = append(top[:t], append([]*vblk{c}, top[t:]...)...)
				break
			}
		}
		if len(top) > ntop {
			top = top[:ntop]
		}
	}
	art := &vblk{tag: "article"}
	if len(top) == 0 || top[0] == body {
		art.kids = []*vblk{vtree("div", "", body.kids...)}
	} else {
		b := top[0]
		var alts []*vblk
		for _, c := range top[1:] {
			if c.score/b.score >= 0.75 {
				alts = append(alts, c)
			}
		}
		if len(alts) >= 3 {
			for p := b.up; p != body; p = p.up {
				n := 0
				for _, c := range alts {
					for a := c.up; a != nil; a = a.up {
						if a == p {
							n++
						}
					}
				}
				if n >= 3 {
					b = p
					break
				}
			}
		}
		if !b.scored {
			b.first()
		}
		last, least := b.score, b.score/3
		for p := b.up; p != body; p = p.up {
			if !p.scored {
				continue
			}
			if p.score < least {
				break
			}
			if p.score > last {
				b = p
				break
			}
			last = p.score
		}
		for b.up != body && len(b.up.kids) == 1 {
			b = b.up
		}
		if !b.scored {
			b.first()
		}
		need := b.score * 0.2
		if need < 10 {
			need = 10
		}
		for _, k := range b.up.kids {
			bonus := 0.0
			if k.class == b.class && b.class != "" && b.class[0] != '#' {
				bonus = b.score * 0.2
			}
			in := k == b || k.scored && k.score+bonus >= need
			if !in && k.tag == "p" {
				d := k.density()
				in = k.size > 80 && d < 0.25 || k.size < 80 && d == 0 && k.stop
			}
			if in {
				if k.tag != "p" && k.tag != "section" && k.tag != "article" {
					k.tag = "div"
				}
				art.kids = append(art.kids, k)
			}
		}
	}
	art.vclean("form")
	art.vclean("div")
	var out []string
	art.leaves(func(p *vblk) { out = append(out, p.mark) })
	return out
}

func vmarks(text string) string {
	out := ""
	for _, f := range strings.FieldsFunc(text, func(r rune) bool { return !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') }) {
		if len(f) == 2 {
			out += f + " "
		}
	}
	return out
}

func vchosen(body *vblk, ntop int, opts ...Option) {
	src := "<html><head></head>" + body.render() + "</html>"
	want := vchoose(body, ntop)
	res, _, err := vparse(src, vURL, append(opts, CharThreshold(1))...)
	if len(want) == 0 {
		vxReach("none")
		return // later attempts decide
	}
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	vxAssert(vmarks(res.TextContent) == strings.Join(want, " ")+" ", "the article is the block with the highest score, and what belongs to it")
	vxReach("end")
}

// A block of n paragraphs of a form.
func vblkOf(mark, tag, class, form string, n int) *vblk {
	b := vtree(tag, class)
	for i := 0; i < n; i++ {
		m := mark + string(rune('0'+i))
		var p *vblk
		switch form {
		case "short":
			p = vleaf(m, 24, 0, 0, false, false)
		case "least":
			p = vleaf(m, 25, 0, 0, false, false)
		case "99":
			p = vleaf(m, 99, 1, 0, false, false)
		case "100":
			p = vleaf(m, 100, 1, 0, false, false)
		case "299":
			p = vleaf(m, 299, 0, 0, false, false)
		case "450":
			p = vleaf(m, 450, 0, 0, false, false)
		case "commas":
			p = vleaf(m, 60, 5, 0, false, false)
		case "link":
			p = vleaf(m, 150, 2, 29, false, false)
		case "links":
			p = vleaf(m, 150, 6, 60, false, false)
		case "hash":
			p = vleaf(m, 150, 6, 60, true, false)
		}
		b.kids = append(b.kids, p)
	}
	return b
}

// Two blocks: the better one is the article.
func vhBest() {
	a := vblkOf("A", vxFork(vxPick("tag", "div", "section", "blockquote", "article", "form")), vxFork(vxPick("class", "", "story", "widget", "story widget", "#story", "#widget")),
		vxFork(vxPick("form", "short", "least", "99", "100", "299", "450", "commas", "link", "links", "hash")), 1+2*vxInt("n", 0, 1))
	b := vtree("div", "")
	n, c := vxInt("bn", 1, 3), []int{0, 1, 3, 5}[vxInt("bc", 0, 3)]
	if vxThorough() {
		n, c = vxInt("bn4", 1, 4), vxInt("bc6", 0, 5)
	}
	for i := 0; i < n; i++ {
		b.kids = append(b.kids, vleaf("B"+string(rune('0'+i)), 60, c, 0, false, false))
	}
	if vxBool("swap") {
		a, b = b, a
	}
	x, y := vleaf("X0", 20, 0, 0, false, false), vleaf("Y0", 20, 0, 0, false, false)
	body := vtree("body", "")
	switch vxFork(vxPick("shape", "far", "siblings")) {
	case "far":
		body.kids = []*vblk{vtree("div", "", a, x), vtree("section", "", b, y)}
	case "siblings":
		body.kids = []*vblk{a, x, b, y}
	}
	vchosen(body, 5)
}

// What stands next to the best block: what joins it.
func vhSiblings() {
	top := vblkOf("T", "div", vxFork(vxPick("tclass", "", "other", "story")), vxFork(vxPick("tform", "commas", "450")), 1+vxInt("tn", 1, 2))
	a := vsibling("A", vxFork(vxPick("a", vSibKinds...)))
	b := vsibling("B", vxFork(vxPick("b", vSibKinds...)))
	var kids []*vblk
	switch vxFork(vxPick("order", "atb", "tab", "abt")) {
	case "atb":
		kids = []*vblk{a, top, b}
	case "tab":
		kids = []*vblk{top, a, b}
	case "abt":
		kids = []*vblk{a, b, top}
	}
	vchosen(vtree("body", "", vtree("div", "", kids...), vleaf("Z9", 30, 0, 0, false, true)), 5)
}

var vSibKinds = []string{"79", "79.", "80", "80.", "81", "81.", "link24", "link25", "linkshort.", "hash", "div9", "div10", "div11", "other", "same", "section", "widget", "blockquote"}

func vsibling(m, kind string) *vblk {
	switch kind {
	case "79":
		return vleaf(m+"0", 79, 0, 0, false, false)
	case "79.":
		return vleaf(m+"0", 79, 0, 0, false, true)
	case "80":
		return vleaf(m+"0", 80, 0, 0, false, false)
	case "80.":
		return vleaf(m+"0", 80, 0, 0, false, true)
	case "81":
		return vleaf(m+"0", 81, 0, 0, false, false)
	case "81.":
		return vleaf(m+"0", 81, 0, 0, false, true)
	case "link24":
		return vleaf(m+"0", 100, 0, 24, false, false)
	case "link25":
		return vleaf(m+"0", 100, 0, 25, false, false)
	case "linkshort.":
		return vleaf(m+"0", 40, 0, 1, false, true)
	case "hash":
		return vleaf(m+"0", 100, 0, 80, true, false)
	case "div9":
		return vtree("div", "", vleaf(m+"0", 30, 0, 0, false, false), vleaf(m+"1", 30, 0, 0, false, false))
	case "div10":
		return vtree("div", "", vleaf(m+"0", 30, 0, 0, false, false), vleaf(m+"1", 30, 1, 0, false, false))
	case "div11":
		return vtree("div", "", vleaf(m+"0", 30, 3, 0, false, false), vleaf(m+"1", 30, 0, 0, false, false))
	case "other":
		return vtree("div", "other", vleaf(m+"0", 30, 0, 0, false, false), vleaf(m+"1", 30, 0, 0, false, false))
	case "same":
		return vtree("section", "other", vleaf(m+"0", 30, 1, 0, false, false), vleaf(m+"1", 30, 1, 0, false, false))
	case "section":
		return vtree("section", "", vleaf(m+"0", 30, 4, 0, false, false), vleaf(m+"1", 30, 2, 0, false, false))
	case "widget":
		return vtree("div", "widget", vleaf(m+"0", 150, 9, 0, false, false), vleaf(m+"1", 150, 9, 0, false, false))
	default:
		return vtree("blockquote", "", vleaf(m+"0", 30, 3, 0, false, false), vleaf(m+"1", 30, 0, 0, false, false))
	}
}

// Paragraphs at several depths: the block that holds most of them.
func vhDepths() {
	var in *vblk
	tags := []string{"div", "section", "article", "div", "main"}
	turn := vxInt("turn", 0, 2)
	for i := 0; i < 5; i++ {
		d := string(rune('0' + i))
		b := vtree(tags[(i+turn)%5], "")
		switch vxInt("p"+d, 0, 2) {
		case 1:
			b.kids = append(b.kids, vleaf("A"+d, 60, 1, 0, false, false))
		case 2:
			b.kids = append(b.kids, vleaf("A"+d, 60, 3, 0, false, false), vleaf("B"+d, 120, 2, 0, false, false))
		}
		if in != nil {
			b.kids = append(b.kids, in)
		}
		if (i%2 == 1 || vxThorough()) && vxBool("q"+d) {
			b.kids = append(b.kids, vleaf("C"+d, 60, 0, 0, false, true))
		}
		if len(b.kids) == 0 {
			b.kids = append(b.kids, vleaf("D"+d, 26, 0, 0, false, false))
		}
		in = b
	}
	vchosen(vtree("body", "", in, vleaf("Z9", 20, 0, 0, false, false)), 5)
}

// Several blocks of about the same score: what holds them all.
func vhAlternatives() {
	ntop := vxInt("ntop", 0, 6)
	deep := vxBool("deep")
	w := vtree("section", "")
	if vxBool("div") {
		w.tag = "div"
	}
	for i := 0; i < 4; i++ {
		d := string(rune('0' + i))
		c := []int{2, 6, 11}[vxInt("c"+d, 0, 2)] // the second is three quarters of the third
		b := vtree("div", "", vleaf("A"+d, 100, c, 0, false, false), vleaf("B"+d, 100, c, 0, false, false), vleaf("C"+d, 100, 4, 0, false, false))
		k := vtree("article", "", b, vleaf("X"+d, 20, 0, 0, false, false))
		if deep {
			k = vtree("article", "", k, vleaf("W"+d, 20, 0, 0, false, false))
		}
		w.kids = append(w.kids, k)
	}
	body := vtree("body", "", vtree("div", "", w, vleaf("Y9", 20, 0, 0, false, false)), vleaf("Z9", 20, 0, 0, false, false))
	vchosen(body, ntop, NTopCandidates(ntop))
}

// A block needs a fifth of the score of the best to belong to it.
func vhFifth() {
	top := vtree("div", vxFork(vxPick("class", "", "story", "other")))
	c := []int{8, 12, 16, 20}[vxInt("tc", 0, 3)]
	for i := 0; i < 2+vxInt("tn", 0, 1); i++ {
		top.kids = append(top.kids, vleaf("T"+string(rune('0'+i)), 300, c, 0, false, false))
	}
	a := vtree(vxFork(vxPick("tag", "div", "section", "blockquote", "ul")), "",
		vleaf("A0", 60, vxInt("ac", 0, 14), 0, false, false), vleaf("A1", 20, 0, 0, false, false))
	a.class = vxFork(vxPick("aclass", "", "other", "others", "other more"))
	kids := []*vblk{top, a}
	if vxBool("before") {
		kids = []*vblk{a, top}
	}
	vchosen(vtree("body", "", vtree("div", "", kids...), vleaf("Z9", 20, 0, 0, false, false)), 5)
}

// Which elements make points for what they are in.
func vhScored() {
	kind := vxFork(vxPick("kind", "p", "pre", "h2", "h3", "h4", "h5", "h6", "section", "td", "li", "dd", "blockquote", "h1", "th"))
	tag := vxFork(vxPick("tag", "div", "article", "main", "td", "th", "pre", "blockquote", "ol", "ul", "dl", "dd", "dt", "li", "form", "address", "h3", "h5"))
	vxAssume(kind == "p" || tag == "div" || tag == "article")
	a := vtree(tag, "", vleaf("X0", 20, 0, 0, false, false))
	for i := 0; i < 1+vxInt("n", 0, 2); i++ {
		l := vleaf("A"+string(rune('0'+i)), []int{24, 25, 60}[vxInt("size", 0, 2)], vxInt("c", 0, 3), 0, false, false)
		l.tag = kind
		a.kids = append(a.kids, l)
	}
	b := vtree("div", "", vleaf("B0", 60, vxInt("bc", 0, 6), 0, false, false), vleaf("Y0", 20, 0, 0, false, false))
	kids := []*vblk{vtree("article", "", a, vleaf("V0", 20, 0, 0, false, false)), vtree("article", "", b, vleaf("W0", 20, 0, 0, false, false))}
	if vxBool("turn") {
		kids[0], kids[1] = kids[1], kids[0]
	}
	vchosen(vtree("body", "", kids...), 5)
}

// Lengths are numbers of characters, of any script.
func vhWide() {
	fill := vxFork(vxPick("fill", "x", "\u00e9", "\u6587", "\U0001F600"))
	wide := func(m string, size, commas int, stop bool) *vblk {
		l := vleaf(m, size, commas, 0, false, stop)
		l.html = strings.ReplaceAll(l.html, "x", fill)
		return l
	}
	a := vtree("div", "", vleaf("X0", 20, 0, 0, false, false))
	sib := vleaf("S0", 20, 0, 0, false, false)
	if vxBool("next") {
		// what is long enough to belong to the article
		a.kids = append(a.kids, wide("A0", 300, 9, false))
		sib = wide("S0", []int{20, 40, 41, 79, 80, 81}[vxInt("size", 0, 5)], 0, vxBool("stop"))
	} else {
		n := []int{24, 25, 49, 50, 99, 100, 199, 200, 299, 300, 301}[vxInt("n", 0, 10)]
		a.kids = append(a.kids, wide("A0", n, vxInt("c", 0, 2), false))
	}
	b := vtree("div", "", vleaf("B0", 60, vxInt("bc", 0, 6), 0, false, false), vleaf("Y0", 20, 0, 0, false, false))
	kids := []*vblk{vtree("article", "", a, sib), vtree("article", "", b, vleaf("W0", 20, 0, 0, false, false))}
	if vxBool("turn") {
		kids[0], kids[1] = kids[1], kids[0]
	}
	vchosen(vtree("body", "", kids...), 5)
}

// The commas of all scripts make points.
func vhCommas() {
	comma := vxFork(vxPick("comma", ",", "\u060C", "\uFE50", "\uFE10", "\uFE11", "\u2E41", "\u2E34", "\u2E32", "\uFF0C", ";", "\u3001"))
	n := vxInt("n", 0, 6)
	mine := strings.Repeat(comma+"k", n) + " and this text is long enough"
	a := "<div><div><p>First" + mine + "</p><p>Again" + mine + "</p></div><p>z</p></div>"
	b := "<div><div><p>Other,x,x,x and this text is long enough</p><p>Other,x,x,x and this text is long enough</p></div><p>z</p></div>"
	order := vxBool("order")
	body := a + b
	if order {
		body = b + a
	}
	res, _, err := vparse(vdoc("", body), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("h", res.HTMLContent)
	if comma == ";" || comma == "\u3001" {
		n = 0
	}
	if n > 3 || n == 3 && !order {
		vxAssert(vhas(res.TextContent, "First") && !vhas(res.TextContent, "Other"), "the block with more commas is the article")
		vxReach("more")
	} else {
		vxAssert(!vhas(res.TextContent, "First") && vhas(res.TextContent, "Other"), "the block with less is not")
		vxReach("less")
	}
}
