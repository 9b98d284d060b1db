package readability

import "strings"

// Blocks inside of the article that look fishy, after the documented rules.

type vcount6 struct {
	tag, class            string
	p, img, li, input     int // elements
	embed                 int
	size, commas          int // characters and commas of the text
	head, list, link      int // characters in headings, lists, links
	figure, exempt, spare bool
}

func (c vcount6) fishy() bool {
	w := 0
	if strings.Contains(c.class, "widget") {
		w -= 25
	}
	if strings.Contains(c.class, "story") {
		w += 25
	}
	isList := c.tag == "ul" || c.size > 0 && 10*c.list > 9*c.size
	if c.exempt {
		return false
	}
	if w < 0 {
		return true
	}
	if c.commas >= 10 {
		return false
	}
	bad := c.img > 1 && 2*c.p < c.img && !c.figure ||
		!isList && c.li-100 > c.p ||
		c.input > c.p/3 ||
		!isList && 10*c.head < 9*c.size && c.size < 25 && (c.img == 0 || c.img > 2) && !c.figure ||
		!isList && c.size == 0 && (c.img == 0 || c.img > 2) && !c.figure ||
		!isList && w < 25 && 5*c.link > c.size ||
		w >= 25 && 2*c.link > c.size ||
		c.embed == 1 && c.size < 75 || c.embed > 1
	return bad && !c.spare
}

func vdec(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = 10*n + int(s[i]-'0')
	}
	return n
}

// vtx makes text of this many characters.
func vtx(mark string, n, commas int) string {
	t := mark + strings.Repeat(",", commas)
	if len(t) > n {
		return strings.Repeat("k", n)
	}
	return t + strings.Repeat("k", n-len(t))
}

func vfishyRun(c vcount6, inner string, wrap string) {
	b := "<" + c.tag
	if c.class != "" {
		b += " class='" + c.class + "'"
	}
	if c.tag == "table" {
		b += " role='presentation'"
		inner = "<tr><td>" + inner + "</td></tr><tr><td></td></tr>"
	}
	b += ">" + inner + "</" + c.tag + ">"
	b = strings.ReplaceAll(wrap, "*", b)
	par := "<p>First, second, third, fourth, fifth, sixth, and so on, with more, and more, of the same kind of text.</p>"
	body := "<div>" + par + par + par + b + par + "<p>Last, but not least, it ends.</p></div><p>x</p>"
	res, root, err := vparse(vdoc("", body), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "Last"), "the article stays")
	vxObserve("h", res.HTMLContent)
	kept := strings.Contains(res.TextContent, "kk") || vfind(root, "alt", "m") != nil
	if c.fishy() {
		vxAssert(!kept, "a fishy block is left out")
		vxReach("out")
	} else {
		vxAssert(kept, "another block stays")
		vxReach("kept")
	}
}

// vwide makes the text one of two-byte characters.
func vwide(t string, wide bool) string {
	if wide && len(t) > 2 {
		return t[:2] + strings.Repeat("\u00e9", len(t)-2)
	}
	return t
}

func vimgs(n int) string {
	if n == 0 {
		return ""
	}
	return "<blockquote>" + strings.Repeat("<img src='/i.png' alt='m'/>", n) + "</blockquote>"
}

var vFishTags = []string{"div", "form", "fieldset", "table", "ul"}

// The share of links, by class.
func vhFishyLinks() {
	c := vcount6{tag: vxFork(vxPick("tag", vFishTags...)), class: vxFork(vxPick("class", "", "story", "widget", "story widget", "other"))}
	c.size = vdec(vxFork(vxPick("size", "40", "100")))
	c.commas = []int{0, 9, 10, 11}[vxInt("commas", 0, 3)]
	c.link = c.size * vdec(vxFork(vxPick("link", "0", "20", "25", "50", "55", "60"))) / 100
	hash := vxBool("hash")
	c.p = vxInt("p", 0, 1)
	href := "/x"
	if hash {
		href = "#x"
	}
	t := vtx("kk", c.size-c.link, c.commas)
	if c.link > 0 {
		t += "<a href='" + href + "'>" + strings.Repeat("y", c.link) + "</a>"
	}
	in := "<blockquote>" + t + "</blockquote>"
	if c.p == 1 {
		in = "<p>" + t + "</p><pre></pre>"
	}
	if c.tag == "ul" {
		in = "<li>" + in + "</li>"
	}
	if hash {
		c.link = c.link * 3 / 10
	}
	wrap := vxFork(vxPick("in", "*", "<pre><code>*</code></pre>", "<pre><code><blockquote>*</blockquote></code></pre>", "<code><blockquote><blockquote><blockquote>*</blockquote></blockquote></blockquote></code>", "<table><caption>c</caption><tr><td>*</td><td>d</td></tr></table>"))
	c.exempt = wrap != "*"
	vfishyRun(c, in, wrap)
}

// Images, short texts and headings.
func vhFishyImages() {
	c := vcount6{tag: vxFork(vxPick("tag", vFishTags...)), class: vxFork(vxPick("class", "", "story"))}
	c.img = vxInt("img", 0, 4)
	c.p = vxInt("p", 0, 3)
	c.size = vdec(vxFork(vxPick("size", "0", "10", "24", "25", "60")))
	head := vxBool("head")
	c.figure = vxBool("figure")
	per := 0
	in := ""
	n := c.size
	if head && n > 0 {
		c.head = n
		if vxBool("most") {
			c.head = n * 9 / 10
		} else if vxBool("some") {
			c.head = n / 2
		}
		h := "h3"
		if c.p == 0 && c.class == "" && c.tag == "div" {
			h = vxFork(vxPick("level", "h3", "h4", "h5", "h6"))
		}
		in += "<" + h + ">" + vwide(vtx("kk", c.head, 0), vxBool("wide")) + "</" + h + ">"
		n -= c.head
	}
	if c.p > 0 {
		per = n / c.p
	}
	for i := 0; i < c.p; i++ {
		k := per
		if i == 0 {
			k = n - per*(c.p-1)
		}
		t := vtx("kk", k, 0)
		if k == 0 {
			t = "<br/>" // an empty paragraph counts too
		}
		in += "<p>" + t + "</p>"
	}
	if c.p == 0 && n > 0 {
		in += "<blockquote>" + vtx("kk", n, 0) + "</blockquote>"
	}
	in += vimgs(c.img) + "<pre></pre>"
	if c.size == 0 && c.img == 0 {
		return
	}
	if c.tag == "ul" {
		in = "<li>" + in + "</li>"
		// a list of one image in one item
		c.spare = c.img == 1 && c.p == 0 && c.size == 0
	}
	wrap := "*"
	if c.figure {
		wrap = "<figure>*</figure>"
	}
	vfishyRun(c, in, wrap)
}

// Fields of a form, embedded objects, and list items outside of lists.
func vhFishyForm() {
	c := vcount6{tag: vxFork(vxPick("tag", "form", "fieldset"))}
	c.input = vxInt("input", 0, 3)
	c.p = vxInt("p", 0, 7)
	c.size = []int{40, 74, 75, 120}[vxInt("size", 0, 3)]
	c.embed = vxInt("embed", 0, 2)
	c.commas = []int{0, 9, 10}[vxInt("commas", 0, 2)]
	kind := vxFork(vxPick("kind", "<iframe src='http://a.test/x'></iframe>", "<embed src='http://a.test/x'/>", "<object data='http://a.test/x'></object>"))
	in := strings.Repeat("<p></p>", c.p)
	if c.p > 0 {
		in = "<p>" + vtx("kk", c.size, c.commas) + "</p>" + strings.Repeat("<p></p>", c.p-1)
	} else {
		in = "<blockquote>" + vtx("kk", c.size, c.commas) + "</blockquote>"
	}
	in += strings.Repeat("<input type='text'/>", c.input)
	in += strings.Repeat(kind, c.embed)
	vfishyRun(c, in, "*")
}

// Lists.
func vhFishyList() {
	c := vcount6{tag: "div", class: vxFork(vxPick("class", "", "story"))}
	switch vxFork(vxPick("kind", "items", "long", "share", "gallery")) {
	case "items": // more than a hundred items, outside of a list
		c.p = vxInt("p", 0, 2)
		c.li = vxInt("li", 99, 103)
		c.size = 30*c.p + c.li
		in := strings.Repeat("<p>"+vtx("kk", 30, 0)+"</p>", c.p) + "<dl>" + strings.Repeat("<li>k</li>", c.li) + "</dl>"
		vfishyRun(c, in, "*")
	case "long": // more than a hundred items of a list
		c.li = vxInt("li", 99, 103)
		in := strings.Repeat("<li>k</li>", c.li)
		c.size, c.list = c.li, c.li
		if vxBool("div") {
			in = "<ol>" + in + "</ol><pre></pre>"
		} else {
			c.tag = "ul"
		}
		vfishyRun(c, strings.Replace(in, "<li>k", "<li>kk", 1), "*")
	case "share": // mostly a list, with links
		c.size = 100
		c.list = vxInt("list", 88, 93)
		c.link = vxInt("link", 0, 4) * 15
		c.p = 1
		wide := vxFork(vxPick("wide", "", "list", "rest"))
		in := "<ul><li>" + vwide(vtx("kk", c.list-c.link, 0), wide == "list")
		if c.link > 0 {
			in += "<a href='/x'>" + strings.Repeat("y", c.link) + "</a>"
		}
		in += "</li></ul><p>" + vwide(vtx("kk", c.size-c.list, 0), wide == "rest") + "</p>"
		if vxBool("ol") {
			in = strings.ReplaceAll(strings.ReplaceAll(in, "<ul>", "<ol>"), "</ul>", "</ol>")
		}
		vfishyRun(c, in, "*")
	case "gallery": // a list of images
		c.tag = "ul"
		n := vxInt("n", 1, 4)
		k := vxInt("img", 0, 4)
		vxAssume(k <= n)
		two := vxBool("two")
		more := 0
		if vxBool("more") { // an item with several images
			vxAssume(k == n)
			more = vxInt("many", 1, 2)
		}
		in := ""
		for i := 0; i < n; i++ {
			in += "<li>"
			if i < k {
				in += "<a href='/x'><img src='/i.png' alt='m'/>"
				if i == 0 {
					in += strings.Repeat("<img src='/j.png'/>", more)
				}
				in += "</a>"
			} else {
				in += vtx("kk", 20, 0)
				c.size += 20
			}
			if two && i == n-1 {
				in += "<b>kk</b><i>kk</i>"
				c.size += 4
			}
			in += "</li>"
		}
		c.img = k + more
		c.spare = k == n && !two && more == 0
		vfishyRun(c, in, "*")
	}
}

var vPositive = []string{"article", "body", "content", "entry", "hentry", "h-entry", "main", "page", "pagination", "post", "text", "blog", "story"}
var vNegative = []string{"-ad-", "hidden", "banner", "combx", "comment", "com-", "contact", "foot", "footer", "footnote", "gdpr", "masthead", "media", "meta", "outbrain", "promo", "related", "scroll", "share", "shoutbox", "sidebar", "skyscraper", "sponsor", "shopping", "tags", "tool", "widget"}

// vweight is the weight of a class or an id.
func vweight(s string) int {
	s = strings.ToLower(s)
	w, pos, neg := 0, false, false
	for _, p := range vPositive {
		pos = pos || strings.Contains(s, p)
	}
	for _, p := range vNegative {
		neg = neg || strings.Contains(s, p)
	}
	for _, f := range strings.Split(s, " ") {
		neg = neg || f == "hid"
	}
	if pos {
		w += 25
	}
	if neg {
		w -= 25
	}
	return w
}

// vweighed runs a block of this class and id, in which a share of the text is links.
func vweighed(class, id string, link bool) {
	attr := ""
	if class != "" {
		attr += " class='" + class + "'"
	}
	if id != "" {
		attr += " id='" + id + "'"
	}
	in := "kk" + strings.Repeat("k", 98)
	if link {
		in = "kk" + strings.Repeat("k", 68) + "<a href='/x'>" + strings.Repeat("y", 30) + "</a>"
	}
	par := "<p>First, second, third, fourth, fifth, sixth, and so on, with more, and more, of the same kind of matter.</p>"
	body := "<div>" + par + par + par + "<div" + attr + "><blockquote>" + in + "</blockquote></div>" + par + "<p>Last, but not least, it ends.</p></div><p>x</p>"
	res, _, err := vparse(vdoc("", body), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "Last"), "the article stays")
	vxObserve("h", res.HTMLContent)
	w := vweight(class) + vweight(id)
	kept := strings.Contains(res.TextContent, "kk")
	if w < 0 || link && w < 25 {
		vxAssert(!kept, "a block of this weight is left out")
		vxReach("out")
	} else {
		vxAssert(kept, "a block of this weight stays")
		vxReach("kept")
	}
}

// Every positive or negative word of classes and ids.
func vhWeightWords() {
	k := vxInt("kind", 0, 1)
	word := vxFork(vxPick("word", append(append([]string{"hid", "hide", "nothing", "-ad", "com"}, vPositive...), vNegative...)...))
	switch vxPick("case", "", "up", "camel") {
	case "up":
		word = strings.ToUpper(word)
	case "camel":
		word = strings.ToUpper(word[:1]) + word[1:]
	}
	word = vxPick("pre", "", "z", "zz ") + word + vxPick("post", "", "y", " yy")
	if strings.Contains(strings.ToLower(word), "pagination") {
		word = "page"
	}
	link := vxBool("link")
	if k == 0 {
		vweighed(word, "", link)
	} else {
		vweighed("", word, link)
	}
}

// Classes and ids together.
func vhWeightBoth() {
	class := vxFork(vxPick("class", "", "z", "story", "tool", "story tool", "post story", "tool promo"))
	id := vxFork(vxPick("id", "", "z", "blog", "promo", "blog-promo", "blog-story", "Tool"))
	vweighed(class, id, vxBool("link"))
}

// A top heading of negative weight goes, others stay.
func vhHeadWeight() {
	tag := vxFork(vxPick("tag", "h1", "h2", "h3", "h4", "p"))
	class := vxFork(vxPick("class", "", "z", "story", "promo", "story promo", "tags", "Masthead"))
	id := vxFork(vxPick("id", "", "z", "blog", "widget", "Outbrain"))
	attr := ""
	if class != "" {
		attr += " class='" + class + "'"
	}
	if id != "" {
		attr += " id='" + id + "'"
	}
	par := "<p>First, second, third, fourth, fifth, sixth, and so on, with more, and more, of the same kind of matter.</p>"
	head := "<" + tag + attr + ">kk is the heading of this part</" + tag + ">"
	in := head
	if vxBool("deep") {
		in = "<section><header>" + head + "</header>" + par + "</section>"
	}
	if vxBool("two") {
		in += "<h2>nn is the next</h2>"
	}
	th := vxBool("late")
	opt := CharThreshold(1)
	if th {
		opt = CharThreshold(100000)
	}
	res, _, err := vparse(vdoc("<title>An entirely different title of ours</title>", "<div>"+par+in+par+"<p>Last, but not least, it ends.</p></div><p>x</p>"), vURL, opt)
	vxAssert(err == nil && vhas(res.TextContent, "Last"), "the article stays")
	vxObserve("h", res.HTMLContent)
	vxAssert(!vxBool("two") || vhas(res.TextContent, "nn"), "a heading without a class stays")
	kept := vhas(res.TextContent, "kk")
	if vweight(class)+vweight(id) < 0 && (tag == "h1" || tag == "h2") && !th {
		vxAssert(!kept, "a top heading of negative weight goes")
		vxReach("out")
	} else {
		vxAssert(kept, "a heading of other weight or rank stays")
		vxReach("kept")
	}
}
