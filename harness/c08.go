package readability

import (
	"golang.org/x/net/html"
	"regexp"
	"strings"
	"unicode/utf8"
)

// C08: the fields of a result agree.

func vtext(n *Node) string {
	s := ""
	vw(n, func(x *Node) {
		if x.NodeType == textNode {
			s += x.GetTextContent()
		}
	})
	return s
}

func vrunes(s string) int {
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i]&0xc0 != 0x80 {
			k++
		}
	}
	return k
}

func vfirstP(n *Node) *Node {
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == elementNode && c.LocalName == "p" {
			return c
		}
		if x := vfirstP(c); x != nil {
			return x
		}
	}
	return nil
}

func vhResult() {
	ch := vxPick("ch", "a", "é", "漢字", "😀", "e\u0301", "so\u00adft\u200b", "&amp;", "&#233;", "\u00a0", "&lt;b&gt;", "")
	lead := vxPick("lead", "", "<h2>Heading "+ch+" of it</h2>", "<div>Loose text "+ch+", with commas, in a div of its own.</div>", "<p> </p>", "<ul><li>item "+ch+"</li></ul>", "<blockquote><p>Quote "+ch+", with commas.</p></blockquote>", "<p><img src='/i.png'/></p>", "<pre>  pre "+ch+"\n x</pre>")
	p1 := "<p> \n The " + ch + " first paragraph, with <b>bold " + ch + "</b>, enough words, and commas.  </p>"
	body := "<article>" + lead + p1 + vpar("second") + "</article>"
	src := vdoc("<title>T</title>", body)
	opts := []Option{CharThreshold(1)}
	var root *Node
	given := ""
	calls := 0
	mode := vxFork(vxPick("mode", "default", "outer", "fixed", "padded", "textpad", "text", "textser", "textempty"))
	grab := func(n *Node) { root = n; calls++ }
	ser := func(n *Node) string { return n.GetInnerHTML() }
	switch mode {
	case "outer":
		ser = func(n *Node) string { return "<wrap>" + n.GetInnerHTML() + "</wrap>" }
	case "fixed":
		ser = func(n *Node) string { return "fixed é" }
	case "padded":
		ser = func(n *Node) string { return " \n<b>" + n.GetInnerHTML() + "</b>\t\n" }
	}
	conv := func(s string) string { return s }
	switch mode {
	case "text":
		conv = func(s string) string { return "Text: é " + strings.ToUpper(s) }
	case "textser":
		ser = func(n *Node) string { return "ser " + n.GetTextContent() }
		conv = func(s string) string { return s + " é!" }
	case "textpad":
		conv = func(s string) string { return "\n " + s + "\n\n" }
	case "textempty":
		conv = func(s string) string { return "" }
	}
	opts = append(opts, Serializer(func(n *Node) string { grab(n); return ser(n) }))
	if strings.HasPrefix(mode, "text") {
		opts = append(opts, Html2Text(func(s string) string { given = s; return conv(s) }))
	}
	r, err := New(src, vURL, opts...)
	vxAssert(err == nil, "there is a reader")
	res, err := r.Parse()
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	vxObserve("excerpt", res.Excerpt)
	vxObserveInt("length", res.Length)
	vxAssert(calls == 1, "the serializer is called once")
	vxAssert(res.HTMLContent == ser(root), "the HTML is what the serializer gives")
	if strings.HasPrefix(mode, "text") {
		vxAssert(given == res.HTMLContent, "the text conversion is given the HTML")
		vxAssert(res.TextContent == conv(given), "the text is that of the conversion")
	} else {
		vxAssert(res.TextContent == vtext(root), "the text is that of the article")
	}
	vxAssert(res.Length == vrunes(res.TextContent) && res.Length == utf8.RuneCountInString(res.TextContent), "the length is the number of characters")
	p := vfirstP(root)
	vxAssert(p != nil && res.Excerpt == strings.TrimSpace(vtext(p)), "the excerpt is the first paragraph")
	if mode == "default" {
		// the default serializer gives the article's HTML
		r, err := New(src, vURL, CharThreshold(1))
		vxAssert(err == nil, "there is a reader")
		res2, err := r.Parse()
		vxAssert(err == nil && res2.HTMLContent == res.HTMLContent && res2.TextContent == res.TextContent && res2.Length == res.Length, "the default is the article's HTML")
		vxReach("default")
	}
	vxReach("end")
}

// C11: the limit on elements.
func vhMaxElems() {
	n := vxInt("n", -3, 24)
	// html, head, body and article are always there
	count := 4
	add := func(s string, k int) string { count += k; return s }
	head := ""
	switch vxFork(vxPick("head", "none", "title", "meta", "script")) {
	case "title":
		head = add("<title>T</title>", 1)
	case "meta":
		head = add("<meta charset='utf-8'/><title>T</title>", 2)
	case "script":
		head = add("<script>var x = '<p>';</script>", 1)
	}
	body := add(vpar("first"), 1)
	switch vxFork(vxPick("body", "none", "list", "table", "img", "nested", "hidden", "comment", "noscript", "svg", "own", "empty")) {
	case "svg":
		body += add("<svg><g><path d='M0'></path></g></svg><IMG SRC='/u.png'>", 4)
	case "own":
		body += add("<my-tag><o:p>x</o:p></my-tag><hr>", 3)
	case "empty":
		body += add("<div></div><span></span><p></p><script></script><style></style>", 5)
	case "list":
		body += add("<ul><li>x</li><li>y</li></ul>", 3)
	case "table":
		body += add("<table><tr><td>"+vsent("c")+"</td><td>y</td></tr></table>", 4)
	case "img":
		body += add("<p>"+vsent("i")+"<img src='/x.png'/><br/></p>", 3)
	case "nested":
		body += add("<div><div><div><b>"+vsent("n")+"</b></div></div></div>", 4)
	case "hidden":
		body += add("<div hidden='x'><p>h</p></div>", 2)
	case "comment":
		body += "<!-- <p>no</p> -->"
	case "noscript":
		body += add("<noscript><img src='/y.png'/></noscript>", 2)
	}
	body += add(vpar("last"), 1)
	src := vdoc(head, "<article>"+body+"</article>")
	if vxBool("before") {
		src = "<!DOCTYPE html><!-- c -->\n" + src
	}
	res, _, err := vparse(src, vURL, CharThreshold(1), MaxElemsToParse(n))
	if n > 0 && count > n {
		vxAssert(err != nil && res == nil, "more elements than the limit are an error")
		vxReach("over")
		return
	}
	vxAssert(err == nil, "elements up to the limit are no error")
	ref, _, err := vparse(src, vURL, CharThreshold(1))
	vxAssert(err == nil && *ref == *res, "the limit changes nothing else")
	vxReach("under")
}

// Large documents.
func vhMaxElemsMany() {
	k := vdec(vxFork(vxPick("k", "30", "100", "400")))
	one := vxFork(vxPick("one", "<b>x</b>", "<p>Some words, and more of it.</p>", "<br>", "<div></div>"))
	d := vxInt("d", -1, 1)
	src := vdoc("", "<article>"+vpar("first")+strings.Repeat(one, k)+vpar("last")+"</article>")
	res, _, err := vparse(src, vURL, CharThreshold(1), MaxElemsToParse(k+6+d))
	vxAssert((err != nil) == (d < 0), "more elements than the limit are an error, others are none")
	if d < 0 {
		vxReach("over")
	} else {
		vxAssert(vhas(res.TextContent, "last"), "the article is there")
		vxReach("under")
	}
}

// C12: the threshold and the attempts.
func vhThreshold() {
	t := vxInt("t", 1, 1200)
	furn := func(n string) string {
		return vxPick(n, "", "<div class='sidebar'>"+vpar("side")+vpar("bar")+"</div>", "<div class='comment'>"+vpar("remark")+"</div>", "<ul><li><a href='/x'>a link of a list</a></li><li><a href='/y'>and one more link</a></li></ul>", "<form><p>form</p></form>", "<div id='footer'>"+vpar("foot")+"</div>", "<div class='widget'>"+vpar("wid")+"<p>short</p></div>")
	}
	wide := "<p>" + strings.Repeat("\u00e9\u00e8 ", 30) + ", " + strings.Repeat("\u6587\u5b57", 20) + "</p>"
	core := vxPick("core", "<div>"+wide+wide+"</div>", "<div>"+vpar("first")+vpar("second")+"</div>", "<div class='menu'>"+vpar("first")+vpar("second")+"</div>", "<p>Short one.</p>", "<span>tiny</span>", "", "<div class='comment'><p>Only, remarks, here, to be seen by all who care.</p></div>", "<table><tr><td>"+vsent("cell")+"</td></tr></table>", "<div hidden='x'>"+vpar("no")+"</div>")
	src := vdoc("<title>T</title>", furn("f1")+core+furn("f2"))
	first, _, err1 := vparse(src, vURL, CharThreshold(1))
	best, _, err2 := vparse(src, vURL, CharThreshold(1000000))
	res, _, err := vparse(src, vURL, CharThreshold(t))
	vxAssert((err == nil) == (err2 == nil), "the threshold does not decide whether there is an article")
	if err2 != nil {
		vxReach("none")
		return
	}
	vxObserve("text", res.TextContent)
	ln := func(r *Result) int { return len([]rune(vspace(r.TextContent))) }
	vxAssert(ln(res) > 0, "a result has text")
	vxAssert(err1 == nil, "the least threshold gives a result too")
	if ln(first) >= t {
		vxAssert(*res == *first, "a first attempt that is long enough is the result")
		vxReach("first")
		return
	}
	if ln(res) < t {
		vxAssert(*res == *best, "if no attempt is long enough, the longest is the result")
		vxReach("best")
	} else {
		vxReach("later")
	}
	vxAssert(ln(res) >= t || ln(res) >= ln(first), "the result is not shorter than the first attempt")
	vxAssert(ln(best) >= ln(first), "the longest attempt is not shorter than the first")
}

// C14: results do not depend on what was done before.
func vhHistory() {
	doc := func(n string) string {
		x := vxPick(n, "<div class='a keep page'>"+vpar("first")+vpar("second")+"</div>",
			"<div><p>"+vsent("v")+"<iframe src='https://www.youtube.com/embed/x'></iframe></p><p>"+vsent("w")+"<iframe src='http://other.test/v'></iframe></p></div>",
			"<div class='sidebar'>"+vpar("one")+"</div><div>"+vpar("two")+"</div>",
			"<p class='byline'>By Someone</p><div dir='rtl'>"+vpar("one")+"<h1>Head of it</h1>"+vpar("two")+"</div>",
			"<p>x</p>", "<span></span>")
		head := vxPick(n+"h", "<title>T</title>", "<title>Some title words - Site</title><script type='application/ld+json'>{\"@context\":\"http://schema.org\",\"@type\":\"Article\",\"author\":{\"name\":\"A\"}}</script><base href='/b/'/>")
		return vdoc(head, x)
	}
	opts := func(n string) []Option {
		switch vxFork(vxPick(n, "none", "classes", "keep", "video", "nojson", "max", "threshold")) {
		case "classes":
			return []Option{CharThreshold(1), ClassesToPreserve("keep")}
		case "keep":
			return []Option{KeepClasses(true)}
		case "video":
			return []Option{CharThreshold(1), AllowedVideoRegex(regexp.MustCompile("other"))}
		case "nojson":
			return []Option{DisableJSONLD(true), CharThreshold(1)}
		case "max":
			return []Option{MaxElemsToParse(3)}
		case "threshold":
			return []Option{CharThreshold(400), NTopCandidates(1)}
		}
		return nil
	}
	d1, d2 := doc("d1"), doc("d2")
	o1, o2 := opts("o1"), opts("o2")
	run := func(d, u string, o []Option) (Result, bool) {
		r, err := New(d, u, o...)
		if err != nil {
			return Result{}, false
		}
		res, err := r.Parse()
		if err != nil {
			return Result{}, false
		}
		return *res, true
	}
	a, ok := run(d1, vURL, o1)
	vxObserve("html", a.HTMLContent)
	switch vxFork(vxPick("between", "parse", "new", "readerable", "interleave", "again")) {
	case "parse":
		run(d2, "http://second.test/x/y", o2)
	case "new":
		New(d2, "http://second.test/x/y", o2...)
	case "readerable":
		x := IsProbablyReaderable(d2, o2...)
		y := IsProbablyReaderable(d2, o2...)
		vxAssert(x == y, "the readerable test gives the same again")
	case "interleave":
		r1, e1 := New(d1, vURL, o1...)
		r2, e2 := New(d2, "http://second.test/x/y", o2...)
		if e2 == nil {
			r2.Parse()
		}
		if e1 == nil {
			c, e := r1.Parse()
			vxAssert((e == nil) == ok && (e != nil || *c == a), "interleaved readers do not meet")
		}
	case "again":
		run(d1, vURL, o2)
	}
	b, ok2 := run(d1, vURL, o1)
	vxAssert(ok == ok2 && a == b, "the same page gives the same result again")
	vxReach("end")
}

// The options of one readerable test do not reach the next.
func vhReaderableHistory() {
	n := vdec(vxFork(vxPick("n", "0", "30", "150", "400", "900")))
	d := "<html><body>" + vxFork(vxPick("kind", "<p>*</p>", "<pre>*</pre>", "<p class='menu'>*</p>", "<div style='display:none'><p>*</p></div>", "<div>*<br/></div>")) + "</body></html>"
	d = strings.ReplaceAll(d, "*", strings.Repeat("x", n))
	w := IsProbablyReaderable(d)
	long := "<p>" + strings.Repeat("Words of it. ", 60) + "</p>"
	vxAssert(IsProbablyReaderable(long), "a long page is readerable")
	other := vxFork(vxPick("other", "<p>x</p>", long, ""))
	switch vxFork(vxPick("between", "lenient", "strict", "score", "never", "always", "parse", "none")) {
	case "lenient":
		IsProbablyReaderable(other, MinContentLength(1), MinScore(1))
	case "strict":
		IsProbablyReaderable(other, MinContentLength(100000))
	case "score":
		IsProbablyReaderable(other, MinScore(100000))
	case "never":
		IsProbablyReaderable(other, VisibilityChecker(vnever))
	case "always":
		IsProbablyReaderable(other, VisibilityChecker(func(x *html.Node) bool { return true }))
	case "parse":
		vparse(other, vURL, MinContentLength(1), MinScore(1), VisibilityChecker(vnever))
	}
	got := IsProbablyReaderable(d)
	vxAssert(got == w, "the readerable test gives the same again")
	vxAssert(IsProbablyReaderable(long), "a long page is readerable still")
	if got {
		vxReach("readerable")
	} else {
		vxReach("not")
	}
}
