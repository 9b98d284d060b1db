package readability

import (
	"regexp"
	"strings"

	"golang.org/x/net/html"
)

// C21: readers used at the same time do not meet. Nothing that existed before
// is written by a parse (vxPar), and each run gives what it gives alone.

func vparDoc(n string) string {
	head := vxPick(n+"h", "<title>Some title words - Site</title><base href='/b/'/>",
		"<title>A: b</title><meta property='og:title' content='T'/><meta name='author' content='&#65; B'/><script type='application/ld+json'>{\"@context\":\"http://schema.org\",\"@type\":\"Article\",\"author\":[{\"name\":\"A\"},{\"name\":\"B\"}],\"headline\":\"H\"}</script>")
	body := vxPick(n+"b",
		"<div class='a keep page'>"+vpar("first")+"<h1>Head</h1><p style='color:red'>x<font size='1'>y</font><br><br>z</p>"+vpar("second")+"</div><div class='share'>s</div>",
		"<div><p>"+vsent("v")+"<iframe src='https://www.youtube.com/embed/x'></iframe><img class='lazy' data-src='/a.jpg'></p><p>"+vsent("w")+"<iframe src='http://other.test/v'></iframe><a href='javascript:x()'>j</a><a href='#f'>k</a><img srcset='a.png 1x, b.png 2x'></p><noscript><img src='c.jpg'></noscript></div>",
		"<div class='sidebar'>"+vpar("one")+"</div><div hidden>"+vpar("no")+"</div><div>"+vpar("two")+"<table><caption>c</caption><tr><td>"+vsent("t")+"</td></tr></table><table><tr><td>"+vsent("u")+"</td></tr></table></div>",
		"<p class='byline'>By Someone</p><div dir='rtl' lang='he'>"+vpar("one")+"<ul><li>i<p>k</p></li></ul><aside>q</aside><form><input></form><div><div>"+vpar("two")+"</div></div></div>",
		"<p>x &amp; y</p>", "<span></span>")
	return vdoc(head, body)
}

type vparRes struct {
	res Result
	ok  bool
	ra  bool
}

func vparRun(mode, d, u string, o []Option) vparRes {
	var out vparRes
	if mode == "readerable" {
		out.ra = IsProbablyReaderable(d, o...)
		return out
	}
	r, err := New(d, u, o...)
	if err != nil || mode == "new" {
		return out
	}
	res, err := r.Parse()
	if err == nil {
		out.res, out.ok = *res, true
	}
	return out
}

func vparOpts(n string) []Option {
	switch vxFork(vxPick(n, "none", "classes", "video", "mixed", "visible")) {
	case "classes":
		cs := make([]string, 2, 8)
		cs[0], cs[1] = "keep", "a"
		return []Option{CharThreshold(1), ClassesToPreserve(cs...)}
	case "video":
		return []Option{AllowedVideoRegex(regexp.MustCompile("other")), CharThreshold(1), MinScore(3)}
	case "mixed":
		return []Option{DisableJSONLD(true), KeepClasses(true), NTopCandidates(2), MaxElemsToParse(100), MinContentLength(10),
			Serializer(func(n *Node) string { return n.GetInnerHTML() }), Html2Text(func(s string) string { return "t" + s })}
	case "visible":
		return []Option{VisibilityChecker(func(n *html.Node) bool { return n.Data != "pre" }), CharThreshold(400)}
	}
	return nil
}

// Two runs at the same time, with the same option values or others.
func vhParallel() {
	d1, d2 := vparDoc("x"), vparDoc("y")
	o1 := vparOpts("o")
	o2 := o1
	if vxFork(vxPick("opts", "same", "other")) == "other" {
		o2 = []Option{CharThreshold(20), ClassesToPreserve("q")}
	}
	m := vxFork(vxPick("mode", "parse", "readerable", "new"))
	x, y := vxPar(func() any {
		return vparRun("parse", d1, vURL, o1)
	}, func() any {
		return vparRun(m, d2, "http://second.test/x/y", o2)
	})
	a, b := x.(vparRes), y.(vparRes)
	vxObserve("html", a.res.HTMLContent)
	vxAssert(a == vparRun("parse", d1, vURL, o1), "a parse gives what it gives alone")
	vxAssert(b == vparRun(m, d2, "http://second.test/x/y", o2), "the other gives what it gives alone")
	if a.ok && strings.Contains(a.res.HTMLContent, "<p") {
		vxReach("article")
	}
	vxReach("end")
}
