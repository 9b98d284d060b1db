package readability

import (
	"strconv"
	"strings"
)

// Many of a kind, and deep down: what holds for one element holds for each of
// many, at every depth.

// vmanyDoc gives an article with the items (those of a paragraph each), some
// levels deep, and their number.
func vmanyDoc(item func(i int) string) (string, int) {
	n := vdec(vxFork(vxPick("n", vmanyN()...)))
	d := vdec(vxFork(vxPick("depth", vmanyDepth()...)))
	b := ""
	for i := 0; i < n; i++ {
		b += "<p>Item K" + strconv.Itoa(i) + ", with some words, and more. " + item(i) + "</p>"
	}
	return "<div class='article'>" + vpar("first") + strings.Repeat("<blockquote>", d) + b + strings.Repeat("</blockquote>", d) + vpar("second") + "</div>", n
}

func vmanyParse(item func(i int) string) (*Result, *Node, int) {
	body, n := vmanyDoc(item)
	res, root, err := vparse(vdoc("<title>T</title>", body), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	last := -1
	for i := 0; i < n; i++ {
		at := strings.Index(res.TextContent, "Item K"+strconv.Itoa(i)+",")
		vxAssert(at > last, "every paragraph is kept, in order")
		last = at
	}
	vxAssert(strings.Count(res.TextContent, "Item K") == n, "no paragraph is repeated")
	vxReach("end")
	return res, root, n
}

func vhManyActive() {
	it := vxFork(vxPick("item", "<script>zap()</script>", "<style>zap{}</style>", "<noscript>zap</noscript>", "<iframe src='//e.test/zap'></iframe>", "<object data='//e.test/zap'>zap</object>", "<embed src='//e.test/zap'/>", "<link rel='stylesheet' href='//e.test/zap'/>", "<input value='zap'/>", "<textarea>zap</textarea>", "<select><option>zap</option></select>", "<button>zap</button>"))
	res, root, _ := vmanyParse(func(int) string { return it })
	vnoActive(res, root)
	vxAssert(!vhas(res.HTMLContent, "zap"), "none of many active elements leaves anything")
}

func vhManyScriptLinks() {
	in := vxFork(vxPick("in", "zap", "<b>zap</b> it", ""))
	res, root, n := vmanyParse(func(int) string { return "<a href='javascript:x()'>" + in + "</a>" })
	vxAssert(!strings.Contains(res.HTMLContent, "javascript:"), "none of many links has a javascript: target")
	vxAssert(strings.Count(res.TextContent, "zap") == n*strings.Count(in, "zap"), "the text of the links stays")
	_ = root
}

func vhManyAttributes() {
	a := vxFork(vxPick("attr", "style='color:red'", "align='left'", "class='x y'", "bgcolor='red' vspace='1' data-k='v'"))
	tag := vxFork(vxPick("tag", "b", "span", "img", "a"))
	res, root, n := vmanyParse(func(int) string {
		return "<" + tag + " " + a + " src='http://h.test/a.png' href='http://h.test/x' title='tt'>w</" + tag + ">"
	})
	c := 0
	vw(root, func(e *Node) {
		for _, k := range []string{"style", "align", "class", "bgcolor", "vspace"} {
			vxAssert(!e.HasAttribute(k) || e.GetAttribute("class") == "page", "none of many elements has the attribute")
		}
		if e.GetAttribute("title") == "tt" {
			c++
		}
	})
	vxAssert(c == n, "the other attributes stay")
	_ = res
}

func vhManyLinks() {
	tag := vxFork(vxPick("tag", "a", "img", "srcset", "one"))
	one := func(i int) string { return "/p" + strconv.Itoa(i) + ".png" }
	base := vuresolve(vURL, "/")
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	abs := func(i int) string { return base + "p" + strconv.Itoa(i) + ".png" }
	all := ""
	res, root, n := vmanyParse(func(i int) string {
		switch tag {
		case "a":
			return "<a href='" + one(i) + "'>w</a>"
		case "img":
			return "<img src='" + one(i) + "'/>"
		case "srcset":
			return "<img src='/x.png' srcset='" + one(i) + " 1x, " + one(i+1) + " 2x'/>"
		}
		if i > 0 {
			return ""
		}
		for j := 0; j < 30; j++ {
			all += ", " + one(j) + " " + strconv.Itoa(j+1) + "w"
		}
		return "<img src='/x.png' srcset='" + all[2:] + "'/>"
	})
	_ = res
	i := 0
	vw(root, func(e *Node) {
		switch {
		case tag == "a" && e.TagName == "A":
			vxAssert(e.GetAttribute("href") == abs(i), "each of many links is absolute")
			i++
		case tag == "img" && e.TagName == "IMG":
			vxAssert(e.GetAttribute("src") == abs(i), "each of many images is absolute")
			i++
		case tag == "srcset" && e.TagName == "IMG":
			vxAssert(e.GetAttribute("srcset") == abs(i)+" 1x, "+abs(i+1)+" 2x", "each of many source sets is absolute")
			i++
		case tag == "one" && e.TagName == "IMG":
			want := ""
			for j := 0; j < 30; j++ {
				want += ", " + abs(j) + " " + strconv.Itoa(j+1) + "w"
			}
			vxAssert(e.GetAttribute("srcset") == want[2:], "each of many candidates is absolute")
			i++
		}
	})
	if tag == "one" {
		n = 1
	}
	vxAssert(i == n, "all of them are there")
}

func vhManyHidden() {
	a := vxFork(vxPick("attr", "hidden", "style='display:none'", "style='visibility:hidden'", "aria-hidden='true'"))
	tag := vxFork(vxPick("tag", "b", "span", "img"))
	res, _, _ := vmanyParse(func(int) string { return "<" + tag + " " + a + " title='zap'>zap</" + tag + ">" })
	vxAssert(!vhas(res.HTMLContent, "title"), "none of many hidden elements is in the article")
}

func vhManyLazy() {
	a := vxFork(vxPick("attr", "data-src", "data-lazy", "noscript"))
	_, root, n := vmanyParse(func(i int) string {
		if a == "noscript" {
			return "<img data-x='1' src='data:image/gif;base64,AAAA'/><noscript><img src='http://h.test/p" + strconv.Itoa(i) + ".png'/></noscript>"
		}
		return "<img " + a + "='http://h.test/p" + strconv.Itoa(i) + ".png'/>"
	})
	i := 0
	vw(root, func(e *Node) {
		if e.TagName == "IMG" {
			vxAssert(e.GetAttribute("src") == "http://h.test/p"+strconv.Itoa(i)+".png", "each of many images has its source")
			i++
		}
	})
	vxAssert(i == n, "all of the images are there")
}

func vhManyKept() {
	it := vxFork(vxPick("item", "", "<b>bold</b> and <i>more</i>", "<a href='/x'>x</a>", "<img src='/a.png'/>", "<font>f</font>", "<br/>end", "<!-- c -->"))
	_, root, n := vmanyParse(func(int) string { return it })
	ps := 0
	vw(root, func(e *Node) {
		vxAssert(e.TagName != "FONT", "font is span")
		if e.TagName == "P" && strings.HasPrefix(e.GetTextContent(), "Item K") {
			ps++
		}
	})
	vxAssert(ps == n, "each of many paragraphs is one")
}

func vmanyN() []string {
	if vxThorough() {
		return []string{"2", "100", "20", "70", "150"}
	}
	return []string{"2", "100"}
}

func vmanyDepth() []string {
	if vxThorough() {
		return []string{"0", "12", "4", "30"}
	}
	return []string{"0", "12"}
}
