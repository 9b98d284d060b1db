package readability

import (
	"regexp"
	"strings"

	"golang.org/x/net/html"
)

// C01: nothing panics, hangs or exits; there is a result or an error.

func vrun(src, url string, opts ...Option) {
	r, err := New(src, url, opts...)
	vxAssert((r != nil) != (err != nil), "New gives a reader or an error")
	if err != nil {
		vxReach("newerr")
		return
	}
	res, err := r.Parse()
	vxAssert((res != nil) != (err != nil), "Parse gives a result or an error")
	if err != nil {
		vxObserve("err", "error")
		vxReach("err")
	} else {
		vxObserve("text", res.TextContent)
		vxReach("ok")
	}
}

// Attribute values of free characters on the elements whose code reads them.
func vhCrashAttr() {
	set := ":;,%/#? 1x&a."
	if vxThorough() {
		set = ":;,%/#?!= \t1x&'(data.jpg"
	}
	v := vxByte("b1", set) + vxByte("b2", set)
	v = vxPick("pre", "", "data:image/", "1", "display:", "http://", "a.jpg ", "-", "javascript", "x ") + v + vxPick("suf", "", ";base64,", ";base64,AAAA", " 2x", "none", ".jpg")
	q := "\""
	el := vxPick("el", "href", "src", "lazy", "srcset", "poster", "style", "class", "id", "colspan", "rowspan", "dir", "rel", "role", "base")
	head, x := "", ""
	switch el {
	case "href":
		x = "<p>" + vsent("l") + "<a href=" + q + v + q + ">t</a></p>"
	case "src", "srcset":
		x = "<p>" + vsent("l") + "<img " + el + "=" + q + v + q + "/></p>"
	case "lazy":
		x = "<p>" + vsent("l") + "<img class='lazy' src='data:image/png;base64,AA' data-x=" + q + v + q + "/></p>"
	case "poster":
		x = "<p>" + vsent("l") + "<video poster=" + q + v + q + "></video></p>"
	case "style", "class", "id", "dir", "rel", "role":
		x = "<div " + el + "=" + q + v + q + ">" + vpar("d") + "</div>"
	case "colspan", "rowspan":
		x = "<table><tr " + el + "=" + q + v + q + "><td " + el + "=" + q + v + q + ">" + vsent("d") + "</td></tr></table>"
	case "base":
		head = "<base href=" + q + v + q + "/>"
	}
	vrun(vdoc("<title>T</title>"+head, "<article>"+vpar("first")+x+vpar("second")+"</article>"), vURL, CharThreshold(1))
}

// JSON-LD with values of every kind at every key.
func vhCrashJSONLD() {
	kind := func(n string) string {
		return vxPick(n, `"s"`, "1", "null", "true", "[]", "{}", `{"name":1}`, `{"name":"n"}`, `[{"name":"n"},null,"x",{"name":[]}]`, `["Article"]`, `{"@type":"Article"}`, `[[]]`)
	}
	ctx := vxPick("ctx", `"http://schema.org"`, `"x"`, "1", "null", `{"@vocab":"http://schema.org"}`, "[]")
	typ := vxPick("typ", `"NewsArticle"`, `"Thing"`, "1", "null", `["Article"]`, "{}")
	key := vxPick("key", "name", "headline", "author", "description", "publisher", "datePublished", "@graph")
	src := ""
	switch vxPick("form", "plain", "graph", "top", "two", "cdata", "cut") {
	case "plain":
		src = `{"@context":` + ctx + `,"@type":` + typ + `,"` + key + `":` + kind("v") + `}`
	case "graph":
		src = `{"@context":` + ctx + `,"@graph":[1,{"@type":` + typ + `,"` + key + `":` + kind("v") + `}]}`
	case "top":
		src = kind("v")
	case "two":
		src = `{"@context":"http://schema.org","@type":"Article","name":` + kind("v") + `,"headline":` + kind("w") + `}`
	case "cdata":
		src = `<![CDATA[{"@context":` + ctx + `,"@type":` + typ + `,"` + key + `":` + kind("v") + `}]]>`
	case "cut":
		src = `{"@context":` + ctx + `,"@type":` + typ + `,"` + key + `":`
	}
	vrun(vdoc("<title>T</title><script type='application/ld+json'>"+src+"</script>", "<article>"+vpar("first")+vpar("second")+"</article>"), vURL, CharThreshold(1))
}

// Documents of odd structure.
func vhCrashShape() {
	a := vpar("one") + vpar("two")
	part := func(n string) string {
		return vxPick(n, "", "<p>", "</p>", "<div>"+a+"</div>", "<html>", "</html>", "<body>", "</body>", "<head><title>t - u</title></head>", "text", "<td>"+vsent("c")+"</td>", "<br/><br/>x<br/>", "<!-- c -->", "<table>", "<li><p>"+vsent("l")+"</p></li>", "<h1>t</h1>", "<div><div></div></div>", "<noscript><img src='a.jpg'/></noscript>", "<svg><p>x</p></svg>", "<p></p>", "<a>", "<base/>", "<body><p>"+vsent("b")+"</p></body>")
	}
	src := part("p1") + part("p2")
	if vxThorough() {
		src += part("p3")
	}
	src = vxPick("open", "", "<html>", "<html><body>") + src + vxPick("close", "", "</body></html>")
	vrun(src, vURL, vthreshold())
}

// Sources that end or go wrong anywhere.
func vhCrashBytes() {
	set := "<>/!-=\"'& \n?a[]"
	b := vxByte("b1", set) + vxByte("b2", set)
	if vxThorough() {
		b += vxByte("b3", set)
	}
	pre := vxPick("pre", "", "<", "</", "<p ", "<p a", "<p a=", "<p a='", "<!", "<!--", "<!--x-", "<![CDATA[", "<html><body><p>t</p", "<p>&#", "<p>&#x", "<script>", "<title>", "<br/", "<!DOCTYPE", "<?xml", "<a:b>", "<html><p>t<b>")
	suf := vxPick("suf", "", ">", "</p></body></html>", "-->", "'>x</p>")
	vrun(pre+b+suf, vURL, CharThreshold(1))
	vxReach("end")
}

// Options at and beyond their limits.
func vhCrashOpts() {
	body := "<div>" + vpar("first") + "<p>" + vsent("l") + "<iframe src='https://www.youtube.com/embed/x'></iframe></p></div><div>" + vpar("second") + vpar("third") + "</div>"
	url := vxPick("url", vURL, "", " ", "x", "/rel", "http://", "://", "http://h.test/%zz", "\x7f", "file:///c", "mailto:a@b")
	var opts []Option
	switch vxPick("opt", "ntop", "thr", "max", "rgx", "rgxnil", "cls", "ser", "txt", "ld", "all") {
	case "ntop":
		opts = append(opts, NTopCandidates(vxInt("n", -2, 6)))
	case "thr":
		opts = append(opts, CharThreshold(vxInt("n2", -2, 3)))
	case "max":
		opts = append(opts, MaxElemsToParse(vxInt("n3", -2, 12)))
	case "rgx":
		opts = append(opts, AllowedVideoRegex(regexp.MustCompile("youtube")))
	case "rgxnil":
		opts = append(opts, AllowedVideoRegex(nil))
	case "cls":
		opts = append(opts, ClassesToPreserve(), ClassesToPreserve(""), KeepClasses(vxBool("keep")))
	case "ser":
		opts = append(opts, Serializer(func(n *Node) string { return "" }))
	case "txt":
		opts = append(opts, Html2Text(func(s string) string { return strings.ToUpper(s) }))
	case "ld":
		opts = append(opts, DisableJSONLD(vxBool("dis")))
	case "all":
		opts = append(opts, NTopCandidates(0), CharThreshold(-1), MaxElemsToParse(-1), AllowedVideoRegex(nil), ClassesToPreserve(), KeepClasses(true))
	}
	vrun(vdoc("<title>T</title>", body), url, opts...)
}

// The readerable test on odd pages and options.
func vhCrashReaderable() {
	p := vpar("one") + vpar("two")
	src := vxPick("doc", "", "<", "text", "<p>", "<html></html>", "<br/><br/>", "<div><br/></div>", p+p+p, "<li>"+p+"</li>", "<div><br/><br/>"+vsent("x")+"</div>", "<p style=':;'>x</p>", "<p style='display'>"+vsent("y")+"</p>", "<p hidden>z</p>", "<table><p>x", "<p class='comment' id=''>"+vsent("c")+"</p>", "</html><p>q")
	var opts []Option
	switch vxPick("opt", "none", "len", "score", "vis") {
	case "len":
		opts = append(opts, MinContentLength(vxInt("n", -2, 3)))
	case "score":
		opts = append(opts, MinScore(float64(vxInt("n2", -2, 3))))
	case "vis":
		ok := vxBool("ok")
		opts = append(opts, VisibilityChecker(func(n *html.Node) bool { return ok }))
	}
	got := IsProbablyReaderable(src, opts...)
	if got {
		vxObserve("got", "yes")
		vxReach("yes")
	} else {
		vxReach("no")
	}
}

// Embedded things without a pattern for allowed ones, within blocks that are looked at.
func vhCrashEmbeds() {
	tag := vxFork(vxPick("tag", "iframe", "embed", "object"))
	attr := vxFork(vxPick("attr", "", " src", " src='https://www.youtube.com/embed/x'", " data='//player.vimeo.com/x' src=''"))
	in := vxPick("in", "", "x", "<param name='movie' value='//www.youtube.com/v/x'>", "<embed src='//v.qq.com/x'>")
	e := "<" + tag + attr + ">" + in + "</" + tag + ">"
	if vxBool("two") {
		e += e
	}
	box := vxFork(vxPick("box", "form", "fieldset", "div", "p", "ul", "table", "footer", "section", "noscript", "h2"))
	wrap := "<" + box + ">" + vxPick("text", "", "Some text, ") + e + "</" + box + ">"
	var opts []Option
	switch vxFork(vxPick("opt", "nil", "own", "none")) {
	case "nil":
		opts = append(opts, AllowedVideoRegex(nil))
	case "own":
		opts = append(opts, AllowedVideoRegex(regexp.MustCompile("vimeo")))
	}
	vrun(vdoc("<title>T</title>", "<div>"+vpar("first")+wrap+vpar("second")+"</div>"), vURL, opts...)
}

// Every kind of element, empty or nearly so, in every other.
func vhCrashPair() {
	outer := vxFork(vxPick("outer", "div", "p", "section", "article", "span", "a", "table", "tr", "td", "ul", "li", "dl", "figure", "noscript", "form", "fieldset", "h1", "h2", "header", "footer", "aside", "nav", "blockquote", "pre", "code", "picture", "video", "object", "iframe", "svg", "font", "center", "button", "select", "style", "script", "title", "head", "body", "html"))
	inner := vxFork(vxPick("inner",
		"", " ", "x", "<!-- c -->", "<br/>", "<hr/>", "<img/>", "<img srcset>", "<img class='lazy'/>", "<a></a>", "<a href></a>", "<a href='javascript:x'></a>", "<p></p>", "<div></div>", "<span></span>", "<h1></h1>", "<h2></h2>", "<table></table>", "<caption></caption>", "<table><caption></caption></table>", "<table><tbody></tbody></table>", "<table><tr></tr></table>", "<table><tr><td></td></tr></table>", "<table><colgroup></colgroup></table>", "<td></td>", "<td rowspan colspan>", "<ul></ul>", "<li></li>", "<figure></figure>", "<noscript></noscript>", "<noscript>x</noscript>", "<picture></picture>", "<picture><source></picture>", "<video></video>", "<source>", "<iframe></iframe>", "<object></object>", "<embed>", "<object><p></p></object>", "<svg></svg>", "<script></script>", "<style></style>", "<title></title>", "<meta>", "<meta name>", "<meta property='og:title'>", "<base href>", "<font></font>", "<input>", "<p class rel itemprop id></p>", "<p rel='author'></p>", "<p class='byline'></p>", "<p role='dialog' aria-modal='true'></p>", "<p style></p>", "<p hidden></p>", "<p dir></p>", "<br/><br/>", "<br/><br/><p></p>", "<br/><br/> <br/>x", "<div><br/></div>", "<div>x<br/><br/></div>", "<body></body>", "<html></html>", "<html lang></html>"))
	e := "<" + outer + ">" + inner + "</" + outer + ">"
	a := ""
	switch vxFork(vxPick("at", "alone", "in", "first", "last", "head")) {
	case "alone":
		a = vxFork(vxPick("open", "", "<html><body>")) + e
	case "in":
		a = "<html><body><div>" + vpar("one") + e + vpar("two") + "</div></body></html>"
	case "first":
		a = "<html><body>" + e + "<div>" + vpar("one") + vpar("two") + "</div></body></html>"
	case "last":
		a = "<html><body><div>" + vpar("one") + vpar("two") + "</div>" + e + "</body></html>"
	case "head":
		a = "<html><head>" + e + "</head><body><div>" + vpar("one") + vpar("two") + "</div></body></html>"
	}
	thr := 1
	if vxThorough() {
		thr = vxInt("thr", 0, 1) * 1000
	}
	vrun(a, vURL, CharThreshold(thr))
}

// Data URLs of every form on images that have another address.
func vhCrashData() {
	at := vxFork(vxPick("at", "", "w1", "w2", "w3", "w4"))
	ws := func(n string) string {
		if n == at {
			return " \n"
		}
		return ""
	}
	u := vxPick("data", "data:", "DATA:") + ws("w1") + vxPick("type", "image/gif", "image/svg+xml", "", "base64", "x;y") + ws("w2") + vxPick("semi", ";", ";;", "") + ws("w3") + vxPick("b64", "base64", "BASE64", "base6", "") + ws("w4") + vxPick("comma", ",", "", ",,") + vxPick("load", "", "Aé")
	el := vxFork(vxPick("el", "img", "figure"))
	x := "<" + el + " src='" + vxFork(u) + "' " + vxFork(vxPick("other", "", "data-src='/a.jpg'")) + ">"
	if el != "img" {
		x += "</" + el + ">"
	}
	vrun(vdoc("<title>T</title>", "<article>"+vpar("first")+"<p>"+vsent("i")+x+"</p></article>"), vURL, CharThreshold(1))
}
