package readability

import "strings"

// C04: nothing active reaches the article.

var vBanned = []string{"script", "style", "noscript", "iframe", "object", "embed", "link", "input", "textarea", "select", "button"}

func vbanned(n *Node) string {
	for _, t := range vBanned {
		if n.LocalName == t {
			return t
		}
	}
	return ""
}

// vnoActive checks the article's tree, and what its markup parses to.
func vnoActive(res *Result, root *Node) {
	vw(root, func(n *Node) {
		if n.NodeType == elementNode {
			vxAssert(vbanned(n) == "", "no active element in the article: "+vbanned(n))
		}
	})
	d := newDOMParser().parse("<html><body>"+res.HTMLContent+"</body></html>", vURL)
	vw(d, func(n *Node) {
		if n.NodeType == elementNode {
			vxAssert(vbanned(n) == "", "no active element in the markup: "+vbanned(n))
		}
	})
}

func vthreshold() Option {
	// one attempt, or every attempt
	if vxBool("lenient") {
		return CharThreshold(100000)
	}
	return CharThreshold(1)
}

// Active elements of every kind, in every position.
func vhActive() {
	it := vxPick("item",
		"<script>zap()</script>", "<SCRIPT type='text/x'>zap()</SCRIPT>", "<svg:script>zap()</svg:script>", "<script src='//e.test/e.js'></script>",
		"<style>zap{}</style>", "<noscript>zap</noscript>", "<noscript><b>zap</b></noscript>",
		"<iframe src='//e.test/zap'></iframe>", "<object data='//e.test/zap'>zap</object>", "<object><param name='movie' value='//e.test/zap'/><embed src='//e.test/zap'/></object>", "<embed src='//e.test/zap'/>",
		"<link rel='stylesheet' href='//e.test/zap'/>", "<input value='zap'/>", "<textarea>zap</textarea>", "<select><option>zap</option></select>", "<button>zap</button>",
		"<b><button><i>zap</i></button></b>", "<select></select>", "<button></button>", "<textarea></textarea>", "<iframe>//www.youtube.com/embed/zap</iframe>", "<script><script>zap()</script></script>")
	pos := vxPick("pos", "div", "p", "td", "a", "li", "section", "figure", "svg", "h3", "top")
	open, shut := "<"+pos+">", "</"+pos+">"
	switch pos {
	case "top":
		open, shut = "", ""
	case "td":
		open, shut = "<table><tr><th>k</th><td>", "</td></tr></table>"
	case "li":
		open, shut = "<ul><li>", "</li></ul>"
	case "a":
		open, shut = "<p>see <a href='/x'>", "</a> here</p>"
	}
	txt := vxPick("txt", "", "and some words around it, to be kept ")
	body := "<div class='" + vxPick("cls", "article", "") + "'>" + vpar("first") + open + txt + it + txt + shut + vpar("second") + "</div>"
	res, root, err := vparse(vdoc("<title>T</title>"+vxPick("headitem", "", it), body), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vnoActive(res, root)
	vxAssert(!vhas(res.TextContent, "zap"), "the text of active elements is not in the text")
	vxAssert(!vhas(res.HTMLContent, "zap"), "active elements leave nothing in the markup")
	vxAssert(vhas(res.TextContent, vsent("first")) && vhas(res.TextContent, vsent("second")), "the paragraphs around stay")
	vxReach("end")
}

// vjs tells whether a browser takes the URL for a script.
func vjs(u string) bool {
	i := 0
	for i < len(u) && u[i] <= ' ' {
		i++
	}
	u = u[i:]
	u = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(u, "\t", ""), "\n", ""), "\r", "")
	return strings.HasPrefix(strings.ToLower(u), "javascript:")
}

// Links that run scripts are unwrapped, their content stays; other links stay.
func vhJSLink() {
	a := vxByte("a", " \t\n\x01\x0b\x1fxj/#?.")
	b := vxByte("b", " \t\nx:/#?.&S")
	form := vxPick("form", "javascript:", "JavaScript:", "java\tscript:", "JAVASCRIPT:", "java&#13;script:", "&#13;&#10;javascript&Tab;:")
	tail := vxPick("tail", "zap(1)", "//x", "")
	href := vxPick("where", "ab", "a", "") // which symbolic characters are there
	switch href {
	case "ab":
		href = a + "java" + b + "script:" + tail
	case "a":
		href = a + form + tail
	default:
		href = form + tail + b
	}
	raw := href
	href = strings.NewReplacer("&#13;", "\r", "&#10;", "\n", "&Tab;", "\t").Replace(href)
	in := vxPick("in", "word", "<b>word</b>", "w<i>or</i>d", "word<img src='/pic.png'/>", "<img src='/pic.png'/><span>word</span>")
	body := "<div>" + vpar("first") + "<p>Here is some text before <a href=\"" + raw + "\">" + in + "</a> and some more after it.</p>" + vpar("second") + "</div>"
	res, root, err := vparse(vdoc("<title>T</title>", body), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("html", res.HTMLContent)
	links := 0
	vw(root, func(n *Node) {
		if n.NodeType == elementNode && n.LocalName == "a" {
			links++
			vxAssert(!vjs(n.GetAttribute("href")), "no link of the article runs a script")
		}
	})
	if vjs(href) {
		vxAssert(links == 0, "a link that runs a script is no link any more")
		vxReach("js")
	} else {
		vxAssert(links == 1, "other links stay links")
		vxReach("nojs")
	}
	vxAssert(vhas(res.TextContent, "text before word and some more"), "the text of the link stays")
	if vhas(in, "img") {
		vxAssert(vcount(root, "img") == 1, "the image in the link stays")
	}
	vxReach("end")
}

// A bare '<' in the text makes no markup, whatever is removed next to it.
func vhTextMarkup() {
	gone := vxPick("gone", "<b hidden=''>x</b>", "<script>x</script>", "<style>x</style>", "<button>x</button>", "<!-- x -->", "")
	a := vxByte("a", "<& /!?x")
	rest := vxPick("rest", "script>zap()", "img src=x onerror=zap()>", "/p><iframe src=zap>", "iframe>", "!--", "b hidden=''>")
	body := "<div>" + vpar("first") + "<p>Some words, and then " + a + gone + rest + " are here, in this longer text of the paragraph.</p>" + vpar("second") + "</div>"
	res, root, err := vparse(vdoc("<title>T</title>", body), vURL, CharThreshold(1))
	if err != nil {
		return
	}
	vxObserve("html", res.HTMLContent)
	d := newDOMParser().parse("<html><body>"+res.HTMLContent+"</body></html>", vURL)
	for _, t := range []string{"script", "iframe", "img", "style", "button"} {
		vxAssert(vcount(d, t) == vcount(root, t), "the markup has the elements of the article and no other: "+t)
	}
	if a != "&" {
		vxAssert(d.Body.GetTextContent() == root.GetTextContent(), "the markup has the text of the article")
	}
	vxReach("end")
}

// Content that stands in the head, or beside head and body.
func vhActiveOutside() {
	it := vxFork(vxPick("item", "<script>zap()</script>", "<style>zap{}</style>", "<noscript>zap</noscript>", "<iframe src='//e.test/zap'></iframe>", "<object data='//e.test/zap'>zap</object>", "<embed src='//e.test/zap'/>",
		"<link rel='stylesheet' href='//e.test/zap'/>", "<input value='zap'/>", "<textarea>zap</textarea>", "<select><option>zap</option></select>", "<button>zap</button>"))
	art := "<div>" + vpar("first") + it + "<p>" + vsent("mid") + it + "</p>" + vpar("second") + "</div>"
	body := "<body><p>tiny</p></body>"
	src := ""
	switch vxFork(vxPick("where", "head", "before", "after", "nohead", "twobodies")) {
	case "head":
		src = "<html><head><title>T</title>" + art + "</head>" + body + "</html>"
	case "before":
		src = "<html><head><title>T</title></head>" + art + body + "</html>"
	case "after":
		src = "<html><head><title>T</title></head>" + body + art + "</html>"
	case "nohead":
		src = "<html>" + art + body + it + "</html>"
	case "twobodies":
		src = "<html><body>" + art + "</body>" + body + "</html>"
	}
	res, root, err := vparse(src, vURL, vthreshold())
	if err != nil {
		vxReach("none")
		return
	}
	vxObserve("html", res.HTMLContent)
	vnoActive(res, root)
	vxAssert(!vhas(res.TextContent, "zap"), "the text of active elements is not in the text")
	vxAssert(!vhas(res.HTMLContent, "zap"), "active elements leave nothing in the markup")
	vxReach("end")
}
