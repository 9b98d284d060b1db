package readability

import (
	"strconv"
	"strings"
)

// C03: text and attribute values survive serialising and parsing, references
// are decoded exactly once.

const vAll = "" // every 7-bit value but NUL

// All 7-bit characters but NUL and carriage return.
var vNoCR = func() string {
	s := ""
	for c := 1; c < 128; c++ {
		if c != '\r' {
			s += string(rune(c))
		}
	}
	return s
}()

func vtextOf(s, how string) *Node {
	d := newDOMParser().parse("<html><body><p></p></body></html>", vURL)
	p := d.Body.FirstChild()
	if how == "child" {
		p.SetTextContent("x")
		t := p.FirstChild()
		t.SetTextContent(s)
	} else {
		p.SetTextContent(s)
	}
	return d.Body
}

// Text set on a node comes back, from the node and from its markup.
func vhTextRound() {
	s := vxByte("a", vAll) + vxByte("b", vAll)
	if vxThorough() {
		s += vxByte("c", vAll)
	}
	s = vxPick("pre", "", "x", "\u00e9") + s + vxPick("post", "", "lt;", "#60;")
	body := vtextOf(s, vxPick("how", "node", "child"))
	vxAssert(body.GetTextContent() == s, "text content is what was set")
	h := body.GetInnerHTML()
	vxObserve("h", h)
	d2 := newDOMParser().parse("<html><body>"+h+"</body></html>", vURL)
	vxAssert(d2.Body != nil && len(d2.Body.ChildNodes) == 1, "text stays in its element")
	vxAssert(len(d2.Body.FirstChild().Children) == 0, "text makes no markup")
	vxAssert(d2.Body.GetTextContent() == s, "text comes back from the markup")
	vxAssert(d2.Body.GetInnerHTML() == h, "markup is stable")
	vxReach("end")
}

// Attribute values come back from the markup, and stay inside their quotes.
func vhAttrRound() {
	s := vxByte("a", vNoCR) + vxByte("b", vNoCR)
	if vxThorough() {
		s += vxByte("c", vNoCR)
	}
	s = vxPick("pre", "", "x", "\u00e9") + s + vxPick("post", "", "quot;", "y")
	d := newDOMParser().parse("<html><body><p id='i'>z</p></body></html>", vURL)
	p := d.Body.FirstChild()
	p.SetAttribute("title", s)
	p.SetAttribute("lang", "en")
	vxAssert(p.GetAttribute("title") == s, "attribute value is what was set")
	h := d.Body.GetInnerHTML()
	vxObserve("h", h)
	d2 := newDOMParser().parse("<html><body>"+h+"</body></html>", vURL)
	vxAssert(d2.Body != nil && len(d2.Body.ChildNodes) == 1, "element stays one")
	q := d2.Body.FirstChild()
	vxAssert(q.LocalName == "p" && len(q.Attributes) == 3, "no attribute is made or lost")
	vxAssert(q.GetAttribute("title") == s, "attribute value comes back from the markup")
	vxAssert(q.GetAttribute("lang") == "en" && q.GetAttribute("id") == "i", "other attributes are untouched")
	vxAssert(q.GetTextContent() == "z", "text is untouched")
	vxAssert(d2.Body.GetInnerHTML() == h, "markup is stable")
	vxReach("end")
}

// vrefDecode is the reference: one pass from left to right.
func vrefDecode(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] != '&' {
			out += s[i : i+1]
			i++
			continue
		}
		semi := strings.IndexByte(s[i:], ';')
		rep, ok := "", false
		if semi > 1 {
			rep, ok = vrefOne(s[i+1 : i+semi])
		}
		if ok {
			out += rep
			i += semi + 1
		} else {
			out += "&"
			i++
		}
	}
	return out
}

func vrefOne(name string) (string, bool) {
	switch name {
	case "lt":
		return "<", true
	case "gt":
		return ">", true
	case "amp":
		return "&", true
	case "quot":
		return "\"", true
	case "apos":
		return "'", true
	}
	if len(name) < 2 || name[0] != '#' {
		return "", false
	}
	d, base := name[1:], 10
	if d[0] == 'x' || d[0] == 'X' {
		d, base = d[1:], 16
	}
	if len(d) == 0 {
		return "", false
	}
	v := 0
	for i := 0; i < len(d); i++ {
		c := int(d[i])
		x := 99
		if c >= '0' && c <= '9' {
			x = c - '0'
		} else if c >= 'a' && c <= 'f' {
			x = c - 'a' + 10
		} else if c >= 'A' && c <= 'F' {
			x = c - 'A' + 10
		}
		if x >= base {
			return "", false
		}
		v = v*base + x
	}
	if v >= 0x80 && v < 0xa0 {
		vxAssume(false) // control characters, which HTML maps to others
	}
	if v == 0 || v > 0x10ffff {
		v = 0xfffd
	}
	return string(rune(v)), true
}

// Named references, also nested in one another.
func vhDecodeNamed() {
	n := []string{"&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&nbsp;", "&", "lt;", "#60;", "#x3c;", "&#38;", "&#x26;", "&LT;", "x", ";"}
	s := vxFork(vxPick("a", n...)) + vxFork(vxPick("b", n...)) + vxFork(vxPick("c", n...))
	got, err := decodeHTML(s)
	vxAssert(err == nil, "decoding does not fail")
	vxAssert(got == vrefDecode(s), "references are decoded once, from left to right")
	d := newDOMParser().parse("<html><body><p>y"+s+"</p></body></html>", vURL)
	vxAssert(d.Body.GetTextContent() == "y"+vrefDecode(s), "text of the parsed node is the decoded text")
	vxReach("end")
}

// Numeric references with symbolic digits.
func vhDecodeNumeric() {
	dig := "0123456789abcdefABCDEFgG;&#x"
	form := vxFork(vxPick("form", "&#", "&#x", "&#X", "&amp;#"))
	s := form + vxByte("d1", dig) + vxByte("d2", dig) + vxFork(vxPick("more", "", "4", "004", "00041", "f600")) + vxFork(vxPick("end", ";", "", ";lt;"))
	got, err := decodeHTML(s)
	vxAssert(err == nil, "decoding does not fail")
	vxAssert(got == vrefDecode(s), "numeric references are decoded once")
	vxReach("end")
}

// vtexts gives the children with adjacent texts as one.
func vtexts(n *Node) (els []*Node, texts []string) {
	t := ""
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == textNode {
			t += c.GetTextContent()
			continue
		}
		els = append(els, c)
		texts = append(texts, t)
		t = ""
	}
	return els, append(texts, t)
}

// vsame: same tree, whatever the number of text nodes a text is cut into.
func vsame(a, b *Node) bool {
	if a.NodeType != b.NodeType || a.LocalName != b.LocalName || len(a.Attributes) != len(b.Attributes) {
		return false
	}
	for i := 0; i < len(a.Attributes); i++ {
		if a.Attributes[i].getName() != b.Attributes[i].getName() || a.Attributes[i].getValue() != b.Attributes[i].getValue() {
			return false
		}
	}
	ea, ta := vtexts(a)
	eb, tb := vtexts(b)
	if len(ea) != len(eb) {
		return false
	}
	for i := 0; i < len(ta); i++ {
		if ta[i] != tb[i] {
			return false
		}
	}
	for i := 0; i < len(ea); i++ {
		if !vsame(ea[i], eb[i]) {
			return false
		}
	}
	return true
}

// Documents: the tree that is serialised is the tree that is parsed again.
func vhDocRound() {
	b := vxByte("b", "ax &<>\"';#/=!\n")
	c := vxByte("c", "ax &<>\"';#/=!\n")
	a := vxByte("at", "ax &<>'`;#/=!\n")
	pre := vxPick("pre", "", "t", "<br/>", "<img src='i'/>", "<o:p></o:p>")
	el := vxPick("el", "p", "SPAN", "x:q", "h1", "pre")
	post := vxPick("post", "", "u", "<hr/>", "<b>v</b>", "<!-- c -->")
	src := "<html><body><div>" + pre + "<" + el + " title=\"" + a + "\">m" + b + c + "n</" + el + ">" + post + "</div></body></html>"
	d := newDOMParser().parse(src, vURL)
	h := d.Body.GetInnerHTML()
	vxObserve("h", h)
	d2 := newDOMParser().parse("<html><body>"+h+"</body></html>", vURL)
	vxAssert(d2.Body != nil, "the body comes back")
	vxAssert(vsame(d.Body, d2.Body), "serialised and parsed again, the tree is the same")
	vxAssert(d2.Body.GetInnerHTML() == h, "markup is stable")
	vxReach("end")
}

// Well-formed elements nest as written: an end tag closes its own element.
func vhNesting() {
	tags := []string{"div", "p", "o:p", "a:b:p", "B", "x-y", "h2", "article"}
	t1, t2 := vxPick("t1", tags...), vxPick("t2", tags...)
	v := vxPick("v", "", "<br/>", "<img src='x'/>", "<wbr/>")
	src := "<html><body><" + t1 + ">a" + v + "<" + t2 + ">b" + v + "</" + t2 + ">c</" + t1 + ">d</body></html>"
	d := newDOMParser().parse(src, vURL)
	n := 1
	if v != "" {
		n = 2
	}
	vxAssert(len(d.Body.ChildNodes) == 2 && len(d.Body.Children) == 1, "the outer element is closed by its end tag")
	x := d.Body.FirstChild()
	vxAssert(len(x.ChildNodes) == n+2, "the inner element is closed by its end tag")
	y := x.ChildNodes[n]
	vxAssert(x.TagName == strings.ToUpper(vlocal(t1)) && y.TagName == strings.ToUpper(vlocal(t2)), "elements have their local names")
	vxAssert(x.LocalName == strings.ToLower(vlocal(t1)) && y.LocalName == strings.ToLower(vlocal(t2)), "elements have their local names")
	vxAssert(len(y.ChildNodes) == n && y.GetTextContent() == "b" && x.GetTextContent() == "abc" && d.Body.GetTextContent() == "abcd", "text is where it was written")
	vxReach("end")
}

func vlocal(t string) string {
	if i := strings.LastIndexByte(t, ':'); i >= 0 {
		return t[i+1:]
	}
	return t
}

// The content of a script or style is text, whatever it holds.
func vhRawText() {
	tag := vxPick("tag", "script", "style", "SCRIPT")
	set := "<>/&\"'a"
	b1, b2, b3 := vxFork(vxByte("b1", set)), vxByte("b2", set), vxByte("b3", set)
	mid := vxPick("mid", "", "<b>", "</p>", "<div", "document.write('<p class=x>');", "if (a<b && c>d) {}")
	raw := "x" + b1 + mid + b2 + b3 + " "
	d := newDOMParser().parse("<html><head></head><body><div><"+tag+" type='t'>"+raw+"</"+tag+"><p>after</p></div></body></html>", vURL)
	div := d.getElementsByTagName("div")[0]
	vxAssert(len(div.ChildNodes) == 2 && len(div.Children) == 2, "what follows is not swallowed")
	vxAssert(div.Children[1].LocalName == "p" && div.Children[1].GetTextContent() == "after", "and is not changed")
	s := div.Children[0]
	vxAssert(s.LocalName == strings.ToLower(tag) && len(s.Children) == 0, "there are no elements in it")
	vxAssert(s.GetTextContent() == raw, "its text is unchanged")
	vxReach("end")
}

// Void elements end with their start tag, with a slash or without.
func vhVoid() {
	voids := strings.Fields("area base br col embed hr img input link meta param source track wbr BR Img")
	v := voids[vxInt("v", 0, len(voids)-1)]
	w := voids[vxInt("w", 0, len(voids)-1)]
	e1 := vxPick("e1", ">", "/>", " a='1'>", " a=1 />", " a>", "></"+strings.ToLower(v)+">")
	e2 := vxPick("e2", ">", "/>", " b='2'>")
	txt := vxByte("t", "x <")
	if txt == "<" {
		txt = "&lt;"
	}
	if strings.HasPrefix(e1, "></") && !vxBool("both") {
		e2 = "/>" // a document that uses the end tag needs it everywhere
	}
	tail := "tail"
	if lv := strings.ToLower(v); vxBool("alike") {
		tail = "<" + lv + "-x>tail</" + lv + "-x>" // an element whose name begins alike
	}
	d := newDOMParser().parse("<html><head></head><body><div>one<"+v+e1+txt+"<b>two<"+w+e2+"</b>"+tail+"</div><p>after</p></body></html>", vURL)
	if strings.HasPrefix(e1, "></") && e2 != "/>" {
		return
	}
	div := d.getElementsByTagName("div")[0]
	vxAssert(len(div.ChildNodes) == 5 && (len(div.Children) == 2 || tail != "tail" && len(div.Children) == 3), "a void element has no content")
	c := div.ChildNodes
	vxAssert(c[1].LocalName == strings.ToLower(v) && len(c[1].ChildNodes) == 0, "the first is there")
	vxAssert(c[0].GetTextContent() == "one" && c[4].GetTextContent() == "tail", "and the text around it")
	b := c[3]
	vxAssert(b.LocalName == "b" && len(b.ChildNodes) == 2, "elements after it are its siblings")
	vxAssert(b.ChildNodes[1].LocalName == strings.ToLower(w) && len(b.ChildNodes[1].ChildNodes) == 0, "the second is there")
	vxAssert(d.getElementsByTagName("p")[0].ParentNode == d.Body, "what follows is not swallowed")
	out := d.Body.GetInnerHTML()
	d2 := newDOMParser().parse("<html><head></head><body>"+out+"</body></html>", vURL)
	vxAssert(d2.Body.GetInnerHTML() == out, "the markup parses to the same")
	vxReach("end")
}

// Text is kept as it stands, also where it begins with or holds a '<' that
// begins no markup.
func vhBareText() {
	s := vxByte("a", vNoCR) + vxByte("b", vNoCR)
	if vxThorough() {
		s += vxByte("c", vNoCR)
	}
	s += vxPick("post", " rest", "3", "<", "= &lt;")
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '<' {
			n := s[i+1]
			vxAssume(!(n >= 'a' && n <= 'z' || n >= 'A' && n <= 'Z' || n == '/' || n == '!' || n == '?'))
		}
	}
	after := vxPick("after", " </p>", "<b> c</b></p>", "<br/>d</p>")
	if strings.HasSuffix(s, "<") && after != " </p>" {
		return // "<<b>" is fine for HTML, but is not what this is about
	}
	pre := vxPick("pre", "", "x ", "<i>y</i>", "<br/>")
	d := newDOMParser().parse("<html><head></head><body><div><p>"+pre+s+after+"<p>last</p></div></body></html>", vURL)
	vxAssert(d.Body != nil, "the page has a body")
	ps := d.getElementsByTagName("p")
	vxAssert(len(ps) == 2, "the text makes no markup, and hides none")
	vxAssert(ps[1].GetTextContent() == "last", "what follows is there")
	want := strings.ReplaceAll(strings.ReplaceAll(pre, "<i>y</i>", "y"), "<br/>", "") + vrefDecode(s) +
		strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(after, "<b> c</b>", " c"), "<br/>", ""), "</p>", "")
	vxAssert(ps[0].GetTextContent() == want, "text is kept as it stands")
	out := d.Body.GetInnerHTML()
	vxObserve("h", out)
	d2 := newDOMParser().parse("<html><head></head><body>"+out+"</body></html>", vURL)
	vxAssert(d2.Body.GetTextContent() == d.Body.GetTextContent(), "it comes back from the markup")
	vxReach("end")
}

// Characters beyond ASCII, written as they are or as references, in text and
// in attributes.
func vhUnicode() {
	cps := []int{0xa0, 0xad, 0xe9, 0x131, 0x3b1, 0x200b, 0x2028, 0x3000, 0x4e16, 0xfeff, 0xffe5, 0x1f600, 0x10ffff, 0x7f}
	one := func(n string) (string, string) {
		c := cps[vxInt(n, 0, len(cps)-1)]
		switch vxFork(vxPick(n+"w", "raw", "dec", "hex")) {
		case "dec":
			return "&#" + strconv.Itoa(c) + ";", string(rune(c))
		case "hex":
			return "&#x" + strings.ToUpper(strconv.FormatInt(int64(c), 16)) + ";", string(rune(c))
		}
		return string(rune(c)), string(rune(c))
	}
	s, w := one("a")
	t, v := one("b")
	d := newDOMParser().parse("<html><body><div><p title='"+s+"x"+t+"'>"+t+"y"+s+"<b>"+s+"</b></p></div></body></html>", vURL)
	for i := 0; i < 2; i++ {
		ps := d.getElementsByTagName("p")
		vxAssert(len(ps) == 1, "the element is there")
		vxAssert(ps[0].GetAttribute("title") == w+"x"+v, "the attribute has the characters")
		vxAssert(ps[0].GetTextContent() == v+"y"+w+w && ps[0].Children[0].GetTextContent() == w, "the text has the characters")
		d = newDOMParser().parse("<html><body>"+d.Body.GetInnerHTML()+"</body></html>", vURL)
	}
	vxReach("end")
}

// Several attributes, in every notation.
func vhAttrs() {
	forms := []string{"='1 2'", "=\"1 2\"", "=12", "", "=''", "=\"'\"", "='\"'", " = '1 2'", "='a&amp;b&lt;'", "='\n1\t'"}
	vals := []string{"1 2", "1 2", "12", "", "", "'", "\"", "1 2", "a&b<", "\n1\t"}
	names := []string{"title", "data-a", "HREF", "xml:lang", "x_y", "aria-label"}
	a, b := vxInt("a", 0, len(forms)-1), vxInt("b", 0, len(forms)-1)
	n, m := vxInt("n", 0, len(names)-1), vxInt("m", 0, len(names)-1)
	vxAssume(n != m)
	end := vxFork(vxPick("end", "", " ", "\n"))
	if end == "" {
		end = vxPick("sp", "", " ")
	}
	d := newDOMParser().parse("<html><body><p "+names[n]+forms[a]+" "+names[m]+forms[b]+" id='k'"+end+">x</p><b>y</b></body></html>", vURL)
	for i := 0; i < 2; i++ {
		p := d.Body.FirstElementChild()
		vxAssert(p != nil && p.TagName == "P" && len(p.Attributes) == 3, "the attributes are there")
		vxAssert(p.Attributes[0].getName() == strings.ToLower(names[n]) && p.Attributes[1].getName() == strings.ToLower(names[m]) && p.Attributes[2].getName() == "id", "in their order")
		vxAssert(p.GetAttribute(strings.ToLower(names[n])) == vals[a] && p.GetAttribute(strings.ToLower(names[m])) == vals[b] && p.GetAttribute("id") == "k", "with their values")
		vxAssert(p.GetTextContent() == "x" && d.Body.GetTextContent() == "xy", "and the text")
		d = newDOMParser().parse("<html><body>"+d.Body.GetInnerHTML()+"</body></html>", vURL)
	}
	vxReach("end")
}

// Deep nesting, long texts, many children and attributes.
func vhSizes() {
	depth := vdec(vxFork(vxPick("depth", "1", "120")))
	long := vdec(vxFork(vxPick("long", "3", "70000")))
	many := vdec(vxFork(vxPick("many", "1", "200")))
	attrs := vdec(vxFork(vxPick("attrs", "1", "30")))
	src := ""
	for i := 0; i < depth; i++ {
		src += "<div id='d" + strconv.Itoa(i) + "'>"
	}
	src += "<p"
	for i := 0; i < attrs; i++ {
		src += " a" + strconv.Itoa(i) + "='v" + strconv.Itoa(i) + "'"
	}
	text := strings.Repeat("t &amp; ", long/3)
	src += " title='" + text + "'>" + text
	for i := 0; i < many; i++ {
		src += "<b>" + strconv.Itoa(i) + "</b>."
	}
	src += "</p>" + strings.Repeat("</div>", depth)
	d := newDOMParser().parse("<html><body>"+src+"</body></html>", vURL)
	for i := 0; i < 2; i++ {
		n := d.Body
		for k := 0; k < depth; k++ {
			vxAssert(len(n.ChildNodes) == 1 && n.ChildNodes[0].GetAttribute("id") == "d"+strconv.Itoa(k), "the elements are nested as written")
			n = n.ChildNodes[0]
		}
		vxAssert(len(n.ChildNodes) == 1, "the paragraph is there")
		p := n.ChildNodes[0]
		vxAssert(p.TagName == "P" && len(p.Attributes) == attrs+1 && p.GetAttribute("a"+strconv.Itoa(attrs-1)) == "v"+strconv.Itoa(attrs-1), "with its attributes")
		t := strings.ReplaceAll(text, "&amp;", "&")
		vxAssert(p.GetAttribute("title") == t && strings.HasPrefix(p.GetTextContent(), t+"0."), "with its text")
		vxAssert(len(p.Children) == many && p.Children[many-1].GetTextContent() == strconv.Itoa(many-1), "with its children")
		h := d.Body.GetInnerHTML()
		d = newDOMParser().parse("<html><body>"+h+"</body></html>", vURL)
		vxAssert(d.Body.GetInnerHTML() == h, "markup is stable")
	}
	vxReach("end")
}

// Texts that only a comment parts are no markup together either.
func vhTextMeets() {
	set := "< x&"
	a, b, c := vxByte("a", set), vxByte("b", set), vxByte("c", set)
	s := "1" + a + b + " " + c + "<"
	tail := vxFork(vxPick("tail", "b>bold", "script>x", "/div>", "!-- x", "?x", "p class='y'>", "x", "a href=javascript:x>l"))
	com := vxFork(vxPick("com", "<!-- c -->", "<!---->", "<!-- c --><!-- d -->"))
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '<' {
			vxAssume(s[i+1] != 'x')
		}
	}
	d := newDOMParser().parse("<html><head></head><body><div>"+s+com+tail+"</div><p>after</p></body></html>", vURL)
	div := d.getElementsByTagName("div")[0]
	vxAssert(len(div.Children) == 0, "text is no element")
	vxAssert(div.GetTextContent() == s+tail, "the text is as written")
	h := d.Body.GetInnerHTML()
	vxObserve("h", h)
	d2 := newDOMParser().parse("<html><head></head><body>"+h+"</body></html>", vURL)
	vxAssert(len(d2.Body.Children) == 2, "nor does it become one when it is parsed again")
	e := d2.Body.Children[0]
	vxAssert(e.LocalName == "div" && len(e.Children) == 0 && e.GetTextContent() == s+tail, "and it stays as it is")
	vxReach("end")
}

// A text that is set as text or as markup is read as both, whatever was read before.
func vhTextSet() {
	d := newDocument(vURL)
	t := d.createTextNode("first")
	el := d.createElementNode("p")
	el.AppendChild(t)
	text, mark := "first", "first"
	vals := []string{"", "x", "a&b", "&lt;", "1<2", "&amp;lt;"}
	for _, k := range []string{"1", "2", "3"} {
		switch vxFork(vxPick("read"+k, "no", "text", "html", "both")) {
		case "text":
			vxAssert(t.GetTextContent() == text, "the text reads as it was set")
		case "html":
			vxAssert(t.GetInnerHTML() == mark, "the markup reads as it was set")
		case "both":
			vxAssert(el.GetInnerHTML() == mark && el.GetTextContent() == text, "the element reads as it was set")
		}
		v := vals[vxInt("v"+k, 0, len(vals)-1)]
		v = vxFork(v)
		if vxBool("html" + k) {
			mark = strings.ReplaceAll(v, "1<2", "1&lt;2")
			if mark == "a&b" {
				mark = "a&amp;b"
			}
			text = map[string]string{"": "", "x": "x", "a&amp;b": "a&b", "&lt;": "<", "1&lt;2": "1<2", "&amp;lt;": "&lt;"}[mark]
			t.SetInnerHTML(mark)
		} else {
			text = v
			mark = map[string]string{"": "", "x": "x", "a&b": "a&amp;b", "&lt;": "&amp;lt;", "1<2": "1&lt;2", "&amp;lt;": "&amp;amp;lt;"}[v]
			t.SetTextContent(v)
		}
		if !vxThorough() && k == "2" {
			break
		}
	}
	vxAssert(t.GetTextContent() == text && t.GetInnerHTML() == mark, "both read as they were set")
	vxAssert(el.GetTextContent() == text && el.GetInnerHTML() == mark, "in the element too")
	vxReach("end")
}

// A section of character data is its text.
func vhCDATA() {
	set := "]>x <&;"
	s := vxByte("a", set) + vxByte("b", set) + vxByte("c", set)
	t := "k" + s + vxPick("post", "", "z", "]", "]]")
	vxAssume(!strings.Contains(t, "]]>"))
	d := newDOMParser().parse("<html><head></head><body><div><b>u</b><![CDATA["+t+"]]><i>v</i></div></body></html>", vURL)
	div := d.getElementsByTagName("div")[0]
	vxAssert(len(div.ChildNodes) == 3 && len(div.Children) == 2, "the section is one text")
	vxAssert(div.ChildNodes[1].GetTextContent() == t, "the text is all of it")
	h := d.Body.GetInnerHTML()
	d2 := newDOMParser().parse("<html><head></head><body>"+h+"</body></html>", vURL)
	vxAssert(len(d2.getElementsByTagName("div")[0].Children) == 2 && d2.Body.GetTextContent() == "u"+t+"v", "and comes back from the markup")
	vxReach("end")
}
