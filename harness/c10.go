package readability

import "strings"

// C10: the article is an ordered part of the page, nothing is invented or
// repeated, and running text is kept whole.

// vtok names a word of the page; no other word holds a Q.
func vtok(i, j int) string { return "Q" + string(rune('0'+i)) + string(rune('0'+j)) }

// vstory is a sentence with words of its own.
func vstory(i, j int) string {
	return "The " + vtok(i, j) + " words, with " + vtok(i, j+1) + " of them marked, go on and on " + vtok(i, j+2) + "."
}

// vblock gives a block of content and the sentences of running text in it.
func vblock(kind string, i int) (string, []string) {
	a, b := vstory(i, 1), vstory(i, 4)
	switch kind {
	case "p":
		return "<p>" + a + "</p>", []string{a}
	case "long": // carries the container's score
		a += " It has one, two, three, four, five, six, seven, eight, nine, ten commas or so, and many a word that makes it the long main paragraph of this page, which nobody reads to the end. " + b
		return "<p>" + a + "</p>", []string{a}
	case "inline":
		in := "The <b>" + vtok(i, 1) + "</b> words, with <a href='/x'>" + vtok(i, 2) + "</a> of <i>them <u>marked</u></i>, go on<span> and</span> on <code>" + vtok(i, 3) + "</code>."
		return "<p>" + in + " " + b + "</p>", []string{a + " " + b}
	case "br":
		return "<p>" + a + "<br/>" + b + "</p>", []string{a, b}
	case "brbr":
		return "<div>" + a + "<br/> <br/>" + b + "</div>", []string{a, b}
	case "divtext":
		return "<div>" + a + " <em>" + b + "</em></div>", []string{a + " " + b}
	case "divps":
		return "<div><p>" + a + "</p><div><p>" + b + "</p></div></div>", []string{a, b}
	case "h2":
		return "<h2>Part " + vtok(i, 1) + "</h2><p>" + b + "</p>", []string{"Part " + vtok(i, 1), b}
	case "ul":
		return "<ul><li>" + a + "</li><li><p>" + b + "</p></li></ul>", []string{a, b}
	case "ol":
		return "<ol><li>" + a + "</li><li>" + b + "</li></ol>", []string{a, b}
	case "quote":
		return "<blockquote><p>" + a + "</p>" + b + "</blockquote>", []string{a, b}
	case "pre":
		return "<pre>" + a + "\n" + b + "</pre>", []string{a, b}
	case "dl":
		return "<dl><dt>" + vtok(i, 1) + "</dt><dd>" + b + "</dd></dl>", []string{b}
	case "figure":
		return "<figure><img src='/i.png'/><figcaption>" + a + "</figcaption></figure>", []string{a}
	case "table":
		return "<table><tr><th>" + vtok(i, 1) + "</th><td>" + b + "</td></tr></table>", []string{b}
	case "cell":
		return "<table><tr><td>" + a + "</td></tr></table>", []string{a}
	case "section":
		return "<section><h3>Part " + vtok(i, 1) + "</h3><p>" + b + "</p></section>", []string{"Part " + vtok(i, 1), b}
	case "font":
		return "<font>" + a + "</font>", []string{a}
	case "short":
		return "<p>Yes " + vtok(i, 1) + "</p>", []string{"Yes " + vtok(i, 1)}
	// what need not be kept
	case "aside":
		return "<aside><p>" + a + "</p></aside>", nil
	case "comment":
		return "<div class='comment'><p>" + a + "</p><p>" + b + "</p></div>", nil
	case "links":
		return "<div><p><a href='/a'>" + a + "</a></p><p><a href='/b'>" + b + "</a></p></div>", nil
	case "hidden":
		return "<div style='display:none'><p>" + a + "</p></div>", nil
	case "noscript":
		return "<noscript><p>" + a + "</p></noscript>", nil
	case "byline":
		return "<p class='byline'>By " + vtok(i, 1) + "</p>", nil
	case "form":
		return "<form><p>" + a + "</p><input name='x'/><input name='y'/></form>", nil
	case "share":
		return "<p class='share'>" + a + "</p>", nil
	case "loose":
		return a, nil
	case "nest":
		return "<div class='x'><div><div><p>" + a + "</p></div>" + b + "</div></div>", []string{a, b}
	}
	return "", nil
}

const vContent = "p inline br brbr divtext divps h2 ul ol quote pre dl figure table cell section font short nest"
const vOther = "aside comment links hidden noscript byline form share loose"

// vtokens checks that the marked words of a text are in the page's order and
// not repeated.
func vtokens(text string) bool {
	last := 0
	for {
		k := strings.IndexByte(text, 'Q')
		if k < 0 || k+3 > len(text) {
			return k < 0
		}
		n := int(text[k+1]-'0')*10 + int(text[k+2]-'0')
		if n <= last {
			return false
		}
		last = n
		text = text[k+3:]
	}
}

func vpage(shape string, bs []string) string {
	one := strings.Join(bs, " ")
	switch shape {
	case "body":
		return one
	case "div":
		return "<div>" + one + "</div>"
	case "article":
		return "<main><article>" + one + "</article></main>"
	case "nested":
		return "<div id='a'><div class='b'><section>" + one + "</section></div></div>"
	case "split":
		return "<div>" + strings.Join(bs[:2], "") + "</div><div>" + strings.Join(bs[2:], "") + "</div>"
	case "each":
		return "<div><div>" + strings.Join(bs, "</div><div>") + "</div></div>"
	}
	return ""
}

// Any four blocks in any container: order and no repetition.
func vhOrder() {
	kinds := strings.Fields(vContent + " " + vOther)
	var bs []string
	b1, _ := vblock(kinds[vxInt("b1", 0, len(kinds)-1)], 1)
	b2, _ := vblock(kinds[vxInt("b2", 0, len(kinds)-1)], 2)
	bs = append(bs, b1, b2, "<p>"+vstory(3, 1)+"</p>")
	if vxThorough() {
		b4, _ := vblock(kinds[vxInt("b4", 0, len(kinds)-1)], 4)
		bs = append(bs, b4)
	}
	bs = append(bs, "<p>"+vstory(5, 1)+" "+vstory(5, 4)+"</p>")
	shape := vxPick("shape", "body", "div", "article", "nested", "split", "each")
	res, _, err := vparse(vdoc("<title>T</title>", vpage(shape, bs)), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxAssert(vtokens(res.TextContent), "the words of the article are in the order of the page, none twice")
	vxAssert(vtokens(strings.ReplaceAll(res.HTMLContent, "&quot;", "")), "so are those of its HTML")
	vxReach("end")
}

// Blocks of content in one container: every paragraph is kept whole.
func vhWhole() {
	kinds := strings.Fields(vContent)
	var bs, want []string
	add := func(kind string, i int) {
		b, w := vblock(kind, i)
		bs, want = append(bs, b), append(want, w...)
	}
	add("long", 1)
	add(kinds[vxInt("b2", 0, len(kinds)-1)], 2)
	add(kinds[vxInt("b3", 0, len(kinds)-1)], 3)
	if vxThorough() {
		add(kinds[vxInt("b4", 0, len(kinds)-1)], 4)
	}
	add("long", 5)
	shape := vxPick("shape", "div", "article", "nested")
	res, _, err := vparse(vdoc("<title>T</title>", vpage(shape, bs)), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	text := vspace(res.TextContent)
	for _, w := range want {
		vxAssert(strings.Contains(text, w), "every sentence is kept whole")
	}
	vxAssert(vtokens(text), "in order")
	vxReach("end")
}

// Text right in a container, between blocks of every kind.
func vhLoose() {
	block := func(n string, i int) string {
		w := "Part " + vtok(i, 1) + " of it, here"
		switch k := vxFork(vxPick(n, "h2", "h3", "h4", "h5", "h6", "p", "blockquote", "section", "article", "header", "pre", "div", "main", "ul", "ol", "dl", "table", "figure", "hr", "br")); k {
		case "ul", "ol":
			return "<" + k + "><li>" + w + "</li></" + k + ">"
		case "dl":
			return "<dl><dt>t</dt><dd>" + w + "</dd></dl>"
		case "table":
			return "<table><tr><th>" + w + "</th><td>x</td></tr></table>"
		case "figure":
			return "<figure><img src='/i.png'/><figcaption>" + w + "</figcaption></figure>"
		case "hr", "br":
			return "<" + k + "/>"
		default:
			return "<" + k + ">" + w + "</" + k + ">"
		}
	}
	loose := func(n string, i int) (string, string) {
		w := "Words " + vtok(i, 1) + " of the text, right in " + vtok(i, 2) + " it"
		kinds := []string{"", "text", "space", "inline", "mixed"}
		if n == "l3" && !vxThorough() {
			kinds = kinds[:3]
		}
		switch vxPick(n, kinds...) {
		case "text":
			return w, w
		case "inline":
			return "<b>" + w + "</b>", w
		case "mixed":
			return " Words " + vtok(i, 1) + " of the <i>text</i>, <a href='/x'>right</a> in " + vtok(i, 2) + " it ", w
		case "space":
			return " \n", ""
		}
		return "", ""
	}
	l1, w1 := loose("l1", 2)
	l2, w2 := loose("l2", 4)
	l3, w3 := loose("l3", 6)
	long1, _ := vblock("long", 1)
	long2, _ := vblock("long", 7)
	in := l1 + block("b1", 3) + l2
	if vxThorough() {
		in += block("b2", 5)
	} else {
		in += "<p>" + vstory(5, 1) + "</p>"
	}
	in += l3
	if vxBool("own") {
		in = "<div>" + in + "</div>"
	}
	res, _, err := vparse(vdoc("<title>T</title>", "<div>"+long1+in+long2+"</div>"), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	text := vspace(res.TextContent)
	vxAssert(vtokens(text), "the words are in the order of the page, none twice")
	for _, w := range []string{w1, w2, w3} {
		vxAssert(strings.Contains(text, w), "text right in a container is kept whole")
	}
	vxReach("end")
}
