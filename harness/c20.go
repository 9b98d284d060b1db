package readability

import "strings"

// C20: the article's structure is normalised and its content kept.

// vtextNode gives the first text node with the word.
func vtextNode(n *Node, word string) *Node {
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == textNode && strings.Contains(c.GetTextContent(), word) {
			return c
		}
		if x := vtextNode(c, word); x != nil {
			return x
		}
	}
	return nil
}

func vup(n *Node, tag string) *Node {
	for n != nil && n.LocalName != tag {
		n = n.ParentNode
	}
	return n
}

func vordered(text string, words ...string) bool {
	for _, w := range words {
		i := strings.Index(text, w)
		if i < 0 {
			return false
		}
		text = text[i+len(w):]
	}
	return true
}

// vchain: two line breaks with nothing but white space between them.
func vchain(n *Node) bool {
	bad, br := false, false
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		switch {
		case c.NodeType == elementNode && c.LocalName == "br":
			bad = bad || br
			br = true
		case c.NodeType == elementNode || strings.TrimSpace(c.GetTextContent()) != "":
			br = false
		}
		bad = bad || vchain(c)
	}
	return bad
}

// vshape checks what holds for every article.
func vshape(root *Node) {
	vxAssert(len(root.Children) == 1, "the article is in one container")
	page := root.Children[0]
	vxAssert(page.LocalName == "div" && page.GetAttribute("id") == "readability-page-1", "which is the page")
	vxAssert(vcount(root, "h1") == 0, "no h1 is left")
	vxAssert(vcount(root, "font") == 0, "no font is left")
	k := 0
	vw(root, func(n *Node) {
		if n.NodeType != elementNode {
			return
		}
		if n.GetAttribute("id") == "readability-page-1" {
			k++
		}
		switch n.LocalName {
		case "p":
			if strings.TrimSpace(n.GetTextContent()) == "" {
				vxAssert(vcount(n, "img")+vcount(n, "iframe")+vcount(n, "embed")+vcount(n, "object") > 0, "no paragraph is empty")
			}
		case "div", "section":
			if n != page && n != root && len(n.Children) == 1 && (n.Children[0].LocalName == "div" || n.Children[0].LocalName == "section") {
				loose := false
				for _, c := range n.ChildNodes {
					loose = loose || c.NodeType == textNode && strings.TrimSpace(c.GetTextContent()) != ""
				}
				vxAssert(loose, "no container holds just a container")
			}
		}
	})
	vxAssert(k == 1, "there is one page")
}

var vgaps = []string{"<br/>", "<br><br/>", "<br> <br>", "<br/>\n<br>\t<br/>", "<br/><br/><br/><br/>", "<BR clear='all'/> \n <br/> <br/>", "<br/>\u00a0<br/>"}

func vpiece(name, w string) string {
	switch vxPick(name, "text", "b", "span", "a", "img") {
	case "b":
		return "<b>" + vsent(w) + "</b>"
	case "span":
		return "And <span>" + vsent(w) + "</span> and so on"
	case "a":
		return vsent(w) + " See <a href='/x'>this</a>."
	case "img":
		return "<img src='/" + w + ".png'/>" + vsent(w)
	}
	return vsent(w)
}

// Chains of line breaks are paragraphs, single ones stay.
func vhBreaks() {
	tag := vxPick("tag", "div", "p", "section", "blockquote", "article", "td", "main")
	g1, g2 := vxInt("g1", 0, len(vgaps)-1), vxInt("g2", 0, len(vgaps)-1)
	lead, tail := "", ""
	switch vxInt("edge", 0, 6) {
	case 5:
		tail = "<ul><li>" + vsent("list") + "</li></ul>"
	case 6:
		lead, tail = "<br/> <br/>", "<blockquote>"+vsent("quote")+"</blockquote>"
	case 4:
		lead = "<br/><br/>"
	case 1:
		lead = "<br/>"
	case 2:
		tail = " <br/>"
	case 3:
		lead, tail = "<br/> <br/>", " <br/><br/> "
	}
	p1, p3 := vsent("UNO"), vsent("TRE")
	if vxThorough() {
		p1 = vpiece("p1", "UNO")
	}
	in := lead + p1 + vgaps[g1] + vpiece("p2", "DUE") + vgaps[g2] + p3 + tail
	if tag == "td" {
		in = "<table><tr><th>k</th><td>" + in + "</td></tr></table>"
	} else {
		in = "<" + tag + ">" + in + "</" + tag + ">"
	}
	res, root, err := vparse(vdoc("<title>T</title>", "<div>"+vpar("first")+in+vpar("second")+"</div>"), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxAssert(vordered(res.TextContent, "first", "UNO", "DUE", "TRE", "second"), "the text is kept, in order")
	// a non-breaking space is text in the source but blank in the article
	vxAssert(!vchain(root) || vgaps[g1] == "<br/>\u00a0<br/>" || vgaps[g2] == "<br/>\u00a0<br/>", "no chain of line breaks is left")
	u, d, t := vtextNode(root, "UNO"), vtextNode(root, "DUE"), vtextNode(root, "TRE")
	pu, pd, pt := vup(u, "p"), vup(d, "p"), vup(t, "p")
	if g1 == 0 {
		vxAssert(pu == pd, "a single line break does not part")
		vxReach("single")
	} else if g1 != 6 {
		vxAssert(pd != nil && pu != pd, "a chain of line breaks parts paragraphs")
		vxAssert(pd.FirstChild().LocalName != "br", "and is gone")
		vxReach("chain")
	}
	if g2 == 0 {
		vxAssert(pd == pt, "a single line break does not part")
	} else if g2 != 6 {
		vxAssert(pt != nil && pd != pt, "a chain of line breaks parts paragraphs")
		vxAssert(pt.FirstChild().LocalName != "br", "and is gone")
	}
	k := 0
	for _, w := range []string{"UNO", "DUE", "TRE"} {
		if strings.Contains(in, w+".png") {
			k++
			vxAssert(strings.Contains(res.HTMLContent, w+".png"), "images are kept")
		}
	}
	vxAssert(vcount(root, "img") == k, "once")
	vw(root, func(n *Node) {
		vxAssert(n.LocalName != "p" || vup(n.ParentNode, "p") == nil, "no paragraph is in another")
	})
	vshape(root)
}

// Headings, fonts, empty paragraphs and line breaks before paragraphs.
func vhNormal() {
	item := vxPick("item", "<h1>HEAD of a part</h1>", "<h1><b>HEAD</b> of a <i>part</i></h1>", "<p><font color='red'>HEAD words</font> of a sentence, or two.</p>", "<font><p>"+vsent("HEAD")+"</p></font>", "<p></p><p> \n </p><p><span></span></p><p>"+vsent("HEAD")+"</p>", "<p><img src='/i.png'/></p><p>"+vsent("HEAD")+"</p>", "<br/><p>"+vsent("HEAD")+"</p><br/> <p>"+vsent("x")+"</p>", "<div><div><div><p>"+vsent("HEAD")+"</p><p>more</p></div></div></div>", "<section><div><section><p>"+vsent("HEAD")+"</p><p>more</p></section></div></section>", "<div>"+vsent("HEAD")+"</div>", "<div><p>"+vsent("HEAD")+"</p></div>", "<div>"+vsent("HEAD")+"<p>more</p>tail, with commas, of the text</div>", "<div></div><section><br/><hr/></section><p>"+vsent("HEAD")+"</p>", "<center><font>"+vsent("HEAD")+"</font></center>")
	where := vxPick("where", "top", "div", "section", "blockquote", "li", "td")
	in := item
	switch where {
	case "div", "section", "blockquote":
		in = "<" + where + ">" + vpar("around") + item + "</" + where + ">"
	case "li":
		in = "<ol><li>" + vsent("around") + item + "</li></ol>"
	case "td":
		in = "<table><tr><th>k</th><td>" + item + "</td></tr></table>"
	}
	res, root, err := vparse(vdoc("<title>T</title>", "<div>"+vpar("first")+in+vpar("second")+"</div>"), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxAssert(vordered(res.TextContent, "first", "HEAD", "second"), "the text is kept, in order")
	if strings.Contains(item, "<h1") {
		vxAssert(vcount(root, "h2") == 1 && vup(vtextNode(root, "HEAD"), "h2") != nil, "h1 is h2")
	}
	if strings.Contains(item, "<font") {
		vxAssert(vcount(root, "span") == 1, "font is span")
	}
	if strings.Contains(item, "<img") {
		vxAssert(vcount(root, "img") == 1, "an image is not an empty paragraph")
	}
	vw(root, func(n *Node) {
		if n.NodeType == elementNode && n.LocalName == "br" {
			x := n.NextSibling
			for x != nil && x.NodeType == textNode && strings.TrimSpace(x.GetTextContent()) == "" {
				x = x.NextSibling
			}
			vxAssert(x == nil || x.LocalName != "p", "no line break before a paragraph")
		}
	})
	vshape(root)
	vxReach("end")
}

// Tables of one cell.
func vhSingleCell() {
	body := vxPick("tbody", "", "tbody", "both")
	cell := vxPick("cell", vsent("CELL"), "<b>"+vsent("CELL")+"</b> and", vpar("CELL"), vpar("CELL")+"<ul><li>"+vsent("item")+"</li></ul>", "<img src='/i.png'/>"+vsent("CELL"), "<div>"+vpar("CELL")+vpar("more")+"</div>")
	n := vxPick("n", "one", "two", "rows", "th", "text")
	row := "<tr><td data-k='v'>" + cell + "</td></tr>"
	switch n {
	case "two":
		row = "<tr><td data-k='v'>" + cell + "</td><td>" + vsent("other") + "</td></tr>"
	case "rows":
		row += "<tr><td>" + vsent("other") + "</td></tr>"
	case "th":
		row = "<tr><th data-k='v'>" + cell + "</th></tr>"
	case "text":
		row = "<tr>\n <td data-k='v'>" + cell + "</td> </tr>\n"
	}
	tab := row
	switch body {
	case "tbody":
		tab = "<tbody>" + row + "</tbody>"
	case "both":
		tab = "\n<tbody> " + row + " </tbody>"
	}
	tab = "<table>" + tab + "</table>"
	where := vxPick("where", "top", "div", "blockquote")
	if where != "top" {
		tab = "<" + where + ">" + vpar("around") + tab + "</" + where + ">"
	}
	res, root, err := vparse(vdoc("<title>T</title>", "<div>"+vpar("first")+tab+vpar("second")+"</div>"), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxAssert(vordered(res.TextContent, "first", "CELL", "second"), "the text is kept, in order")
	c := vfind(root, "data-k", "v")
	if n == "one" || n == "text" {
		vxAssert(vcount(root, "table")+vcount(root, "td")+vcount(root, "tr") == 0, "a table of one cell is no table")
		vxReach("single")
	} else {
		vxAssert(vcount(root, "table") == 1 && c != nil, "other tables stay")
		vxReach("table")
	}
	if n == "one" || n == "text" {
		t := vtextNode(root, "CELL")
		if !strings.Contains(cell, "<p") {
			vxAssert(vup(t, "p") != nil, "the text of a single cell is a paragraph")
		}
	}
	if strings.Contains(cell, "<img") {
		vxAssert(vcount(root, "img") == 1, "with the image in it")
	}
	vshape(root)
}

// Nested containers are flattened to the innermost, which gets their attributes.
func vhNested() {
	t1, t2, t3 := vxPick("t1", "div", "section"), vxPick("t2", "div", "section", "article"), vxPick("t3", "div", "section")
	side := func(n, w string) string {
		return map[string]string{"": "", "sp": " \n ", "text": w + " text, of some length", "img": "<img src='/" + w + ".png'/>", "b": "<b>" + w + " text</b>", "p": "<p>" + w + " text, of some length, here.</p>"}[vxFork(vxPick(n, "", "sp", "text", "img", "b", "p"))]
	}
	s1, s2 := side("s1", "BEFORE"), side("s2", "AFTER")
	at := vxFork(vxPick("at", "outer", "middle"))
	o1, o2, m1, m2 := s1, s2, "", ""
	if at == "middle" {
		o1, o2, m1, m2 = "", "", s1, s2
	}
	bare := strings.TrimSpace(s1+s2) == ""
	inner := "<" + t3 + " data-c='3' data-x='i'>" + vpar("NEST") + vpar("more") + "</" + t3 + ">"
	in := "<" + t1 + " data-a='1' data-x='o'>" + o1 + "<" + t2 + " data-b='2'>" + m1 + inner + m2 + "</" + t2 + ">" + o2 + "</" + t1 + ">"
	res, root, err := vparse(vdoc("<title>T</title>", "<div>"+vpar("first")+in+vpar("second")+"</div>"), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	words := []string{"first"}
	if strings.Contains(s1, "BEFORE") {
		words = append(words, "BEFORE")
	}
	words = append(words, "NEST", "more")
	if strings.Contains(s2, "AFTER") {
		words = append(words, "AFTER")
	}
	vxAssert(vordered(res.HTMLContent, append(words, "second")...), "the text and the images are kept, in order")
	c := vfind(root, "data-c", "3")
	vxAssert(c != nil, "the innermost container stays")
	if bare && t2 != "article" {
		vxAssert(c.GetAttribute("data-a") == "1" && c.GetAttribute("data-b") == "2" && c.GetAttribute("data-x") == "o", "with the attributes of those around it")
		vxReach("flat")
	} else {
		vxReach("kept")
	}
	vshape(root)
}

// Text that stands in a container, with its inline elements, is one paragraph.
func vhInline() {
	tag := vxFork(vxPick("tag", "abbr", "b", "bdo", "br", "cite", "code", "data", "dfn", "em", "i", "kbd", "label", "mark", "meter", "output", "progress", "q", "ruby", "samp", "small", "span", "strong", "sub", "sup", "time", "var", "wbr", "a", "del", "ins", "del b", "ins a", "font", "img", "math"))
	open, end := "", ""
	for _, t := range strings.Fields(tag) {
		open += "<" + t
		if t == "a" {
			open += " href='/x'"
		}
		if t == "img" {
			open += " src='/i.png'"
		}
		open += ">"
		end = "</" + t + ">" + end
	}
	rest := " of a text that is long enough"
	mid := open + "middle" + end + rest
	switch tag {
	case "br", "wbr", "img":
		mid = open + "middle" + rest
	}
	text := "Before the words, " + mid + " and after them."
	switch vxPick("first", "text", "elem", "only", "comment") {
	case "elem":
		text = mid + " and after them, with text."
	case "only":
		text = mid
	case "comment":
		text = "Before the <!-- x -->words, " + mid + " after."
	}
	block := vxFork(vxPick("block", "<p>Block.</p>", "<blockquote>Block.</blockquote>", "<h3>Block.</h3>", "<ul><li>Block.</li></ul>", "<div>Block.</div>"))
	at := vxInt("at", 0, 2)
	in := text
	if at != 1 {
		in = block + in
	}
	if at != 0 {
		in += block
	}
	body := "<div>" + vpar("One") + vpar("Two") + vpar("Three") + "<div>" + in + "</div>" + vpar("Last") + "</div>"
	res, root, err := vparse(vdoc("", body), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "Last"), "the article stays")
	vxObserve("h", res.HTMLContent)
	m := vtextNode(root, "middle")
	vxAssert(m != nil, "the text stays")
	p := vup(m, "p")
	vxAssert(p != nil, "the text is in a paragraph")
	got := p.GetTextContent()
	vxAssert(!strings.Contains(got, "Block"), "of its own")
	for _, w := range []string{"Before", "words", "after", "them"} {
		vxAssert(!strings.Contains(text, w) || strings.Contains(got, w), "and all of it")
	}
	vxReach("end")
}
