package readability

import "strings"

// C19: boilerplate beside the article is left out.

var vUnlikely = strings.Fields("-ad- ai2html banner breadcrumbs combx comment community cover-wrap disqus extra footer gdpr header legends menu related remark replies rss shoutbox sidebar skyscraper social sponsor supplemental ad-break agegate pagination pager popup yom-remote")
var vMaybe = strings.Fields("and article body column content main shadow")

// vfurnAt puts an element with these attributes beside or in an article of
// enough text.
func vfurnAt(where, tag, at, text string) string {
	a := vpar("first") + vpar("second") + vpar("third")
	el := "<" + tag + " data-k='v' " + at + ">" + text + "</" + tag + ">"
	switch where {
	case "before":
		return el + "<div>" + a + "</div>"
	case "after":
		return "<div>" + a + "</div>" + el
	case "beside":
		return "<div><div>" + a + "</div>" + el + "</div>"
	case "in":
		return "<div>" + vpar("zero") + el + a + "</div>"
	case "end":
		return "<div>" + a + el + "</div>"
	case "deep":
		return "<div>" + a + "<blockquote>" + vpar("quote") + el + "</blockquote></div>"
	case "li":
		return "<div>" + a + "<ol><li>" + vsent("item") + el + "</li></ol></div>"
	case "uli":
		return "<div>" + a + "<ul><li>" + vsent("item") + el + "</li><li>" + vsent("item") + "</li></ul></div>"
	case "dd":
		return "<div>" + a + "<dl><dt>k</dt><dd>" + vsent("item") + el + "</dd></dl></div>"
	case "figure":
		return "<div>" + a + "<figure><img src='/i.png'/><figcaption>" + vsent("item") + el + "</figcaption></figure></div>"
	case "table":
		return "<div>" + a + "<table><tr><th>k</th><td>" + vsent("cell") + el + "</td></tr></table></div>"
	case "code":
		return "<div>" + a + "<pre><code>" + vsent("cell") + el + "</code></pre></div>"
	}
	return ""
}

// Every unlikely word, in any case and company, as class or id.
func vhUnlikely() {
	k := vxInt("word", 0, len(vUnlikely)+3)
	var word string
	un := k < len(vUnlikely)
	if un {
		word = vUnlikely[k]
	} else {
		word = []string{"note", "ad", "coment", "head"}[k-len(vUnlikely)]
	}
	form := vxInt("form", 0, 5)
	ok := ""
	switch form {
	case 1:
		word = "x-" + strings.ToUpper(word)
	case 2:
		word = "my" + word + "box y"
	case 3, 4, 5:
		i := vxInt("maybe", 0, len(vMaybe)-1)
		ok = vMaybe[i]
	}
	attr := "class"
	if vxBool("id") {
		attr = "id"
	}
	at := attr + "='" + word + "'"
	switch form {
	case 3:
		at = attr + "='" + word + " " + ok + "'"
	case 4:
		at = "id='" + word + "' class='x" + strings.ToUpper(ok) + "y'"
	case 5:
		at = "class='" + word + "' id='" + ok + "'"
	}
	tag := vxPick("tag", "p", "div", "section")
	where := vxPick("where", "in", "end", "deep")
	res, root, err := vparse(vdoc("<title>T</title>", vfurnAt(where, tag, at, vsent("FURN"))), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "first") && vhas(res.TextContent, "third"), "the article stays")
	if un && ok == "" {
		vxAssert(!vhas(res.TextContent, "FURN") && vfind(root, "data-k", "v") == nil, "the unlikely element is left out")
		vxReach("out")
	} else {
		vxAssert(vhas(res.TextContent, "FURN"), "what may be content stays")
		vxReach("kept")
	}
}

// Where it stands, what it holds, and who is exempt.
func vhUnlikelyAt() {
	at := vxPick("at", "class='sidebar'", "id='comments'", "class='a Popup'", "role='navigation'", "role='menu'", "role='menubar'", "role='complementary'", "role='alert'", "role='alertdialog'", "role='dialog'", "role='main'", "role='note'", "class='content sidebar'")
	tag := vxPick("tag", "p", "div", "section", "nav", "table", "header", "a", "span", "ul", "form")
	where := vxPick("where", "before", "after", "beside", "in", "end", "deep", "li", "uli", "dd", "figure", "table", "code")
	text := vsent("FURN")
	switch tag {
	case "div", "section", "header", "nav":
		text = vpar("FURN") + "<div>" + vpar("FURN") + "</div>"
	case "ul":
		text = "<li>" + vsent("FURN") + "</li>"
	case "table":
		text = "<tr><th>x</th><td>" + vsent("FURN") + "</td></tr>"
	}
	thr := vthreshold()
	role := strings.Contains(at, "role")
	un := at != "role='main'" && at != "role='note'" && !strings.Contains(at, "content")
	if !role {
		thr = CharThreshold(1)
	}
	res, root, err := vparse(vdoc("<title>T</title>", vfurnAt(where, tag, at, text)), vURL, thr)
	vxAssert(err == nil && vhas(res.TextContent, "first") && vhas(res.TextContent, "third"), "the article stays")
	exempt := !role && (tag == "a" || where == "table" || where == "code")
	gone := !vhas(res.TextContent, "FURN") && vfind(root, "data-k", "v") == nil
	if un && !exempt {
		vxAssert(gone, "the unlikely element is left out")
		vxReach("out")
	} else {
		inside := where == "in" || where == "end" || where == "deep" || where == "li" || where == "uli" || where == "dd" || where == "figure" || where == "table" || where == "code"
		if inside && (tag == "p" || tag == "span" || tag == "section") {
			vxAssert(!gone, "what may be content stays")
			vxReach("kept")
		}
	}
}

// An unlikely container that holds the article itself does not hide it.
func vhUnlikelyAll() {
	k := vxInt("word", 0, len(vUnlikely)-1)
	attr := vxPick("attr", "class", "id")
	tag := vxPick("tag", "div", "section", "main", "article")
	n := vxInt("depth", 1, 2)
	body := vpar("first") + vpar("second") + vpar("third")
	for i := 0; i < n; i++ {
		body = "<" + tag + " " + attr + "='" + vUnlikely[k] + "'>" + body + "</" + tag + ">"
	}
	if vxBool("beside") {
		body += "<p>x</p>"
	}
	res, _, err := vparse(vdoc("<title>T</title>", body), vURL, CharThreshold(100))
	vxAssert(err == nil, "there is an article")
	vxAssert(vhas(res.TextContent, "first") && vhas(res.TextContent, "second") && vhas(res.TextContent, "third"), "the article is found")
	vxReach("end")
}

// Footers, asides, share widgets and blocks of links.
func vhFurniture() {
	kind := vxInt("kind", 0, 9)
	where := vxPick("where", "in", "end", "deep", "li", "uli", "dd", "figure")
	tag, at, text, out := "p", "", vsent("FURN"), true
	switch kind {
	case 0:
		tag = "footer"
	case 1:
		tag, text = "aside", vpar("FURN")
	case 2:
		at = "class='" + vxPick("share", "share", "x-share", "share_bar", "my_share", "SHARE", "sharedaddy", "a share b") + "'"
	case 3:
		at = "id='" + vxPick("share", "share", "x-share", "share_bar", "my_share", "SHARE", "sharedaddy", "a share b") + "'"
	case 4:
		at, out = "class='"+vxPick("noshare", "shared", "shareable", "ashare", "sharing", "sharedaddies")+"'", false
	case 5: // long enough to be more than a widget
		at, out = "class='share'", false
		text = "FURN " + strings.Repeat("x", 495)
	case 6:
		at = "class='share'"
		text = "FURN " + strings.Repeat("x", 494)
	case 7:
		tag, text = "div", "<p><a href='/a'>FURN one</a></p><p><a href='/b'>FURN two</a></p><p><a href='/c'>FURN three</a></p>"
	case 8:
		tag, text, out = "div", vpar("FURN")+"<p>and <a href='/a'>one</a></p>", false
	case 9:
		at, text = "class='share'", "FURN "+strings.Repeat("é", 494)
	}
	if tag == "div" && (where == "li" || where == "uli" || where == "dd" || where == "figure") {
		where = "end"
	}
	res, root, err := vparse(vdoc("<title>T</title>", vfurnAt(where, tag, at, text)), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "first") && vhas(res.TextContent, "third"), "the article stays")
	if out {
		vxAssert(!vhas(res.TextContent, "FURN") && vfind(root, "data-k", "v") == nil, "furniture is left out")
		vxReach("out")
	} else {
		vxAssert(vhas(res.TextContent, "FURN"), "content is not")
		vxReach("kept")
	}
}

// The heading that repeats the title.
func vhTitleHeading() {
	words := strings.Fields("Lion Bear Wolf Deer Hare Toad Newt Swan")
	title := strings.Join(words[:5], " ")
	same, other := vxInt("same", 0, 5), vxInt("other", 0, 3)
	hw := append(append([]string{}, words[:same]...), words[5:5+other]...)
	vxAssume(len(hw) > 0)
	sep := vxPick("sep", " ", " - ", ", ", "! ")
	h := strings.Join(hw, sep)
	cut := false
	switch vxPick("form", "plain", "upper", "mixed", "markup", "cut", "long") {
	case "cut", "long":
		// other words, though they begin like those of the title
		cut = true
		for i := range hw {
			if vxBool("short") {
				hw[i] = hw[i][:3]
			} else {
				hw[i] += "y"
			}
		}
		h = strings.Join(hw, sep)
	case "upper":
		h = strings.ToUpper(h)
	case "mixed":
		h = " \n" + strings.ToLower(h) + "? "
	case "markup":
		h = "<a href='/x'>" + h + "</a>"
	}
	tag := vxPick("tag", "h1", "h2", "h3")
	where := vxPick("where", "start", "mid", "apart")
	hd := "<" + tag + " data-k='v'>" + h + "</" + tag + ">"
	body := "<article>" + hd + vpar("first") + vpar("second") + "</article>"
	if where == "mid" {
		body = "<article>" + vpar("first") + hd + vpar("second") + "</article>"
	} else if where == "apart" {
		body = "<article><header>" + hd + "<p>Lead words of this page, which are many.</p></header>" + vpar("first") + vpar("second") + "</article>"
	}
	_, root, err := vparse(vdoc("<title>"+title+"</title>", body), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	// the share of the heading's characters that is not from the title
	dup := tag != "h3" && !cut && (other == 0 || 4*(5*other-1) < 5*len(hw)-1)
	vxAssert((vfind(root, "data-k", "v") == nil) == dup, "a heading that repeats the title, and no other, is left out")
	if dup {
		vxReach("dup")
	} else {
		vxReach("kept")
	}
}

// An unlikely class or id of the root or the body changes nothing.
func vhUnlikelyRoot() {
	k := vxInt("word", 0, len(vUnlikely)-1)
	at := " " + vxPick("attr", "class", "id") + "='" + vUnlikely[k] + "'"
	if vxBool("role") {
		at = " role='" + vxPick("rolename", "menu", "dialog", "navigation", "complementary") + "'"
	}
	furn := vxPick("furn", "<div class='menu'>"+vpar("FURN")+"</div>", "<div role='dialog'>"+vpar("FURN")+"</div>", "<p class='a popup'>"+vsent("FURN")+"</p>")
	art := "<div>" + vpar("first") + vpar("second") + vpar("third") + "</div>"
	if vxBool("in") {
		art = "<div>" + vpar("first") + furn + vpar("second") + vpar("third") + "</div>"
	} else {
		art = furn + art
	}
	h, b := at, ""
	switch vxFork(vxPick("on", "html", "body", "both")) {
	case "body":
		h, b = "", at
	case "both":
		b = at
	}
	thr := CharThreshold(1)
	if vxBool("more") {
		thr = CharThreshold(200)
	}
	res, _, err := vparse("<html"+h+"><head><title>T</title></head><body"+b+">"+art+"</body></html>", vURL, thr)
	vxAssert(err == nil && vhas(res.TextContent, "first") && vhas(res.TextContent, "third"), "the article is found")
	vxAssert(!vhas(res.TextContent, "FURN"), "furniture is left out")
	vxReach("end")
}

// Share widgets in every part of the article, one or several in a row.
func vhShares() {
	widget := func(n string) string {
		el := vxFork(vxPick(n, "", "<p class='share'>FURN</p>", "<div id='x-share'><a href='/f'>FURN</a> <a href='/t'>FURN</a></div>", "<ul class='share_bar'><li>FURN</li><li>FURN</li></ul>", "<p class='share'>FURN</p><p id='share'>FURN</p>", "<span class='share'>FURN <b class='share'>FURN</b></span><p class='sharedaddy'>FURN</p><p class='share'>FURN</p>"))
		return el
	}
	s1, s2, s3 := widget("s1"), widget("s2"), widget("s3")
	one := "<div>" + vpar("first") + s1 + vpar("second") + "</div>"
	two := "<div>" + vpar("third") + vpar("fourth") + s2 + "</div>"
	three := "<section>" + s3 + vpar("fifth") + "</section>"
	body := one + two + three
	if vxBool("wrapped") {
		body = "<div>" + body + "</div><p>z</p>"
	}
	res, _, err := vparse(vdoc("<title>T</title>", body), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxObserve("h", res.HTMLContent)
	vxAssert(vordered(res.TextContent, "first", "second", "third", "fourth", "fifth"), "the parts of the article are there")
	vxAssert(!vhas(res.TextContent, "FURN"), "no share widget is")
	vxReach("end")
}
