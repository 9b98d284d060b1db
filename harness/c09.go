package readability

import "strings"

// C09: hidden content never reaches the article; visible content is not
// dropped as hidden.

// vplace puts an element with these attributes and the word at a place.
func vplace(where, at, word string) string {
	a, b := vpar("first"), vpar("second")
	in := ""
	switch where {
	case "p", "div", "section", "blockquote", "pre", "h2", "h3", "header", "main", "center", "address":
		in = "<" + where + at + ">" + vsent(word) + "</" + where + ">"
	case "divp":
		in = "<div><p" + at + ">" + vsent(word) + "</p></div>"
	case "divdiv":
		in = "<div><div" + at + ">" + vpar(word) + "</div></div>"
	case "deep":
		in = "<div" + at + "><div><ul><li>" + vsent(word) + "</li></ul>" + vpar(word+"x") + "</div></div>"
	case "span", "b", "em", "a", "font", "code":
		in = "<p>" + vsent("inl") + "<" + where + at + "> " + word + " </" + where + ">" + vsent("rest") + "</p>"
	case "li":
		in = "<ul><li>" + vsent("item") + "</li><li" + at + ">" + vsent(word) + "</li></ul>"
	case "ul":
		in = "<ul" + at + "><li>" + vsent("item"+word) + "</li><li>" + vsent(word) + "</li></ul>"
	case "td":
		in = "<table><caption>tab</caption><tr><th>k</th><td>" + vsent("cell") + "</td><td" + at + ">" + vsent(word) + "</td></tr></table>"
	case "table":
		in = "<table" + at + "><caption>tab</caption><tr><th>k</th><td>" + vsent(word) + "</td></tr></table>"
	case "figure":
		in = "<figure" + at + "><img src='/i.png'/><figcaption>" + vsent(word) + "</figcaption></figure>"
	case "bare":
		in = "<div>" + vsent("loose") + "<div" + at + ">" + vsent(word) + "</div>" + vsent("text") + "</div>"
	case "br":
		in = "<div>" + vsent("line") + "<br/><br/><span" + at + ">" + vsent(word) + "</span><br/><br/>" + vsent("next") + "</div>"
	case "first":
		return "<article><div" + at + ">" + vpar(word) + "</div>" + a + b + "</article>"
	case "last":
		return "<article>" + a + b + "<p" + at + ">" + vsent(word) + "</p></article>"
	case "before":
		return "<div" + at + ">" + vpar(word) + vpar(word+"x") + "</div><div>" + a + b + "</div>"
	case "after":
		return "<div>" + a + b + "</div><p" + at + ">" + vsent(word) + "</p>"
	case "sib":
		return "<div><div>" + a + b + "</div><div" + at + ">" + vpar(word) + vpar(word+"x") + "</div></div>"
	case "big":
		// longer than the article itself
		return "<div" + at + ">" + vpar(word) + vpar(word) + vpar(word) + vpar(word) + vpar(word) + "</div><div>" + a + b + "</div>"
	}
	return "<article>" + a + in + b + "</article>"
}

func vnoword(res *Result, root *Node, word, mark string) {
	vxAssert(!vhas(res.TextContent, word), "hidden text is not in the text")
	vxAssert(!vhas(res.HTMLContent, word), "hidden text is not in the HTML")
	vxAssert(!vhas(res.Excerpt, word) && !vhas(res.Byline, word), "hidden text is not in the metadata")
	vxAssert(vfind(root, "data-k", mark) == nil, "the hidden element is not in the article")
}

const vplaces = "p div section blockquote pre h2 h3 header main center address divp divdiv deep span b em a font code li ul td table figure bare br first last before after sib big"

// Every form of hiding in every place, for several thresholds.
func vhHidden() {
	form := vxPick("form", "style='display:none'", "style='visibility:hidden'", "hidden='hidden'", "hidden=''", "aria-hidden='true'", "aria-modal='true' role='dialog'", "style='display: none !important'", "style='color:red; display:none; margin:0'", "style='DISPLAY:None'", "aria-hidden='true' class='x'", "class='content' hidden='x'", "aria-hidden='true' class='image'", "aria-hidden='true' class='fallback image'", "id='article' style='visibility: hidden'")
	pl := strings.Fields(vplaces)
	where := pl[vxInt("where", 0, len(pl)-1)]
	thr := vxInt("thr", 0, 2)
	opts := []Option{CharThreshold([]int{1, 260, 100000}[thr])}
	src := vdoc("<title>T</title>", vplace(where, " data-k='v' "+form, "SECRET"))
	res, root, err := vparse(src, vURL, opts...)
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	vnoword(res, root, "SECRET", "v")
	vxAssert(vhas(res.TextContent, "first") && vhas(res.TextContent, "second"), "the visible paragraphs stay")
	vxReach("end")
}

// The style attribute with free white space, case and neighbours.
func vhHiddenStyle() {
	ws := " \t\n"
	prop := vxPick("prop", "display", "Display", "visibility", "VISIBILITY", "opacity", "x-display", "displays")
	val := vxPick("val", "none", "NONE", "hidden", "Hidden", "block", "visible", "nonexistent")
	bang := vxPick("bang", "", "!important", " ! important", " !IMPORTANT")
	before := vxPick("before", "", "color:red;", ";", ";;", "a;", "b:c:d;", ":;", "background:url(x);")
	after := vxPick("after", "", ";", ";color:red", ";;x", ";:")
	s1, s2, s3 := "", "", ""
	if vxBool("pad") {
		s1, s2, s3 = vxByte("w1", ws), vxByte("w2", ws), vxByte("w3", ws)
	}
	st := before + s1 + prop + s2 + ":" + s3 + val + bang + after
	hide := strings.ToLower(prop) == "display" && strings.ToLower(val) == "none" || strings.ToLower(prop) == "visibility" && strings.ToLower(val) == "hidden"
	res, root, err := vparse(vdoc("<title>T</title>", vplace("div", " data-k='v' style='"+st+"'", "SECRET")), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	if hide {
		vnoword(res, root, "SECRET", "v")
		vxReach("hidden")
	} else {
		vxAssert(vhas(res.TextContent, "SECRET"), "visible text stays")
		vxReach("visible")
	}
}

// What only looks like hiding does not hide.
func vhVisible() {
	form := vxPick("form", "", "style='display:block'", "style='visibility:visible'", "aria-hidden='false'", "aria-hidden=''", "aria-hidden='true' class='fallback-image'", "aria-hidden='true' class='a fallback-image b'", "aria-modal='true'", "aria-modal='false' role='dialogue'", "style='content:none'", "style='-display:none'", "data-hidden='x'", "style=''", "style='display'", "style='none'", "title='hidden'", "style='overflow:hidden'", "style='display:table-cell;text-decoration:none'")
	pl := strings.Fields("p div section blockquote pre divp divdiv span li td table bare first last")
	where := pl[vxInt("where", 0, len(pl)-1)]
	res, _, err := vparse(vdoc("<title>T</title>", vplace(where, " data-k='v' "+form, "SHOWN")), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	vxAssert(vhas(res.TextContent, "SHOWN"), "visible text stays")
	vxAssert(vhas(res.TextContent, "first") && vhas(res.TextContent, "second"), "the visible paragraphs stay")
	vxReach("end")
}

// A property that is declared several times: the last one counts, unless one
// before it is important.
func vhHiddenTwice() {
	st := ""
	disp, vis := "", ""
	dbang, vbang := false, false
	for _, k := range []string{"1", "2", "3"} {
		prop := vxFork(vxPick("prop"+k, "display", "visibility", "DISPLAY"))
		val := vxPick("val"+k, "none", "block")
		bang := vxBool("bang" + k)
		if prop == "visibility" {
			if val == "none" {
				val = "hidden"
			} else {
				val = "visible"
			}
			if bang || !vbang {
				vis, vbang = val, bang
			}
		} else {
			if bang || !dbang {
				disp, dbang = val, bang
			}
		}
		st += prop + ":" + val
		if bang {
			st += " !important"
		}
		st += ";"
	}
	res, root, err := vparse(vdoc("<title>T</title>", vplace("div", " data-k='v' style='"+st+"'", "SECRET")), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	if disp == "none" || vis == "hidden" {
		vnoword(res, root, "SECRET", "v")
		vxReach("hidden")
	} else {
		vxAssert(vhas(res.TextContent, "SECRET"), "visible text stays")
		vxReach("visible")
	}
}
