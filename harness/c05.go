package readability

import "strings"

// C05: presentational attributes and classes are stripped, as configured.

var vPresentational = []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}

func vcleanAttrs(root *Node) {
	vw(root, func(n *Node) {
		if n.NodeType != elementNode {
			return
		}
		for p := n; p != nil; p = p.ParentNode {
			if p.LocalName == "svg" {
				return
			}
		}
		for _, a := range vPresentational {
			vxAssert(!n.HasAttribute(a), "no presentational attribute in the article: "+a+" on "+n.LocalName)
		}
		switch n.LocalName {
		case "table", "th", "td", "hr", "pre":
			vxAssert(!n.HasAttribute("width") && !n.HasAttribute("height"), "no size attribute on "+n.LocalName)
		}
	})
}

func vhPresentational() {
	attr := vxPick("attr", "align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace", "width", "height", "STYLE", "title", "lang")
	val := vxPick("val", "1", "", "color:red")
	at := " " + attr + "='" + val + "' data-k='v'"
	two := vxPick("two", "", " style='x:y' border='0'", " class='svg' id='svg' style='x:y'")
	where := vxPick("where", "p", "span", "table", "td", "th", "img", "pre", "hr", "h2", "li", "blockquote", "svg", "div", "top", "a", "font", "aftersvg", "math", "inmath")
	x := ""
	switch where {
	case "table":
		x = "<table" + at + two + "><tr><th>k</th><td>" + vsent("cell") + "</td></tr></table>"
	case "td", "th":
		x = "<table><tr><th>k</th><" + where + at + two + ">" + vsent("cell") + "</" + where + "></tr></table>"
	case "img":
		x = "<p>" + vsent("pic") + "<img src='/i.png'" + at + two + "/></p>"
	case "hr":
		x = "<hr" + at + two + "/>"
	case "li":
		x = "<ul><li" + at + two + ">" + vsent("item") + "</li></ul>"
	case "svg":
		x = "<svg" + at + two + "><g" + at + "></g></svg>"
	case "aftersvg":
		x = "<p>" + vsent("inl") + "<svg><g></g></svg><span" + at + two + ">word</span></p>"
	case "inmath":
		x = "<p>" + vsent("inl") + "<math><mi" + at + two + ">x</mi></math></p>"
	case "span", "a", "font", "math":
		x = "<p>" + vsent("inl") + "<" + where + at + two + ">word</" + where + "></p>"
	case "top":
	default:
		x = "<" + where + at + two + ">" + vsent("blk") + "</" + where + ">"
	}
	top := ""
	if where == "top" {
		top = at + two
	}
	body := "<article" + top + ">" + vpar("first") + x + vpar("second") + "</article>"
	res, root, err := vparse(vdoc("<title>T</title>", body), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxObserve("html", res.HTMLContent)
	vcleanAttrs(root)
	// content attributes are not presentational
	switch where {
	case "td", "img", "pre", "span", "table", "p":
		n := vfind(root, "data-k", "v")
		vxAssert(n != nil, "other attributes stay")
		if attr == "title" || attr == "lang" {
			vxAssert(n.HasAttribute(attr) && n.GetAttribute(attr) == val, "content attributes stay")
		}
		if where == "img" && (attr == "width" || attr == "height") {
			vxAssert(n.GetAttribute(attr) == val, "the size of an image stays")
		}
	}
	vxReach("end")
}

// Classes: only the preserved ones stay, unless classes are kept.
func vhClasses() {
	set := "ab \t\n-"
	cls := vxByte("c1", set) + vxByte("c2", set) + vxByte("c3", set)
	cls = vxPick("pre", "", "page ", "x ", "PAGE AB A ") + cls
	where := vxPick("where", "p", "span", "top", "h3")
	x, top := "", ""
	at := " class=\"" + cls + "\" data-k=\"v\""
	switch where {
	case "p", "h3":
		x = "<" + where + at + ">" + vsent("blk") + "</" + where + ">"
	case "span":
		x = "<p>" + vsent("inl") + "<span" + at + ">word</span></p>"
	case "top":
		top = at
	}
	opts := []Option{CharThreshold(1)}
	mode := vxPick("mode", "default", "keep", "keepnot", "one", "two", "split")
	keep := []string{"page"}
	switch mode {
	case "keep":
		opts = append(opts, KeepClasses(true))
	case "keepnot":
		opts = append(opts, KeepClasses(false))
	case "one":
		opts = append(opts, ClassesToPreserve("ab"))
		keep = append(keep, "ab")
	case "two":
		opts = append(opts, ClassesToPreserve("a", "b-"))
		keep = append(keep, "a", "b-")
	case "split":
		opts = append(opts, ClassesToPreserve("a"), ClassesToPreserve("b-"))
		keep = append(keep, "a", "b-")
	}
	body := "<article" + top + ">" + vpar("first") + x + vpar("second") + "</article>"
	res, root, err := vparse(vdoc("<title>T</title>", body), vURL, opts...)
	vxAssert(err == nil, "there is an article")
	vxObserve("html", res.HTMLContent)
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil, "the element is in the article")
	if mode == "keep" {
		vxAssert(n.GetAttribute("class") == cls, "kept classes are unchanged")
		vxReach("keep")
		return
	}
	var want []string
	for _, c := range strings.Fields(cls) {
		for _, k := range keep {
			if c == k {
				want = append(want, c)
				break
			}
		}
	}
	vxAssert(n.GetAttribute("class") == strings.Join(want, " "), "only the classes to preserve stay")
	vxAssert(n.HasAttribute("class") == (len(want) > 0), "no empty class attribute stays")
	vxReach("end")
}
