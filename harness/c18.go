package readability

import "strings"

// C18: byline, language and direction are found and reported.

// vbyAt puts a byline at a place of a page.
func vbyAt(where, at, text string) string {
	a, b := vpar("first"), vpar("second")
	el := func(tag string) string { return "<" + tag + at + ">" + text + "</" + tag + ">" }
	switch where {
	case "p", "div", "span", "address", "h3", "time", "cite", "section", "b":
		return "<article>" + el(where) + a + b + "</article>"
	case "a":
		return "<article><p>Story told by " + el("a") + " for us</p>" + a + b + "</article>"
	case "li":
		return "<article>" + a + "<ul><li>" + vsent("item") + "</li>" + el("li") + "</ul>" + b + "</article>"
	case "mid":
		return "<article>" + a + el("p") + b + "</article>"
	case "last":
		return "<article>" + a + b + el("div") + "</article>"
	case "before":
		return el("div") + "<div>" + a + b + "</div>"
	case "after":
		return "<div>" + a + b + "</div>" + el("p")
	case "deep":
		return "<article><div><div><p>Told by <i>" + el("b") + "</i></p></div></div>" + a + b + "</article>"
	case "inner":
		return "<article><div" + at + "><p><i>" + text + "</i></p></div>" + a + b + "</article>"
	case "td":
		return "<article><table><tr><th>k</th>" + el("td") + "</tr></table>" + a + b + "</article>"
	}
	return ""
}

const vbyPlaces = "p div span address h3 time cite section b a li mid last before after deep inner td"

// Every mark at every place.
func vhByline() {
	marks := []string{"rel='author'", "itemprop='author'", "itemprop='name author'", "class='byline'", "id='Author'", "class='x dateline'", "class='writtenBy'", "id='p-author-x'", "class='entry-BYLINE y'", "class='content author'",
		"rel='auth'", "rel='coauthors'", "itemprop='name'", "class='by line'", "class='writer'", "id='dated'", "title='author'", "data-byline='1'", "property='author'"}
	k := vxInt("mark", 0, len(marks)-1)
	pls := strings.Fields(vbyPlaces)
	where := pls[vxInt("where", 0, len(pls)-1)]
	text := vxPick("text", "Quill Penn", " \n Quill\tPenn ", "By <em>Quill</em> Penn", "Q", "Quill "+strings.Repeat("n", 93), "Quill "+strings.Repeat("n", 94), "Quill "+strings.Repeat("é", 93), "Quill "+strings.Repeat("é", 94))
	plain := strings.TrimSpace(strings.ReplaceAll(strings.ReplaceAll(text, "<em>", ""), "</em>", ""))
	is := k < 10 && len([]rune(plain)) < 100
	res, root, err := vparse(vdoc("<title>T</title>", vbyAt(where, " data-k='v' "+marks[k], text)), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxObserve("byline", res.Byline)
	vxAssert(vhas(res.TextContent, "first") && vhas(res.TextContent, "second"), "the text stays")
	if is {
		vxAssert(res.Byline == plain, "the marked element is the byline")
		vxAssert(vfind(root, "data-k", "v") == nil && (plain == "Q" || !vhas(res.TextContent, "Quill")), "and not in the article")
		vxReach("byline")
	} else {
		vxAssert(res.Byline == "", "nothing else is a byline")
		vxReach("none")
	}
}

// The first of several that is visible and of a proper length is the byline.
func vhBylineFirst() {
	one := vxPick("one", "<p data-k='v' class='byline'>Quill Penn</p>", "<p class='byline'></p>", "<p class='byline'> \n </p>", "<p class='byline' style='display:none'>Ghost</p>", "<div hidden=''><p class='byline'>Ghost</p></div>", "<div class='author-box'>"+vpar("long")+vpar("box")+"</div>", "<p class='byline' aria-hidden='true'>Ghost</p>", "<div class='author'>"+strings.Repeat("much ", 20)+"<b data-k='v' rel='author'>Quill Penn</b></div>", "<div class='comment'><p class='byline'>Ghost</p></div>", "<div role='dialog'><p class='byline'>Ghost</p></div>", "<div class='author'><i rel='author'>Quill Penn</i> </div>", "<p class='byline' role='dialog' aria-modal='true'>Ghost</p>", "<p data-k='v' class='byline' role='dialog' aria-modal='false'>Quill Penn</p>", "<p>none</p>")
	two := vxPick("two", "", "<p data-k='w' rel='author'>Second Name</p>", "<div><b class='author'>Second Name</b></div>")
	meta := vxPick("meta", "", "<meta name='author' content='Meta Name'/>")
	order := vxBool("apart")
	body := "<article>" + one + vpar("first") + two + vpar("second") + "</article>"
	if order {
		body = "<div>" + one + two + "</div><article>" + vpar("first") + vpar("second") + "</article>"
	}
	thr := vthreshold()
	if strings.Contains(one, "comment") {
		thr = CharThreshold(1) // a later attempt does not rule it out
	}
	res, root, err := vparse(vdoc("<title>T</title>"+meta, body), vURL, thr)
	vxAssert(err == nil, "there is an article")
	want := ""
	if strings.Contains(one, "Quill") {
		want = "Quill Penn"
		vxAssert(vfind(root, "data-k", "v") == nil, "the byline is not in the article")
		vxAssert(!vhas(res.TextContent, "Quill Penn"), "nor its text")
	} else if two != "" {
		want = "Second Name"
		vxAssert(!vhas(res.TextContent, "Second Name"), "the byline is not in the article")
	}
	if meta != "" {
		want = "Meta Name"
	}
	vxAssert(res.Byline == want, "the first proper byline is reported, metadata first")
	vxReach("end")
}

// Language and direction.
func vhLangDir() {
	lang := vxPick("lang", "-", "", "en", "he-IL", "x")
	at := ""
	if lang != "-" {
		at = " lang='" + lang + "'"
	} else {
		lang = ""
	}
	d := func(name string) (string, string) {
		v := vxPick(name, "", "rtl", "ltr", "auto")
		if v == "" {
			return "", ""
		}
		return " dir='" + v + "'", v
	}
	hA, h := d("html")
	bA, b := d("body")
	oA, o := d("outer")
	aA, a := d("art")
	shape := vxInt("shape", 0, 3)
	blang := vxPick("blang", "", " lang='fr'")
	art := "<div" + aA + blang + ">" + vpar("first") + vpar("second") + vpar("third") + "</div>"
	var body, want string
	pick := func(vs ...string) {
		for _, v := range vs {
			if v != "" {
				want = v
				return
			}
		}
	}
	switch shape {
	case 0: // the article, in the body
		body = art + "<div dir='x1'>" + "<ul><li>a</li></ul></div>"
		pick(b, a, h)
	case 1: // in a container with others
		body = "<div" + oA + ">" + art + "<div dir='x1'><ul><li>a</li></ul></div></div><div dir='x2'><ul><li>b</li></ul></div>"
		pick(o, a, b, h)
	case 2: // two levels down
		body = "<div><div" + oA + ">" + art + "<div dir='x1'><ul><li>a</li></ul></div></div><div dir='x2'><ul><li>c</li></ul></div></div><div dir='x3'><ul><li>b</li></ul></div>"
		pick(o, a, b, h)
	case 3: // paragraphs have a direction of their own
		art = strings.ReplaceAll(art, "<p>", "<p dir='x1'>")
		body = art + "<div><ul><li>a</li></ul></div>"
		pick(b, a, h)
	}
	res, _, err := vparse("<html"+at+hA+"><head><title>T</title></head><body"+bA+">"+body+"</body></html>", vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxObserve("dir", res.Dir)
	vxAssert(res.Lang == lang, "the language is that of the root")
	vxAssert(res.Dir == want, "the direction is that of the closest around the article")
	vxReach("end")
}
