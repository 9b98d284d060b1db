package readability

import "strings"

// C17: the title is derived from the title element by the documented rules.

func vsep(b string) bool {
	return b == "|" || b == "-" || b == "\\" || b == "/" || b == ">" || b == "»"
}

func vhier(b string) bool { return b == "\\" || b == "/" || b == ">" || b == "»" }

// vcut splits a title into its characters, the only two-byte one kept whole.
func vcut(t string) []string {
	var out []string
	for i := 0; i < len(t); i++ {
		if strings.HasPrefix(t[i:], "»") {
			out = append(out, "»")
			i += len("»") - 1
		} else {
			out = append(out, t[i:i+1])
		}
	}
	return out
}

// vwords counts the pieces between white space, empty ones at the ends
// included, as the rules do.
func vwords(t string) int {
	n := 1
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' && (i == 0 || t[i-1] != ' ') {
			n++
		}
	}
	return n
}

// vtitle applies the rules. t is the title with white space collapsed.
func vtitle(t string, heads []string, h1 []string) string {
	c := vcut(t)
	sep, hier := false, false
	last, first := -1, -1
	for i := range c {
		if !vsep(c[i]) {
			continue
		}
		if first < 0 {
			first = i
		}
		if i+1 < len(c) && c[i+1] == " " {
			last = i
			if i > 0 && c[i-1] == " " {
				sep = true
				hier = hier || vhier(c[i])
			}
		}
	}
	cur := t
	switch {
	case sep:
		cur = strings.Join(c[:last], "")
		if vwords(cur) < 3 {
			cur = strings.Join(c[first+1:], "")
		}
	case strings.Contains(t, ": "):
		whole := false
		for _, h := range heads {
			whole = whole || strings.TrimSpace(h) == t
		}
		if !whole {
			cur = t[strings.LastIndex(t, ":")+1:]
		}
		if vwords(cur) < 3 {
			cur = t[strings.Index(t, ":")+1:]
		} else if vwords(t[:strings.Index(t, ":")]) > 5 {
			cur = t
		}
	case len([]rune(t)) > 150 || len([]rune(t)) < 15:
		if len(h1) == 1 {
			cur = vspace(h1[0])
		}
	}
	cur = vspace(cur)
	n := vwords(cur)
	if n <= 4 {
		bare := ""
		for _, x := range c {
			if !vsep(x) {
				bare += x
			}
		}
		if !hier || n != vwords(bare)-1 {
			return t
		}
	}
	return cur
}

var vsixWords = []string{"", "Alpha", "Alpha beta", "Alpha beta gamma", "Alpha beta gamma delta", "Alpha beta gamma delta eps", "Alpha beta gamma delta eps zeta", "Alpha beta gamma delta eps zeta eta"}

func vtitleDoc(t, heads string) string {
	return "<html><head><title>" + strings.ReplaceAll(t, ">", "&gt;") + "</title></head><body><article>" + heads + vpar("first") + vpar("second") + "</article></body></html>"
}

// Two or three parts set off by any separator.
func vhTitleParts() {
	seps := []string{" | ", " - ", " » ", " / ", " \\ ", " > ", ": ", "| ", " |", "-", " :: ", "\n|\t", " – "}
	a := vsixWords[vxInt("a", 0, 7)]
	b := strings.ToUpper(vsixWords[vxInt("b", 0, 7)])
	s1 := seps[vxInt("s1", 0, len(seps)-1)]
	t := a + s1 + b
	if vxThorough() || vxBool("three") {
		s2 := seps[vxInt("s2", 0, len(seps)-1)]
		t += s2 + strings.ToLower(vsixWords[vxInt("c", 1, 4)])
	}
	t = vxFork(t)
	if vspace(t) == "" {
		return
	}
	res, _, err := vparse(vtitleDoc(t, ""), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	vxAssert(res.Title == vtitle(vspace(t), nil, nil), "the title follows the rules")
	vxReach("end")
}

// Headings: equal to the title, or in place of a title of an odd length.
func vhTitleHeads() {
	t := vxPick("t", "Short", "Fourteen chars", "Fifteen charact", "Zwölf Wörter ä", "News: a short title", "One two three: four five six seven", "One two three four five six: seven eight nine", "Alpha: beta: gamma delta epsilon", "Alpha beta: gamma delta epsilon zeta: eta theta iota kappa lambda", "Alpha beta gamma delta epsilon zeta: eta: theta iota kappa lambda mu", "A: b", strings.Repeat("word ", 30)+"x", strings.Repeat("word ", 29)+"words", strings.Repeat("wörd ", 25)+"x", strings.Repeat("wörd ", 30)+"x", "Title of the page | Site", "", "  \n ")
	h := vxInt("heads", 0, 10)
	alt := "Another heading of  this page"
	var heads string
	var all, h1 []string
	switch h {
	case 1:
		heads, all, h1 = "<h1>"+alt+"</h1>", []string{alt}, []string{alt}
	case 2:
		heads, all = "<h2>"+alt+"</h2>", []string{alt}
	case 3:
		heads, all, h1 = "<h1>"+alt+"</h1><h1>Second one of the two</h1>", []string{alt}, []string{alt, "x"}
	case 4:
		heads, all, h1 = "<h1> "+t+" </h1>", []string{t}, []string{t}
	case 5:
		heads, all = "<h2>"+t+"</h2>", []string{t}
	case 6:
		heads = "<h3>" + t + "</h3>"
	case 7:
		heads, all, h1 = "<h1><i>Another</i> <b>heading</b>\n of this page</h1>", []string{alt}, []string{alt}
	case 8:
		heads, all, h1 = "<h1>Two</h1>", []string{"Two"}, []string{"Two"}
	case 9:
		// more than the title
		heads, all = "<h2>Now "+t+" and more</h2>", []string{"Now " + t + " and more"}
	case 10:
		heads, all, h1 = "<h2>"+alt+"</h2><h1>Some words</h1><h2>"+t+"</h2>", []string{alt, "Some words", t}, []string{"Some words"}
	}
	t = vxFork(t)
	if vspace(t) != "" && vxBool("second") {
		// the title of a drawing, or a second one, is none of the page
		heads = "<svg><title>The name of an icon</title></svg>" + heads + "<title>Title in the wrong place</title>"
	}
	res, _, err := vparse(vtitleDoc(t, heads), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	vxAssert(res.Title == vtitle(vspace(t), all, h1), "the title follows the rules")
	vxReach("end")
}

// Free bytes between words.
func vhTitleBytes() {
	set := " |-:/x"
	b1, b2, b3 := vxFork(vxByte("b1", set)), vxFork(vxByte("b2", set)), vxFork(vxByte("b3", set))
	b4 := vxFork(vxByte("b4", " :>"))
	n := vxInt("n", 1, 6)
	t := vsixWords[n] + b1 + b2 + b3 + "TAU SIGMA" + b4 + " RHO"
	res, _, err := vparse(vtitleDoc(t, ""), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxAssert(res.Title == vtitle(vspace(t), nil, nil), "the title follows the rules")
	vxReach("end")
}
