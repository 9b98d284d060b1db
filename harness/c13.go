package readability

import (
	"math"
	"strings"

	"golang.org/x/net/html"
)

// C13: the readerable score, against a sum of its own.

var vfill = strings.Repeat("word ", 120)

// vreadEl gives an element with n characters of text (a multiple of 5, minus
// one, of words) and whether it counts.
func vreadEl(kind, n string) (string, int) {
	k := map[string]int{"short": 60, "min": 139, "edge": 140, "one": 141, "mid": 240, "long": 560}[n]
	t := vfill[:k-1] + "."
	switch kind {
	case "wide": // characters, not bytes, count
		return "<p>" + strings.Repeat("\u00e9", k-1) + ".</p>", k
	case "p", "pre", "article":
		return "<" + kind + ">" + t + "</" + kind + ">", k
	case "pad":
		return "<p> \n " + t + "\t </p>", k
	case "inline":
		return "<p>" + t[:20] + "<b>" + t[20:30] + "</b>" + t[30:] + "</p>", k
	case "divbr":
		return "<div>" + t + "<br></div>", k
	case "divbr3":
		return "<div>" + t[:40] + "<br><br>" + t[40:] + "<br></div>", k
	case "divdeep":
		return "<div><span>" + t + "<br></span></div>", 0
	case "div", "section", "blockquote", "h2", "td":
		return "<" + kind + ">" + t + "</" + kind + ">", 0
	case "lip":
		return "<ul><li><p>" + t + "</p></li></ul>", 0
	case "lidivp":
		return "<ul><li><div><p>" + t + "</p></div></li></ul>", 0
	case "none":
		return "", 0
	}
	// attributes that keep a paragraph from counting, or do not
	no := map[string]string{
		"hidden": "hidden=''", "dnone": "style='display:none'", "dnone2": "style='color:red; DISPLAY : none !important;'", "vhid": "style='visibility: hidden'", "aria": "aria-hidden='true'",
		"dnone3": "style='color:red;\n\tdisplay:none'", "vhid2": "style='\r\nvisibility\t:\thidden'", "hidden2": "hidden='false'",
		"comment": "class='comment'", "sidebar": "id='sidebar'", "footer": "class='x footer-y'",
	}
	yes := map[string]string{
		"ariaf": "aria-hidden='false'", "ariae": "aria-hidden=''", "shown": "style='visibility:visible;display:inline' data-hidden='true'", "fallback": "aria-hidden='true' class='fallback-image'", "dblock": "style='display:block'", "artcomment": "class='article-comment'", "mainside": "class='sidebar' id='main'", "class": "class='story' id='x1'",
	}
	if a, ok := no[kind]; ok {
		return "<p " + a + ">" + t + "</p>", 0
	}
	return "<p " + yes[kind] + ">" + t + "</p>", k
}

func vscore(lens []int, min int, score float64) bool {
	sum := 0.0
	for _, k := range lens {
		if k > 0 && k >= min {
			sum += math.Sqrt(float64(k - min))
			if sum > score {
				return true
			}
		}
	}
	return false
}

// One element of every kind and length; free options.
func vhReadKinds() {
	kinds := strings.Fields("p wide pre article pad inline divbr divbr3 divdeep div section blockquote h2 td lip lidivp none hidden dnone dnone2 dnone3 vhid vhid2 hidden2 aria comment sidebar footer ariaf ariae shown fallback dblock artcomment mainside class")
	kind := kinds[vxInt("kind", 0, len(kinds)-1)]
	n := vxPick("n", "short", "min", "edge", "one", "mid", "long")
	el, k := vreadEl(kind, n)
	if kind == "td" {
		el = "<table><tr>" + el + "</tr></table>"
	}
	min, score := 140, 20.0
	var opts []Option
	switch vxFork(vxPick("opt", "none", "min", "score", "both")) {
	case "min":
		min = vxInt("min", 0, 600)
		opts = append(opts, MinContentLength(min))
	case "score":
		s := vxPick("score", "0", "1", "10", "20", "-1", "20.5")
		score = map[string]float64{"0": 0, "1": 1, "10": 10, "20": 20, "-1": -1, "20.5": 20.5}[s]
		opts = append(opts, MinScore(score))
	case "both":
		min, score = 60, 8.9
		opts = append(opts, MinScore(score), MinContentLength(min))
	}
	got := IsProbablyReaderable("<html><body><h1>x</h1>"+el+"<p>tiny</p></body></html>", opts...)
	if got {
		vxObserve("got", "yes")
	}
	want := vscore([]int{k, 4}, min, score)
	vxAssert(got == want, "readerable as the score says: "+kind)
	if got {
		vxReach("yes")
	} else {
		vxReach("no")
	}
}

// Several elements: the scores add up, each element counts once.
func vhReadSum() {
	kinds := []string{"p", "none", "divbr3", "lip", "hidden", "pre", "comment"}
	var lens []int
	body := ""
	var divs []int
	for i, nm := range []string{"a", "b", "c"} {
		kind := kinds[vxInt("k"+nm, 0, len(kinds)-1)]
		n := "mid"
		if i == 2 {
			n = "long"
		}
		if i == 1 {
			n = vxPick("n", "short", "edge", "one", "mid", "long")
		}
		el, k := vreadEl(kind, n)
		body += el
		if kind == "divbr3" {
			divs = append(divs, k)
		} else {
			lens = append(lens, k)
		}
	}
	lens = append(lens, divs...)
	sc := vxInt("score", 0, 50)
	min := map[string]int{"0": 0, "141": 141, "140": 140, "300": 300}[vxFork(vxPick("min", "140", "0", "141", "300"))]
	got := IsProbablyReaderable("<html><body>"+body+"</body></html>", MinScore(float64(sc)), MinContentLength(min))
	if got {
		vxObserve("got", "yes")
	}
	vxAssert(got == vscore(lens, min, float64(sc)), "readerable as the sum says")
	vxReach("end")
}

// The configured visibility check replaces the default.
func vhReadVisible() {
	kinds := []string{"p", "pre", "article", "divbr", "hidden", "dnone", "aria", "lip"}
	kind := kinds[vxInt("kind", 0, len(kinds)-1)]
	el, k := vreadEl(kind, "long")
	switch kind {
	case "hidden", "dnone", "aria":
		_, k = vreadEl("p", "long") // the default check is replaced
	}
	asked := 0
	mode := vxFork(vxPick("mode", "all", "none", "nodiv", "nop"))
	check := func(n *html.Node) bool {
		asked++
		switch mode {
		case "none":
			return false
		case "nodiv":
			return n.Data != "div"
		case "nop":
			return n.Data != "p"
		}
		return true
	}
	got := IsProbablyReaderable("<html><body>"+el+"</body></html>", VisibilityChecker(check))
	want := k > 0
	switch mode {
	case "none":
		want = false
	case "nodiv":
		want = want && kind != "divbr"
	case "nop":
		want = want && (kind == "pre" || kind == "article" || kind == "divbr")
	}
	vxAssert(got == want, "readerable as the visibility check says")
	vxAssert(asked > 0, "the visibility check is asked")
	if got {
		vxReach("yes")
	} else {
		vxReach("no")
	}
}

// Elements that count inside of others: each of them counts.
func vhReadNest() {
	sizes := []int{100, 140, 240, 300, 380, 500}
	a := sizes[vxInt("a", 0, 5)]
	b := sizes[vxInt("b", 0, 5)]
	outer := vxFork(vxPick("outer", "article", "pre", "divbr", "divbrs", "section", "li", "article div"))
	inner := vxFork(vxPick("inner", "p", "pre", "divbr", "article", "div"))
	in := strings.Repeat("x", b)
	switch inner {
	case "divbr":
		in = "<div>" + in + "<br></div>"
	default:
		in = "<" + inner + ">" + in + "</" + inner + ">"
	}
	out := strings.Repeat("y", a)
	switch outer {
	case "divbr":
		out = "<div>" + out + "<br>" + in + "</div>"
	case "divbrs":
		out = "<div><br>" + out + "<br>" + in + "<br></div>"
	case "article div":
		out = "<article><div>" + out + in + "</div></article>"
	default:
		out = "<" + outer + ">" + out + in + "</" + outer + ">"
	}
	var ks []int
	if outer != "section" && outer != "li" {
		ks = append(ks, a+b)
	}
	if inner != "div" && !(outer == "li" && inner == "p") {
		ks = append(ks, b)
	}
	got := IsProbablyReaderable("<html><body><h1>x</h1>" + out + "</body></html>")
	want := vscore(ks, 140, 20)
	vxAssert(got == want, "readerable as the scores say")
	if got {
		vxReach("yes")
	} else {
		vxReach("no")
	}
}

// Many elements: all of them count.
func vhReadMany() {
	n := vdec(vxFork(vxPick("n", "1", "12", "60", "130", "300")))
	kind := vxFork(vxPick("kind", "p", "pre", "article", "div", "mixed"))
	one := "<" + kind + ">" + strings.Repeat("x", 144) + "</" + kind + ">"
	switch kind {
	case "div":
		one = "<div>" + strings.Repeat("x", 144) + "<br></div>"
	case "mixed":
		one = "<p>" + strings.Repeat("x", 144) + "</p><p>short</p><div>" + strings.Repeat("x", 144) + "<br></div>"
	}
	sum := 2 * n
	if kind == "mixed" {
		sum *= 2
	}
	d := vxInt("d", -2, 2)
	got := IsProbablyReaderable("<html><body>"+strings.Repeat(one, n)+"</body></html>", MinScore(float64(sum+d)))
	vxAssert(got == (d < 0), "readerable as the sum of many scores says")
	vxReach("end")
}

func vnever(*html.Node) bool { return false }
