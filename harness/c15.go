package readability

import (
	"regexp"
	"strings"
)

// C15: allowed videos and data tables are kept, others are not.

var vVideoHosts = []string{"dailymotion.com", "youtube.com", "youtube-nocookie.com", "player.vimeo.com", "v.qq.com", "archive.org", "upload.wikimedia.org", "player.twitch.tv"}

// vallowed: does the text hold the address of one of the video hosts?
func vallowed(text string) bool {
	text = strings.ToLower(text)
	for {
		i := strings.Index(text, "//")
		if i < 0 {
			return false
		}
		rest := strings.TrimPrefix(text[i+2:], "www.")
		for _, h := range vVideoHosts {
			if strings.HasPrefix(rest, h) {
				return true
			}
		}
		text = text[i+1:]
	}
}

// vvideo gives the markup of a frame of this kind, and what of it counts.
func vvideo(kind, u string) string {
	switch kind {
	case "iframe":
		return "<iframe data-k='v' src='" + u + "' width='9'></iframe>"
	case "iframe-data":
		return "<iframe data-k='v' data-lazy='" + u + "' src='about:blank'></iframe>"
	case "embed":
		return "<embed data-k='v' type='video' src='" + u + "'/>"
	case "object":
		return "<object data-k='v' type='video' data='" + u + "'></object>"
	case "object-param":
		return "<object data-k='v'><param name='movie' value='" + u + "'/></object>"
	case "object-embed":
		return "<object data-k='v'><param name='x' value='y'/><embed src='" + u + "'/></object>"
	case "object-text":
		return "<object data-k='v'><i>see <a href='/t' title='" + u + "'>it</a></i></object>"
	}
	return ""
}

const vVideoKinds = "iframe iframe-data embed object object-param object-embed object-text"

// vvideoAt puts the frame at a place of an article.
func vvideoAt(where, v string) string {
	in := ""
	switch where {
	case "top":
		in = v
	case "p", "div", "section", "figure", "blockquote", "center":
		in = "<" + where + ">" + v + "</" + where + ">"
	case "li":
		in = "<ul><li>" + vsent("item") + "</li><li>" + v + "</li></ul>"
	case "divtext":
		in = "<div>" + vsent("around") + v + vsent("about") + "</div>"
	case "divdiv":
		in = "<div class='x'><div>" + v + "</div></div>"
	case "inline":
		in = "<p>" + vsent("inl") + " <span>" + v + "</span> " + vsent("rest") + "</p>"
	case "td":
		in = "<table><tr><td>" + vsent("cell") + "</td></tr><tr><td>" + v + "</td></tr></table>"
	case "datatd":
		in = "<table><tr><th>k</th></tr><tr><td>" + v + "</td></tr></table>"
	case "two":
		in = "<div>" + v + v + "</div>"
	}
	return "<article>" + vpar("first") + in + vpar("second") + "</article>"
}

const vVideoPlaces = "top p div section figure blockquote center li divtext divdiv inline td datatd two"

// Every kind of frame at every place, for the default pattern, a pattern of
// one's own and none.
func vhVideo() {
	kinds, pls := strings.Fields(vVideoKinds), strings.Fields(vVideoPlaces)
	kind := kinds[vxInt("kind", 0, len(kinds)-1)]
	where := pls[vxInt("where", 0, len(pls)-1)]
	u := vxPick("u", "//www.youtube.com/embed/a", "http://player.vimeo.com/video/1", "//tv.example.test/v", "https://www.example.test/youtube.com/", "about:blank")
	pat := vxPick("pattern", "", "own", "own-any", "none")
	opts := []Option{vthreshold()}
	keep := vallowed(u)
	switch pat {
	case "own":
		opts = append(opts, AllowedVideoRegex(regexp.MustCompile(`//tv\.example\.`)))
		keep = strings.Contains(u, "//tv.example.")
	case "own-any":
		opts = append(opts, AllowedVideoRegex(regexp.MustCompile(`^[a-z]*:?//`)))
		keep = strings.Contains(u, "//") && !strings.HasPrefix(kind, "object-")
	case "none":
		opts = append(opts, AllowedVideoRegex(nil))
		keep = false
	}
	res, root, err := vparse(vdoc("<title>T</title>", vvideoAt(where, vvideo(kind, u))), vURL, opts...)
	vxAssert(err == nil, "there is an article")
	vxAssert((vfind(root, "data-k", "v") != nil) == keep, "the frame is kept iff its address is allowed")
	vxAssert(vhas(res.TextContent, "first") && vhas(res.TextContent, "second"), "the text stays")
	vxAssert(keep == vhas(res.HTMLContent, `data-k="v"`), "and so does its markup")
	if keep {
		n := 1
		if where == "two" {
			n = 2
		}
		k := 0
		vwf(root, func(e *Node) bool {
			if e.GetAttribute("data-k") == "v" {
				k++
			}
			return false
		})
		vxAssert(k == n, "as often as in the source")
		vxReach("kept")
	} else {
		vxReach("dropped")
	}
}

// The default pattern, byte by byte.
func vhVideoHost() {
	kinds := strings.Fields(vVideoKinds)
	kind := kinds[vxInt("kind", 0, len(kinds)-1)]
	pre := vxPick("pre", "//", "https://", "HTTP://www.", "//WWW.", "/", "http:/", "//x.", "http://e.test/?u=//", "www.", "//www")
	host := vVideoHosts[vxInt("host", 0, len(vVideoHosts)-1)]
	dot := vxFork(vxByte("dot", ".-x/"))
	i := strings.LastIndex(host, ".")
	host = host[:i] + dot + host[i+1:]
	if vxBool("upper") {
		host = strings.ToUpper(host)
	}
	end := vxPick("end", "/v/1", "", "x", ":80/v")
	u := pre + host + end
	_, root, err := vparse(vdoc("<title>T</title>", vvideoAt("div", vvideo(kind, u))), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	if vfind(root, "data-k", "v") != nil {
		vxAssert(vallowed(u), "a frame that is kept has an allowed address")
		vxReach("kept")
	} else {
		vxAssert(!vallowed(u), "a frame with an allowed address is kept")
		vxReach("dropped")
	}
}

// A frame inside of another, and frames next to others that are not allowed.
func vhVideoMix() {
	good, bad := "//www.youtube.com/embed/a", "//e.test/v"
	kinds := strings.Fields(vVideoKinds)
	k1 := kinds[vxInt("kind1", 0, len(kinds)-1)]
	k2 := kinds[vxInt("kind2", 0, len(kinds)-1)]
	g1, g2 := vxBool("good1"), vxBool("good2")
	u1, u2 := bad, bad
	if g1 {
		u1 = good
	}
	if g2 {
		u2 = good
	}
	sep := vxPick("sep", "", "text", "<br/>", "<p>para</p>")
	v := strings.Replace(vvideo(k1, u1), "'v'", "'v1'", 1) + sep + strings.Replace(vvideo(k2, u2), "'v'", "'v2'", 1)
	where := vxPick("where", "top", "div", "p", "section", "divdiv", "li")
	_, root, err := vparse(vdoc("<title>T</title>", vvideoAt(where, v)), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	vxAssert((vfind(root, "data-k", "v1") != nil) == g1, "the first frame is judged by its own address")
	vxAssert((vfind(root, "data-k", "v2") != nil) == g2, "the second frame is judged by its own address")
	vxReach("end")
}

// vtable builds a table of short cells.
func vtable(at, head, rowAt, cellAt string, rows, cols int, cell string) string {
	return vtableSpan(at, head, rowAt, cellAt, rows, cols, cell, 0, 0)
}

// vtableSpan has the attributes on this row and this cell of it.
func vtableSpan(at, head, rowAt, cellAt string, rows, cols int, cell string, row, col int) string {
	s := "<table data-k='v'" + at + ">" + head + "<tbody>"
	for i := 0; i < rows; i++ {
		if i == row {
			s += "<tr" + rowAt + ">"
		} else {
			s += "<tr>"
		}
		for j := 0; j < cols; j++ {
			if i == row && j == col {
				s += "<td" + cellAt + ">" + cell + "</td>"
			} else {
				s += "<td>" + cell + "</td>"
			}
		}
		s += "</tr>"
	}
	return s + "</tbody></table>"
}

func vnum(s string) int {
	switch s {
	case "":
		return 1
	case "10":
		return 10
	}
	return int(s[0] - '0')
}

func vtableAt(where, t string) string {
	in := t
	switch where {
	case "div", "section", "figure", "blockquote":
		in = "<" + where + ">" + vsent("around") + t + "</" + where + ">"
	case "dd":
		in = "<dl><dt>t</dt><dd>" + t + "</dd></dl>"
	}
	return "<article>" + vpar("first") + in + vpar("second") + "</article>"
}

// vjudge: the table has so little text that it stays only as a data table.
func vjudge(root *Node, data bool, cells int) {
	t := vfind(root, "data-k", "v")
	if data {
		vxAssert(t != nil, "a data table is kept")
		vxAssert(vcount(t, "td") == cells, "with all of its cells")
		vxReach("data")
	} else {
		vxAssert(t == nil, "a layout table without content is not")
		vxReach("layout")
	}
}

// Which marks make a data table.
func vhTableMarks() {
	at := vxPick("at", "", " role='presentation'", " role='table'", " datatable='0'", " datatable='1'", " summary='s'", " summary=''", " role='presentation' summary='s'", " datatable='0' summary='s'", " role='presentation' datatable='1'", " border='0' cellpadding='1'")
	head := vxPick("head", "", "<caption>c</caption>", "<caption></caption>", "<col/>", "<colgroup></colgroup>", "<thead><tr></tr></thead>", "<tfoot></tfoot>", "<tr><th>h</th></tr>", "<caption><b>c</b></caption><thead><tr><th>h</th></tr></thead>")
	inner := vxPick("inner", "", "<table><tr><td>x</td><td>y</td></tr></table>", "<b>x</b>", "<table><tr><td>x</td><td>y</td></tr><tr><th>z</th></tr></table>")
	size := vxInt("size", 0, 2)
	rows, cols := []int{2, 3, 2}[size], []int{2, 4, 5}[size]
	where := vxPick("where", "top", "div", "section", "dd")
	data := false
	switch {
	case strings.Contains(at, "presentation") || strings.Contains(at, "datatable='0'"):
	case strings.Contains(at, "summary='s'"):
		data = true
	case head != "" && head != "<caption></caption>":
		data = true
	case strings.Contains(inner, "<th>"):
		data = true
	case strings.Contains(inner, "<table"):
	case size > 0:
		data = true
	}
	cells := rows * cols
	if inner != "" && inner != "<b>x</b>" {
		cells += 2
	}
	c := "x"
	if size > 0 {
		c = ""
	}
	tab := strings.Replace(vtable(at, head, "", "", rows, cols, c), "<td>", "<td>"+inner, 1)
	res, root, err := vparse(vdoc("<title>T</title>", vtableAt(where, tab)), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "second"), "there is an article")
	vjudge(root, data, cells)
}

// Other tables, before or around it, change nothing.
func vhTablesMany() {
	other := func(n string) string {
		at := vxFork(vxPick(n, "none", " role='presentation'", " datatable='0'", " summary='s'", "caption", "th", "nested", "large", "small", "wide"))
		switch at {
		case "none":
			return ""
		case "caption":
			return "<table><caption>c</caption><tr><td>x</td><td>y</td></tr></table>"
		case "th":
			return "<table><tr><th>x</th><td>y</td></tr></table>"
		case "nested":
			return "<table><tr><td>x</td><td><table><tr><td>x</td><td>y</td></tr></table></td></tr></table>"
		case "large":
			return "<table>" + strings.Repeat("<tr><td>x</td><td>y</td></tr>", 10) + "</table>"
		case "small":
			return "<table><tr><td>x</td><td>y</td></tr></table>"
		case "wide":
			return "<table><tr>" + strings.Repeat("<td>x</td>", 5) + "</tr></table>"
		}
		return "<table" + at + "><tr><td>x</td><td>y</td></tr></table>"
	}
	o1, o2 := other("o1"), other("o2")
	mark := vxFork(vxPick("mark", "", " role='presentation'", " datatable='0'", " summary='s'", "<caption>c</caption>", "<tr><th>h</th></tr>", "size"))
	rows, cols := 2, 2
	at, head, data := "", "", false
	switch {
	case mark == "size":
		rows, cols, data = 3, 4, true
	case strings.HasPrefix(mark, "<"):
		head, data = mark, true
	default:
		at, data = mark, mark == " summary='s'"
	}
	tab := vtable(at, head, "", "", rows, cols, "x")
	_, root, err := vparse(vdoc("<title>T</title>", "<article>"+vpar("first")+o1+vpar("second")+tab+vpar("third")+o2+vpar("fourth")+"</article>"), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vjudge(root, data, rows*cols)
}

// How large a table has to be.
func vhTableSize() {
	rows, cols := vxInt("rows", 1, 11), vxInt("cols", 1, 6)
	rs := vxPick("rowspan", "", "2", "9", "10", "0")
	cs := vxPick("colspan", "", "2", "4", "5", "0")
	rowAt, cellAt := "", ""
	r, c := rows, cols
	if rs != "" {
		rowAt = " rowspan='" + rs + "'"
		if rs != "0" {
			r += vnum(rs) - 1
		}
	}
	if cs != "" {
		cellAt = " colspan='" + cs + "'"
		if cs != "0" {
			c += vnum(cs) - 1
		}
	}
	vxAssume(rows > 1 || cols > 1) // a single cell is not a table
	cell := ""
	if vxBool("filled") {
		cell = "<i></i>"
	}
	row, col := 0, 0
	if vxBool("last") {
		row, col = rows-1, cols-1
	}
	res, root, err := vparse(vdoc("<title>T</title>", vtableAt("top", vtableSpan("", "", rowAt, cellAt, rows, cols, cell, row, col))), vURL, CharThreshold(1))
	vxAssert(err == nil && vhas(res.TextContent, "second"), "there is an article")
	vjudge(root, r >= 10 || c > 4 || r*c > 10, rows*cols)
}

// What is in a data table is not dropped for lack of content.
func vhTableCells() {
	mark := vxPick("mark", "", "<caption>c</caption>", "<tr><th>h</th></tr>", "<tfoot></tfoot>")
	cell := vxPick("cell", "<div><a href='/l'>LINK</a></div>", "<ul><li><a href='/l'>LINK</a></li></ul>", "<div>LINK</div>", "<div class='promo'>LINK</div>", "<ul class='contact'><li>LINK</li></ul>", "<div><img src='/a.png'/><img src='/b.png'/>LINK</div>", "<table><tr><td>LINK</td><td>x</td></tr></table>")
	depth := vxInt("depth", 0, 3)
	for i := 0; i < depth; i++ {
		cell = "<div><b>k</b>" + cell + "</div>"
	}
	where := vxPick("where", "top", "div", "section")
	tab := strings.Replace(vtable("", mark, "", "", 2, 2, "x"), "<td>", "<td>"+cell, 1)
	res, _, err := vparse(vdoc("<title>T</title>", vtableAt(where, tab)), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxAssert(vhas(res.TextContent, "LINK") || mark == "", "the cells of a data table are kept whole")
	vxReach("end")
}
