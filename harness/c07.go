package readability

import "strings"

// C07: metadata sources and their precedence.

func vfirst(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

const vartBody = "<article><p>Lead paragraph of the article, which has enough words, and commas, to be chosen.</p><p>Another paragraph of the article, with words, and more words, to be kept as well.</p></article>"
const vartLead = "Lead paragraph of the article, which has enough words, and commas, to be chosen."

// Every subset of the sources of a field, in document order or reversed.
func vhMetaOrder() {
	field := vxFork(vxPick("field", "title", "byline", "excerpt", "site", "time"))
	var keys []string
	fallback := ""
	switch field {
	case "title":
		keys = []string{"dc:title", "dcterm:title", "og:title", "weibo:article:title", "weibo:webpage:title", "title", "twitter:title"}
		fallback = "The page title words"
	case "byline":
		keys = []string{"dc:creator", "dcterm:creator", "author"}
	case "excerpt":
		keys = []string{"dc:description", "dcterm:description", "og:description", "weibo:article:description", "weibo:webpage:description", "description", "twitter:description"}
		fallback = vartLead
	case "site":
		keys = []string{"og:site_name"}
	case "time":
		keys = []string{"article:published_time"}
	}
	ld := vxPick("ld", "", "x")
	want := ""
	script := ""
	if ld != "" {
		k := map[string]string{"title": `"name":"from ld"`, "byline": `"author":{"name":"from ld"}`, "excerpt": `"description":"from ld"`, "site": `"publisher":{"name":"from ld"}`, "time": `"datePublished":"from ld"`}[field]
		script = `<script type="application/ld+json">{"@context":"https://schema.org","@type":"Article",` + k + `}</script>`
		want = "from ld"
	}
	rev := vxBool("rev")
	metas := ""
	for i, k := range keys {
		v := vxPick("m"+string(rune('0'+i)), "absent", "present")
		if v == "absent" {
			continue
		}
		val := "from " + strings.ReplaceAll(k, ":", " ")
		if want == "" {
			want = val
		}
		at := "name"
		if k == "article:published_time" || strings.HasPrefix(k, "og:") {
			at = "property"
		}
		m := "<meta " + at + "='" + k + "' content='" + val + "'/>"
		if rev {
			metas = m + metas
		} else {
			metas += m
		}
	}
	if want == "" {
		want = fallback
	}
	head := metas + "<title>The page title words</title>" + script
	if rev {
		head = script + "<title>The page title words</title>" + metas
	}
	res, _, err := vparse(vdoc(head, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	got := map[string]string{"title": res.Title, "byline": res.Byline, "excerpt": res.Excerpt, "site": res.SiteName, "time": res.PublishedTime}[field]
	vxObserve("got", got)
	vxAssert(got == want, "the "+field+" is from the first source in order")
	// the other fields come from the page itself
	if field != "title" {
		vxAssert(res.Title == "The page title words", "the title is that of the page")
	}
	if field != "byline" {
		vxAssert(res.Byline == "", "there is no byline")
	}
	if field != "excerpt" {
		vxAssert(res.Excerpt == vartLead, "the excerpt is the first paragraph")
	}
	if field != "site" {
		vxAssert(res.SiteName == "", "there is no site name")
	}
	if field != "time" {
		vxAssert(res.PublishedTime == "", "there is no publishing time")
	}
	vxReach("end")
}

// One meta element, with its key and value spelled in every way.
func vhMetaForm() {
	ws := " \t\n"
	at := vxPick("at", "name", "property")
	pre := vxPick("prefix", "", "dc", "DC", "dcterm", "og", "Twitter", "twitter", "weibo:article", "weibo:webpage", "fb", "xog", "article")
	sep := vxPick("sep", ":", ".")
	key := vxPick("key", "title", "Title", "TITLE", "titles", "creator", "author", "description", "Description", "site_name", "published_time", "keywords", "xtitle")
	pre, sep, key = vxFork(pre), vxFork(sep), vxFork(key)
	w1, w2, w3 := "", "", ""
	if vxBool("pad") {
		w1, w2, w3 = vxByte("w1", ws), vxByte("w2", ws), vxByte("w3", ws)
	}
	name := w1
	if pre != "" {
		name += pre + w2 + sep + w3
	}
	name += key + w2
	head := "<meta " + at + "=\"" + name + "\" content=' Some value '/><title>The page title words</title>"
	res, _, err := vparse(vdoc(head, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	p, k := strings.ToLower(pre), strings.ToLower(key)
	title, byline, excerpt, site, time := "The page title words", "", vartLead, "", ""
	known := false
	if at == "property" {
		// a prefix is needed; others may stand before it
		known = sep == ":" && (p == "dc" || p == "dcterm" || p == "og" || p == "twitter" || p == "article")
		if p == "xog" && sep == ":" {
			p, known = "og", true
		}
		if p == "weibo:article" && sep == ":" {
			p, known = "article", true
		}
		if k == "titles" {
			k = "title"
		}
	} else {
		known = p == "" || p == "dc" || p == "dcterm" || p == "og" || p == "twitter" || p == "weibo:article" || p == "weibo:webpage"
	}
	if known {
		switch k {
		case "title":
			if p != "article" {
				title = "Some value"
			}
		case "creator":
			if p == "dc" || p == "dcterm" {
				byline = "Some value"
			}
		case "author":
			if p == "" {
				byline = "Some value"
			}
		case "description":
			if p != "article" {
				excerpt = "Some value"
			}
		case "site_name":
			if p == "og" {
				site = "Some value"
			}
		case "published_time":
			if p == "article" && at == "property" {
				time = "Some value"
			}
		}
	}
	vxAssert(res.Title == title, "title")
	vxAssert(res.Byline == byline, "byline")
	vxAssert(res.Excerpt == excerpt, "excerpt")
	vxAssert(res.SiteName == site, "site name")
	vxAssert(res.PublishedTime == time, "publishing time")
	vxReach("end")
}

// JSON-LD: which of it counts, and what it says.
func vhJSONLD() {
	ctx := vxPick("ctx", `"http://schema.org"`, `"https://schema.org"`, `"https://schema.org/"`, `"http://schema.org/x"`, `"http://example.org"`, `"xhttp://schema.org"`, "1", "")
	okCtx := ctx == `"http://schema.org"` || ctx == `"https://schema.org"` || ctx == `"https://schema.org/"`
	types := []string{"Article", "NewsArticle", "BlogPosting", "ScholarlyArticle", "SocialMediaPosting", "TechArticle", "Report", "OpinionNewsArticle", "AdvertiserContentArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle", "ReportageNewsArticle", "ReviewNewsArticle", "SatiricalArticle", "MedicalScholarlyArticle", "LiveBlogPosting", "DiscussionForumPosting", "APIReference", "WebPage", "Person", "Organization", "NewsMediaOrganization", ""}
	ti := vxInt("type", 0, len(types)-1)
	typ := types[ti]
	okTyp := ti < 19
	form := vxFork(vxPick("form", "plain", "graph", "cdata", "second", "disabled", "enabled", "othertype", "cut", "inbody"))
	data := `"headline":" Ld &amp; title words ","author":{"name":" Ld author "},"description":" Ld description ","publisher":{"name":" Ld site "},"datePublished":" Ld time "`
	obj := data
	if typ != "" {
		obj = `"@type":"` + typ + `",` + obj
	}
	js := ""
	if ctx != "" {
		js = `"@context":` + ctx + `,`
	}
	if form == "graph" {
		js = `{` + js + `"@graph":[{"@type":"Person","name":"nobody"},{` + obj + `}]}`
	} else {
		js = `{` + js + obj + `}`
	}
	open, cl := `<script type="application/ld+json">`, `</script>`
	ok := okCtx && okTyp
	var opts = []Option{CharThreshold(1)}
	script, body := "", ""
	switch form {
	case "cdata":
		script = open + ` <![CDATA[` + js + `]]> ` + cl
	case "second":
		script = open + `{"@context":"http://schema.org","@type":"WebSite","name":"bad site"}` + cl + open + `{bad` + cl + open + js + cl
	case "disabled":
		opts = append(opts, DisableJSONLD(true))
		script = open + js + cl
		ok = false
	case "enabled":
		opts = append(opts, DisableJSONLD(false))
		script = open + js + cl
	case "othertype":
		script = `<script type="application/json">` + js + cl
		ok = false
	case "cut":
		script = open + js[:len(js)-1] + cl
		ok = false
	case "inbody":
		body = open + js + cl
	default:
		script = open + js + cl
	}
	meta := "<meta name='author' content='Meta author'/><meta property='og:site_name' content='Meta site'/>"
	res, _, err := vparse(vdoc(script+meta+"<title>The page title words</title>", vartBody+body), vURL, opts...)
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	if ok {
		vxAssert(res.Title == "Ld & title words", "title of JSON-LD")
		vxAssert(res.Byline == "Ld author", "author of JSON-LD")
		vxAssert(res.Excerpt == "Ld description", "description of JSON-LD")
		vxAssert(res.SiteName == "Ld site", "publisher of JSON-LD")
		vxAssert(res.PublishedTime == "Ld time", "date of JSON-LD")
		vxReach("used")
	} else {
		vxAssert(res.Title == "The page title words", "no title of JSON-LD")
		vxAssert(res.Byline == "Meta author", "no author of JSON-LD")
		vxAssert(res.Excerpt == vartLead, "no description of JSON-LD")
		vxAssert(res.SiteName == "Meta site", "no publisher of JSON-LD")
		vxAssert(res.PublishedTime == "", "no date of JSON-LD")
		vxReach("unused")
	}
	vxAssert(!vhas(res.TextContent, "Ld") && !vhas(res.TextContent, "bad site"), "JSON-LD is not in the article")
}

// Values of JSON-LD fields: kinds, and name against headline.
func vhJSONLDValues() {
	name := vxPick("name", "", `"The page title words"`, `"Quite another thing"`, "1", "null", "[]")
	head := vxPick("head", "", `"The page title words"`, `"Completely different text"`, "1", "null")
	author := vxPick("author", "", `{"name":"A B"}`, `[{"name":"A B"},{"name":" C "}]`, `[1,{"name":"A B"},{"name":2}]`, `"A B"`, `{"name":1}`, "[]", "1")
	desc := vxPick("desc", "", `" D e "`, "1", "null")
	pub := vxPick("pub", "", `{"name":"P"}`, `{"name":1}`, `"P"`)
	date := vxPick("date", "", `"2020-01-01"`, "1")
	js := `{"@context":"https://schema.org","@type":"Article"`
	for _, kv := range [][2]string{{"name", name}, {"headline", head}, {"author", author}, {"description", desc}, {"publisher", pub}, {"datePublished", date}} {
		if kv[1] != "" {
			js += `,"` + kv[0] + `":` + kv[1]
		}
	}
	js += "}"
	res, _, err := vparse(vdoc(`<script type="application/ld+json">`+js+`</script><title>The page title words</title>`, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	str := func(s string) string {
		if strings.HasPrefix(s, `"`) {
			return strings.TrimSpace(s[1 : len(s)-1])
		}
		return ""
	}
	n, h := str(name), str(head)
	title := n
	if n == "" || n != "" && h == "The page title words" && n != h {
		title = h
	}
	if title == "" {
		title = "The page title words"
	}
	vxAssert(res.Title == title, "title")
	by := ""
	switch author {
	case `{"name":"A B"}`, `[1,{"name":"A B"},{"name":2}]`:
		by = "A B"
	case `[{"name":"A B"},{"name":" C "}]`:
		by = "A B, C"
	}
	vxAssert(res.Byline == by, "byline")
	vxAssert(res.Excerpt == vfirst(str(desc), vartLead), "excerpt")
	site := ""
	if pub == `{"name":"P"}` {
		site = "P"
	}
	vxAssert(res.SiteName == site, "site name")
	vxAssert(res.PublishedTime == str(date), "publishing time")
	vxReach("end")
}

// Character references and white space in the values.
func vhMetaDecode() {
	set := "<>&\"'a;#"
	c := vxByte("c1", set) + vxByte("c2", set)
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&#39;").Replace
	field := vxFork(vxPick("field", "title", "author", "description", "og:site_name", "article:published_time", "titleel"))
	val := "v" + c + "w"
	// escaped once for HTML, and once by the site itself
	in := esc(val)
	if vxBool("twice") {
		in = esc(in)
	}
	head := ""
	switch field {
	case "titleel":
		head = "<title>" + esc(val) + "</title>"
	case "og:site_name", "article:published_time":
		head = "<title>x</title><meta property='" + field + "' content=\"\n " + in + " \"/>"
	default:
		head = "<title>x</title><meta name='" + field + "' content=\"\n " + in + " \"/>"
	}
	res, _, err := vparse(vdoc(head, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	got := map[string]string{"title": res.Title, "author": res.Byline, "description": res.Excerpt, "og:site_name": res.SiteName, "article:published_time": res.PublishedTime, "titleel": res.Title}[field]
	vxObserve("got", got)
	vxAssert(got == val, "the value is trimmed and decoded: "+field)
	vxReach("end")
}

// Several JSON-LD blocks: the first that counts is used, and none of the rest.
func vhJSONLDMany() {
	kinds := map[string]string{
		"good":    `{"@context":"https://schema.org","@type":"Article","author":{"name":"Author N"},"publisher":{"name":"Site N"}}`,
		"graph":   `{"@context":"http://schema.org","@graph":[{"@type":["Person"],"author":{"name":"bad"}},{"@type":"NewsArticle","author":{"name":"Author N"},"publisher":{"name":"Site N"}},{"@type":"Article","author":{"name":"bad"}}]}`,
		"broken":  `{"@context":"https://schema.org","@type":"Article","author":{"name":"bad"},}`,
		"foreign": `{"@context":"http://other.test","@type":"Article","author":{"name":"bad"}}`,
		"noctx":   `{"@type":"Article","author":{"name":"bad"}}`,
		"objctx":  `{"@context":{"@vocab":"https://schema.org"},"@type":"Article","author":{"name":"bad"}}`,
		"type":    `{"@context":"https://schema.org","@type":"Recipe","author":{"name":"bad"}}`,
		"notype":  `{"@context":"https://schema.org","author":{"name":"bad"}}`,
		"gnone":   `{"@context":"https://schema.org","@graph":[{"@type":"Person","author":{"name":"bad"}},1,null]}`,
		"list":    `[{"@context":"https://schema.org","@type":"Article","author":{"name":"bad"}}]`,
		"empty":   ``,
		"null":    `null`,
	}
	names := []string{"good", "graph", "broken", "foreign", "noctx", "objctx", "type", "notype", "gnone", "list", "empty", "null", "none", "plain"}
	head, author, site := "", "Meta author", "Meta site"
	used := false
	for i, v := range []string{"a", "b", "c"} {
		k := names[vxInt(v, 0, len(names)-1)]
		n := string(rune('1' + i))
		switch k = vxFork(k); k {
		case "none":
		case "plain":
			head += `<script>var x = {"@context":"https://schema.org","@type":"Article","author":{"name":"bad"}}</script>`
		default:
			head += `<script type="application/ld+json">` + strings.ReplaceAll(kinds[k], " N", " "+n) + `</script>`
			if (k == "good" || k == "graph") && !used {
				author, site, used = "Author "+n, "Site "+n, true
			}
		}
	}
	if vxFork(vxPick("site", "ld", "meta")) == "meta" && used {
		head = strings.ReplaceAll(head, `,"publisher":{"name":"`+site+`"}`, "")
		site = "Meta site"
	}
	meta := "<meta name='author' content='Meta author'/><meta property='og:site_name' content='Meta site'/>"
	res, _, err := vparse(vdoc(head+meta+"<title>The page title words</title>", vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("byline", res.Byline)
	vxAssert(res.Byline == author, "the byline is that of the first block that counts")
	vxAssert(res.SiteName == site, "the site name is that of the first block that counts, else of the meta elements")
	if used {
		vxReach("used")
	} else {
		vxReach("unused")
	}
}

// vcovers: whether the words of s make up more than three quarters of the words of the title.
func vcovers(s string, title []string) bool {
	have := strings.Fields(strings.ToLower(s))
	n, all := 0, 0
	for _, w := range title {
		all += len(w) + 1
		found := false
		for _, h := range have {
			found = found || h == w
		}
		if !found {
			n += len(w) + 1
		}
	}
	if n > 0 {
		n--
	}
	return len(have) > 0 && 4*n < all-1
}

// Name and headline of JSON-LD differ: which of them is the title.
func vhHeadline() {
	title := []string{"seventh", "words", "make", "a", "heading"}
	side := func(id string) string {
		s := ""
		switch vxFork(vxPick(id+"drop", "", "seventh", "words", "make", "a", "heading", "words a", "make a", "seventh words", "all")) {
		case "":
			s = "Seventh words make a heading"
		case "seventh":
			s = "Words make a heading"
		case "words":
			s = "A seventh make heading"
		case "make":
			s = "Seventh words A heading"
		case "a":
			s = "Heading words make SEVENTH"
		case "heading":
			s = "Seventh words make a headings"
		case "words a":
			s = "Seventh make heading"
		case "make a":
			s = "Seventh words and heading"
		case "seventh words":
			s = "Make a heading"
		case "all":
			s = "Daily News"
		}
		return s + vxPick(id+"more", "", " by somebody else on the site")
	}
	name, head := side("n"), side("h")
	pad := vxPick("pad", "", " ", "\\n\\t")
	js := `{"@context":"https://schema.org","@type":"Article","name":"` + pad + name + `","headline":"` + head + pad + `"}`
	res, _, err := vparse(vdoc(`<title>Seventh words make a heading</title><script type="application/ld+json">`+js+`</script>`, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	if vcovers(head, title) && !vcovers(name, title) {
		vxAssert(res.Title == head, "the headline is the title when it alone matches that of the page")
		vxReach("headline")
	} else {
		vxAssert(res.Title == name, "else the name is")
		vxReach("name")
	}
}

// A meta element with both a property and a name: the name counts only where
// the property says nothing.
func vhMetaBoth() {
	prop := vxFork(vxPick("prop", "", "og:title", "dc:title", "og:description", "twitter:description", "dc:creator", "og:site_name", "article:published_time", "fb:app_id", "og:image"))
	name := vxFork(vxPick("name", "", "title", "dc:title", "twitter:title", "author", "description", "viewport"))
	other := vxPick("other", "", "<meta name='title' content='Other title'/>", "<meta name='description' content='Other text'/>")
	el := "<meta"
	if vxBool("order") {
		el += " name='" + name + "' property='" + prop + "'"
	} else {
		el += " property='" + prop + "' name='" + name + "'"
	}
	el += " content='Some value'/>"
	head := el + other + "<title>The page title words</title>"
	last := vxBool("last")
	if last {
		head = other + el + "<title>The page title words</title>"
	}
	res, _, err := vparse(vdoc(head, vartBody), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	vxObserve("title", res.Title)
	key := prop
	if prop == "" || prop == "fb:app_id" || prop == "og:image" {
		key = name
	}
	title, byline, excerpt, site, time := "", "", "", "", ""
	if vhas(other, "title") {
		title = "Other title"
	}
	if vhas(other, "description") {
		excerpt = "Other text"
	}
	switch key {
	case "og:title", "dc:title":
		title = "Some value"
	case "title":
		if last || title == "" {
			title = "Some value"
		}
	case "twitter:title":
		title = vfirst(title, "Some value")
	case "dc:creator", "author":
		byline = "Some value"
	case "og:description":
		excerpt = "Some value"
	case "description":
		if last || excerpt == "" {
			excerpt = "Some value"
		}
	case "twitter:description":
		excerpt = vfirst(excerpt, "Some value")
	case "og:site_name":
		site = "Some value"
	case "article:published_time":
		time = "Some value"
	}
	vxAssert(res.Title == vfirst(title, "The page title words"), "title")
	vxAssert(res.Byline == byline, "byline")
	vxAssert(res.Excerpt == vfirst(excerpt, vartLead), "excerpt")
	vxAssert(res.SiteName == site, "site name")
	vxAssert(res.PublishedTime == time, "publishing time")
	vxReach("end")
}
