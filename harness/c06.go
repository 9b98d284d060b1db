package readability

import "strings"

// C06: URLs in the article are those of the source, made absolute. The oracle
// is a resolver written from RFC 3986, section 5.

type vuri struct {
	scheme, auth, path, query, frag string
	hasScheme, hasAuth, hasQ, hasF  bool
}

func vusplit(s string) vuri {
	var u vuri
	if i := strings.IndexByte(s, '#'); i >= 0 {
		u.hasF, u.frag, s = true, s[i+1:], s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		u.hasQ, u.query, s = true, s[i+1:], s[:i]
	}
	if i := strings.IndexByte(s, ':'); i > 0 && !strings.Contains(s[:i], "/") {
		u.hasScheme, u.scheme, s = true, strings.ToLower(s[:i]), s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		u.hasAuth = true
		s = s[2:]
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		u.auth, s = s[:i], s[i:]
	}
	u.path = s
	return u
}

// vudots removes the dot segments of a path that begins with a slash.
func vudots(p string) string {
	segs := strings.Split(p, "/")
	var out []string
	for i := 1; i < len(segs); i++ {
		last := i == len(segs)-1
		switch segs[i] {
		case ".":
			if last {
				out = append(out, "")
			}
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, segs[i])
		}
	}
	return "/" + strings.Join(out, "/")
}

// vuresolve gives the reference ref relative to base, which has an authority.
func vuresolve(base, ref string) string {
	b, r := vusplit(base), vusplit(ref)
	if r.hasScheme && !r.hasAuth && !strings.HasPrefix(r.path, "/") {
		return r.scheme + ref[len(r.scheme):]
	}
	t := r
	switch {
	case r.hasScheme:
	case r.hasAuth:
		t.scheme = b.scheme
	default:
		t.scheme, t.auth = b.scheme, b.auth
		if r.path == "" {
			t.path = b.path
			if !r.hasQ {
				t.query, t.hasQ = b.query, b.hasQ
			}
		} else if !strings.HasPrefix(r.path, "/") {
			t.path = b.path[:strings.LastIndexByte(b.path, '/')+1] + r.path
			if b.path == "" {
				t.path = "/" + r.path
			}
		}
	}
	if t.path == "" {
		t.path = "/"
	}
	out := t.scheme + ":"
	if t.auth != "" || r.hasAuth || t.scheme == "http" || t.scheme == "https" {
		out += "//"
	}
	if i := strings.LastIndexByte(t.auth, '@'); i >= 0 {
		out += t.auth[:i+1]
		t.auth = t.auth[i+1:]
	}
	out += strings.ToLower(t.auth) + vudots(t.path)
	if t.hasQ {
		out += "?" + t.query
	}
	if t.hasF {
		out += "#" + t.frag
	}
	return out
}

// vuart has a URL in one attribute of an article and hands out its new value.
func vuart(where, url, head, ref string) string {
	x := ""
	k := " data-k='v'"
	at := "src"
	switch where {
	case "a":
		at = "href"
		x = "<p>" + vsent("link") + " <a" + k + " href='" + ref + "'>there</a> it is</p>"
	case "imglink":
		at = "href"
		x = "<p>" + vsent("link") + " <a" + k + " href='" + ref + "'><img src='/i.png'/></a> it is</p>"
	case "img":
		x = "<p>" + vsent("pic") + "<img" + k + " src='" + ref + "'/></p>"
	case "figure":
		x = "<figure><img" + k + " src='" + ref + "'/><figcaption>" + vsent("cap") + "</figcaption></figure>"
	case "poster":
		at = "poster"
		x = "<p>" + vsent("film") + "<video" + k + " poster='" + ref + "'></video></p>"
	case "video", "audio":
		x = "<p>" + vsent("film") + "<" + where + k + " src='" + ref + "'></" + where + "></p>"
	case "source":
		x = "<p>" + vsent("film") + "<video><source" + k + " src='" + ref + "'/></video></p>"
	}
	body := "<article>" + vpar("first") + x + vpar("second") + "</article>"
	_, root, err := vparse(vdoc("<title>T</title>"+head, body), url, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil, "the element is in the article")
	return n.GetAttribute(at)
}

func vubase(url, base string) string {
	if base == "" {
		return url
	}
	return vuresolve(url, base)
}

// References with free characters against several base URLs.
func vhURLRef() {
	url := vxPick("url", "http://host.test/dir/page", "http://host.test", "https://User:pw@Host.test:8080/a/b/?q=1#f")
	pre := vxPick("pre", "", "/", "./", "../", "../../", "?", "#", "http://Other.TEST/", "https://other.test", "mailto:", "data:image/png;base64,", "sub/", "a//", "/.", "//o.test/", "ftp://o.test/", "%41%2f", "x%20y/")
	suf := vxPick("suf", "", "/z", "?q=1&r", "#f", "/../k", "%C3%A9")
	url, pre, suf = vxFork(url), vxFork(pre), vxFork(suf)
	set := "aZ.-_~!&=,;@/?#"
	b1, b2 := vxByte("b1", set), vxByte("b2", set)
	// a second '#' is no URL, and for an authority see vhURLWhere
	h := strings.Contains(pre, "#")
	for _, x := range []string{b1, b2} {
		if x == "#" && pre != "#" {
			vxAssume(!h && suf != "#f")
			h = true
		}
	}
	if pre == "" || pre == "/" || pre == "mailto:" {
		if b1 == "/" {
			vxAssume(pre == "" && b2 != "/")
		}
	}
	ref := pre + b1 + b2 + suf
	if pre == "https://other.test" {
		// keep the free characters out of the authority
		ref = pre + "/" + b1 + b2 + suf
	}
	got := vuart("a", url, "", ref)
	vxObserve("got", got)
	if strings.HasPrefix(ref, "#") {
		vxAssert(got == ref, "a link to a fragment of the page stays")
		vxReach("frag")
		return
	}
	want := vuresolve(url, ref)
	if i := strings.Index(want, "://"); i >= 0 {
		// a path that would begin with two slashes is cut to one by net/url
		rest := want[i+3:]
		j := strings.IndexByte(rest, '/')
		vxAssume(!strings.HasPrefix(rest[j:], "//"))
	}
	vxAssert(got == want, "the URL is the resolved one")
	vxReach("end")
}

// All places with URLs, with and without base elements.
func vhURLWhere() {
	where := vxPick("where", "a", "imglink", "img", "figure", "poster", "video", "audio", "source")
	base := vxPick("base", "", "/base/", "sub/x", "//other.test/y", "https://b.test", "?q", "#frag", "../up/")
	head := ""
	switch vxPick("form", "one", "two", "body") {
	case "one":
		if base != "" {
			head = "<base href='" + base + "'/>"
		}
	case "two":
		if base != "" {
			head = "<base href='" + base + "'/><base href='http://no.test/'/>"
		}
	case "body":
		if base != "" {
			head = "<meta name='x' content='y'/><base target='_blank' href='" + base + "'/>"
		}
	}
	ref := vxPick("ref", "x.png", "/x.png", "//cdn.test/x.png", "../x.png", "?a=b", "#top", "http://abs.test/x%2Fy?q#f", " pad.png ", "data:image/png;base64,AAAA", "x.png?a=b&amp;c=%20", "x#a%20b", "x(1),y;z='", "./", "..", "x?#f", "HTTP://ABS.test", "http://[bad", "x%zz", ":", "http://u:p@h.test:80/x", "x y.png")
	q := strings.ReplaceAll(ref, "'", "%27")
	got := vuart(where, vURL, head, q)
	vxObserve("got", got)
	q = strings.ReplaceAll(strings.TrimSpace(q), "&amp;", "&")
	switch {
	case ref == "http://[bad" || ref == "x%zz" || ref == ":":
		vxAssert(got == q, "a URL that cannot be resolved stays")
		vxReach("bad")
	case base == "" && strings.HasPrefix(q, "#"):
		vxAssert(got == q, "a link to a fragment of the page stays")
		vxReach("frag")
	default:
		b := vubase(vURL, base)
		vxAssert(got == vuresolve(b, strings.ReplaceAll(q, " ", "%20")), "the URL is the resolved one")
	}
	vxReach("end")
}

// Candidates of srcset: each URL is made absolute, everything else stays.
func vhSrcset() {
	u := []string{"x.png", "/p/y(1).png", "//cdn.test/z,1", "http://abs.test/w?q=1,2", "data:image/png;base64,AA", "../v%20w.png", "image/w_1,h_2/a.jpg"}
	sep := vxPick("sep", ", ", ",\n\t", " , ", ",  ")
	d1 := vxPick("d1", " 1x", " 2.5x", " 640w", "")
	d2 := vxPick("d2", " 2x", " 100w", "", "  3x")
	u1 := u[vxInt("u1", 0, len(u)-1)]
	u2 := u[vxInt("u2", 0, len(u)-1)]
	three := vxPick("three", "", ", q.png 4x", ", q.png 4x, /r.png 5x, s.png 6x, t/u.png 7x, v.png 8x, w.png 9x")
	set := u1 + d1 + sep + u2 + d2 + three
	where := vxPick("where", "img", "source", "picture")
	k := " data-k='v'"
	x := "<img src='i.png'" + k + " srcset='" + set + "'/>"
	switch where {
	case "source":
		x = "<video><source" + k + " srcset='" + set + "'/></video>"
	case "picture":
		x = "<picture><source" + k + " srcset='" + set + "'/><img src='i.png'/></picture>"
	}
	body := "<article>" + vpar("first") + "<p>" + vsent("pic") + x + "</p>" + vpar("second") + "</article>"
	_, root, err := vparse(vdoc("<title>T</title>", body), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil, "the element is in the article")
	got := n.GetAttribute("srcset")
	vxObserve("got", got)
	// what a browser makes of the two: the list of (URL, descriptor)
	want := vset(set)
	for i := range want {
		if i%2 == 0 {
			want[i] = vuresolve(vURL, want[i])
		}
	}
	vxAssert(strings.Join(vset(got), " | ") == strings.Join(want, " | "), "the candidates are the same, with absolute URLs")
	vxReach("end")
}

// vset parses a srcset as the HTML standard says: URL, descriptor, URL, ...
func vset(s string) []string {
	var out []string
	i := 0
	for {
		for i < len(s) && (strings.IndexByte(" \t\n\r\f,", s[i]) >= 0) {
			i++
		}
		if i >= len(s) {
			return out
		}
		j := i
		for j < len(s) && strings.IndexByte(" \t\n\r\f", s[j]) < 0 {
			j++
		}
		u := s[i:j]
		i = j
		d := ""
		if strings.HasSuffix(u, ",") {
			u = strings.TrimRight(u, ",")
		} else {
			for j < len(s) && s[j] != ',' {
				j++
			}
			d = strings.TrimSpace(s[i:j])
			i = j
		}
		out = append(out, u, d)
	}
}
