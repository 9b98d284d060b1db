package readability

import "strings"

// C16: lazy images get their real source, real images keep theirs.

// vimgAt puts an image at a place of an article.
func vimgAt(where, img string) string {
	in := img
	switch where {
	case "p", "div", "section", "figure", "picture", "blockquote":
		in = "<" + where + ">" + img + "</" + where + ">"
	case "a":
		in = "<p>" + vsent("inl") + " <a href='/l'>" + img + "</a></p>"
	case "li":
		in = "<ul><li>" + vsent("item") + img + "</li></ul>"
	case "figcap":
		in = "<figure><div>" + img + "</div><figcaption>a caption</figcaption></figure>"
	case "td":
		in = "<table><tr><th>k</th><td>" + img + "</td></tr></table>"
	case "text":
		in = "<div>" + vsent("loose") + img + vsent("text") + "</div>"
	}
	return "<article>" + vpar("first") + in + vpar("second") + "</article>"
}

func vblank(b byte) bool { return b == ' ' || b == '\t' || b == '\n' }

// vimgKind tells where a value goes: an address that names an image file is a
// source; one with a descriptor after it is a source set.
func vimgKind(v string) string {
	src, exts := false, []string{".jpg", ".jpeg", ".png", ".webp"}
	for i := 1; i <= len(v); i++ {
		for _, e := range exts {
			if !strings.HasPrefix(v[i-1:], e) {
				continue
			}
			rest := v[i-1+len(e):]
			k := 0
			for k < len(rest) && vblank(rest[k]) {
				k++
			}
			if k > 0 && k < len(rest) && rest[k] >= '0' && rest[k] <= '9' {
				return "srcset"
			}
			f := strings.Fields(v)
			if len(f) == 1 && !strings.HasPrefix(f[0], e) {
				src = true
			}
		}
	}
	if src {
		return "src"
	}
	return ""
}

const vtiny = "data:image/gif;base64,"

// Each state of an image, each place of its real address.
func vhLazyAttr() {
	name := vxPick("name", "data-src", "data-srcset", "data-original", "title", "data-x")
	val := vxPick("val", "http://i.test/real.jpg", "http://i.test/real.png?w=1", "http://i.test/a.jpeg 1x, http://i.test/b.jpeg 2x", "http://i.test/r.webp 200w", "http://i.test/page", "see real.jpg here", "photo", " http://i.test/real.webp ")
	src := vxPick("src", "-", "", "http://i.test/own.gif", vtiny+"R0lGOD", vtiny+strings.Repeat("A", 132), vtiny+strings.Repeat("A", 133), "data:image/png;BASE64,AAAA", "data:image/svg+xml;base64,PHN2Zz4", "data:image/svg+xml,%3Csvg", "/x.png")
	class := vxPick("class", "", "lazy", "img LazyLoad", "wide")
	set := vxPick("set", "", "null", "http://i.test/s.png 1x")
	where := "p"
	lazy := strings.Contains(strings.ToLower(class), "lazy")
	img := "<img data-k='v'"
	if src != "-" {
		img += " src='" + src + "'"
	} else {
		src = ""
	}
	if set != "" {
		img += " srcset='" + set + "'"
	}
	img += " alt='words' " + name + "='" + val + "' class='" + class + "'/>"
	res, root, err := vparse(vdoc("<title>T</title>", vimgAt(where, img)), vURL, vthreshold())
	vxAssert(err == nil && vhas(res.TextContent, "second"), "there is an article")
	n := vfind(root, "data-k", "v")
	named := name == "data-src" || name == "data-srcset"
	if src == "" && set == "" && !named && !strings.Contains(img, "src='") && !strings.Contains(val, ".jpg") && !strings.Contains(val, ".jpeg") && !strings.Contains(val, ".png") && !strings.Contains(val, ".webp") {
		vxReach("bare")
		return // an image without any address may go
	}
	vxAssert(n != nil, "the image stays")
	kind := vimgKind(val)
	wantSrc, wantSet := src, set
	tiny := strings.HasPrefix(strings.ToLower(src), "data:image/") && strings.Contains(strings.ToLower(src), ";base64,")
	svg := strings.HasPrefix(src, "data:image/svg+xml;base64")
	if tiny && !svg && len(src)-strings.Index(src, ",")-1 < 133 && (kind != "" || strings.Contains(val, ".jpg") || strings.Contains(set, ".png")) {
		wantSrc = ""
	}
	if (wantSrc == "" && (set == "" || set == "null") || lazy) && !svg {
		switch kind {
		case "src":
			wantSrc = strings.TrimSpace(val)
		case "srcset":
			wantSet = val
		}
	}
	if wantSrc == "/x.png" {
		wantSrc = "http://host.test/x.png"
	}
	if wantSet == "null" {
		wantSet = "http://host.test/dir/null"
	}
	vxAssert(strings.TrimSpace(n.GetAttribute("src")) == wantSrc, "the source is the real one")
	vxAssert(strings.TrimSpace(n.GetAttribute("srcset")) == wantSet, "the source set is the real one")
	vxAssert(n.GetAttribute("alt") == "words" && n.GetAttribute(name) == val, "the other attributes are kept")
	if wantSrc != src {
		vxReach("replaced")
	} else {
		vxReach("own")
	}
}

// The form of the address, byte by byte.
func vhLazyValue() {
	pre := vxFork(vxByte("pre", "a. \t/"))
	ext := vxPick("ext", ".jpg", ".jpeg", ".png", ".webp", ".gif", "jpg", ".JPG", ".jpe", ".svg", ".jpg .png")
	b1 := vxFork(vxByte("b1", " a1\n?."))
	b2 := vxFork(vxByte("b2", " 9x\t"))
	val := "h" + pre + ext + b1 + b2
	kind := vimgKind(val)
	tag := vxPick("tag", "img", "picture", "figure", "figure-img")
	var m string
	switch tag {
	case "img":
		m = "<p><img data-k='v' data-lazy='" + val + "' data-src=''/></p>"
	case "picture":
		m = "<p>" + vsent("pic") + "<picture data-k='v' data-lazy='" + val + "'></picture></p>"
	case "figure":
		m = "<figure data-k='v' data-lazy='" + val + "'><figcaption>a caption</figcaption></figure>"
	case "figure-img":
		m = "<figure data-k='v' data-lazy='" + val + "'><img src='http://i.test/own.gif'/><figcaption>a caption</figcaption></figure>"
	}
	_, root, err := vparse(vdoc("<title>T</title>", "<article>"+vpar("first")+m+vpar("second")+"</article>"), vURL, CharThreshold(1))
	vxAssert(err == nil, "there is an article")
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil, "the image stays")
	switch tag {
	case "figure":
		vxAssert(vcount(n, "img") == 1 == (kind != ""), "a figure without an image gets one iff it has an address")
		if kind == "" {
			return
		}
		n = n.getElementsByTagName("img")[0]
	case "figure-img":
		vxAssert(vcount(n, "img") == 1, "a figure with an image gets no other")
		n = n.getElementsByTagName("img")[0]
		vxAssert(n.GetAttribute("src") == "http://i.test/own.gif" && !n.HasAttribute("srcset"), "and that image keeps its address")
		return
	}
	vxAssert(n.HasAttribute("src") == (kind == "src"), "an address becomes the source")
	vxAssert(n.HasAttribute("srcset") == (kind == "srcset"), "addresses with descriptors become the source set")
	vxReach("end" + kind)
}

// Every place of an image in the article.
func vhLazyPlace() {
	pls := strings.Fields("top p div section figure picture blockquote a li figcap td text")
	where := pls[vxInt("where", 0, len(pls)-1)]
	img := vxPick("img", "<img data-k='v' data-src='real.jpg'/>", "<img data-k='v' data-src='real.jpg' src='"+vtiny+"AA'/>", "<img data-k='v' data-src='real.jpg' src='x.gif' class='lazy'/>", "<img data-k='v' src='real.jpg' data-src='x.gif'/>", "<img data-k='v' src='real.jpg' data-src='other.png'/>", "<img data-k='v' data-srcset='real.jpg 2x'/>", "<img data-k='v' class='lazy' src='x.gif'/><noscript><img data-k='v' src='real.jpg'/></noscript>")
	_, root, err := vparse(vdoc("<title>T</title>", vimgAt(where, img)), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil && n.LocalName == "img", "the image stays")
	if strings.Contains(img, "srcset") {
		vxAssert(n.GetAttribute("srcset") == "http://host.test/dir/real.jpg 2x", "with its source set, absolute")
	} else {
		vxAssert(n.GetAttribute("src") == "http://host.test/dir/real.jpg", "with its real source, absolute")
	}
	vxAssert(vcount(root, "img") == 1, "once")
	vxReach("end")
}

// The fallback for browsers without scripts.
func vhNoscript() {
	old := vxPick("old", "<img src='tiny.gif'/>", "<img src='tiny.png' class='lazy'/>", "<img src='tiny.png' srcset='t.png 1x' data-src='real.jpg'/>", "<span><img src='tiny.gif'/></span>", "<a href='/l'> <b><img src='tiny.gif'/></b> </a>", "<img data-src='real.jpg' src='tiny.png' title='t'/>", "<img src='real.jpg'/>", "<span>text<img src='tiny.gif'/></span>", "<span><img src='tiny.gif'/><img src='tiny2.gif'/></span>", "")
	gap := vxPick("gap", "", " ", "\n\t", "words")
	fall := vxPick("fall", "<img data-k='v' src='real.jpg' alt='a'/>", "<img src='real.jpg' data-k='v' class='lazyload'/>", " <img data-k='v' srcset='r.jpg 2x' src='real.jpg'/>\n", "<span><img data-k='v' src='real.jpg'/></span>", "<img data-k='v' src='real.jpg'/>words", "<img data-k='v' src='real.jpg'/><img src='real2.jpg'/>", "words", "")
	where := vxPick("where", "p", "div", "figure", "li")
	_, root, err := vparse(vdoc("<title>T</title>", vimgAt(where, old+gap+"<noscript>"+fall+"</noscript>")), vURL, vthreshold())
	vxAssert(err == nil, "there is an article")
	n := vfind(root, "data-k", "v")
	usable := strings.Contains(fall, "data-k") && !strings.Contains(fall, "words") && !strings.Contains(fall, "real2")
	single := old != "" && !strings.Contains(old, "text") && !strings.Contains(old, "tiny2")
	if usable && single {
		vxAssert(n != nil, "the fallback image replaces the one before it")
		vxAssert(n.GetAttribute("src") == "http://host.test/dir/real.jpg", "with its own source")
		if strings.Contains(fall, "srcset") {
			vxAssert(n.GetAttribute("srcset") == "http://host.test/dir/r.jpg 2x", "and source set")
		} else if !strings.Contains(old, "srcset") && !strings.Contains(old, "title") {
			vxAssert(!n.HasAttribute("srcset"), "and no other")
		}
		if strings.Contains(fall, "alt") {
			vxAssert(n.GetAttribute("alt") == "a", "its attributes are kept")
		}
		k := strings.Index(old, "tiny.")
		if k >= 0 {
			vxAssert(n.GetAttribute("data-old-src") == old[k:k+8], "the old address is kept aside")
		}
		vxAssert(vcount(root, "img") == 1, "one image is left")
		vxReach("unwrapped")
	} else {
		vxAssert(n == nil, "no other fallback shows")
		vxReach("plain")
	}
	vxAssert(vcount(root, "noscript") == 0, "no noscript is left")
}

// Several attributes with addresses: one that holds a single address gives
// the source, one that holds several gives the source set.
func vhLazyMany() {
	vals := []string{"", "http://i.test/one.jpg", "http://i.test/two.png", "http://i.test/a.jpeg 1x, http://i.test/b.jpeg 2x", "http://i.test/r.webp 200w", "plain"}
	names := []string{"data-src", "data-srcset", "data-original", "title", "alt"}
	img := "<img data-k='v'"
	var srcs, sets []string
	pick := func(n string) {
		i := vxInt("n"+n, 0, len(names)-1)
		for _, o := range []string{"a", "b"} {
			if o >= n {
				break
			}
			vxAssume(vxInt("n"+o, 0, len(names)-1) != i)
		}
		v := vals[vxInt("v"+n, 0, len(vals)-1)]
		if v == "" {
			return
		}
		img += " " + names[i] + "='" + v + "'"
		if names[i] == "alt" {
			return
		}
		switch vimgKind(v) {
		case "src":
			srcs = append(srcs, v)
		case "srcset":
			sets = append(sets, v)
		}
	}
	pick("a")
	if vxBool("mid") {
		img += " width='300' height='200'"
	}
	pick("b")
	if vxThorough() {
		pick("c")
	}
	own := ""
	if vxBool("lazy") {
		own = "http://i.test/own.gif"
		img += " src='" + own + "' class='lazy'"
	}
	img += "/>"
	vxAssume(len(srcs)+len(sets) > 0)
	// another image before it
	before := vxPick("before", "", "<p>"+vsent("x")+"<img src='data:image/svg+xml;base64,PHN2Zz4='/></p>", "<p>"+vsent("x")+"<img src='/x.png'/></p>", "<p>"+vsent("x")+"<img src='data:image/gif;base64,R0lGODlh' data-src='/y.jpg'/></p>", "<p>"+vsent("x")+"<img src='data:image/png;base64,R0lGODlh'/></p>")
	res, root, err := vparse(vdoc("<title>T</title>", "<div>"+before+vimgAt(vxFork(vxPick("where", "p", "figure")), img)+"</div>"), vURL, vthreshold())
	vxAssert(err == nil && vhas(res.TextContent, "second"), "there is an article")
	n := vfind(root, "data-k", "v")
	vxAssert(n != nil, "the image stays")
	in := func(s string, l []string, none string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return len(l) == 0 && s == none
	}
	vxAssert(in(n.GetAttribute("src"), srcs, own), "the source is one that the image has")
	vxAssert(in(n.GetAttribute("srcset"), sets, ""), "the source set is one that the image has")
	vxReach("end")
}
