package readability

import "strings"

// C12: what each attempt adds. Parts that only later attempts let pass are
// in the article when, and only when, the text of the attempts before is
// shorter than the threshold.
func vhStages() {
	t := vxInt("t", 1, 1300)
	main := strings.Repeat("<p>MM, aa, bb, cc, dd, ee, ff "+strings.Repeat("m", 73)+"</p>", 2) // 100 characters each
	sizes := func(n string) int { return vdec(vxFork(vxPick(n, "0", "60", "200"))) }
	part := func(mark string, n int) string {
		if n == 0 {
			return ""
		}
		return "<p>" + mark + " " + strings.Repeat("x", n-3) + "</p>"
	}
	u, n, f := sizes("u"), sizes("n"), sizes("f")
	body := main
	add := func(s, mark string, k int) string {
		if k == 0 {
			return ""
		}
		return strings.ReplaceAll(s, "*", part(mark, k))
	}
	us := add(vxFork(vxPick("uk", "<section class='menu'>*</section>", "<section id='rss'>*</section>")), "UU", u)
	ns := add(vxFork(vxPick("nk", "<div class='widget'>*<pre></pre></div>", "<div id='tags'>*<pre></pre></div>")), "NN", n)
	fs := add(vxFork(vxPick("fk", "<form><input/>*</form>", "<table role='presentation'><tr><td>*</td><td><img src='/a.png'/><img src='/b.png'/><img src='/c.png'/></td></tr></table>")), "FF", f)
	switch vxFork(vxPick("order", "unf", "fnu", "nuf")) {
	case "unf":
		body += us + ns + fs
	case "fnu":
		body = fs + ns + us + body
	case "nuf":
		body = ns + body + us + fs
	}
	res, _, err := vparse("<html><head></head><body><div>"+body+"</div></body></html>", vURL, CharThreshold(t))
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	hasU, hasN, hasF := vhas(res.TextContent, "UU"), vhas(res.TextContent, "NN"), vhas(res.TextContent, "FF")
	vxAssert(strings.Count(res.TextContent, "MM") == 2, "the article's own text is always there")
	l1 := 200
	l2, l3 := l1+u, l1+u+n
	if t <= l1 {
		vxAssert(!hasU && !hasN && !hasF, "the first attempt is long enough")
		vxReach("first")
	} else if t <= l2 {
		vxAssert(hasU && !hasN && !hasF, "the second attempt takes unlikely elements in")
		vxReach("second")
	} else if t <= l3 {
		vxAssert(hasU == (u > 0) && hasN && !hasF, "the third attempt takes negative classes in")
		vxReach("third")
	} else {
		vxAssert(hasU == (u > 0) && hasN == (n > 0) && hasF == (f > 0), "the last attempt takes fishy blocks in")
		vxReach("last")
	}
}

// Of attempts that are all too short, the longest counts, whichever it is.
func vhLongest() {
	_, got, want := vlongest("", func(string) string { return "" })
	vxAssert(got == want, "the result is the first attempt that is long enough, else the longest")
}

// However little text there is, it is the article.
func vhTiny() {
	t := vxInt("t", 1, 4)
	s := vxFork(vxPick("s", "", "x", "é", "xy", "xyz"))
	at := vxFork(vxPick("at", "<p>*</p>", "<div><p>*</p></div>", "<article>*</article>", "*", "<p class='menu'>*</p>", "<div class='widget'><p>*</p><pre></pre></div>", "<div><p><b>*</b></p></div>"))
	img := vxFork(vxPick("img", "", "<img src='/a.png'/>", "<br/>"))
	res, _, err := vparse("<html><head></head><body>"+strings.ReplaceAll(at, "*", s+img)+"</body></html>", vURL, CharThreshold(t))
	vxAssert((err == nil) == (s != ""), "there is an article if there is text")
	if err == nil {
		vxObserve("text", res.TextContent)
		vxAssert(res.TextContent == s, "the article is that text")
		vxReach("tiny")
	} else {
		vxReach("none")
	}
}

// C18: the direction is that of the attempt that counts.
func vhDirLongest() {
	dirs := map[string]string{"UU": "rtl", "VV": "ltr", "NN": "auto"}
	bare := vxFork(vxPick("bare", "", "UU", "VV", "NN"))
	res, got, want := vlongest(" dir='all'", func(m string) string {
		if m == bare {
			return ""
		}
		return " dir='" + dirs[m] + "'"
	})
	vxObserve("dir", res.Dir)
	vxAssert(got == want, "the result is the first attempt that is long enough, else the longest")
	if want == bare {
		vxAssert(res.Dir == "all", "the direction is that of the closest around the article of this attempt")
		vxReach("body")
	} else {
		vxAssert(res.Dir == dirs[want], "the direction is that around the article of this attempt")
		vxReach("own")
	}
}

func vlongest(bodyAt string, dir func(string) string) (*Result, string, string) {
	t := vxInt("t", 1, 1300)
	// U is taken from the second attempt on, and has its class for it in the
	// second only; V is there in every attempt; N has its class against it in
	// the first two.
	size := func(n string) int { return vdec(vxFork(vxPick(n, "120", "180", "240", "300"))) }
	u, v, n := size("u"), size("v"), size("n")
	blk := func(mark, at string, k, commas int) string {
		lead := mark + strings.Repeat(",x", commas) + " "
		return "<article" + dir(mark) + "><div" + at + "><p>" + lead + strings.Repeat("y", k-len(lead)) + "</p><pre></pre></div><p>z</p></article>"
	}
	us := blk("UU", " class='extra story'", u, 4)
	vs := blk("VV", "", v, 10)
	ns := ""
	hasN := vxBool("hasn")
	if hasN {
		ns = blk("NN", " class='widget'", n, 20)
	}
	body := us + vs + ns
	if vxBool("turn") {
		body = ns + vs + us
	}
	res, _, err := vparse("<html><head></head><body"+bodyAt+">"+body+"</body></html>", vURL, CharThreshold(t))
	vxAssert(err == nil, "there is an article")
	vxObserve("text", res.TextContent)
	got := ""
	for _, m := range []string{"UU", "VV", "NN"} {
		if vhas(res.TextContent, m) {
			got += m
		}
	}
	a := []string{"VV", "UU", "VV", "VV"}
	l := []int{v, u, v, v}
	if hasN {
		a[2], a[3], l[2], l[3] = "NN", "NN", n, n
	}
	want, best := "", 0
	for i := range a {
		if l[i] >= t {
			want = a[i]
			break
		}
	}
	if want == "" {
		for i := range a {
			if l[i] > best {
				want, best = a[i], l[i]
			}
		}
		vxReach("longest")
	} else {
		vxReach("enough")
	}
	return res, got, want
}
