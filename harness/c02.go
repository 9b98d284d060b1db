package readability

// C02: the tree of nodes stays consistent under every history of edits.

type vmNode struct {
	n      *Node
	elem   bool
	parent *vmNode
	kids   []*vmNode
}

func (m *vmNode) index(c *vmNode) int {
	for i := 0; i < len(m.kids); i++ {
		if m.kids[i] == c {
			return i
		}
	}
	return -1
}

func (m *vmNode) detach() {
	if m.parent == nil {
		return
	}
	i := m.parent.index(m)
	var k []*vmNode
	k = append(k, m.parent.kids[:i]...)
	k = append(k, m.parent.kids[i+1:]...)
	m.parent.kids = k
	m.parent = nil
}

func (m *vmNode) under(a *vmNode) bool {
	for x := m; x != nil; x = x.parent {
		if x == a {
			return true
		}
	}
	return false
}

// vmCheck compares a node and all its links with the model.
func vmCheck(m *vmNode) {
	n := m.n
	if m.parent == nil {
		vxAssert(n.ParentNode == nil, "a node that is in no tree has no parent")
		vxAssert(n.NextSibling == nil && n.PreviousSibling == nil, "a node that is in no tree has no siblings")
		vxAssert(n.NextElementSibling == nil && n.PreviousElementSibling == nil, "a node that is in no tree has no element siblings")
	}
	if !m.elem {
		return
	}
	vxAssert(len(n.ChildNodes) == len(m.kids), "child list has the expected length")
	var prev, prevEl *Node
	ne := 0
	for i := 0; i < len(m.kids); i++ {
		c := m.kids[i].n
		vxAssert(n.ChildNodes[i] == c, "child list has the expected nodes in order")
		vxAssert(c.ParentNode == n, "child points at its parent")
		vxAssert(c.PreviousSibling == prev, "previous sibling link")
		if prev != nil {
			vxAssert(prev.NextSibling == c, "next sibling link")
		}
		prev = c
		if m.kids[i].elem {
			vxAssert(ne < len(n.Children) && n.Children[ne] == c, "element child list has the elements in order")
			vxAssert(c.PreviousElementSibling == prevEl, "previous element sibling link")
			if prevEl != nil {
				vxAssert(prevEl.NextElementSibling == c, "next element sibling link")
			}
			prevEl = c
			ne++
		}
		vmCheck(m.kids[i])
	}
	if prev != nil {
		vxAssert(prev.NextSibling == nil, "last child has no next sibling")
	}
	if prevEl != nil {
		vxAssert(prevEl.NextElementSibling == nil, "last element child has no next element sibling")
	}
	vxAssert(len(n.Children) == ne, "element child list has only the element children")
	if len(m.kids) > 0 {
		vxAssert(n.FirstChild() == m.kids[0].n && n.LastChild() == m.kids[len(m.kids)-1].n, "first and last child")
	} else {
		vxAssert(n.FirstChild() == nil && n.LastChild() == nil, "no child: no first, no last")
	}
	if ne > 0 {
		vxAssert(n.FirstElementChild() == n.Children[0], "first element child")
	} else {
		vxAssert(n.FirstElementChild() == nil, "no element child: no first one")
	}
}

func vmBuild(n *Node, all *[]*vmNode) *vmNode {
	m := &vmNode{n: n, elem: n.NodeType == elementNode}
	*all = append(*all, m)
	for i := 0; i < len(n.ChildNodes); i++ {
		c := vmBuild(n.ChildNodes[i], all)
		c.parent = m
		m.kids = append(m.kids, c)
	}
	return m
}

func vmRoots(all []*vmNode) {
	for i := 0; i < len(all); i++ {
		if all[i].parent == nil {
			vmCheck(all[i])
		}
	}
}

// vmOp does one edit, chosen by the solver, on the real tree and on the model.
func vmOp(tag string, all []*vmNode) []*vmNode {
	op := vxPick("op"+tag, "append", "remove", "replace", "html", "text")
	p := all[vxInt("p"+tag, 0, len(all)-1)]
	vxAssume(p.elem)
	switch op {
	case "append":
		c := all[vxInt("c"+tag, 0, len(all)-1)]
		vxAssume(!p.under(c))
		p.n.AppendChild(c.n)
		c.detach()
		c.parent = p
		p.kids = append(p.kids, c)
		vxReach("append")
	case "remove":
		c := all[vxInt("c"+tag, 0, len(all)-1)]
		got, err := p.n.RemoveChild(c.n)
		if c.parent == p {
			vxAssert(err == nil && got == c.n, "removing a child gives it back")
			c.detach()
			vxReach("remove")
		} else {
			vxAssert(err != nil, "removing a node that is not a child is an error")
			vxReach("removeNot")
		}
	case "replace":
		c := all[vxInt("c"+tag, 0, len(all)-1)]
		o := all[vxInt("o"+tag, 0, len(all)-1)]
		vxAssume(o.parent == p)
		vxAssume(!p.under(c))
		got := p.n.ReplaceChild(c.n, o.n)
		vxAssert(got == o.n, "replacing gives the replaced node")
		if c != o {
			c.detach()
			i := p.index(o)
			p.kids[i] = c
			c.parent = p
			o.parent = nil
			vxReach("replace")
		} else {
			vxReach("replaceSelf")
		}
	case "html":
		h := vxPick("h"+tag, "", "t", "<b>x</b>", "t<i></i>", "<b>x</b>t<i></i>")
		p.n.SetInnerHTML(h)
		for i := 0; i < len(p.kids); i++ {
			p.kids[i].parent = nil
		}
		p.kids = nil
		want := 0
		switch h {
		case "t", "<b>x</b>":
			want = 1
		case "t<i></i>":
			want = 2
		case "<b>x</b>t<i></i>":
			want = 3
		}
		vxAssert(len(p.n.ChildNodes) == want, "new content has the expected number of nodes")
		for i := 0; i < len(p.n.ChildNodes); i++ {
			c := vmBuild(p.n.ChildNodes[i], &all)
			c.parent = p
			p.kids = append(p.kids, c)
		}
		vxReach("html")
	case "text":
		p.n.SetTextContent("t")
		for i := 0; i < len(p.kids); i++ {
			p.kids[i].parent = nil
		}
		p.kids = nil
		vxAssert(len(p.n.ChildNodes) == 1, "text content is one node")
		c := vmBuild(p.n.ChildNodes[0], &all)
		c.parent = p
		p.kids = append(p.kids, c)
		vxAssert(p.n.GetTextContent() == "t", "text content is what was set")
		vxReach("text")
	}
	return all
}

// One edit from a tree of symbolic shape: this is the inductive step.
func vhTreeStep() {
	k := []string{"t", "<b></b>", ""}
	src := "<html><body><div>" + vxPick("s0", k...) + "<u>" + vxPick("s1", k...) + vxPick("s2", "t", "<b></b>") + "</u>" + vxPick("s3", k...) + vxPick("s4", "t", "<b></b>", "<p>t</p>") + "</div><h1>t</h1></body></html>"
	d := newDOMParser().parse(src, vURL)
	div := d.Body.FirstChild()
	var all []*vmNode
	vmBuild(div, &all)
	// the parts are checked as trees of their own
	if _, err := d.Body.RemoveChild(div); err != nil {
		vxAssert(false, "removing a child")
	}
	vmBuild(d.Body.FirstChild(), &all)
	d.Body.RemoveChild(d.Body.FirstChild())
	vmRoots(all)
	all = vmOp("A", all)
	vmRoots(all)
}

// Edit histories from one tree, with detached nodes around.
func vhTreeHistory() {
	src := vxPick("src", "<html><body><div>t<b></b>t<i>t</i></div></body></html>", "<html><body><div><b></b><i></i><u></u></div></body></html>")
	d := newDOMParser().parse(src, vURL)
	div := d.Body.FirstChild()
	d.Body.RemoveChild(div)
	var all []*vmNode
	vmBuild(div, &all)
	all = vmOp("A", all)
	all = vmOp("B", all)
	if vxThorough() {
		all = vmOp("C", all)
	}
	vmRoots(all)
}
