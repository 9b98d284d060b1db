package readability

import "strings"

// ---- shared by the harnesses ----

const vURL = "http://host.test/dir/page"

// vw walks a tree in document order.
func vw(n *Node, f func(*Node)) {
	f(n)
	for i := 0; i < len(n.ChildNodes); i++ {
		vw(n.ChildNodes[i], f)
	}
}

// vwf walks the elements below n and tells whether some satisfies f.
func vwf(n *Node, f func(*Node) bool) bool {
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == elementNode && f(c) || vwf(c, f) {
			return true
		}
	}
	return false
}

// vfind gives the first element below n with this attribute value, or nil.
func vfind(n *Node, attr, val string) *Node {
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == elementNode && c.GetAttribute(attr) == val {
			return c
		}
		if x := vfind(c, attr, val); x != nil {
			return x
		}
	}
	return nil
}

// vcount counts the elements below n with this tag.
func vcount(n *Node, tag string) int {
	k := 0
	for i := 0; i < len(n.ChildNodes); i++ {
		c := n.ChildNodes[i]
		if c.NodeType == elementNode && c.LocalName == tag {
			k++
		}
		k += vcount(c, tag)
	}
	return k
}

// vparse runs the public API and also hands out the article's root node.
func vparse(src, url string, opts ...Option) (*Result, *Node, error) {
	var root *Node
	opts = append(opts, Serializer(func(n *Node) string {
		root = n
		return n.GetInnerHTML()
	}))
	r, err := New(src, url, opts...)
	if err != nil {
		return nil, nil, err
	}
	res, err := r.Parse()
	return res, root, err
}

// vdoc wraps body content.
func vdoc(head, body string) string {
	return "<html><head>" + head + "</head><body>" + body + "</body></html>"
}

// Sentences that make a paragraph score, with a word of their own.
func vsent(mark string) string {
	return "The " + mark + " words of this sentence, which is long enough to count, are kept in order."
}

func vpar(mark string) string { return "<p>" + vsent(mark) + "</p>" }

// vhas: does the text hold the word?
func vhas(text, word string) bool { return strings.Contains(text, word) }

func vspace(s string) string { return strings.Join(strings.Fields(s), " ") }
