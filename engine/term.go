package main

import (
	"fmt"
	"strings"
)

// SMT terms: a small hash-consed DAG over booleans and bit-vectors.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract
	OBNot
	ONeg
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OBNot: "bvnot", ONeg: "bvneg",
}

type Term struct {
	op   Op
	w    int // 0 = Bool
	val  uint64
	name string
	a    []*Term
	id   int
}

type TermCtx struct {
	tab  map[string]*Term
	next int
	T, F *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}}
	c.T = c.mk(&Term{op: OConst, w: 0, val: 1})
	c.F = c.mk(&Term{op: OConst, w: 0, val: 0})
	return c
}

func (c *TermCtx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d/%d/%s", t.op, t.w, t.val, t.name)
	for _, x := range t.a {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.next
	c.next++
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TermCtx) BV(v uint64, w int) *Term { return c.mk(&Term{op: OConst, w: w, val: v & mask(w)}) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *TermCtx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }

func (c *TermCtx) Not(x *Term) *Term {
	if x == c.T {
		return c.F
	}
	if x == c.F {
		return c.T
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(&Term{op: ONot, a: []*Term{x}})
}

func (c *TermCtx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == c.F {
			return c.F
		}
		if x == c.T || seen[x] {
			continue
		}
		seen[x] = true
		if seen[c.Not(x)] {
			return c.F
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OAnd, a: out})
}

func (c *TermCtx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == c.T {
			return c.T
		}
		if x == c.F || seen[x] {
			continue
		}
		seen[x] = true
		if seen[c.Not(x)] {
			return c.T
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OOr, a: out})
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.T
	}
	if x.op == OConst && y.op == OConst {
		return c.Bool(x.val == y.val)
	}
	if x.op == OConst {
		x, y = y, x
	}
	if x.w == 0 {
		if y == c.T {
			return x
		}
		if y == c.F {
			return c.Not(x)
		}
	}
	if y.op == OConst {
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.val > mask(in.w) {
				return c.F
			}
			return c.Eq(in, c.BV(y.val, in.w))
		case OIte:
			a, b := x.a[1], x.a[2]
			if a.op == OConst && b.op == OConst {
				ea, eb := a.val == y.val, b.val == y.val
				switch {
				case ea && eb:
					return c.T
				case ea:
					return x.a[0]
				case eb:
					return c.Not(x.a[0])
				default:
					return c.F
				}
			}
		}
	}
	return c.mk(&Term{op: OEq, a: []*Term{x, y}})
}

func (c *TermCtx) Ite(k, x, y *Term) *Term {
	if k == c.T {
		return x
	}
	if k == c.F {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return c.And(c.Or(c.Not(k), x), c.Or(k, y))
	}
	return c.mk(&Term{op: OIte, w: x.w, a: []*Term{k, x, y}})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func evalBin(op Op, x, y uint64, w int) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return c.BV(evalBin(op, x.val, y.val, x.w), x.w)
	}
	if y.op == OConst && y.val == 0 {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			return x
		case OMul, OBAnd:
			return y
		}
	}
	if x.op == OConst && x.val == 0 {
		switch op {
		case OAdd, OBOr, OBXor:
			return y
		}
	}
	// (x+c1)+c2 folding
	if y.op == OConst && (op == OAdd || op == OSub) && (x.op == OAdd || x.op == OSub) && x.a[1].op == OConst {
		k := x.a[1].val
		if x.op == OSub {
			k = -k
		}
		if op == OAdd {
			k += y.val
		} else {
			k -= y.val
		}
		return c.Bin(OAdd, x.a[0], c.BV(k, x.w))
	}
	return c.mk(&Term{op: op, w: x.w, a: []*Term{x, y}})
}

func cmpEval(op Op, x, y uint64, w int) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("cmpEval")
}

func (c *TermCtx) Cmp(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return c.Bool(cmpEval(op, x.val, y.val, x.w))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	// narrow comparisons of zero-extended values against constants
	if x.op == OZext && y.op == OConst {
		in := x.a[0]
		sv := sx(y.val, y.w)
		signed := op == OSlt || op == OSle
		if signed && sv < 0 {
			return c.F
		}
		if y.val > mask(in.w) {
			return c.T
		}
		o := OUlt
		if op == OUle || op == OSle {
			o = OUle
		}
		return c.Cmp(o, in, c.BV(y.val, in.w))
	}
	if y.op == OZext && x.op == OConst {
		in := y.a[0]
		sv := sx(x.val, x.w)
		signed := op == OSlt || op == OSle
		if signed && sv < 0 {
			return c.T
		}
		if x.val > mask(in.w) {
			return c.F
		}
		o := OUlt
		if op == OUle || op == OSle {
			o = OUle
		}
		return c.Cmp(o, c.BV(x.val, in.w), in)
	}
	return c.mk(&Term{op: op, a: []*Term{x, y}})
}

func (c *TermCtx) Ext(x *Term, w int, signed bool) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		if x.op == OConst {
			return c.BV(x.val, w)
		}
		if (x.op == OZext || x.op == OSext) && x.a[0].w <= w {
			return c.Ext(x.a[0], w, x.op == OSext)
		}
		return c.mk(&Term{op: OExtract, w: w, a: []*Term{x}})
	}
	if x.op == OConst {
		if signed {
			return c.BV(uint64(sx(x.val, x.w)), w)
		}
		return c.BV(x.val, w)
	}
	if x.op == OZext {
		return c.Ext(x.a[0], w, false)
	}
	op := OZext
	if signed {
		op = OSext
	}
	return c.mk(&Term{op: op, w: w, a: []*Term{x}})
}

func (c *TermCtx) Un(op Op, x *Term) *Term {
	if x.op == OConst {
		if op == OBNot {
			return c.BV(^x.val, x.w)
		}
		return c.BV(-x.val, x.w)
	}
	return c.mk(&Term{op: op, w: x.w, a: []*Term{x}})
}

// Eval evaluates a term under an assignment (missing variables are 0).
func (t *Term) Eval(env map[string]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return env[t.name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.a[0].Eval(env, memo)
	case OAnd:
		r = 1
		for _, x := range t.a {
			if x.Eval(env, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, x := range t.a {
			if x.Eval(env, memo) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(t.a[0].Eval(env, memo) == t.a[1].Eval(env, memo))
	case OIte:
		if t.a[0].Eval(env, memo) == 1 {
			r = t.a[1].Eval(env, memo)
		} else {
			r = t.a[2].Eval(env, memo)
		}
	case OUlt, OUle, OSlt, OSle:
		r = b2u(cmpEval(t.op, t.a[0].Eval(env, memo), t.a[1].Eval(env, memo), t.a[0].w))
	case OZext:
		r = t.a[0].Eval(env, memo)
	case OSext:
		r = uint64(sx(t.a[0].Eval(env, memo), t.a[0].w)) & mask(t.w)
	case OExtract:
		r = t.a[0].Eval(env, memo) & mask(t.w)
	case OBNot:
		r = ^t.a[0].Eval(env, memo) & mask(t.w)
	case ONeg:
		r = -t.a[0].Eval(env, memo) & mask(t.w)
	default:
		r = evalBin(t.op, t.a[0].Eval(env, memo), t.a[1].Eval(env, memo), t.w)
	}
	memo[t] = r
	return r
}
