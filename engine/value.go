package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a run-time value. Its Go type is known statically from the SSA.
//
//	bool/int kinds: r==nil, n (sign- or zero-extended)     or r=*Term / *Tab
//	floats:         r==nil, n = Float64bits                or r=*Tab
//	string:         r=string (nil means "")                or r=*Rope / *Tab
//	pointer:        r=*Obj, n = slot offset; r=*Host; nil
//	slice:          r=*SliceV / *LazySlice; nil
//	map:            r=*MapObj
//	interface:      r=*Iface; nil
//	func:           r=*Closure; nil
//	struct/array:   r=*Agg (flattened slots)
//	tuple:          r=Tuple
type V struct {
	n int64
	r any
}

type Obj struct {
	slots  []V
	epoch  int64
	frozen bool
}

type Host struct{ x any }

type SliceV struct {
	obj           *Obj
	off, len, cap int // off in slots; len/cap in elements
	es            int // element size in slots
}

// LazySlice is []byte(s) or []rune(s) for a symbolic s, not yet expanded.
type LazySlice struct {
	s     V
	runes bool
}

type MapObj struct {
	in    *mapInner
	epoch int64
}

type mapInner struct {
	idx  map[any]int
	keys []V
	vals []V
	dead []bool
	n    int
}

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn    *Fn
	bind  []V
	bi    *ssa.Builtin
	bound V // receiver for bound-method intrinsics
}

type Agg struct{ vs []V }

type Tuple []V

// Tab is a symbolic value given by an exact table over finite-domain choice
// variables (mixed radix, first variable most significant).
type Tab struct {
	vars  []int
	sizes []int
	t     []V
	ver   int64
	norm  V
	isc   bool
}

type seg struct {
	lit string
	tab *Tab
}

type Rope struct{ segs []seg }

type badMark struct{}

var bad = V{r: badMark{}}

func isBad(v V) bool { _, ok := v.r.(badMark); return ok }

func vInt(n int64) V { return V{n: n} }
func vBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}
func vF(f float64) V   { return V{n: int64(math.Float64bits(f))} }
func (v V) f() float64 { return math.Float64frombits(uint64(v.n)) }

// str returns the concrete string and whether v is one.
func (v V) str() (string, bool) {
	if v.r == nil {
		return "", true
	}
	s, ok := v.r.(string)
	return s, ok
}

func isSymScalar(v V) bool {
	switch v.r.(type) {
	case *Term, *Tab, *Rope:
		return true
	}
	return false
}

// ---- types ----

type typeInfo struct{ size int }

func slotsOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += slotsOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * slotsOf(u.Elem())
	}
	return 1
}

func fieldOff(st *types.Struct, k int) int {
	n := 0
	for i := 0; i < k; i++ {
		n += slotsOf(st.Field(i).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroV(t types.Type) V {
	if tt, ok := t.(*types.Tuple); ok {
		tu := make(Tuple, tt.Len())
		for i := range tu {
			tu[i] = zeroV(tt.At(i).Type())
		}
		return V{r: tu}
	}
	if isAgg(t) {
		return V{r: &Agg{vs: make([]V, slotsOf(t))}}
	}
	return V{}
}

type numKind struct {
	isInt, isFloat, isStr, isBool, isComplex bool
	signed                                   bool
	w                                        int
}

func kindOf(t types.Type) numKind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return numKind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return numKind{isBool: true}
	case types.Int, types.Int64, types.UntypedInt:
		return numKind{isInt: true, signed: true, w: 64}
	case types.Int8:
		return numKind{isInt: true, signed: true, w: 8}
	case types.Int16:
		return numKind{isInt: true, signed: true, w: 16}
	case types.Int32, types.UntypedRune:
		return numKind{isInt: true, signed: true, w: 32}
	case types.Uint, types.Uint64, types.Uintptr:
		return numKind{isInt: true, w: 64}
	case types.Uint8:
		return numKind{isInt: true, w: 8}
	case types.Uint16:
		return numKind{isInt: true, w: 16}
	case types.Uint32:
		return numKind{isInt: true, w: 32}
	case types.Float64, types.UntypedFloat:
		return numKind{isFloat: true, w: 64}
	case types.Float32:
		return numKind{isFloat: true, w: 32}
	case types.String, types.UntypedString:
		return numKind{isStr: true}
	case types.Complex128, types.Complex64, types.UntypedComplex:
		return numKind{isComplex: true}
	}
	return numKind{}
}

func wrapInt(n int64, k numKind) int64 {
	if k.w >= 64 {
		return n
	}
	if k.signed {
		return sx(uint64(n), k.w)
	}
	return int64(uint64(n) & mask(k.w))
}

func (v V) String() string {
	switch x := v.r.(type) {
	case nil:
		return fmt.Sprintf("#%d", v.n)
	case string:
		return fmt.Sprintf("%q", x)
	case *Obj:
		return fmt.Sprintf("&%p+%d", x, v.n)
	case *Term:
		return fmt.Sprintf("term%d", x.id)
	case *Tab:
		return fmt.Sprintf("tab%v%v", x.vars, x.t)
	case *Rope:
		var sb strings.Builder
		for _, s := range x.segs {
			switch {
			case s.tab != nil:
				sb.WriteString("<tab>")
			default:
				sb.WriteString(s.lit)
			}
		}
		return "rope:" + sb.String()
	case *Iface:
		return fmt.Sprintf("iface(%v %v)", x.t, x.v)
	case *Agg:
		return fmt.Sprint(x.vs)
	}
	return fmt.Sprintf("%T", v.r)
}
