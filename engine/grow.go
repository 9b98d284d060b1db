package main

import (
	"go/token"
	"go/types"
	"sync"
)

const eqlTok = token.EQL

type growKey struct {
	size int64
	ptr  bool
	l, c int
	n    int
}

var growMu sync.Mutex
var growCache = map[growKey]int{}

func growT[T any](l, c, n int) int {
	s := make([]T, l, c)
	return cap(append(s, make([]T, n)...))
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

// growCap computes the capacity the Go runtime gives an appended slice, by
// asking the runtime with an element type of the same size and kind.
func (p *Prog) growCap(t types.Type, l, c, n int) int {
	k := growKey{p.sizes.Sizeof(t), hasPtr(t), l, c, n}
	growMu.Lock()
	defer growMu.Unlock()
	if r, ok := growCache[k]; ok {
		return r
	}
	r := 0
	if k.ptr {
		switch k.size {
		case 8:
			r = growT[*byte](l, c, n)
		case 16:
			r = growT[[2]*byte](l, c, n)
		case 24:
			r = growT[[3]*byte](l, c, n)
		case 32:
			r = growT[[4]*byte](l, c, n)
		case 40:
			r = growT[[5]*byte](l, c, n)
		case 48:
			r = growT[[6]*byte](l, c, n)
		case 56:
			r = growT[[7]*byte](l, c, n)
		case 64:
			r = growT[[8]*byte](l, c, n)
		}
	} else {
		switch k.size {
		case 1:
			r = growT[byte](l, c, n)
		case 2:
			r = growT[uint16](l, c, n)
		case 4:
			r = growT[uint32](l, c, n)
		case 8:
			r = growT[uint64](l, c, n)
		case 16:
			r = growT[[2]uint64](l, c, n)
		case 24:
			r = growT[[3]uint64](l, c, n)
		case 32:
			r = growT[[4]uint64](l, c, n)
		}
	}
	if r == 0 {
		r = 2 * c
		if r < l+n {
			r = l + n
		}
	}
	growCache[k] = r
	return r
}
