package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"
)

// encoding/json is a library outside the repository: run natively on the text
// with symbolic string parts replaced by placeholders.
func regJSON() {
	I := intrinsics
	I["encoding/json.Unmarshal"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s, ct := m.bytesToStr(f, args[0])
		if ct != ctlNext {
			return V{}, ct
		}
		ifc, ok := args[1].r.(*Iface)
		if !ok {
			return m.errV("json: Unmarshal(nil)"), ctlNext
		}
		pt, ok := ifc.t.Underlying().(*types.Pointer)
		if !ok {
			return m.errV("json: Unmarshal(non-pointer)"), ctlNext
		}
		segs := m.segsOf(s)
		tabs := map[string]*Tab{}
		var sb strings.Builder
		n := 0
		for _, sg := range segs {
			if sg.tab == nil {
				sb.WriteString(sg.lit)
				continue
			}
			p := ph(n)
			n++
			tabs[p] = sg.tab
			sb.WriteString(p)
		}
		str := sb.String()
		var x any
		err := json.Unmarshal([]byte(str), &x)
		if n > 0 {
			// placeholders must sit inside string values
			found := map[string]int{}
			var walk func(v any)
			walk = func(v any) {
				switch y := v.(type) {
				case string:
					for p := range tabs {
						found[p] += strings.Count(y, p)
					}
				case []any:
					for _, e := range y {
						walk(e)
					}
				case map[string]any:
					for _, e := range y {
						walk(e)
					}
				}
			}
			if err == nil {
				walk(x)
			}
			for i := 0; i < n; i++ {
				p := ph(i)
				tb := tabs[p]
				if err != nil || found[p] != 1 {
					return V{}, m.forkTab(tb)
				}
				uniq := map[string]int64{}
				if ct := m.forkBy(tb, func(e V) int64 {
					y, _ := e.str()
					ok := utf8.ValidString(y)
					for _, r := range y {
						if r < 0x20 || r == '"' || r == '\\' {
							ok = false
						}
					}
					if ok {
						return 0
					}
					if id, has := uniq[y]; has {
						return id
					}
					uniq[y] = int64(len(uniq) + 1)
					return uniq[y]
				}); ct != ctlNext {
					return V{}, ct
				}
				if len(uniq) > 0 {
					if nt, ok := m.normTab(tb).r.(*Tab); ok {
						return V{}, m.forkTab(nt)
					}
				}
			}
		}
		if err != nil {
			return m.errV(err.Error()), ctlNext
		}
		o := ifc.v.r.(*Obj)
		v, err := m.fromJSON(x, pt.Elem(), tabs)
		if err != nil {
			return m.errV(err.Error()), ctlNext
		}
		if ag, ok := v.r.(*Agg); ok && isAgg(pt.Elem()) {
			for i, sv := range ag.vs {
				m.set(o, int(ifc.v.n)+i, sv)
			}
		} else {
			m.set(o, int(ifc.v.n), v)
		}
		return V{}, ctlNext
	}
	I["encoding/json.Valid"] = func(m *M, f *Frame, c *callSite, args []V) (V, ctl) {
		s, ct := m.bytesToStr(f, args[0])
		if ct != ctlNext {
			return V{}, ct
		}
		return m.lift(f, []V{s}, func(c []V) V { x, _ := c[0].str(); return vBool(json.Valid([]byte(x))) })
	}
}

func (m *M) fromJSON(x any, t types.Type, tabs map[string]*Tab) (V, error) {
	ut := t.Underlying()
	if it, ok := ut.(*types.Interface); ok && it.NumMethods() == 0 {
		var dt types.Type
		switch y := x.(type) {
		case nil:
			return V{}, nil
		case string:
			return V{r: &Iface{t: m.p.canon.of(types.Typ[types.String]), v: m.unph(y, tabs)}}, nil
		case bool:
			return V{r: &Iface{t: m.p.canon.of(types.Typ[types.Bool]), v: vBool(y)}}, nil
		case float64:
			return V{r: &Iface{t: m.p.canon.of(types.Typ[types.Float64]), v: vF(y)}}, nil
		case []any:
			dt = m.p.canon.of(types.NewSlice(m.p.anyT))
		case map[string]any:
			dt = m.p.canon.of(types.NewMap(types.Typ[types.String], m.p.anyT))
		}
		v, err := m.fromJSON(x, dt, tabs)
		if err != nil {
			return V{}, err
		}
		return V{r: &Iface{t: dt, v: v}}, nil
	}
	if x == nil {
		return zeroV(t), nil
	}
	mism := func() error {
		return fmt.Errorf("json: cannot unmarshal %s into Go value of type %s", reflect.TypeOf(x), t)
	}
	switch u := ut.(type) {
	case *types.Map:
		y, ok := x.(map[string]any)
		if !ok {
			return V{}, mism()
		}
		mo := m.newMap()
		var ks []string
		for k := range y {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v, err := m.fromJSON(y[k], u.Elem(), tabs)
			if err != nil {
				return V{}, err
			}
			m.mapSet(mo, vStr(k), v, u.Key())
		}
		return V{r: mo}, nil
	case *types.Slice:
		y, ok := x.([]any)
		if !ok {
			return V{}, mism()
		}
		var vs []V
		for _, e := range y {
			v, err := m.fromJSON(e, u.Elem(), tabs)
			if err != nil {
				return V{}, err
			}
			if ag, ok := v.r.(*Agg); ok && isAgg(u.Elem()) {
				vs = append(vs, ag.vs...)
			} else {
				vs = append(vs, v)
			}
		}
		if vs == nil {
			vs = []V{}
		}
		return m.mkSlice(vs, slotsOf(u.Elem())), nil
	case *types.Basic:
		k := kindOf(t)
		switch y := x.(type) {
		case string:
			if k.isStr {
				return m.unph(y, tabs), nil
			}
		case bool:
			if k.isBool {
				return vBool(y), nil
			}
		case float64:
			if k.isFloat {
				return vF(y), nil
			}
			if k.isInt && y == float64(int64(y)) {
				return vInt(int64(y)), nil
			}
		}
		return V{}, mism()
	case *types.Pointer:
		v, err := m.fromJSON(x, u.Elem(), tabs)
		if err != nil {
			return V{}, err
		}
		o := m.newObj(slotsOf(u.Elem()))
		if ag, ok := v.r.(*Agg); ok && isAgg(u.Elem()) {
			copy(o.slots, ag.vs)
		} else {
			o.slots[0] = v
		}
		return V{r: o}, nil
	case *types.Struct:
		y, ok := x.(map[string]any)
		if !ok {
			return V{}, mism()
		}
		g := zeroV(t).r.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			if !fl.Exported() {
				continue
			}
			name := fl.Name()
			if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" {
				if tn := strings.Split(tag, ",")[0]; tn != "" {
					name = tn
				}
			}
			for k, e := range y {
				if k == name || strings.EqualFold(k, name) {
					v, err := m.fromJSON(e, fl.Type(), tabs)
					if err != nil {
						return V{}, err
					}
					off := fieldOff(u, i)
					if ag, ok := v.r.(*Agg); ok && isAgg(fl.Type()) {
						copy(g.vs[off:], ag.vs)
					} else {
						g.vs[off] = v
					}
				}
			}
		}
		return V{r: g}, nil
	}
	m.unsup("json into %s", t)
	return V{}, nil
}
