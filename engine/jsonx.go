package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mapping between JSON trees (verifrt.jnode) and Go values, following encoding/json.

const (
	jNull = iota
	jBool
	jNum
	jStr
	jList
	jObj
	jInt
)

type jn struct {
	kind int
	str  Value
	list []*Value
	keys Slice
}

func jnodeOf(p Value) jn {
	s := (*(p.(*Value))).(Struct)
	n := jn{kind: I(s[0]), str: s[1]}
	if l, ok := s[3].(Slice); ok {
		for _, e := range l {
			n.list = append(n.list, e.(*Value))
		}
	}
	if l, ok := s[4].(Slice); ok {
		n.keys = l
	}
	return n
}

func mkNode(kind int, str Value, num Value, list, keys Slice) Value {
	var v Value = Struct{U(kind), str, num, list, keys}
	return &v
}

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omitempty bool
	tagged    bool
	depth     int
}

// jfields lists the JSON fields of a struct type; shallower fields hide deeper ones.
func jfields(st *types.Struct) []jfield {
	var all []jfield
	var rec func(st *types.Struct, path []int)
	rec = func(st *types.Struct, path []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			pp := append(append([]int{}, path...), i)
			if f.Embedded() && parts[0] == "" {
				if sub, ok := f.Type().Underlying().(*types.Struct); ok {
					rec(sub, pp)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: parts[0], path: pp, t: f.Type(), depth: len(pp), tagged: parts[0] != ""}
			if jf.name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					jf.omitempty = true
				} else {
					unsupported("json tag option %s", o)
				}
			}
			all = append(all, jf)
		}
	}
	rec(st, nil)
	var out []jfield
	for i, f := range all {
		hidden := false
		for j, g := range all {
			if i != j && g.name == f.name {
				if g.depth < f.depth || g.depth == f.depth && (g.tagged || !f.tagged) {
					hidden = true
				}
			}
		}
		if !hidden {
			out = append(out, f)
		}
	}
	return out
}

func fieldCell(p *Value, path []int) *Value {
	for _, i := range path {
		s := (*p).(Struct)
		p = &s[i]
	}
	return p
}

func (w *W) jsonAssign(p *Value, t types.Type, n jn, errs *[]string) {
	bad := func(what string) {
		*errs = append(*errs, "json: cannot unmarshal "+what+" into Go value of type "+t.String())
	}
	u := t.Underlying()
	if n.kind == jNull {
		switch u.(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			w.setCell(p, zero(t))
		}
		return
	}
	switch u := u.(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			var nv Value = zero(u.Elem())
			q = &nv
			w.setCell(p, q)
		}
		w.jsonAssign(q, u.Elem(), n, errs)
		return
	case *types.Interface:
		if u.NumMethods() > 0 {
			bad("value")
			return
		}
		w.setCell(p, w.jsonAny(n))
		return
	}
	switch n.kind {
	case jBool:
		if basicKind(t) != types.Bool {
			bad("bool")
			return
		}
		w.setCell(p, n.str.(string) == "true")
	case jStr:
		if basicKind(t) != types.String {
			bad("string")
			return
		}
		w.setCell(p, n.str)
	case jNum:
		wd, signed := intInfo(t)
		switch {
		case wd > 0:
			w.jsonInt(p, n.str, wd, signed, bad)
		case basicKind(t) == types.Float64 || basicKind(t) == types.Float32:
			s, ok := n.str.(string)
			if !ok {
				unsupported("symbolic JSON float")
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				bad("number " + s)
				return
			}
			w.setCell(p, f32(t, f))
		default:
			bad("number")
		}
	case jList:
		switch u := u.(type) {
		case *types.Slice:
			out := make(Slice, 0, len(n.list))
			old, _ := (*p).(Slice)
			for i, e := range n.list {
				var c Value = zero(u.Elem())
				if i < cap(old) && i < len(old) {
					c = copyVal(old[i])
					switch c.(type) {
					case Struct: // encoding/json resets elements that it re-uses only for null
						c = zero(u.Elem())
					default:
						c = zero(u.Elem())
					}
				}
				w.jsonAssign(&c, u.Elem(), jnodeOf(e), errs)
				out = append(out, c)
			}
			w.setCell(p, out)
		case *types.Array:
			unsupported("json array type")
		default:
			bad("array")
		}
	case jObj:
		switch u := u.(type) {
		case *types.Map:
			if basicKind(u.Key()) != types.String {
				unsupported("json map key type")
			}
			m := asMap(*p)
			if m == nil {
				m = newMap(u.Key())
				w.setCell(p, m)
			}
			for i, e := range n.list {
				var c Value = zero(u.Elem())
				w.jsonAssign(&c, u.Elem(), jnodeOf(e), errs)
				w.mapSet(m, n.keys[i], c)
			}
		case *types.Struct:
			fs := jfields(u)
			for i, e := range n.list {
				var f *jfield
				for k := range fs {
					if w.forkT(w.strEqT(n.keys[i], fs[k].name)) {
						f = &fs[k]
						break
					}
				}
				if f == nil {
					if ks, ok := n.keys[i].(string); ok {
						for k := range fs {
							if strings.EqualFold(ks, fs[k].name) {
								f = &fs[k]
								break
							}
						}
					}
				}
				if f != nil {
					w.jsonAssign(fieldCell(p, f.path), f.t, jnodeOf(e), errs)
				}
			}
		default:
			bad("object")
		}
	}
}

func (w *W) jsonInt(p *Value, s Value, wd uint8, signed bool, bad func(string)) {
	if c, ok := s.(string); ok {
		if signed {
			v, err := strconv.ParseInt(c, 10, int(wd))
			if err != nil {
				bad("number " + c)
				return
			}
			w.setCell(p, uint64(v)&maskW(wd))
			return
		}
		v, err := strconv.ParseUint(c, 10, int(wd))
		if err != nil {
			bad("number " + c)
			return
		}
		w.setCell(p, v)
		return
	}
	// symbolic digits
	db := w.db
	r := db.Const(64, 0)
	bs := w.strTerms(s)
	neg := false
	if w.forkT(db.Eq(bs[0], w.db.bytes['-'])) {
		neg = true
		bs = bs[1:]
	}
	if len(bs) > 17 {
		unsupported("long symbolic JSON number")
	}
	for _, b := range bs {
		if !w.forkT(w.inSet(b, func(c byte) bool { return c >= '0' && c <= '9' })) {
			bad("number")
			return
		}
		r = db.Bin(OpAdd, db.Bin(OpMul, r, db.Const(64, 10)), db.Bin(OpSub, db.Resize(b, 64, false), db.Const(64, '0')))
	}
	if neg {
		if !signed {
			bad("number")
			return
		}
		r = db.Bin(OpSub, db.Const(64, 0), r)
	}
	if wd != 64 {
		unsupported("narrow symbolic JSON number")
	}
	w.setCell(p, tv(r))
}

var anyT = types.NewInterfaceType(nil, nil)

func (w *W) jsonAny(n jn) Value {
	switch n.kind {
	case jNull:
		return Iface{}
	case jBool:
		return Iface{types.Typ[types.Bool], n.str.(string) == "true"}
	case jStr:
		return Iface{types.Typ[types.String], n.str}
	case jNum:
		c, ok := n.str.(string)
		if !ok { // an integer small enough to be exact
			var v Value
			w.jsonInt(&v, n.str, 64, true, func(string) { unsupported("symbolic JSON float") })
			if t, ok := v.(*Term); ok && w.bounded(t, 1<<53) {
				return Iface{types.Typ[types.Float64], tv(w.db.FFrom(t, true))}
			}
			unsupported("symbolic JSON float")
		}
		f, _ := strconv.ParseFloat(c, 64)
		return Iface{types.Typ[types.Float64], f}
	case jList:
		out := Slice{}
		for _, e := range n.list {
			out = append(out, w.jsonAny(jnodeOf(e)))
		}
		return Iface{types.NewSlice(anyT), out}
	}
	m := newMap(types.Typ[types.String])
	for i, e := range n.list {
		w.mapSet(m, n.keys[i], w.jsonAny(jnodeOf(e)))
	}
	return Iface{types.NewMap(types.Typ[types.String], anyT), m}
}

func (w *W) jsonTree(t types.Type, v Value) Value {
	z := U(0)
	null := mkNode(jNull, "", z, nil, nil)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return null
		}
		return w.jsonTree(u.Elem(), *p)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return null
		}
		return w.jsonTree(i.t, i.v)
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			return null
		}
		if basicKind(u.Elem()) == types.Uint8 {
			unsupported("json of []byte")
		}
		out := Slice{}
		for _, e := range s {
			out = append(out, w.jsonTree(u.Elem(), e))
		}
		return mkNode(jList, "", z, out, nil)
	case *types.Map:
		m := asMap(v)
		if m == nil {
			return null
		}
		var ks, vs Slice
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			ks = append(ks, e.k)
			vs = append(vs, w.jsonTree(u.Elem(), e.v))
		}
		return mkNode(jObj, "", U(1), vs, ks)
	case *types.Struct:
		var ks, vs Slice
		s := v.(Struct)
		for _, f := range jfields(u) {
			var cell Value = s
			for _, i := range f.path {
				cell = cell.(Struct)[i]
			}
			if f.omitempty && w.jsonEmpty(f.t, cell) {
				continue
			}
			ks = append(ks, f.name)
			vs = append(vs, w.jsonTree(f.t, cell))
		}
		return mkNode(jObj, "", z, vs, ks)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			b, ok := v.(bool)
			if !ok {
				b = w.forkT(w.asTerm(v, 0))
			}
			return mkNode(jBool, strconv.FormatBool(b), z, nil, nil)
		case u.Info()&types.IsInteger != 0:
			wd, sg := intInfo(t)
			switch v.(type) {
			case *Term:
				return mkNode(jInt, "", tv(w.db.Resize(v.(*Term), 64, sg)), nil, nil)
			}
			return mkNode(jNum, w.itoa(v, wd, sg), z, nil, nil)
		case u.Info()&types.IsFloat != 0:
			b, err := json.Marshal(v.(float64))
			if err != nil {
				unsupported("json float %v", v)
			}
			return mkNode(jNum, string(b), z, nil, nil)
		case u.Info()&types.IsString != 0:
			return mkNode(jStr, v, z, nil, nil)
		}
	}
	unsupported("json of %s", t)
	return nil
}

func (w *W) jsonEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *SymStr:
		return false
	case Slice:
		return len(x) == 0
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case *Map:
		return x == nil || x.live == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case Struct:
		return false
	}
	unsupported("omitempty of %T", v)
	return false
}

func init() {
	const rt = "wiki2book/verifrt."
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		pt, ok := i.t, i.t != nil
		if !ok {
			return "json: Unmarshal(nil)"
		}
		ptr, ok := pt.Underlying().(*types.Pointer)
		if !ok || isNilV(i.v) {
			return "json: Unmarshal(non-pointer)"
		}
		var errs []string
		w.jsonAssign(i.v.(*Value), ptr.Elem(), jnodeOf(a[1]), &errs)
		if len(errs) > 0 {
			return errs[0]
		}
		return ""
	}, rt+"jsonAssign")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return mkNode(jNull, "", U(0), nil, nil)
		}
		return w.jsonTree(i.t, i.v)
	}, rt+"jsonTree")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		t := i.t
		v := i.v
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			p := v.(*Value)
			t = pt.Elem()
			if st, ok := t.Underlying().(*types.Struct); ok {
				s := (*p).(Struct)
				names, values := a[1].(Slice), a[2].(Slice)
				for k := 0; k < st.NumFields(); k++ {
					tag := strings.Split(reflect.StructTag(st.Tag(k)).Get("xml"), ",")
					if len(tag) < 2 || tag[1] != "attr" || basicKind(st.Field(k).Type()) != types.String {
						unsupported("xml field %s", st.Field(k).Name())
					}
					for j := range names {
						if w.forkT(w.strEqT(names[j], tag[0])) {
							w.setCell(&s[k], values[j])
						}
					}
				}
				return nil
			}
			if isNilV(*p) {
				if pt2, ok := t.Underlying().(*types.Pointer); ok {
					var nv Value = zero(pt2.Elem())
					w.setCell(p, &nv)
				}
			}
			v = *p
		}
		unsupported("xml target %s", i.t)
		return nil
	}, rt+"xmlSet")
	_ = fmt.Sprint
}

func init() {
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.inInit {
			return Iface{}
		}
		return fallThru{}
	}, "reflect.TypeFor", "reflect.TypeOf")
}
