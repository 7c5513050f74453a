package main

// Symbolic values, memory layout and places.

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

type Value interface{}

type VScalar struct{ T *Term }
type VStruct struct{ F []Value }
type VSlice struct{ Ref, Off, Len, Cap *Term }
type VStr struct{ Arr, Off, Len *Term }
type VPtr struct{ Pl *Place }
type VArr struct{ C []*Term }
type VTuple struct{ F []Value }
type VNil struct{}
type VPoison struct{ Why string }
type VFunc struct {
	Lit     *ast.FuncLit
	Frame   *Frame
	Decl    *FuncInfo
	Recv    Value
	HasRecv bool
	Param   types.Object // symbolic callback
	Targs   map[*types.TypeParam]types.Type
}

type PlaceKind int

const (
	PVar PlaceKind = iota
	PObj
	PElem
)

type Step struct {
	Field int
	Idx   *Term // array index step when non-nil
	Name  string
}

type Place struct {
	Kind PlaceKind
	Obj  types.Object
	Ref  *Term
	Idx  *Term
	Key  string // struct key or element key
	Root types.Type
	Path []Step
}

func (p *Place) field(i int, name string) *Place {
	q := *p
	q.Path = append(append([]Step{}, p.Path...), Step{Field: i, Name: name})
	return &q
}
func (p *Place) index(t *Term) *Place {
	q := *p
	q.Path = append(append([]Step{}, p.Path...), Step{Idx: t})
	return &q
}

func samePlace(a, b *Place) bool {
	if a.Kind != b.Kind || a.Obj != b.Obj || a.Ref != b.Ref || a.Idx != b.Idx || a.Key != b.Key || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i].Field != b.Path[i].Field || a.Path[i].Idx != b.Path[i].Idx {
			return false
		}
	}
	return true
}

// Comp is one scalar component of a flattened type.
type Comp struct {
	Path string
	Sort *Sort
	Kind string // int, bool, ref, off, len, cap, opaque, arr(string contents), sref/soff...
	IK   intKind
}

type unsupported struct{ msg string }

func bail(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

var structKeys = []struct {
	t *types.Struct
	k string
}{}

func structKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for _, s := range structKeys {
				if types.Identical(s.t, st) {
					return s.k
				}
			}
			k := typeKeyName(n)
			for _, s := range structKeys {
				if s.k == k {
					k = fmt.Sprintf("%s#%d", k, len(structKeys))
				}
			}
			structKeys = append(structKeys, struct {
				t *types.Struct
				k string
			}{st, k})
			return k
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for _, s := range structKeys {
			if types.Identical(s.t, st) {
				return s.k
			}
		}
		k := fmt.Sprintf("struct%d", len(structKeys))
		structKeys = append(structKeys, struct {
			t *types.Struct
			k string
		}{st, k})
		return k
	}
	return elemKey(t)
}

func typeKeyName(n *types.Named) string {
	s := n.Obj().Name()
	if n.Obj().Pkg() != nil {
		s = n.Obj().Pkg().Name() + "." + s
	}
	return s
}

func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return u.Name()
	case *types.Struct:
		return structKey(t)
	case *types.Pointer:
		return "ptr_" + elemKey2(u.Elem())
	case *types.Slice:
		return "slice_" + elemKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("arr%d_%s", u.Len(), elemKey(u.Elem()))
	case *types.Interface:
		if tp, ok := t.(*types.TypeParam); ok {
			return "T_" + tp.Obj().Name()
		}
		return "iface"
	case *types.Map:
		return "map"
	case *types.Signature:
		return "func"
	}
	return sanitize(t.String())
}
func elemKey2(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return typeKeyName(n)
	}
	return elemKey(t)
}

func isTypeParam(t types.Type) bool { _, ok := t.(*types.TypeParam); return ok }

// comps flattens a type.
func comps(t types.Type) []Comp {
	if isTypeParam(t) {
		return []Comp{{"", SInt, "opaque", intKind{}}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := basicKind(t); ok {
			return []Comp{{"", SInt, "int", k}}
		}
		if u.Info()&types.IsBoolean != 0 {
			return []Comp{{"", SBool, "bool", intKind{}}}
		}
		if u.Info()&types.IsString != 0 {
			return []Comp{{".arr", SArr(SInt), "sarr", intKind{8, false}}, {".off", SInt, "soff", intKind{}}, {".len", SInt, "slen", intKind{}}}
		}
		return []Comp{{"", SInt, "opaque", intKind{}}}
	case *types.Pointer, *types.Map:
		return []Comp{{"", SInt, "ref", intKind{}}}
	case *types.Interface, *types.Signature, *types.Chan:
		return []Comp{{"", SInt, "opaque", intKind{}}}
	case *types.Slice:
		return []Comp{{".ref", SInt, "ref", intKind{}}, {".off", SInt, "off", intKind{}}, {".len", SInt, "len", intKind{}}, {".cap", SInt, "cap", intKind{}}}
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range comps(f.Type()) {
				c.Path = "." + f.Name() + c.Path
				out = append(out, c)
			}
		}
		return out
	case *types.Array:
		var out []Comp
		for _, c := range comps(u.Elem()) {
			c.Sort = SArr(c.Sort)
			c.Kind = "a:" + c.Kind
			c.Path = ".[]" + c.Path
			out = append(out, c)
		}
		return out
	}
	bail("type %s", t)
	return nil
}

func flatten(t types.Type, v Value) []*Term {
	if p, ok := v.(VPoison); ok {
		bail("value not representable: %s", p.Why)
	}
	if isTypeParam(t) {
		return []*Term{v.(VScalar).T}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []*Term
		s, ok := v.(VStruct)
		if !ok {
			bail("flatten struct: %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, flatten(u.Field(i).Type(), s.F[i])...)
		}
		return out
	}
	switch x := v.(type) {
	case VScalar:
		return []*Term{x.T}
	case VSlice:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case VStr:
		return []*Term{x.Arr, x.Off, x.Len}
	case VPtr:
		if x.Pl.Kind == PObj && len(x.Pl.Path) == 0 {
			return []*Term{x.Pl.Ref}
		}
		bail("interior pointer stored")
	case VArr:
		return x.C
	case VNil:
		n := len(comps(t))
		var out []*Term
		for i := 0; i < n; i++ {
			out = append(out, Int(0))
		}
		return out
	case VFunc:
		return []*Term{Int(1)}
	}
	bail("flatten %T as %s", v, t)
	return nil
}

func unflatten(t types.Type, ts []*Term) Value {
	v, rest := unflat(t, ts)
	if len(rest) != 0 {
		bail("unflatten leftover")
	}
	return v
}
func unflat(t types.Type, ts []*Term) (Value, []*Term) {
	if isTypeParam(t) {
		return VScalar{ts[0]}, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VStr{ts[0], ts[1], ts[2]}, ts[3:]
		}
		return VScalar{ts[0]}, ts[1:]
	case *types.Pointer:
		return VPtr{&Place{Kind: PObj, Ref: ts[0], Key: structKey(u.Elem()), Root: u.Elem()}}, ts[1:]
	case *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return VScalar{ts[0]}, ts[1:]
	case *types.Slice:
		return VSlice{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = unflat(u.Field(i).Type(), ts)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		n := len(comps(u.Elem()))
		return VArr{C: ts[:n]}, ts[n:]
	}
	bail("unflatten %s", t)
	return nil, nil
}

func zeroTerm(c Comp) *Term {
	if c.Sort == SBool {
		return False
	}
	if c.Sort.elem != nil {
		z := c
		z.Sort = c.Sort.elem
		return ConstArr(c.Sort, zeroTerm(z))
	}
	return Int(0)
}

func zeroValue(t types.Type) Value {
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, zeroTerm(c))
	}
	return unflatten(t, ts)
}

var maxLen = new(big.Int).Lsh(bi(1), 47)

func kindOfPath(kind string) string { return strings.TrimPrefix(kind, "a:") }
