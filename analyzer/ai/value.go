package ai

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: *Expr, *Ptr, *StructV, *SeqV, *SliceV, *MapV, *IfaceV, *FuncV, TupleV, *NilV, *IterV, *RV.
type Val interface{}

// Obj is a memory object: a variable, an allocation, an array behind slices, or a map.
type Obj struct {
	id     int
	T      types.Type // type of the content
	Sym    *Expr      // the pointer (map) term of objects which existed before, or are known by name only
	Fresh  bool       // allocated during the analysis
	Valid  bool       // symbolic: satisfies the type invariants
	NonNil bool
	Site   string
	Kind   byte // 'v' variable, 'a' backing array (T is the element type), 'm' map
	Input  bool // memory of the caller (parameters of the driver)
}

// Step is one step into an object.
type Step struct {
	Field int
	Idx   *Expr // nil for fields
}

// Ptr points into an object.
type Ptr struct {
	O    *Obj
	Path []Step
}

// StructV is a struct value.
type StructV struct {
	T types.Type
	F []Val
}

// SeqV is the content of an array: a base, and updates in order.
type SeqV struct {
	Base  *Expr // nil: zero values
	Elem  types.Type
	N     *Expr // length if it is a fixed array
	Upd   *SeqUpd
	Valid bool // elements of the base satisfy the type invariants
}

// SeqUpd is one update of a sequence.
type SeqUpd struct {
	Prev *SeqUpd
	// write
	Idx *Expr
	V   Val
	// copy of N elements from Src (at From) to To
	Src      *SeqV
	To, From *Expr
	N        *Expr
	// comprehension: elements k in [To, To+N) are V with Var replaced by k-To
	Var *Expr
	// permutation of the first N elements, named by Perm
	Perm  *Expr
	depth int
}

// SliceV is a slice.
type SliceV struct {
	Arr           *Ptr // to the backing array (path may select an array inside an object)
	Elem          types.Type
	Off, Len, Cap *Expr
	Nil           *Expr // condition under which it is nil
}

// MapV refers to a map object.
type MapV struct {
	O   *Obj
	Nil *Expr
}

// MapC is the content of a map.
type MapC struct {
	Base  *Expr // nil: empty
	K, V  types.Type
	Len   *Expr
	Upd   *MapUpd
	Valid bool
}

// MapUpd is one update of a map.
type MapUpd struct {
	Prev *MapUpd
	Key  Val
	V    Val
	Del  bool
	// comprehension: for every key k of All, the entry V with Var (key at the iteration) replaced by k
	All   *MapC
	Var   *Expr // the key variable
	Cond  *Expr // number of entries iterated
	depth int
}

// IfaceV is a non-nil interface with a known dynamic type.
type IfaceV struct {
	T types.Type
	V Val
	// error details
	Wraps []Val
	Tag   string
}

// FuncV is a closure or function.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}

// TupleV is a tuple.
type TupleV []Val

// NilV is nil of a type.
type NilV struct{ T types.Type }

// IterV is a map or string iterator; its position is in the object.
type IterV struct {
	Str *Expr
	M   *MapC
	O   *Obj // holds the number of steps done
	// with EnumMaps, of a map whose keys are all known: the order of iteration, and the map
	Keys []*Expr
	Map  *Obj
}

// RV is a reflect.Value (of a known or unknown value), RT a reflect.Type.
type RV struct {
	V    Val  // value, nil if invalid
	Addr *Ptr // where it is stored, if it can be set
	T    types.Type
	Term *Expr // unknown: term
}

// RT is a reflect.Type.
type RT struct {
	T    types.Type
	Term *Expr
}

func under(t types.Type) types.Type { return t.Underlying() }

// elemOf gives the pointed-to type.
func elemOf(t types.Type) types.Type {
	return under(t).(*types.Pointer).Elem()
}

func showVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Expr:
		return x.String()
	case *Ptr:
		s := "&" + x.O.name()
		for _, p := range x.Path {
			if p.Idx != nil {
				s += "[" + p.Idx.String() + "]"
			} else {
				s += "." + strconv.Itoa(p.Field)
			}
		}
		return s
	case *StructV:
		var b []string
		for _, f := range x.F {
			b = append(b, showVal(f))
		}
		return "{" + strings.Join(b, ", ") + "}"
	case *SeqV:
		s := "zeros"
		if x.Base != nil {
			s = x.Base.String()
		}
		var us []*SeqUpd
		for u := x.Upd; u != nil; u = u.Prev {
			us = append(us, u)
		}
		for i := len(us) - 1; i >= 0; i-- {
			u := us[i]
			switch {
			case u.Perm != nil:
				s += "~perm" + u.Perm.String()
			case u.Src != nil:
				s += fmt.Sprintf("<%s+%s:=%s@%s>", u.To, u.N, showVal(u.Src), u.From)
			case u.Var != nil:
				s += fmt.Sprintf("<%s+%s:=\\%s.%s>", u.To, u.N, u.Var, showVal(u.V))
			default:
				s += fmt.Sprintf("<%s:=%s>", u.Idx, showVal(u.V))
			}
		}
		return "seq(" + s + ")"
	case *SliceV:
		return fmt.Sprintf("slice(%s off %s len %s)", showVal(x.Arr), x.Off, x.Len)
	case *MapV:
		return "map " + x.O.name()
	case *IfaceV:
		return "iface(" + x.T.String() + ": " + showVal(x.V) + ")" + x.Tag
	case *FuncV:
		return x.Fn.String()
	case TupleV:
		var b []string
		for _, f := range x {
			b = append(b, showVal(f))
		}
		return "(" + strings.Join(b, ", ") + ")"
	case *NilV:
		return "nil"
	case *MapC:
		s := "empty"
		if x.Base != nil {
			s = x.Base.String()
		}
		for u := x.Upd; u != nil; u = u.Prev {
			s += fmt.Sprintf("<%s:=%s del=%v all=%v>", showVal(u.Key), showVal(u.V), u.Del, u.All != nil)
		}
		return "mapc(" + s + ")"
	case *RV:
		return "reflect(" + showVal(x.V) + ")"
	}
	return fmt.Sprintf("%T", v)
}

func (o *Obj) name() string {
	if o.Sym != nil {
		return o.Sym.String()
	}
	return fmt.Sprintf("%s#%d", o.Site, o.id)
}

// sameVal is syntactic equality of values.
func sameVal(a, b Val) bool {
	if _, ok := a.(TupleV); !ok {
		if _, ok := b.(TupleV); ok {
			return false
		}
		if a == b {
			return true
		}
	}
	switch x := a.(type) {
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.O != y.O || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SeqV:
		y, ok := b.(*SeqV)
		return ok && sameSeq(x, y)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Nil == y.Nil && sameVal(x.Arr, y.Arr)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.O == y.O && x.Nil == y.Nil
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || x.Base != y.Base || x.Len != y.Len {
			return false
		}
		u, w := x.Upd, y.Upd
		for u != w {
			if u == nil || w == nil || u.Del != w.Del || u.Var != w.Var || u.Cond != w.Cond || !sameVal(u.Key, w.Key) || !sameVal(u.V, w.V) {
				return false
			}
			if (u.All == nil) != (w.All == nil) || (u.All != nil && !sameVal(u.All, w.All)) {
				return false
			}
			u, w = u.Prev, w.Prev
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *NilV:
		_, ok := b.(*NilV)
		return ok
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.O == y.O && sameKeys(x, y)
	case *RV:
		y, ok := b.(*RV)
		return ok && x.Term == y.Term && sameVal(x.V, y.V)
	case *RT:
		y, ok := b.(*RT)
		return ok && x.Term == y.Term && (x.T == y.T || (x.T != nil && y.T != nil && types.Identical(x.T, y.T)))
	}
	return false
}

func sameSeq(x, y *SeqV) bool {
	if x == y {
		return true
	}
	if x.Base != y.Base {
		return false
	}
	u, w := x.Upd, y.Upd
	for u != w {
		if u == nil || w == nil || u.Idx != w.Idx || u.To != w.To || u.From != w.From || u.N != w.N || u.Var != w.Var || u.Perm != w.Perm || !sameVal(u.V, w.V) {
			return false
		}
		if (u.Src == nil) != (w.Src == nil) || (u.Src != nil && !sameSeq(u.Src, w.Src)) {
			return false
		}
		u, w = u.Prev, w.Prev
	}
	return true
}

// substVal replaces atoms inside a value (pointers to symbolic objects included).
func (in *Interp) substVal(v Val, m map[*Expr]*Expr) Val {
	if len(m) == 0 {
		return v
	}
	c := in.C
	switch x := v.(type) {
	case *Expr:
		return c.subst(x, m)
	case *Ptr:
		o := x.O
		if o.Sym != nil {
			if e := c.subst(o.Sym, m); e != o.Sym {
				o = in.symObjLike(e, o)
			}
		}
		path := x.Path
		for i, s := range path {
			if s.Idx != nil {
				if e := c.subst(s.Idx, m); e != s.Idx {
					np := append([]Step{}, path...)
					np[i].Idx = e
					path = np
				}
			}
		}
		if o == x.O && len(path) == len(x.Path) && (len(path) == 0 || &path[0] == &x.Path[0]) {
			return x
		}
		return &Ptr{O: o, Path: path}
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = in.substVal(x.F[i], m)
		}
		return &StructV{T: x.T, F: f}
	case *SliceV:
		y := *x
		y.Arr = in.substVal(x.Arr, m).(*Ptr)
		y.Off, y.Len, y.Cap = c.subst(x.Off, m), c.subst(x.Len, m), c.subst(x.Cap, m)
		if x.Nil != nil {
			y.Nil = c.subst(x.Nil, m)
		}
		return &y
	case *MapV:
		o := x.O
		if o.Sym != nil {
			if e := c.subst(o.Sym, m); e != o.Sym {
				o = in.symObjLike(e, o)
			}
		}
		y := &MapV{O: o, Nil: x.Nil}
		if x.Nil != nil {
			y.Nil = c.subst(x.Nil, m)
		}
		return y
	case *IfaceV:
		y := *x
		y.V = in.substVal(x.V, m)
		return &y
	case *FuncV:
		b := make([]Val, len(x.Bind))
		for i := range b {
			b[i] = in.substVal(x.Bind[i], m)
		}
		return &FuncV{Fn: x.Fn, Bind: b}
	case TupleV:
		t := make(TupleV, len(x))
		for i := range t {
			t[i] = in.substVal(x[i], m)
		}
		return t
	case *SeqV:
		y := *x
		if x.Base != nil {
			y.Base = c.subst(x.Base, m)
		}
		if x.N != nil {
			y.N = c.subst(x.N, m)
		}
		y.Upd = in.substUpd(x.Upd, m)
		return &y
	}
	return v
}

func (in *Interp) substUpd(u *SeqUpd, m map[*Expr]*Expr) *SeqUpd {
	if u == nil {
		return nil
	}
	y := *u
	y.Prev = in.substUpd(u.Prev, m)
	s := func(e *Expr) *Expr {
		if e == nil {
			return nil
		}
		return in.C.subst(e, m)
	}
	y.Idx, y.To, y.From, y.N, y.Perm = s(u.Idx), s(u.To), s(u.From), s(u.N), s(u.Perm)
	if u.V != nil {
		y.V = in.substVal(u.V, m)
	}
	if u.Src != nil {
		y.Src = in.substVal(u.Src, m).(*SeqV)
	}
	return &y
}

func sameKeys(x, y *IterV) bool {
	if len(x.Keys) != len(y.Keys) {
		return false
	}
	for i := range x.Keys {
		if x.Keys[i] != y.Keys[i] {
			return false
		}
	}
	return true
}
