package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

// inlineLib tells which library functions are analysed by their own source.
func (in *Interp) inlineLib(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.RelString(nil) {
	case "(sync/atomic.noCopy).Lock":
		return true
	}
	return false
}

// name gives a term for any value, for use as an argument of an uninterpreted function.
func (in *Interp) name(st *State, v Val) *Expr {
	switch x := v.(type) {
	case *Expr:
		return st.F.find(x)
	case *SliceV:
		if b, ok := under(x.Elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return st.bytesToString(x)
		}
	case *Ptr:
		if x.O.Sym != nil && len(x.Path) == 0 {
			return x.O.Sym
		}
	case *IfaceV:
		if r, ok := x.V.(*RT); ok {
			if r.T != nil {
				return in.C.Str("type:" + r.T.String())
			}
			return in.C.App("typeof", tString, r.Term)
		}
		if e, ok := x.V.(*Expr); ok {
			return in.C.App("iface:"+x.T.String(), x.T, e)
		}
	case *StructV:
		if len(x.F) > 0 {
			if e, ok := x.F[0].(*Expr); ok && e.Op == OApp && strings.HasPrefix(e.Name, ".") && len(e.Args) == 1 {
				return e.Args[0]
			}
			if p, ok := x.F[0].(*Ptr); ok && p.O.Sym != nil && p.O.Sym.Op == OApp && strings.HasPrefix(p.O.Sym.Name, ".") {
				return p.O.Sym.Args[0]
			}
		}
	case *RV:
		if x.Term != nil {
			return x.Term
		}
		if x.V != nil {
			return in.name(st, x.V)
		}
	case nil:
		return in.C.Str("none")
	}
	return in.C.Str("val:" + showVal(v))
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bytes": true,
	"github.com/shopspring/decimal": true, "math/big": true, "encoding/base64": true, "math/bits": true, "fmt": true, "path": true,
}

func isErrT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// newError makes an error value which is not nil.
func (in *Interp) newError(d *D, tag string, wraps []Val) *IfaceV {
	var T types.Type
	for _, p := range in.P.Prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			if t := p.Pkg.Scope().Lookup("errorString"); t != nil {
				T = types.NewPointer(t.Type())
			}
		}
	}
	if T == nil {
		panic(stuck{"no package errors"})
	}
	o := in.symObj(in.fresh("err:"+tag, elemOf(T)), elemOf(T), 'v', false, true)
	e := &IfaceV{T: T, V: &Ptr{O: o}, Wraps: wraps, Tag: tag}
	if in.OnErr != nil {
		in.OnErr(d, e)
	}
	return e
}

// pureResult names the results of a function without effects by its arguments. An error result is nil or not as the
// condition "ok" says.
func (in *Interp) pureResult(d *D, fn *ssa.Function, args []Val) Val {
	c := in.C
	name := fn.RelString(nil)
	es := make([]*Expr, len(args))
	for i, a := range args {
		es[i] = in.name(d.st, a)
	}
	res := fn.Signature.Results()
	one := func(i int) Val {
		T := res.At(i).Type()
		if isErrT(T) {
			if d.st.must(c.App("ok:"+name, tBool, es...)) {
				return in.zero(T)
			}
			return in.newError(d, name, nil)
		}
		n := name
		if res.Len() > 1 {
			n += "#" + strconv.Itoa(i)
		}
		return in.symVal(c.App(n, T, es...), T, false)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return one(0)
	}
	t := make(TupleV, res.Len())
	for i := range t {
		t[i] = one(i)
	}
	return t
}

func cstr(v Val) (string, bool) {
	e, ok := v.(*Expr)
	if !ok || e.Op != OConst {
		return "", false
	}
	s, ok := e.C.(string)
	return s, ok
}

func cint(v Val) (int64, bool) {
	e, ok := v.(*Expr)
	if !ok {
		return 0, false
	}
	return e.Int64()
}

// listOf lists the elements of a slice of known length.
func (d *D) listOf(v Val) ([]Val, bool) {
	switch x := v.(type) {
	case *NilV:
		return nil, true
	case *SliceV:
		n, ok := x.Len.Int64()
		if !ok || n > 64 {
			return nil, false
		}
		q := d.st.load(x.Arr, nil).(*SeqV)
		var out []Val
		for i := int64(0); i < n; i++ {
			out = append(out, d.st.seqRead(q, d.in.C.AddK(x.Off, i)))
		}
		return out, true
	}
	return nil, false
}

// errorIs is errors.Is.
func (in *Interp) errorIs(d *D, err, target Val) *Expr {
	c := in.C
	switch x := err.(type) {
	case *NilV:
		if _, ok := target.(*NilV); ok {
			return c.True
		}
		return c.False
	case *IfaceV:
		r := c.False
		if t, ok := target.(*IfaceV); ok {
			if types.Identical(x.T, t.T) {
				r = d.st.equal(x.V, t.V)
			}
		} else if t, ok := target.(*Expr); ok {
			r = c.App("ifaceeq", tBool, t, in0(d.st, x))
		}
		for _, w := range x.Wraps {
			r = c.Or(r, in.errorIs(d, w, target))
		}
		return r
	case *Expr:
		return c.App("errorsIs", tBool, x, in.name(d.st, target))
	}
	panic(stuck{"errors.Is of " + showVal(err)})
}

// trimSpace is bytes.TrimSpace: a part of the same memory.
func (in *Interp) trimSpace(d *D, v Val) Val {
	b, ok := v.(*SliceV)
	if !ok {
		return v
	}
	c, st := in.C, d.st
	if st.F.Decide(c.Le(b.Len, c.Zero)) == Yes {
		return v
	}
	if q, ok := st.load(b.Arr, nil).(*SeqV); ok {
		plain := func(k *Expr) bool {
			e, ok := st.seqRead(q, k).(*Expr)
			return ok && st.must(c.Le(c.Int(33), e)) && st.must(c.Le(e, c.Int(126)))
		}
		if st.must(c.Le(c.One, b.Len)) && plain(b.Off) && plain(c.AddK(c.Add(b.Off, b.Len), -1)) {
			return v
		}
	}
	lo, n := in.fresh("trimmed", tInt), in.fresh("trimmedlen", tInt)
	st.assume(c.Le(c.Zero, lo))
	st.assume(c.Le(c.Zero, n))
	st.assume(c.Le(c.Add(lo, n), b.Len))
	return &SliceV{Arr: b.Arr, Elem: b.Elem, Off: c.Add(b.Off, lo), Len: n, Cap: c.Sub(b.Cap, lo), Nil: c.EqI(n, c.Zero)}
}

// lib is the model of a function outside the repository.
func (in *Interp) lib(d *D, fn *ssa.Function, args []Val, pos token.Pos) Val {
	c, st := in.C, d.st
	name := fn.RelString(nil)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	arg := func(i int) *Expr { return args[i].(*Expr) }
	switch name {
	case "fmt.Errorf":
		var wraps []Val
		if f, ok := cstr(args[0]); ok {
			l, known := d.listOf(args[1])
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.ContainsRune("0123456789.+-# ", rune(f[i])) {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && known && k < len(l) {
					wraps = append(wraps, l[k])
				}
				k++
			}
		}
		return in.newError(d, "fmt.Errorf", wraps)
	case "errors.New":
		return in.newError(d, "errors.New", nil)
	case "errors.Is":
		return in.errorIs(d, args[0], args[1])
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		es := []*Expr{}
		for _, a := range args[:len(args)-1] {
			es = append(es, in.name(st, a))
		}
		if l, ok := d.listOf(args[len(args)-1]); ok {
			if e := in.printed(d, fn.Name(), args, l); e != nil {
				return e
			}
			for _, a := range l {
				if i, ok := a.(*IfaceV); ok {
					a = i.V
				}
				es = append(es, in.name(st, a))
			}
		} else {
			es = append(es, in.fresh("args", tInt))
		}
		return c.App(name, tString, es...)
	case "math.IsNaN":
		return in.isNaN(arg(0))
	case "math.IsInf":
		n, ok := cint(args[1])
		if !ok {
			panic(stuck{"math.IsInf with unknown sign"})
		}
		switch {
		case n > 0:
			return in.isInf(arg(0), 1)
		case n < 0:
			return in.isInf(arg(0), -1)
		}
		return c.Or(in.isInf(arg(0), 1), in.isInf(arg(0), -1))
	case "math.NaN":
		return c.Const(math.NaN(), tF64)
	case "math.Inf":
		n, ok := cint(args[0])
		if ok && n >= 0 {
			return c.Const(math.Inf(1), tF64)
		} else if ok {
			return c.Const(math.Inf(-1), tF64)
		}
	case "math.Abs":
		return c.App("abs", tF64, arg(0))
	case "strings.ToLower":
		if s, ok := cstr(args[0]); ok {
			return c.Str(strings.ToLower(s))
		}
		e := c.App("lower", tString, st.F.find(arg(0)))
		if in.EnumMaps && !slices.Contains(in.lowers, e) {
			in.lowers = append(in.lowers, e)
		}
		return e
	case "strings.Compare":
		a, b := st.F.find(arg(0)), st.F.find(arg(1))
		if st.must(st.eqKey(a, b)) {
			return c.Zero
		}
		if st.must(c.CmpO("<", a, b)) {
			return c.Int(-1)
		}
		return c.One
	case "strings.TrimSpace", "strings.ToUpper":
		if s, ok := cstr(args[0]); ok {
			if name == "strings.ToUpper" {
				return c.Str(strings.ToUpper(s))
			}
			return c.Str(strings.TrimSpace(s))
		}
		e := c.App(name, tString, st.F.find(arg(0)))
		if name == "strings.TrimSpace" {
			st.assume(c.Le(c.Len(e), c.Len(arg(0))))
		}
		return e
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		e := c.App(name, tString, st.F.find(arg(0)), st.F.find(arg(1)))
		st.assume(c.Le(c.Len(e), c.Len(arg(0))))
		return e
	case "strconv.Itoa":
		if n, ok := cint(args[0]); ok {
			return c.Str(strconv.FormatInt(n, 10))
		}
		return c.App("decimal", tString, arg(0))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := cint(args[1]); ok && b == 10 {
			if n, ok := cint(args[0]); ok {
				return c.Str(strconv.FormatInt(n, 10))
			}
			return c.App("decimal", tString, arg(0))
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := cint(args[2]); ok && b == 10 {
			T := fn.Signature.Results().At(0).Type()
			add := c.App("decimal", tString, arg(1))
			if n, ok := cint(args[1]); ok {
				add = c.Str(strconv.FormatInt(n, 10))
			}
			return d.appendV(args[0], st.stringToBytes(add, false), T)
		}
	case "strconv.AppendFloat":
		f := c.App("strconv.FormatFloat", tString, in.name(st, args[1]), in.name(st, args[2]), in.name(st, args[3]), in.name(st, args[4]))
		return d.appendV(args[0], st.stringToBytes(f, false), fn.Signature.Results().At(0).Type())
	case "strconv.AppendBool":
		f := c.App("strconv.FormatBool", tString, in.name(st, args[1]))
		return d.appendV(args[0], st.stringToBytes(f, false), fn.Signature.Results().At(0).Type())
	case "sort.Sort", "sort.Stable":
		return in.sortModel(d, args[0], nil)
	case "sort.Slice", "sort.SliceStable":
		return in.sortModel(d, args[0], args[1])
	case "sync/atomic.LoadUint64", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadPointer":
		p, ok := args[0].(*Ptr)
		if !ok {
			panic(stuck{name})
		}
		// another goroutine may have changed it: any value
		_ = p
		return in.atomicLoad(d, p, fn.Signature.Results().At(0).Type())
	case "sync/atomic.StoreUint64", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt32":
		if p := args[0].(*Ptr); p.O.Sym == nil && in.isGlobal(p.O) {
			// loads may give anything, so what was stored is not kept
			T := fn.Signature.Params().At(1).Type()
			if in.cs != nil && fn.Name() == "StoreUint64" {
				in.storeHalves(d, p, args[1])
			}
			st.store(p, in.symVal(c.Sym("shared:"+T.String(), T), T, false))
			return nil
		}
		st.store(args[0].(*Ptr), args[1])
		return nil
	case "(*sync/atomic.Value).Load":
		p := args[0].(*Ptr)
		return st.load(&Ptr{O: p.O, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: 0})}, nil)
	case "(*sync/atomic.Value).Store":
		p := args[0].(*Ptr)
		st.store(&Ptr{O: p.O, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: 0})}, args[1])
		return nil
	case "reflect.TypeOf":
		return in.reflectType(d, args[0])
	case "reflect.ValueOf":
		switch x := args[0].(type) {
		case *IfaceV:
			return &RV{V: x.V, T: x.T}
		case *NilV:
			return &RV{}
		case *Expr:
			return &RV{Term: x, T: nil}
		}
	case "reflect.New", "reflect.Zero", "reflect.PtrTo", "reflect.PointerTo":
		rt := rtypeOf(args[0])
		if rt == nil {
			panic(stuck{name + " of " + showVal(args[0])})
		}
		switch {
		case fn.Name() == "New" && rt.T != nil:
			o := in.newObj(rt.T, 'v', name)
			st.put(o, in.zero(rt.T))
			return &RV{V: &Ptr{O: o}, T: types.NewPointer(rt.T)}
		case fn.Name() == "Zero" && rt.T != nil:
			return &RV{V: in.zero(rt.T), T: rt.T}
		case fn.Name() == "New" || fn.Name() == "Zero":
			e := in.fresh(name, tInt)
			st.assume(c.Not(st.isNil(e)))
			return &RV{Term: e}
		case rt.T != nil:
			return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: types.NewPointer(rt.T)}, Tag: "rtype"}
		}
		return &IfaceV{T: types.Typ[types.Invalid], V: &RT{Term: c.App("ptrto", tInt, rt.Term)}, Tag: "rtype"}
	case "encoding/json.Marshal":
		if i, ok := args[0].(*IfaceV); ok {
			if f, ok := i.V.(*Expr); ok && isBasicFloat(i.T) {
				if st.must(c.Or(in.isNaN(f), c.Or(in.isInf(f, 1), in.isInf(f, -1)))) {
					return TupleV{in.zero(types.NewSlice(tByte)), in.newError(d, name, nil)}
				}
				t := c.App("json.float", tString, f)
				st.assume(c.Lt(c.Zero, c.Len(t)))
				return TupleV{st.stringToBytes(t, false), in.zero(types.Universe.Lookup("error").Type())}
			}
		}
	case "encoding/json.Unmarshal":
		if i, ok := args[1].(*IfaceV); ok {
			if p, ok := i.V.(*Ptr); ok {
				T := elemOf(i.T)
				st.store(p, in.symVal(in.fresh("json", T), T, false))
			}
		}
		return in.pureResult(d, fn, args[:1])
	case "bytes.Equal":
		x, ok1 := bytesText(st, args[0])
		y, ok2 := bytesText(st, args[1])
		if ok1 && ok2 {
			same := st.must(st.equal(x, y))
			if same && x != y {
				// so are the numbers they spell
				for r := range in.ranks {
					if t := c.subst(r, map[*Expr]*Expr{x: y}); t != r {
						st.assume(c.EqI(r, t))
					}
					if t := c.subst(r, map[*Expr]*Expr{y: x}); t != r {
						st.assume(c.EqI(r, t))
					}
				}
			}
			return c.Bool(same)
		}
	case "bytes.TrimSpace":
		if x, ok := args[0].(*SliceV); ok && in.Bytes {
			n := in.fresh("trimmed", tInt)
			st.assume(c.And(c.Le(c.Zero, n), c.Le(n, x.Len)))
			return &SliceV{Arr: in.anyArray(x.Elem), Elem: x.Elem, Off: c.Zero, Len: n, Cap: n, Nil: c.EqI(n, c.Zero)}
		}
		return in.trimSpace(d, args[0])
	case "(*encoding/base64.Encoding).EncodeToString":
		e := c.App("b64", tString, in.name(st, args[1]))
		return e
	case "unicode/utf8.DecodeRuneInString":
		s := st.F.find(arg(0))
		if st.must(c.EqI(c.Len(s), c.Zero)) {
			return TupleV{c.Int(utf8.RuneError), c.Zero}
		}
		if r, w, ok := st.runeAt(s, c.Zero); ok {
			return TupleV{r, c.Int(w)}
		}
	case "unicode/utf16.EncodeRune":
		r := arg(0)
		if st.must(c.Lt(r, c.Int(0x10000))) || st.must(c.Lt(c.Int(0x10FFFF), r)) {
			return TupleV{c.Int(utf8.RuneError), c.Int(utf8.RuneError)}
		}
		r = c.AddK(r, -0x10000)
		if h, ok := d.shifted(r, 10); ok {
			if l, ok := d.masked(r, 0x3FF, tInt); ok {
				return TupleV{c.AddK(h, 0xD800), c.AddK(l, 0xDC00)}
			}
		}
	case "unicode/utf16.IsSurrogate":
		r := arg(0)
		return c.And(c.Le(c.Int(0xD800), r), c.Lt(r, c.Int(0xE000)))
	case "unicode/utf8.RuneLen":
		if n, ok := cint(args[0]); ok {
			return c.Int(int64(utf8.RuneLen(rune(n))))
		}
		e := c.AppDom("utf8.RuneLen", tInt, 6, arg(0))
		e.Lo = -1
		return e
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).Reset",
		"(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write",
		"(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return in.builder(d, fn, args)
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		rv, ok := args[0].(*RV)
		if !ok {
			panic(stuck{"reflect value " + showVal(args[0])})
		}
		return in.reflectMethod(d, fn.Name(), rv, args[1:], fn.Signature)
	}
	if strings.HasPrefix(name, "(reflect.Kind).") {
		return in.pureResult(d, fn, args)
	}
	if pkg == "github.com/shopspring/decimal" && fn.Signature.Recv() != nil && len(args) == 2 {
		// the numbers are ordered, and nothing else is known about them
		rank := func(v Val) *Expr {
			e := c.App("rank", tInt, in.name(st, v))
			if in.ranks == nil {
				in.ranks = map[*Expr]bool{}
			}
			in.ranks[e] = true
			return e
		}
		a, b := rank(args[0]), rank(args[1])
		switch fn.Name() {
		case "GreaterThan":
			return c.Lt(b, a)
		case "GreaterThanOrEqual":
			return c.Le(b, a)
		case "LessThan":
			return c.Lt(a, b)
		case "LessThanOrEqual":
			return c.Le(a, b)
		case "Equal", "Equals":
			return c.EqI(a, b)
		case "Cmp", "Compare":
			switch {
			case st.must(c.Lt(a, b)):
				return c.Int(-1)
			case st.must(c.EqI(a, b)):
				return c.Zero
			}
			return c.One
		}
	}
	if purePkgs[pkg] {
		return in.pureResult(d, fn, args)
	}
	return in.impureResult(d, fn, args)
}

// atomicLoad reads a word that is only accessed atomically. Others may change it at any time.
func (in *Interp) atomicLoad(d *D, p *Ptr, T types.Type) Val {
	if p.O.Sym == nil && in.isGlobal(p.O) {
		e := in.fresh("atomic", T)
		if in.atomics == nil {
			in.atomics = map[*Expr]bool{}
		}
		in.atomics[e] = true
		if in.cs != nil && bits(T) == 64 && isUnsigned(T) {
			if in.inInit {
				return d.st.load(p, T)
			}
			in.loadHalves(d, p, e)
		}
		return in.symVal(e, T, false)
	}
	return d.st.load(p, T)
}

func (in *Interp) isGlobal(o *Obj) bool {
	for _, g := range in.globals {
		if g == o {
			return true
		}
	}
	return false
}

// impureResult gives fresh results; errors are nil or not.
func (in *Interp) impureResult(d *D, fn *ssa.Function, args []Val) Val {
	res := fn.Signature.Results()
	name := fn.RelString(nil)
	key := in.C.Sym(fmt.Sprintf("call:%s@%d/%d", name, in.pos, in.nsym), tInt)
	one := func(i int) Val {
		T := res.At(i).Type()
		if isErrT(T) {
			if d.st.must(in.C.App("ok", tBool, key)) {
				return in.zero(T)
			}
			return in.newError(d, name, nil)
		}
		return in.symVal(in.fresh(name, T), T, false)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return one(0)
	}
	t := make(TupleV, res.Len())
	// errors first: they split the case
	for i := range t {
		if isErrT(res.At(i).Type()) {
			t[i] = one(i)
		}
	}
	for i := range t {
		if t[i] == nil {
			t[i] = one(i)
		}
	}
	return t
}

// printed is the text of integers and strings printed plainly, or nil.
func (in *Interp) printed(d *D, name string, args []Val, l []Val) *Expr {
	c := in.C
	one := func(v Val) (e *Expr, isInt bool) {
		i, ok := v.(*IfaceV)
		if !ok || i.T == nil {
			return nil, false
		}
		b, ok := i.T.(*types.Basic) // a type with a name may print itself
		if !ok {
			return nil, false
		}
		e, ok = i.V.(*Expr)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			if n, ok := e.Int64(); ok {
				return c.Str(strconv.FormatInt(n, 10)), true
			}
			return c.App("decimal", tString, e), true
		case b.Info()&types.IsString != 0:
			return e, false
		}
		return nil, false
	}
	switch name {
	case "Sprint":
		if len(l) == 1 {
			e, _ := one(l[0])
			return e
		}
	case "Sprintf":
		f, ok := cstr(args[0])
		if !ok {
			return nil
		}
		r := c.Str("")
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				r, f = c.Concat(r, c.Str(f)), ""
				break
			}
			r = c.Concat(r, c.Str(f[:i]))
			if i+1 >= len(f) {
				return nil
			}
			j, width := i+1, 0
			if f[j] == '0' {
				for j < len(f) && f[j] >= '0' && f[j] <= '9' {
					width = width*10 + int(f[j]-'0')
					j++
				}
				if j == len(f) || f[j] != 'x' && f[j] != 'X' {
					return nil
				}
			}
			verb := f[j]
			f = f[j+1:]
			if verb == '%' {
				r = c.Concat(r, c.Str("%"))
				continue
			}
			if len(l) == 0 {
				return nil
			}
			e, isInt := one(l[0])
			arg := l[0]
			l = l[1:]
			if verb == 'x' || verb == 'X' {
				if e == nil || !isInt {
					return nil
				}
				if e = d.hex(arg.(*IfaceV).V.(*Expr), width, verb == 'X'); e == nil {
					return nil
				}
				r = c.Concat(r, e)
				continue
			}
			if e == nil || !(verb == 'v' || verb == 'd' && isInt || verb == 's' && !isInt) {
				return nil
			}
			r = c.Concat(r, e)
		}
		if len(l) == 0 {
			return r
		}
	}
	return nil
}

// hex is the text of a number in hexadecimal digits, at least so many of them; nil when it may be negative or large.
func (d *D) hex(e *Expr, width int, upper bool) *Expr {
	c, st := d.in.C, d.st
	if n, ok := e.Int64(); ok {
		if upper {
			return c.Str(fmt.Sprintf("%0*X", width, n))
		}
		return c.Str(fmt.Sprintf("%0*x", width, n))
	}
	if st.F.Decide(c.Le(c.Zero, e)) != Yes {
		return nil
	}
	n := 1
	for ; n <= 8; n++ {
		if n >= width && st.must(c.Lt(e, c.Int(1<<uint(4*n)))) {
			break
		}
	}
	if n > 8 {
		return nil
	}
	ten := int64('a')
	if upper {
		ten = 'A'
	}
	// the digits of one number are the same wherever it is written
	fresh := func(i int) *Expr {
		x := c.AppDom("nibble", tInt, 16, e, c.Int(int64(i)))
		st.assume(c.Le(c.Zero, x))
		st.assume(c.Lt(x, c.Int(16)))
		return x
	}
	digits := make([]*Expr, n)
	sum := c.Zero
	cut := true
	for i := range digits {
		var x *Expr
		if y, ok := d.shifted(e, 4*i); ok {
			if k, ok := y.Int64(); ok {
				x = c.Int(k & 15)
			} else if y, ok = d.masked(y, 15, tInt); ok {
				x = y
				for _, t := range c.lin(y).T {
					if t.A.Op == OBin {
						x = nil
					}
				}
			}
		}
		if x == nil {
			cut = false
			break
		}
		digits[i] = x
	}
	if !cut {
		for i := range digits {
			digits[i] = fresh(i)
			s, _ := c.Scale(digits[i], 1<<uint(4*i))
			sum = c.Add(sum, s)
		}
		st.assume(c.EqI(e, sum))
	}
	r := c.Str("")
	for i := n - 1; i >= 0; i-- {
		x := digits[i]
		if k, ok := x.Int64(); ok {
			if k < 10 {
				k += '0'
			} else {
				k += ten - 10
			}
			r = c.Concat(r, c.Str(string([]byte{byte(k)})))
			continue
		}
		if st.must(c.Lt(x, c.Int(10))) {
			x = c.AddK(x, '0')
		} else {
			x = c.AddK(x, ten-10)
		}
		r = c.Concat(r, c.App("chr", tString, x))
	}
	return r
}

// builder models bytes.Buffer and strings.Builder: the text written so far stands in the first field.
func (in *Interp) builder(d *D, fn *ssa.Function, args []Val) Val {
	c, st := in.C, d.st
	p, ok := args[0].(*Ptr)
	if !ok {
		panic(stuck{"buffer " + showVal(args[0])})
	}
	d.require(c.Not(st.isNil(p)), "nil dereference", in.pos)
	f := &Ptr{O: p.O, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: 0})}
	cur, ok := st.load(f, nil).(*Expr)
	if !ok {
		cur = c.Str("")
	}
	var add *Expr
	var ret Val
	nilErr := in.zero(types.Universe.Lookup("error").Type())
	switch fn.Name() {
	case "Write":
		add = in.name(st, args[1])
		ret = TupleV{c.Len(add), nilErr}
	case "WriteString":
		add = args[1].(*Expr)
		ret = TupleV{c.Len(add), nilErr}
	case "WriteByte":
		if n, ok := cint(args[1]); ok {
			add = c.Str(string([]byte{byte(n)}))
		} else {
			add = c.App("chr", tString, args[1].(*Expr))
		}
		ret = nilErr
	case "WriteRune":
		if n, ok := cint(args[1]); ok {
			add = c.Str(string(rune(n)))
		} else {
			add = c.App("runestr", tString, args[1].(*Expr))
		}
		ret = TupleV{c.Len(add), nilErr}
	case "String":
		return cur
	case "Bytes":
		return st.stringToBytes(cur, false)
	case "Len":
		return c.Len(cur)
	case "Reset":
		st.store(f, c.Str(""))
		return nil
	case "Grow":
		return nil
	}
	st.store(f, c.Concat(cur, add))
	return ret
}

// ---- reflection ----

func (in *Interp) reflectType(d *D, v Val) Val {
	switch x := v.(type) {
	case *IfaceV:
		return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: x.T}, Tag: "rtype"}
	case *NilV:
		return x
	case *Expr:
		if d.st.must(d.st.isNil(x)) {
			return &NilV{}
		}
		return &IfaceV{T: types.Typ[types.Invalid], V: &RT{Term: x}, Tag: "rtype"}
	}
	panic(stuck{"reflect.TypeOf " + showVal(v)})
}

// rtypeOf gives the type a reflect.Type stands for.
func rtypeOf(v Val) *RT {
	if i, ok := v.(*IfaceV); ok {
		if rt, ok := i.V.(*RT); ok {
			return rt
		}
	}
	return nil
}

func kindOf(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return int64(reflect.Bool)
		case types.Int:
			return int64(reflect.Int)
		case types.Int8:
			return int64(reflect.Int8)
		case types.Int16:
			return int64(reflect.Int16)
		case types.Int32:
			return int64(reflect.Int32)
		case types.Int64:
			return int64(reflect.Int64)
		case types.Uint:
			return int64(reflect.Uint)
		case types.Uint8:
			return int64(reflect.Uint8)
		case types.Uint16:
			return int64(reflect.Uint16)
		case types.Uint32:
			return int64(reflect.Uint32)
		case types.Uint64:
			return int64(reflect.Uint64)
		case types.Uintptr:
			return int64(reflect.Uintptr)
		case types.Float32:
			return int64(reflect.Float32)
		case types.Float64:
			return int64(reflect.Float64)
		case types.Complex64:
			return int64(reflect.Complex64)
		case types.Complex128:
			return int64(reflect.Complex128)
		case types.String:
			return int64(reflect.String)
		case types.UnsafePointer:
			return int64(reflect.UnsafePointer)
		}
	case *types.Pointer:
		return int64(reflect.Ptr)
	case *types.Slice:
		return int64(reflect.Slice)
	case *types.Array:
		return int64(reflect.Array)
	case *types.Map:
		return int64(reflect.Map)
	case *types.Struct:
		return int64(reflect.Struct)
	case *types.Interface:
		return int64(reflect.Interface)
	case *types.Signature:
		return int64(reflect.Func)
	case *types.Chan:
		return int64(reflect.Chan)
	}
	return -1
}

// kindTerm is the kind of the dynamic type of an unknown interface.
func (in *Interp) kindTerm(d *D, e *Expr) *Expr {
	st, c := d.st, in.C
	e = st.F.find(e)
	if st.must(st.isNil(e)) {
		return c.Zero
	}
	k := c.App("kind", tInt, e)
	if k.Dom == 0 {
		k.Lo, k.Dom = 1, 26
	}
	// a type which is known fixes the kind
	for t, ok := range st.F.truth {
		if ok && t.Op == OEq0 {
			l := c.lin(t.Args[0])
			if len(l.T) == 1 && l.T[0].A.Op == OApp && l.T[0].A.Name == "dyntype" && l.T[0].A.Args[0] == e {
				id := -l.C * l.T[0].K
				if id >= 1 && int(id) <= len(in.typeOf) {
					return c.Int(kindOf(in.typeOf[id-1]))
				}
			}
		}
	}
	return k
}

func (in *Interp) reflectMethod(d *D, name string, recv Val, args []Val, sig *types.Signature) Val {
	c, st := in.C, d.st
	res := func(i int) types.Type { return sig.Results().At(i).Type() }
	opaque := func() Val {
		var es []*Expr
		switch r := recv.(type) {
		case *RV:
			if r.Term != nil {
				es = append(es, r.Term)
			} else {
				es = append(es, in.name(st, r.V))
			}
		case *RT:
			if r.Term != nil {
				es = append(es, r.Term)
			} else {
				es = append(es, c.Str("type:"+r.T.String()))
			}
		}
		for _, a := range args {
			es = append(es, in.name(st, a))
		}
		if sig.Results().Len() == 0 {
			return nil
		}
		t := make(TupleV, sig.Results().Len())
		for i := range t {
			T := res(i)
			e := c.App("reflect."+name+"#"+strconv.Itoa(i), T, es...)
			t[i] = in.symVal(e, T, false)
			if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
				switch n.Obj().Name() {
				case "Value":
					t[i] = &RV{Term: e}
				case "Type":
					t[i] = &IfaceV{T: types.Typ[types.Invalid], V: &RT{Term: e}, Tag: "rtype"}
				}
			}
		}
		if len(t) == 1 {
			return t[0]
		}
		return t
	}
	if rt, ok := recv.(*RT); ok {
		if rt.T == nil {
			if name == "Kind" {
				return in.kindTerm(d, rt.Term)
			}
			return opaque()
		}
		switch name {
		case "Implements", "AssignableTo", "ConvertibleTo":
			if o := rtypeOf(args[0]); o != nil && o.T != nil {
				switch name {
				case "Implements":
					if i, ok := under(o.T).(*types.Interface); ok {
						return c.Bool(types.Implements(rt.T, i))
					}
				case "AssignableTo":
					return c.Bool(types.AssignableTo(rt.T, o.T))
				case "ConvertibleTo":
					return c.Bool(types.ConvertibleTo(rt.T, o.T))
				}
			}
		case "Key":
			if u, ok := under(rt.T).(*types.Map); ok {
				return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: u.Key()}, Tag: "rtype"}
			}
		case "NumField":
			if s, ok := under(rt.T).(*types.Struct); ok {
				return c.Int(int64(s.NumFields()))
			}
		case "Name":
			if n, ok := rt.T.(*types.Named); ok {
				return c.Str(n.Obj().Name())
			}
		case "Kind":
			return c.Int(kindOf(rt.T))
		case "String":
			return c.Str(rt.T.String())
		case "Elem":
			switch u := under(rt.T).(type) {
			case *types.Pointer:
				return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: u.Elem()}, Tag: "rtype"}
			case *types.Slice:
				return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: u.Elem()}, Tag: "rtype"}
			case *types.Map:
				return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: u.Elem()}, Tag: "rtype"}
			}
		}
		return opaque()
	}
	r := recv.(*RV)
	if r.V == nil && r.Term == nil {
		switch name {
		case "Kind":
			return c.Zero
		case "IsValid":
			return c.False
		}
		d.require(c.False, "method of an invalid reflect.Value", in.pos)
		panic(kill{})
	}
	if r.Term != nil {
		switch name {
		case "Kind":
			return in.kindTerm(d, r.Term)
		case "IsValid":
			return c.Not(st.isNil(r.Term))
		case "Interface":
			if _, ok := under(r.Term.T).(*types.Interface); ok && r.Term.Op != OApp {
				return r.Term
			}
		case "Type":
			d.require(c.Not(st.isNil(r.Term)), "type of an invalid reflect.Value", in.pos)
			return &IfaceV{T: types.Typ[types.Invalid], V: &RT{Term: r.Term}, Tag: "rtype"}
		}
		return opaque()
	}
	switch name {
	case "Kind":
		return c.Int(kindOf(r.T))
	case "IsValid":
		return c.True
	case "Type":
		return &IfaceV{T: types.Typ[types.Invalid], V: &RT{T: r.T}, Tag: "rtype"}
	case "Interface":
		if _, ok := under(r.T).(*types.Interface); ok {
			return r.V
		}
		return &IfaceV{T: r.T, V: r.V}
	case "Int", "Uint", "Float", "Bool":
		e, ok := r.V.(*Expr)
		if !ok {
			break
		}
		b, isB := under(r.T).(*types.Basic)
		if !isB {
			break
		}
		good := name == "Int" && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 ||
			name == "Uint" && b.Info()&types.IsUnsigned != 0 || name == "Float" && b.Info()&types.IsFloat != 0 ||
			name == "Bool" && b.Info()&types.IsBoolean != 0
		if !good {
			d.require(c.False, "reflect: "+name+" of another kind", in.pos)
			panic(kill{})
		}
		if name == "Float" && b.Kind() == types.Float32 {
			return d.convert(e, r.T, tF64)
		}
		return e
	case "String":
		if isBasic(r.T, types.IsString) {
			return r.V
		}
		return opaque()
	case "IsNil":
		return st.isNil(r.V)
	case "Len":
		switch x := r.V.(type) {
		case *SliceV:
			return x.Len
		case *NilV:
			return c.Zero
		case *SeqV:
			return x.N
		case *Expr:
			return c.Len(x)
		case *MapV:
			return st.content(st.alias(x.O)).(*MapC).Len
		}
	case "Index":
		k := args[0].(*Expr)
		switch x := r.V.(type) {
		case *SliceV:
			d.bounds(k, x.Len, in.pos)
			q := st.load(x.Arr, nil).(*SeqV)
			return &RV{V: st.seqRead(q, c.Add(x.Off, k)), T: x.Elem}
		case *SeqV:
			d.bounds(k, x.N, in.pos)
			return &RV{V: st.seqRead(x, k), T: x.Elem}
		case *NilV:
			d.require(c.False, "index out of range", in.pos)
			panic(kill{})
		}
	case "Elem":
		switch x := r.V.(type) {
		case *Ptr:
			if st.must(st.isNil(x)) {
				return &RV{}
			}
			return &RV{V: st.load(x, nil), T: elemOf(r.T), Addr: x}
		case *NilV:
			return &RV{}
		case *IfaceV:
			return &RV{V: x.V, T: x.T}
		case *Expr:
			return &RV{Term: x}
		}
	case "CanSet", "CanAddr":
		return c.Bool(r.Addr != nil)
	case "CanInterface":
		return c.True
	case "Set":
		x, ok := args[0].(*RV)
		if r.Addr == nil {
			d.require(c.False, "reflect: Set of an unaddressable value", in.pos)
			panic(kill{})
		}
		if ok && x.V != nil {
			v := x.V
			if _, isI := under(r.T).(*types.Interface); isI {
				if _, isI := under(x.T).(*types.Interface); !isI {
					v = &IfaceV{T: x.T, V: v}
				}
			}
			st.store(r.Addr, v)
		} else {
			st.store(r.Addr, in.symVal(in.fresh("reflect.Set", r.T), r.T, false))
		}
		return nil
	case "NumField":
		if s, ok := under(r.T).(*types.Struct); ok {
			return c.Int(int64(s.NumFields()))
		}
	case "Field":
		if s, ok := r.V.(*StructV); ok {
			if n, ok := cint(args[0]); ok {
				return &RV{V: s.F[n], T: under(r.T).(*types.Struct).Field(int(n)).Type()}
			}
		}
	}
	return opaque()
}

// ---- sorting ----

// sortModel describes sorting as an unknown permutation of the elements. That the program's Swap (if any) exchanges
// two elements, and that its Less looks at the two elements in question, is checked where it matters.
func (in *Interp) sortModel(d *D, data Val, less Val) Val {
	st, c := d.st, in.C
	i, ok := data.(*IfaceV)
	if !ok {
		panic(stuck{"sorting of " + showVal(data)})
	}
	if less != nil {
		s, ok := i.V.(*SliceV)
		if !ok {
			if _, isNil := i.V.(*NilV); isNil {
				return nil
			}
			panic(stuck{"sorting of " + showVal(data)})
		}
		if s.Off != c.Zero {
			panic(stuck{"sorting of a part of an array"})
		}
		q := st.load(s.Arr, nil).(*SeqV)
		if n, ok := s.Len.Int64(); ok && n < 2 {
			return nil
		}
		perm := in.fresh("perm", tInt)
		in.permLen[perm] = s.Len
		in.permTerms(st, perm)
		f, ok := less.(*FuncV)
		if (len(in.orders) > 0 || in.sortWatch) && (!ok || f.Fn == nil) {
			panic(stuck{"comparison of a sort"})
		}
		in.orderFacts(d, s.Len, perm, func(d *D, a, b *Expr) []outcome { return in.call(d, f.Fn, f.Bind, []Val{a, b}, in.pos) })
		st.store(s.Arr, q.with(&SeqUpd{Perm: perm, N: s.Len}))
		if in.sortWatch {
			in.compareTwo(d, s.Len, func(d *D, a, b *Expr) { in.call(d, f.Fn, f.Bind, []Val{a, b}, in.pos) })
		}
		return nil
	}
	// sort.Interface: the slices which Swap permutes are found by analysing Swap
	m := in.P.Prog.LookupMethod(i.T, nil, "Swap")
	if m == nil {
		panic(stuck{"no Swap of " + i.T.String()})
	}
	ln := in.P.Prog.LookupMethod(i.T, nil, "Len")
	var n *Expr
	probe := d.fork()
	in.quiet++
	outs := in.call(probe, ln, nil, []Val{i.V}, in.pos)
	in.quiet--
	if len(outs) != 1 {
		panic(stuck{"Len of " + i.T.String()})
	}
	n, _ = outs[0].ret.(*Expr)
	if n == nil {
		panic(stuck{"Len of " + i.T.String()})
	}
	if k, ok := n.Int64(); ok && k < 2 {
		return nil
	}
	probe = d.fork()
	a, b := in.fresh("i", tInt), in.fresh("j", tInt)
	for _, x := range []*Expr{a, b} {
		probe.st.assume(c.Le(c.Zero, x))
		probe.st.assume(c.Lt(x, n))
	}
	probe.st.assume(c.Not(c.EqI(a, b)))
	in.quiet++
	outs = in.call(probe, m, nil, []Val{i.V, a, b}, in.pos)
	in.quiet--
	if len(outs) == 0 {
		panic(stuck{"Swap of " + i.T.String()})
	}
	perm := in.fresh("perm", tInt)
	in.permLen[perm] = n
	var changed map[*Obj]*SeqV
	for _, out := range outs {
		now := map[*Obj]*SeqV{}
		for o, v := range out.st.heap {
			old, had := st.heap[o]
			if !had && o.Sym == nil {
				continue
			}
			if !had {
				old = in.matCache[o]
			}
			if sameVal(old, v) {
				continue
			}
			q, ok1 := old.(*SeqV)
			w, ok2 := v.(*SeqV)
			if !ok1 || !ok2 || !in.isSwap(out.st, q, w, a, b) {
				panic(stuck{"Swap of " + i.T.String() + " does not exchange two elements"})
			}
			now[o] = q
		}
		if changed != nil && len(now) != len(changed) {
			panic(stuck{"Swap of " + i.T.String() + " does not always exchange the elements"})
		}
		for o := range now {
			if changed != nil && changed[o] == nil {
				panic(stuck{"Swap of " + i.T.String() + " does not always exchange the elements"})
			}
		}
		changed = now
	}
	if len(changed) == 0 {
		panic(stuck{"Swap of " + i.T.String() + " changes nothing"})
	}
	cmp := in.P.Prog.LookupMethod(i.T, nil, "Less")
	if cmp == nil {
		panic(stuck{"no Less of " + i.T.String()})
	}
	in.orderFacts(d, n, perm, func(d *D, a, b *Expr) []outcome { return in.call(d, cmp, nil, []Val{i.V, a, b}, in.pos) })
	for o, q := range changed {
		st.put(o, q.with(&SeqUpd{Perm: perm, N: n}))
		if in.OnStore != nil {
			in.OnStore(d, o, nil)
		}
	}
	in.permTerms(st, perm)
	if in.sortWatch {
		in.compareTwo(d, n, func(d *D, a, b *Expr) { in.call(d, cmp, nil, []Val{i.V, a, b}, in.pos) })
	}
	return nil
}

// order is a question about the order in which two keys of an object come out of a sort.
type order struct {
	m    *MapV
	p, q *Expr
}

// orderFacts tells which of two keys in question comes first after a sort, if the comparison is a strict order of
// elements with different sequence numbers: the elements at three arbitrary positions must be ordered.
func (in *Interp) orderFacts(d *D, n, perm *Expr, less func(d *D, a, b *Expr) []outcome) {
	c := in.C
	for _, o := range in.orders {
		var id *Expr
		if mc, ok := d.st.content(d.st.alias(o.m.O)).(*MapC); ok {
			id = d.st.mapID(mc)
		}
		if id == nil || in.mapOf[id] == nil {
			continue
		}
		m := in.mapOf[id]
		e := d.fork()
		var xs []*Expr
		for _, nm := range []string{"x", "y", "z"} {
			x := in.fresh(nm, tInt)
			xs = append(xs, x)
			e.st.assume(c.Le(c.Zero, x))
			e.st.assume(c.Lt(x, n))
		}
		seqOf := func(st *State, k *Expr) *Expr {
			v, ok := st.mapGet(m, k)
			if !ok {
				return nil
			}
			return firstInt(v)
		}
		for i, x := range xs {
			for _, y := range xs[:i] {
				e.st.assume(c.Not(c.EqI(x, y)))
				a := seqOf(e.st, c.App("keyat", m.K, id, x))
				b := seqOf(e.st, c.App("keyat", m.K, id, y))
				if a != nil && b != nil {
					e.st.assume(c.Not(c.EqI(a, b)))
				}
			}
		}
		// results of one comparison: the states in which it is true and false
		ask := func(st *State, a, b *Expr) (yes, no []*State) {
			f := *e
			f.st = st.fork()
			in.quiet++
			outs := less(&f, a, b)
			in.quiet--
			for _, o := range outs {
				r, ok := o.ret.(*Expr)
				if !ok {
					panic(stuck{"comparison of a sort"})
				}
				t, u := o.st.fork(), o.st
				if t.F.Assume(r) {
					yes = append(yes, t)
				}
				if u.F.Assume(c.Not(r)) {
					no = append(no, u)
				}
			}
			return
		}
		ab, ba := ask(e.st, xs[0], xs[1])
		for _, st := range ab {
			if y, _ := ask(st, xs[1], xs[0]); len(y) > 0 {
				panic(stuck{"the comparison of a sort puts two elements before each other"})
			}
			bc, _ := ask(st, xs[1], xs[2])
			for _, st := range bc {
				if _, no := ask(st, xs[0], xs[2]); len(no) > 0 {
					panic(stuck{"the comparison of a sort is no order"})
				}
			}
		}
		for _, st := range ba {
			if _, no := ask(st, xs[1], xs[0]); len(no) > 0 {
				panic(stuck{"the comparison of a sort does not order two elements"})
			}
		}
		has := func(k *Expr) bool { return d.st.F.Decide(d.st.mapHas(m, k)) == Yes }
		if !has(o.p) || !has(o.q) || d.st.F.Decide(d.st.eqKey(o.p, o.q)) != No {
			continue
		}
		px, qx := d.st.posOf(id, o.p), d.st.posOf(id, o.q)
		yes, no := ask(d.st, px, qx)
		if px, qx = d.st.invPerm(perm, px, c.True), d.st.invPerm(perm, qx, c.True); len(no) == 0 {
			d.st.assume(c.Lt(px, qx))
		} else if len(yes) == 0 {
			d.st.assume(c.Lt(qx, px))
		}
	}
}

// compareTwo analyses a comparison of two arbitrary positions, at any moment of the sort.
func (in *Interp) compareTwo(d *D, n *Expr, less func(d *D, a, b *Expr)) {
	c := in.C
	e := d.fork()
	a, b := in.fresh("i", tInt), in.fresh("j", tInt)
	for _, x := range []*Expr{a, b} {
		e.st.assume(c.Le(c.Zero, x))
		e.st.assume(c.Lt(x, n))
	}
	old := in.sortPair
	in.sortPair = [2]*Expr{a, b}
	less(e, a, b)
	in.sortPair = old
}

// permTerms names the positions to which a permutation moves the keys in question.
func (in *Interp) permTerms(st *State, perm *Expr) {
	for _, w := range in.keyWatches {
		for id, ps := range in.posTerms {
			for _, p := range ps {
				if len(p.Args) == 2 && st.F.find(p.Args[1]) == st.F.find(w.q) && in.mapOf[id] != nil {
					st.invPerm(perm, p, st.mapHas(in.mapOf[id], p.Args[1]))
				}
			}
		}
	}
}

// isSwap tells whether w is q with elements a and b exchanged.
func (in *Interp) isSwap(st *State, q, w *SeqV, a, b *Expr) bool {
	if w.Base != q.Base || w.Upd == nil || w.Upd.Prev == nil || w.Upd.Prev.Prev != q.Upd {
		return false
	}
	u, v := w.Upd, w.Upd.Prev
	if u.Idx == nil || v.Idx == nil {
		return false
	}
	if !(u.Idx == a && v.Idx == b || u.Idx == b && v.Idx == a) {
		return false
	}
	other := func(x *Expr) *Expr {
		if x == a {
			return b
		}
		return a
	}
	for _, x := range []*SeqUpd{u, v} {
		var want Val
		d := &D{in: in, st: st.fork()}
		r := in.attempt(d, func() { want = d.st.seqRead(q, other(x.Idx)) })
		if r.kind != 'o' || !sameVal(want, x.V) {
			return false
		}
	}
	return true
}

// bytesText is the text in a byte slice.
func bytesText(st *State, v Val) (*Expr, bool) {
	switch b := v.(type) {
	case *NilV:
		return st.in.C.Str(""), true
	case *SliceV:
		return st.bytesToString(b), true
	}
	return nil, false
}
