package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/report"
)

// Driver analyses one driver function: abstract values for its inputs, its assertions as obligations.
func (in *Interp) Driver(fn *ssa.Function) {
	st := &State{in: in, heap: map[*Obj]Val{}, F: newFacts(in.C)}
	in.initGlobals(st)
	d := &D{in: in, st: st}
	in.Steps = 0
	in.call(d, fn, nil, nil, fn.Pos())
}

// initGlobals gives the package-level variables the values their initialisation computes.
func (in *Interp) initGlobals(st *State) {
	pkgs := append([]*ssa.Package{}, in.P.Pkgs...)
	if in.P.Spec != nil {
		pkgs = append(pkgs, in.P.Spec)
	}
	for _, p := range pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				o := in.global(g)
				st.put(o, in.zero(o.T))
			}
		}
	}
	in.quiet++
	save := in.NoPanic
	in.NoPanic = false
	in.inInit = true
	for _, p := range []*ssa.Package{in.P.Main, in.P.Spec} {
		if p == nil {
			continue
		}
		if f := p.Func("init"); f != nil {
			outs := in.call(&D{in: in, st: st}, f, nil, nil, f.Pos())
			if len(outs) == 0 {
				in.stuck("package initialisation")
				continue
			}
			if outs[0].st != st {
				st.heap = outs[0].st.heap
			}
			st.F = newFacts(in.C)
		}
	}
	in.NoPanic = save
	in.inInit = false
	in.quiet--
	st.log = nil
}

// intrinsic evaluates the functions drivers describe inputs and obligations with.
func (in *Interp) intrinsic(d *D, fn *ssa.Function, args []Val, pos token.Pos) Val {
	c, st := in.C, d.st
	name := fn.Name()
	str := func(i int) string {
		s, ok := cstr(args[i])
		if !ok {
			panic(stuck{"name of " + name})
		}
		return s
	}
	switch name {
	case "Assume":
		st.assume(args[0].(*Expr))
		return nil
	case "Assert":
		st.closeLower()
		if e := args[1].(*Expr); e.Op == OCmp && e.Name == "==" && isBool(e.Args[0]) && st.F.Decide(e) == Unknown {
			// both sides one by one
			args[1] = c.Bool(st.must(e.Args[0]) == st.must(e.Args[1]))
		}
		in.oblige(d, fnShort(d)+": "+str(0), pos, args[1].(*Expr), str(0))
		return nil
	case "AssertUntouched", "AssertPermuted":
		var arr *SliceV
		if name == "AssertPermuted" {
			arr, _ = leaf(d.deref(args[1]), in.R.Arr).(*SliceV)
		}
		what, cond := in.untouchedCond(d, arr)
		if cond == c.True {
			in.oblige(d, fnShort(d)+": "+str(0), pos, c.True, str(0))
		} else if cond != nil {
			in.oblige(d, fnShort(d)+": "+str(0), pos, cond, str(0)+" ("+what+")")
			if _, cond := in.untouchedCond(d, arr); cond == c.True {
				in.oblige(d, fnShort(d)+": "+str(0), pos, c.True, str(0))
			}
		}
		return nil
	case "Summary":
		f, ok := args[0].(*IfaceV)
		if !ok || len(f.V.(*FuncV).Bind) > 0 {
			panic(stuck{"summary"})
		}
		in.sums = append(in.sums, f.V.(*FuncV))
		return nil
	case "ReadOnly":
		id := str(0)
		in.oblige(d, fnShort(d)+": "+id, pos, c.True, id)
		in.OnStore = func(d *D, o *Obj, p *Ptr) {
			if o.Sym == nil || in.isIndex(o.T) || strings.HasPrefix(o.Sym.Name, "shared") {
				return
			}
			in.oblige(d, fnShort(d)+": "+id, in.pos, c.False, id+" (store to "+o.name()+")")
		}
		return nil
	case "WatchSorting":
		in.sortWatch = true
		return nil
	case "SortPair":
		if in.sortPair[0] == nil {
			panic(stuck{"a comparison outside of sorting"})
		}
		return TupleV{in.sortPair[0], in.sortPair[1]}
	case "Unreachable":
		in.oblige(d, fnShort(d)+": "+str(0), pos, c.False, str(0))
		return nil
	case "EscapingIsAFunction":
		in.EscapeSum = true
		return nil
	case "Escaped":
		return in.escaped(st, args[0].(*Expr))
	case "Watch":
		in.watches = append(in.watches, &watch{args[0].(*Expr), args[1].(*Expr), args[2].(*Expr)})
		return nil
	case "WatchKey":
		if in.keySeen == nil {
			in.keySeen = map[*Expr]bool{}
		}
		in.keyWatches = append(in.keyWatches, &watch{q: args[0].(*Expr), p: args[1].(*Expr)})
		return nil
	case "WatchOrder":
		if in.keySeen == nil {
			in.keySeen = map[*Expr]bool{}
		}
		m, ok := leaf(d.deref(args[0]), in.R.Obj).(*MapV)
		if !ok {
			panic(stuck{"object field"})
		}
		p, q := args[1].(*Expr), args[2].(*Expr)
		in.keyWatches = append(in.keyWatches, &watch{q: p, p: c.False}, &watch{q: q, p: c.False})
		in.orders = append(in.orders, order{m, p, q})
		return nil
	case "Counter":
		n, ok := leaf(d.deref(args[0]), in.R.Counter).(*Expr)
		if !ok {
			panic(stuck{"counter of the set order"})
		}
		return n
	case "OneOf":
		p := c.False
		for _, b := range []byte(str(1)) {
			p = c.Or(p, c.EqI(args[0].(*Expr), c.Int(int64(b))))
		}
		return p
	case "Spells":
		return in.spells(st, args[0].(*Expr), args[1].(*Expr))
	case "NoPanic":
		in.NoPanic = true
		return nil
	case "Split":
		st.must(args[0].(*Expr))
		return nil
	case "Recursion":
		i, ok := args[0].(*IfaceV)
		if !ok {
			panic(stuck{"Recursion"})
		}
		f, ok := i.V.(*FuncV)
		if !ok {
			panic(stuck{"Recursion"})
		}
		st.recs = append(st.recs, f)
		return nil
	case "SubImports":
		f, ok := args[0].(*FuncV)
		if !ok {
			panic(stuck{"SubImports"})
		}
		st.subs = f
		return nil
	case "Output":
		var fs [4]*FuncV
		for i := range fs {
			f, ok := args[i].(*FuncV)
			if !ok {
				panic(stuck{"Output"})
			}
			fs[i] = f
		}
		st.out = &sink{Char: fs[0], Escaped: fs[1], Other: fs[2], Child: fs[3]}
		return nil
	case "Blank": // the text consists of blanks
		s := *st.out
		s.blank = append(s.blank[:len(s.blank):len(s.blank)], args[0].(*Expr))
		st.out = &s
		return nil
	case "Written":
		return c.Sym("$written", tString)
	case "PartsAsWhole":
		in.Whole = true
		return nil
	case "Twin":
		a, ok1 := args[0].(*Ptr)
		b, ok2 := args[1].(*Ptr)
		if !ok1 || !ok2 || a.O.Sym == nil || b.O.Sym == nil {
			panic(stuck{"Twin"})
		}
		if in.twins == nil {
			in.twins = map[*Expr]*Expr{}
		}
		in.twins[b.O.Sym] = a.O.Sym
		return nil
	case "HasText":
		switch b := leaf(d.deref(args[0]), in.R.Src).(type) {
		case *NilV:
			return c.False
		case *SliceV:
			return c.Lt(c.Zero, b.Len)
		}
		panic(stuck{"text field"})
	case "UFBool", "UFV":
		sl, ok := args[1].(*SliceV)
		n := int64(0)
		if ok {
			if n, ok = sl.Len.Int64(); !ok {
				panic(stuck{"UF"})
			}
		}
		var es []*Expr
		same := true
		for k := int64(0); k < n; k++ {
			q := st.load(sl.Arr, nil).(*SeqV)
			v := st.seqRead(q, c.Add(sl.Off, c.Int(k)))
			if p, ok := v.(*Ptr); ok && len(p.Path) == 0 {
				v = &Ptr{O: st.alias(p.O)}
			}
			es = append(es, c.subst(in.name(st, v), in.twins))
			same = same && es[k] == es[0]
		}
		if name == "UFBool" {
			if str(0) == "equal" { // an equivalence relation
				if same {
					return c.True
				}
				sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
			}
			return c.App("uf:"+str(0), tBool, es...)
		}
		T := fn.Signature.Results().At(0).Type()
		return in.symVal(c.App("uf:"+str(0), T, es...), T, true)
	case "Kind":
		ty, ok := leaf(d.deref(args[0]), in.R.Type).(*Expr)
		if !ok {
			panic(stuck{"type field"})
		}
		return ty
	case "Len":
		switch a := leaf(d.deref(args[0]), in.R.Arr).(type) {
		case *SliceV:
			return a.Len
		case *NilV:
			return c.Zero
		}
		panic(stuck{"array field"})
	case "Elem":
		a, ok := leaf(d.deref(args[0]), in.R.Arr).(*SliceV)
		if !ok {
			panic(stuck{"array field"})
		}
		q := st.load(a.Arr, nil).(*SeqV)
		return st.seqRead(q, c.Add(a.Off, args[1].(*Expr)))
	case "Merge": // the option's own method
		fv, as := d.methodOf(args[1])
		d.pend = &pendCall{fn: fv, args: append(as, args[0])}
		return nil
	case "Combined":
		f := in.combiner()
		if f == nil {
			panic(stuck{"no function combines options"})
		}
		d.pend = &pendCall{fn: f, args: args}
		return nil
	case "SameOpt":
		return in.sameFields(d, d.deref(args[0]), d.deref(args[1]))
	case "Has", "Member", "Count", "Seq":
		var mc *MapC
		switch m := leaf(d.deref(args[0]), in.R.Obj).(type) {
		case *MapV:
			if !st.must(st.isNil(m)) {
				mc = st.content(st.alias(m.O)).(*MapC)
			}
		case *NilV:
		default:
			panic(stuck{"object field"})
		}
		if name == "Count" {
			if mc == nil {
				return c.Zero
			}
			return mc.Len
		}
		if mc == nil {
			if name == "Has" {
				return c.False
			}
			return in.zero(fn.Signature.Results().At(0).Type())
		}
		k := st.F.find(args[1].(*Expr))
		if name == "Has" {
			return st.mapHas(mc, k)
		}
		v, ok := st.mapGet(mc, k)
		if !ok {
			return in.zero(fn.Signature.Results().At(0).Type())
		}
		if name == "Seq" {
			if e := firstInt(v); e != nil {
				return e
			}
			panic(stuck{"sequence number"})
		}
		if p := firstPtrV(in, v); p != nil {
			return p
		}
		panic(stuck{"member"})
	}
	if strings.HasPrefix(name, "Any") {
		T := fn.Signature.Results().At(0).Type()
		e := c.Sym(str(0), T)
		valid := !strings.HasPrefix(name, "AnyRaw")
		if p, ok := T.(*types.Pointer); ok {
			o := in.symObj(e, p.Elem(), 'v', valid, !strings.HasPrefix(name, "AnyRaw"))
			o.Input = true
			return &Ptr{O: o}
		}
		if IsInt(T) {
			if in.anyInts == nil {
				in.anyInts = map[*Expr]bool{}
			}
			in.anyInts[e] = true
		}
		if isBasic(T, types.IsString) {
			known := false
			for _, x := range in.anyStrs {
				known = known || x == e
			}
			if !known {
				in.anyStrs = append(in.anyStrs, e)
			}
		}
		v := in.symVal(e, T, valid)
		if valid && isBasic(T, types.IsFloat) && strings.HasPrefix(name, "AnyFinite") {
			st.finite(e)
		}
		if s, ok := v.(*SliceV); ok && in.cs != nil {
			st.assume(c.Le(s.Len, s.Cap))
		}
		return v
	}
	panic(stuck{"intrinsic " + name})
}

// methodOf gives the only method of the interface's dynamic type which takes a pointer to Opt.
func (d *D) methodOf(v Val) (*ssa.Function, []Val) {
	i, ok := v.(*IfaceV)
	if !ok {
		panic(stuck{"option " + showVal(v)})
	}
	it := under(d.in.P.Main.Pkg.Scope().Lookup("Option").Type()).(*types.Interface)
	if it.NumMethods() != 1 {
		panic(stuck{"methods of Option"})
	}
	m := d.in.P.Prog.LookupMethod(i.T, it.Method(0).Pkg(), it.Method(0).Name())
	if m == nil {
		panic(stuck{"method of " + i.T.String()})
	}
	return m, []Val{i.V}
}

// combiner is the function which makes the options of one call from the defaults and the given ones.
func (in *Interp) combiner() *ssa.Function {
	var out *ssa.Function
	opt := in.P.Main.Pkg.Scope().Lookup("Opt").Type()
	option := in.P.Main.Pkg.Scope().Lookup("Option").Type()
	for _, m := range in.P.Main.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		s := f.Signature
		if s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 &&
			types.Identical(s.Params().At(0).Type(), types.NewSlice(option)) && types.Identical(s.Results().At(0).Type(), types.NewPointer(opt)) {
			if out != nil {
				return nil
			}
			out = f
		}
	}
	return out
}

// sameFields compares two structs, ignoring derived tables of functions.
func (in *Interp) sameFields(d *D, a, b Val) *Expr {
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if !ok1 || !ok2 {
		panic(stuck{"comparison of options"})
	}
	c, st := in.C, d.st
	r := c.True
	t := under(x.T).(*types.Struct)
	for i := range x.F {
		f := t.Field(i)
		p, q := x.F[i], y.F[i]
		if e, ok := p.(*Expr); ok {
			p = st.F.find(e)
		}
		if e, ok := q.(*Expr); ok {
			q = st.F.find(e)
		}
		if sameVal(p, q) {
			continue
		}
		switch u := under(f.Type()).(type) {
		case *types.Signature:
			if !f.Exported() {
				continue
			}
			n, ok1 := p.(*NilV)
			m, ok2 := q.(*NilV)
			switch {
			case ok1 && ok2:
			case ok1:
				r = c.And(r, st.isNil(q))
			case ok2:
				r = c.And(r, st.isNil(p))
			default:
				_, _ = n, m
				return c.False
			}
		case *types.Array:
			if _, ok := under(u.Elem()).(*types.Signature); !ok || f.Exported() {
				return c.False
			}
		case *types.Struct:
			r = c.And(r, in.sameFields(d, p, q))
		case *types.Slice, *types.Map:
			if m, ok := p.(*MapV); ok && !f.Exported() && m.O.Fresh {
				if n, ok := q.(*MapV); ok && n.O.Fresh {
					continue // built from the option; not compared further
				}
			}
			r = c.And(r, in.sameContent(d, p, q, nil, ""))
		case *types.Basic:
			if u.Info()&types.IsFloat != 0 {
				return c.False // different terms
			}
			r = c.And(r, st.equal(p, q))
		default:
			return c.False
		}
	}
	return r
}

func fnShort(d *D) string {
	for f := d.fr; f != nil; f = f.parent {
		if strings.HasPrefix(f.fn.Name(), "Spec") {
			n, _, _ := strings.Cut(f.fn.Name(), "$")
			return n
		}
	}
	return "-"
}

func firstInt(v Val) *Expr {
	if s, ok := v.(*StructV); ok {
		for _, f := range s.F {
			if e, ok := f.(*Expr); ok && !isBool(e) && !isStr(e) {
				return e
			}
		}
	}
	return nil
}

func firstPtrV(in *Interp, v Val) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		if in.R.isV(x.O.T) {
			return x
		}
	case *StructV:
		for _, f := range x.F {
			if p := firstPtrV(in, f); p != nil {
				return p
			}
		}
	}
	return nil
}

// deref loads the struct behind a pointer.
func (d *D) deref(v Val) Val {
	p, ok := v.(*Ptr)
	if !ok {
		panic(stuck{"observer applied to " + showVal(v)})
	}
	d.st.assume(d.in.C.Not(d.st.isNil(p)))
	return d.st.load(p, nil)
}

// untouchedCond gives the condition under which everything the driver was given is as it was.
func (in *Interp) untouchedCond(d *D, arr *SliceV) (string, *Expr) {
	st := d.st
	var os []*Obj
	for o := range st.heap {
		if o.Sym != nil {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		old := in.matCache[o]
		if old == nil {
			continue
		}
		now := st.heap[o]
		if arr != nil && arr.Arr.O == o && arr.Off == in.C.Zero {
			now = unpermuted(st, now, arr.Len)
		}
		if e := in.sameContent(d, now, old, o.T, ""); e != in.C.True {
			if st.F.Decide(e) != Yes {
				return o.name() + " was " + clip(showVal(old), 200) + ", is " + clip(showVal(st.heap[o]), 200), e
			}
		}
	}
	return "", in.C.True
}

// unpermuted takes permutations of the first n elements off a sequence.
func unpermuted(st *State, v Val, n *Expr) Val {
	q, ok := v.(*SeqV)
	if !ok {
		return v
	}
	for q.Upd != nil && q.Upd.Perm != nil && st.F.Decide(st.in.C.EqI(q.Upd.N, n)) == Yes {
		y := *q
		y.Upd = q.Upd.Prev
		q = &y
	}
	return q
}

// sameContent is a condition for equality of two contents.
func (in *Interp) sameContent(d *D, a, b Val, T types.Type, path string) *Expr {
	c, st := in.C, d.st
	if sameVal(a, b) {
		return c.True
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return c.False
		}
		r := c.True
		for i := range x.F {
			if t, ok := under(x.T).(*types.Struct); ok && i < t.NumFields() && in.isIndex(t.Field(i).Type()) {
				continue
			}
			r = c.And(r, in.sameContent(d, x.F[i], y.F[i], nil, path))
		}
		return r
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			if _, isNil := b.(*NilV); isNil {
				return st.isNil(x)
			}
			return c.False
		}
		if x.Arr.O != y.Arr.O {
			return c.False
		}
		return c.And(c.EqI(x.Len, y.Len), c.EqI(x.Off, y.Off))
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok {
			return c.False
		}
		// every position
		k := c.Sym("k!any", tInt)
		p, q := st.seqRead(x, k), st.seqRead(y, k)
		return in.sameContent(d, p, q, x.Elem, path)
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || in.isIndex(T) {
			return c.Bool(in.isIndex(T))
		}
		k := c.Sym("key!any", tString)
		h1, h2 := st.must(st.mapHas(x, k)), st.must(st.mapHas(y, k))
		if h1 != h2 {
			return c.False
		}
		if !h1 {
			return c.EqI(x.Len, y.Len)
		}
		v, _ := st.mapGet(x, k)
		w, _ := st.mapGet(y, k)
		return c.And(c.EqI(x.Len, y.Len), in.sameContent(d, v, w, nil, path))
	case *NilV:
		switch b.(type) {
		case *NilV:
			return c.True
		}
		return st.isNil(b)
	case *MapV:
		y, ok := b.(*MapV)
		return c.Bool(ok && x.O == y.O)
	}
	r := c.False
	if res := in.attempt(d, func() { r = st.equal(a, b) }); res.kind != 'o' {
		if res.kind == 's' {
			panic(split{res.c})
		}
		return c.False
	}
	return r
}

func (in *Interp) isIndex(T types.Type) bool {
	if T == nil || in.R == nil {
		return false
	}
	for t := in.R.indexT; t != nil; {
		if types.Identical(T, t) {
			return true
		}
		switch u := under(t).(type) { // parts of the index
		case *types.Map:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return false
		}
	}
	return false
}

// mergeLimits are the numbers of disjuncts tried one after the other: each of them is sound, but they keep different
// distinctions. A driver passes if it passes with one of them.
var mergeLimits = []int{30, 6}

// attemptDriver runs a driver; it tells whether all obligations were discharged.
func (in *Interp) attemptDriver(f *ssa.Function) (ok bool) {
	in.Driver(f)
	if len(in.order) == 0 || len(in.Viols) > 0 || len(in.Stucks) > 0 {
		return false
	}
	for _, id := range asserts(f) {
		if _, ok := in.Obls[f.Name()+": "+id]; !ok {
			return false
		}
	}
	return true
}

func init() {
	if n, err := strconv.Atoi(os.Getenv("AI_ML")); err == nil { // for experiments
		mergeLimits = []int{n}
	}
}

// RunDrivers analyses every driver of a property and reports.
func RunDrivers(in0 func() *Interp, spec *ssa.Package, id string, r *report.Report) int {
	var fns []*ssa.Function
	for n, m := range spec.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Spec"+id) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	type res struct {
		in *Interp
		fn *ssa.Function
	}
	out := make([]res, len(fns))
	budget := 600
	if len(fns) > 0 {
		if b := in0().Budget; b > 0 {
			budget = b
		}
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second).UnixNano()
	if r.Rule != "" {
		r.Rule += " Moreover: "
	}
	r.Rule += "Abstract interpretation of the drivers (functions Spec" + id + "*) over the SSA form of the repository: every obligation must be discharged on every abstract path; whatever the interpretation cannot follow, and every driver without obligations, is reported."
	sem := make(chan bool, 8)
	done := make(chan int)
	for i, f := range fns {
		go func(i int, f *ssa.Function) {
			sem <- true
			defer func() {
				if e := recover(); e != nil {
					out[i].in.Stucks[fmt.Sprint("internal error: ", e)] = f.Name()
					if out[i].in.trace {
						panic(e)
					}
				}
				<-sem
				done <- i
			}()
			out[i].fn = f
			for n, limit := range mergeLimits {
				in := in0()
				if n == 0 {
					out[i].in = in
				} else if time.Now().UnixNano() > deadline-int64(budget)*5e8 {
					break // less than half of the time is left
				}
				in.deadline = &deadline
				if in.MergeLimit = limit; in.EnumMaps {
					in.MergeLimit = 1 << 20 // the cases are few, and what tells them apart is needed
				}
				if in.attemptDriver(f) {
					out[i].in = in
					break
				}
			}
		}(i, f)
	}
	for range fns {
		<-done
	}
	total, steps, joins, fix, rounds, fm := 0, 0, 0, 0, 0, 0
	for _, o := range out {
		in := o.in
		if len(in.order) == 0 {
			r.Fail(report.Violation{Rule: "driver " + o.fn.Name(), Where: in.P.Pos(o.fn.Pos()), Func: o.fn.Name(), What: "no obligation was reached"})
		}
		for _, k := range in.order {
			total++
			r.Oblige(k)
			r.Samples = append(r.Samples, fmt.Sprintf("%s: %d states, %d not established", k, in.Obls[k].N, in.Obls[k].Bad))
		}
		for _, v := range in.Viols {
			r.Fail(report.Violation{Rule: v.Key, Where: v.Pos, Func: v.Fn, What: v.What, Path: v.Path})
		}
		for _, id := range asserts(o.fn) {
			if _, ok := in.Obls[o.fn.Name()+": "+id]; !ok {
				r.Fail(report.Violation{Rule: "driver " + o.fn.Name(), Where: in.P.Pos(o.fn.Pos()), Func: o.fn.Name(), What: "obligation never reached: " + id})
			}
		}
		var ks []string
		for k := range in.Stucks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.Fail(report.Violation{Rule: "undecided", Where: in.Stucks[k], Func: o.fn.Name(), What: "the analysis cannot follow: " + k})
		}
		for f := range in.Funcs {
			r.Functions[f.RelString(nil)] = true
		}
		steps += in.Steps
		joins += in.Joins
		fix += in.LoopsFix
		rounds += in.Rounds
		fm += in.C.fmCalls
	}
	r.Analysed["drivers"] = len(fns)
	r.Analysed["instructions_interpreted"] = steps
	r.Analysed["joins"] = joins
	r.Analysed["loop_fixpoints"] = fix
	r.Analysed["fixpoint_rounds"] = rounds
	r.Analysed["linear_entailments"] = fm
	return total
}

// asserts lists the obligations written in a driver and its closures.
func asserts(fn *ssa.Function) []string {
	var out []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg != fn.Pkg || (g.Name() != "Assert" && g.Name() != "AssertUntouched") {
					continue
				}
				if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
					s := k.Value.ExactString()
					if len(s) > 2 {
						out = append(out, s[1:len(s)-1])
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return out
}

// spells tells whether a text is a form of a number by which it is read back.
func (in *Interp) spells(st *State, text, f *Expr) *Expr {
	c := in.C
	t := st.F.find(text)
	if t.Op == OApp && len(t.Args) > 0 {
		switch t.Name {
		case "json.float":
			return c.Bool(t.Args[0] == f)
		case "strconv.FormatFloat":
			k, _ := t.Args[1].Int64()
			p, _ := t.Args[2].Int64()
			b, _ := t.Args[3].Int64()
			return c.Bool(t.Args[0] == f && strings.ContainsRune("eEfgG", rune(k)) && p == -1 && b == 64)
		}
	}
	return c.False
}
