package lint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
	"verif/analyzer/report"
)

// Input decides that the memory of texts given by the caller is only read, and not kept: an alias analysis, forward from
// the parameters and from the results of the caller's own marshalers.
func Input(p *prog.Program, r *report.Report) {
	r.Rule = "Forward alias analysis over the SSA form, across calls: a value which may refer to the memory of a []byte parameter of an exported function (other than the no-copy ones), " +
		"of the text parameter of a parsing function, or of a text which a marshaler of the caller returned, may be measured, indexed for reading, compared, sliced, copied from, converted with a copy, " +
		"kept in local variables and passed to functions for which the same holds. Any store to its memory, any store, return, send or capture which keeps it, and any call which cannot be followed is a violation " +
		"(strings of a string parameter may be kept, as nobody can change them)."
	a := &inputs{p: p, r: r, val: map[ssa.Value]int{}, ptr: map[ssa.Value]int{}, from: map[ssa.Value]ssa.Value{}, ret: map[*ssa.Function]map[int]int{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, failed: map[ssa.Instruction]bool{}}
	var fns []*ssa.Function
	for _, fn := range p.Functions() {
		if fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		if fn.Pkg != nil && fn.Parent() == nil && token.IsExported(fn.Name()) && !strings.Contains(fn.Pkg.Pkg.Path(), "/internal") {
			for i, x := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					continue
				}
				switch {
				case isBytes(x.Type()) && !strings.Contains(fn.Name(), "NoCopy"):
					a.source(x, fn, fn.Name(), aBytes)
				case isText(x.Type()) && ParseRoots(fn) && !strings.Contains(fn.Name(), "NoCopy"):
					a.source(x, fn, fn.Name(), aText)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && (c.Call.Method.Name() == "MarshalJSON" || c.Call.Method.Name() == "MarshalText") {
					for _, u := range *c.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
							a.source(e, fn, fn.Name()+"/"+c.Call.Method.Name(), aBytes)
						}
					}
				}
			}
		}
	}
	for len(a.work) > 0 {
		v := a.work[0]
		a.work = a.work[1:]
		a.uses(v)
	}
	r.Analysed["sources"] = a.sources
	r.Analysed["values_followed"] = len(a.val) + len(a.ptr)
	r.Analysed["uses"] = a.n
}

const (
	aText  = 1 // memory of a string: nobody can change it, thus strings of it may be kept
	aBytes = 2
)

type inputs struct {
	p       *prog.Program
	r       *report.Report
	val     map[ssa.Value]int // may refer to the memory
	ptr     map[ssa.Value]int // points to local variables which may
	from    map[ssa.Value]ssa.Value
	ret     map[*ssa.Function]map[int]int
	calls   map[*ssa.Function][]ssa.CallInstruction
	failed  map[ssa.Instruction]bool
	work    []ssa.Value
	sources int
	n       int
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// refers tells whether values of the type can refer to memory.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *inputs) source(v ssa.Value, fn *ssa.Function, name string, m int) {
	a.sources++
	a.r.Oblige("source " + name)
	a.add(a.val, v, nil, m)
}

func (a *inputs) add(set map[ssa.Value]int, v ssa.Value, from ssa.Value, m int) {
	if set[v] >= m {
		return
	}
	if _, ok := a.from[v]; !ok {
		a.from[v] = from
	}
	set[v] = m
	a.work = append(a.work, v)
}

func (a *inputs) fail(in ssa.Instruction, v ssa.Value, what string) {
	if a.failed[in] {
		return
	}
	a.failed[in] = true
	pos := in.Pos()
	for x := v; x != nil && pos == token.NoPos; x = a.from[x] {
		pos = x.Pos()
	}
	var path []string
	seen := map[*ssa.Function]bool{}
	for x := v; x != nil; x = a.from[x] {
		if f := x.Parent(); f != nil && !seen[f] {
			seen[f] = true
			path = append([]string{f.RelString(a.p.Main.Pkg) + " (" + x.Name() + ")"}, path...)
		}
	}
	a.r.Fail(report.Violation{Rule: "caller's text", Where: a.p.Pos(pos), Func: in.Parent().RelString(a.p.Main.Pkg), What: what + "; the text comes through " + strings.Join(path, " -> ")})
}

// keeps tells whether keeping the value is a fault.
func keeps(v ssa.Value, m int) bool { return !(m == aText && isText(v.Type())) }

func (a *inputs) uses(v ssa.Value) {
	if fn := v.Parent(); fn != nil {
		a.r.Functions[fn.String()] = true
	}
	refs := v.Referrers()
	if refs == nil {
		return
	}
	if m := a.val[v]; m > 0 {
		for _, in := range *refs {
			a.n++
			a.use(v, in, m)
		}
	}
	if m := a.ptr[v]; m > 0 {
		for _, in := range *refs {
			a.n++
			a.usePtr(v, in, m)
		}
	}
}

// local finds the local variable a pointer points into, or nil.
func (a *inputs) local(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FieldAddr:
		return a.local(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return a.local(x.X)
		}
	case *ssa.FreeVar:
		return x
	case *ssa.Parameter:
		if a.ptr[v] > 0 {
			return x
		}
	}
	return nil
}

func (a *inputs) use(v ssa.Value, in ssa.Instruction, m int) {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.If, *ssa.RunDefers, *ssa.Jump:
	case *ssa.BinOp:
		// comparisons; concatenation copies
	case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Extract, *ssa.Field, *ssa.Slice, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
		if y := in.(ssa.Value); refers(y.Type()) {
			if e, ok := in.(*ssa.Extract); ok && a.tupleMode(e) == 0 {
				return
			}
			a.add(a.val, y, v, m)
		}
	case *ssa.Convert:
		// conversions between texts and bytes copy; others keep the reference
		if refers(x.Type()) && !(isText(x.X.Type()) && isBytes(x.Type()) || isBytes(x.X.Type()) && isText(x.Type())) {
			a.add(a.val, x, v, m)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && refers(x.Type()) {
			a.add(a.val, x, v, m)
		}
	case *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next:
		if y, ok := in.(*ssa.Lookup); ok && y.Index == v {
			return
		}
		if y, ok := in.(ssa.Value); ok && refers(y.Type()) {
			if _, isRange := in.(*ssa.Range); !isRange {
				a.add(a.val, y, v, m)
			}
		}
	case *ssa.IndexAddr:
		if x.X == v {
			a.add(a.val, x, v, m) // stores through it are faults
		}
	case *ssa.FieldAddr:
		a.add(a.val, x, v, m)
	case *ssa.Store:
		if x.Addr == v {
			a.fail(in, v, "the caller's text is changed")
			return
		}
		if l := a.local(x.Addr); l != nil {
			a.add(a.ptr, l, v, m)
			return
		}
		if keeps(v, m) {
			a.fail(in, v, "a reference to the caller's text is kept")
		}
	case *ssa.MapUpdate:
		if keeps(v, m) {
			a.fail(in, v, "a reference to the caller's text is kept in a map")
		}
	case *ssa.Send:
		if keeps(v, m) {
			a.fail(in, v, "a reference to the caller's text is sent")
		}
	case *ssa.Return:
		fn := in.Parent()
		for i, y := range x.Results {
			if y != v {
				continue
			}
			if a.ret[fn] == nil {
				a.ret[fn] = map[int]int{}
			}
			if a.ret[fn][i] < m {
				a.ret[fn][i] = m
				for _, c := range a.calls[fn] {
					a.result(c, fn, v)
				}
			}
			if fn.Parent() == nil && token.IsExported(fn.Name()) && fn.Pkg != nil && !strings.Contains(fn.Pkg.Pkg.Path(), "/internal") && keeps(v, m) {
				a.fail(in, v, "a reference to the caller's text is returned")
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				a.add(a.val, f.FreeVars[i], v, m)
			}
		}
	case ssa.CallInstruction:
		a.call(v, x, m, a.val)
	default:
		a.fail(in, v, fmt.Sprintf("a use of the caller's text which cannot be followed (%T)", in))
	}
}

// tupleMode tells whether the result is one that refers to the text.
func (a *inputs) tupleMode(e *ssa.Extract) int {
	c, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return aBytes
	}
	if f := c.Call.StaticCallee(); f != nil && a.p.InRepo(f) {
		return a.ret[f][e.Index]
	}
	return aBytes
}

func (a *inputs) usePtr(v ssa.Value, in ssa.Instruction, m int) {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
	case *ssa.UnOp:
		if x.Op == token.MUL && refers(x.Type()) {
			a.add(a.val, x, v, m)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.MakeInterface:
		a.add(a.ptr, in.(ssa.Value), v, m)
	case *ssa.Store:
		if x.Addr != v {
			if l := a.local(x.Addr); l != nil {
				a.add(a.ptr, l, v, m)
				return
			}
			a.fail(in, v, "a variable which refers to the caller's text is kept")
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				a.add(a.ptr, f.FreeVars[i], v, m)
			}
		}
	case *ssa.Return:
		a.fail(in, v, "a variable which refers to the caller's text is returned")
	case ssa.CallInstruction:
		a.call(v, x, m, a.ptr)
	default:
		a.fail(in, v, fmt.Sprintf("a use of a variable which refers to the caller's text which cannot be followed (%T)", in))
	}
}

// readers are packages whose functions read the texts they are given; their results may refer to them.
var readers = map[string]bool{"bytes": true, "strings": true, "strconv": true, "unicode/utf8": true, "unicode": true, "fmt": true, "errors": true, "encoding/base64": true, "unicode/utf16": true, "hash/crc32": true, "math": true}

func (a *inputs) call(v ssa.Value, in ssa.CallInstruction, m int, set map[ssa.Value]int) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println", "recover", "panic":
			return
		case "copy":
			if cc.Args[0] == v {
				if set[v] > 0 && a.val[v] > 0 {
					a.fail(in, v, "the caller's text is overwritten")
				}
			}
			if cc.Args[1] == v && !a.isNew(cc.Args[0], map[ssa.Value]bool{}) {
				a.fail(in, v, "the caller's text is copied to memory which is not new")
			}
			return
		case "append":
			if cc.Args[0] == v && a.val[v] > 0 {
				if isBytes(v.Type()) {
					a.fail(in, v, "bytes are appended to the caller's text in place")
					return
				}
			}
			if isBytes(v.Type()) || isText(v.Type()) {
				if cc.Args[0] != v && !a.isNew(cc.Args[0], map[ssa.Value]bool{}) {
					a.fail(in, v, "the caller's text is copied to memory which is not new")
				}
				return // copied
			}
			if y, ok := in.(ssa.Value); ok {
				a.add(a.val, y, v, m)
			}
			return
		}
		if y, ok := in.(ssa.Value); ok && refers(y.Type()) {
			a.add(set, y, v, m)
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		if c, ok := cc.Value.(*ssa.MakeClosure); ok {
			f, _ = c.Fn.(*ssa.Function)
		}
	}
	if f == nil && cc.Value == v && !cc.IsInvoke() {
		return // a call of a closure which captures it: followed where it is made
	}
	if f == nil {
		if cc.IsInvoke() && cc.Value == v && cc.Method.Name() == "Error" {
			return
		}
		a.fail(in, v, "the caller's text is passed to an unknown function")
		return
	}
	if !a.p.InRepo(f) {
		if f.Pkg != nil && readers[f.Pkg.Pkg.Path()] && !strings.HasPrefix(f.Name(), "Append") && f.Signature.Recv() == nil ||
			f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/base64" && strings.HasPrefix(f.Name(), "Encod") && cc.Args[len(cc.Args)-1] == v {
			if y, ok := in.(ssa.Value); ok && f.Pkg.Pkg.Path() != "fmt" && f.Pkg.Pkg.Path() != "encoding/base64" && f.Pkg.Pkg.Path() != "errors" && f.Pkg.Pkg.Path() != "strconv" && resultRefers(f) {
				a.add(a.val, y, v, m)
			}
			return
		}
		switch f.String() {
		case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString":
			if cc.Args[0] != v {
				return // copied
			}
		}
		a.fail(in, v, "the caller's text is passed to "+f.String()+", which may keep or change it")
		return
	}
	if len(f.Blocks) == 0 {
		a.fail(in, v, "the caller's text is passed to "+f.String()+", which cannot be followed")
		return
	}
	seen := false
	for _, c := range a.calls[f] {
		seen = seen || c == in
	}
	if !seen {
		a.calls[f] = append(a.calls[f], in)
	}
	for i, y := range cc.Args {
		if y == v && i < len(f.Params) {
			a.add(set, f.Params[i], v, m)
		}
	}
	a.result(in, f, v)
}

// resultRefers tells whether results refer to texts.
func resultRefers(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if _, isErr := t.Underlying().(*types.Interface); refers(t) && !isErr {
			return true
		}
	}
	return false
}

// result: what the call results in may refer to the text if f returns such.
func (a *inputs) result(c ssa.CallInstruction, f *ssa.Function, from ssa.Value) {
	y, ok := c.(*ssa.Call)
	if !ok {
		return
	}
	max := 0
	for _, m := range a.ret[f] {
		if m > max {
			max = m
		}
	}
	if max == 0 {
		return
	}
	given := a.val[from]
	if a.ptr[from] > given {
		given = a.ptr[from]
	}
	least := func(m int) int {
		if given > 0 && given < m {
			return given
		}
		return m
	}
	if f.Signature.Results().Len() == 1 {
		a.add(a.val, y, from, least(max))
		return
	}
	for _, u := range *y.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && a.ret[f][e.Index] > 0 {
			a.add(a.val, e, from, least(a.ret[f][e.Index]))
		}
	}
}

// isNew tells whether a slice is nil or refers to memory which the function, or its callers, have just made.
func (a *inputs) isNew(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.Convert:
		return isText(x.X.Type()) && isBytes(x.Type())
	case *ssa.Slice:
		return a.isNew(x.X, seen)
	case *ssa.ChangeType:
		return a.isNew(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.isNew(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // a local variable
		l, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return false
		}
		for _, u := range *l.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == l && !a.isNew(s.Val, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.isNew(x.Call.Args[0], seen)
		}
		f := x.Call.StaticCallee()
		if f == nil || !a.p.InRepo(f) || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !a.isNew(r.Results[0], seen) {
				return false
			}
		}
		return len(f.Blocks) > 0
	case *ssa.Parameter:
		fn := x.Parent()
		for i, y := range fn.Params {
			if y != x {
				continue
			}
			for _, c := range a.calls[fn] {
				if as := c.Common().Args; i >= len(as) || !a.isNew(as[i], seen) {
					return false
				}
			}
			return len(a.calls[fn]) > 0
		}
	}
	return false
}
