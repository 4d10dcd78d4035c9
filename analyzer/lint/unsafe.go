// Package lint holds the checks which are decided on the SSA form alone, without the abstract interpreter.
package lint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
	"verif/analyzer/report"
)

// words flattens a type into machine words: 'p' pointer, 'i' pointer-sized integer, 'b' other bytes.
func words(sz types.Sizes, t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return "pi", true
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
			if sz.Sizeof(t) == 8 {
				return "i", true
			}
		case types.UnsafePointer:
			return "p", true
		}
		return "", false
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "p", true
	case *types.Slice:
		return "pii", true
	case *types.Interface:
		return "pp", true
	case *types.Struct:
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			w, ok := words(sz, u.Field(i).Type())
			if !ok {
				return "", false
			}
			s += w
		}
		return s, true
	case *types.Array:
		w, ok := words(sz, u.Elem())
		if !ok || u.Len() > 64 {
			return "", false
		}
		return strings.Repeat(w, int(u.Len())), true
	}
	return "", false
}

// Unsafe checks every conversion from an unsafe pointer.
func Unsafe(p *prog.Program, r *report.Report) {
	r.Rule = "Every conversion unsafe.Pointer -> *T in the repository's SSA must take its operand, directly, from a *S whose memory layout starts with T's: " +
		"sizeof(T) <= sizeof(S), and every machine word of T is of the same kind (pointer / integer) in S. Operands coming from integers, unknown pointers or calls are violations. " +
		"Fields of reflect.SliceHeader/StringHeader are integers, hence never stand for a pointer."
	n := 0
	for _, fn := range p.Functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cv, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				from, to := cv.X.Type().Underlying(), cv.Type().Underlying()
				isUP := func(t types.Type) bool {
					bt, ok := t.(*types.Basic)
					return ok && bt.Kind() == types.UnsafePointer
				}
				if isUP(to) {
					if _, ok := from.(*types.Pointer); !ok {
						n++
						r.Oblige("pointer-origin")
						r.Functions[fn.String()] = true
						r.Fail(report.Violation{Rule: "pointer-origin", Where: p.Pos(in.Pos()), Func: fn.String(), What: fmt.Sprintf("an unsafe.Pointer is made from a %s, which is not a pointer", cv.X.Type())})
					}
					continue
				}
				if !isUP(from) {
					continue
				}
				r.Functions[fn.String()] = true
				r.Oblige("layout-prefix")
				n++
				tp, ok := to.(*types.Pointer)
				if !ok {
					r.Fail(report.Violation{Rule: "layout-prefix", Where: p.Pos(in.Pos()), Func: fn.String(), What: fmt.Sprintf("an unsafe.Pointer is turned into a %s", cv.Type())})
					continue
				}
				T := tp.Elem()
				srcs := origins(cv.X, map[ssa.Value]bool{})
				if len(srcs) == 0 {
					r.Fail(report.Violation{Rule: "layout-prefix", Where: p.Pos(in.Pos()), Func: fn.String(), What: "the origin of an unsafe.Pointer is unknown"})
				}
				for _, s := range srcs {
					sp, ok := s.Type().Underlying().(*types.Pointer)
					if !ok {
						r.Fail(report.Violation{Rule: "layout-prefix", Where: p.Pos(in.Pos()), Func: fn.String(), What: fmt.Sprintf("the origin of the *%s is a %s, not a pointer to memory of a known layout", T, s.Type())})
						continue
					}
					S := sp.Elem()
					if p.Sizes.Sizeof(T) > p.Sizes.Sizeof(S) {
						r.Fail(report.Violation{Rule: "layout-prefix", Where: p.Pos(in.Pos()), Func: fn.String(),
							What: fmt.Sprintf("a *%s (%d bytes) is accessed through a *%s (%d bytes): it reaches beyond the object", S, p.Sizes.Sizeof(S), T, p.Sizes.Sizeof(T))})
						continue
					}
					wT, ok1 := words(p.Sizes, T)
					wS, ok2 := words(p.Sizes, S)
					if !types.Identical(S.Underlying(), T.Underlying()) && (!ok1 || !ok2 || !strings.HasPrefix(wS, wT)) {
						r.Fail(report.Violation{Rule: "layout-prefix", Where: p.Pos(in.Pos()), Func: fn.String(), What: fmt.Sprintf("the layout of %s is not a prefix of the layout of %s", T, S)})
					}
					if len(r.Samples) < 8 {
						r.Samples = append(r.Samples, fmt.Sprintf("%s: *%s (%d bytes, words %s) viewed as *%s (%d bytes, words %s)", p.Pos(in.Pos()), S, p.Sizes.Sizeof(S), wS, T, p.Sizes.Sizeof(T), wT))
					}
				}
			}
		}
	}
	r.Analysed["functions_scanned"] = len(p.Functions())
	r.Analysed["conversions"] = n
}

// origins walks back to the typed pointers an unsafe.Pointer value was made from.
func origins(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return origins(x.X, seen)
		}
		return []ssa.Value{x.X}
	case *ssa.ChangeType:
		return origins(x.X, seen)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, origins(e, seen)...)
		}
		return out
	case *ssa.Parameter:
		// every caller must hand in a pointer of a known layout
		fn := x.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		var out []ssa.Value
		if fn.Referrers() == nil {
			return []ssa.Value{v}
		}
		for _, ref := range *fn.Referrers() {
			c, ok := ref.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != fn {
				return []ssa.Value{v}
			}
			out = append(out, origins(c.Common().Args[idx], seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}
