package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isEscape recognises the function which writes a text in escaped form: it loops over its only text and writes to a
// buffer, or returns the result. What it writes is a function of the text, given fixed options (C06 looks inside).
func (in *Interp) isEscape(fn *ssa.Function) bool {
	if r, ok := in.escapes[fn]; ok {
		return r
	}
	r := in.escapeRole(fn)
	if in.escapes == nil {
		in.escapes = map[*ssa.Function]bool{}
	}
	in.escapes[fn] = r
	return r
}

func (in *Interp) escapeRole(fn *ssa.Function) bool {
	if !in.P.InRepo(fn) || in.P.Spec != nil && rootFn(fn).Pkg == in.P.Spec || len(fn.Blocks) == 0 {
		return false
	}
	texts, bufs, opts := 0, 0, 0
	for _, p := range fn.Params {
		switch {
		case isBasic(p.Type(), types.IsString):
			texts++
		case isWriter(p.Type()):
			bufs++
		case isOptPtr(p.Type()):
			opts++
		}
	}
	res := fn.Signature.Results()
	if texts != 1 || opts != 1 || bufs+res.Len() != 1 || bufs == 0 && !isBasic(res.At(0).Type(), types.IsString) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true // a loop
			}
		}
	}
	return false
}

func isOptPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Opt"
}

func isWriter(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "WriteString" {
			return true
		}
	}
	return false
}

func (in *Interp) escapeCall(d *D, fn *ssa.Function, args []Val, pos token.Pos) []outcome {
	var text *Expr
	var buf Val
	for i, p := range fn.Params {
		switch {
		case isBasic(p.Type(), types.IsString):
			text, _ = args[i].(*Expr)
		case isWriter(p.Type()):
			buf = args[i]
		}
	}
	if text == nil {
		in.stuck("escaping of an unknown text")
		return nil
	}
	st := d.st
	var out Val = in.escaped(st, text)
	if buf == nil {
		return []outcome{{st, out}}
	}
	iv, ok := buf.(*IfaceV)
	if !ok {
		in.stuck("escaping into an unknown buffer")
		return nil
	}
	m := in.P.Prog.LookupMethod(iv.T, nil, "WriteString")
	if m == nil {
		in.stuck("escaping into " + iv.T.String())
		return nil
	}
	outs := in.call(d, m, nil, []Val{iv.V, out}, pos)
	for i := range outs {
		outs[i].ret = nil
	}
	return outs
}

// escaped is the escaped form of a text.
func (in *Interp) escaped(st *State, text *Expr) *Expr {
	text = st.F.find(text)
	if text.Op == OConst && text.C == "" {
		return text
	}
	return in.C.App("escaped", tString, text)
}
