package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sink observes what is written to a buffer, instead of the buffer: Char is told each known character, Escaped the
// text whose escaped form is written, Other any other text, and Child the part which a recursive call would write.
type sink struct {
	Char, Escaped, Other, Child *FuncV
	blank                       []*Expr // texts of nothing but blanks
}

// outCall handles calls to the buffer, and recursive calls which write a part, while the output is observed.
func (in *Interp) outCall(d *D, fn *ssa.Function, args []Val, pos token.Pos) ([]outcome, bool) {
	c := in.C
	if r := fn.Signature.Recv(); r != nil && len(args) > 0 && isBuffer(r.Type()) {
		nilErr := in.zero(types.Universe.Lookup("error").Type())
		var text *Expr
		one := false
		switch fn.Name() {
		case "WriteByte":
			n, ok := args[1].(*Expr)
			if !ok {
				return nil, false
			}
			one = true
			if k, ok := n.Int64(); ok {
				text = c.Str(string([]byte{byte(k)}))
			} else {
				text = c.App("chr", tString, n)
			}
		case "WriteRune":
			n, ok := args[1].(*Expr)
			if !ok {
				return nil, false
			}
			if k, ok := n.Int64(); ok {
				text = c.Str(string(rune(k)))
			} else {
				text = c.App("runestr", tString, n)
			}
		case "WriteString":
			text, _ = args[1].(*Expr)
		case "Write":
			var ok bool
			if text, ok = bytesText(d.st, args[1]); !ok {
				return nil, false
			}
		case "Bytes":
			return []outcome{{d.st, d.st.stringToBytes(c.Sym("$written", tString), false)}}, true
		case "String":
			return []outcome{{d.st, c.Sym("$written", tString)}}, true
		case "Len":
			return []outcome{{d.st, c.Len(c.Sym("$written", tString))}}, true
		}
		if text == nil {
			return nil, false
		}
		outs := in.emit(d, d.st.F.find(text), pos)
		for i := range outs {
			if one {
				outs[i].ret = nilErr
			} else {
				outs[i].ret = TupleV{c.Len(text), nilErr}
			}
		}
		return outs, true
	}
	if in.P.Spec != nil && rootFn(fn).Pkg == in.P.Spec {
		return nil, false
	}
	var part *Ptr
	for i, p := range fn.Params {
		if i < len(args) && in.R.isPtrV(p.Type()) && part == nil {
			part, _ = args[i].(*Ptr)
		}
	}
	if part == nil {
		return nil, false
	}
	rec := false
	for f := d.fr; f != nil; f = f.parent {
		rec = rec || f.fn == fn
	}
	if !rec || fn.Signature.Results().Len() == 0 {
		return nil, false
	}
	// a part: told the value and the error of writing it
	rs := fn.Signature.Results()
	t := make(TupleV, rs.Len())
	var e Val
	for i := range t {
		T := rs.At(i).Type()
		t[i] = in.symVal(in.fresh("part", T), T, false)
		if isErrT(T) {
			e = t[i]
		}
	}
	if e == nil {
		e = in.zero(types.Universe.Lookup("error").Type())
	}
	f := d.st.out.Child
	var outs []outcome
	for _, o := range in.call(d, f.Fn, f.Bind, []Val{part, e}, pos) {
		if len(t) == 1 {
			outs = append(outs, outcome{o.st, t[0]})
		} else {
			outs = append(outs, outcome{o.st, t})
		}
	}
	return outs, true
}

// emit tells the observer what is written.
func (in *Interp) emit(d *D, text *Expr, pos token.Pos) []outcome {
	s := d.st.out
	tell := func(f *FuncV, x *Expr) []outcome { return in.call(d, f.Fn, f.Bind, []Val{x}, pos) }
	seq := func(as []*Expr) []outcome {
		outs := []outcome{{d.st, nil}}
		for _, a := range as {
			var next []outcome
			for _, o := range outs {
				e := *d
				e.st = o.st
				next = append(next, in.emit(&e, o.st.F.find(a), pos)...)
			}
			outs = next
			if len(outs) > in.MergeLimit {
				outs = in.mergeOutcomes(d, outs)
			}
		}
		return outs
	}
	if text.Op == OConst {
		cs, _ := text.C.(string)
		outs := []outcome{{d.st, nil}}
		for i := 0; i < len(cs); i++ {
			var next []outcome
			for _, o := range outs {
				e := *d
				e.st = o.st
				next = append(next, in.call(&e, s.Char.Fn, s.Char.Bind, []Val{in.C.Int(int64(cs[i]))}, pos)...)
			}
			outs = next
		}
		return outs
	}
	if in.isBlank(s, text) {
		return tell(s.Char, in.C.Int(' '))
	}
	if text.Op == OApp {
		switch text.Name {
		case "concat":
			return seq(text.Args)
		case "chr":
			return tell(s.Char, text.Args[0])
		case "escaped":
			return tell(s.Escaped, text.Args[0])
		}
	}
	return tell(s.Other, text)
}

// isBlank tells whether a text consists of blank texts only.
func (in *Interp) isBlank(s *sink, e *Expr) bool {
	for _, b := range s.blank {
		if b == e {
			return true
		}
	}
	if e.Op == OConst {
		t, ok := e.C.(string)
		if !ok {
			return false
		}
		for i := 0; i < len(t); i++ {
			if t[i] != ' ' && t[i] != '\n' && t[i] != '\t' && t[i] != '\r' {
				return false
			}
		}
		return true
	}
	if e.Op != OApp {
		return false
	}
	switch e.Name {
	case "concat":
		return in.isBlank(s, e.Args[0]) && in.isBlank(s, e.Args[1])
	case "strings.Repeat", "bytes.Repeat", "substr":
		return in.isBlank(s, e.Args[0])
	}
	return false
}

// isBuffer recognises types which texts are written to and read from.
func isBuffer(t types.Type) bool {
	if _, ok := t.(*types.Pointer); !ok {
		return false
	}
	ms := types.NewMethodSet(t)
	w, r := false, false
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "WriteString":
			w = true
		case "Bytes", "String":
			r = true
		}
	}
	return w && r
}
