// Package auto writes drivers for exported functions which another analysis could not decide.
package auto

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
)

// Target is a function with the result in question.
type Target struct {
	Fn  *ssa.Function
	Res int
}

type gen struct {
	p       *prog.Program
	imports map[string]string // path -> name
	b       strings.Builder
	n       int
}

func (g *gen) pkg(p *types.Package) string {
	if n, ok := g.imports[p.Path()]; ok {
		return n
	}
	n := fmt.Sprintf("pk%d", len(g.imports))
	if p == g.p.Main.Pkg {
		n = "jsonvalue"
	}
	g.imports[p.Path()] = n
	return n
}

// arg is an expression for an arbitrary argument of a type.
func (g *gen) arg(t types.Type, name string) (string, bool) {
	q := fmt.Sprintf("%q", name)
	if p, ok := t.(*types.Pointer); ok && types.Identical(p.Elem(), g.p.Main.Pkg.Scope().Lookup("V").Type()) {
		return "AnyRawV(" + q + ")", true
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
			return "AnyError(" + q + ")", true
		}
		if n.Obj().Name() == "MarshalLessFunc" {
			return "AnyLess(" + q + ")", true
		}
		if s, ok := g.arg(n.Underlying(), name); ok && token.IsExported(n.Obj().Name()) {
			return g.pkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "(" + s + ")", true
		}
		return "", false
	}
	switch u := t.(type) {
	case *types.Alias:
		return g.arg(types.Unalias(u), name)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "anyOf(" + q + ")", true
		}
	case *types.Basic:
		m := map[types.BasicKind]string{types.Int: "AnyInt", types.Int8: "AnyInt8", types.Int16: "AnyInt16", types.Int32: "AnyInt32", types.Int64: "AnyInt64",
			types.Uint: "AnyUint", types.Uint8: "AnyUint8", types.Uint16: "AnyUint16", types.Uint32: "AnyUint32", types.Uint64: "AnyUint64",
			types.Float32: "AnyFloat32", types.Float64: "AnyFloat64", types.Bool: "AnyBool", types.String: "AnyString"}
		if f, ok := m[u.Kind()]; ok {
			return f + "(" + q + ")", true
		}
	case *types.Slice:
		e := types.Unalias(u.Elem())
		if b, ok := e.(*types.Basic); ok {
			switch b.Kind() {
			case types.Byte:
				return "AnyBytes(" + q + ")", true
			case types.String:
				return "AnyStrings(" + q + ")", true
			}
		}
		if i, ok := e.(*types.Interface); ok && i.NumMethods() == 0 {
			return "AnyIfaces(" + q + ")", true
		}
		if p, ok := e.(*types.Pointer); ok && types.Identical(p.Elem(), g.p.Main.Pkg.Scope().Lookup("V").Type()) {
			return "AnyVs(" + q + ")", true
		}
	}
	return "", false
}

// call writes calls of f, named by the expression fn, for each number of further steps.
func (g *gen) call(fn string, sig *types.Signature, pre string, more []int) (out []string, ok bool) {
	var as []string
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		if sig.Variadic() && i == ps.Len()-1 {
			break
		}
		a, ok := g.arg(ps.At(i).Type(), pre+fmt.Sprint(i))
		if !ok {
			return nil, false
		}
		as = append(as, a)
	}
	if !sig.Variadic() {
		return []string{fn + "(" + strings.Join(as, ", ") + ")"}, true
	}
	el := types.Unalias(ps.At(ps.Len() - 1).Type().(*types.Slice).Elem())
	for _, n := range more {
		bs := append([]string{}, as...)
		for k := 0; k < n; k++ {
			a, ok := g.arg(el, pre+"more"+fmt.Sprint(k))
			if !ok {
				break
			}
			bs = append(bs, a)
		}
		c := fn + "(" + strings.Join(bs, ", ") + ")"
		if len(out) == 0 || out[len(out)-1] != c {
			out = append(out, c)
		}
	}
	return out, true
}

func (g *gen) driver(id, call string, sig *types.Signature, res int) {
	g.n++
	fmt.Fprintf(&g.b, "\n// Spec%sAuto%02d\nfunc Spec%sAuto%02d() {\n\tSubImports(func(_ reflect.Value, _ error) {})\n\tPartsAsWhole()\n\t", id, g.n, id, g.n)
	var ls []string
	for i := 0; i < sig.Results().Len(); i++ {
		if i == res {
			ls = append(ls, "r")
		} else {
			ls = append(ls, "_")
		}
	}
	fmt.Fprintf(&g.b, "%s := %s\n\tAssert(%q, r != nil)\n}\n", strings.Join(ls, ", "), call, "never nil: "+strings.NewReplacer("\"", "", "AnyRaw", "", "anyOf", "any", "jsonvalue.", "").Replace(call))
}

// NonNil writes drivers which assert that results are not nil; those for which it cannot are returned.
func NonNil(p *prog.Program, id string, ts []Target) (src string, rest []Target) {
	g := &gen{p: p, imports: map[string]string{}}
	g.pkg(p.Main.Pkg)
	all := p.Functions()
	for _, t := range ts {
		sig := t.Fn.Signature
		name := t.Fn.Name()
		recv := sig.Recv()
		if recv == nil {
			if strings.Contains(t.Fn.Pkg.Pkg.Path(), "/internal/") {
				continue
			}
			cs, ok := g.call(g.pkg(t.Fn.Pkg.Pkg)+"."+name, sig, "p", []int{0, 1, 2})
			if !ok {
				rest = append(rest, t)
			}
			for _, c := range cs {
				// what a conversion gets is arbitrary
				if sig.Params().Len() > 0 {
					c = strings.Replace(c, `anyOf("p0")`, `AnyIface("p0")`, 1)
				}
				g.driver(id, c, sig, t.Res)
			}
			continue
		}
		rt := recv.Type()
		if r, ok := g.arg(rt, "v"); ok {
			cs, ok := g.call(r+"."+name, sig, "p", []int{0, 1, 2})
			if !ok {
				rest = append(rest, t)
			}
			for _, c := range cs {
				g.driver(id, c, sig, t.Res)
			}
			continue
		}
		// a method of an unexported type: through the functions which make one
		made := 0
		for _, fn := range all {
			if fn.Parent() != nil || fn.Synthetic != "" || !token.IsExported(fn.Name()) || fn.Signature.Results().Len() != 1 || !makes(fn, rt) {
				continue
			}
			var recvs []string
			ok := true
			if fn.Signature.Recv() == nil {
				recvs, ok = g.call(g.pkg(fn.Pkg.Pkg)+"."+fn.Name(), fn.Signature, "c", []int{0})
			} else if r, is := g.arg(fn.Signature.Recv().Type(), "v"); is {
				recvs, ok = g.call(r+"."+fn.Name(), fn.Signature, "c", []int{0})
			} else {
				ok = false
			}
			if !ok {
				continue
			}
			for _, r := range recvs {
				cs, ok := g.call(r+"."+name, sig, "p", []int{0, 1, 2})
				if !ok {
					continue
				}
				made++
				for i, c := range cs {
					if i == 2 {
						c = strings.Replace(c, `anyOf("c0")`, `AnyRawV("c0")`, 1)
					}
					g.driver(id, c, sig, t.Res)
				}
			}
		}
		if made == 0 {
			rest = append(rest, t)
		}
	}
	var h strings.Builder
	h.WriteString("package spec\n\nimport (\n\t\"reflect\"\n\n")
	var ps []string
	body := g.b.String()
	for path, n := range g.imports {
		if strings.Contains(body, n+".") {
			ps = append(ps, fmt.Sprintf("\t%s %q\n", n, path))
		}
	}
	sort.Strings(ps)
	h.WriteString(strings.Join(ps, "") + ")\n")
	h.WriteString(`
func anyOf(name string) interface{} {
	switch AnyInt("kind of " + name) {
	case 0:
		return AnyString("text " + name)
	case 1:
		return AnyInt("integer " + name)
	case 2:
		return AnyUint64("unsigned " + name)
	case 3:
		return AnyBool("truth " + name)
	case 4:
		return AnyRawV("value " + name)
	}
	return nil
}
`)
	h.WriteString(body)
	return h.String(), rest
}

// makes tells whether fn returns an interface which holds a t that it allocates.
func makes(fn *ssa.Function, t types.Type) bool {
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range r.Results {
			if m, ok := v.(*ssa.MakeInterface); ok && types.Identical(m.X.Type(), t) {
				return true
			}
			if types.Identical(v.Type(), t) {
				return true
			}
		}
	}
	return false
}
