// Package ai is an abstract interpreter for Go programs in SSA form.
//
// Abstract states are sets of disjuncts (trace partitions). A disjunct maps locations to symbolic values - linear
// forms over unknowns, opaque terms, pointers into an object graph, segment sequences for arrays - and holds facts
// about the unknowns: linear inequalities, value sets of small unknowns, truth of opaque conditions, equalities.
// Loops are solved by fixpoint iteration with widening (generalisation to fresh unknowns constrained by facts which
// are inductive), recursion by contracts which are inferred in the same way. Nothing is executed.
package ai

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Op is the operator of an expression.
type Op uint8

// Operators.
const (
	OConst Op = iota
	OSym
	OLin  // linear form over integer atoms
	OWrap // x reduced to the range of T
	OConv // numeric conversion which is not the identity on integers
	OBin  // other binary operation, Name is the Go token
	OUn   // other unary operation
	OApp  // uninterpreted function Name of the arguments
	OLe   // Args[0] <= 0 (integers)
	OEq0  // Args[0] == 0 (integers)
	OCmp  // comparison of non-integers: Name is "==" or "<" or "<="
	ONot
	OBAnd
	OBOr
)

// Lin is c + sum of coefficients times atoms; atoms are sorted by id.
type Lin struct {
	C int64
	T []LTerm
}

// LTerm is a coefficient times an atom.
type LTerm struct {
	K int64
	A *Expr
}

// Expr is a hash-consed symbolic expression.
type Expr struct {
	Op   Op
	T    types.Type
	Name string
	C    interface{} // bool, int64, uint64 (beyond int64 only), float64, string, nil
	Args []*Expr
	L    *Lin
	id   int
	key  string
	Dom  int // > 0: an integer unknown in [0, Dom)
	Lo   int64
	// atoms lists the unknowns below (small ones only up to a limit)
	atoms []*Expr
}

// Ctx holds the tables of one analysis.
type Ctx struct {
	forget  *Interp // of which some distinctions are forgotten when states are joined
	tab     map[string]*Expr
	next    int
	True    *Expr
	False   *Expr
	Zero    *Expr
	One     *Expr
	fmCache map[string]bool
	fmCalls int
	outs    map[outKey]outVal
	flat    map[*Expr][]*Expr
	fmHits  int
}

// Basic types.
var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tByte   = types.Typ[types.Uint8]
	tF64    = types.Typ[types.Float64]
)

// NewCtx makes an empty context.
func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Expr{}, fmCache: map[string]bool{}, outs: map[outKey]outVal{}, flat: map[*Expr][]*Expr{}}
	c.True = c.Const(true, tBool)
	c.False = c.Const(false, tBool)
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	return c
}

func (c *Ctx) mk(e *Expr, key string) *Expr {
	if x, ok := c.tab[key]; ok {
		return x
	}
	c.next++
	e.id = c.next
	e.key = key
	switch {
	case e.Op == OConst:
	case e.Op == OSym || e.Op == OApp || e.Op == OCmp:
		e.atoms = []*Expr{e}
	case e.Op == OLin:
		for _, t := range e.L.T {
			e.atoms = addAtoms(e.atoms, t.A.atoms)
		}
	default:
		for _, a := range e.Args {
			e.atoms = addAtoms(e.atoms, a.atoms)
		}
	}
	c.tab[key] = e
	return e
}

func addAtoms(dst, src []*Expr) []*Expr {
outer:
	for _, a := range src {
		for _, d := range dst {
			if d == a {
				continue outer
			}
		}
		dst = append(dst[:len(dst):len(dst)], a)
	}
	return dst
}

func tkey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if b, ok := t.(*types.Basic); ok { // byte and rune are other names
		return types.Typ[b.Kind()].Name()
	}
	return types.TypeString(t, nil)
}

// Const makes a constant of a type.
func (c *Ctx) Const(v interface{}, t types.Type) *Expr {
	switch x := v.(type) {
	case int:
		v = int64(x)
	case uint64:
		if x <= math.MaxInt64 {
			v = int64(x)
		}
	}
	if _, ok := v.(int64); ok {
		t = tInt // integers are mathematical, their types matter in operations only
		return c.mk(&Expr{Op: OConst, T: t, C: v}, "c"+strconv.FormatInt(v.(int64), 10))
	}
	return c.mk(&Expr{Op: OConst, T: t, C: v}, fmt.Sprintf("k%T:%v", v, v))
}

// Int makes an integer constant.
func (c *Ctx) Int(n int64) *Expr { return c.Const(n, tInt) }

// Bool makes a boolean constant.
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

// Str makes a string constant.
func (c *Ctx) Str(s string) *Expr { return c.Const(s, tString) }

// Sym makes the unknown of a name.
func (c *Ctx) Sym(name string, t types.Type) *Expr {
	return c.mk(&Expr{Op: OSym, T: t, Name: name}, "s"+name)
}

// SymDom makes an integer unknown in [0, dom).
func (c *Ctx) SymDom(name string, t types.Type, dom int) *Expr {
	return c.mk(&Expr{Op: OSym, T: t, Name: name, Dom: dom}, "s"+name)
}

// App makes an uninterpreted application.
func (c *Ctx) App(name string, t types.Type, args ...*Expr) *Expr {
	// the key at the position of a key, and the element which was moved to the position of an element
	switch {
	case name == "keyat" && len(args) == 2 && args[1].Op == OApp && args[1].Name == "posof" && args[1].Args[0] == args[0]:
		return args[1].Args[1]
	case name == "perm" && len(args) == 2 && args[1].Op == OApp && args[1].Name == "invperm" && args[1].Args[0] == args[0]:
		return args[1].Args[1]
	}
	var b strings.Builder
	b.WriteString("a")
	b.WriteString(name)
	b.WriteByte('(')
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	b.WriteByte(')')
	b.WriteString(tkey(t))
	return c.mk(&Expr{Op: OApp, T: t, Name: name, Args: args}, b.String())
}

// AppDom makes an uninterpreted application with values in [0, dom).
func (c *Ctx) AppDom(name string, t types.Type, dom int, args ...*Expr) *Expr {
	e := c.App(name, t, args...)
	e.Dom = dom
	return e
}

func (c *Ctx) node(op Op, name string, t types.Type, args ...*Expr) *Expr {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if op == OWrap || op == OConv || op == OBin || op == OUn {
		b.WriteString(tkey(t))
	}
	return c.mk(&Expr{Op: op, T: t, Name: name, Args: args}, b.String())
}

// IsInt tells whether t is an integer type.
func IsInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

func isUnsigned(t types.Type) bool { return isBasic(t, types.IsUnsigned) }

func bits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// rangeOf gives the range of an integer type as far as int64 can tell; hiOK is false when the upper end is beyond int64.
func rangeOf(t types.Type) (lo, hi int64, hiOK bool) {
	n := bits(t)
	if isUnsigned(t) {
		if n == 64 {
			return 0, math.MaxInt64, false
		}
		return 0, 1<<uint(n) - 1, true
	}
	if n == 64 {
		return math.MinInt64, math.MaxInt64, true
	}
	return -(1 << uint(n-1)), 1<<uint(n-1) - 1, true
}

// MaxLen bounds the length of everything in memory.
const MaxLen = int64(1) << 48

// ---- linear forms ----

// lin views an integer expression as a linear form.
func (c *Ctx) lin(e *Expr) *Lin {
	switch e.Op {
	case OConst:
		if n, ok := e.C.(int64); ok {
			return &Lin{C: n}
		}
	case OLin:
		return e.L
	}
	return &Lin{T: []LTerm{{1, e}}}
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return p, true
}

// linComb computes ka*a + kb*b.
func linComb(a *Lin, ka int64, b *Lin, kb int64) (*Lin, bool) {
	ca, ok1 := mulOv(a.C, ka)
	cb, ok2 := mulOv(b.C, kb)
	s, ok3 := addOv(ca, cb)
	if !ok1 || !ok2 || !ok3 {
		return nil, false
	}
	r := &Lin{C: s, T: make([]LTerm, 0, len(a.T)+len(b.T))}
	i, j := 0, 0
	push := func(k int64, x *Expr) {
		if k != 0 {
			r.T = append(r.T, LTerm{k, x})
		}
	}
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || (i < len(a.T) && a.T[i].A.id < b.T[j].A.id):
			k, ok := mulOv(a.T[i].K, ka)
			if !ok {
				return nil, false
			}
			push(k, a.T[i].A)
			i++
		case i >= len(a.T) || b.T[j].A.id < a.T[i].A.id:
			k, ok := mulOv(b.T[j].K, kb)
			if !ok {
				return nil, false
			}
			push(k, b.T[j].A)
			j++
		default:
			k1, ok1 := mulOv(a.T[i].K, ka)
			k2, ok2 := mulOv(b.T[j].K, kb)
			k, ok3 := addOv(k1, k2)
			if !ok1 || !ok2 || !ok3 {
				return nil, false
			}
			push(k, a.T[i].A)
			i++
			j++
		}
	}
	return r, true
}

func (l *Lin) key() string {
	var b strings.Builder
	b.WriteString(strconv.FormatInt(l.C, 10))
	for _, t := range l.T {
		b.WriteByte('+')
		b.WriteString(strconv.FormatInt(t.K, 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(t.A.id))
	}
	return b.String()
}

// fromLin makes the expression of a linear form.
func (c *Ctx) fromLin(l *Lin) *Expr {
	if len(l.T) == 0 {
		return c.Int(l.C)
	}
	if l.C == 0 && len(l.T) == 1 && l.T[0].K == 1 {
		return l.T[0].A
	}
	return c.mk(&Expr{Op: OLin, T: tInt, L: l}, "L"+l.key())
}

// Add is a + b over the integers.
func (c *Ctx) Add(a, b *Expr) *Expr {
	l, ok := linComb(c.lin(a), 1, c.lin(b), 1)
	if !ok {
		return c.App("add", tInt, a, b)
	}
	return c.fromLin(l)
}

// Sub is a - b over the integers.
func (c *Ctx) Sub(a, b *Expr) *Expr {
	l, ok := linComb(c.lin(a), 1, c.lin(b), -1)
	if !ok {
		return c.App("sub", tInt, a, b)
	}
	return c.fromLin(l)
}

// AddK is a + k.
func (c *Ctx) AddK(a *Expr, k int64) *Expr { return c.Add(a, c.Int(k)) }

// Scale is k*a.
func (c *Ctx) Scale(a *Expr, k int64) (*Expr, bool) {
	l, ok := linComb(c.lin(a), k, &Lin{}, 0)
	if !ok {
		return nil, false
	}
	return c.fromLin(l), true
}

// Le is a <= b.
func (c *Ctx) Le(a, b *Expr) *Expr {
	if r, ok := cmpConst(a, b); ok {
		return c.Bool(r <= 0)
	}
	if a.Op == OConst && a.C == uint64(1<<63) {
		return c.Not(c.Le(b, c.Int(math.MaxInt64)))
	}
	d := c.Sub(a, b)
	if d.Op == OConst {
		if n, ok := d.C.(int64); ok {
			return c.Bool(n <= 0)
		}
	}
	if r := c.overB2I(c.lin(d), func(n int64) bool { return n <= 0 }); r != nil {
		return r
	}
	// normalise by the greatest common divisor
	l := tighten(c.lin(d))
	d = c.fromLin(l)
	return c.node(OLe, "", tBool, d)
}

// Lt is a < b.
func (c *Ctx) Lt(a, b *Expr) *Expr {
	if r, ok := cmpConst(a, b); ok {
		return c.Bool(r < 0)
	}
	if b.Op == OConst && b.C == uint64(1<<63) {
		return c.Le(a, c.Int(math.MaxInt64))
	}
	if n, ok := b.Int64(); ok && n > math.MinInt64 {
		return c.Le(a, c.Int(n-1))
	}
	if _, ok := linComb(c.lin(a), 1, &Lin{C: 1}, 1); ok {
		if _, ok := linComb(c.lin(c.AddK(a, 1)), 1, c.lin(b), -1); ok {
			return c.Le(c.AddK(a, 1), b)
		}
	}
	return c.Not(c.Le(b, a))
}

// cmpConst compares two integer constants.
func cmpConst(a, b *Expr) (int, bool) {
	if a.Op != OConst || b.Op != OConst {
		return 0, false
	}
	conv := func(x interface{}) (*big.Int, bool) {
		switch n := x.(type) {
		case int64:
			return big.NewInt(n), true
		case uint64:
			return new(big.Int).SetUint64(n), true
		}
		return nil, false
	}
	x, ok1 := conv(a.C)
	y, ok2 := conv(b.C)
	if !ok1 || !ok2 {
		return 0, false
	}
	return x.Cmp(y), true
}

// EqI is a == b for integers.
func (c *Ctx) EqI(a, b *Expr) *Expr {
	if r, ok := cmpConst(a, b); ok {
		return c.Bool(r == 0)
	}
	d := c.Sub(a, b)
	if d.Op == OConst {
		if n, ok := d.C.(int64); ok {
			return c.Bool(n == 0)
		}
	}
	if r := c.overB2I(c.lin(d), func(n int64) bool { return n == 0 }); r != nil {
		return r
	}
	return c.eq0(d)
}

// eq0 is d == 0, as a numeric fact.
func (c *Ctx) eq0(d *Expr) *Expr {
	l := c.lin(d)
	if len(l.T) > 0 && l.T[0].K < 0 {
		if n, ok := linComb(l, -1, &Lin{}, 0); ok {
			d = c.fromLin(n)
		}
	}
	return c.node(OEq0, "", tBool, d)
}

// overB2I decides a predicate of C + K*b2i(x) by the two values of x; nil for other forms.
func (c *Ctx) overB2I(l *Lin, pred func(int64) bool) *Expr {
	if len(l.T) != 1 || l.T[0].A.Op != OApp || l.T[0].A.Name != "b2i" {
		return nil
	}
	one, ok := addOv(l.C, l.T[0].K)
	if !ok {
		return nil
	}
	x := l.T[0].A.Args[0]
	switch no, yes := pred(l.C), pred(one); {
	case no && yes:
		return c.True
	case yes:
		return x
	case no:
		return c.Not(x)
	}
	return c.False
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides l <= 0 by the gcd of its coefficients.
func tighten(l *Lin) *Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{C: -floorDiv(-l.C, g)}
	for _, t := range l.T {
		r.T = append(r.T, LTerm{t.K / g, t.A})
	}
	return r
}

// Not negates a condition.
func (c *Ctx) Not(e *Expr) *Expr {
	switch e.Op {
	case OConst:
		return c.Bool(!e.C.(bool))
	case ONot:
		return e.Args[0]
	case OLe: // not (d <= 0)  ==  1 - d <= 0
		if _, ok := linComb(c.lin(e.Args[0]), -1, &Lin{C: 1}, 1); ok {
			return c.Le(c.One, e.Args[0])
		}
	}
	return c.node(ONot, "", tBool, e)
}

// And is the conjunction.
func (c *Ctx) And(a, b *Expr) *Expr {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	return c.node(OBAnd, "", tBool, a, b)
}

// Or is the disjunction.
func (c *Ctx) Or(a, b *Expr) *Expr {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	return c.node(OBOr, "", tBool, a, b)
}

// EqO is equality of two opaque terms (strings, floats, pointers, ...).
func (c *Ctx) EqO(a, b *Expr) *Expr {
	if a == b && !isBasicFloat(a.T) {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		if _, ok := a.C.(float64); ok {
			fa, _ := a.C.(float64)
			fb, _ := b.C.(float64)
			return c.Bool(fa == fb)
		}
		return c.Bool(a.C == b.C)
	}
	if isBool(a) && isBool(b) {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if x, y, ok := c.single(a, b); ok {
		return c.EqO(x, y)
	}
	if bs, ok := c.spelt(a, nil); ok {
		if ds, ok := c.spelt(b, nil); ok && a.Op != b.Op {
			// texts of known characters
			if len(bs) != len(ds) {
				return c.False
			}
			r := c.True
			for i := range bs {
				r = c.And(r, c.EqI(bs[i], ds[i]))
			}
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OCmp, "==", tBool, a, b)
}

// spelt gives the bytes of a text which consists of single known ones.
func (c *Ctx) spelt(e *Expr, bs []*Expr) ([]*Expr, bool) {
	if len(bs) > 64 {
		return nil, false
	}
	switch e.Op {
	case OConst:
		s, ok := e.C.(string)
		if !ok {
			return nil, false
		}
		for i := 0; i < len(s); i++ {
			bs = append(bs, c.Int(int64(s[i])))
		}
		return bs, true
	case OApp:
		switch e.Name {
		case "chr":
			return append(bs, e.Args[0]), true
		case "strof":
			n, ok := e.Args[1].Int64()
			if !ok || n < 0 || n > 64 {
				return nil, false
			}
			for i := int64(0); i < n; i++ {
				bs = append(bs, c.App("elem", types.Typ[types.Uint8], e.Args[0], c.AddK(e.Args[2], i)))
			}
			return bs, true
		case "concat":
			ok := true
			for _, a := range e.Args {
				if bs, ok = c.spelt(a, bs); !ok {
					return nil, false
				}
			}
			return bs, true
		}
	}
	return nil, false
}

func isBool(e *Expr) bool {
	switch e.Op {
	case OLe, OEq0, OCmp, ONot, OBAnd, OBOr:
		return true
	}
	return e.T != nil && isBasic(e.T, types.IsBoolean)
}

func isBasicFloat(t types.Type) bool { return t != nil && isBasic(t, types.IsFloat) }

// single takes the widening off two numbers which both are single-precision floats.
func (c *Ctx) single(a, b *Expr) (x, y *Expr, ok bool) {
	if !isBasicFloat(a.T) || !isBasicFloat(b.T) {
		return nil, nil, false
	}
	strip := func(e *Expr) (*Expr, bool, bool) {
		if e.Op == OConv && isBasicFloat(e.Args[0].T) && isFloat32(e.Args[0].T) && !isFloat32(e.T) {
			return e.Args[0], true, true
		}
		if f, ok := e.C.(float64); ok && e.Op == OConst && !isFloat32(e.T) && float64(float32(f)) == f {
			return c.Const(f, types.Typ[types.Float32]), false, true
		}
		return nil, false, false
	}
	x, s1, ok1 := strip(a)
	y, s2, ok2 := strip(b)
	return x, y, ok1 && ok2 && (s1 || s2)
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// CmpO is an ordering of two opaque terms.
func (c *Ctx) CmpO(op string, a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst {
		switch x := a.C.(type) {
		case string:
			y := b.C.(string)
			if op == "<" {
				return c.Bool(x < y)
			}
			return c.Bool(x <= y)
		case float64:
			y := b.C.(float64)
			if op == "<" {
				return c.Bool(x < y)
			}
			return c.Bool(x <= y)
		}
	}
	if a == b && !isBasicFloat(a.T) {
		return c.Bool(op == "<=")
	}
	if x, y, ok := c.single(a, b); ok {
		return c.CmpO(op, x, y)
	}
	// strings (and unsigned integers) are totally ordered: a <= b is not (b < a)
	if op == "<=" && !isBasicFloat(a.T) {
		return c.Not(c.CmpO("<", b, a))
	}
	return c.node(OCmp, op, tBool, a, b)
}

func (e *Expr) isConst() bool { return e.Op == OConst }

// Int64 gives the value of an integer constant.
func (e *Expr) Int64() (int64, bool) {
	if e.Op == OConst {
		n, ok := e.C.(int64)
		return n, ok
	}
	return 0, false
}

// String renders an expression.
func (e *Expr) String() string {
	switch e.Op {
	case OConst:
		if s, ok := e.C.(string); ok {
			return strconv.Quote(s)
		}
		return fmt.Sprint(e.C)
	case OSym:
		return e.Name
	case OLin:
		s := ""
		ts := append([]LTerm{}, e.L.T...)
		sort.Slice(ts, func(i, j int) bool { return ts[i].K > ts[j].K })
		for i, t := range ts {
			switch {
			case t.K == 1 && i == 0:
				s += t.A.String()
			case t.K == 1:
				s += "+" + t.A.String()
			case t.K == -1:
				s += "-" + t.A.String()
			case i > 0 && t.K > 0:
				s += fmt.Sprintf("+%d*%s", t.K, t.A)
			default:
				s += fmt.Sprintf("%d*%s", t.K, t.A)
			}
		}
		if e.L.C > 0 {
			s += fmt.Sprintf("+%d", e.L.C)
		} else if e.L.C < 0 {
			s += fmt.Sprint(e.L.C)
		}
		return s
	case OLe:
		return "(" + e.Args[0].String() + " <= 0)"
	case OEq0:
		return "(" + e.Args[0].String() + " == 0)"
	case OCmp:
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case ONot:
		return "!" + e.Args[0].String()
	case OBAnd:
		return "(" + e.Args[0].String() + " && " + e.Args[1].String() + ")"
	case OBOr:
		return "(" + e.Args[0].String() + " || " + e.Args[1].String() + ")"
	case OBin:
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case OWrap:
		return "wrap_" + e.T.String() + "(" + e.Args[0].String() + ")"
	case OConv:
		return e.T.String() + "(" + e.Args[0].String() + ")"
	}
	s := e.Name + "("
	for i, a := range e.Args {
		if i > 0 {
			s += ", "
		}
		s += a.String()
	}
	return s + ")"
}

// subst replaces atoms by expressions.
func (c *Ctx) subst(e *Expr, m map[*Expr]*Expr) *Expr {
	if len(m) == 0 || e.Op == OConst {
		return e
	}
	if r, ok := m[e]; ok {
		return r
	}
	hit := false
	switch e.Op {
	case OSym:
		return e
	case OLin:
		for _, t := range e.L.T {
			if c.subst(t.A, m) != t.A {
				hit = true
			}
		}
		if !hit {
			return e
		}
		r := c.Int(e.L.C)
		for _, t := range e.L.T {
			s, ok := c.Scale(c.subst(t.A, m), t.K)
			if !ok {
				return c.App("big", tInt, e)
			}
			r = c.Add(r, s)
		}
		return r
	}
	args := make([]*Expr, len(e.Args))
	for i, a := range e.Args {
		args[i] = c.subst(a, m)
		if args[i] != a {
			hit = true
		}
	}
	if !hit {
		return e
	}
	switch e.Op {
	case OLe:
		return c.Le(args[0], c.Zero)
	case OEq0:
		return c.EqI(args[0], c.Zero)
	case OCmp:
		if e.Name == "==" {
			return c.EqO(args[0], args[1])
		}
		return c.CmpO(e.Name, args[0], args[1])
	case ONot:
		return c.Not(args[0])
	case OBAnd:
		return c.And(args[0], args[1])
	case OBOr:
		return c.Or(args[0], args[1])
	case OApp:
		if e.Name == "len" && isStr(args[0]) {
			return c.Len(args[0])
		}
		r := c.App(e.Name, e.T, args...)
		r.Dom = e.Dom
		return r
	}
	return c.node(e.Op, e.Name, e.T, args...)
}

// mentions tells whether e contains an atom for which f holds.
func mentions(e *Expr, f func(*Expr) bool) bool {
	if f(e) {
		return true
	}
	if e.Op == OLin {
		for _, t := range e.L.T {
			if mentions(t.A, f) {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if mentions(a, f) {
			return true
		}
	}
	return false
}
