package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	mbits "math/bits"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
)

// Interp is one analysis.
type Interp struct {
	MergeLimit int // the number of disjuncts at a program point from which equal ones are joined
	C          *Ctx
	P          *prog.Program
	R          *Roles
	nobj       int
	nsym       int
	symObjs    map[*Expr]*Obj
	matCache   map[*Obj]Val
	mapIDs     map[*MapC]*Expr
	mapOf      map[*Expr]*MapC // inverse of mapIDs
	freshNo    map[*Expr]int
	invTerms   []invTerm
	keyWatches []*watch
	orders     []order        // sorts are asked about the order of these keys
	sortWatch  bool           // comparisons of sorts are asked about
	sortPair   [2]*Expr       // these positions
	keySeen    map[*Expr]bool // iterated keys, while keys are watched
	keysSeen   []*Expr
	permLen    map[*Expr]*Expr   // lengths of the permuted sequences
	posTerms   map[*Expr][]*Expr // positions of keys in iterations over a map
	linking    bool
	globals    map[*ssa.Global]*Obj
	infos      map[*ssa.Function]*fnInfo
	initH      map[*Obj]Val
	typeIDs    map[string]int64
	typeOf     []types.Type

	// policies of a check
	NoPanic      bool // operations must not panic
	escapes      map[*ssa.Function]bool
	watches      []*watch
	Known        func(*ssa.Function) bool // functions whose values are known not to be nil; nothing else is known of them
	KnownMethod  func(string) bool        // methods of which the same is known
	rootSettings *StructV
	Whole        bool           // a part converted with the settings of the whole gives a value or an error
	Budget       int            // seconds, if not the default
	deadline     *int64         // shared by the drivers of a run; a failure leaves the others little time
	atomics      map[*Expr]bool // words read atomically
	EscapeSum    bool           // the escaping of strings is a function of the text, see isEscape
	twins        map[*Expr]*Expr
	anyInts      map[*Expr]bool // the unknown integers of the driver
	anyStrs      []*Expr        // the unknown texts of the driver
	ranks        map[*Expr]bool
	idxUsed      map[*Expr][]*Expr
	Unroll       int // how many levels of other recursion are followed
	OnStore      func(d *D, o *Obj, p *Ptr)
	sums         []*FuncV // what calls do which are decided by drivers of their own, by signature
	OnErr        func(d *D, v *IfaceV)
	MaxDepth     int

	cs        *csession // contracts
	lowers    []*Expr   // the lower case texts in use
	EnumMaps  bool      // maps with known keys are iterated in every order, one by one
	Bytes     bool      // the content of byte slices is not followed
	inInit    bool
	joinBytes bool // values of bytes are forgotten when states are joined
	quiet     int
	stack     []*frame
	curFrame  *frame
	pos       token.Pos
	Steps     int
	Limit     int
	Joins     int
	LoopsFix  int
	Rounds    int
	Funcs     map[*ssa.Function]bool
	Obls      map[string]*Obl
	order     []string
	Viols     []Viol
	violSeen  map[string]bool
	Stucks    map[string]string
	untouch   []*Obj
	trace     bool
	dumpFacts bool
}

// Obl is an obligation: an assertion site.
type Obl struct {
	Key string
	Pos string
	N   int // decisions
	Bad int
}

// Viol is a broken or undecided obligation.
type Viol struct {
	Key, Pos, Fn, What string
	Path               []string
}

// D is one disjunct at a program point.
type D struct {
	in     *Interp
	st     *State
	env    []Val
	fr     *frame
	defers []deferred
	pend   *pendCall
}

type deferred struct {
	fn   Val
	args []Val
}

type pendCall struct {
	fn      *ssa.Function
	args    []Val
	special func(d *D, args []Val) []outcome
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	parent *frame
	bind   []Val
	args   []Val
	depth  int
	site   token.Pos
}

type outcome struct {
	st  *State
	ret Val
}

// NewInterp prepares an analysis of a program.
func NewInterp(p *prog.Program) *Interp {
	in := &Interp{C: NewCtx(), P: p, symObjs: map[*Expr]*Obj{}, matCache: map[*Obj]Val{}, mapIDs: map[*MapC]*Expr{}, mapOf: map[*Expr]*MapC{}, freshNo: map[*Expr]int{}, posTerms: map[*Expr][]*Expr{}, permLen: map[*Expr]*Expr{},
		globals: map[*ssa.Global]*Obj{}, infos: map[*ssa.Function]*fnInfo{}, typeIDs: map[string]int64{},
		MaxDepth: 60, Unroll: 2, Limit: 3000000, Funcs: map[*ssa.Function]bool{}, Obls: map[string]*Obl{}, violSeen: map[string]bool{}, Stucks: map[string]string{}}
	in.R = findRoles(p)
	in.trace = os.Getenv("AI_TRACE") != ""
	in.dumpFacts = os.Getenv("AI_TRACE") == "2"
	return in
}

// tid numbers a type.
func (in *Interp) tid(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if n, ok := in.typeIDs[k]; ok {
		return n
	}
	n := int64(len(in.typeIDs) + 1)
	in.typeIDs[k] = n
	in.typeOf = append(in.typeOf, t)
	return n
}

// ---- function structure ----

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // by header
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	live  []map[int]bool                // live-in value numbers by block index (phis excluded)
	irred bool
	dead  [][]*ssa.Alloc // by block index: local variables whose content is not read any more before it is replaced
}

// localVars finds the local variables nothing but loads and stores refers to, and where their contents are dead.
func (fi *fnInfo) localVars(fn *ssa.Function) {
	fi.dead = make([][]*ssa.Alloc, len(fn.Blocks))
	var vars []*ssa.Alloc
	kind := map[ssa.Instruction]byte{} // 'r' reads, 'w' replaces
	root := map[ssa.Instruction]*ssa.Alloc{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok {
				continue
			}
			if _, isArr := under(elemOf(a.Type())).(*types.Array); isArr {
				continue
			}
			found := map[ssa.Instruction]byte{}
			var uses func(v ssa.Value, whole bool) bool
			uses = func(v ssa.Value, whole bool) bool {
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if x.Val == v {
							return false
						}
						if whole {
							found[x] = 'w'
						}
					case *ssa.UnOp:
						if x.Op != token.MUL {
							return false
						}
						found[x] = 'r'
					case *ssa.FieldAddr:
						if !uses(x, false) {
							return false
						}
					default:
						return false
					}
				}
				return true
			}
			if !uses(a, true) {
				continue
			}
			vars = append(vars, a)
			for i, k := range found {
				kind[i], root[i] = k, a
			}
			kind[a], root[a] = 'w', a
		}
	}
	for _, a := range vars {
		liveIn := make([]bool, len(fn.Blocks))
		for changed := true; changed; {
			changed = false
			for i := len(fi.rpo) - 1; i >= 0; i-- {
				b := fi.rpo[i]
				l := false
				for _, s := range b.Succs {
					l = l || liveIn[s.Index]
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					if root[b.Instrs[k]] == a {
						l = kind[b.Instrs[k]] == 'r'
					}
				}
				if l != liveIn[b.Index] {
					liveIn[b.Index] = l
					changed = true
				}
			}
		}
		for i, l := range liveIn {
			if !l {
				fi.dead[i] = append(fi.dead[i], a)
			}
		}
	}
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	in.infos[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fi.rpo {
		idx[b] = i
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if idx[s] <= idx[b] {
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var heads []*loopInfo
	for _, b := range fi.rpo {
		if l := fi.loops[b]; l != nil {
			heads = append(heads, l)
		}
	}
	// outer loops come first in reverse post-order
	for _, l := range heads {
		l.parent = fi.inner[l.head]
		for b := range l.blocks {
			fi.inner[b] = l
		}
	}
	fi.liveness(fn)
	fi.localVars(fn)
	return fi
}

func (fi *fnInfo) liveness(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.live = make([]map[int]bool, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	phiUse := make([]map[int]bool, n) // at the end of a predecessor
	for i := range use {
		use[i], def[i], phiUse[i], fi.live[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for k, e := range p.Edges {
					if x, ok := fi.num[e]; ok {
						phiUse[b.Preds[k].Index][x] = true
					}
				}
				def[b.Index][fi.num[p]] = true
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if x, ok := fi.num[*op]; ok && !def[b.Index][x] {
					use[b.Index][x] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[b.Index][fi.num[v]] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			in := fi.live[b.Index]
			add := func(x int) {
				if !in[x] && !def[b.Index][x] {
					in[x] = true
					changed = true
				}
			}
			for x := range use[b.Index] {
				add(x)
			}
			for x := range phiUse[b.Index] {
				add(x)
			}
			for _, s := range b.Succs {
				for x := range fi.live[s.Index] {
					add(x)
				}
			}
		}
	}
}

// ---- disjuncts ----

func (d *D) fork() *D {
	e := *d
	e.st = d.st.fork()
	e.env = append([]Val{}, d.env...)
	e.defers = d.defers[:len(d.defers):len(d.defers)]
	return &e
}

type result struct {
	kind byte // 'o' ok, 's' split, 'k' kill, 'x' stuck
	c    *Expr
	msg  string
}

func (in *Interp) attempt(d *D, f func()) (r result) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case split:
				r = result{kind: 's', c: x.c}
			case kill:
				r = result{kind: 'k'}
			case stuck:
				r = result{kind: 'x', msg: x.what}
			default:
				panic(e)
			}
		}
	}()
	f()
	return result{kind: 'o'}
}

// run executes f on d as a transaction, splitting the disjunct as asked.
func (in *Interp) run(d *D, f func(d *D)) []*D {
	var out []*D
	work := []*D{d}
	for n := 0; len(work) > 0; n++ {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if n > 4000 {
			in.stuck("too many case distinctions")
			return out
		}
		x.st.mark()
		r := in.attempt(x, func() { f(x) })
		switch r.kind {
		case 'o':
			out = append(out, x)
		case 's':
			x.st.rollback()
			x.pend = nil
			y := x.fork()
			if x.st.F.Assume(r.c) {
				work = append(work, x)
			}
			if y.st.F.Assume(in.C.Not(r.c)) {
				work = append(work, y)
			}
		case 'x':
			in.stuck(r.msg)
		}
	}
	return out
}

func (in *Interp) where() string {
	for f := in.curFrame; f != nil; f = f.parent {
		if in.P.InRepo(f.fn) && (in.P.Spec == nil || rootFn(f.fn).Pkg != in.P.Spec) {
			return f.fn.RelString(nil)
		}
	}
	if in.curFrame != nil {
		return in.curFrame.fn.RelString(nil)
	}
	return "-"
}

func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (in *Interp) stuck(msg string) {
	in.hurry()
	if _, ok := in.Stucks[msg]; !ok {
		in.Stucks[msg] = in.where() + " " + in.P.Pos(in.pos)
		if in.trace {
			fmt.Println("STUCK", msg, in.Stucks[msg])
		}
	}
}

// oblige decides an obligation in the current disjunct.
func (in *Interp) oblige(d *D, key string, pos token.Pos, c *Expr, what string) {
	t := d.st.F.Decide(c)
	if in.quiet == 0 {
		o := in.Obls[key]
		if o == nil {
			o = &Obl{Key: key, Pos: in.P.Pos(pos)}
			in.Obls[key] = o
			in.order = append(in.order, key)
		}
		o.N++
		if t != Yes {
			o.Bad++
			in.hurry()
			k := key + "|" + what
			if !in.violSeen[k] {
				in.violSeen[k] = true
				w := what
				if t == No {
					w += " (fails)"
				} else {
					w += " (not established: " + clip(c.String(), 300) + ")"
				}
				in.Viols = append(in.Viols, Viol{Key: key, Pos: in.P.Pos(pos), Fn: in.where(), What: w, Path: lastN(d.st.note, 14)})
				if in.trace {
					fmt.Println("VIOL", key, w)
					for _, n := range lastN(d.st.note, 30) {
						fmt.Println("     ", n)
					}
				}
			}
		}
	}
	if t == No {
		panic(kill{})
	}
	d.st.assume(c)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func lastN(a []string, n int) []string {
	if len(a) > n {
		a = a[len(a)-n:]
	}
	return append([]string{}, a...)
}

// require demands that an operation does not panic.
func (d *D) require(c *Expr, what string, pos token.Pos) {
	in := d.in
	if in.NoPanic && d.fr != nil && in.P.InRepo(d.fr.fn) {
		in.oblige(d, "no panic: "+what+" in "+d.fr.fn.RelString(nil), pos, c, what+" at "+in.P.Pos(pos))
		return
	}
	d.st.assume(c)
}

// ---- regions ----

type arrival struct {
	d  *D
	to *ssa.BasicBlock
}

type regionOut struct {
	exits, backs []arrival
	rets         []outcome
}

// edge moves a disjunct along an edge, computing the phis of the target.
func (in *Interp) edge(d *D, from, to *ssa.BasicBlock) *D {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var nums []int
	var vals []Val
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nums = append(nums, d.fr.fi.num[p])
		vals = append(vals, d.val(p.Edges[k]))
	}
	if in.trace && false {
		fmt.Println("edge", from, to)
	}
	env := make([]Val, len(d.env))
	live := d.fr.fi.live[to.Index]
	for x := range live {
		env[x] = d.env[x]
	}
	for i, n := range nums {
		env[n] = vals[i]
	}
	for _, a := range d.fr.fi.dead[to.Index] {
		if p, ok := env[d.fr.fi.num[a]].(*Ptr); ok && len(p.Path) == 0 && p.O.Fresh {
			if z := in.zero(p.O.T); !sameVal(d.st.heap[p.O], z) {
				d.st.put(p.O, z)
			}
		}
	}
	d.env = env
	return d
}

func (in *Interp) region(fi *fnInfo, l *loopInfo, start *ssa.BasicBlock, ds []*D) regionOut {
	var out regionOut
	pending := map[*ssa.BasicBlock][]*D{start: ds}
	first := true
	inside := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
	deliver := func(a arrival) {
		switch {
		case l != nil && a.to == l.head:
			out.backs = append(out.backs, a)
		case !inside(a.to):
			out.exits = append(out.exits, a)
		default:
			pending[a.to] = append(pending[a.to], a.d)
		}
	}
	for _, b := range fi.rpo {
		if !inside(b) {
			continue
		}
		arr := pending[b]
		if len(arr) == 0 {
			continue
		}
		delete(pending, b)
		if len(arr) > in.MergeLimit {
			arr = in.mergeDs(fi, b, arr)
		}
		isStart := b == start && first
		first = false
		if il := fi.loops[b]; il != nil && !(isStart && l == il) {
			lo := in.loop(fi, il, arr)
			out.rets = append(out.rets, lo.rets...)
			for _, a := range lo.exits {
				deliver(a)
			}
			continue
		}
		for _, d := range arr {
			for _, a := range in.block(fi, b, d, &out) {
				deliver(a)
			}
		}
		if in.Steps > in.Limit {
			in.stuck("analysis budget exhausted")
			return out
		}
	}
	return out
}

// block executes one basic block on a disjunct.
func (in *Interp) block(fi *fnInfo, b *ssa.BasicBlock, d0 *D, out *regionOut) []arrival {
	var res []arrival
	type item struct {
		d  *D
		pc int
	}
	work := []item{{d0, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		d := it.d
		pc := it.pc
	loop:
		for {
			ins := b.Instrs[pc]
			in.Steps++
			if in.Steps%32 == 0 && in.late() {
				in.Steps = in.Limit + 1
			}
			if in.Steps > in.Limit {
				in.stuck("analysis budget exhausted")
				return res
			}
			if p := ins.Pos(); p.IsValid() {
				in.pos = p
			}
			in.curFrame = d.fr
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				pc++
				continue
			case *ssa.Jump:
				res = append(res, arrival{in.edge(d, b, b.Succs[0]), b.Succs[0]})
				break loop
			case *ssa.If:
				c, ok := d.val(x.Cond).(*Expr)
				if !ok {
					in.stuck("condition " + showVal(d.val(x.Cond)))
					break loop
				}
				switch d.st.F.Decide(c) {
				case Yes:
					res = append(res, arrival{in.edge(d, b, b.Succs[0]), b.Succs[0]})
				case No:
					res = append(res, arrival{in.edge(d, b, b.Succs[1]), b.Succs[1]})
				default:
					e := d.fork()
					if d.st.F.Assume(c) {
						d.st.note = append(d.st.note, in.note(x, c, true))
						res = append(res, arrival{in.edge(d, b, b.Succs[0]), b.Succs[0]})
					}
					if e.st.F.Assume(in.C.Not(c)) {
						e.st.note = append(e.st.note, in.note(x, c, false))
						res = append(res, arrival{in.edge(e, b, b.Succs[1]), b.Succs[1]})
					}
				}
				break loop
			case *ssa.Return:
				var ret Val
				switch len(x.Results) {
				case 0:
				case 1:
					ret = d.val(x.Results[0])
				default:
					t := make(TupleV, len(x.Results))
					for i, r := range x.Results {
						t[i] = d.val(r)
					}
					ret = t
				}
				out.rets = append(out.rets, outcome{d.st, ret})
				break loop
			case *ssa.Panic:
				in.run(d, func(d *D) { d.require(in.C.False, "explicit panic", x.Pos()) })
				break loop
			case *ssa.RunDefers:
				ds := []*D{d}
				for len(d.defers) > 0 && len(ds) > 0 {
					var next []*D
					for _, y := range ds {
						df := y.defers[len(y.defers)-1]
						y.defers = y.defers[:len(y.defers)-1]
						for _, o := range in.callVal(y, df.fn, df.args, x.Pos()) {
							z := *y
							z.st = o.st
							z.env = append([]Val{}, y.env...)
							next = append(next, &z)
						}
					}
					ds = next
					if len(ds) == 0 {
						break loop
					}
					d = ds[0]
				}
				for _, y := range ds[1:] {
					work = append(work, item{y, pc + 1})
				}
				d = ds[0]
				pc++
				continue
			}
			ds := in.run(d, func(d *D) { d.exec(ins) })
			if len(ds) == 0 {
				break loop
			}
			var next []*D
			for _, y := range ds {
				if y.pend == nil {
					next = append(next, y)
					continue
				}
				p := y.pend
				y.pend = nil
				var outs []outcome
				if p.special != nil {
					outs = p.special(y, p.args)
				} else {
					outs = in.call(y, p.fn, nil, p.args, ins.Pos())
				}
				in.curFrame = y.fr
				for i, o := range outs {
					z := y
					if i < len(outs)-1 {
						c := *y
						z = &c
						z.env = append([]Val{}, y.env...)
					}
					z.st = o.st
					if v, ok := ins.(ssa.Value); ok {
						z.env[fi.num[v]] = o.ret
					}
					next = append(next, z)
				}
			}
			if len(next) == 0 {
				break loop
			}
			for _, y := range next[1:] {
				work = append(work, item{y, pc + 1})
			}
			d = next[0]
			pc++
		}
	}
	return res
}

func (in *Interp) note(x *ssa.If, c *Expr, b bool) string {
	p := x.Cond.Pos()
	if !p.IsValid() {
		p = in.pos
	}
	return fmt.Sprintf("%s: %s is %v", in.P.Pos(p), clip(c.String(), 160), b)
}

// val gives the value of an operand.
func (d *D) val(v ssa.Value) Val {
	in := d.in
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return &Ptr{O: in.global(x)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	}
	if n, ok := d.fr.fi.num[v]; ok {
		r := d.env[n]
		if r == nil {
			return TupleV{}
		}
		return r
	}
	panic(stuck{"operand " + v.String()})
}

func (in *Interp) constVal(x *ssa.Const) Val {
	c := in.C
	if x.Value == nil {
		return in.zero(x.Type())
	}
	T := x.Type()
	b, ok := under(T).(*types.Basic)
	if !ok {
		// a type parameter or an interface: not expected
		panic(stuck{"constant of type " + T.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return c.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		return c.Const(constant.StringVal(x.Value), tString)
	case b.Info()&types.IsInteger != 0:
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return c.Int(n)
		}
		if n, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
			return c.Const(n, T)
		}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		return c.Const(f, tF64)
	}
	panic(stuck{"constant " + x.String()})
}

// ---- calls ----

// callVal calls a function value.
func (in *Interp) callVal(d *D, f Val, args []Val, pos token.Pos) []outcome {
	switch x := f.(type) {
	case *FuncV:
		return in.call(d, x.Fn, x.Bind, args, pos)
	case *Expr:
		return in.opaqueCall(d, x, args)
	}
	in.stuck("call of " + showVal(f))
	return nil
}

// opaqueCall calls a function known by name only: anything may be returned, nothing is changed.
func (in *Interp) opaqueCall(d *D, f *Expr, args []Val) []outcome {
	sig, ok := under(f.T).(*types.Signature)
	if !ok {
		in.stuck("call of " + f.String())
		return nil
	}
	if x := rvOf(args); x != nil && d.st.subs != nil && sig.Results().Len() > 1 {
		return in.partResult(d, sig.Results(), "of", []*Expr{f, in.rvTerm(d, x)}, x, in.likeWhole(d, args), token.NoPos)
	}
	r := in.opaqueResult(d, sig, "call:"+f.String())
	if p, ok := r.(*Ptr); ok && in.KnownMethod != nil && f.Op == OApp && strings.HasPrefix(f.Name, "method:") && in.KnownMethod(strings.TrimPrefix(f.Name, "method:")) {
		d.st.F.Assume(in.C.Not(d.st.isNil(p)))
	}
	return []outcome{{d.st, r}}
}

func (in *Interp) opaqueResult(d *D, sig *types.Signature, name string) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return in.symVal(in.fresh(name, sig.Results().At(0).Type()), sig.Results().At(0).Type(), false)
	}
	t := make(TupleV, sig.Results().Len())
	for i := range t {
		t[i] = in.symVal(in.fresh(name, sig.Results().At(i).Type()), sig.Results().At(i).Type(), false)
	}
	return t
}

func (in *Interp) call(d *D, fn *ssa.Function, bind []Val, args []Val, pos token.Pos) []outcome {
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && !in.P.InRepoPkg(fn.Pkg) {
		return []outcome{{d.st, nil}}
	}
	if in.P.Spec != nil && fn.Pkg == in.P.Spec && fn.Parent() == nil && isIntrinsic(fn) {
		var outs []outcome
		for _, y := range in.run(d, func(y *D) { y.pend = nil; y.env = append([]Val{}, y.env...); y.tmp(in.intrinsic(y, fn, args, pos)) }) {
			if p := y.pend; p != nil {
				y.pend = nil
				outs = append(outs, in.call(y, p.fn, nil, p.args, pos)...)
				continue
			}
			outs = append(outs, outcome{y.st, y.takeTmp()})
		}
		return outs
	}
	if d.st.out != nil {
		if outs, ok := in.outCall(d, fn, args, pos); ok {
			return outs
		}
	}
	inline := len(fn.Blocks) > 0 && (in.P.InRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil || in.inlineLib(fn))
	if !inline {
		var outs []outcome
		for _, y := range in.run(d, func(y *D) {
			y.pend = nil
			y.env = append([]Val{}, y.env...)
			y.tmp(in.lib(y, fn, args, pos))
		}) {
			if p := y.pend; p != nil {
				y.pend = nil
				if p.special != nil {
					outs = append(outs, p.special(y, p.args)...)
				} else {
					outs = append(outs, in.call(y, p.fn, nil, p.args, pos)...)
				}
				continue
			}
			outs = append(outs, outcome{y.st, y.takeTmp()})
		}
		return outs
	}
	if in.EscapeSum && in.isEscape(fn) {
		return in.escapeCall(d, fn, args, pos)
	}
	if in.Known != nil && d.fr != nil && len(bind) == 0 && in.Known(fn) {
		return []outcome{{d.st, in.knownResult(fn)}}
	}
	if d.st.subs != nil && in.rootSettings == nil && rvOf(args) != nil {
		in.likeWhole(d, args)
		for _, v := range args {
			if s, ok := v.(*StructV); ok && in.rootSettings == nil {
				in.rootSettings = s
			}
		}
	}
	if d.st.subs != nil && in.isSub(d, fn, args) {
		return in.subCall(d, fn, args, pos)
	}
	for _, f := range in.sums {
		if sameSig(f.Fn.Signature, fn.Signature) && rootFn(fn).Pkg == in.P.Main && d.fr != nil && rootFn(d.fr.fn).Pkg != in.P.Spec {
			return in.call(d, f.Fn, f.Bind, args, pos)
		}
	}
	if in.cs != nil && !in.inInit && d.fr != nil && in.cs.isFn[fn] && len(bind) == 0 {
		if outs, ok := in.contractCall(d, fn, args, pos); ok {
			return outs
		}
	}
	// recursion
	rec := 0
	for f := d.fr; f != nil; f = f.parent {
		if f.fn == fn {
			if in.decreasing(f.args, args) {
				continue
			}
			rec++
		}
	}
	if rec > 0 {
		for _, f := range d.st.recs {
			if sameSig(f.Fn.Signature, fn.Signature) && (in.P.Spec == nil || rootFn(fn).Pkg != in.P.Spec) {
				return in.call(d, f.Fn, f.Bind, args, pos)
			}
		}
		if rec > in.Unroll {
			in.stuck("recursion of " + fn.RelString(nil))
			return nil
		}
	}
	depth := 0
	if d.fr != nil {
		depth = d.fr.depth + 1
	}
	if depth > in.MaxDepth {
		in.stuck("call depth at " + fn.RelString(nil))
		return nil
	}
	if in.P.Spec == nil || rootFn(fn).Pkg != in.P.Spec {
		in.Funcs[fn] = true
	}
	fi := in.info(fn)
	if fi.irred {
		in.stuck("irreducible control flow in " + fn.RelString(nil))
		return nil
	}
	fr := &frame{fn: fn, fi: fi, parent: d.fr, bind: bind, args: args, depth: depth, site: pos}
	nd := &D{in: in, st: d.st, env: make([]Val, fi.n), fr: fr}
	for i, p := range fn.Params {
		if i < len(args) {
			nd.env[fi.num[p]] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			nd.env[fi.num[f]] = bind[i]
		}
	}
	var old *StructV
	if in.cs != nil && !in.inInit && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 1 && fn.Parent() == nil {
		if _, ok := args[0].(*Ptr); ok {
			if _, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer); ok {
				in.attempt(d, func() { old, _ = structOf(d, args[0]) })
			}
		}
	}
	out := in.region(fi, nil, fn.Blocks[0], []*D{nd})
	if in.cs != nil && os.Getenv("AI_CONTRACT") == "2" && len(out.rets) > 1 {
		fmt.Println("CALL", in.cs.root != nil && strings.Contains(in.cs.root.key, "Object"), fn.Name(), "at", in.P.Pos(pos), len(out.rets), in.Steps)
	}
	if old != nil {
		in.handedOut(d, fn, args, old, out.rets)
	}
	if len(in.atomics) > 0 && fn.Signature.Results().Len() == 0 {
		// what was read atomically is of no use any more
		for _, o := range out.rets {
			o.st.F = o.st.F.without(in.atomics)
		}
	}
	if in.Bytes && len(out.rets) > 1 && fn.Signature.Results().Len() == 1 && isByteT(fn.Signature.Results().At(0).Type()) {
		in.joinBytes = true
		out.rets = in.mergeOutcomes(d, out.rets)
		in.joinBytes = false
	}
	if len(out.rets) > in.MergeLimit {
		out.rets = in.mergeOutcomes(d, out.rets)
	}
	in.curFrame = d.fr
	return out.rets
}

func rvOf(args []Val) *RV {
	for _, a := range args {
		if r, ok := a.(*RV); ok {
			return r
		}
	}
	return nil
}

// isSub tells whether fn, which may fail, converts another reflect.Value than the one which the conversion began with.
func (in *Interp) isSub(d *D, fn *ssa.Function, args []Val) bool {
	rs := fn.Signature.Results()
	x := rvOf(args)
	if x == nil || rs.Len() < 2 || !isErrT(rs.At(rs.Len()-1).Type()) {
		return false
	}
	var root *RV
	for f := d.fr; f != nil; f = f.parent {
		if y := rvOf(f.args); y != nil {
			root = y
		}
	}
	return root != nil && root != x && !(root.Term != nil && root.Term == x.Term)
}

// subCall is such a call: it may return anything, and the driver is told the error.
func (in *Interp) subCall(d *D, fn *ssa.Function, args []Val, pos token.Pos) []outcome {
	x := rvOf(args)
	return in.partResult(d, fn.Signature.Results(), "part:"+fn.Name(), []*Expr{in.rvTerm(d, x)}, x, in.likeWhole(d, args), pos)
}

// likeWhole tells whether a part is converted with the same settings as the whole.
func (in *Interp) likeWhole(d *D, args []Val) bool {
	settings := func(vs []Val) *StructV {
		for _, v := range vs {
			if s, ok := v.(*StructV); ok {
				return s
			}
		}
		return nil
	}
	var root []Val
	for f := d.fr; f != nil; f = f.parent {
		if rvOf(f.args) != nil {
			root = f.args
		}
	}
	a, b := settings(root), settings(args)
	if root == nil {
		a = in.rootSettings
	} else if in.rootSettings == nil {
		in.rootSettings = a
	}
	return a == nil && b == nil || a != nil && b != nil && sameVal(a, b)
}

// knownResult is a result of a function of which nothing is known but that its values are not nil.
func (in *Interp) knownResult(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	t := make(TupleV, rs.Len())
	for i := range t {
		T := rs.At(i).Type()
		e := in.fresh("known:"+fn.Name(), T)
		if p, ok := T.(*types.Pointer); ok {
			t[i] = &Ptr{O: in.symObj(e, p.Elem(), 'v', false, true)}
		} else {
			t[i] = in.symVal(e, T, false)
		}
	}
	if len(t) == 1 {
		return t[0]
	}
	return t
}

func (in *Interp) rvTerm(d *D, x *RV) *Expr {
	switch {
	case x.Term != nil:
		return x.Term
	case x.V != nil:
		return in.name(d.st, x.V)
	}
	return in.C.Str("invalid")
}

// partResult is an unknown result of converting a part.
func (in *Interp) partResult(d *D, rs *types.Tuple, name string, of []*Expr, x *RV, whole bool, pos token.Pos) []outcome {
	t := make(TupleV, rs.Len())
	for i := range t {
		T := rs.At(i).Type()
		t[i] = in.symVal(in.C.App(name+"#"+strconv.Itoa(i), T, of...), T, false)
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
			// the value itself, or a pointer to it
			t[i] = x
		}
	}
	if whole && in.Whole { // by induction
		if p, ok := t[0].(*Ptr); ok {
			no := d.st.isNil(t[len(t)-1])
			d.st.F.Assume(in.C.Or(in.C.Not(no), in.C.Not(d.st.isNil(p))))
		}
	}
	f := d.st.subs
	var outs []outcome
	for _, o := range in.call(d, f.Fn, f.Bind, []Val{x, t[len(t)-1]}, pos) {
		outs = append(outs, outcome{o.st, t})
	}
	return outs
}

// sameSig compares a function without receiver and a function or method.
func sameSig(f, g *types.Signature) bool {
	var ps []types.Type
	if g.Recv() != nil {
		ps = append(ps, g.Recv().Type())
	}
	for i := 0; i < g.Params().Len(); i++ {
		ps = append(ps, g.Params().At(i).Type())
	}
	if len(ps) != f.Params().Len() || !types.Identical(f.Results(), g.Results()) {
		return false
	}
	for i, t := range ps {
		if !types.Identical(t, f.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

func (d *D) tmp(v Val) { d.env = append(d.env, v) }
func (d *D) takeTmp() Val {
	v := d.env[len(d.env)-1]
	d.env = d.env[:len(d.env)-1]
	return v
}

// decreasing tells whether a recursive call has a smaller list of known length.
func (in *Interp) decreasing(old, new []Val) bool {
	for i := range old {
		if i >= len(new) {
			return false
		}
		a, ok1 := old[i].(*SliceV)
		switch b := new[i].(type) {
		case *SliceV:
			if ok1 {
				m, k1 := a.Len.Int64()
				n, k2 := b.Len.Int64()
				if k1 && k2 && n < m {
					return true
				}
			}
		case *NilV:
			if ok1 {
				if m, k := a.Len.Int64(); k && m > 0 {
					return true
				}
			}
		case *IfaceV:
			// a list given as one parameter is taken apart
			if x, ok := old[i].(*IfaceV); ok {
				if _, isL := x.V.(*SliceV); isL {
					if _, isL2 := b.V.(*SliceV); !isL2 {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- merging ----

func (in *Interp) mergeDs(fi *fnInfo, b *ssa.BasicBlock, ds []*D) []*D {
	live := fi.live[b.Index]
	nums := []int{}
	for x := range live {
		nums = append(nums, x)
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nums = append(nums, fi.num[p])
	}
	sort.Ints(nums)
	var out []*D
outer:
	for _, d := range ds {
		for _, e := range out {
			if len(d.defers) != len(e.defers) || !sameRecs(d.st.recs, e.st.recs) {
				continue
			}
			same := true
			var env map[int]Val
			for _, n := range nums {
				a, b := e.env[n], d.env[n]
				if sameOpt(a, b) {
					continue
				}
				v, ok := unify(a, b, e.st.F, d.st.F)
				if !ok {
					same = false
					break
				}
				if env == nil {
					env = map[int]Val{}
				}
				env[n] = v
			}
			if !same {
				continue
			}
			if heap, ok := in.unifyHeap(e.st, d.st); ok {
				e.st.join(d.st)
				for o, v := range heap {
					e.st.heap[o] = v
				}
				for n, v := range env {
					e.env[n] = v
				}
				in.Joins++
				continue outer
			}
		}
		out = append(out, d)
	}
	return out
}

// unify finds a value which stands for a where f holds and for b where g holds.
func unify(a, b Val, f, g *Facts) (Val, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	if sameVal(a, b) {
		return a, true
	}
	if in := f.c.forget; in != nil {
		if v, ok := in.unifyAny(a, b, f, g); ok {
			return v, true
		}
	}
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		if !ok || !isIntExpr(x) || !isIntExpr(y) || x.Op == OConst && y.Op == OConst {
			return nil, false
		}
		eq := f.c.EqI(x, y)
		if f.Decide(eq) == Yes {
			return y, true
		}
		if g.Decide(eq) == Yes {
			return x, true
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		r := &StructV{T: x.T, F: make([]Val, len(x.F))}
		for i := range x.F {
			if r.F[i], ok = unify(x.F[i], y.F[i], f, g); !ok {
				return nil, false
			}
		}
		return r, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(TupleV, len(x))
		for i := range x {
			if r[i], ok = unify(x[i], y[i], f, g); !ok {
				return nil, false
			}
		}
		return r, true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || !sameVal(x.Arr, y.Arr) || x.Nil != y.Nil {
			return nil, false
		}
		r := &SliceV{Arr: x.Arr, Elem: x.Elem, Nil: x.Nil}
		for i, p := range []struct {
			a, b *Expr
			to   **Expr
		}{{x.Off, y.Off, &r.Off}, {x.Len, y.Len, &r.Len}, {x.Cap, y.Cap, &r.Cap}} {
			_ = i
			v, ok := unify(p.a, p.b, f, g)
			if !ok {
				return nil, false
			}
			*p.to = v.(*Expr)
		}
		return r, true
	}
	return nil, false
}

func isIntExpr(e *Expr) bool { return e.Op == OLin || e.T != nil && IsInt(e.T) }

// unifyHeap compares the memory of two states; it gives the contents to use in the joint state where they are written
// differently. Objects which are known by name and unchanged may be missing on one side.
func (in *Interp) unifyHeap(a, b *State) (map[*Obj]Val, bool) {
	var upd map[*Obj]Val
	for o, v := range a.heap {
		w, ok := b.heap[o]
		if !ok {
			if o.Sym == nil {
				// garbage on one side only matters if it is reachable; values compared equal do not reach it
				continue
			}
			w = in.matCache[o]
		}
		if w == nil {
			return nil, false
		}
		if sameVal(v, w) {
			continue
		}
		u, ok := unify(v, w, a.F, b.F)
		if !ok {
			return nil, false
		}
		if upd == nil {
			upd = map[*Obj]Val{}
		}
		upd[o] = u
	}
	for o, w := range b.heap {
		if _, ok := a.heap[o]; ok || o.Sym == nil {
			continue
		}
		v := in.matCache[o]
		if v == nil {
			return nil, false
		}
		if sameVal(v, w) {
			continue
		}
		u, ok := unify(v, w, a.F, b.F)
		if !ok {
			return nil, false
		}
		if upd == nil {
			upd = map[*Obj]Val{}
		}
		upd[o] = u
	}
	return upd, true
}

func sameOpt(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sameVal(a, b)
}

func (in *Interp) mergeOutcomes(d *D, rs []outcome) []outcome {
	var out []outcome
outer:
	for _, r := range rs {
		for i := range out {
			o := &out[i]
			ret, ok := unify(o.ret, r.ret, o.st.F, r.st.F)
			if !ok {
				continue
			}
			if heap, ok := in.unifyHeap(o.st, r.st); ok {
				o.st.join(r.st)
				for ob, v := range heap {
					o.st.heap[ob] = v
				}
				o.ret = ret
				in.Joins++
				continue outer
			}
		}
		out = append(out, r)
	}
	return out
}

// sameHeap compares the memory of two states syntactically. Objects which are known by name and unchanged may be
// missing on one side.
func (in *Interp) sameHeap(a, b *State) bool {
	chk := func(x, y *State) bool {
		for o, v := range x.heap {
			w, ok := y.heap[o]
			if !ok {
				if o.Sym == nil {
					// garbage on one side only matters if it is reachable; values compared equal do not reach it
					continue
				}
				w = in.matCache[o]
			}
			if w == nil || !sameVal(v, w) {
				return false
			}
		}
		return true
	}
	return chk(a, b) && chk(b, a)
}

// join weakens the facts of st to what also holds in o.
func (st *State) join(o *State) {
	f, g := st.F, o.F
	n := newFacts(f.c)
	for k, v := range f.eq {
		if g.find(k) == g.find(v) {
			n.eq[k] = v
		}
	}
	for e, s := range f.sets {
		var t Set
		if u, ok := g.sets[e]; ok {
			t = u
		} else if vs, ok := g.smallVals(e); ok {
			for _, v := range vs {
				t.add(v)
			}
		} else {
			continue
		}
		for i := range s {
			t[i] |= s[i]
		}
		n.sets[e] = t
	}
	var lostF, lostG []*Expr
	for e, t := range f.truth {
		x := e
		if !t {
			x = f.c.Not(e)
		}
		if g.Decide(x) == Yes {
			n.truth[e] = t
		} else {
			lostF = append(lostF, x)
		}
	}
	for e, t := range g.truth {
		x := e
		if !t {
			x = f.c.Not(e)
		}
		if _, ok := n.truth[e]; !ok && f.Decide(x) != Yes {
			lostG = append(lostG, x)
		}
	}
	either := f.c.disjunction(lostF, lostG)
	for _, l := range f.lins {
		if g.entails(l) {
			n.addLin(l)
		}
	}
	for _, l := range g.lins {
		if f.entails(l) {
			n.addLin(l)
		}
	}
	for _, l := range f.diseq {
		if g.Decide(f.c.EqI(f.c.fromLin(l), f.c.Zero)) == No {
			n.diseq = append(n.diseq, l)
		}
	}
	for _, cl := range f.clauses {
		if g.Decide(cl) == Yes {
			n.clauses = append(n.clauses, cl)
		}
	}
	for _, cl := range g.clauses {
		if _, ok := n.truth[cl]; !ok && f.Decide(cl) == Yes {
			n.truth[cl] = true
			n.clauses = append(n.clauses, cl)
		}
	}
	if either != nil {
		n.add(either)
	}
	st.F = n
	// unchanged named objects on one side
	for k, v := range o.heap {
		if _, ok := st.heap[k]; !ok {
			st.heap[k] = v
		}
	}
}

// disjunction remembers which facts held on either side of a join (some of them).
func (c *Ctx) disjunction(a, b []*Expr) *Expr {
	conj := func(es []*Expr) *Expr {
		sort.Slice(es, func(i, j int) bool { return es[i].id > es[j].id })
		r := c.True
		n := 0
		for _, e := range es {
			if e.depth() > 4 {
				continue
			}
			r = c.And(e, r)
			if n++; n == 4 {
				break
			}
		}
		return r
	}
	x := c.Or(conj(a), conj(b))
	if x == c.True || x.Op != OBOr {
		return nil
	}
	return x
}

// depth counts nested connectives.
func (e *Expr) depth() int {
	n := 0
	switch e.Op {
	case OBAnd, OBOr, ONot:
		for _, a := range e.Args {
			if k := a.depth(); k > n {
				n = k
			}
		}
		n++
	}
	return n
}

// ---- arithmetic ----

func (d *D) inRange(e *Expr, T types.Type) bool {
	F := d.st.F
	c := d.in.C
	lo, hi, hiOK := rangeOf(T)
	if n, ok := e.Int64(); ok {
		return n >= lo && n <= hi
	}
	n := bits(T)
	if n == 64 && !isUnsigned(T) {
		// sums of values below 2^62 fit; an unknown of the type itself fits
		if e.Op != OLin {
			if e.T != nil && IsInt(e.T) && !(bits(e.T) == 64 && isUnsigned(e.T)) {
				return true
			}
		}
		lim := int64(1) << 62
		return F.Decide(c.Le(c.Int(-lim), e)) == Yes && F.Decide(c.Le(e, c.Int(lim))) == Yes
	}
	if F.Decide(c.Le(c.Int(lo), e)) != Yes {
		return false
	}
	if !hiOK {
		if e.Op != OLin {
			return true
		}
		return F.Decide(c.Le(e, c.Int(1<<62))) == Yes
	}
	return F.Decide(c.Le(e, c.Int(hi))) == Yes
}

// wrap reduces a mathematical integer to the range of T.
func (d *D) wrap(e *Expr, T types.Type) *Expr {
	c := d.in.C
	if e.Op == OConst {
		if _, isU := e.C.(uint64); isU || true {
			if v, ok := convTo(e.C, T); ok {
				return c.Const(v, T)
			}
		}
	}
	if d.inRange(e, T) {
		return e
	}
	e = d.in.unwrap(e, bits(T))
	if e.Op == OConst {
		if v, ok := convTo(e.C, T); ok {
			return c.Const(v, T)
		}
	}
	if d.inRange(e, T) {
		return e
	}
	if b, ok := under(T).(*types.Basic); ok && b.Kind() == types.Uint8 {
		if r, ok := d.masked(e, 0xFF, T); ok {
			return r
		}
	}
	return c.node(OWrap, "", canonInt(T), e)
}

// canonInt names one type for each width and sign.
func canonInt(t types.Type) types.Type {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Uint, types.Uintptr:
		return types.Typ[types.Uint64]
	case types.Int:
		return types.Typ[types.Int64]
	}
	return types.Typ[b.Kind()]
}

// unwrap removes inner reductions which the outer one makes redundant.
func (in *Interp) unwrap(e *Expr, n int) *Expr {
	c := in.C
	switch e.Op {
	case OWrap:
		if bits(e.T) >= n {
			return in.unwrap(e.Args[0], n)
		}
	case OLin:
		r := c.Int(e.L.C)
		for _, t := range e.L.T {
			s, ok := c.Scale(in.unwrap(t.A, n), t.K)
			if !ok {
				return e
			}
			r = c.Add(r, s)
		}
		return r
	}
	return e
}

func (d *D) arith(op token.Token, a, b *Expr, T types.Type) Val {
	in := d.in
	c := in.C
	bt, _ := under(T).(*types.Basic)
	if bt == nil {
		panic(stuck{"operation at type " + T.String()})
	}
	name := op.String()
	if a.Op == OConst && b.Op == OConst {
		if v, ok := binop(name, a.C, b.C, T); ok {
			return c.Const(v, T)
		}
	}
	switch {
	case bt.Info()&types.IsString != 0:
		if op == token.ADD {
			return c.Concat(a, b)
		}
	case bt.Info()&types.IsFloat != 0:
		return c.node(OBin, name, T, a, b)
	case bt.Info()&types.IsInteger != 0:
		switch op {
		case token.ADD, token.SUB:
			k := int64(1)
			r := c.Add(a, b)
			if op == token.SUB {
				k = -1
				r = c.Sub(a, b)
			}
			if bits(T) == 64 && !isUnsigned(T) && d.noOverflow(a, b, k) {
				return r
			}
			return d.wrap(r, T)
		case token.MUL:
			if n, ok := a.Int64(); ok {
				if r, ok := c.Scale(b, n); ok {
					return d.wrap(r, T)
				}
			}
			if n, ok := b.Int64(); ok {
				if r, ok := c.Scale(a, n); ok {
					return d.wrap(r, T)
				}
			}
		case token.QUO, token.REM:
			if n, ok := b.Int64(); ok && n > 0 && n&(n-1) == 0 {
				if op == token.QUO {
					if r, ok := d.shifted(a, mbits.TrailingZeros64(uint64(n))); ok {
						return r
					}
				} else if r, ok := d.masked(a, n-1, T); ok {
					return r
				}
			}
			d.require(c.Not(c.EqI(b, c.Zero)), "division by zero", in.pos)
			e := c.node(OBin, name, T, a, b)
			if n, ok := b.Int64(); ok && n > 0 && op == token.REM && n <= 1<<40 && d.st.F.Decide(c.Le(c.Zero, a)) == Yes {
				e.Dom = int(n)
			}
			if op == token.QUO && d.st.F.Decide(c.Le(c.Zero, a)) == Yes && d.st.F.Decide(c.Le(c.One, b)) == Yes {
				d.st.assume(c.Le(c.Zero, e))
				d.st.assume(c.Le(e, a))
				if in.cs != nil {
					if d.st.F.Decide(c.Le(b, a)) == Yes {
						d.st.assume(c.Le(c.One, e))
					}
					if d.st.F.Decide(c.Le(c.Int(2), b)) == Yes {
						d.st.assume(c.Le(c.Add(e, e), a))
					}
				}
			}
			return e
		case token.AND:
			for i := 0; i < 2; i++ {
				if n, ok := b.Int64(); ok && n >= 0 {
					if r, ok := d.masked(a, n, T); ok {
						return r
					}
					// a mask of low bits is a reduction
					e := c.node(OBin, name, T, in.unwrapMask(a, n), b)
					if e.Dom == 0 && n < 1<<40 {
						e.Dom = int(n) + 1
					}
					return e
				}
				a, b = b, a
			}
		case token.OR, token.XOR:
			if x, ok := d.possible(a); ok {
				if y, ok := d.possible(b); ok && x&y == 0 {
					return c.Add(a, b)
				}
			}
		case token.SHL:
			if n, ok := b.Int64(); ok && n >= 0 && n < 62 {
				if r, ok := c.Scale(a, 1<<uint(n)); ok {
					return d.wrap(r, T)
				}
			}
		case token.SHR:
			if n, ok := b.Int64(); ok && n >= 0 {
				if n < 62 {
					if r, ok := d.shifted(a, int(n)); ok {
						return r
					}
				}
				e := c.node(OBin, name, T, a, b)
				if d.st.F.Decide(c.Le(c.Zero, a)) == Yes {
					d.st.assume(c.Le(c.Zero, e))
					// 2^n * (a >> n) <= a < 2^n * (a >> n) + 2^n
					if n < 40 {
						if s, ok := c.Scale(e, 1<<uint(n)); ok {
							d.st.assume(c.Le(s, a))
							d.st.assume(c.Lt(a, c.AddK(s, 1<<uint(n))))
						}
					}
				}
				return e
			}
		}
		return c.node(OBin, name, T, a, b)
	}
	panic(stuck{"operation " + name + " at " + T.String()})
}

func (in *Interp) unwrapMask(a *Expr, n int64) *Expr {
	b := 0
	for int64(1)<<uint(b)-1 < n {
		b++
	}
	return in.unwrap(a, b)
}

// noOverflow tells whether a + k*b stays within int64.
func (d *D) noOverflow(a, b *Expr, k int64) bool {
	F, c := d.st.F, d.in.C
	small := func(e *Expr) bool {
		l := int64(1) << 61
		return F.Decide(c.Le(e, c.Int(l))) == Yes && F.Decide(c.Le(c.Int(-l), e)) == Yes
	}
	if small(a) && small(b) {
		return true
	}
	sa, sb := F.Decide(c.Le(c.Zero, a)), F.Decide(c.Le(c.Zero, b))
	if k > 0 {
		return sa == Yes && sb == No || sa == No && sb == Yes
	}
	return sa != Unknown && sa == sb
}

func (d *D) compare(op token.Token, a, b Val) *Expr {
	c := d.in.C
	switch op {
	case token.EQL:
		return d.st.equal(a, b)
	case token.NEQ:
		return c.Not(d.st.equal(a, b))
	}
	x, ok1 := a.(*Expr)
	y, ok2 := b.(*Expr)
	if !ok1 || !ok2 {
		panic(stuck{"ordering of " + showVal(a)})
	}
	isF := isBasicFloat(x.T) || isBasicFloat(y.T)
	isS := isStr(x) || isStr(y)
	if !isF && !isS {
		switch op {
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Lt(y, x)
		default:
			return c.Le(y, x)
		}
	}
	switch op {
	case token.LSS:
		return d.cmpO("<", x, y)
	case token.LEQ:
		return d.cmpO("<=", x, y)
	case token.GTR:
		return d.cmpO("<", y, x)
	default:
		return d.cmpO("<=", y, x)
	}
}

func (d *D) cmpO(op string, x, y *Expr) *Expr {
	return d.in.C.CmpO(op, d.st.F.find(x), d.st.F.find(y))
}

func (d *D) convert(v Val, from, to types.Type) Val {
	in := d.in
	c := in.C
	fu, tu := under(from), under(to)
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	// unsafe pointers keep the pointer
	if tb != nil && tb.Kind() == types.UnsafePointer || fb != nil && fb.Kind() == types.UnsafePointer {
		return v
	}
	if fb != nil && tb != nil {
		e, ok := v.(*Expr)
		if !ok {
			panic(stuck{"conversion of " + showVal(v)})
		}
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return d.wrap(e, to)
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
			if e.Op == OConst {
				if r, ok := convTo(e.C, to); ok {
					return c.Const(r, to)
				}
			}
			if fb.Kind() == tb.Kind() {
				return e
			}
			if e.Op == OConv && tb.Kind() == types.Float32 && fb.Kind() == types.Float64 {
				// widening is exact
				if b, ok := e.Args[0].T.(*types.Basic); ok && b.Kind() == types.Float32 {
					return e.Args[0]
				}
			}
			r := c.node(OConv, "", to, e)
			if tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0 {
				d.st.finite(r)
			}
			return r
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return e
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := e.Int64(); ok {
				return c.Str(string(rune(n)))
			}
			return c.App("runestr", tString, e)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case *SliceV:
			if b, ok := under(x.Elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return d.st.bytesToString(x)
			}
		case *NilV:
			return c.Str("")
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return d.st.stringToBytes(v.(*Expr), false)
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Signature, *types.Map:
		return v
	}
	panic(stuck{"conversion from " + from.String() + " to " + to.String()})
}

// finite notes that a float is neither NaN nor infinite.
func (st *State) finite(e *Expr) {
	for _, n := range []string{"isnan", "isinfp", "isinfn"} {
		st.assume(st.in.C.Not(st.in.C.App(n, tBool, e)))
	}
}

func (in *Interp) isNaN(e *Expr) *Expr { return in.fpred("isnan", e) }
func (in *Interp) isInf(e *Expr, sign int) *Expr {
	if sign > 0 {
		return in.fpred("isinfp", e)
	}
	return in.fpred("isinfn", e)
}

func (in *Interp) fpred(name string, e *Expr) *Expr {
	c := in.C
	if _, ok := e.C.(int64); ok && e.Op == OConst {
		return c.False
	}
	if f, ok := e.C.(float64); ok && e.Op == OConst {
		switch name {
		case "isnan":
			return c.Bool(math.IsNaN(f))
		case "isinfp":
			return c.Bool(math.IsInf(f, 1))
		default:
			return c.Bool(math.IsInf(f, -1))
		}
	}
	switch e.Op {
	case OUn:
		if e.Name == "-" {
			switch name {
			case "isinfp":
				return in.fpred("isinfn", e.Args[0])
			case "isinfn":
				return in.fpred("isinfp", e.Args[0])
			}
			return in.fpred(name, e.Args[0])
		}
	case OConv:
		if e.Args[0].T != nil && isBasicFloat(e.Args[0].T) && (bits64(e.T) || name == "isnan") {
			return in.fpred(name, e.Args[0])
		}
		if e.Args[0].T != nil && IsInt(e.Args[0].T) {
			return c.False
		}
	case OApp:
		if e.Name == "abs" {
			switch name {
			case "isnan":
				return in.fpred(name, e.Args[0])
			case "isinfn":
				return c.False
			}
			return c.Or(in.fpred("isinfp", e.Args[0]), in.fpred("isinfn", e.Args[0]))
		}
	}
	return c.App(name, tBool, e)
}

func bits64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Float64
}

// ---- instructions ----

func (d *D) set(v ssa.Value, x Val) {
	d.env[d.fr.fi.num[v]] = x
	if len(d.in.keyWatches) > 0 {
		d.linkWatches(x)
	}
}

// linkWatches relates an iterated key to the watched ones.
func (d *D) linkWatches(x Val) {
	switch x := x.(type) {
	case *Expr:
		if x.Op == OApp && x.Name == "keyat" {
			if !d.in.keySeen[x] {
				d.in.keySeen[x] = true
				d.in.keysSeen = append(d.in.keysSeen, x)
			}
			for _, w := range d.in.keyWatches {
				d.st.eqKey(x, w.q)
			}
		}
	case TupleV:
		for _, y := range x {
			d.linkWatches(y)
		}
	}
}

func (d *D) ptr(v ssa.Value, pos token.Pos) *Ptr {
	switch p := d.val(v).(type) {
	case *Ptr:
		d.require(d.in.C.Not(d.st.isNil(p)), "nil dereference", pos)
		return p
	case *NilV:
		d.require(d.in.C.False, "nil dereference", pos)
	default:
		panic(stuck{"dereference of " + showVal(p)})
	}
	panic(kill{})
}

func (d *D) exec(ins ssa.Instruction) {
	in, st := d.in, d.st
	c := in.C
	switch x := ins.(type) {
	case *ssa.Alloc:
		T := elemOf(x.Type())
		o := in.newObj(T, 'v', x.Comment)
		st.put(o, in.zero(T))
		d.set(x, &Ptr{O: o})
	case *ssa.BinOp:
		a, b := d.val(x.X), d.val(x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			d.set(x, d.compare(x.Op, a, b))
		default:
			ea, ok1 := a.(*Expr)
			eb, ok2 := b.(*Expr)
			if !ok1 || !ok2 {
				panic(stuck{"operation on " + showVal(a)})
			}
			d.set(x, d.arith(x.Op, ea, eb, x.Type()))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := d.ptr(x.X, x.Pos())
			d.set(x, st.load(p, x.Type()))
		case token.NOT:
			d.set(x, c.Not(d.val(x.X).(*Expr)))
		case token.SUB:
			e := d.val(x.X).(*Expr)
			if isBasicFloat(x.Type()) {
				if f, ok := e.C.(float64); ok && e.Op == OConst {
					d.set(x, c.Const(-f, tF64))
				} else if e.Op == OUn && e.Name == "-" {
					d.set(x, e.Args[0])
				} else {
					d.set(x, c.node(OUn, "-", x.Type(), e))
				}
			} else {
				d.set(x, d.arith(token.SUB, c.Zero, e, x.Type()))
			}
		case token.XOR:
			e := d.val(x.X).(*Expr)
			if n, ok := e.Int64(); ok {
				v, _ := convTo(^n, x.Type())
				d.set(x, c.Const(v, x.Type()))
			} else {
				d.set(x, c.node(OUn, "^", x.Type(), e))
			}
		default:
			panic(stuck{"operator " + x.Op.String()})
		}
	case *ssa.ChangeType:
		d.set(x, d.val(x.X))
	case *ssa.ChangeInterface:
		d.set(x, d.val(x.X))
	case *ssa.Convert:
		d.set(x, d.convert(d.val(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		d.set(x, &IfaceV{T: x.X.Type(), V: d.val(x.X)})
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = d.val(v)
		}
		d.set(x, &FuncV{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		o := in.newObj(x.Type(), 'm', "map")
		st.put(o, &MapC{K: mt.Key(), V: mt.Elem(), Len: c.Zero})
		d.set(x, &MapV{O: o})
	case *ssa.MakeSlice:
		n, m := d.val(x.Len).(*Expr), d.val(x.Cap).(*Expr)
		d.require(c.And(c.Le(c.Zero, n), c.Le(n, m)), "makeslice: len out of range", x.Pos())
		et := under(x.Type()).(*types.Slice).Elem()
		if in.forgets(et) && !in.inInit {
			d.set(x, &SliceV{Arr: in.anyArray(et), Elem: et, Off: c.Zero, Len: n, Cap: m, Nil: c.False})
			return
		}
		o := in.newObj(et, 'a', "array")
		st.put(o, &SeqV{Elem: et})
		d.set(x, &SliceV{Arr: &Ptr{O: o}, Elem: et, Off: c.Zero, Len: n, Cap: m, Nil: c.False})
	case *ssa.MakeChan:
		o := in.newObj(x.Type(), 'v', "chan")
		st.put(o, c.Zero)
		d.set(x, c.Sym(fmt.Sprintf("chan#%d", o.id), x.Type()))
	case *ssa.Slice:
		d.set(x, d.slice(x))
	case *ssa.FieldAddr:
		p := d.ptr(x.X, x.Pos())
		d.set(x, &Ptr{O: p.O, Path: append(p.Path[:len(p.Path):len(p.Path)], Step{Field: x.Field})})
	case *ssa.Field:
		s, ok := d.val(x.X).(*StructV)
		if !ok {
			panic(stuck{"field of " + showVal(d.val(x.X))})
		}
		d.set(x, s.F[x.Field])
	case *ssa.IndexAddr:
		k := d.val(x.Index).(*Expr)
		switch a := d.val(x.X).(type) {
		case *SliceV:
			d.bounds(k, a.Len, x.Pos())
			d.set(x, &Ptr{O: a.Arr.O, Path: append(a.Arr.Path[:len(a.Arr.Path):len(a.Arr.Path)], Step{Idx: c.Add(a.Off, k)})})
		case *Ptr:
			d.require(c.Not(st.isNil(a)), "nil dereference", x.Pos())
			n := under(elemOf(x.X.Type())).(*types.Array).Len()
			d.bounds(k, c.Int(n), x.Pos())
			d.set(x, &Ptr{O: a.O, Path: append(a.Path[:len(a.Path):len(a.Path)], Step{Idx: k})})
		case *NilV:
			d.bounds(k, c.Zero, x.Pos())
		default:
			panic(stuck{"index of " + showVal(a)})
		}
	case *ssa.Index:
		k := d.val(x.Index).(*Expr)
		switch a := d.val(x.X).(type) {
		case *SeqV:
			n := under(x.X.Type()).(*types.Array).Len()
			d.bounds(k, c.Int(n), x.Pos())
			d.set(x, st.seqRead(a, k))
		case *Expr:
			d.bounds(k, c.Len(a), x.Pos())
			d.set(x, st.byteAt(a, k))
		default:
			panic(stuck{"index of " + showVal(a)})
		}
	case *ssa.Lookup:
		d.set(x, d.lookup(x))
	case *ssa.Range:
		switch a := d.val(x.X).(type) {
		case *Expr:
			o := in.newObj(tInt, 'v', "iter")
			st.put(o, c.Zero)
			d.set(x, &IterV{Str: st.F.find(a), O: o})
		case *MapV:
			o := in.newObj(tInt, 'v', "iter")
			st.put(o, c.Zero)
			mc := &MapC{Len: c.Zero, K: under(x.X.Type()).(*types.Map).Key(), V: under(x.X.Type()).(*types.Map).Elem()}
			if !st.must(st.isNil(a)) {
				mc = st.content(st.alias(a.O)).(*MapC)
			}
			if isBasic(mc.K, types.IsString) {
				for _, s := range in.anyStrs {
					if s = st.F.find(s); st.F.Decide(st.mapHas(mc, s)) == Yes {
						st.posOf(st.mapID(mc), s)
					}
				}
			}
			it := &IterV{M: mc, O: o}
			if in.EnumMaps {
				it = d.enumerated(it, st.alias(a.O), x.Pos())
			}
			d.set(x, it)
		case *NilV:
			o := in.newObj(tInt, 'v', "iter")
			st.put(o, c.Zero)
			mt := under(x.X.Type()).(*types.Map)
			d.set(x, &IterV{M: &MapC{Len: c.Zero, K: mt.Key(), V: mt.Elem()}, O: o})
		default:
			panic(stuck{"range over " + showVal(a)})
		}
	case *ssa.Next:
		d.set(x, d.next(x))
	case *ssa.TypeAssert:
		d.set(x, d.typeAssert(x))
	case *ssa.Extract:
		t, ok := d.val(x.Tuple).(TupleV)
		if !ok {
			panic(stuck{"extract from " + showVal(d.val(x.Tuple))})
		}
		d.set(x, t[x.Index])
	case *ssa.Store:
		p := d.ptr(x.Addr, x.Pos())
		d.store(p, d.val(x.Val))
	case *ssa.MapUpdate:
		m := d.val(x.Map)
		k := d.val(x.Key)
		switch mv := m.(type) {
		case *MapV:
			d.require(c.Not(st.isNil(mv)), "assignment to entry in nil map", x.Pos())
			ke, ok := k.(*Expr)
			if !ok {
				panic(stuck{"map key " + showVal(k)})
			}
			o := st.alias(mv.O)
			st.content(o)
			if in.OnStore != nil {
				in.OnStore(d, o, nil)
			}
			st.put(o, st.mapPut(st.content(o).(*MapC), st.F.find(ke), d.val(x.Value)))
		case *NilV:
			d.require(c.False, "assignment to entry in nil map", x.Pos())
		default:
			panic(stuck{"update of " + showVal(m)})
		}
	case *ssa.Go:
		if in.OnStore != nil { // for what it stores to
			fn, args := d.callee(&x.Call)
			if f, ok := fn.(*FuncV); ok && f.Fn != nil {
				e := d.fork()
				in.call(e, f.Fn, f.Bind, args, x.Pos())
			} else {
				panic(stuck{"go statement"})
			}
		}
	case *ssa.Send:
		// the other goroutine runs on its own; what it reads is the concern of the checks on channels
	case *ssa.Defer:
		fn, args := d.callee(&x.Call)
		d.defers = append(d.defers, deferred{fn, args})
	case *ssa.Call:
		d.callInstr(x)
	default:
		panic(stuck{fmt.Sprintf("instruction %T", ins)})
	}
}

func (d *D) store(p *Ptr, v Val) {
	if d.in.OnStore != nil {
		d.in.OnStore(d, d.st.alias(p.O), p)
	}
	d.st.store(p, v)
}

func (d *D) bounds(k, n *Expr, pos token.Pos) {
	c := d.in.C
	d.require(c.Le(c.Zero, k), "index out of range", pos)
	d.require(c.Lt(k, n), "index out of range", pos)
}

func (d *D) slice(x *ssa.Slice) Val {
	in, st := d.in, d.st
	c := in.C
	opt := func(v ssa.Value, def *Expr) *Expr {
		if v == nil {
			return def
		}
		return d.val(v).(*Expr)
	}
	switch a := d.val(x.X).(type) {
	case *SliceV:
		lo, hi := opt(x.Low, c.Zero), opt(x.High, a.Len)
		mx := opt(x.Max, a.Cap)
		d.require(c.And(c.Le(c.Zero, lo), c.And(c.Le(lo, hi), c.And(c.Le(hi, mx), c.Le(mx, a.Cap)))), "slice bounds out of range", x.Pos())
		return &SliceV{Arr: a.Arr, Elem: a.Elem, Off: c.Add(a.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(mx, lo), Nil: a.Nil}
	case *Ptr: // array
		at := under(elemOf(x.X.Type())).(*types.Array)
		n := c.Int(at.Len())
		lo, hi := opt(x.Low, c.Zero), opt(x.High, n)
		mx := opt(x.Max, n)
		d.require(c.And(c.Le(c.Zero, lo), c.And(c.Le(lo, hi), c.And(c.Le(hi, mx), c.Le(mx, n)))), "slice bounds out of range", x.Pos())
		return &SliceV{Arr: a, Elem: at.Elem(), Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(mx, lo), Nil: c.False}
	case *Expr: // string
		n := c.Len(a)
		lo, hi := opt(x.Low, c.Zero), opt(x.High, n)
		d.require(c.And(c.Le(c.Zero, lo), c.And(c.Le(lo, hi), c.Le(hi, n))), "slice bounds out of range", x.Pos())
		return st.substr(a, lo, hi)
	case *NilV:
		lo, hi := opt(x.Low, c.Zero), opt(x.High, c.Zero)
		d.require(c.And(c.EqI(lo, c.Zero), c.EqI(hi, c.Zero)), "slice bounds out of range", x.Pos())
		return a
	default:
		panic(stuck{"slice of " + showVal(a)})
	}
}

func (d *D) lookup(x *ssa.Lookup) Val {
	st := d.st
	c := d.in.C
	switch a := d.val(x.X).(type) {
	case *Expr:
		k := d.val(x.Index).(*Expr)
		d.bounds(k, c.Len(a), x.Pos())
		return st.byteAt(a, k)
	case *NilV:
		z := d.in.zero(under(x.X.Type()).(*types.Map).Elem())
		if x.CommaOk {
			return TupleV{z, c.False}
		}
		return z
	case *MapV:
		ke, ok := d.val(x.Index).(*Expr)
		if !ok {
			panic(stuck{"map key " + showVal(d.val(x.Index))})
		}
		var v Val
		has := false
		if st.must(st.isNil(a)) {
			v = d.in.zero(under(x.X.Type()).(*types.Map).Elem())
		} else {
			v, has = st.mapGet(st.content(st.alias(a.O)).(*MapC), st.F.find(ke))
		}
		if x.CommaOk {
			return TupleV{v, c.Bool(has)}
		}
		return v
	default:
		panic(stuck{"lookup in " + showVal(a)})
	}
}

func (d *D) next(x *ssa.Next) Val {
	in, st := d.in, d.st
	c := in.C
	it := d.val(x.Iter).(*IterV)
	g := st.content(it.O).(*Expr)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		s := it.Str
		n := c.Len(s)
		if s.Op == OConst {
			if k, ok := g.Int64(); ok {
				str := s.C.(string)
				if k >= int64(len(str)) {
					return TupleV{c.False, c.Zero, c.Zero}
				}
				r, w := decodeRune(str[k:])
				st.put(it.O, c.Int(k+int64(w)))
				return TupleV{c.True, c.Int(k), c.Int(int64(r))}
			}
		}
		if !st.must(c.Lt(g, n)) {
			return TupleV{c.False, c.Zero, c.Zero}
		}
		if r, w, ok := st.runeAt(s, g); ok {
			st.put(it.O, c.AddK(g, w))
			return TupleV{c.True, g, r}
		}
		r := c.App("runeat", types.Typ[types.Int32], s, g)
		w := c.App("runelen", tInt, s, g)
		st.assume(c.Le(c.Add(g, w), n))
		st.put(it.O, c.Add(g, w))
		return TupleV{c.True, g, r}
	}
	if it.Keys != nil {
		n, ok := g.Int64()
		if !ok {
			panic(stuck{"an iteration in a known order is not unrolled"})
		}
		cur := st.content(it.Map).(*MapC)
		for ; int(n) < len(it.Keys); n++ {
			k := it.Keys[n]
			if !st.must(st.mapHas(cur, k)) {
				continue // deleted meanwhile
			}
			v, ok := st.mapGet(cur, k)
			if !ok {
				panic(kill{})
			}
			st.put(it.O, c.Int(n+1))
			return TupleV{c.True, k, v}
		}
	}
	mc := it.M
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	invalid := func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.Invalid }
	if it.Keys != nil || !st.must(c.Lt(g, mc.Len)) {
		t := TupleV{c.False, nil, nil}
		if !invalid(kt) {
			t[1] = in.zero(kt)
		}
		if !invalid(vt) {
			t[2] = in.zero(vt)
		}
		return t
	}
	id := st.mapID(mc)
	key := c.App("keyat", mc.K, id, g)
	var v Val
	if mc.Upd == nil && mc.Base != nil {
		v = in.symVal(c.App("at", mc.V, mc.Base, key), mc.V, mc.Valid)
	} else {
		// the key is one of those which are present
		has := st.mapHas(mc, key)
		st.assume(has)
		var ok bool
		v, ok = st.mapGet(mc, key)
		if !ok {
			panic(kill{})
		}
	}
	st.put(it.O, c.AddK(g, 1))
	if in.R != nil && false {
		_ = in
	}
	return TupleV{c.True, key, v}
}

// enumerated chooses the order in which a map is iterated whose keys are all known, by case distinctions.
func (d *D) enumerated(it *IterV, m *Obj, pos token.Pos) *IterV {
	st, c := d.st, d.in.C
	if it.M.Base != nil || !isBasic(it.M.K, types.IsString) {
		return it
	}
	var us []*MapUpd
	for u := it.M.Upd; u != nil; u = u.Prev {
		if u.All != nil {
			return it
		}
		us = append(us, u)
	}
	var keys []*Expr
	for i := len(us) - 1; i >= 0; i-- {
		k := us[i].Key.(*Expr)
		at := -1
		for j, x := range keys {
			if st.must(st.eqKey(k, x)) {
				at = j
				break
			}
		}
		switch {
		case at >= 0 && us[i].Del:
			keys = append(keys[:at:at], keys[at+1:]...)
		case at < 0 && !us[i].Del:
			keys = append(keys, k)
		}
	}
	if len(keys) > 4 {
		panic(stuck{"iteration of a map with many keys"})
	}
	r := &IterV{O: it.O, Map: m, Keys: []*Expr{}}
	for n := 0; len(keys) > 0; n++ {
		at := 0
		for at < len(keys)-1 && !st.must(c.Sym(fmt.Sprintf("order:%d:%d:%d:%d", pos, len(st.heap), n, at), tBool)) {
			at++
		}
		r.Keys = append(r.Keys, keys[at])
		keys = append(keys[:at:at], keys[at+1:]...)
	}
	y := *it.M
	y.Len = c.Int(int64(len(r.Keys)))
	r.M = &y
	return r
}

// settled is the small number which e is known to be, or e.
func (st *State) settled(e *Expr) *Expr {
	if e.Op == OConst {
		return e
	}
	c := st.in.C
	for k := int64(0); k < 16; k++ {
		if st.F.Decide(c.EqI(e, c.Int(k))) == Yes {
			return c.Int(k)
		}
	}
	return e
}

// runeAt is the character at position k of a text which is written out piece by piece there, and its length.
func (st *State) runeAt(s, k *Expr) (*Expr, int64, bool) {
	c := st.in.C
	s = st.F.find(s)
	switch {
	case s.Op == OConst:
		if n, ok := k.Int64(); ok {
			if x := s.C.(string); n >= 0 && n < int64(len(x)) {
				if r, w := decodeRune(x[n:]); r != 0xFFFD {
					return c.Int(int64(r)), int64(w), true
				}
			}
		}
	case s.Op != OApp:
	case s.Name == "chr" && k == c.Zero:
		if st.must(c.Lt(s.Args[0], c.Int(0x80))) {
			return s.Args[0], 1, true
		}
	case s.Name == "runestr" && k == c.Zero:
		r := s.Args[0]
		if st.must(c.Lt(r, c.Zero)) || st.must(c.Lt(c.Int(0x10FFFF), r)) {
			r = c.Int(0xFFFD)
		} else if !st.must(c.Lt(r, c.Int(0xD800))) && st.must(c.Lt(r, c.Int(0xE000))) {
			r = c.Int(0xFFFD)
		}
		w := int64(1)
		for _, l := range []int64{0x80, 0x800, 0x10000} {
			if st.must(c.Lt(r, c.Int(l))) {
				break
			}
			w++
		}
		st.assume(c.EqI(c.Len(s), c.Int(w)))
		return r, w, true
	case s.Name == "concat":
		l := c.Len(s.Args[0])
		if st.must(c.Lt(k, l)) {
			return st.runeAt(s.Args[0], k)
		}
		return st.runeAt(s.Args[1], st.settled(c.Sub(k, l)))
	}
	return nil, 0, false
}

func (d *D) typeAssert(x *ssa.TypeAssert) Val {
	in, st := d.in, d.st
	c := in.C
	T := x.AssertedType
	fail := func() Val {
		if x.CommaOk {
			return TupleV{in.zero(T), c.False}
		}
		d.require(c.False, "failed type assertion", x.Pos())
		panic(kill{})
	}
	okv := func(v Val) Val {
		if x.CommaOk {
			return TupleV{v, c.True}
		}
		return v
	}
	it, isI := under(T).(*types.Interface)
	switch v := d.val(x.X).(type) {
	case *NilV:
		return fail()
	case *IfaceV:
		if isI {
			if types.Implements(v.T, it) {
				return okv(v)
			}
			return fail()
		}
		if types.Identical(v.T, T) {
			return okv(v.V)
		}
		return fail()
	case *Expr:
		v = st.F.find(v)
		if st.must(c.App("isnil", tBool, v)) {
			return fail()
		}
		if isI {
			if st.must(c.App("impl:"+T.String(), tBool, v)) {
				return okv(v)
			}
			return fail()
		}
		if st.must(c.EqI(c.App("dyntype", tInt, v), c.Int(in.tid(T)))) {
			return okv(in.symVal(c.App("as:"+T.String(), T, v), T, false))
		}
		return fail()
	default:
		panic(stuck{"type assertion on " + showVal(v)})
	}
}

// callee evaluates the function and the arguments of a call.
func (d *D) callee(cc *ssa.CallCommon) (Val, []Val) {
	in, st := d.in, d.st
	args := make([]Val, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		recv := d.val(cc.Value)
		switch r := recv.(type) {
		case *IfaceV:
			if rt, ok := r.V.(*RT); ok {
				for _, a := range cc.Args {
					args = append(args, d.val(a))
				}
				return &libMethod{cc.Method.Name(), rt}, args
			}
			m := in.P.Prog.LookupMethod(r.T, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				panic(stuck{"method " + cc.Method.Name() + " of " + r.T.String()})
			}
			args = append(args, r.V)
			for _, a := range cc.Args {
				args = append(args, d.val(a))
			}
			return &FuncV{Fn: m}, args
		case *NilV:
			d.require(in.C.False, "nil interface", cc.Pos())
			panic(kill{})
		case *Expr:
			d.require(in.C.Not(st.isNil(r)), "nil interface", cc.Pos())
			for _, a := range cc.Args {
				args = append(args, d.val(a))
			}
			return in.C.App("method:"+cc.Method.Name(), cc.Method.Type(), r), args
		}
		panic(stuck{"method call on " + showVal(recv)})
	}
	for _, a := range cc.Args {
		args = append(args, d.val(a))
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		return &FuncV{Fn: f}, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b, args
	}
	return d.val(cc.Value), args
}

type libMethod struct {
	name string
	recv Val
}

func (d *D) callInstr(x *ssa.Call) {
	in := d.in
	fv, args := d.callee(&x.Call)
	switch f := fv.(type) {
	case *ssa.Builtin:
		d.set(x, d.builtin(f.Name(), args, x))
	case *FuncV:
		bind := f.Bind
		fn := f.Fn
		pos := x.Pos()
		d.pend = &pendCall{args: args, special: func(d *D, args []Val) []outcome { return in.call(d, fn, bind, args, pos) }}
	case *NilV:
		d.require(in.C.False, "call of a nil function", x.Pos())
		panic(kill{})
	case *Expr:
		d.require(in.C.Not(d.st.isNil(f)), "call of a nil function", x.Pos())
		d.pend = &pendCall{args: args, special: func(d *D, args []Val) []outcome { return in.opaqueCall(d, f, args) }}
	case *libMethod:
		d.set(x, in.reflectMethod(d, f.name, f.recv, args, x.Call.Method.Type().(*types.Signature)))
	default:
		panic(stuck{"call of " + showVal(fv)})
	}
}

func (d *D) builtin(name string, args []Val, x *ssa.Call) Val {
	in, st := d.in, d.st
	c := in.C
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			return a.Len
		case *Expr:
			return c.Len(st.F.find(a))
		case *NilV:
			return c.Zero
		case *MapV:
			if st.must(st.isNil(a)) {
				return c.Zero
			}
			l := st.content(st.alias(a.O)).(*MapC).Len
			st.assume(c.Le(c.Zero, l))
			return l
		case *Ptr:
			if at, ok := under(a.O.T).(*types.Array); ok {
				return c.Int(at.Len())
			}
		case *SeqV:
			return a.N
		}
	case "cap":
		switch a := args[0].(type) {
		case *SliceV:
			return a.Cap
		case *NilV:
			return c.Zero
		}
	case "append":
		return d.appendV(args[0], args[1], x.Type())
	case "copy":
		return d.copyV(args[0], args[1])
	case "delete":
		ke, ok := args[1].(*Expr)
		if !ok {
			panic(stuck{"map key " + showVal(args[1])})
		}
		switch m := args[0].(type) {
		case *MapV:
			if !st.must(st.isNil(m)) {
				o := st.alias(m.O)
				st.content(o)
				if in.OnStore != nil {
					in.OnStore(d, o, nil)
				}
				st.put(o, st.mapPut(st.content(o).(*MapC), st.F.find(ke), nil))
			}
		}
		return nil
	case "close", "print", "println":
		return nil
	case "min", "max":
		a, b := args[0].(*Expr), args[1].(*Expr)
		if len(args) == 2 && (a.T == nil || !isBasicFloat(a.T)) {
			if st.must(c.Le(a, b)) == (name == "min") {
				return a
			}
			return b
		}
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return in.zero(x.Type())
	}
	panic(stuck{"builtin " + name + " of " + showVal(args[0])})
}

// asSeq views a slice or string as a sequence with offset and length.
func (d *D) asSeq(v Val) (q *SeqV, off, n *Expr) {
	c := d.in.C
	switch a := v.(type) {
	case *SliceV:
		return d.st.load(a.Arr, nil).(*SeqV), a.Off, a.Len
	case *NilV:
		return &SeqV{}, c.Zero, c.Zero
	case *Expr:
		return &SeqV{Base: c.App("bytesof", tString, a), Elem: tByte}, c.Zero, c.Len(a)
	}
	panic(stuck{"sequence " + showVal(v)})
}

func (d *D) appendV(a, b Val, T types.Type) Val {
	in, st := d.in, d.st
	c := in.C
	et := under(T).(*types.Slice).Elem()
	src, off, n := d.asSeq(b)
	if n == c.Zero {
		return a
	}
	var s *SliceV
	switch x := a.(type) {
	case *SliceV:
		s = x
	case *NilV:
		o := in.newObj(et, 'a', "append")
		st.put(o, &SeqV{Elem: et})
		s = &SliceV{Arr: &Ptr{O: o}, Elem: et, Off: c.Zero, Len: c.Zero, Cap: c.Zero, Nil: c.True}
	default:
		panic(stuck{"append to " + showVal(a)})
	}
	newLen := c.Add(s.Len, n)
	if in.forgets(et) && !in.inInit {
		// whatever it was, it is one of the arrays of which nothing is known
		cp := in.fresh("cap", tInt)
		st.assume(c.Le(newLen, cp))
		return &SliceV{Arr: in.anyArray(et), Elem: et, Off: c.Zero, Len: newLen, Cap: cp, Nil: c.False}
	}
	// elements to write
	write := func(q *SeqV, to *Expr) *SeqV {
		if k, ok := n.Int64(); ok && k <= 8 {
			for i := int64(0); i < k; i++ {
				q = q.write(c.AddK(to, i), st.seqRead(src, c.AddK(off, i)))
			}
			return q
		}
		return q.with(&SeqUpd{Src: src, To: to, From: off, N: n})
	}
	if st.F.Decide(c.EqI(n, c.Zero)) == Yes {
		return a
	}
	// within the capacity the array is shared, else it is copied
	if st.must(c.Le(newLen, s.Cap)) {
		q := st.load(s.Arr, nil).(*SeqV)
		if in.OnStore != nil {
			in.OnStore(d, st.alias(s.Arr.O), s.Arr)
		}
		st.store(s.Arr, write(q, c.Add(s.Off, s.Len)))
		return &SliceV{Arr: s.Arr, Elem: et, Off: s.Off, Len: newLen, Cap: s.Cap, Nil: c.False}
	}
	q := st.load(s.Arr, nil).(*SeqV)
	o := in.newObj(et, 'a', "append")
	nq := &SeqV{Elem: et}
	if s.Off == c.Zero {
		y := *q
		nq = &y
	} else if s.Len != c.Zero {
		nq = nq.with(&SeqUpd{Src: q, To: c.Zero, From: s.Off, N: s.Len})
	}
	st.put(o, write(nq, s.Len))
	cp := in.fresh("cap", tInt)
	st.assume(c.Le(newLen, cp))
	return &SliceV{Arr: &Ptr{O: o}, Elem: et, Off: c.Zero, Len: newLen, Cap: cp, Nil: c.False}
}

func (d *D) copyV(a, b Val) Val {
	in, st := d.in, d.st
	c := in.C
	dst, ok := a.(*SliceV)
	if !ok {
		return c.Zero
	}
	src, off, n := d.asSeq(b)
	m := n
	if st.must(c.Le(dst.Len, n)) {
		m = dst.Len
	}
	if m == c.Zero {
		return c.Zero
	}
	if in.OnStore != nil {
		in.OnStore(d, st.alias(dst.Arr.O), dst.Arr)
	}
	if in.forgets(dst.Elem) {
		return m
	}
	q := st.load(dst.Arr, nil).(*SeqV)
	st.store(dst.Arr, q.with(&SeqUpd{Src: src, To: dst.Off, From: off, N: m}))
	return m
}

func isIntrinsic(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported() && fn.Signature.Recv() == nil && !strings.HasPrefix(o.Name(), "Spec")
}

func sameRecs(a, b []*FuncV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// late tells whether the time of the run is used up.
func (in *Interp) late() bool {
	return in.deadline != nil && time.Now().UnixNano() > atomic.LoadInt64(in.deadline)
}

// hurry is called at a failure: the verdict is clear, and only some more time is spent on further reports.
func (in *Interp) hurry() {
	if in.deadline == nil || in.quiet > 0 || in.cs != nil {
		return
	}
	t := time.Now().Add(20 * time.Second).UnixNano()
	if t < atomic.LoadInt64(in.deadline) {
		atomic.StoreInt64(in.deadline, t)
	}
}
