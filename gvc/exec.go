package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fv   Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	ret    func(st *State, res []Val)
	loops  map[*ssa.BasicBlock]*loopCtx
	inside map[*ssa.BasicBlock]bool // dry loop run: stop outside of these blocks
	visits map[*ssa.BasicBlock]int  // unrolled loops
	depth  int
	stack  string // static inline stack
	parent *Frame
	args   []Val
	st0    *State // at entry
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	if f.visits != nil {
		n.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			n.visits[k] = v
		}
	}
	return &n
}

type Obl struct {
	name    string // function + clause
	fn      string
	kind    string
	tags    []string
	pos     string
	assumes []*Term
	goal    *Term
	trace   []string
	// result
	res    Result
	solver string
	detail string
	ms     int64
	query  string
}

type Exec struct {
	v          *Verifier
	prog       *ssa.Program
	bv         bool
	compSorts  map[string]Sort
	subIDs     map[string]int
	funcTerms  map[*Term]FuncV
	cellPtrs   map[*Term]PtrV
	nextCell   int
	dry        int
	logs       []*writeLog
	obls       []*Obl
	root       *Contract
	rootFn     *ssa.Function
	rootKey    string
	entry      *State // state at entry of the root function
	rootEnv    map[string]SVal
	exitStates [][]*Term
	caller     *Frame          // the frame of the call being entered
	used       map[string]bool // contracts used
	paths      int
	exits      int
	nrefs      map[*Term]bool // symbols standing for the allocation counter
	maxPaths   int
	loopStats  []string
	loopObls   []*Obl
	inlined    map[string]bool
	curBase    int
	collect    int
	initMode   bool
	stableUsed map[string]bool
	gone       map[string]map[string]bool // loop candidates that failed
	fast       bool                       // leave out the candidates that failed on other paths
	shortcut   bool                       // some were left out
}

func newExec(v *Verifier) *Exec {
	return &Exec{v: v, prog: v.prog, compSorts: v.compSorts, subIDs: v.subIDs,
		funcTerms: map[*Term]FuncV{}, cellPtrs: map[*Term]PtrV{}, used: map[string]bool{}, nrefs: map[*Term]bool{}, maxPaths: 20000, inlined: map[string]bool{}, stableUsed: map[string]bool{}, gone: map[string]map[string]bool{}}
}

func recvTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "*" + recvBase(p.Elem())
	}
	return recvBase(t)
}

func recvBase(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// funcKey is the name of a function in contracts.
func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		return fmt.Sprintf("%s.(%s).%s", pkg, recvTypeName(r.Type()), fn.Name())
	}
	return pkg + "." + fn.Name()
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := ex.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- obligations ----

func (ex *Exec) oblige(st *State, goal *Term, kind, name string, pos token.Pos) {
	if goal == True || st.dead {
		return
	}
	if ex.dry == 0 {
		var tr []string
		for n := st.trace; n != nil; n = n.prev {
			tr = append(tr, n.s)
		}
		ex.obls = append(ex.obls, &Obl{name: name, fn: ex.rootKey, kind: kind, pos: ex.pos(pos), assumes: st.assumptions(), goal: goal, trace: tr})
	}
	st.assume(goal)
}

// panicCheck is an obligation only when the run decides crash freedom.
func (ex *Exec) panicCheck(st *State, goal *Term, what string, fr *Frame, pos token.Pos) {
	if goal == True {
		return
	}
	if ex.wantPanics() {
		ex.oblige(st, goal, "panic", funcKey(fr.fn)+" "+what, pos)
	} else {
		st.assume(goal)
	}
}

// ---- blocks ----

func (ex *Exec) callBody(fn *ssa.Function, args []Val, binds []Val, st *State, depth int, stack string, k func(*State, []Val)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", funcKey(fn))
	}
	if depth > 30 {
		unsup("inlining too deep at %s", funcKey(fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: k, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: depth, stack: stack, parent: ex.caller, args: args}
	ex.caller = nil
	if fr.parent != nil && ex.v.spec.contracts[funcKey(fn)] != nil {
		fr.st0 = st.clone()
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	ex.block(fr, fn.Blocks[0], nil, st)
}

func (ex *Exec) block(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	if fr.inside != nil && !fr.inside[b] {
		return
	}
	if b.Comment == "recover" {
		return
	}
	// loops
	if info := ex.v.loopInfo(fr.fn); prev != nil || len(b.Preds) > 0 {
		if L := info.headers[b]; L != nil {
			if prev != nil && L.blocks[prev] {
				// back edge
				if lc := fr.loops[b]; lc != nil {
					vals := map[ssa.Value]Val{}
					ex.phiVals(fr, b, prev, vals)
					lc.back(st, fr, vals)
					return
				}
				// unrolled loop
				fr.visits[b]++
				if fr.visits[b] > ex.root.unroll {
					ex.oblige(st, False, "unwind", funcKey(fr.fn)+" loop ends within the unrolling", b.Instrs[0].Pos())
					return
				}
			} else {
				if ex.bv {
					if fr.visits == nil {
						fr.visits = map[*ssa.BasicBlock]int{}
					}
					fr.visits[b] = 0
				} else {
					ex.enterLoop(fr, L, prev, st)
					return
				}
			}
		}
	}
	ex.enterBlock(fr, b, prev, st)
}

func (ex *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock, out map[ssa.Value]Val) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[phi] = ex.val(fr, phi.Edges[pi])
	}
}

func (ex *Exec) enterBlock(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	vals := map[ssa.Value]Val{}
	if prev != nil {
		ex.phiVals(fr, b, prev, vals)
	}
	for k, v := range vals {
		fr.env[k] = v
	}
	ex.instrs(fr, b, 0, st)
}

func (ex *Exec) setVal(fr *Frame, v ssa.Value, x Val) {
	fr.env[v] = x
}

func (ex *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.val(fr, in.Cond).(TV).T
			if c == True {
				ex.block(fr, b.Succs[0], b, st)
				return
			}
			if c == False {
				ex.block(fr, b.Succs[1], b, st)
				return
			}
			if st.has(c) {
				ex.block(fr, b.Succs[0], b, st)
				return
			}
			if st.has(Not(c)) {
				ex.block(fr, b.Succs[1], b, st)
				return
			}
			if ex.initMode {
				// library-dependent branches only choose values of variables
				// that are not treated as stable
				ex.initJoin(fr, b, c, st)
				return
			}
			ex.paths++
			if ex.paths > ex.maxPaths {
				unsup("too many paths")
			}
			fr2, st2 := fr.clone(), st.clone()
			st.assume(c)
			st2.assume(Not(c))
			ln := ex.pos(in.Cond.Pos())
			st.trace = &traceNode{ln + " true", st.trace}
			st2.trace = &traceNode{ln + " false", st2.trace}
			if ex.feasible(st) {
				ex.block(fr, b.Succs[0], b, st)
			}
			if ex.feasible(st2) {
				ex.block(fr2, b.Succs[1], b, st2)
			}
			return
		case *ssa.Jump:
			ex.block(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			if fr.inside != nil {
				return
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(fr, r))
			}
			fr.ret(st, res)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			ex.runDefers(fr, ds, st, func(fr2 *Frame, st2 *State) {
				ex.instrs(fr2, b, i+1, st2)
			})
			return
		case *ssa.Panic:
			ex.panicCheck(st, False, "explicit panic", fr, in.Pos())
			return
		case *ssa.Call:
			ex.call(fr, in.Common(), in, st, in.Pos(), func(fr2 *Frame, st2 *State, res []Val) {
				if len(res) == 1 {
					ex.setVal(fr2, in, res[0])
				} else {
					ex.setVal(fr2, in, TupleV(res))
				}
				ex.instrs(fr2, b, i+1, st2)
			})
			return
		case *ssa.Defer:
			d := deferred{call: in.Common(), pos: in.Pos()}
			for _, a := range in.Call.Args {
				d.args = append(d.args, ex.val(fr, a))
			}
			d.fv = ex.val(fr, in.Call.Value)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			unsup("go statement in %s", funcKey(fr.fn))
		case *ssa.Store:
			p := ex.val(fr, in.Addr)
			l := ex.deref(fr, st, p, in.Addr.Type(), in.Pos())
			ex.store(st, l, ex.val(fr, in.Val))
			if l.kind == lGlobal && !ex.initMode {
				ex.checkGinv(fr, st, l.glob, in.Pos())
			}
		case *ssa.MapUpdate:
			ex.mapUpdate(fr, st, in)
		case *ssa.Send, *ssa.Select:
			unsup("channel operation in %s", funcKey(fr.fn))
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsup("instruction %T", in)
			}
			ex.setVal(fr, v, ex.value(fr, st, v))
		}
	}
}

func (ex *Exec) runDefers(fr *Frame, ds []deferred, st *State, k func(*Frame, *State)) {
	if len(ds) == 0 {
		k(fr, st)
		return
	}
	d := ds[len(ds)-1]
	ex.callWith(fr, d.call, d.fv, d.args, nil, st, d.pos, func(fr2 *Frame, st2 *State, _ []Val) {
		ex.runDefers(fr2, ds[:len(ds)-1], st2, k)
	})
}

// deref turns a pointer value into a location, checking for nil.
func (ex *Exec) deref(fr *Frame, st *State, p Val, t types.Type, pos token.Pos) Loc {
	switch x := p.(type) {
	case PtrV:
		if x.loc.kind == lObj && x.loc.path == "" {
			ex.panicCheck(st, Not(Eq(x.loc.ref, Int(0))), "nil dereference", fr, pos)
		}
		return x.loc
	}
	unsup("dereference of %T (%s) in %s", p, t, funcKey(fr.fn))
	return Loc{}
}

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return PtrV{Loc{kind: lGlobal, glob: globalName(x), typ: x.Type().(*types.Pointer).Elem()}}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s = %s in %s", v.Name(), v, funcKey(fr.fn))
	}
	return r
}

func globalName(g *ssa.Global) string {
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if tt, ok := t.(*types.Basic); ok && tt.Kind() == types.UntypedNil {
			return TV{Int(0)}
		}
		return ex.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return TV{BoolConst(constant.BoolVal(c.Value))}
	case constant.String:
		return TV{StrLit(constant.StringVal(c.Value))}
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ex.scalarSort(t) == SBV {
			if !n.IsInt64() {
				unsup("constant %s", n)
			}
			return TV{BVConst(n.Int64())}
		}
		return TV{BigInt(n)}
	}
	unsup("constant %s", c)
	return nil
}

func (ex *Exec) alloc(st *State) *Term {
	r := st.nextref
	st.nextref = Add(st.nextref, Int(1))
	for _, l := range ex.logs {
		l.alloc = true
	}
	return r
}

func (ex *Exec) newObject(st *State, t types.Type) PtrV {
	ref := ex.alloc(st)
	l := Loc{kind: lObj, ref: ref, root: t, typ: t}
	ex.zeroObj(st, l)
	return PtrV{l}
}

// modelTypes are library types represented by ghost state only.
var modelTypes = map[string]bool{"strings.Builder": true, "strings.Reader": true, "bufio.Writer": true, "sync.Mutex": true, "tty.TTY": true, "os.File": true}

func (ex *Exec) zeroObj(st *State, l Loc) {
	name := typeName(l.typ)
	switch name {
	case "strings.Builder":
		w := App("I.*strings.Builder", SIface, l.ref)
		c := ex.comp(st, "g:Out", ArraySort(SIface, SStr))
		ex.setComp(st, "g:Out", Store(c, w, StrLit("")), w)
		return
	case "sync.Mutex":
		c := ex.comp(st, "g:Locked", ArraySort(SInt, SInt))
		ex.setComp(st, "g:Locked", Store(c, l.ref, Int(0)), l.ref)
		return
	}
	if modelTypes[name] {
		return
	}
	u, ok := under(l.typ).(*types.Struct)
	if !ok {
		// array object
		if at, ok := under(l.typ).(*types.Array); ok {
			for _, lf := range ex.leaves(at.Elem()) {
				cn := "E:" + typeName(at.Elem()) + lf.suffix
				c := ex.comp(st, cn, ex.compSort(cn, lf.sort))
				ex.setComp(st, cn, Store(c, l.ref, ConstArr(ArraySort(SInt, lf.sort), zeroOf(lf.sort))), l.ref)
			}
			return
		}
		unsup("new object of type %s", l.typ)
	}
	for _, g := range ex.v.spec.ginits[name] {
		env := &sEnv{ex: ex, vars: map[string]SVal{}, st: st, old: st, sink: st}
		ex.ghostSet(st, "g:"+g.ghost, l.ref, env.term(env.eval(g.c.expr)))
	}
	for i := 0; i < u.NumFields(); i++ {
		fl := ex.fieldLoc(l, i)
		if fl.path == "" {
			ex.zeroObj(st, fl)
		} else {
			ex.store(st, fl, ex.zero(fl.typ))
		}
	}
}

func (ex *Exec) value(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if isStructT(t) && x.Heap || func() bool { _, ok := under(t).(*types.Array); return ok }() {
			return ex.newObject(st, t)
		}
		if isStructT(t) && modelTypes[typeName(t)] {
			return ex.newObject(st, t)
		}
		ex.nextCell++
		st.cells[ex.nextCell] = ex.zero(t)
		for _, l := range ex.logs {
			l.cells[ex.nextCell] = true
		}
		return PtrV{Loc{kind: lCell, cell: ex.nextCell, typ: t}}
	case *ssa.BinOp:
		return ex.binop(fr, st, x)
	case *ssa.UnOp:
		return ex.unop(fr, st, x)
	case *ssa.ChangeType:
		a := ex.val(fr, x.X)
		switch y := a.(type) {
		case StructV:
			return StructV{x.Type(), y.f}
		case ArrayV:
			return ArrayV{x.Type(), y.e}
		}
		return a
	case *ssa.ChangeInterface:
		return ex.val(fr, x.X)
	case *ssa.MakeInterface:
		return TV{ex.makeIface(x.X.Type(), ex.val(fr, x.X))}
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, x)
	case *ssa.Extract:
		return ex.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		return ex.val(fr, x.X).(StructV).f[x.Field]
	case *ssa.FieldAddr:
		p := ex.val(fr, x.X)
		l := ex.deref(fr, st, p, x.X.Type(), x.Pos())
		return PtrV{ex.fieldLoc(l, x.Field)}
	case *ssa.IndexAddr:
		return ex.indexAddr(fr, st, x)
	case *ssa.Index:
		a := ex.val(fr, x.X)
		i := ex.val(fr, x.Index).(TV).T
		if av, ok := a.(ArrayV); ok {
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(av.e) {
				return av.e[n]
			}
			unsup("symbolic index into an array value")
		}
		s := a.(TV).T
		ex.panicCheck(st, And(Le(Int(0), i), Lt(i, slen(s))), "string index out of range", fr, x.Pos())
		return ex.strIndex(st, s, i)
	case *ssa.Lookup:
		return ex.lookup(fr, st, x)
	case *ssa.Slice:
		return ex.slice(fr, st, x)
	case *ssa.MakeSlice:
		t := x.Type()
		n := ex.val(fr, x.Len).(TV).T
		c := ex.val(fr, x.Cap).(TV).T
		ex.panicCheck(st, And(Le(Int(0), n), Le(n, c)), "make: negative length", fr, x.Pos())
		ref := ex.alloc(st)
		el := under(t).(*types.Slice).Elem()
		for _, lf := range ex.leaves(el) {
			cn := "E:" + typeName(el) + lf.suffix
			cp := ex.comp(st, cn, ex.compSort(cn, lf.sort))
			ex.setComp(st, cn, Store(cp, ref, ConstArr(ArraySort(SInt, lf.sort), zeroOf(lf.sort))), ref)
		}
		return SliceV{ref, Int(0), n, c, el}
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		ref := ex.alloc(st)
		dn, vn, ks, vs := ex.mapComps(mt)
		d := ex.comp(st, dn, ArraySort(SInt, ArraySort(ks, SBool)))
		ex.setComp(st, dn, Store(d, ref, ConstArr(ArraySort(ks, SBool), False)), ref)
		_ = vn
		_ = vs
		return TV{ref}
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(fr, b))
		}
		return f
	case *ssa.Convert:
		return ex.convert(fr, st, x)
	case *ssa.Range:
		if s, ok := ex.val(fr, x.X).(TV); ok && s.T.sort == SStr {
			ex.nextCell++
			st.cells[ex.nextCell] = TV{Int(0)}
			for _, l := range ex.logs {
				l.cells[ex.nextCell] = true
			}
			return IterV{ex.nextCell, s.T}
		}
		unsup("range over %s", x.X.Type())
	case *ssa.Next:
		it := ex.val(fr, x.Iter).(IterV)
		p := st.cells[it.cell].(TV).T
		st.assume(And(Le(Int(0), p), Le(p, slen(it.str))))
		ok := Lt(p, slen(it.str))
		rest := ssub(it.str, p, slen(it.str))
		r := App("drune", SInt, rest)
		sz := App("dsize", SInt, rest)
		st.assume(Imp(ok, And(Le(Int(1), sz), Le(sz, Sub(slen(it.str), p)), Le(Int(0), r), Le(r, Int(0x10FFFF)))))
		// prefix step
		st.assume(Imp(ok, Eq(ssub(it.str, Int(0), Add(p, sz)), scat(ssub(it.str, Int(0), p), ssub(it.str, p, Add(p, sz))))))
		st.assume(Imp(ok, Eq(rest, scat(ssub(it.str, p, Add(p, sz)), ssub(it.str, Add(p, sz), slen(it.str))))))
		np := Ite(ok, Add(p, sz), p)
		st.cells[it.cell] = TV{np}
		for _, l := range ex.logs {
			l.cells[it.cell] = true
		}
		return TupleV{TV{ok}, TV{p}, TV{r}}
	}
	unsup("instruction %T in %s", v, funcKey(fr.fn))
	return nil
}

func slen(s *Term) *Term {
	if s.lit != nil {
		return Int(int64(len(*s.lit)))
	}
	return App("slen", SInt, s)
}

func scat(a, b *Term) *Term {
	if a.lit != nil && *a.lit == "" {
		return b
	}
	if b.lit != nil && *b.lit == "" {
		return a
	}
	if a.lit != nil && b.lit != nil {
		return StrLit(*a.lit + *b.lit)
	}
	if a.op == "scat" && !a.isVar {
		return scat(a.args[0], scat(a.args[1], b))
	}
	if a.lit != nil && b.op == "scat" && !b.isVar && b.args[0].lit != nil {
		return scat(StrLit(*a.lit+*b.args[0].lit), b.args[1])
	}
	return App("scat", SStr, a, b)
}

func sunit(b *Term) *Term {
	if n, ok := b.intVal(); ok && n >= 0 && n < 256 {
		return StrLit(string([]byte{byte(n)}))
	}
	return App("sunit", SStr, b)
}

func ssub(s, i, j *Term) *Term {
	if n, ok := i.intVal(); ok && n == 0 && j == slen(s) {
		return s
	}
	if s.lit != nil {
		a, ok1 := i.intVal()
		b, ok2 := j.intVal()
		if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(*s.lit) {
			return StrLit((*s.lit)[a:b])
		}
	}
	if i == j {
		return StrLit("")
	}
	return App("ssub", SStr, s, i, j)
}

func (ex *Exec) strIndex(st *State, s, i *Term) Val {
	if s.lit != nil {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(*s.lit) {
			return TV{Int(int64((*s.lit)[n]))}
		}
	}
	b := App("sat", SInt, s, i)
	st.assume(And(Le(Int(0), b), Le(b, Int(255))))
	st.assume(Imp(And(Le(Int(0), i), Lt(i, slen(s))), Eq(ssub(s, Int(0), Add(i, Int(1))), scat(ssub(s, Int(0), i), sunit(b)))))
	return TV{b}
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := ex.val(fr, x.X)
		l := ex.deref(fr, st, p, x.X.Type(), x.Pos())
		if l.kind == lGlobal {
			if g, ok := x.X.(*ssa.Global); ok {
				if v, ok := ex.v.stableGlobal(ex, g); ok {
					return v
				}
			}
		}
		if l.kind == lObj {
			if v, ok := ex.v.stableField(ex, l); ok {
				return v
			}
		}
		v := ex.load(st, l, true)
		ex.loadHint(st, l, v)
		return v
	case token.NOT:
		return TV{Not(ex.val(fr, x.X).(TV).T)}
	case token.SUB:
		t := ex.val(fr, x.X).(TV).T
		if t.sort == SBV {
			return TV{mk("bvneg", SBV, t)}
		}
		return TV{ex.wrap(x.Type(), Sub(Int(0), t))}
	case token.XOR:
		t := ex.val(fr, x.X).(TV).T
		if t.sort == SBV {
			return TV{mk("bvnot", SBV, t)}
		}
		return TV{ex.wrap(x.Type(), Sub(Int(-1), t))}
	}
	unsup("unary %s", x.Op)
	return nil
}

// loadHint relates an element that was read with the sequence it is part of:
// the prefix up to and including it is the prefix before it plus the element.
func (ex *Exec) loadHint(st *State, l Loc, v Val) {
}

// elemHint is called when an element of a slice is addressed.
func (ex *Exec) elemHint(st *State, s SliceV, i *Term) {
	for _, lf := range ex.leaves(s.elem) {
		k := ex.elemSeqKind(lf.sort, s.elem)
		if k == "" {
			continue
		}
		if !ex.v.seqUsed("E:" + typeName(s.elem) + lf.suffix) {
			continue
		}
		cn := "E:" + typeName(s.elem) + lf.suffix
		arr := Select(ex.comp(st, cn, ex.compSort(cn, lf.sort)), s.base)
		e := Select(arr, Add(s.off, i))
		st.assume(Eq(seqOf(k, arr, s.off, Add(i, Int(1))), seqCat(k, seqOf(k, arr, s.off, i), seqUnit(k, e))))
		if whole := seqOf(k, arr, s.off, s.len); k != "B" && whole.op == "of."+k {
			st.assume(Eq(App("idx."+k, e.sort, whole, i), e))
		}
	}
}

// sliceHint relates the sequence of a slice to that of the whole.
func (ex *Exec) sliceHint(st *State, s, r SliceV, lo, hi *Term) {
	for _, lf := range ex.leaves(s.elem) {
		k := ex.elemSeqKind(lf.sort, s.elem)
		cn := "E:" + typeName(s.elem) + lf.suffix
		if k == "" || k == "B" || !ex.v.seqUsed(cn) {
			continue
		}
		arr := Select(ex.comp(st, cn, ex.compSort(cn, lf.sort)), s.base)
		whole, part := seqOf(k, arr, s.off, s.len), seqOf(k, arr, r.off, r.len)
		if whole.op != "of."+k || part.op != "of."+k {
			continue
		}
		rhs := whole
		if hi != s.len {
			rhs = App("take."+k, whole.sort, rhs, hi)
		}
		if lo != Int(0) {
			rhs = App("drop."+k, whole.sort, rhs, lo)
		}
		if rhs != whole {
			st.assume(Imp(Le(hi, s.len), Eq(part, rhs)))
		}
	}
}

func (ex *Exec) elemSeqKind(s Sort, elem types.Type) string {
	if b, ok := under(elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "B"
	}
	if s == SBV {
		return ""
	}
	return seqKind(s, elem)
}

func seqOf(k string, arr, off, n *Term) *Term {
	if k == "B" {
		if n.num != nil && n.num.Sign() == 0 {
			return StrLit("")
		}
		if m, ok := n.intVal(); ok && m <= 8 && m > 0 {
			s := StrLit("")
			for i := int64(0); i < m; i++ {
				s = scat(s, sunit(Select(arr, Add(off, Int(i)))))
			}
			return s
		}
		return App("sofarr", SStr, arr, off, n)
	}
	if n.num != nil && n.num.Sign() == 0 {
		return mk("nil."+k, seqSort(k))
	}
	if m, ok := n.intVal(); ok && m == 1 {
		return seqUnit(k, Select(arr, off))
	}
	return App("of."+k, seqSort(k), arr, off, n)
}

func seqCat(k string, a, b *Term) *Term {
	if k == "B" {
		return scat(a, b)
	}
	if a.op == "nil."+k {
		return b
	}
	if b.op == "nil."+k {
		return a
	}
	if a.op == "cat."+k && !a.isVar {
		return seqCat(k, a.args[0], seqCat(k, a.args[1], b))
	}
	return App("cat."+k, seqSort(k), a, b)
}

func seqUnit(k string, e *Term) *Term {
	if k == "B" {
		return sunit(e)
	}
	return App("unit."+k, seqSort(k), e)
}

func (ex *Exec) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	a := ex.val(fr, x.X)
	i := ex.val(fr, x.Index).(TV).T
	if i.sort == SBV {
		i = BVToInt(i)
	}
	switch s := a.(type) {
	case SliceV:
		ex.panicCheck(st, And(Le(Int(0), i), Lt(i, s.len)), "index out of range", fr, x.Pos())
		ex.elemHint(st, s, i)
		return PtrV{Loc{kind: lElem, ref: s.base, idx: Add(s.off, i), root: s.elem, typ: s.elem}}
	case PtrV:
		l := ex.deref(fr, st, a, x.X.Type(), x.Pos())
		at := under(l.typ).(*types.Array)
		if isArrayObj(l) {
			ex.panicCheck(st, And(Le(Int(0), i), Lt(i, Int(at.Len()))), "index out of range", fr, x.Pos())
			return PtrV{Loc{kind: lElem, ref: l.ref, idx: i, root: at.Elem(), typ: at.Elem()}}
		}
		if n, ok := i.intVal(); ok {
			if n < 0 || n >= at.Len() {
				ex.panicCheck(st, False, "index out of range", fr, x.Pos())
			}
			return PtrV{ex.constIndexLoc(l, n)}
		}
		unsup("symbolic index into an array")
	}
	unsup("IndexAddr of %T", a)
	return nil
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	a := ex.val(fr, x.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return ex.val(fr, v).(TV).T
	}
	switch s := a.(type) {
	case TV: // string
		lo, hi := get(x.Low, Int(0)), get(x.High, slen(s.T))
		ex.panicCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, slen(s.T))), "slice bounds out of range", fr, x.Pos())
		return TV{ssub(s.T, lo, hi)}
	case SliceV:
		lo, hi := get(x.Low, Int(0)), get(x.High, s.len)
		mx := get(x.Max, s.cap)
		ex.panicCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)), "slice bounds out of range", fr, x.Pos())
		r := SliceV{s.base, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo), s.elem}
		ex.sliceHint(st, s, r, lo, hi)
		return r
	case PtrV:
		l := ex.deref(fr, st, a, x.X.Type(), x.Pos())
		at, ok := under(l.typ).(*types.Array)
		if !ok || !isArrayObj(l) {
			unsup("slice of array in %s", locPrefix(l))
		}
		n := Int(at.Len())
		lo, hi := get(x.Low, Int(0)), get(x.High, n)
		mx := get(x.Max, n)
		ex.panicCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds out of range", fr, x.Pos())
		return SliceV{l.ref, lo, Sub(hi, lo), Sub(mx, lo), at.Elem()}
	}
	unsup("slice of %T", a)
	return nil
}

func (ex *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := ex.val(fr, x.X), ex.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return TV{ex.equal(t, x.Y.Type(), a, b)}
	case token.NEQ:
		return TV{Not(ex.equal(t, x.Y.Type(), a, b))}
	}
	p, q := ex.term(a), ex.term(b)
	if p.sort == SBV || q.sort == SBV {
		return TV{ex.bvop(st, fr, x, p, q)}
	}
	if p.sort == SStr {
		switch x.Op {
		case token.ADD:
			return TV{scat(p, q)}
		case token.LSS:
			return TV{App("sless", SBool, p, q)}
		case token.GTR:
			return TV{App("sless", SBool, q, p)}
		case token.LEQ:
			return TV{Not(App("sless", SBool, q, p))}
		case token.GEQ:
			return TV{Not(App("sless", SBool, p, q))}
		}
	}
	if p.sort == SBool {
		switch x.Op {
		case token.AND:
			return TV{And(p, q)}
		case token.OR:
			return TV{Or(p, q)}
		}
	}
	rt := x.Type()
	switch x.Op {
	case token.ADD:
		return TV{ex.wrap(rt, Add(p, q))}
	case token.SUB:
		return TV{ex.wrap(rt, Sub(p, q))}
	case token.MUL:
		return TV{ex.wrap(rt, Mul(p, q))}
	case token.LSS:
		return TV{Lt(p, q)}
	case token.LEQ:
		return TV{Le(p, q)}
	case token.GTR:
		return TV{Lt(q, p)}
	case token.GEQ:
		return TV{Le(q, p)}
	case token.QUO, token.REM:
		ex.panicCheck(st, Not(Eq(q, Int(0))), "division by zero", fr, x.Pos())
		if n, ok := q.intVal(); ok && n > 0 {
			// truncated division
			quo := Ite(Le(Int(0), p), Div(p, n), Sub(Int(0), Div(Sub(Int(0), p), n)))
			if m, ok := p.intVal(); ok {
				quo = Int(m / n)
			}
			if x.Op == token.QUO {
				return TV{ex.wrap(rt, quo)}
			}
			return TV{Sub(p, Mul(Int(n), quo))}
		}
		return TV{App("goop"+x.Op.String(), SInt, p, q)}
	case token.AND:
		for _, pq := range [][2]*Term{{p, q}, {q, p}} {
			if n, ok := pq[1].intVal(); ok && n >= 0 && (n+1)&n == 0 {
				return TV{Mod(pq[0], n+1)}
			}
		}
	case token.SHR:
		if n, ok := q.intVal(); ok && n < 62 {
			return TV{Div(p, 1<<uint(n))}
		}
		ex.panicCheck(st, Le(Int(0), q), "negative shift", fr, x.Pos())
	case token.SHL:
		if n, ok := q.intVal(); ok && n < 62 {
			return TV{ex.wrap(rt, Mul(Int(1<<uint(n)), p))}
		}
		ex.panicCheck(st, Le(Int(0), q), "negative shift", fr, x.Pos())
	}
	if n, ok := p.intVal(); ok {
		if m, ok := q.intVal(); ok {
			switch x.Op {
			case token.AND:
				return TV{Int(n & m)}
			case token.OR:
				return TV{Int(n | m)}
			case token.XOR:
				return TV{Int(n ^ m)}
			case token.AND_NOT:
				return TV{Int(n &^ m)}
			}
		}
	}
	ops := map[token.Token]string{token.AND: "iand", token.OR: "ior", token.XOR: "ixor", token.SHL: "ishl", token.SHR: "ishr", token.AND_NOT: "iandnot"}
	if f, ok := ops[x.Op]; ok {
		return TV{App(f, SInt, p, q)}
	}
	unsup("operator %s", x.Op)
	return nil
}

func (ex *Exec) bvop(st *State, fr *Frame, x *ssa.BinOp, p, q *Term) *Term {
	if (x.Op == token.SHL || x.Op == token.SHR) && p.sort == SBV && q.sort == SInt {
		if n, ok := q.intVal(); ok {
			q = BVConst(n)
		} else {
			q = mk("(_ int2bv 64)", SBV, q)
		}
	}
	if p.sort != SBV || q.sort != SBV {
		unsup("mixed bit-vector operands")
	}
	f := func(op string) *Term { return mk(op, SBV, p, q) }
	c := func(op string) *Term { return mk(op, SBool, p, q) }
	switch x.Op {
	case token.ADD:
		return f("bvadd")
	case token.SUB:
		return f("bvsub")
	case token.MUL:
		return f("bvmul")
	case token.AND:
		return f("bvand")
	case token.OR:
		return f("bvor")
	case token.XOR:
		return f("bvxor")
	case token.AND_NOT:
		return mk("bvand", SBV, p, mk("bvnot", SBV, q))
	case token.SHL:
		ex.panicCheck(st, mk("bvsge", SBool, q, BVConst(0)), "negative shift", fr, x.Pos())
		return f("bvshl")
	case token.SHR:
		ex.panicCheck(st, mk("bvsge", SBool, q, BVConst(0)), "negative shift", fr, x.Pos())
		return f("bvashr")
	case token.LSS:
		return c("bvslt")
	case token.LEQ:
		return c("bvsle")
	case token.GTR:
		return c("bvsgt")
	case token.GEQ:
		return c("bvsge")
	}
	unsup("bit-vector operator %s", x.Op)
	return nil
}

func (ex *Exec) equal(ta, tb types.Type, a, b Val) *Term {
	// comparison with an interface
	if isIface(ta) && !isIface(tb) {
		if c, ok := b.(TV); ok && c.T == Int(0) {
			return Eq(ex.term(a), NilI)
		}
		return Eq(ex.term(a), ex.makeIface(tb, b))
	}
	if isIface(tb) && !isIface(ta) {
		return ex.equal(tb, ta, b, a)
	}
	if _, ok := under(ta).(*types.Slice); ok {
		// only comparison with nil
		if s, ok := a.(SliceV); ok {
			if o, ok := b.(SliceV); ok && o.base == Int(0) {
				return Eq(s.base, Int(0))
			}
			if s.base == Int(0) {
				return Eq(b.(SliceV).base, Int(0))
			}
		}
		unsup("slice comparison")
	}
	if _, ok := under(ta).(*types.Signature); ok {
		fa, oka := a.(FuncV)
		fb, okb := b.(FuncV)
		if oka && fa.fn != nil {
			return False // comparison of a function literal with nil
		}
		if okb && fb.fn != nil {
			return False
		}
	}
	if pa, ok := a.(PtrV); ok {
		if pb, ok := b.(PtrV); ok {
			if pa.loc.kind != lObj || pa.loc.path != "" || pb.loc.kind != lObj || pb.loc.path != "" {
				if pb.loc.kind == lObj && pb.loc.ref == Int(0) || pa.loc.kind == lObj && pa.loc.ref == Int(0) {
					return False
				}
				unsup("comparison of interior pointers")
			}
		}
	}
	la, lb := ex.unpack(ta, a), ex.unpack(tb, b)
	var cs []*Term
	for i := range la {
		cs = append(cs, Eq(la[i], lb[i]))
	}
	return And(cs...)
}

// ---- interfaces ----

func (ex *Exec) ctor(t types.Type) *ctorInfo { return ex.v.ctorFor(t) }

func (ex *Exec) makeIface(t types.Type, v Val) *Term {
	if isIface(t) {
		return ex.term(v)
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return NilI
	}
	c := ex.ctor(t)
	if c == nil {
		return Fresh("iface:"+typeName(t), SIface)
	}
	save := ex.bv
	ex.bv = false
	defer func() { ex.bv = save }()
	ts := ex.unpackAny(t, v)
	for i := range ts {
		if ts[i].sort == SBV {
			ts[i] = BVToInt(ts[i])
		}
	}
	return mk(c.name, SIface, ts...)
}

func (ex *Exec) unpackAny(t types.Type, v Val) []*Term {
	if _, ok := under(t).(*types.Slice); ok {
		s := v.(SliceV)
		return []*Term{s.base, s.off, s.len, s.cap}
	}
	return ex.unpack(t, v)
}

func (ex *Exec) isType(x *Term, t types.Type) *Term {
	c := ex.ctor(t)
	if c == nil {
		return App("isother", SBool, x, Int(int64(ex.v.typeID(t))))
	}
	if isCtor(x) {
		return BoolConst(x.op == c.name)
	}
	return mk("(_ is "+symName(c.name)+")", SBool, x)
}

func (ex *Exec) ifacePayload(x *Term, t types.Type) Val {
	c := ex.ctor(t)
	if c == nil {
		unsup("payload of %s", t)
	}
	var ts []*Term
	for i, s := range c.sorts {
		if isCtor(x) && x.op == c.name {
			ts = append(ts, x.args[i])
		} else {
			ts = append(ts, mk(fmt.Sprintf("%s#%d", c.name, i), s, x))
		}
	}
	return ex.pack(t, ts)
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	v := ex.term(ex.val(fr, x.X))
	t := x.AssertedType
	if isIface(t) {
		ok := ex.implements(v, t)
		if x.CommaOk {
			return TupleV{TV{Ite(ok, v, NilI)}, TV{ok}}
		}
		ex.panicCheck(st, ok, "type assertion", fr, x.Pos())
		return TV{v}
	}
	ok := ex.isType(v, t)
	if !x.CommaOk {
		ex.panicCheck(st, ok, "type assertion", fr, x.Pos())
		return ex.ifacePayload(v, t)
	}
	if ok == False || ex.ctor(t) == nil {
		if ex.ctor(t) == nil {
			return TupleV{ex.freshVal(st, "assert", t), TV{ok}}
		}
		return TupleV{ex.zero(t), TV{False}}
	}
	pl := ex.ifacePayload(v, t)
	st2 := st // payload well-formedness holds only if ok
	_ = st2
	ls := ex.unpack(t, pl)
	for i, l := range ex.leaves(t) {
		ls[i] = Ite(ok, ls[i], zeroOf(l.sort))
	}
	return TupleV{ex.pack(t, ls), TV{ok}}
}

func (ex *Exec) implements(v *Term, t types.Type) *Term {
	var cs []*Term
	it := under(t).(*types.Interface)
	if isCtor(v) {
		if v == NilI {
			return False
		}
		c := ex.v.ctors[v.op]
		return BoolConst(types.Implements(c.typ, it))
	}
	for _, n := range ex.v.ctorOrder {
		c := ex.v.ctors[n]
		if c.typ != nil && types.Implements(c.typ, it) {
			cs = append(cs, ex.isType(v, c.typ))
		}
	}
	cs = append(cs, App("isother", SBool, v, Int(int64(ex.v.typeID(t)))))
	return Or(cs...)
}

// ---- maps ----

func (ex *Exec) mapComps(mt *types.Map) (dom, val string, ks, vs Sort) {
	save := ex.bv
	ex.bv = false
	ks = ex.scalarSort(mt.Key())
	vs = ex.scalarSort(mt.Elem())
	ex.bv = save
	if ks == "" || vs == "" {
		unsup("map type %s", mt)
	}
	n := "M:" + typeName(mt)
	return n + ".dom", n + ".val", ks, vs
}

func (ex *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	if mt, ok := under(x.X.Type()).(*types.Map); ok {
		m := ex.term(ex.val(fr, x.X))
		k := ex.term(ex.val(fr, x.Index))
		dn, vn, ks, vs := ex.mapComps(mt)
		d := Select(ex.comp(st, dn, ArraySort(SInt, ArraySort(ks, SBool))), m)
		v := Select(ex.comp(st, vn, ArraySort(SInt, ArraySort(ks, vs))), m)
		ok := And(Not(Eq(m, Int(0))), Select(d, k))
		el := Select(v, k)
		res := Ite(ok, el, zeroOf(vs))
		rv := ex.scalarVal(mt.Elem(), res)
		ex.assumeWF(st, mt.Elem(), rv)
		if x.CommaOk {
			return TupleV{rv, TV{ok}}
		}
		return rv
	}
	s := ex.val(fr, x.X).(TV).T
	i := ex.val(fr, x.Index).(TV).T
	ex.panicCheck(st, And(Le(Int(0), i), Lt(i, slen(s))), "string index out of range", fr, x.Pos())
	return ex.strIndex(st, s, i)
}

func (ex *Exec) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	mt := under(x.Map.Type()).(*types.Map)
	m := ex.term(ex.val(fr, x.Map))
	ex.panicCheck(st, Not(Eq(m, Int(0))), "assignment to nil map", fr, x.Pos())
	ex.mapSet(st, mt, m, ex.term(ex.val(fr, x.Key)), ex.term(ex.val(fr, x.Value)))
}

func (ex *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	dn, vn, ks, vs := ex.mapComps(mt)
	d := ex.comp(st, dn, ArraySort(SInt, ArraySort(ks, SBool)))
	c := ex.comp(st, vn, ArraySort(SInt, ArraySort(ks, vs)))
	ex.setComp(st, dn, Store(d, m, Store(Select(d, m), k, True)), m)
	ex.setComp(st, vn, Store(c, m, Store(Select(c, m), k, v)), m)
}

func (ex *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	dn, _, ks, _ := ex.mapComps(mt)
	d := ex.comp(st, dn, ArraySort(SInt, ArraySort(ks, SBool)))
	// deleting from a nil map does nothing; nil maps have an empty domain
	ex.setComp(st, dn, Store(d, m, Store(Select(d, m), k, False)), m)
}

// ---- conversions ----

func (ex *Exec) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := ex.val(fr, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	if fb, ok := from.(*types.Basic); ok {
		if tb, ok := to.(*types.Basic); ok {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				t := v.(TV).T
				ts := ex.scalarSort(x.Type())
				if t.sort == SBV && ts == SInt {
					return TV{ex.wrap(x.Type(), BVToInt(t))}
				}
				if t.sort == SInt && ts == SBV {
					if n, ok := t.intVal(); ok {
						return TV{BVConst(n)}
					}
					return TV{mk("(_ int2bv 64)", SBV, t)}
				}
				if t.sort == SBV {
					return v
				}
				if lo, hi, ok := intRange(fb); ok {
					if l2, h2, ok2 := intRange(tb); !ok2 && tb.Info()&types.IsUnsigned == 0 || ok2 && l2 <= lo && hi <= h2 {
						return v
					}
				}
				return TV{ex.wrap(x.Type(), t)}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return TV{ex.enc(v.(TV).T)}
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			}
		}
		if sl, ok := to.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := v.(TV).T
				ref := ex.alloc(st)
				arr := Fresh("bytes", ArraySort(SInt, SInt))
				cn := "E:uint8"
				c := ex.comp(st, cn, ex.compSort(cn, SInt))
				ex.setComp(st, cn, Store(c, ref, arr), ref)
				st.assume(Eq(seqOf("B", arr, Int(0), slen(s)), s))
				cp := Fresh("cap", SInt)
				st.assume(Le(slen(s), cp))
				return SliceV{ref, Int(0), slen(s), cp, sl.Elem()}
			}
		}
	}
	if sl, ok := from.(*types.Slice); ok {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return TV{ex.bytesOf(st, v.(SliceV))}
			}
		}
	}
	unsup("conversion %s to %s", x.X.Type(), x.Type())
	return nil
}

func (ex *Exec) enc(r *Term) *Term {
	if n, ok := r.intVal(); ok {
		return StrLit(string(rune(n)))
	}
	return App("enc", SStr, r)
}

func (ex *Exec) bytesOf(st *State, s SliceV) *Term {
	cn := "E:uint8"
	arr := Select(ex.comp(st, cn, ex.compSort(cn, SInt)), s.base)
	return seqOf("B", arr, s.off, s.len)
}

func (ex *Exec) elemArr(st *State, el types.Type, lf leaf, base *Term) *Term {
	cn := "E:" + typeName(el) + lf.suffix
	return Select(ex.comp(st, cn, ex.compSort(cn, lf.sort)), base)
}

// ---- append and copy ----

// appendV executes append(s, t...); it splits on whether the capacity suffices.
func (ex *Exec) appendV(fr *Frame, st *State, s SliceV, t Val, k func(*Frame, *State, Val)) {
	var n *Term
	var src func(st *State, lf leaf) (arr, off *Term)
	isStr := false
	var strT *Term
	switch x := t.(type) {
	case SliceV:
		n = x.len
		src = func(st *State, lf leaf) (*Term, *Term) { return ex.elemArr(st, s.elem, lf, x.base), x.off }
	case TV:
		if x.T.sort == SStr {
			isStr = true
			strT = x.T
			n = slen(x.T)
		} else {
			n = Int(0)
		}
	}
	if n == Int(0) {
		k(fr, st, s)
		return
	}
	newLen := Add(s.len, n)
	fits := Le(newLen, s.cap)
	run := func(fr *Frame, st *State, inPlace bool) {
		var r SliceV
		if inPlace {
			r = SliceV{s.base, s.off, newLen, s.cap, s.elem}
		} else {
			// nothing appended keeps the slice
			ref := ex.alloc(st)
			cp := Fresh("cap", SInt)
			st.assume(Le(newLen, cp))
			r = SliceV{ref, Int(0), newLen, cp, s.elem}
		}
		for _, lf := range ex.leaves(s.elem) {
			cn := "E:" + typeName(s.elem) + lf.suffix
			c := ex.comp(st, cn, ex.compSort(cn, lf.sort))
			old := Select(c, s.base)
			kd := ex.elemSeqKind(lf.sort, s.elem)
			var add *Term
			var single *Term
			var sarr, soff *Term
			if isStr {
				add = strT
			} else {
				sarr, soff = src(st, lf)
				if kd != "" {
					add = seqOf(kd, sarr, soff, n)
				}
				if n == Int(1) {
					single = Select(sarr, soff)
				}
			}
			var na *Term
			if inPlace && single != nil {
				na = Store(old, Add(s.off, s.len), single)
			} else {
				na = Fresh("app"+lf.suffix, ArraySort(SInt, lf.sort))
				i := BoundVarNamed("i?a", SInt)
				rd := Select(na, i)
				inOld := And(Le(r.off, i), Lt(i, Add(r.off, s.len)))
				inNew := And(Le(Add(r.off, s.len), i), Lt(i, Add(r.off, newLen)))
				oldv := Select(old, Add(s.off, Sub(i, r.off)))
				var newv *Term
				switch {
				case isStr:
					newv = App("sat", SInt, strT, Sub(i, Add(r.off, s.len)))
				default:
					newv = Select(sarr, Add(soff, Sub(i, Add(r.off, s.len))))
				}
				body := And(Imp(inOld, Eq(rd, oldv)), Imp(inNew, Eq(rd, newv)))
				if inPlace {
					body = And(Imp(inNew, Eq(rd, newv)), Imp(Not(inNew), Eq(rd, Select(old, i))))
				}
				st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, body))
				if single != nil {
					st.assume(Eq(Select(na, Add(r.off, s.len)), single))
				}
			}
			ex.setComp(st, cn, Store(c, r.base, na), r.base)
			if kd != "" && ex.v.seqUsed(cn) && s.len != Int(0) {
				st.assume(Eq(seqOf(kd, na, r.off, newLen), seqCat(kd, seqOf(kd, old, s.off, s.len), add)))
				st.assume(Eq(seqOf(kd, na, r.off, s.len), seqOf(kd, old, s.off, s.len)))
			} else if kd != "" && ex.v.seqUsed(cn) {
				st.assume(Eq(seqOf(kd, na, r.off, newLen), add))
			}
		}
		k(fr, st, r)
	}
	if n.num == nil {
		// append of an empty list returns the slice unchanged
		st.assume(Le(Int(0), n))
	}
	if fits == True || st.has(fits) {
		run(fr, st, true)
		return
	}
	if s.cap == Int(0) {
		if n.num != nil {
			run(fr, st, false)
			return
		}
		fr2, st2 := fr.clone(), st.clone()
		st.assume(Lt(Int(0), n))
		st2.assume(Eq(n, Int(0)))
		if ex.feasible(st) {
			run(fr, st, false)
		}
		if ex.feasible(st2) {
			k(fr2, st2, s)
		}
		return
	}
	fr2, st2 := fr.clone(), st.clone()
	st.assume(fits)
	st.trace = &traceNode{"append in place", st.trace}
	st2.assume(Not(fits))
	st2.trace = &traceNode{"append reallocates", st2.trace}
	if ex.feasible(st) {
		run(fr, st, true)
	}
	if ex.feasible(st2) {
		run(fr2, st2, false)
	}
}

func (ex *Exec) copyV(fr *Frame, st *State, d SliceV, s Val, pos token.Pos) Val {
	var sl *Term
	sv, isSlice := s.(SliceV)
	var str *Term
	if isSlice {
		sl = sv.len
	} else {
		str = s.(TV).T
		sl = slen(str)
	}
	n := Ite(Le(d.len, sl), d.len, sl)
	if st.has(Le(d.len, sl)) {
		n = d.len
	}
	if d.len == sl {
		n = sl
	}
	nn := Fresh("copied", SInt)
	st.assume(Eq(nn, n))
	for _, lf := range ex.leaves(d.elem) {
		cn := "E:" + typeName(d.elem) + lf.suffix
		c := ex.comp(st, cn, ex.compSort(cn, lf.sort))
		old := Select(c, d.base)
		na := Fresh("cpy"+lf.suffix, ArraySort(SInt, lf.sort))
		i := BoundVarNamed("i?c", SInt)
		rd := Select(na, i)
		in := And(Le(d.off, i), Lt(i, Add(d.off, nn)))
		var v *Term
		if isSlice {
			v = Select(Select(c, sv.base), Add(sv.off, Sub(i, d.off)))
		} else {
			v = App("sat", SInt, str, Sub(i, d.off))
		}
		st.assume(Forall([]*Term{i}, [][]*Term{{rd}}, Eq(rd, Ite(in, v, Select(old, i)))))
		ex.setComp(st, cn, Store(c, d.base, na), d.base)
		if kd := ex.elemSeqKind(lf.sort, d.elem); kd != "" && ex.v.seqUsed(cn) {
			var add *Term
			if isSlice {
				add = seqOf(kd, Select(c, sv.base), sv.off, nn)
			} else {
				add = ssub(str, Int(0), nn)
			}
			st.assume(Eq(seqOf(kd, na, d.off, nn), add))
		}
	}
	return TV{nn}
}

// ---- calls ----

func (ex *Exec) call(fr *Frame, c *ssa.CallCommon, in *ssa.Call, st *State, pos token.Pos, k func(*Frame, *State, []Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	var fv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = ex.val(fr, c.Value)
	}
	ex.callWith(fr, c, fv, args, in, st, pos, k)
}

func (ex *Exec) callWith(fr *Frame, c *ssa.CallCommon, fv Val, args []Val, in *ssa.Call, st *State, pos token.Pos, k func(*Frame, *State, []Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(fr, b, c, args, st, pos, k)
		return
	}
	if c.IsInvoke() {
		recv := ex.term(fv)
		ex.panicCheck(st, Not(Eq(recv, NilI)), "nil interface call "+c.Method.Name(), fr, pos)
		ex.invoke(fr, recv, c, args, st, pos, k)
		return
	}
	switch f := fv.(type) {
	case FuncV:
		if f.recv != nil {
			args = append([]Val{f.recv}, args...)
		}
		ex.callFunc(fr, f.fn, f.binds, args, st, pos, k)
		return
	case TV:
		if ct := ex.v.contract(funcValueKey(c.Value)); ct != nil && ct.nonnil {
			st.assume(Not(Eq(f.T, Int(0))))
		} else {
			ex.panicCheck(st, Not(Eq(f.T, Int(0))), "call of a nil function", fr, pos)
		}
		// function value from a field or variable with a contract
		if key := funcValueKey(c.Value); key != "" {
			if ct := ex.v.contract(key); ct != nil {
				ex.applyContract(fr, ct, nil, c.Signature(), args, st, pos, k)
				return
			}
			unsup("call of function value %s without contract", key)
		}
		unsup("call of an unknown function value %s", c.Value)
	}
	unsup("call of %T", fv)
}

// funcValueKey names a function stored in a field or a global variable.
func funcValueKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				st := a.X.Type().Underlying().(*types.Pointer).Elem()
				return "value " + typeName(st) + "." + under(st).(*types.Struct).Field(a.Field).Name()
			case *ssa.Global:
				return "value " + globalName(a)
			case *ssa.Alloc:
				return "value " + typeName(a.Type().(*types.Pointer).Elem())
			}
		}
	case *ssa.Field:
		return "value " + typeName(x.X.Type()) + "." + under(x.X.Type()).(*types.Struct).Field(x.Field).Name()
	case *ssa.Parameter:
		return "value " + typeName(x.Type())
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fmt.Sprintf("value result %d of %s", x.Index, calleeName(c.Common()))
		}
	case *ssa.Call:
		return "value result of " + calleeName(x.Common())
	case *ssa.ChangeType:
		return funcValueKey(x.X)
	}
	return ""
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return funcKey(f)
	}
	return "?"
}

func (ex *Exec) invoke(fr *Frame, recv *Term, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(*Frame, *State, []Val)) {
	name := c.Method.Name()
	key := typeName(c.Value.Type()) + "." + name
	ct := ex.v.contract(key)
	if ct == nil {
		// try interfaces that declare the method, e.g. embedded ones
		ct = ex.v.ifaceMethodContract(c.Value.Type(), name)
	}
	if isCtor(recv) && recv != NilI && (ct == nil || ct.dispatch) {
		ci := ex.v.ctors[recv.op]
		if ci.typ != nil {
			fn := ex.v.methodOf(ci.typ, name)
			if fn != nil {
				ex.callFunc(fr, fn, nil, append([]Val{ex.ifacePayload(recv, ci.typ)}, args...), st, pos, k)
				return
			}
		}
	}
	if ct == nil {
		unsup("interface call %s without contract", key)
	}
	ex.applyContract(fr, ct, nil, c.Signature(), append([]Val{TV{recv}}, args...), st, pos, k)
}

func (ex *Exec) callFunc(fr *Frame, fn *ssa.Function, binds []Val, args []Val, st *State, pos token.Pos, k func(*Frame, *State, []Val)) {
	key := funcKey(fn)
	if ex.initMode && (!ex.v.inRepo(fn) || fn.Name() == "init" && fn.Synthetic != "") {
		var rs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rs = append(rs, ex.freshVal(st, "lib", fn.Signature.Results().At(i).Type()))
		}
		k(fr, st, rs)
		return
	}
	if ex.special(fr, key, fn, args, st, pos, k) {
		return
	}
	ct := ex.v.contract(key)
	if ct != nil && ct.inline {
		ct = nil
	}
	if ct != nil && len(ct.params) != len(args) && len(ct.params) > 0 {
		ct = nil
	}
	if ct != nil {
		ex.applyContract(fr, ct, fn, fn.Signature, args, st, pos, k)
		return
	}
	// method of a type with an interface contract
	if ict, wrap := ex.v.ifaceContractFor(fn); ict != nil {
		recv := ex.makeIface(wrap, args[0])
		ex.applyContract(fr, ict, fn, fn.Signature, append([]Val{TV{recv}}, args[1:]...), st, pos, k)
		return
	}
	if len(fn.Blocks) == 0 || !ex.v.inRepo(fn) {
		unsup("call of %s: no contract and no body in the repository", key)
	}
	if strings.Contains(fr.stack, "|"+key+"|") {
		unsup("recursive call of %s without contract", key)
	}
	ex.inlined[key] = true
	site := fr.stack + "|" + key + "|"
	// The caller's frame may be used after several returns of the callee.
	ex.caller = fr
	ex.callBody(fn, args, binds, st, fr.depth+1, site, func(st2 *State, res []Val) {
		k(fr.clone(), st2, res)
	})
}

func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(*Frame, *State, []Val)) {
	switch b.Name() {
	case "len":
		switch s := args[0].(type) {
		case SliceV:
			k(fr, st, []Val{TV{ex.lenTerm(s.len)}})
			return
		case TV:
			if s.T.sort == SStr {
				n := slen(s.T)
				st.assume(Le(Int(0), n))
				k(fr, st, []Val{TV{ex.lenTerm(n)}})
				return
			}
			if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
				_ = mt
				n := Fresh("maplen", SInt)
				st.assume(Le(Int(0), n))
				k(fr, st, []Val{TV{n}})
				return
			}
		}
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			k(fr, st, []Val{TV{ex.lenTerm(s.cap)}})
			return
		}
	case "append":
		var s SliceV
		switch x := args[0].(type) {
		case SliceV:
			s = x
		default:
			unsup("append to %T", args[0])
		}
		ex.appendV(fr, st, s, args[1], func(fr2 *Frame, st2 *State, r Val) { k(fr2, st2, []Val{r}) })
		return
	case "copy":
		k(fr, st, []Val{ex.copyV(fr, st, args[0].(SliceV), args[1], pos)})
		return
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		ex.mapDelete(st, mt, ex.term(args[0]), ex.term(args[1]))
		k(fr, st, nil)
		return
	case "print", "println":
		k(fr, st, nil)
		return
	case "min", "max":
		r := ex.term(args[0])
		for _, a := range args[1:] {
			x := ex.term(a)
			if b.Name() == "min" {
				r = Ite(Le(r, x), r, x)
			} else {
				r = Ite(Le(r, x), x, r)
			}
		}
		k(fr, st, []Val{TV{r}})
		return
	case "ssa:wrapnilchk":
		k(fr, st, []Val{args[0]})
		return
	}
	unsup("builtin %s", b.Name())
}

func (ex *Exec) lenTerm(n *Term) *Term {
	if ex.bv {
		unsup("len in bit-vector mode")
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
