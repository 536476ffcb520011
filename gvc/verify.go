package main

// The verifier: loading, contracts, verification of one function.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type ctorInfo struct {
	name  string
	typ   types.Type
	sorts []Sort
}

type Verifier struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	byName    map[string]*ssa.Package
	spec      *Spec
	prelude   *Prelude
	prop      string
	tier      string
	funcs     map[string]*ssa.Function
	allFns    []*ssa.Function
	compSorts map[string]Sort
	subIDs    map[string]int
	ctors     map[string]*ctorInfo
	ctorOrder []string
	typeIDs   map[string]int
	byVal     map[string]bool // struct types embedded by value
	loops     map[*ssa.Function]*loopInfo
	dropped   map[string]bool
	stable    map[*ssa.Global]Val
	rlimit    int
	timeout   time.Duration
	verbose   bool
	jobs      int
	preErr    error
	init      *initInfo
}

func loadRepo(dir string, patterns ...string) (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	_ = ssapkgs
	var out []*ssa.Package
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pkg.Path() < out[j].Pkg.Path() })
	return prog, out, nil
}

const modPath = "github.com/nyaosorg/go-readline-ny"

var repoPatterns = []string{".", "./internal/...", "./auto", "./simplehistory", "./nameutils", "./keys", "./completion", "./coloring", "./tty10"}

func newVerifier(specDir, prop, tier string) (*Verifier, error) {
	var pats []string
	pats = append(pats, repoPatterns...)
	prog, pkgs, err := loadRepo(repoDir, pats...)
	if err != nil {
		return nil, fmt.Errorf("load: %v", err)
	}
	sp, err := loadSpec(specDir)
	if err != nil {
		return nil, err
	}
	v := &Verifier{prog: prog, pkgs: pkgs, spec: sp, prop: prop, tier: tier, byName: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		compSorts: map[string]Sort{}, subIDs: map[string]int{}, ctors: map[string]*ctorInfo{}, typeIDs: map[string]int{}, byVal: map[string]bool{},
		loops: map[*ssa.Function]*loopInfo{}, dropped: map[string]bool{}, stable: map[*ssa.Global]Val{}, rlimit: 2000000, timeout: 20 * time.Second, jobs: 8}
	for _, p := range pkgs {
		if strings.Contains(p.Pkg.Path(), "/examples") || p.Pkg.Name() == "main" {
			continue
		}
		v.byName[p.Pkg.Name()] = p
	}
	v.collectFuncs()
	v.collectTypes()
	v.buildPrelude()
	if v.preErr != nil {
		return nil, v.preErr
	}
	v.runInit()
	return v, nil
}

func (v *Verifier) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		v.allFns = append(v.allFns, f)
		k := funcKey(f)
		if old, ok := v.funcs[k]; !ok || old.TypeParams().Len() > 0 && len(old.TypeArgs()) == 0 {
			v.funcs[k] = f
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
		// instances of generics are found through calls
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Origin() != nil && v.inRepo(g) {
						add(g)
					}
				}
			}
		}
	}
	for _, p := range v.pkgs {
		if p.Pkg.Name() == "main" {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if isIface(m.Type()) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := v.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := v.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

func (v *Verifier) inRepo(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg != nil {
		return strings.HasPrefix(p.Pkg.Pkg.Path(), modPath)
	}
	if p.Object() != nil && p.Object().Pkg() != nil {
		return strings.HasPrefix(p.Object().Pkg().Path(), modPath)
	}
	// wrappers and thunks
	return p.Synthetic != ""
}

func (v *Verifier) collectTypes() {
	ex := &Exec{}
	add := func(t types.Type) {
		if isIface(t) {
			return
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return
		}
		n := "I." + typeName(t)
		if _, ok := v.ctors[n]; ok {
			return
		}
		defer func() { recover() }()
		var sorts []Sort
		for _, l := range ex.leaves(t) {
			sorts = append(sorts, l.sort)
		}
		v.ctors[n] = &ctorInfo{n, t, sorts}
		v.ctorOrder = append(v.ctorOrder, n)
	}
	for _, f := range v.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					add(x.X.Type())
				case *ssa.TypeAssert:
					add(x.AssertedType)
				}
			}
		}
	}
	for _, n := range v.spec.typesUsed {
		if t := v.typeByName(n); t != nil {
			add(t)
		}
	}
	sort.Strings(v.ctorOrder)
	for _, p := range v.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if s, ok := under(t.Type()).(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if isStructT(s.Field(i).Type()) {
							v.byVal[typeName(s.Field(i).Type())] = true
						}
					}
				}
			}
		}
	}
}

func (v *Verifier) ctorFor(t types.Type) *ctorInfo { return v.ctors["I."+typeName(t)] }

func (v *Verifier) typeID(t types.Type) int {
	n := typeName(t)
	if id, ok := v.typeIDs[n]; ok {
		return id
	}
	v.typeIDs[n] = len(v.typeIDs) + 1
	return v.typeIDs[n]
}

func (v *Verifier) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		t := v.typeByName(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "[]") {
		t := v.typeByName(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if i := strings.Index(s, "."); i >= 0 {
		if p := v.byName[s[:i]]; p != nil {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		for _, p := range v.prog.AllPackages() {
			if p.Pkg.Name() == s[:i] {
				if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
					if _, ok := o.(*types.TypeName); ok {
						return o.Type()
					}
				}
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	return nil
}

func (v *Verifier) pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (v *Verifier) global(name string) *ssa.Global {
	i := strings.Index(name, ".")
	if p := v.byName[name[:i]]; p != nil {
		if g, ok := p.Members[name[i+1:]].(*ssa.Global); ok {
			return g
		}
	}
	for _, p := range v.prog.AllPackages() {
		if p.Pkg.Name() == name[:i] {
			if g, ok := p.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (v *Verifier) noteSeq(cn string) {}

func (v *Verifier) seqUsed(cn string) bool {
	if cn == "E:int" || cn == "E:int32" || cn == "E:[2]int.0" || cn == "E:[2]int.1" {
		return false
	}
	return true
}

func (v *Verifier) contract(key string) *Contract {
	if v.dropped[key] {
		return nil
	}
	c := v.spec.contracts[key]
	if c != nil && c.props != nil && !c.trusted && !c.props[v.prop] {
		return nil
	}
	return c
}

// ifaceMethodContract finds the contract of a method through embedded interfaces.
func (v *Verifier) ifaceMethodContract(t types.Type, name string) *Contract {
	it, ok := under(t).(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		e := it.EmbeddedType(i)
		if c := v.contract(typeName(e) + "." + name); c != nil {
			return c
		}
		if c := v.ifaceMethodContract(e, name); c != nil {
			return c
		}
	}
	return nil
}

// ifaceContractFor returns the interface-method contract that a concrete method must obey.
func (v *Verifier) ifaceContractFor(fn *ssa.Function) (*Contract, types.Type) {
	r := fn.Signature.Recv()
	if r == nil || !v.inRepo(fn) {
		return nil, nil
	}
	for _, key := range v.spec.order {
		c := v.spec.contracts[key]
		i := strings.LastIndex(key, ".")
		if strings.HasPrefix(key, "value ") || i < 0 || key[i+1:] != fn.Name() || v.dropped[key+"|"+typeName(r.Type())] {
			continue
		}
		t := v.typeByName(key[:i])
		if t == nil || !isIface(t) {
			continue
		}
		if types.Implements(r.Type(), under(t).(*types.Interface)) && v.ctorFor(r.Type()) != nil {
			return c, r.Type()
		}
	}
	return nil, nil
}

func (v *Verifier) methodOf(t types.Type, name string) *ssa.Function {
	ms := v.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return v.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- tasks ----

// Task is the verification of one function against one contract.
type Task struct {
	name string
	ct   *Contract
	fn   *ssa.Function
	wrap types.Type // concrete type for an interface contract
}

func (v *Verifier) relevant(c *Contract) bool {
	return !c.trusted && !c.inline && (c.props == nil || c.props[v.prop])
}

// entry reports whether the property is stated in this contract.
func (v *Verifier) entry(c *Contract) bool {
	if !v.relevant(c) || !c.root {
		return false
	}
	if v.prop == "C01" || c.key == "initial state" || c.entry[v.prop] {
		return true
	}
	for _, cl := range c.clauses {
		if cl.kind != "ensures" && cl.kind != "assert" {
			continue
		}
		for _, t := range cl.tags {
			if t == v.prop {
				return true
			}
		}
	}
	return false
}

// miss marks missing functions that state a property.
func (v *Verifier) miss(c *Contract) string {
	if v.entry(c) {
		return "root "
	}
	return ""
}

func (v *Verifier) tasks() (out []*Task, missing []string) {
	for _, key := range v.spec.order {
		c := v.spec.contracts[key]
		if !v.relevant(c) || v.dropped[key] {
			continue
		}
		if strings.HasPrefix(key, "initial ") {
			out = append(out, &Task{name: key, ct: c})
			continue
		}
		if fn := v.commandFunc(key); fn != nil {
			if len(c.params) != len(fn.Params) {
				missing = append(missing, v.miss(c)+key+": signature changed")
				continue
			}
			out = append(out, &Task{name: key, ct: c, fn: fn})
			continue
		}
		i := strings.LastIndex(key, ".")
		t := v.typeByName(key[:i])
		if t != nil && isIface(t) {
			for _, cn := range v.ctorOrder {
				ct := v.ctors[cn].typ
				if !types.Implements(ct, under(t).(*types.Interface)) || v.dropped[key+"|"+typeName(ct)] {
					continue
				}
				fn := v.methodOf(ct, key[i+1:])
				if fn == nil || !v.inRepo(fn) {
					continue
				}
				if len(fn.Blocks) == 0 {
					fn.Pkg.Build()
				}
				out = append(out, &Task{name: key + "|" + typeName(ct), ct: c, fn: fn, wrap: ct})
			}
			continue
		}
		if !strings.HasPrefix(key, "value ") {
			missing = append(missing, v.miss(c)+key+": no such function")
		}
	}
	return
}

// commandFunc finds the function of a contract. The contract of a command
// cmdX is about the function that the variable CmdX starts with.
func (v *Verifier) commandFunc(key string) *ssa.Function {
	fn := v.funcs[key]
	if i := strings.Index(key, ".cmd"); i >= 0 && v.init.err == "" {
		if g := v.global(key[:i] + ".Cmd" + key[i+4:]); g != nil {
			if c, ok := v.init.st.heap["G:"+globalName(g)]; ok && c.num != nil {
				if pt, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Pointer); ok {
					if fs, ok := v.init.st.heap["H:"+typeName(pt.Elem())+".Func"]; ok {
						if f, ok := v.init.ex.funcTerms[Select(fs, c)]; ok && len(f.binds) == 0 && f.recv == nil && f.fn != nil {
							return f.fn
						}
					}
				}
			}
		}
	}
	return fn
}

// verifyInitial checks a statement about the state after initialisation.
func (v *Verifier) verifyInitial(ex *Exec, t *Task, res *TaskResult) {
	ii := v.init
	if ii.err != "" {
		unsup("%s", ii.err)
	}
	ex.initMode = true
	ex.funcTerms = ii.ex.funcTerms
	ex.rootEnv = map[string]SVal{}
	st := ii.st.clone()
	ex.entry = st.clone()
	ex.oblVacuity(st, "entry", t)
	env := &sEnv{ex: ex, vars: ex.rootEnv, st: st, old: ex.entry, sink: st}
	var done []OblResult
	for _, c := range t.ct.clauses {
		if !hasTag(c.tags, v.prop) {
			continue
		}
		switch c.kind {
		case "ghost":
			comp, key := env.ghostTarget(c)
			ex.ghostSet(st, comp, key, env.term(env.eval(c.expr)))
		case "ensures":
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			name := fmt.Sprintf("%s ensures %s", t.name, clauseName(c))
			if b == True {
				done = append(done, OblResult{Name: name, Kind: "post", OK: true, Solver: "evaluation"})
			}
			ex.oblige(st, b, "post", name, 0)
		}
	}
	if hasInvs(t.ct) {
		for _, c := range v.spec.ginvs {
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			ex.oblige(st, b, "post", t.name+" establishes "+c.text, 0)
		}
	}
	ex.exits++
	ex.exitStates = append(ex.exitStates, st.assumptions())
	ex.dispatch(res)
	res.Obls = append(res.Obls, done...)
	res.By["evaluation"] += len(done)
}

func hasInvs(c *Contract) bool { return c.key == "initial state" }

type TaskResult struct {
	Name     string
	Obls     []OblResult
	Used     []string
	Inlined  []string
	Err      string
	ErrKey   string // the contract of a callee that does not fit the code
	Unsup    string
	Paths    int
	Exits    int
	Loops    []string
	WallMS   int64
	SolverMS int64
	Queries  int
	By       map[string]int
	Vacuous  string
	Callees  []string
}

type OblResult struct {
	Name   string
	Kind   string
	Pos    string
	OK     bool
	Solver string
	Detail string
	MS     int64
	Trace  []string
	Query  string
}

// verify runs one task.
// verify checks a function; a failure with the shortcut of the loop inference
// does not count.
func (v *Verifier) verify(t *Task) *TaskResult {
	res, shortcut := v.verifyOnce(t, true)
	if shortcut && res.bad() {
		res, _ = v.verifyOnce(t, false)
	}
	return res
}

func (v *Verifier) verifyOnce(t *Task, fast bool) (res *TaskResult, shortcut bool) {
	start := time.Now()
	q0, t0 := statQueries, statTime
	res = &TaskResult{Name: t.name, By: map[string]int{}}
	ex := newExec(v)
	ex.fast = fast
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Unsup = x.msg
			case specError:
				res.Err = x.msg
				res.ErrKey = x.key
			default:
				panic(r)
			}
		}
		shortcut = ex.shortcut
		res.WallMS = time.Since(start).Milliseconds()
		res.Queries = statQueries - q0
		res.SolverMS = (statTime - t0).Milliseconds()
		res.Used = sortedKeys(ex.used)
		res.Inlined = sortedKeys(ex.inlined)
		res.Paths = ex.paths
		res.Exits = ex.exits
		res.Loops = ex.loopStats
	}()
	ex.root = t.ct
	ex.rootFn = t.fn
	ex.rootKey = t.name
	ex.bv = t.ct.bv[v.prop]
	if t.fn == nil {
		v.verifyInitial(ex, t, res)
		return
	}
	if len(t.fn.Blocks) == 0 {
		unsup("no body")
	}
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}}
	st.nextref = Const("nextref@0", SInt)
	st.assume(Le(Int(v.initRefs()), st.nextref))
	var args []Val
	vars := map[string]SVal{}
	for i, p := range t.fn.Params {
		a := ex.freshVal(st, "p:"+p.Name(), p.Type())
		if pv, ok := a.(PtrV); ok && i == 0 && t.fn.Signature.Recv() != nil {
			st.assume(Not(Eq(pv.loc.ref, Int(0))))
		}
		if tv, ok := a.(TV); ok {
			if pt, ok := under(p.Type()).(*types.Pointer); ok {
				// pointer to a scalar: a cell
				ex.nextCell++
				st.cells[ex.nextCell] = ex.freshVal(st, "cell:"+p.Name(), pt.Elem())
				_ = tv
				a = PtrV{Loc{kind: lCell, cell: ex.nextCell, typ: pt.Elem()}}
			}
		}
		args = append(args, a)
		if i < len(t.ct.params) {
			if t.wrap != nil && i == 0 {
				vars[t.ct.params[0]] = lt(ex.makeIface(t.wrap, a))
			} else {
				vars[t.ct.params[i]] = SVal{v: a, typ: p.Type()}
			}
		}
	}
	var binds []Val
	for _, fv := range t.fn.FreeVars {
		pt, ok := fv.Type().(*types.Pointer)
		if !ok {
			b := ex.freshVal(st, "fv:"+fv.Name(), fv.Type())
			binds = append(binds, b)
			vars[fv.Name()] = SVal{v: b, typ: fv.Type()}
			continue
		}
		if isStructT(pt.Elem()) {
			b := ex.freshVal(st, "fv:"+fv.Name(), fv.Type())
			st.assume(Not(Eq(ex.term(b), Int(0))))
			binds = append(binds, b)
			vars[fv.Name()] = SVal{v: b, typ: fv.Type()}
			continue
		}
		ex.nextCell++
		st.cells[ex.nextCell] = ex.freshVal(st, "fv:"+fv.Name(), pt.Elem())
		loc := Loc{kind: lCell, cell: ex.nextCell, typ: pt.Elem()}
		binds = append(binds, PtrV{loc})
		vars[fv.Name()] = SVal{v: PtrV{loc}, typ: fv.Type()}
	}
	ex.rootEnv = vars
	ex.assumeGinv(st)
	entry := st.clone()
	ex.entry = entry
	env := &sEnv{ex: ex, vars: vars, st: st, old: entry, sink: st}
	for _, c := range t.ct.clauses {
		if c.kind == "requires" && hasTag(c.tags, v.prop) {
			b, err := env.safeBool(c)
			if err != nil {
				res.Err = err.Error()
				return
			}
			st.assume(b)
		}
	}
	entry.pc = st.pc
	ex.oblVacuity(st, "entry", t)
	ex.callBody(t.fn, args, binds, st, 0, "|"+funcKey(t.fn)+"|", func(st2 *State, rs []Val) {
		ex.exits++
		ex.checkExit(t, vars, entry, st2, rs)
	})
	ex.dispatch(res)
	return
}

func (ex *Exec) oblVacuity(st *State, what string, t *Task) {
	ex.obls = append(ex.obls, &Obl{name: t.name + " " + what + " is reachable", kind: "vacuity", assumes: st.assumptions(), goal: False})
}

func (ex *Exec) resultVars(ct *Contract, sig *types.Signature, rs []Val, vars map[string]SVal) map[string]SVal {
	out := map[string]SVal{}
	for k, x := range vars {
		out[k] = x
	}
	for i, r := range rs {
		sv := SVal{v: r, typ: sig.Results().At(i).Type()}
		out[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			out["result"] = sv
		}
		if i < len(ct.results) {
			out[ct.results[i]] = sv
		}
	}
	return out
}

func (ex *Exec) checkExit(t *Task, vars map[string]SVal, entry, st *State, rs []Val) {
	if st.dead {
		return
	}
	v := ex.v
	env := &sEnv{ex: ex, vars: ex.resultVars(t.ct, t.fn.Signature, rs, vars), st: st, old: entry, sink: st}
	pos := t.fn.Pos()
	// ghost updates, evaluated simultaneously
	type upd struct {
		comp string
		key  *Term
		val  *Term
	}
	var upds []upd
	for _, c := range t.ct.clauses {
		if c.kind != "ghost" && c.kind != "sync" || !hasTag(c.tags, v.prop) {
			continue
		}
		u := upd{}
		u.comp, u.key = env.ghostTarget(c)
		val := env.eval(c.expr)
		u.val = env.term(val)
		upds = append(upds, u)
	}
	for _, u := range upds {
		ex.ghostSet(st, u.comp, u.key, u.val)
	}
	ex.exitStates = append(ex.exitStates, st.assumptions())
	n := 0
	for _, c := range t.ct.clauses {
		if !hasTag(c.tags, v.prop) {
			continue
		}
		switch c.kind {
		case "ensures":
			n++
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			ex.oblige(st, b, "post", fmt.Sprintf("%s ensures %s", t.name, clauseName(c)), pos)
		case "assert":
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			ex.oblige(st, b, "assert", fmt.Sprintf("%s assert %s", t.name, clauseName(c)), pos)
		case "use":
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			st.assume(b)
		}
	}
	ex.checkFrame(t, vars, entry, st)
}

func clauseName(c *Clause) string {
	if c.name != "" {
		return c.name
	}
	s := c.text
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func (e *sEnv) ghostTarget(c *Clause) (string, *Term) {
	comp, keys := e.modTarget(c.lhs)
	if len(comp) != 1 {
		specFail("bad ghost target")
	}
	return comp[0], keys
}

func (ex *Exec) ghostSet(st *State, comp string, key, val *Term) {
	s := ex.v.ghostSort(comp)
	if key == nil {
		ex.setComp(st, comp, val, nil)
		return
	}
	ex.setComp(st, comp, Store(ex.comp(st, comp, s), key, val), key)
}

func (v *Verifier) ghostSort(comp string) Sort {
	if comp == "g:Out" {
		return ArraySort(SIface, SStr)
	}
	return v.spec.ghosts[strings.TrimPrefix(comp, "g:")]
}

// checkFrame proves that only the listed locations changed.
func (ex *Exec) checkFrame(t *Task, vars map[string]SVal, entry, st *State) {
	if t.ct.top {
		return
	}
	mods := ex.modSet(t.ct, &sEnv{ex: ex, vars: vars, st: entry, old: entry})
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fin := st.heap[n]
		ini := entry.heap[n]
		if ini == nil {
			ini = ex.initComp(n, fin.sort)
		}
		if fin == ini {
			continue
		}
		m := mods[n]
		if m != nil && m.all {
			continue
		}
		name := fmt.Sprintf("%s modifies only what it lists (%s)", t.name, n)
		if strings.HasPrefix(n, "G:") || m == nil && ex.plainGhost(n) {
			if m == nil {
				ex.oblige(st, Eq(fin, ini), "frame", name, t.fn.Pos())
			}
			continue
		}
		if m != nil && m.scalar {
			continue
		}
		ks := fin.sort.key()
		r := Fresh("fr", ks)
		var pre []*Term
		if ks == SInt {
			pre = append(pre, allocTerm(r, entry.nextref))
		} else if ks == SIface {
			pre = append(pre, App("iallocated", SBool, r, entry.nextref))
		}
		if m != nil {
			for _, k := range m.keys {
				pre = append(pre, Not(Eq(r, k)))
			}
		}
		ex.oblige(st, Imp(And(pre...), Eq(Select(fin, r), Select(ini, r))), "frame", name, t.fn.Pos())
	}
}

func (ex *Exec) plainGhost(n string) bool {
	return strings.HasPrefix(n, "g:") && !strings.HasPrefix(string(ex.v.ghostSort(n)), "(Array")
}

type modInfo struct {
	all    bool
	scalar bool
	keys   []*Term
}

// modTarget resolves a modifies item: components and key (nil: whole).
func (e *sEnv) modTarget(x interface{}) ([]string, *Term) {
	return e.modTargetE(x)
}

// modItems collects the targets of a modifies list; macros whose body is
// mod(...) stand for lists.
func (e *sEnv) modItems(items []ast.Expr, out map[string]*modInfo) {
	for _, a := range items {
		if c, ok := a.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if m, ok := e.ex.v.spec.macros[id.Name]; ok {
					vars := map[string]SVal{}
					if len(m.params) != len(c.Args) {
						specFail("macro %s needs %d arguments", id.Name, len(m.params))
					}
					for i, p := range m.params {
						vars[p] = e.eval(c.Args[i])
					}
					ne := *e
					ne.vars = vars
					ne.modItems(callArgs(m.body), out)
					continue
				}
			}
		}
		comps, key := e.modTargetE(a)
		for _, n := range comps {
			m := out[n]
			if m == nil {
				m = &modInfo{}
				out[n] = m
			}
			if key == nil {
				if strings.HasPrefix(n, "G:") || e.ex.plainGhost(n) {
					m.scalar = true
				} else {
					m.all = true
				}
			} else {
				m.keys = append(m.keys, key)
			}
		}
	}
}

// modSet evaluates the modifies clauses.
func (ex *Exec) modSet(ct *Contract, env *sEnv) map[string]*modInfo {
	out := map[string]*modInfo{}
	for _, c := range ct.clauses {
		if c.kind != "modifies" || !hasTag(c.tags, ex.v.prop) {
			continue
		}
		env.modItems(callArgs(c.expr), out)
	}
	// ghost updates are part of the frame
	for _, c := range ct.clauses {
		if (c.kind == "ghost" || c.kind == "sync") && hasTag(c.tags, ex.v.prop) {
			comps, key := env.modTargetE(c.lhs)
			for _, n := range comps {
				m := out[n]
				if m == nil {
					m = &modInfo{}
					out[n] = m
				}
				if key == nil {
					m.scalar = true
				} else {
					m.keys = append(m.keys, key)
				}
			}
		}
	}
	return out
}

// syncGhosts brings ghost state up to date before a call that depends on it.
func (ex *Exec) syncGhosts(ct *Contract, vars map[string]SVal, st *State) {
	if ex.root == nil {
		return
	}
	var mods map[string]*modInfo
	for _, c := range ex.root.clauses {
		if c.kind != "sync" || !hasTag(c.tags, ex.v.prop) {
			continue
		}
		if mods == nil {
			mods = ex.modSet(ct, &sEnv{ex: ex, vars: vars, st: st, old: st})
		}
		env := &sEnv{ex: ex, vars: ex.rootEnv, st: st, old: ex.entry, sink: st}
		comp, key := env.ghostTarget(c)
		if mods[comp] == nil {
			continue
		}
		ex.ghostSet(st, comp, key, env.term(env.eval(c.expr)))
	}
}

// applyContract executes a call by its contract.
func (ex *Exec) applyContract(fr *Frame, ct *Contract, fn *ssa.Function, sig *types.Signature, args []Val, st *State, pos tokenPos, k func(*Frame, *State, []Val)) {
	v := ex.v
	if ct.top {
		specFail("%s is called", ct.key)
	}
	if !ct.trusted {
		ex.used[ct.key] = true
	} else {
		ex.used["extern "+ct.key] = true
	}
	vars := map[string]SVal{}
	var ptypes []types.Type
	if r := sig.Recv(); r != nil {
		ptypes = append(ptypes, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(args) == len(ptypes)+1 {
		// interface call: the receiver is not part of the signature
		ptypes = append([]types.Type{nil}, ptypes...)
	}
	if len(args) != len(ptypes) {
		unsup("argument count for %s", ct.key)
	}
	for i, a := range args {
		if i >= len(ct.params) {
			break
		}
		if tv, ok := a.(TV); ok && (ptypes[i] == nil || tv.T.sort == SIface && !isIface(ptypes[i])) {
			vars[ct.params[i]] = lt(tv.T)
		} else {
			vars[ct.params[i]] = SVal{v: a, typ: ptypes[i]}
		}
	}
	if !ct.trusted {
		// a contract that no longer fits the code is not the caller's fault
		inner := true
		k0 := k
		k = func(fr *Frame, st *State, rs []Val) { inner = false; k0(fr, st, rs); inner = true }
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specError); ok && inner && se.key == "" {
					se.key = ct.key
					panic(se)
				}
				panic(r)
			}
		}()
	}
	ex.syncGhosts(ct, vars, st)
	pre := st.clone()
	env := &sEnv{ex: ex, vars: vars, st: st, old: pre, sink: st}
	caller := funcKey(fr.fn)
	for _, c := range ct.clauses {
		if c.kind == "requires" && hasTag(c.tags, v.prop) {
			b, err := env.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			ex.oblige(st, b, "pre", fmt.Sprintf("%s calls %s: %s", caller, ct.key, clauseName(c)), pos)
		}
	}
	if st.dead {
		return
	}
	mods := ex.modSet(ct, &sEnv{ex: ex, vars: vars, st: pre, old: pre})
	if !ct.pure {
		n := Fresh("nextref", SInt)
		st.assume(Le(st.nextref, n))
		st.nextref = n
		ex.nrefs[n] = true
		for _, l := range ex.logs {
			l.alloc = true
		}
	}
	for _, n := range sortedKeys(mods) {
		m := mods[n]
		s, ok := ex.compSorts[n]
		if !ok {
			s = v.ghostSort(n)
		}
		if s == "" {
			panic(specError{msg: "unknown component " + n})
		}
		if m.all || m.scalar {
			ex.setComp(st, n, Fresh(n, s), nil)
			continue
		}
		c := ex.comp(st, n, s)
		for _, key := range m.keys {
			c = Store(c, key, Fresh(n, s.elem()))
			ex.setComp(st, n, c, key)
		}
	}
	for n := range mods {
		if strings.HasPrefix(n, "G:") {
			ex.assumeGinv(st)
			break
		}
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if v.isTypeParam(rt) {
			unsup("generic result")
		}
		rs = append(rs, ex.freshVal(st, "r:"+ct.key, rt))
	}
	// equations that define a result directly are substituted
	env2 := &sEnv{ex: ex, vars: ex.resultVars(ct, sig, rs, vars), st: st, old: pre, sink: st}
	for _, c := range ct.clauses {
		if c.kind == "ensures" && hasTag(c.tags, v.prop) {
			b, err := env2.safeBool(c)
			if err != nil {
				panic(specError{msg: err.Error()})
			}
			st.assume(b)
		}
	}
	if st.dead {
		return
	}
	k(fr, st, rs)
}

func (v *Verifier) isTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

// ---- invariants of package variables ----

// assumeGinv assumes the invariants of package variables; they are checked
// after package initialisation and at every assignment.
func (ex *Exec) assumeGinv(st *State) {
	for _, c := range ex.v.spec.ginvs {
		env := &sEnv{ex: ex, vars: map[string]SVal{}, st: st, old: st, sink: st}
		b, err := env.safeBool(c)
		if err != nil {
			panic(specError{msg: err.Error()})
		}
		st.assume(b)
	}
}

func (ex *Exec) checkGinv(fr *Frame, st *State, glob string, pos tokenPos) {
	for _, c := range ex.v.spec.ginvs {
		if !strings.Contains(c.text, glob) {
			continue
		}
		env := &sEnv{ex: ex, vars: map[string]SVal{}, st: st, old: st, sink: st}
		b, err := env.safeBool(c)
		if err != nil {
			panic(specError{msg: err.Error()})
		}
		ex.oblige(st, b, "invariant", funcKey(fr.fn)+" keeps "+clauseName(c), pos)
	}
}

// ---- discharging ----

type goalPart struct {
	assumes []*Term
	goal    *Term
}

// splitGoal breaks a goal into parts that are easier for the solver.
func splitGoal(assumes []*Term, g *Term) []goalPart {
	switch {
	case g == True:
		return nil
	case g.op == "and" && !g.isVar:
		var out []goalPart
		for i, a := range g.args {
			out = append(out, splitGoal(append(append([]*Term(nil), assumes...), g.args[:i]...), a)...)
		}
		return out
	case g.op == "=>" && !g.isVar:
		return splitGoal(append(append([]*Term(nil), assumes...), g.args[0]), g.args[1])
	case g.op == "forall":
		m := map[*Term]*Term{}
		for _, v := range g.vars {
			m[v] = Fresh("sk", v.sort)
		}
		if hi := successorBound(g); hi != nil {
			// the last index is a goal of its own
			last := Sub(hi, Int(1))
			sk := m[g.vars[0]]
			return append(splitGoal(append(append([]*Term(nil), assumes...), Lt(sk, last)), subst(g.args[0], m)),
				splitGoal(assumes, subst(g.args[0], map[*Term]*Term{g.vars[0]: last}))...)
		}
		return splitGoal(assumes, subst(g.args[0], m))
	case g.op == "ite" && !g.isVar && g.sort == SBool:
		return append(splitGoal(append(append([]*Term(nil), assumes...), g.args[0]), g.args[1]),
			splitGoal(append(append([]*Term(nil), assumes...), Not(g.args[0])), g.args[2])...)
	case g.op == "=" && !g.isVar && g.args[0].sort == SBool:
		a, b := g.args[0], g.args[1]
		return append(splitGoal(append(append([]*Term(nil), assumes...), a), b),
			splitGoal(append(append([]*Term(nil), assumes...), b), a)...)
	}
	as := assumes
	if g.op == "=" && !g.isVar {
		if f := extensional(g.args[0], g.args[1]); f != nil {
			as = append(append([]*Term(nil), assumes...), f)
		}
	}
	return []goalPart{{as, g}}
}

// successorBound recognises "for all k < t+1".
func successorBound(g *Term) *Term {
	b := g.args[0]
	if len(g.vars) != 1 || g.vars[0].sort != SInt || b.op != "=>" || b.isVar || b.args[0].op != "and" {
		return nil
	}
	for _, c := range b.args[0].args {
		if c.op == "<" && c.args[0] == g.vars[0] && c.args[1].op == "+" {
			for _, t := range c.args[1].args {
				if t.num != nil && t.num.Sign() > 0 {
					return c.args[1]
				}
			}
		}
	}
	return nil
}

// extensional is the instance of extensionality for one pair of sequences.
func extensional(a, b *Term) *Term {
	s := string(a.sort)
	switch {
	case strings.HasPrefix(s, "Seq."):
		k := s[4:]
		i := Fresh("ext", SInt)
		return Or(Eq(a, b), Not(Eq(seqLen(a), seqLen(b))), And(Le(Int(0), i), Lt(i, seqLen(a)), Not(Eq(App("idx."+k, seqElem(k), a, i), App("idx."+k, seqElem(k), b, i)))))
	case a.sort == SStr:
		i := Fresh("ext", SInt)
		return Or(Eq(a, b), Not(Eq(slen(a), slen(b))), And(Le(Int(0), i), Lt(i, slen(a)), Not(Eq(App("sat", SInt, a, i), App("sat", SInt, b, i)))))
	}
	return nil
}

const nLevels = 3

var (
	workedMu sync.Mutex
	worked   = map[string]int{}
	retries  int // goals tried again with other seeds, by this process
)

// part is one goal printed with each of the axiom sets.
type part struct {
	v    *Verifier
	q    *Query
	once [nLevels]sync.Once
	txt  [nLevels]string
}

func (p *part) at(lv int) string {
	p.once[lv].Do(func() {
		if p.q != nil {
			p.txt[lv] = p.v.prelude.printWith(p.q, len(p.v.prelude.axioms), lv)
		}
	})
	return p.txt[lv]
}

func (v *Verifier) prepare(assumes []*Term, goal *Term) []*part {
	var out []*part
	for _, p := range splitGoal(assumes, goal) {
		out = append(out, &part{v: v, q: &Query{assumes: v.trim(p.assumes, p.goal), goal: p.goal}})
	}
	return out
}

// trim drops nothing at present; kept separate so that relevance filtering has one place.
func (v *Verifier) trim(as []*Term, g *Term) []*Term { return as }

// proveText decides one goal.
// For goals that come back on other paths (same name) the attempt that worked
// before is the first one.
func (v *Verifier) proveText(q *part, rlimit int, name string) (bool, string, string) {
	var rs []string
	try := func(s Solver, lv, rl int, to time.Duration) (bool, bool) {
		r, out := runSolver(s, q.at(lv), rl, to)
		if r == SolverError {
			if len(out) > 300 {
				out = out[:300]
			}
			rs = append(rs, s.name+": "+out)
			return false, true
		}
		rs = append(rs, fmt.Sprintf("%s/%d: %s", s.name, lv, r))
		return r == Unsat, false
	}
	type attempt struct {
		s  Solver
		lv int
		rl int
		to time.Duration
	}
	order := []attempt{
		{z3new, 0, rlimit / 4, v.timeout}, {z3new, 1, rlimit, v.timeout}, {z3old, 1, rlimit, v.timeout},
		{z3new, 2, rlimit, v.timeout}, {cvc5s, 1, 0, v.timeout}, {z3old, 2, rlimit, v.timeout}}
	idx := []int{0, 1, 2, 3, 4, 5}
	workedMu.Lock()
	if k, ok := worked[name]; ok && k > 0 && name != "" {
		idx = append([]int{k}, append(append([]int(nil), idx[:k]...), idx[k+1:]...)...)
	}
	workedMu.Unlock()
	for n, i := range idx {
		a := order[i]
		if n > 0 && a.lv > 0 && q.at(a.lv) == q.at(a.lv-1) && a.s.name == z3new.name {
			continue
		}
		ok, bad := try(a.s, a.lv, a.rl, a.to)
		if ok {
			if n > 0 {
				workedMu.Lock()
				worked[name] = i
				workedMu.Unlock()
			}
			return true, a.s.name, ""
		}
		if bad && a.s.name == z3new.name {
			break
		}
	}
	// an unlucky order of instantiations is not a failure
	for seed := 1; seed <= 3; seed++ {
		workedMu.Lock()
		more := retries < 24
		retries++
		workedMu.Unlock()
		if !more {
			break
		}
		for _, lv := range []int{1, 0} {
			r, _ := runSeeded(z3new, q.at(lv), rlimit, v.timeout, seed)
			rs = append(rs, fmt.Sprintf("%s/%d seed %d: %s", z3new.name, lv, seed, r))
			if r == Unsat {
				return true, z3new.name, ""
			}
		}
	}
	return false, z3new.name, strings.Join(rs, ", ")
}

// quickPart decides with one solver and a small budget.
func (v *Verifier) quickPart(q *part, rlimit int, auto bool) (bool, string) {
	for lv := range q.txt {
		if lv > 0 && (auto || q.at(lv) == q.at(lv-1)) {
			continue
		}
		rl := rlimit
		if lv == 0 {
			rl = rlimit / 4
		}
		r, out := runSolver(z3new, q.at(lv), rl, v.timeout)
		if r == SolverError {
			return false, out
		}
		if r == Unsat {
			return true, ""
		}
	}
	return false, ""
}

func (ex *Exec) dispatch(res *TaskResult) {
	v := ex.v
	type item struct {
		o     *Obl
		parts []*part
		whole *part
	}
	// identical goals on different paths stay separate obligations
	items := make([]item, len(ex.obls))
	for i, o := range ex.obls {
		items[i] = item{o, v.prepare(o.assumes, o.goal), nil}
		if len(items[i].parts) > 2 && o.kind != "vacuity" {
			items[i].whole = &part{v: v, q: &Query{assumes: o.assumes, goal: o.goal}}
		}
	}
	sem := make(chan bool, v.jobs)
	var wg sync.WaitGroup
	for i := range items {
		it := items[i]
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			start := time.Now()
			o := it.o
			if o.kind == "vacuity" {
				o.res = Unsat
				for _, q := range it.parts {
					r, out := runSolver(z3new, q.at(1), v.rlimit/8, v.timeout)
					if r == Unsat {
						o.res = Sat
						o.detail = "the assumptions are contradictory"
						o.query = q.at(1)
					}
					if r == SolverError {
						o.res, o.detail, o.query = SolverError, out, q.at(1)
					}
				}
				o.solver = z3new.name
				o.ms = time.Since(start).Milliseconds()
				return
			}
			o.res = Unsat
			if it.whole != nil {
				// all parts at once, when that worked so far
				workedMu.Lock()
				no := worked["parts "+o.name] != 0
				workedMu.Unlock()
				if !no {
					if r, _ := runSolver(z3new, it.whole.at(0), v.rlimit/8, v.timeout); r == Unsat {
						o.solver = z3new.name
						o.ms = time.Since(start).Milliseconds()
						return
					}
					workedMu.Lock()
					worked["parts "+o.name] = 1
					workedMu.Unlock()
				}
			}
			for k, q := range it.parts {
				ok, s, d := v.proveText(q, v.rlimit, fmt.Sprintf("%s %d", o.name, k))
				o.solver = s
				if !ok {
					o.res = Unknown
					o.detail = d
					o.query = q.at(nLevels - 1)
					break
				}
			}
			if len(it.parts) == 0 {
				o.solver = "simplifier"
			}
			o.ms = time.Since(start).Milliseconds()
		}()
	}
	wg.Wait()
	for _, o := range append(ex.loopObls, ex.obls...) {
		r := OblResult{Name: o.name, Kind: o.kind, Pos: o.pos, OK: o.res == Unsat, Solver: o.solver, Detail: o.detail, MS: o.ms}
		if !r.OK {
			r.Trace = o.trace
			r.Query = o.query
		}
		res.Obls = append(res.Obls, r)
	}
	// vacuous exits: at least one must be reachable
	if !ex.root.nopanic {
		res.Vacuous = "no path reaches the end of the function"
		for _, as := range ex.exitStates {
			p := v.prepare(as, False)
			r := Unknown
			if len(p) > 0 {
				r, _ = runSolver(z3new, p[0].at(1), v.rlimit/8, v.timeout)
			}
			if r != Unsat {
				res.Vacuous = ""
				res.Obls = append(res.Obls, OblResult{Name: res.Name + " an exit is reachable", Kind: "vacuity", OK: true, Solver: z3new.name})
				break
			}
		}
	}
}
