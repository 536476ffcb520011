package main

// Loops: natural loops, havoc, inferred and templated invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var dumpN int

type tokenPos = token.Pos

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*loop
}

func (v *Verifier) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := v.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}}
	v.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.headers[s]
				if L == nil {
					L = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = L
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if L.blocks[x] {
						return
					}
					L.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return li
}

type loopCtx struct {
	back func(st *State, fr *Frame, phis map[ssa.Value]Val)
}

// lpoint is a place where candidates are evaluated: loop entry, header or back edge.
type lpoint struct {
	st   *State
	mk   int
	phis map[ssa.Value]Val
}

type cand struct {
	name string
	f    func(p *lpoint) *Term
	auto bool
}

func (ex *Exec) enterLoop(fr *Frame, L *loop, prev *ssa.BasicBlock, st *State) {
	b := L.header
	entryPhis := map[ssa.Value]Val{}
	ex.phiVals(fr, b, prev, entryPhis)
	mark := tt.n
	entryPt := &lpoint{st: st.clone(), phis: entryPhis, mk: mark}
	nref0 := st.nextref

	// what does the body write?
	w := newLog()
	for iter := 0; ; iter++ {
		if iter > 8 {
			unsup("loop write set does not stabilise")
		}
		lg := newLog()
		h := ex.havocState(st, w, mark, nil)
		fr2 := fr.clone()
		hp := ex.havocPhis(fr2, h, b, entryPhis)
		_ = hp
		fr2.inside = L.blocks
		fr2.loops = cloneLoops(fr.loops)
		fr2.loops[b] = &loopCtx{back: func(*State, *Frame, map[ssa.Value]Val) {}}
		ex.dry++
		ex.collect++
		ex.logs = append(ex.logs, lg)
		nc := ex.nextCell
		savePaths := ex.paths
		ex.instrs(fr2, b, 0, h)
		ex.paths = savePaths
		ex.logs = ex.logs[:len(ex.logs)-1]
		ex.collect--
		ex.dry--
		grew := false
		for c, ks := range lg.comps {
			for k := range ks {
				if k != nil && !invariantTerm(k, mark) {
					if ex.freshRef(k, mark) {
						continue
					}
					k = nil
				}
				if w.comps[c] == nil || !w.comps[c][k] && !w.comps[c][nil] {
					w.add(c, k)
					grew = true
				}
			}
		}
		for c := range lg.cells {
			if _, ok := st.cells[c]; ok && c <= nc && !w.cells[c] {
				w.cells[c] = true
				grew = true
			}
		}
		if lg.alloc && !w.alloc {
			w.alloc = true
			grew = true
		}
		if !grew {
			break
		}
	}
	for _, lg := range ex.logs {
		for c, ks := range w.comps {
			for k := range ks {
				lg.add(c, k)
			}
		}
		for c := range w.cells {
			lg.cells[c] = true
		}
		lg.alloc = lg.alloc || w.alloc
	}

	var head *lpoint
	run := func(cands []*cand, mode string, back func(p *lpoint)) {
		h := ex.havocState(st, w, mark, nil)
		fr2 := fr.clone()
		phis := ex.havocPhis(fr2, h, b, entryPhis)
		hp := &lpoint{st: h, phis: phis}
		for _, c := range cands {
			h.assume(c.f(hp))
		}
		head = &lpoint{st: h.clone(), phis: phis}
		fr2.loops = cloneLoops(fr.loops)
		fr2.loops[b] = &loopCtx{back: func(s *State, f *Frame, ps map[ssa.Value]Val) {
			if back != nil {
				back(&lpoint{st: s, phis: ps})
			}
		}}
		if mode == "dry" {
			fr2.inside = L.blocks
			ex.dry++
		}
		h.trace = &traceNode{"loop at " + ex.pos(firstPos(b)), h.trace}
		ex.instrs(fr2, b, 0, h)
		if mode == "dry" {
			ex.dry--
		}
	}

	if ex.collect > 0 {
		run(nil, "final", nil)
		return
	}

	cands := ex.candidates(fr, L, st, w, entryPt, nref0, mark)
	// Candidates that failed at this place in an earlier round of an outer loop
	// fail again: the rounds only weaken what is known.
	var key strings.Builder
	for t := st.trace; t != nil; t = t.prev {
		key.WriteString(t.s + "\n")
	}
	fmt.Fprintf(&key, "block %d\n", b.Index)
	gone := ex.gone[key.String()]
	// The first attempt also leaves out what failed when this loop was reached
	// on another path; verify repeats a failing function without this shortcut.
	var where strings.Builder
	for f := fr; f != nil; f = f.parent {
		where.WriteString(funcKey(f.fn) + "\n")
	}
	fmt.Fprintf(&where, "block %d\n", b.Index)
	if gone == nil && ex.fast {
		gone = ex.gone[where.String()]
		ex.shortcut = ex.shortcut || len(gone) > 0
	}
	all := cands
	if gone != nil {
		cands = nil
		for _, c := range all {
			if !gone[c.name] {
				cands = append(cands, c)
			}
		}
	}
	defer func() {
		m := map[string]bool{}
		for _, c := range all {
			m[c.name] = true
		}
		for _, c := range cands {
			delete(m, c.name)
		}
		ex.gone[key.String()] = m
		ex.gone[where.String()] = m
	}()
	// initiation
	cands = ex.filter(cands, func(c *cand) (bool, []*Term, *Term) {
		g := c.f(entryPt)
		return true, entryPt.st.assumptions(), g
	})
	// consecution
	rounds := 0
	for {
		rounds++
		if rounds > 40 {
			unsup("loop invariant inference does not converge")
		}
		var backs []*lpoint
		savePaths := ex.paths
		run(cands, "dry", func(p *lpoint) { backs = append(backs, p) })
		ex.paths = savePaths
		n := len(cands)
		for _, p := range backs {
			as := p.st.assumptions()
			cands = ex.filter(cands, func(c *cand) (bool, []*Term, *Term) { return true, as, c.f(p) })
		}
		if len(cands) == n {
			if ex.dry == 0 {
				var names []string
				for _, c := range cands {
					names = append(names, c.name)
					ex.loopObls = append(ex.loopObls, &Obl{name: fmt.Sprintf("%s loop in %s: invariant %s", ex.rootKey, funcKey(fr.fn), c.name), kind: "loop", pos: ex.pos(firstPos(b)), res: Unsat, solver: z3new.name})
				}
				ex.loopStats = append(ex.loopStats, fmt.Sprintf("%s %s: %d invariants in %d rounds: %s", funcKey(fr.fn), ex.pos(firstPos(b)), len(cands), rounds, strings.Join(names, "; ")))
			}
			break
		}
	}
	if ex.wantTerm() {
		var backs []*lpoint
		savePaths := ex.paths
		run(cands, "dry", func(p *lpoint) { backs = append(backs, p) })
		ex.paths = savePaths
		ex.checkTermination(fr, L, w, entryPt, head, backs, append(ex.loopBounds(fr, L, mark), ex.fieldBounds(fr, L, entryPt)...))
	}
	run(cands, "final", nil)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func cloneLoops(m map[*ssa.BasicBlock]*loopCtx) map[*ssa.BasicBlock]*loopCtx {
	n := map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// invariantTerm: every constant in t existed before the loop.
func invariantTerm(t *Term, mark int) bool {
	ok := true
	seen := map[*Term]bool{}
	collectSyms(t, seen, func(x *Term) {
		if x.isVar && x.id > mark && !strings.HasSuffix(x.op, "@0") {
			ok = false
		}
	})
	return ok
}

// freshRef: t denotes an object allocated inside the loop.
func (ex *Exec) freshRef(t *Term, mark int) bool {
	if isCtor(t) && len(t.args) == 1 && t.args[0].sort == SInt {
		return ex.freshRef(t.args[0], mark)
	}
	if t.sort != SInt {
		return false
	}
	if ex.nrefs[t] && t.id > mark {
		return true
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].num != nil && t.args[1].num.Sign() > 0 && ex.nrefs[t.args[0]] && t.args[0].id > mark {
		return true
	}
	// part of an allocated object
	if t.op == "+" && len(t.args) == 2 && t.args[1].num != nil && t.args[0].op == "*" {
		return ex.nrefs[t.args[0].args[1]] && t.args[0].args[1].id > mark
	}
	return false
}

func (ex *Exec) havocState(st *State, w *writeLog, mark int, _ any) *State {
	h := st.clone()
	if w.alloc {
		n := Fresh("nextref", SInt)
		h.assume(Le(st.nextref, n))
		h.nextref = n
		ex.nrefs[n] = true
	}
	for _, c := range sortedKeys(w.comps) {
		s := ex.compSorts[c]
		ks := w.comps[c]
		if ks[nil] {
			h.heap[c] = Fresh(c, s)
			continue
		}
		t := ex.comp(h, c, s)
		var keys []*Term
		for k := range ks {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, k := range keys {
			t = Store(t, k, Fresh(c, s.elem()))
		}
		h.heap[c] = t
	}
	for c := range w.comps {
		if strings.HasPrefix(c, "G:") {
			ex.assumeGinv(h)
			break
		}
	}
	var cs []int
	for c := range w.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		h.cells[c] = ex.havocVal(h, "cell", st.cells[c])
	}
	return h
}

// havocVal replaces the scalars of a value by fresh ones.
func (ex *Exec) havocVal(st *State, hint string, v Val) Val {
	switch x := v.(type) {
	case TV:
		return TV{Fresh(hint, x.T.sort)}
	case SliceV:
		s := SliceV{Fresh(hint+".b", SInt), Fresh(hint+".o", SInt), Fresh(hint+".l", SInt), Fresh(hint+".c", SInt), x.elem}
		ex.assumeWF(st, types.NewSlice(x.elem), s)
		return s
	case PtrV:
		if x.loc.kind == lObj && x.loc.path == "" {
			l := x.loc
			l.ref = Fresh(hint, SInt)
			p := PtrV{l}
			st.assume(allocTerm(l.ref, st.nextref))
			return p
		}
		unsup("loop-carried interior pointer")
	case StructV:
		n := StructV{typ: x.typ}
		for i, f := range x.f {
			_ = i
			n.f = append(n.f, ex.havocVal(st, hint, f))
		}
		ex.assumeWF(st, x.typ, n)
		return n
	case ArrayV:
		n := ArrayV{typ: x.typ}
		for _, f := range x.e {
			n.e = append(n.e, ex.havocVal(st, hint, f))
		}
		return n
	case FuncV:
		return TV{Fresh(hint, SInt)}
	case TupleV:
		var n TupleV
		for _, f := range x {
			n = append(n, ex.havocVal(st, hint, f))
		}
		return n
	}
	unsup("havoc of %T", v)
	return nil
}

func (ex *Exec) havocPhis(fr *Frame, h *State, b *ssa.BasicBlock, entry map[ssa.Value]Val) map[ssa.Value]Val {
	out := map[ssa.Value]Val{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.freshVal(h, "phi:"+phi.Comment, phi.Type())
		fr.env[phi] = v
		out[phi] = v
	}
	return out
}

// ---- candidates ----

func (ex *Exec) candidates(fr *Frame, L *loop, st *State, w *writeLog, ent *lpoint, nref0 *Term, mark int) []*cand {
	var out []*cand
	add := func(name string, f func(p *lpoint) *Term, auto bool) {
		out = append(out, &cand{name, f, auto})
	}
	b := L.header
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	// frames of components havocked as a whole
	for _, c := range sortedKeys(w.comps) {
		c := c
		if !w.comps[c][nil] {
			continue
		}
		s := ex.compSorts[c]
		if !strings.HasPrefix(string(s), "(Array") {
			add("unchanged "+c, func(p *lpoint) *Term { return Eq(ex.comp(p.st, c, s), ex.comp(ent.st, c, s)) }, true)
			continue
		}
		ks := s.key()
		var except []*Term
		for k := range w.comps[c] {
			if k != nil {
				except = append(except, k)
			}
		}
		add("objects that existed keep "+c, func(p *lpoint) *Term {
			r := BoundVarNamed("r?f", ks)
			var pre []*Term
			if ks == SInt {
				pre = append(pre, allocTerm(r, nref0))
			} else if ks == SIface {
				pre = append(pre, App("iallocated", SBool, r, nref0))
			}
			for _, k := range except {
				pre = append(pre, Not(Eq(r, k)))
			}
			now := ex.comp(p.st, c, s)
			if now == ex.comp(ent.st, c, s) {
				return True
			}
			return Forall([]*Term{r}, [][]*Term{{Select(now, r)}}, Imp(And(pre...), Eq(Select(now, r), Select(ex.comp(ent.st, c, s), r))))
		}, true)
	}
	// the same from the entry of the function on, for what its contract does not list
	if ex.entry != nil {
		mods := map[string]*modInfo{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specError); !ok {
						panic(r)
					}
				}
			}()
			mods = ex.modSet(ex.root, &sEnv{ex: ex, vars: ex.rootEnv, st: ex.entry, old: ex.entry})
		}()
		for _, c := range sortedKeys(w.comps) {
			c := c
			s := ex.compSorts[c]
			if !w.comps[c][nil] || !strings.HasPrefix(string(s), "(Array") || mods[c] != nil && mods[c].all || ex.entry.nextref == nref0 {
				continue
			}
			ks := s.key()
			add("objects that existed at entry keep "+c, func(p *lpoint) *Term {
				r := BoundVarNamed("r?f", ks)
				var pre []*Term
				if ks == SInt {
					pre = append(pre, allocTerm(r, ex.entry.nextref))
				} else if ks == SIface {
					pre = append(pre, App("iallocated", SBool, r, ex.entry.nextref))
				}
				if mods[c] != nil {
					for _, k := range mods[c].keys {
						pre = append(pre, Not(Eq(r, k)))
					}
				}
				now, was := ex.comp(p.st, c, s), ex.comp(ex.entry, c, s)
				if now == was {
					return True
				}
				return Forall([]*Term{r}, [][]*Term{{Select(now, r)}}, Imp(And(pre...), Eq(Select(now, r), Select(was, r))))
			}, true)
		}
	}
	// bounds of integer phis and cells
	type ivar struct {
		name string
		get  func(p *lpoint) *Term
	}
	var ints []ivar
	for _, phi := range phis {
		phi := phi
		switch u := under(phi.Type()).(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ints = append(ints, ivar{phi.Comment, func(p *lpoint) *Term { return ex.term(p.phis[phi]) }})
			}
		case *types.Slice:
			get := func(p *lpoint) SliceV { return p.phis[phi].(SliceV) }
			ints = append(ints, ivar{"len(" + phi.Comment + ")", func(p *lpoint) *Term { return get(p).len }})
			add(phi.Comment+" is new", func(p *lpoint) *Term { return Or(Le(nref0, get(p).base), Eq(get(p).cap, Int(0))) }, true)
			add(phi.Comment+" keeps its array", func(p *lpoint) *Term { return And(Eq(get(p).base, get(ent).base), Eq(get(p).off, get(ent).off)) }, true)
			add(phi.Comment+" keeps its array or is new", func(p *lpoint) *Term {
				return Or(Eq(get(p).base, get(ent).base), Le(nref0, get(p).base), Eq(get(p).cap, Int(0)))
			}, true)
		case *types.Pointer:
			add(phi.Comment+" is not nil", func(p *lpoint) *Term { return Not(Eq(ex.term(p.phis[phi]), Int(0))) }, true)
		}
	}
	for ci, c := range sortedInts(w.cells) {
		c := c
		switch x := st.cells[c].(type) {
		case TV:
			if x.T.sort == SInt {
				ints = append(ints, ivar{fmt.Sprintf("cell%d", ci), func(p *lpoint) *Term { return p.st.cells[c].(TV).T }})
			}
		}
	}
	// integer fields of objects that are fixed during the loop
	nints := len(ints)
	for _, cn := range sortedKeys(w.comps) {
		cn := cn
		if !strings.HasPrefix(cn, "H:") || w.comps[cn][nil] {
			continue
		}
		s := ex.compSorts[cn]
		if s.elem() != SInt {
			continue
		}
		for k := range w.comps[cn] {
			k := k
			ints = append(ints, ivar{cn, func(p *lpoint) *Term { return Select(ex.comp(p.st, cn, s), k) }})
		}
	}
	if len(ints)-nints > 8 {
		// a loop that changes this much is not about single fields
		ints = ints[:nints]
	}
	bounds := ex.loopBounds(fr, L, mark)
	if !ex.bv {
		for _, iv := range ints {
			iv := iv
			add(iv.name+" >= start", func(p *lpoint) *Term { return Le(iv.get(ent), iv.get(p)) }, true)
			add(iv.name+" <= start", func(p *lpoint) *Term { return Le(iv.get(p), iv.get(ent)) }, true)
			if !strings.HasPrefix(iv.name, "len(") {
				add(iv.name+" >= 0", func(p *lpoint) *Term { return Le(Int(0), iv.get(p)) }, true)
				add(iv.name+" >= -1", func(p *lpoint) *Term { return Le(Int(-1), iv.get(p)) }, true)
			}
			for i, bd := range bounds {
				bd := bd
				add(fmt.Sprintf("%s <= bound%d", iv.name, i), func(p *lpoint) *Term { return Le(iv.get(p), bd(p)) }, true)
				add(fmt.Sprintf("%s < bound%d", iv.name, i), func(p *lpoint) *Term { return Lt(iv.get(p), bd(p)) }, true)
				add(fmt.Sprintf("%s >= bound%d", iv.name, i), func(p *lpoint) *Term { return Le(bd(p), iv.get(p)) }, true)
			}
		}
		for i, x := range ints {
			for _, y := range ints[i+1:] {
				x, y := x, y
				add(x.name+" <= "+y.name, func(p *lpoint) *Term { return Le(x.get(p), y.get(p)) }, true)
				add(y.name+" <= "+x.name, func(p *lpoint) *Term { return Le(y.get(p), x.get(p)) }, true)
				if len(ints) <= 4 {
					add(x.name+" - "+y.name+" fixed", func(p *lpoint) *Term { return Eq(Sub(x.get(p), y.get(p)), Sub(x.get(ent), y.get(ent))) }, true)
				}
			}
		}
	}
	// templates of the contract, and of the contracts of inlined functions
	for _, src := range ex.sources(fr) {
		for _, cl := range src.ct.clauses {
			if cl.kind != "loop" || !hasTag(cl.tags, ex.v.prop) {
				continue
			}
			cl, src := cl, src
			ex.instantiate(fr, L, cl, w, phis, ent, func(desc string, bind func(p *lpoint) map[string]SVal) {
				f := func(p *lpoint) *Term {
					vars := map[string]SVal{}
					for k, x := range src.vars {
						vars[k] = x
					}
					for k, x := range bind(p) {
						vars[k] = x
					}
					env := &sEnv{ex: ex, vars: vars, st: p.st, old: src.old, loopE: ent.st, sink: nil}
					t, err := env.safeBool(cl)
					if err != nil {
						panic(candSkip{err.Error()})
					}
					return t
				}
				ok := func() (ok bool) {
					defer func() {
						if r := recover(); r != nil {
							if cs, is := r.(candSkip); is {
								if ex.v.verbose {
									fmt.Println("template skipped:", cs.msg)
								}
								ok = false
								return
							}
							panic(r)
						}
					}()
					f(ent)
					return true
				}()
				if ok {
					add(cl.text+" {"+desc+"}", f, false)
				}
			})
		}
	}
	return out
}

type candSkip struct{ msg string }

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// fieldBounds collects the fields (or their lengths) that are compared inside the loop.
func (ex *Exec) fieldBounds(fr *Frame, L *loop, ent *lpoint) []func(p *lpoint) *Term {
	var out []func(p *lpoint) *Term
	seen := map[string]bool{}
	var loc func(p *lpoint, x ssa.Value) (Loc, bool)
	loc = func(p *lpoint, x ssa.Value) (Loc, bool) {
		if v, ok := fr.env[x]; ok {
			if ins, ok := x.(ssa.Instruction); !ok || !L.blocks[ins.Block()] {
				if q, ok := v.(PtrV); ok {
					return q.loc, true
				}
			}
		}
		if f, ok := x.(*ssa.FieldAddr); ok {
			if l, ok := loc(p, f.X); ok {
				return ex.fieldLoc(l, f.Field), true
			}
		}
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if l, ok := loc(p, u.X); ok {
				var v Val
				if l.kind == lObj {
					v, _ = ex.v.stableField(ex, l)
				}
				if v == nil {
					v = ex.load(p.st, l, false)
				}
				if q, ok := v.(PtrV); ok {
					return q.loc, true
				}
			}
		}
		return Loc{}, false
	}
	for _, b := range sortedBlocks(L.blocks) {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, x := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := x.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						x = c.Call.Args[0]
					}
				}
				u, ok := x.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				_, ok = loc(ent, u.X)
				if !ok || seen[u.X.String()] {
					continue
				}
				seen[u.X.String()] = true
				out = append(out, func(p *lpoint) *Term {
					l, _ := loc(p, u.X)
					switch v := ex.load(p.st, l, false).(type) {
					case SliceV:
						return v.len
					case TV:
						switch v.T.sort {
						case SInt:
							return v.T
						case SStr:
							return slen(v.T)
						}
					}
					return Int(0)
				})
			}
		}
	}
	return out
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var blocks []*ssa.BasicBlock
	for b := range m {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	return blocks
}

// loopBounds collects loop-invariant values that are compared inside the loop.
func (ex *Exec) loopBounds(fr *Frame, L *loop, mark int) []func(p *lpoint) *Term {
	var out []func(p *lpoint) *Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil || t.sort != SInt || seen[t] || len(out) > 6 {
			return
		}
		seen[t] = true
		out = append(out, func(*lpoint) *Term { return t })
	}
	for _, b := range sortedBlocks(L.blocks) {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, x := range []ssa.Value{bo.X, bo.Y} {
				bt, ok := under(x.Type()).(*types.Basic)
				if !ok || bt.Info()&types.IsInteger == 0 {
					continue
				}
				if c, ok := x.(*ssa.Const); ok {
					_ = c
					continue
				}
				if v, ok := fr.env[x]; ok {
					if ins, ok := x.(ssa.Instruction); ok && L.blocks[ins.Block()] {
						continue
					}
					if tv, ok := v.(TV); ok {
						add(tv.T)
					}
					continue
				}
				// len of a slice or string that is fixed
				if c, ok := x.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if v, ok := fr.env[c.Call.Args[0]]; ok {
							if ins, ok := c.Call.Args[0].(ssa.Instruction); ok && L.blocks[ins.Block()] {
								continue
							}
							switch s := v.(type) {
							case SliceV:
								add(s.len)
							case TV:
								if s.T.sort == SStr {
									add(slen(s.T))
								}
							}
						} else if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok {
							_ = ld
						}
					}
				}
			}
		}
	}
	return out
}

// instantiate enumerates the bindings of a template's metavariables.
func (ex *Exec) instantiate(fr *Frame, L *loop, cl *Clause, w *writeLog, phis []*ssa.Phi, ent *lpoint, emit func(string, func(p *lpoint) map[string]SVal)) {
	type choice struct {
		desc string
		get  func(p *lpoint) SVal
	}
	options := func(mv metaVar) []choice {
		var out []choice
		for _, phi := range phis {
			phi := phi
			ok := false
			switch mv.typ {
			case "int":
				b, is := under(phi.Type()).(*types.Basic)
				ok = is && b.Info()&types.IsInteger != 0
			case "str":
				b, is := under(phi.Type()).(*types.Basic)
				ok = is && b.Info()&types.IsString != 0
			case "bool":
				b, is := under(phi.Type()).(*types.Basic)
				ok = is && b.Info()&types.IsBoolean != 0
			case "slice":
				_, ok = under(phi.Type()).(*types.Slice)
			default:
				ok = typeName(phi.Type()) == mv.typ
			}
			if !ok {
				continue
			}
			out = append(out, choice{phi.Comment, func(p *lpoint) SVal { return SVal{v: p.phis[phi], typ: phi.Type()} }})
			if mv.typ == "int" {
				if c, is := ent.phis[phi].(TV); is && c.T == Int(-1) {
					out = append(out, choice{phi.Comment + "+1", func(p *lpoint) SVal { return lt(Add(ex.term(p.phis[phi]), Int(1))) }})
				}
			}
		}
		for ci, c := range sortedInts(w.cells) {
			c := c
			switch x := ent.st.cells[c].(type) {
			case TV:
				if mv.typ == "int" && x.T.sort == SInt || mv.typ == "str" && x.T.sort == SStr || mv.typ == "bool" && x.T.sort == SBool {
					out = append(out, choice{fmt.Sprintf("cell%d", ci), func(p *lpoint) SVal { return lt(p.st.cells[c].(TV).T) }})
				}
			case SliceV:
				if mv.typ == "slice" || mv.typ == "[]"+typeName(x.elem) {
					el := x.elem
					out = append(out, choice{fmt.Sprintf("cell%d", ci), func(p *lpoint) SVal { return SVal{v: p.st.cells[c], typ: types.NewSlice(el)} }})
				}
			}
		}
		// values from outside of the loop
		if strings.HasPrefix(mv.typ, "outer:") {
			want := mv.typ[6:]
			var vs []ssa.Value
			for x := range fr.env {
				if typeName(x.Type()) == want {
					if ins, ok := x.(ssa.Instruction); ok && L.blocks[ins.Block()] {
						continue
					}
					vs = append(vs, x)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			same := map[*Term]bool{}
			for _, x := range vs {
				val := fr.env[x]
				t := x.Type()
				if tv, ok := val.(TV); ok {
					if same[tv.T] {
						continue
					}
					same[tv.T] = true
				}
				out = append(out, choice{x.Name(), func(p *lpoint) SVal { return SVal{v: val, typ: t} }})
			}
			// variables
			vs = nil
			for x, val := range fr.env {
				if pt, ok := x.Type().Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == want {
					if ins, ok := x.(ssa.Instruction); ok && L.blocks[ins.Block()] {
						continue
					}
					if q, ok := val.(PtrV); ok && q.loc.kind == lCell {
						vs = append(vs, x)
					}
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, x := range vs {
				l := fr.env[x].(PtrV).loc
				t := x.Type().Underlying().(*types.Pointer).Elem()
				out = append(out, choice{x.Name(), func(p *lpoint) SVal { return SVal{v: ex.load(p.st, l, false), typ: t} }})
			}
		}
		if mv.typ == "builder" {
			seen := map[*Term]bool{}
			for f := fr; f != nil; f = f.parent {
				var vs []ssa.Value
				for x := range f.env {
					if typeName(x.Type()) == "*strings.Builder" {
						vs = append(vs, x)
					}
				}
				sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
				for _, x := range vs {
					bv := f.env[x]
					t := ex.term(bv)
					if seen[t] || !invariantTerm(t, ent.mark()) {
						continue
					}
					seen[t] = true
					typ := x.Type()
					out = append(out, choice{fmt.Sprintf("builder%d", len(seen)), func(p *lpoint) SVal { return SVal{v: bv, typ: typ} }})
				}
			}
		}
		return out
	}
	var rec func(i int, desc []string, gets []func(p *lpoint) SVal)
	rec = func(i int, desc []string, gets []func(p *lpoint) SVal) {
		if i == len(cl.meta) {
			g := append([]func(p *lpoint) SVal(nil), gets...)
			emit(strings.Join(desc, ","), func(p *lpoint) map[string]SVal {
				m := map[string]SVal{}
				for j, mv := range cl.meta {
					m[mv.name] = g[j](p)
				}
				return m
			})
			return
		}
		for _, c := range options(cl.meta[i]) {
			// two slices are different variables
			if cl.meta[i].typ == "slice" && i > 0 && cl.meta[i-1].typ == "slice" && strings.HasSuffix(desc[i-1], "="+c.desc) {
				continue
			}
			rec(i+1, append(desc, cl.meta[i].name+"="+c.desc), append(gets, c.get))
		}
	}
	rec(0, nil, nil)
}

func (p *lpoint) mark() int { return p.mk }

// filter keeps the candidates whose goal is provable.
func (ex *Exec) filter(cs []*cand, q func(c *cand) (bool, []*Term, *Term)) []*cand {
	if len(cs) == 0 {
		return nil
	}
	type item struct {
		c     *cand
		goal  *Term
		as    []*Term
		parts []*part
		ok    bool
	}
	var items []*item
	var all []*Term
	var as []*Term
	for _, c := range cs {
		_, a, g := q(c)
		as = a
		it := &item{c: c, goal: g, as: a}
		if g == True {
			it.ok = true
		} else {
			all = append(all, g)
		}
		items = append(items, it)
	}
	if len(all) > 0 {
		// syntactic help: goals already assumed
		have := map[*Term]bool{}
		for _, a := range as {
			have[a] = true
		}
		for _, it := range items {
			if have[it.goal] {
				it.ok = true
			}
		}
		sem := make(chan bool, ex.v.jobs)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var solverErr string
		one := func(it *item) {
			rl := ex.v.rlimit
			if it.c.auto {
				rl = ex.v.rlimit / 4
			}
			ok := true
			for _, p := range it.parts {
				r, errs := ex.v.quickPart(p, rl, it.c.auto)
				if errs != "" {
					mu.Lock()
					solverErr = errs
					mu.Unlock()
				}
				if !r {
					if d := os.Getenv("GVC_DUMPCAND"); d != "" && strings.Contains(it.c.name, d) {
						mu.Lock()
						dumpN++
						os.WriteFile(fmt.Sprintf("/tmp/q/cand%d.smt2", dumpN), []byte(p.at(nLevels-1)), 0o644)
						mu.Unlock()
					}
					ok = false
					break
				}
			}
			it.ok = ok
		}
		// some at a time first; most candidates hold in the end
		const group = 5
		var todo, single []*item
		for _, it := range items {
			if !it.ok {
				it.parts = ex.v.prepare(it.as, it.goal)
				todo = append(todo, it)
			}
		}
		for len(todo) > 0 {
			n := min(group, len(todo))
			g := todo[:n]
			todo = todo[n:]
			var whole *part
			if n > 1 {
				var gs []*Term
				for _, it := range g {
					gs = append(gs, it.goal)
				}
				whole = &part{v: ex.v, q: &Query{assumes: g[0].as, goal: And(gs...)}}
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				if whole != nil {
					if r, _ := runSolver(z3new, whole.at(0), ex.v.rlimit/20, ex.v.timeout); r == Unsat {
						for _, it := range g {
							it.ok = true
						}
						return
					}
				}
				mu.Lock()
				single = append(single, g...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		for _, it := range single {
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				one(it)
			}()
		}
		wg.Wait()
		if solverErr != "" {
			panic(specError{msg: "solver: " + solverErr})
		}
	}
	var out []*cand
	for _, it := range items {
		if it.ok {
			out = append(out, it.c)
		} else if ex.v.verbose {
			fmt.Println("  candidate dropped:", it.c.name)
		}
	}
	return out
}

// ---- termination ----

func (ex *Exec) wantTerm() bool {
	return ex.dry == 0 && !ex.bv && (ex.v.prop == "C01" || ex.v.prop == "C06" || ex.v.prop == "C15" && ex.inCompletion())
}

// wantPanics: C01 is about all functions, C15 about the completion package;
// the functions that it calls are the business of C01.
func (ex *Exec) wantPanics() bool {
	return ex.v.prop == "C01" || ex.v.prop == "C15" && ex.inCompletion()
}

func (ex *Exec) inCompletion() bool {
	return ex.rootFn != nil && ex.rootFn.Pkg != nil && ex.rootFn.Pkg.Pkg.Name() == "completion"
}

// checkTermination looks for an expression that decreases and stays bounded on
// every way round the loop. A loop that reads a key on every round ends with
// the input.
func (ex *Exec) checkTermination(fr *Frame, L *loop, w *writeLog, ent *lpoint, head *lpoint, backs []*lpoint, bounds []func(p *lpoint) *Term) {
	type measure struct {
		name string
		f    func(p *lpoint) *Term
		up   bool
	}
	var ms []*measure
	add := func(name string, f func(p *lpoint) *Term) { ms = append(ms, &measure{name: name, f: f}) }
	ms = append(ms, &measure{name: "keys left in the input", f: func(p *lpoint) *Term { return ex.comp(p.st, "g:nkeys", SInt) }, up: true})
	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	num := func(name string, get func(p *lpoint) *Term) {
		add(name, func(p *lpoint) *Term { return Add(get(p), Int(1)) })
		for i, bd := range bounds {
			bd := bd
			add(fmt.Sprintf("bound%d - %s", i, name), func(p *lpoint) *Term { return Sub(bd(p), get(p)) })
		}
	}
	for _, phi := range phis {
		phi := phi
		switch u := under(phi.Type()).(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				num(phi.Comment, func(p *lpoint) *Term { return ex.term(p.phis[phi]) })
			} else if u.Info()&types.IsString != 0 {
				add("len("+phi.Comment+")", func(p *lpoint) *Term { return slen(ex.term(p.phis[phi])) })
			}
		case *types.Slice:
			add("len("+phi.Comment+")", func(p *lpoint) *Term { return p.phis[phi].(SliceV).len })
		}
	}
	iters := map[int]*Term{}
	for _, v := range fr.env {
		if it, ok := v.(IterV); ok {
			iters[it.cell] = it.str
		}
	}
	for _, c := range sortedInts(w.cells) {
		c := c
		if x, ok := ent.st.cells[c].(TV); ok {
			get := func(p *lpoint) *Term { return p.st.cells[c].(TV).T }
			if s := iters[c]; s != nil {
				add("rest of the string", func(p *lpoint) *Term { return Sub(slen(s), get(p)) })
			} else if x.T.sort == SInt {
				num(fmt.Sprintf("cell%d", c), get)
			} else if x.T.sort == SStr {
				add(fmt.Sprintf("len(cell%d)", c), func(p *lpoint) *Term { return slen(get(p)) })
			}
		} else if _, ok := ent.st.cells[c].(SliceV); ok {
			add(fmt.Sprintf("len(cell%d)", c), func(p *lpoint) *Term { return p.st.cells[c].(SliceV).len })
		}
	}
	for _, cn := range sortedKeys(w.comps) {
		cn := cn
		if !strings.HasPrefix(cn, "H:") || w.comps[cn][nil] {
			continue
		}
		s := ex.compSorts[cn]
		if s.elem() != SInt {
			continue
		}
		for k := range w.comps[cn] {
			k := k
			num(cn, func(p *lpoint) *Term { return Select(ex.comp(p.st, cn, s), k) })
		}
	}
	for _, src := range ex.sources(fr) {
		for _, cl := range src.ct.clauses {
			if cl.kind != "decreases" || !hasTag(cl.tags, ex.v.prop) {
				continue
			}
			cl, src := cl, src
			ex.instantiate(fr, L, cl, w, phis, ent, func(desc string, bind func(p *lpoint) map[string]SVal) {
				add(cl.text+" {"+desc+"}", func(p *lpoint) *Term {
					vars := map[string]SVal{}
					for k, x := range src.vars {
						vars[k] = x
					}
					for k, x := range bind(p) {
						vars[k] = x
					}
					env := &sEnv{ex: ex, vars: vars, st: p.st, old: src.old, loopE: ent.st}
					return env.int(cl.expr)
				})
			})
		}
	}
	var cs []*cand
	for _, m := range ms {
		m := m
		cs = append(cs, &cand{m.name, func(p *lpoint) *Term {
			if m.up {
				return Lt(m.f(head), m.f(p))
			}
			return And(Le(Int(0), m.f(head)), Lt(m.f(p), m.f(head)))
		}, false})
	}
	ob := &Obl{name: fmt.Sprintf("%s loop in %s ends", ex.rootKey, funcKey(fr.fn)), kind: "ends", pos: ex.pos(firstPos(L.header)), res: Unsat, solver: z3new.name}
	keep := func(cs []*cand) []*cand {
		for _, p := range backs {
			as := p.st.assumptions()
			cs = ex.filter(cs, func(c *cand) (bool, []*Term, *Term) { return true, as, c.f(p) })
		}
		return cs
	}
	reads := len(backs) > 0
	for _, p := range backs {
		reads = reads && ms[0].f(p) != ms[0].f(head)
	}
	var first []*cand
	if reads {
		// a loop that reads keys
		first = keep(cs[:1])
	}
	if len(first) > 0 {
		cs = first
	} else {
		cs = keep(cs)
	}
	if len(cs) == 0 && len(backs) > 0 {
		ob.res = Unknown
		ob.detail = "no expression was found that decreases on every way round the loop"
	} else if len(backs) > 0 {
		ob.name += ": " + cs[0].name
	}
	ex.loopObls = append(ex.loopObls, ob)
}

type tmplSource struct {
	ct   *Contract
	vars map[string]SVal
	old  *State
}

// sources are the contracts whose templates apply in a frame: the one under
// verification and those of the functions executed in place.
func (ex *Exec) sources(fr *Frame) []tmplSource {
	out := []tmplSource{{ex.root, ex.rootEnv, ex.entry}}
	for f := fr; f != nil; f = f.parent {
		ct := ex.v.spec.contracts[funcKey(f.fn)]
		if f.st0 == nil || ct == nil || ct == ex.root || len(ct.params) != len(f.args) {
			continue
		}
		vars := map[string]SVal{}
		for i, p := range f.fn.Params {
			vars[ct.params[i]] = SVal{v: f.args[i], typ: p.Type()}
		}
		out = append(out, tmplSource{ct, vars, f.st0})
	}
	return out
}
