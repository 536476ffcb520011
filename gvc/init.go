package main

// Package initialisation: the variables that are set once and never again.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type initInfo struct {
	st     *State
	ex     *Exec
	refs   int64
	stable map[*ssa.Global]bool
	fields map[string]bool // "pkg.Type.Field" written only while the object is constructed
	err    string
}

// runInit executes the initialisation of the repository's packages from an
// empty heap. Library calls yield arbitrary values.
func (v *Verifier) runInit() {
	ii := &initInfo{stable: map[*ssa.Global]bool{}, fields: map[string]bool{}}
	v.init = ii
	ex := newExec(v)
	ex.root = &Contract{key: "init"}
	ex.rootKey = "init"
	ex.initMode = true
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}, nextref: Int(1)}
	done := map[*ssa.Package]bool{}
	var order []*ssa.Package
	byPath := map[string]*ssa.Package{}
	for _, p := range v.pkgs {
		byPath[p.Pkg.Path()] = p
	}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || done[p] || p.Pkg.Name() == "main" {
			return
		}
		done[p] = true
		for _, im := range p.Pkg.Imports() {
			visit(byPath[im.Path()])
		}
		order = append(order, p)
	}
	for _, p := range v.pkgs {
		visit(p)
	}
	ex.dry++
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported:
					ii.err = x.msg
				default:
					panic(r)
				}
			}
		}()
		for _, p := range order {
			f := p.Func("init")
			if f == nil {
				continue
			}
			g := "G:" + p.Pkg.Name() + ".init$guard"
			st.heap[g] = False
			var fin *State
			n := 0
			ex.callBody(f, nil, nil, st, 0, "|init|", func(s2 *State, _ []Val) { fin = s2; n++ })
			if n != 1 {
				unsup("initialisation of %s has %d outcomes", p.Pkg.Name(), n)
			}
			st = fin
		}
	}()
	ii.st, ii.ex = st, ex
	if n, ok := st.nextref.intVal(); ok {
		ii.refs = n
	} else {
		ii.err = "initialisation allocates an unknown number of objects"
		return
	}
	v.findStable()
}

// findStable collects globals stored only by initialisers and fields stored
// only into objects under construction.
func (v *Verifier) findStable() {
	ii := v.init
	bad := map[*ssa.Global]bool{}
	stored := map[*ssa.Global]bool{}
	badF := map[string]bool{}
	field := func(fa *ssa.FieldAddr) string {
		pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
		return typeName(pt) + "." + under(pt).(*types.Struct).Field(fa.Field).Name()
	}
	fieldsOf := func(t types.Type) []string {
		var out []string
		if s, ok := under(t).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, typeName(t)+"."+s.Field(i).Name())
			}
		}
		return out
	}
	fns := append([]*ssa.Function(nil), v.allFns...)
	for _, p := range v.pkgs {
		if f := p.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		inInit := f.Name() == "init" && f.Parent() == nil && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if inInit {
							stored[g] = true
						} else {
							bad[g] = true
						}
					}
					switch a := s.Addr.(type) {
					case *ssa.FieldAddr:
						if _, fresh := a.X.(*ssa.Alloc); fresh {
							ii.fields[field(a)] = true
						} else {
							badF[field(a)] = true
						}
					case *ssa.Alloc:
					default:
						for _, n := range fieldsOf(s.Val.Type()) {
							badF[n] = true
						}
					}
				}
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if i == 0 {
							continue
						}
					}
					bad[g] = true
				}
				// addresses of fields that escape
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						switch x := r.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Val == fa {
								badF[field(fa)] = true
							}
						case *ssa.DebugRef:
						default:
							badF[field(fa)] = true
						}
					}
				}
			}
		}
	}
	for g := range stored {
		if !bad[g] {
			ii.stable[g] = true
		}
	}
	for f := range badF {
		delete(ii.fields, f)
	}
}

// stableGlobal gives the value of a pointer variable that is set by the
// package initialisation only.
func (v *Verifier) stableGlobal(ex *Exec, g *ssa.Global) (Val, bool) {
	ii := v.init
	if ii == nil || ii.st == nil || ex.initMode || !ii.stable[g] {
		return nil, false
	}
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := under(t).(*types.Pointer); !ok {
		return nil, false
	}
	c, ok := ii.st.heap["G:"+globalName(g)]
	if !ok || c.num == nil {
		return nil, false
	}
	ex.stableUsed[globalName(g)] = true
	return ex.scalarVal(t, c), true
}

// stableField gives the value of a field of an object made by the
// initialisation when no code writes that field later.
func (v *Verifier) stableField(ex *Exec, l Loc) (Val, bool) {
	ii := v.init
	if ii == nil || ii.st == nil || ex.initMode || l.kind != lObj || l.path == "" || l.ref.num == nil {
		return nil, false
	}
	if n, _ := l.ref.intVal(); n <= 0 || n >= ii.refs {
		return nil, false
	}
	if strings.Count(l.path, ".") != 1 || !ii.fields[typeName(l.root)+l.path] {
		return nil, false
	}
	if _, ok := under(l.typ).(*types.Signature); !ok {
		return nil, false
	}
	c, ok := ii.st.heap[locPrefix(l)]
	if !ok {
		return nil, false
	}
	t := Select(c, l.ref)
	f, ok := ii.ex.funcTerms[t]
	if !ok || len(f.binds) > 0 || f.recv != nil {
		return nil, false
	}
	return f, true
}

func (v *Verifier) initRefs() int64 {
	if v.init != nil && v.init.refs > 0 {
		return v.init.refs
	}
	return 1
}

// initJoin executes a branch of an initialiser that depends on the
// environment: the first side is followed, the other is skipped, and every
// variable assigned at the join is arbitrary.
func (ex *Exec) initJoin(fr *Frame, b *ssa.BasicBlock, c *Term, st *State) {
	// find the join: the nearest block that post-dominates b by simple search
	reach := func(x *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		var w func(y *ssa.BasicBlock)
		w = func(y *ssa.BasicBlock) {
			if m[y] {
				return
			}
			m[y] = true
			for _, s := range y.Succs {
				w(s)
			}
		}
		w(x)
		return m
	}
	r0, r1 := reach(b.Succs[0]), reach(b.Succs[1])
	var join *ssa.BasicBlock
	for _, x := range fr.fn.Blocks {
		if r0[x] && r1[x] && b.Dominates(x) && (join == nil || x.Dominates(join)) {
			join = x
		}
	}
	if join == nil {
		unsup("initialiser branch without join")
	}
	// code between must not have effects
	for _, x := range fr.fn.Blocks {
		if (r0[x] || r1[x]) && x != join && b.Dominates(x) && !join.Dominates(x) {
			for _, in := range x.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Return:
					unsup("initialiser branch with effects in %s: %s", funcKey(fr.fn), in)
				}
			}
		}
	}
	for _, in := range join.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[phi] = ex.freshVal(st, "phi", phi.Type())
	}
	ex.instrs(fr, join, 0, st)
}
