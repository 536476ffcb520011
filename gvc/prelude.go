package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

// buildPrelude assembles sorts, the datatype of interface values, sequence
// theories and the prelude files.
func (v *Verifier) buildPrelude() {
	p := newPrelude()
	v.prelude = p
	for _, s := range []string{"Str", "Seq.M", "Seq.S", "Seq.R", "Seq.L"} {
		p.sorts = append(p.sorts, "(declare-sort "+s+" 0)")
	}
	var sb strings.Builder
	sb.WriteString("(declare-datatypes ((Iface 0)) (((I.nil) (I.other (I.other!0 Int))")
	for _, n := range v.ctorOrder {
		c := v.ctors[n]
		fmt.Fprintf(&sb, " (%s", symName(n))
		for i, s := range c.sorts {
			fmt.Fprintf(&sb, " (%s %s)", symName(fmt.Sprintf("%s#%d", n, i)), s)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	// references inside interface values
	sb.WriteString("(define-fun iallocated ((x Iface) (n Int)) Bool (and true")
	for _, n := range v.ctorOrder {
		c := v.ctors[n]
		if c.typ == nil {
			continue
		}
		switch u := under(c.typ).(type) {
		case *types.Pointer:
			_ = u
			fmt.Fprintf(&sb, " (=> ((_ is %s) x) (and (< (* (- %d) n) (%s x)) (< (%s x) n)))", symName(n), subMul, symName(n+"#0"), symName(n+"#0"))
		}
	}
	sb.WriteString("))\n")
	sb.WriteString("(declare-fun isother (Iface Int) Bool)\n")
	p.data = sb.String()
	p.sigs["iallocated"] = Sig{[]Sort{SIface, SInt}, SBool}
	p.sigs["isother"] = Sig{[]Sort{SIface, SInt}, SBool}
	var err error
	chk := func(e error) {
		if e != nil && err == nil {
			err = e
		}
	}
	chk(p.addText(strTheory))
	chk(p.addText(seqTheory("M", "Iface")))
	chk(p.addText(seqTheory("S", "Str")))
	chk(p.addText(seqTheory("R", "Int")))
	chk(p.addText(seqTheory("L", "Seq.M")))
	for _, t := range v.spec.prelude {
		chk(p.addText(t))
	}
	v.preErr = err
}

const strTheory = `
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun sempty () Str)
(declare-fun sunit (Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sofarr ((Array Int Int) Int Int) Str)
(declare-fun sless (Str Str) Bool)
(declare-fun enc (Int) Str)
(declare-fun drune (Str) Int)
(declare-fun dsize (Str) Int)
(declare-fun dec (Int) Str)
(declare-fun iand (Int Int) Int)
(declare-fun ior (Int Int) Int)
(declare-fun ixor (Int Int) Int)
(declare-fun ishl (Int Int) Int)
(declare-fun ishr (Int Int) Int)
(declare-fun iandnot (Int Int) Int)
(declare-fun goop/ (Int Int) Int)
(declare-fun goop% (Int Int) Int)
(axiom str.len (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s sempty))) :pattern ((slen s)))))
(axiom str.empty (= (slen sempty) 0))
(axiom str.unit (forall ((e Int)) (! (and (= (slen (sunit e)) 1) (= (sat (sunit e) 0) e)) :pattern ((sunit e)))))
(axiom str.catlen (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(axiom str.catidx (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))
(axiom str.catnil (forall ((a Str)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))))
(axiom str.nilcat (forall ((a Str)) (! (= (scat sempty a) a) :pattern ((scat sempty a)))))
(axiom str.assoc (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
(axiom str.sub (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (and (= (slen (ssub s i j)) (- j i)) (=> (and (= i 0) (= j (slen s))) (= (ssub s i j) s)))) :pattern ((ssub s i j)))))
(axiom str.subidx (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (< k (- j i)) (<= j (slen s))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(axiom str.subsub (forall ((s Str) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (ssub (ssub s i j) k l) (ssub s (+ i k) (+ i l)))) :pattern ((ssub (ssub s i j) k l)))))
(axiom str.subcat (forall ((a Str) (b Str) (i Int) (j Int)) (! (and (=> (and (<= 0 i) (<= i j) (<= j (slen a))) (= (ssub (scat a b) i j) (ssub a i j))) (=> (and (<= (slen a) i) (<= i j) (<= j (+ (slen a) (slen b)))) (= (ssub (scat a b) i j) (ssub b (- i (slen a)) (- j (slen a))))) (=> (and (<= 0 i) (<= i (slen a)) (<= (slen a) j) (<= j (+ (slen a) (slen b)))) (= (ssub (scat a b) i j) (scat (ssub a i (slen a)) (ssub b 0 (- j (slen a))))))) :pattern ((ssub (scat a b) i j)))))
(axiom str.split (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) ) (= (scat (ssub s 0 i) (ssub s i j)) (ssub s 0 j))) :pattern ((ssub s 0 i) (ssub s i j)))))
(axiom str.split2 (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (<= i (slen s)) ) (= (scat (ssub s 0 i) (ssub s i (slen s))) s)) :pattern ((ssub s 0 i) (ssub s i (slen s))))))
(axiom str.of (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (sofarr a o n)) n)) :pattern ((sofarr a o n)))))
(axiom str.ofidx (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (sofarr a o n) i) (select a (+ o i)))) :pattern ((sat (sofarr a o n) i)))))
(axiom str.ofsub (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j n)) (= (ssub (sofarr a o n) i j) (sofarr a (+ o i) (- j i)))) :pattern ((ssub (sofarr a o n) i j)))))
(axiom str.of1 (forall ((a (Array Int Int)) (o Int)) (! (= (sofarr a o 1) (sunit (select a o))) :pattern ((sofarr a o 1)))))
(axiom enc.ascii (forall ((r Int)) (! (and (>= (slen (enc r)) 1) (<= (slen (enc r)) 4) (=> (and (<= 0 r) (< r 128)) (= (enc r) (sunit r))) (=> (or (< r 0) (>= r 128)) (>= (slen (enc r)) 2))) :pattern ((enc r)))))
(axiom enc.bytes (forall ((r Int) (i Int)) (! (=> (and (or (< r 0) (>= r 128)) (<= 0 i) (< i (slen (enc r)))) (and (>= (sat (enc r) i) 128) (<= (sat (enc r) i) 255))) :pattern ((sat (enc r) i)))))
(axiom dec.rune (forall ((s Str)) (! (=> (> (slen s) 0) (and (>= (dsize s) 1) (<= (dsize s) (slen s)) (<= (dsize s) 4) (<= 0 (drune s)) (<= (drune s) 1114111) (=> (< (sat s 0) 128) (and (= (drune s) (sat s 0)) (= (dsize s) 1))) (=> (>= (sat s 0) 128) (>= (drune s) 128)) )) :pattern ((drune s)) :pattern ((dsize s)))))
`

// ---- modifies targets ----

func callArgs(e ast.Expr) []ast.Expr { return e.(*ast.CallExpr).Args }

func (e *sEnv) modTargetE(x interface{}) ([]string, *Term) {
	n, ok := x.(ast.Expr)
	if !ok {
		specFail("bad modifies item")
	}
	switch c := n.(type) {
	case *ast.Ident:
		if _, ok := e.ex.v.spec.ghosts[c.Name]; ok {
			return []string{"g:" + c.Name}, nil
		}
		if c.Name == "nothing" {
			return nil, nil
		}
	case *ast.CallExpr:
		name := c.Fun.(*ast.Ident).Name
		switch name {
		case "Out":
			return []string{"g:Out"}, e.iface(e.eval(c.Args[0]))
		case "elems", "elemsAll":
			s, ok := e.eval(c.Args[0]).v.(SliceV)
			if !ok {
				specFail("elems of a non-slice")
			}
			var out []string
			for _, lf := range e.ex.leaves(s.elem) {
				cn := "E:" + typeName(s.elem) + lf.suffix
				e.ex.compSorts[cn] = e.ex.compSort(cn, lf.sort)
				out = append(out, cn)
			}
			if name == "elemsAll" {
				return out, nil
			}
			return out, s.base
		case "fields":
			p := e.eval(c.Args[0])
			pv, ok := p.v.(PtrV)
			if !ok || pv.loc.kind != lObj || pv.loc.path != "" {
				specFail("fields of a non-pointer")
			}
			var out []string
			u := under(pv.loc.typ).(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if isStructT(u.Field(i).Type()) {
					continue
				}
				for _, lf := range e.ex.leaves(u.Field(i).Type()) {
					cn := "H:" + typeName(pv.loc.root) + "." + u.Field(i).Name() + lf.suffix
					e.ex.compSorts[cn] = e.ex.compSort(cn, lf.sort)
					out = append(out, cn)
				}
			}
			return out, pv.loc.ref
		case "objects":
			// every object of a type
			t := e.typeByName(c.Args[0])
			var out []string
			u := under(t).(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if isStructT(u.Field(i).Type()) {
					continue
				}
				for _, lf := range e.ex.leaves(u.Field(i).Type()) {
					cn := "H:" + typeName(t) + "." + u.Field(i).Name() + lf.suffix
					e.ex.compSorts[cn] = e.ex.compSort(cn, lf.sort)
					out = append(out, cn)
				}
			}
			return out, nil
		case "comp":
			s, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
			e.ex.v.ensureComp(e.ex, s)
			if len(c.Args) > 1 {
				return []string{s}, e.term(e.eval(c.Args[1]))
			}
			return []string{s}, nil
		case "mapof":
			m := e.eval(c.Args[0])
			dn, vn, ks, vs := e.ex.mapComps(under(m.typ).(*types.Map))
			e.ex.compSorts[dn] = ArraySort(SInt, ArraySort(ks, SBool))
			e.ex.compSorts[vn] = ArraySort(SInt, ArraySort(ks, vs))
			return []string{dn, vn}, e.term(m)
		}
		if m, ok := e.ex.v.spec.macros[name]; ok {
			_ = m
			specFail("macro in modifies")
		}
		if s, ok := e.ex.v.spec.ghosts[name]; ok {
			v := e.eval(c.Args[0])
			if s.key() == SIface {
				return []string{"g:" + name}, e.iface(v)
			}
			return []string{"g:" + name}, e.term(v)
		}
	}
	l, ok := e.lval(n)
	if !ok {
		specFail("bad modifies item %s", exprString(n))
	}
	if l.kind == lCell {
		specFail("cell in modifies")
	}
	var out []string
	prefix := locPrefix(l)
	for _, lf := range e.ex.leaves(l.typ) {
		cn := prefix + lf.suffix
		e.ex.compSorts[cn] = e.ex.compSort(cn, lf.sort)
		out = append(out, cn)
	}
	if l.kind == lGlobal {
		return out, nil
	}
	return out, l.ref
}

// ensureComp makes the sort of a named component known.
func (v *Verifier) ensureComp(ex *Exec, name string) {
	if _, ok := ex.compSorts[name]; ok {
		return
	}
	body := name[2:]
	// longest type-name prefix
	for i := len(body); i > 0; i-- {
		if i < len(body) && body[i] != '.' {
			continue
		}
		t := v.typeByName(body[:i])
		if t == nil {
			continue
		}
		for _, lf := range ex.leaves(t) {
			if lf.suffix == body[i:] {
				ex.compSorts[name] = ex.compSort(name, lf.sort)
				return
			}
		}
	}
	specFail("unknown component %s", name)
}
