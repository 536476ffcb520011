package main

import (
	"fmt"
	"strings"
)

type lemmaTask struct {
	name  string
	l     *lemma
	query string
}

func (v *Verifier) lemmaTasks() []*lemmaTask {
	var out []*lemmaTask
	for _, a := range v.prelude.axioms {
		if a.isLemma {
			out = append(out, &lemmaTask{name: a.name, l: a.lemma})
		}
	}
	return out
}

// run proves a lemma from the axioms and lemmas before it; with :induct, by
// well-founded induction on the measure.
func (lt *lemmaTask) run(v *Verifier) (bool, string, string) {
	l := lt.l
	p := v.prelude
	used := map[string]bool{}
	m := map[string]bool{}
	sexpSyms(l.pre, m)
	sexpSyms(l.post, m)
	if l.induct != nil {
		sexpSyms(l.induct, m)
	}
	for _, h := range l.hints {
		sexpSyms(h, m)
	}
	for k := range m {
		used[k] = true
	}
	ext0 := v.lemmaExt(l.post, l)
	for _, f := range strings.FieldsFunc(ext0, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
		used[f] = true
	}
	var sb strings.Builder
	ren := map[string]string{}
	for _, x := range l.vars {
		n := "c!" + x.list[0].atom
		ren[x.list[0].atom] = n
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, x.list[1])
	}
	fmt.Fprintf(&sb, "(assert %s)\n", substSexp(l.pre, ren))
	if l.induct != nil {
		// induction hypothesis for smaller measures
		ihRen := map[string]string{}
		_ = ihRen
		meas := l.induct
		cm := substSexp(meas, ren)
		extra := &sexp{list: []*sexp{{atom: "and"}, {list: []*sexp{{atom: "<="}, {atom: "0"}, meas}}, {list: []*sexp{{atom: "<"}, meas, cm}}}}
		fmt.Fprintf(&sb, "(assert %s)\n", l.formula(l.vars, extra))
	}
	for i, h := range l.hints {
		// hints are terms made available for instantiation
		fmt.Fprintf(&sb, "(declare-fun hint!%d (%s) Bool)\n", i, v.sexpSort(h, l))
		fmt.Fprintf(&sb, "(assert (hint!%d %s))\n", i, substSexp(h, ren))
	}
	ext := v.lemmaExt(substSexp(l.post, ren), l)
	sb.WriteString(ext)
	fmt.Fprintf(&sb, "(assert (not %s))\n(check-sat)\n", substSexp(l.post, ren))
	pr := &part{}
	for lv := 0; lv < nLevels; lv++ {
		hdr, _ := p.header(used, l.order, lv)
		pr.txt[lv] = hdr + sb.String()
	}
	lt.query = pr.txt[nLevels-1]
	return v.proveText(pr, v.rlimit, "")
}

// sexpSort gives the sort of a term by its head symbol.
func (v *Verifier) sexpSort(s *sexp, l *lemma) Sort {
	if s.isAtom() {
		for _, x := range l.vars {
			if x.list[0].atom == s.atom {
				return Sort(x.list[1].String())
			}
		}
		if g, ok := v.prelude.sigs[s.atom]; ok {
			return g.ret
		}
		return SInt
	}
	if g, ok := v.prelude.sigs[s.head()]; ok {
		return g.ret
	}
	switch s.head() {
	case "+", "-", "*":
		return SInt
	case "ite":
		return v.sexpSort(s.list[2], l)
	}
	return SBool
}

// lemmaExt adds an extensionality instance when the goal is a sequence equation.
func (v *Verifier) lemmaExt(post *sexp, l *lemma) string {
	if post.head() != "=" {
		return ""
	}
	a, b := post.list[1], post.list[2]
	s := string(v.sexpSort(a, l))
	if a.isAtom() {
		s = string(v.sexpSort(b, l))
	}
	switch {
	case strings.HasPrefix(s, "Seq."):
		k := s[4:]
		return fmt.Sprintf("(declare-const ext! Int)\n(assert (or (= %s %s) (not (= (len.%s %s) (len.%s %s))) (and (<= 0 ext!) (< ext! (len.%s %s)) (not (= (idx.%s %s ext!) (idx.%s %s ext!))))))\n", a, b, k, a, k, b, k, a, k, a, k, b)
	case s == "Str":
		return fmt.Sprintf("(declare-const ext! Int)\n(assert (or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 ext!) (< ext! (slen %s)) (not (= (sat %s ext!) (sat %s ext!))))))\n", a, b, a, b, a, a, b)
	}
	return ""
}
