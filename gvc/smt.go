package main

// SMT-LIB printing, the prelude (spec functions, axioms, lemmas) and solvers.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
)

// ---- S-expressions ----

type sexp struct {
	atom string
	list []*sexp
}

func (s *sexp) isAtom() bool { return s.list == nil && s.atom != "" }

func (s *sexp) String() string {
	if s.list == nil && s.atom != "" {
		return s.atom
	}
	var parts []string
	for _, x := range s.list {
		parts = append(parts, x.String())
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (s *sexp) head() string {
	if len(s.list) > 0 && s.list[0].isAtom() {
		return s.list[0].atom
	}
	return ""
}

func parseSexps(text string) ([]*sexp, error) {
	i := 0
	var parse func() (*sexp, error)
	skip := func() {
		for i < len(text) {
			c := text[i]
			if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
				i++
			} else if c == ';' {
				for i < len(text) && text[i] != '\n' {
					i++
				}
			} else {
				return
			}
		}
	}
	parse = func() (*sexp, error) {
		skip()
		if i >= len(text) {
			return nil, fmt.Errorf("unexpected end of prelude")
		}
		if text[i] == '(' {
			i++
			r := &sexp{list: []*sexp{}}
			for {
				skip()
				if i >= len(text) {
					return nil, fmt.Errorf("missing )")
				}
				if text[i] == ')' {
					i++
					return r, nil
				}
				x, err := parse()
				if err != nil {
					return nil, err
				}
				r.list = append(r.list, x)
			}
		}
		if text[i] == ')' {
			return nil, fmt.Errorf("unexpected ) near %q", text[max(0, i-60):i])
		}
		st := i
		if text[i] == '|' {
			i++
			for i < len(text) && text[i] != '|' {
				i++
			}
			i++
			return &sexp{atom: text[st:i]}, nil
		}
		for i < len(text) && !strings.ContainsRune(" \t\r\n()", rune(text[i])) {
			i++
		}
		return &sexp{atom: text[st:i]}, nil
	}
	var out []*sexp
	for {
		skip()
		if i >= len(text) {
			return out, nil
		}
		x, err := parse()
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
}

// ---- prelude ----

type Sig struct {
	args []Sort
	ret  Sort
}

type axiom struct {
	name    string
	text    string   // full (assert ...) text
	syms    []string // all function symbols
	pats    [][]string
	isLemma bool
	lemma   *lemma
	level   int // axiom set in which it takes part: 0 always, 1, 2
}

type lemma struct {
	name   string
	vars   []*sexp // (x Sort)
	pre    *sexp
	post   *sexp
	pats   []*sexp
	induct *sexp // measure (Int) or nil
	hints  []*sexp
	order  int
}

type funDef struct {
	name string
	text string
	syms []string
}

type Prelude struct {
	sorts  []string
	data   string // datatype declaration
	sigs   map[string]Sig
	decl   map[string]*funDef
	order  []string
	axioms []*axiom
}

func newPrelude() *Prelude {
	return &Prelude{sigs: map[string]Sig{}, decl: map[string]*funDef{}}
}

func sexpSyms(s *sexp, out map[string]bool) {
	if s.isAtom() {
		out[s.atom] = true
		return
	}
	for _, x := range s.list {
		sexpSyms(x, out)
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Prelude) symsOf(s *sexp) []string {
	m := map[string]bool{}
	sexpSyms(s, m)
	for k := range m {
		if _, ok := p.sigs[k]; !ok {
			delete(m, k)
		}
	}
	return keysOf(m)
}

func collectPats(s *sexp, out *[]*sexp) {
	if s.isAtom() {
		return
	}
	for i, x := range s.list {
		if x.isAtom() && x.atom == ":pattern" && i+1 < len(s.list) {
			*out = append(*out, s.list[i+1])
		}
	}
	for _, x := range s.list {
		collectPats(x, out)
	}
}

func (p *Prelude) addSexp(s *sexp) error {
	if h := s.head(); (h == "declare-fun" || h == "define-fun") && p.decl[s.list[1].atom] != nil {
		return fmt.Errorf("%s is declared twice", s.list[1].atom)
	}
	switch s.head() {
	case "declare-sort":
		p.sorts = append(p.sorts, s.String())
	case "declare-fun", "declare-const":
		name := s.list[1].atom
		sig := Sig{}
		if s.head() == "declare-fun" {
			for _, a := range s.list[2].list {
				sig.args = append(sig.args, Sort(a.String()))
			}
			sig.ret = Sort(s.list[3].String())
		} else {
			sig.ret = Sort(s.list[2].String())
		}
		p.sigs[name] = sig
		p.decl[name] = &funDef{name: name, text: s.String()}
		p.order = append(p.order, name)
	case "define-fun", "define-fun-rec":
		name := s.list[1].atom
		sig := Sig{ret: Sort(s.list[3].String())}
		for _, a := range s.list[2].list {
			sig.args = append(sig.args, Sort(a.list[1].String()))
		}
		p.sigs[name] = sig
		p.decl[name] = &funDef{name: name, text: s.String(), syms: p.symsOf(s.list[4])}
		p.order = append(p.order, name)
	case "axiom":
		// (axiom name body)
		body := s.list[2]
		ax := &axiom{name: s.list[1].atom, text: "(assert " + body.String() + ")", syms: p.symsOf(body)}
		ax.level = axiomLevel(ax.name)
		var pats []*sexp
		collectPats(body, &pats)
		for _, q := range pats {
			ax.pats = append(ax.pats, p.symsOf(q))
		}
		p.axioms = append(p.axioms, ax)
	case "lemma":
		// (lemma name ((x S)...) (pre) (post) :pattern (..) :induct m :hint (term))
		l := &lemma{name: s.list[1].atom, vars: s.list[2].list, pre: s.list[3], post: s.list[4], order: len(p.axioms)}
		for i := 5; i+1 < len(s.list); i += 2 {
			switch s.list[i].atom {
			case ":pattern":
				l.pats = append(l.pats, s.list[i+1])
			case ":induct":
				l.induct = s.list[i+1]
			case ":hint":
				l.hints = append(l.hints, s.list[i+1])
			default:
				return fmt.Errorf("lemma %s: unknown attribute %s", l.name, s.list[i].atom)
			}
		}
		ax := &axiom{name: l.name, text: "(assert " + l.formula(l.vars, nil) + ")", isLemma: true, lemma: l}
		m := map[string]bool{}
		sexpSyms(l.pre, m)
		sexpSyms(l.post, m)
		for _, q := range l.pats {
			sexpSyms(q, m)
			ax.pats = append(ax.pats, p.symsOf(q))
		}
		for k := range m {
			if _, ok := p.sigs[k]; ok {
				ax.syms = append(ax.syms, k)
			}
		}
		sort.Strings(ax.syms)
		p.axioms = append(p.axioms, ax)
	default:
		return fmt.Errorf("unknown prelude item %s", s)
	}
	return nil
}

// axiomLevel: equations between whole sequences are only used when needed,
// because they make the solver build many terms.
func axiomLevel(name string) int {
	for _, p := range []string{"seq.assoc.", "seq.oftake.", "seq.ofdrop.", "seq.takedrop.", "seq.ofstore."} {
		if strings.HasPrefix(name, p) {
			return 1
		}
	}
	for _, p := range []string{"seq.taketake.", "seq.dropdrop.", "seq.takecat.", "seq.dropcat."} {
		if strings.HasPrefix(name, p) {
			return 2
		}
	}
	switch name {
	case "str.assoc", "str.ofsub", "str.split", "str.split2":
		return 1
	case "str.subsub", "str.subcat":
		return 2
	}
	return 0
}

func substSexp(s *sexp, m map[string]string) *sexp {
	if s.isAtom() {
		if r, ok := m[s.atom]; ok {
			return &sexp{atom: r}
		}
		return s
	}
	r := &sexp{list: []*sexp{}}
	for _, x := range s.list {
		r.list = append(r.list, substSexp(x, m))
	}
	return r
}

// formula prints forall vars. extra => pre => post with the patterns.
func (l *lemma) formula(vars []*sexp, extra *sexp) string {
	body := fmt.Sprintf("(=> %s %s)", l.pre, l.post)
	if extra != nil {
		body = fmt.Sprintf("(=> %s %s)", extra, body)
	}
	if len(vars) == 0 {
		return body
	}
	var sb strings.Builder
	sb.WriteString("(forall (")
	for _, v := range vars {
		sb.WriteString(v.String())
	}
	sb.WriteString(") ")
	if len(l.pats) > 0 {
		sb.WriteString("(! ")
	}
	sb.WriteString(body)
	for _, q := range l.pats {
		sb.WriteString(" :pattern " + q.String())
	}
	if len(l.pats) > 0 {
		sb.WriteString(")")
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *Prelude) addText(text string) error {
	xs, err := parseSexps(text)
	if err != nil {
		return err
	}
	for _, x := range xs {
		if err := p.addSexp(x); err != nil {
			return err
		}
	}
	return nil
}

// seqTheory generates the theory of finite sequences with element sort elem.
func seqTheory(x string, elem string) string {
	t := `
(declare-fun len.X (Seq.X) Int)
(declare-fun idx.X (Seq.X Int) E)
(declare-fun nil.X () Seq.X)
(declare-fun unit.X (E) Seq.X)
(declare-fun cat.X (Seq.X Seq.X) Seq.X)
(declare-fun take.X (Seq.X Int) Seq.X)
(declare-fun drop.X (Seq.X Int) Seq.X)
(declare-fun upd.X (Seq.X Int E) Seq.X)
(declare-fun of.X ((Array Int E) Int Int) Seq.X)
(axiom seq.len.X (forall ((s Seq.X)) (! (and (>= (len.X s) 0) (=> (= (len.X s) 0) (= s nil.X))) :pattern ((len.X s)))))
(axiom seq.nil.X (= (len.X nil.X) 0))
(axiom seq.unit.X (forall ((e E)) (! (and (= (len.X (unit.X e)) 1) (= (idx.X (unit.X e) 0) e)) :pattern ((unit.X e)))))
(axiom seq.catlen.X (forall ((a Seq.X) (b Seq.X)) (! (= (len.X (cat.X a b)) (+ (len.X a) (len.X b))) :pattern ((cat.X a b)))))
(axiom seq.catidx.X (forall ((a Seq.X) (b Seq.X) (i Int)) (! (=> (and (<= 0 i) (< i (+ (len.X a) (len.X b)))) (= (idx.X (cat.X a b) i) (ite (< i (len.X a)) (idx.X a i) (idx.X b (- i (len.X a)))))) :pattern ((idx.X (cat.X a b) i)))))
(axiom seq.catnil.X (forall ((a Seq.X)) (! (= (cat.X a nil.X) a) :pattern ((cat.X a nil.X)))))
(axiom seq.nilcat.X (forall ((a Seq.X)) (! (= (cat.X nil.X a) a) :pattern ((cat.X nil.X a)))))
(axiom seq.assoc.X (forall ((a Seq.X) (b Seq.X) (c Seq.X)) (! (= (cat.X (cat.X a b) c) (cat.X a (cat.X b c))) :pattern ((cat.X (cat.X a b) c)))))
(axiom seq.take.X (forall ((s Seq.X) (n Int)) (! (=> (and (<= 0 n) (<= n (len.X s))) (and (= (len.X (take.X s n)) n) (=> (= n (len.X s)) (= (take.X s n) s)))) :pattern ((take.X s n)))))
(axiom seq.takeidx.X (forall ((s Seq.X) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (len.X s))) (= (idx.X (take.X s n) i) (idx.X s i))) :pattern ((idx.X (take.X s n) i)))))
(axiom seq.drop.X (forall ((s Seq.X) (n Int)) (! (=> (and (<= 0 n) (<= n (len.X s))) (and (= (len.X (drop.X s n)) (- (len.X s) n)) (=> (= n 0) (= (drop.X s n) s)))) :pattern ((drop.X s n)))))
(axiom seq.dropidx.X (forall ((s Seq.X) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (- (len.X s) n))) (= (idx.X (drop.X s n) i) (idx.X s (+ i n)))) :pattern ((idx.X (drop.X s n) i)))))
(axiom seq.takedrop.X (forall ((s Seq.X) (n Int)) (! (=> (and (<= 0 n) (<= n (len.X s))) (= (cat.X (take.X s n) (drop.X s n)) s)) :pattern ((take.X s n) (drop.X s n)))))
(axiom seq.taketake.X (forall ((s Seq.X) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n) (<= n (len.X s))) (= (take.X (take.X s n) m) (take.X s m))) :pattern ((take.X (take.X s n) m)))))
(axiom seq.dropdrop.X (forall ((s Seq.X) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= 0 n) (<= (+ n m) (len.X s))) (= (drop.X (drop.X s n) m) (drop.X s (+ n m)))) :pattern ((drop.X (drop.X s n) m)))))
(axiom seq.takecat.X (forall ((a Seq.X) (b Seq.X) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len.X a))) (= (take.X (cat.X a b) n) (take.X a n))) (=> (and (<= (len.X a) n) (<= n (+ (len.X a) (len.X b)))) (= (take.X (cat.X a b) n) (cat.X a (take.X b (- n (len.X a))))))) :pattern ((take.X (cat.X a b) n)))))
(axiom seq.dropcat.X (forall ((a Seq.X) (b Seq.X) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len.X a))) (= (drop.X (cat.X a b) n) (cat.X (drop.X a n) b))) (=> (and (<= (len.X a) n) (<= n (+ (len.X a) (len.X b)))) (= (drop.X (cat.X a b) n) (drop.X b (- n (len.X a)))))) :pattern ((drop.X (cat.X a b) n)))))
(axiom seq.upd.X (forall ((s Seq.X) (i Int) (e E)) (! (and (= (len.X (upd.X s i e)) (len.X s)) (=> (and (<= 0 i) (< i (len.X s))) (and (= (idx.X (upd.X s i e) i) e) (= (upd.X s i e) (cat.X (take.X s i) (cat.X (unit.X e) (drop.X s (+ i 1)))))))) :pattern ((upd.X s i e)))))
(axiom seq.of.X (forall ((a (Array Int E)) (o Int) (n Int)) (! (=> (<= 0 n) (= (len.X (of.X a o n)) n)) :pattern ((of.X a o n)))))
(axiom seq.ofidx.X (forall ((a (Array Int E)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (idx.X (of.X a o n) i) (select a (+ o i)))) :pattern ((idx.X (of.X a o n) i)))))
(axiom seq.oftake.X (forall ((a (Array Int E)) (o Int) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n)) (= (take.X (of.X a o n) m) (of.X a o m))) :pattern ((take.X (of.X a o n) m)))))
(axiom seq.ofdrop.X (forall ((a (Array Int E)) (o Int) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n)) (= (drop.X (of.X a o n) m) (of.X a (+ o m) (- n m)))) :pattern ((drop.X (of.X a o n) m)))))
(axiom seq.ofstore.X (forall ((a (Array Int E)) (o Int) (n Int) (i Int) (e E)) (! (=> (<= 0 n) (= (of.X (store a i e) o n) (ite (and (<= o i) (< i (+ o n))) (upd.X (of.X a o n) (- i o) e) (of.X a o n)))) :pattern ((of.X (store a i e) o n)))))
(axiom seq.of1.X (forall ((a (Array Int E)) (o Int)) (! (= (of.X a o 1) (unit.X (select a o))) :pattern ((of.X a o 1)))))
`
	t = strings.ReplaceAll(t, ".X", "."+x)
	t = strings.ReplaceAll(t, " E)", " "+elem+")")
	t = strings.ReplaceAll(t, "(E)", "("+elem+")")
	t = strings.ReplaceAll(t, " E ", " "+elem+" ")
	return t
}

// ---- query printing ----

type Query struct {
	assumes []*Term
	goal    *Term // nil: satisfiability of the assumptions
	extra   []string
}

func collectSyms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		collectSyms(a, seen, f)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectSyms(x, seen, f)
		}
	}
}

func (p *Prelude) closure(used map[string]bool, maxOrder, level int) (axs []*axiom, funs map[string]bool) {
	funs = map[string]bool{}
	var addFun func(s string)
	addFun = func(s string) {
		if funs[s] {
			return
		}
		d, ok := p.decl[s]
		if !ok {
			return
		}
		funs[s] = true
		for _, x := range d.syms {
			addFun(x)
		}
	}
	for s := range used {
		addFun(s)
	}
	done := map[*axiom]bool{}
	for changed := true; changed; {
		changed = false
		for i, ax := range p.axioms {
			if done[ax] || i >= maxOrder || ax.level > level {
				continue
			}
			act := false
			if len(ax.pats) == 0 {
				act = len(ax.syms) == 0
				for _, s := range ax.syms {
					if funs[s] {
						act = true
					}
				}
			}
			for _, pt := range ax.pats {
				ok := true
				for _, s := range pt {
					if !funs[s] {
						ok = false
					}
				}
				if ok {
					act = true
				}
			}
			if act {
				done[ax] = true
				changed = true
				for _, s := range ax.syms {
					addFun(s)
				}
			}
		}
	}
	for _, ax := range p.axioms {
		if done[ax] {
			axs = append(axs, ax)
		}
	}
	return
}

func (p *Prelude) header(used map[string]bool, maxOrder, level int) (string, map[string]bool) {
	axs, funs := p.closure(used, maxOrder, level)
	var sb strings.Builder
	for _, s := range p.sorts {
		sb.WriteString(s + "\n")
	}
	sb.WriteString(p.data)
	for _, n := range p.order {
		if funs[n] {
			sb.WriteString(p.decl[n].text + "\n")
		}
	}
	for _, ax := range axs {
		sb.WriteString(ax.text + "\n")
	}
	return sb.String(), funs
}

func (p *Prelude) printWith(q *Query, maxAx, level int) string {
	used := map[string]bool{}
	consts := map[*Term]bool{}
	lits := map[*Term]bool{}
	count := map[*Term]int{}
	seen := map[*Term]bool{}
	var order []*Term // post-order of closed terms
	var walk func(t *Term)
	walk = func(t *Term) {
		count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.isVar:
			consts[t] = true
		case t.lit != nil:
			lits[t] = true
			used["slen"] = true
			if len(*t.lit) == 1 {
				used["sunit"] = true
			}
			if len(*t.lit) == 0 {
				used["sempty"] = true
			}
		default:
			used[t.op] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, pt := range t.pats {
			for _, x := range pt {
				walk(x)
			}
		}
		order = append(order, t)
	}
	roots := append([]*Term(nil), q.assumes...)
	if q.goal != nil {
		roots = append(roots, q.goal)
	}
	for _, r := range roots {
		walk(r)
	}
	hdr, funs := p.header(used, maxAx, level)
	var sb strings.Builder
	sb.WriteString(hdr)
	var cs []*Term
	for c := range consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symName(c.op), c.sort)
	}
	var ls []*Term
	for c := range lits {
		ls = append(ls, c)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, c := range ls {
		s := *c.lit
		n := litName(s)
		switch {
		case len(s) == 0:
			fmt.Fprintf(&sb, "(define-fun %s () Str sempty)\n", n)
		case len(s) == 1:
			fmt.Fprintf(&sb, "(define-fun %s () Str (sunit %d))\n", n, s[0])
		default:
			fmt.Fprintf(&sb, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(s))
			if r, sz := utf8.DecodeRuneInString(s); sz == len(s) && r != utf8.RuneError && funs["enc"] {
				fmt.Fprintf(&sb, "(assert (= %s (enc %d)))\n", n, r)
			}
			if funs["sat"] {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", n, i, s[i])
				}
			}
		}
	}
	named := map[*Term]string{}
	for _, t := range order {
		if t.fb || len(t.args) == 0 || count[t] < 2 || t.sort == SBool && t.vars == nil && len(t.args) < 2 {
			continue
		}
		name := fmt.Sprintf("$%d", len(named))
		var b strings.Builder
		printTerm(&b, t, named, t)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", name, t.sort, b.String())
		named[t] = name
	}
	for _, e := range q.extra {
		sb.WriteString(e + "\n")
	}
	asserted := map[*Term]bool{}
	for _, a := range q.assumes {
		if a == True || asserted[a] {
			continue
		}
		asserted[a] = true
		fmt.Fprintf(&sb, "(assert %s)\n", termString(a, named))
	}
	if q.goal != nil {
		fmt.Fprintf(&sb, "(assert (not %s))\n", termString(q.goal, named))
	}
	sb.WriteString("(check-sat)\n")
	return renumber(sb.String())
}

// renumber gives fresh names numbers in the order of their appearance, so that
// a query does not depend on what was verified before.
func renumber(s string) string {
	var sb strings.Builder
	sb.Grow(len(s))
	num := map[string]string{}
	i := 0
	for i < len(s) {
		c := s[i]
		if c != '!' && c != '?' {
			j := i + 1
			for j < len(s) && s[j] != '!' && s[j] != '?' {
				j++
			}
			sb.WriteString(s[i:j])
			i = j
			continue
		}
		sb.WriteByte(c)
		i++
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j > i {
			n, ok := num[s[i:j]]
			if !ok {
				n = strconv.Itoa(len(num) + 1)
				num[s[i:j]] = n
			}
			sb.WriteString(n)
			i = j
		}
	}
	return sb.String()
}

// ---- solvers ----

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
	SolverError
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat", "error"}[r] }

type Solver struct {
	name string
	argv []string
	opts string
}

var (
	z3new = Solver{"z3 5.3.2", []string{"z3-new", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	z3old = Solver{"z3 4.8.12", []string{"z3", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	cvc5s = Solver{"cvc5 1.1.2", []string{"cvc5", "--lang=smt2", "--incremental"}, "(set-logic ALL)\n"}
)

var (
	statMu      sync.Mutex
	statQueries int
	statTime    time.Duration
	statBy      = map[string]int{}
	statCached  int
)

var cacheDir = os.Getenv("GVC_CACHE")

func runSolver(s Solver, text string, rlimit int, timeout time.Duration) (Result, string) {
	return runSeeded(s, text, rlimit, timeout, 0)
}

func runSeeded(s Solver, text string, rlimit int, timeout time.Duration, seed int) (Result, string) {
	var sb strings.Builder
	sb.WriteString(s.opts)
	if seed > 0 {
		fmt.Fprintf(&sb, "(set-option :smt.random_seed %d)\n", seed)
	}
	if strings.HasPrefix(s.name, "z3") && rlimit > 0 {
		fmt.Fprintf(&sb, "(set-option :rlimit %d)\n", rlimit)
	}
	sb.WriteString(text)
	q := sb.String()
	key := ""
	if cacheDir != "" {
		h := sha256.Sum256([]byte(s.name + "\x00" + q))
		key = filepath.Join(cacheDir, hex.EncodeToString(h[:]))
		if b, err := os.ReadFile(key); err == nil {
			statMu.Lock()
			statCached++
			statMu.Unlock()
			return parseResult(string(b))
		}
	}
	release := slot()
	defer release()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	start := time.Now()
	o, err := "", error(nil)
	if strings.HasPrefix(s.name, "z3") {
		o, err = askRunning(ctx, s, q)
	} else {
		cmd := exec.CommandContext(ctx, s.argv[0], s.argv[1:]...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Stdin = strings.NewReader(q)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		err = cmd.Run()
		o = out.String()
	}
	d := time.Since(start)
	statMu.Lock()
	statQueries++
	statTime += d
	statBy[s.name]++
	if os.Getenv("GVC_STAT") != "" {
		h := sha256.Sum256([]byte(q))
		fmt.Fprintf(os.Stderr, "QSTAT %s %d %d %s %x\n", s.argv[0], len(q), d.Microseconds(), strings.ReplaceAll(strings.TrimSpace(o), "\n", "_"), h[:6])
	}
	statMu.Unlock()
	if ctx.Err() != nil {
		return Unknown, "timeout"
	}
	if err != nil && !strings.Contains(o, "sat") && !strings.Contains(o, "unknown") {
		return SolverError, fmt.Sprintf("%v: %s", err, o)
	}
	if key != "" {
		os.WriteFile(key, []byte(o), 0644)
	}
	return parseResult(o)
}

// running is a solver process that answers several queries, each after a reset.
type running struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

var (
	poolMu sync.Mutex
	pool   = map[string][]*running{}
)

func askRunning(ctx context.Context, s Solver, q string) (string, error) {
	poolMu.Lock()
	var p *running
	if l := pool[s.name]; len(l) > 0 {
		p = l[len(l)-1]
		pool[s.name] = l[:len(l)-1]
	}
	poolMu.Unlock()
	if p == nil {
		cmd := exec.Command(s.argv[0], s.argv[1:]...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		if err != nil {
			return "", err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return "", err
		}
		cmd.Stderr = cmd.Stdout
		if err := cmd.Start(); err != nil {
			return "", err
		}
		p = &running{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	}
	stop := func() {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	type answer struct {
		o   string
		err error
	}
	ch := make(chan answer, 1)
	go func() {
		if _, err := io.WriteString(p.in, q+"\n(echo \"end of answer\")\n(reset)\n"); err != nil {
			ch <- answer{"", err}
			return
		}
		var sb strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- answer{sb.String(), err}
				return
			}
			if strings.HasPrefix(l, "end of answer") {
				ch <- answer{sb.String(), nil}
				return
			}
			sb.WriteString(l)
		}
	}()
	select {
	case a := <-ch:
		p.used++
		if a.err != nil || p.used >= 100 {
			stop()
			return a.o, a.err
		}
		poolMu.Lock()
		pool[s.name] = append(pool[s.name], p)
		poolMu.Unlock()
		return a.o, nil
	case <-ctx.Done():
		stop()
		<-ch
		return "", ctx.Err()
	}
}

func parseResult(o string) (Result, string) {
	if i := strings.Index(o, "(error"); i >= 0 && !strings.Contains(o, "canceled") {
		return SolverError, o
	}
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat, o
		case "sat":
			return Sat, o
		case "unknown":
			return Unknown, o
		}
	}
	return Unknown, o
}
