package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	SBV    Sort = "(_ BitVec 64)"
)

func ArraySort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func (s Sort) elem() Sort {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

func (s Sort) key() Sort {
	str := string(s)
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	op    string
	args  []*Term
	sort  Sort
	id    int
	vars  []*Term   // quantifier: bound variables
	pats  [][]*Term // quantifier: patterns
	isVar bool      // declared constant
	bound bool      // bound variable
	fb    bool      // contains free bound variable
	num   *big.Int  // integer literal
	lit   *string   // string literal
}

type termTable struct {
	m     map[string]*Term
	n     int
	fresh int
}

var tt = &termTable{m: map[string]*Term{}}

func mk(op string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(string(sort))
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, args: args, sort: sort, id: tt.n}
	for _, a := range args {
		if a.fb {
			t.fb = true
		}
	}
	tt.m[key] = t
	return t
}

// Const declares (or returns) a constant symbol.
func Const(name string, sort Sort) *Term {
	key := "\x01" + name + "\x00" + string(sort)
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: name, sort: sort, id: tt.n, isVar: true}
	tt.m[key] = t
	return t
}

func Fresh(hint string, sort Sort) *Term {
	tt.fresh++
	return Const(fmt.Sprintf("%s!%d", hint, tt.fresh), sort)
}

func BoundVar(hint string, sort Sort) *Term {
	tt.fresh++
	return BoundVarNamed(fmt.Sprintf("%s?%d", hint, tt.fresh), sort)
}

// BoundVarNamed returns the same variable for the same name, so that equal
// formulas are the same term.
func BoundVarNamed(name string, sort Sort) *Term {
	key := "\x05" + name + "\x00" + string(sort)
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: name, sort: sort, id: tt.n, bound: true, fb: true}
	tt.m[key] = t
	return t
}

func Int(n int64) *Term { return BigInt(big.NewInt(n)) }

func BigInt(n *big.Int) *Term {
	key := "\x02" + n.String()
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: n.String(), sort: SInt, id: tt.n, num: new(big.Int).Set(n)}
	tt.m[key] = t
	return t
}

func (t *Term) isInt() bool { return t.num != nil }

func (t *Term) intVal() (int64, bool) {
	if t.num != nil && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

// BVToInt is the signed value of a 64-bit vector.
func BVToInt(t *Term) *Term {
	val := func(t *Term) (int64, bool) {
		if strings.HasPrefix(t.op, "#x") {
			n, err := strconv.ParseUint(t.op[2:], 16, 64)
			return int64(n), err == nil
		}
		return 0, false
	}
	if n, ok := val(t); ok {
		return Int(n)
	}
	u := mk("bv2int", SInt, t)
	if t.op == "bvand" {
		for _, a := range t.args {
			if n, ok := val(a); ok && n >= 0 {
				return u
			}
		}
	}
	return Ite(mk("bvslt", SBool, t, BVConst(0)), Sub(Int(0), mk("bv2int", SInt, mk("bvneg", SBV, t))), u)
}

func BVConst(n int64) *Term {
	key := fmt.Sprintf("\x03%d", n)
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: fmt.Sprintf("#x%016x", uint64(n)), sort: SBV, id: tt.n}
	tt.m[key] = t
	return t
}

func StrLit(s string) *Term {
	key := "\x04" + s
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	c := s
	t := &Term{op: "lit:" + s, sort: SStr, id: tt.n, lit: &c}
	tt.m[key] = t
	return t
}

var (
	True  = mk("true", SBool)
	False = mk("false", SBool)
)

func BoolConst(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" && !t.isVar {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True {
			return false
		}
		if t.op == "or" && !t.isVar {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False || b == True:
		return True
	case b == False:
		return Not(a)
	case a == b:
		return True
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

// decidedDistinct reports that a and b are syntactically known to differ.
func decidedDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == SInt && b.sort == SInt {
		d := Sub(a, b)
		if d.num != nil {
			return d.num.Sign() != 0
		}
	}
	if a.lit != nil && b.lit != nil {
		return *a.lit != *b.lit
	}
	if isCtor(a) && isCtor(b) && a.op != b.op {
		return true
	}
	if isCtor(a) && isCtor(b) && a.op == b.op {
		for i := range a.args {
			if decidedDistinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if a.sort == SBV && strings.HasPrefix(a.op, "#x") && strings.HasPrefix(b.op, "#x") {
		return a.op != b.op
	}
	return false
}

func isCtor(t *Term) bool { return t.sort == SIface && strings.HasPrefix(t.op, "I.") && !t.isVar }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of different sorts: %s:%s and %s:%s", a, a.sort, b, b.sort))
	}
	if decidedDistinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// ite with constants
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == "ite" && !p[0].isVar {
			x, y := p[0].args[1], p[0].args[2]
			if decidedDistinct(x, p[1]) {
				return And(Not(p[0].args[0]), Eq(y, p[1]))
			}
			if decidedDistinct(y, p[1]) {
				return And(p[0].args[0], Eq(x, p[1]))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

// ---- integers: linear normal form ----

func linear(t *Term, coef *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.num != nil:
		c.Add(c, new(big.Int).Mul(coef, t.num))
		return
	case t.op == "+" && !t.isVar:
		for _, a := range t.args {
			linear(a, coef, m, c)
		}
		return
	case t.op == "*" && !t.isVar && t.args[0].num != nil:
		linear(t.args[1], new(big.Int).Mul(coef, t.args[0].num), m, c)
		return
	}
	if v, ok := m[t]; ok {
		v.Add(v, coef)
	} else {
		m[t] = new(big.Int).Set(coef)
	}
}

func buildLinear(m map[*Term]*big.Int, c *big.Int) *Term {
	var ks []*Term
	for k, v := range m {
		if v.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, k := range ks {
		if m[k].IsInt64() && m[k].Int64() == 1 {
			args = append(args, k)
		} else {
			args = append(args, mk("*", SInt, BigInt(m[k]), k))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, args...)
}

func Add(ts ...*Term) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	for _, t := range ts {
		linear(t, big.NewInt(1), m, c)
	}
	return buildLinear(m, c)
}

func Sub(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	linear(a, big.NewInt(1), m, c)
	linear(b, big.NewInt(-1), m, c)
	return buildLinear(m, c)
}

func Mul(a, b *Term) *Term {
	if a.num != nil || b.num != nil {
		if a.num == nil {
			a, b = b, a
		}
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		linear(b, a.num, m, c)
		return buildLinear(m, c)
	}
	return mk("*nl", SInt, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.num != nil {
		return BoolConst(d.num.Sign() >= 0)
	}
	return mk("<=", SBool, a, b)
}

func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.num != nil {
		return BoolConst(d.num.Sign() > 0)
	}
	return mk("<", SBool, a, b)
}

func Mod(a *Term, n int64) *Term {
	if a.num != nil {
		return BigInt(new(big.Int).Mod(a.num, big.NewInt(n)))
	}
	return mk("mod", SInt, a, Int(n))
}

func Div(a *Term, n int64) *Term { // floor division, n>0
	if a.num != nil {
		q := new(big.Int)
		q.Div(a.num, big.NewInt(n))
		return BigInt(q)
	}
	return mk("div", SInt, a, Int(n))
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	for {
		if a.op == "store" && !a.isVar {
			if a.args[1] == i {
				return a.args[2]
			}
			if decidedDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" && !a.isVar {
			return a.args[0]
		}
		break
	}
	return mk("select", a.sort.elem(), a, i)
}

func Store(a, i, v *Term) *Term {
	if v.sort != a.sort.elem() {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && !a.isVar && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && !v.isVar && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

// App applies a function symbol of the prelude.
func App(f string, sort Sort, args ...*Term) *Term { return mk(f, sort, args...) }

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return quant("forall", vars, pats, body)
}

func Exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	return quant("exists", vars, pats, body)
}

func quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	key := "\x06" + q
	for _, v := range vars {
		key += fmt.Sprintf(" %d", v.id)
	}
	key += fmt.Sprintf(":%d", body.id)
	for _, p := range pats {
		key += "/"
		for _, x := range p {
			key += fmt.Sprintf(" %d", x.id)
		}
	}
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: q, args: []*Term{body}, sort: SBool, id: tt.n, vars: vars, pats: pats}
	tt.m[key] = t
	// free bound variables other than vars
	seen := map[*Term]bool{}
	own := map[*Term]bool{}
	for _, v := range vars {
		own[v] = true
	}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if !x.fb || seen[x] {
			return false
		}
		seen[x] = true
		if x.bound {
			return !own[x]
		}
		if x.vars != nil {
			for _, v := range x.vars {
				own[v] = true
			}
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	t.fb = walk(body)
	return t
}

// subst replaces variables by terms (rebuilding with simplification).
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.vars != nil {
			body := rec(t.args[0])
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				pats = append(pats, q)
			}
			if body == t.args[0] {
				r = t
			} else {
				r = quant(t.op, t.vars, pats, body)
			}
		} else {
			args := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					same = false
				}
			}
			if same {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	return mk(t.op, t.sort, args...)
}

func (t *Term) String() string {
	s := termString(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// symName gives the SMT symbol of a name; no quoting, because not all solvers
// accept quoted symbols everywhere.
func symName(s string) string {
	ok := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!@-*<>$/&", c) >= 0
	}
	for i := 0; i < len(s); i++ {
		if !ok(s[i]) {
			b := []byte(s)
			for j, c := range b {
				if ok(c) {
					continue
				}
				switch c {
				case '[':
					b[j] = '<'
				case ']':
					b[j] = '>'
				case '#':
					b[j] = '!'
				case ':':
					b[j] = '&'
				default:
					b[j] = '_'
				}
			}
			return string(b)
		}
	}
	return s
}

// termString prints a term; named maps shared terms to their names.
func termString(t *Term, named map[*Term]string) string {
	var sb strings.Builder
	printTerm(&sb, t, named, nil)
	return sb.String()
}

func litName(s string) string {
	var sb strings.Builder
	sb.WriteString("|s\"")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= ' ' && c < 0x7f && c != '|' && c != '\\' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "~%02x", c)
		}
	}
	sb.WriteString("\"|")
	return sb.String()
}

func printTerm(sb *strings.Builder, t *Term, named map[*Term]string, root *Term) {
	if named != nil && t != root {
		if n, ok := named[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch {
	case t.num != nil:
		if t.num.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.num).String())
		} else {
			sb.WriteString(t.num.String())
		}
		return
	case t.lit != nil:
		sb.WriteString(litName(*t.lit))
		return
	case t.isVar || t.bound:
		sb.WriteString(symName(t.op))
		return
	case t.vars != nil:
		fmt.Fprintf(sb, "(%s (", t.op)
		for i, v := range t.vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "(%s %s)", symName(v.op), v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], named, root)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, named, root)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case t.op == "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		printTerm(sb, t.args[0], named, root)
		sb.WriteString(")")
		return
	case len(t.args) == 0:
		if strings.HasPrefix(t.op, "#x") {
			sb.WriteString(t.op)
		} else {
			sb.WriteString(symName(t.op))
		}
		return
	}
	op := t.op
	switch {
	case op == "*nl":
		op = "*"
	case strings.HasPrefix(op, "(_ "):
	case op == "=>" || op == "=" || op == "<=" || op == "<" || op == "+" || op == "*":
	default:
		op = symName(op)
	}
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		printTerm(sb, a, named, root)
	}
	sb.WriteByte(')')
}
