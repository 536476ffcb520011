package main

// Contract files: parsing and evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	kind string // requires ensures modifies ghost loop assert use
	tags []string
	expr ast.Expr
	lhs  ast.Expr
	meta []metaVar // loop templates
	text string
	file string
	line int
	name string
}

type metaVar struct{ name, typ string }

type Contract struct {
	key      string
	params   []string
	results  []string
	clauses  []*Clause
	inline   bool
	trusted  bool // extern: not verified, listed as an assumption
	why      string
	root     bool
	dispatch bool
	bv       map[string]bool
	unroll   int
	pure     bool
	top      bool
	entry    map[string]bool // properties checked from here, besides those of the clauses
	nopanic  bool
	nonnil   bool // function variables: assumed to be set
	term     bool
	props    map[string]bool // properties for which the function is verified, nil = any clause
	file     string
	line     int
}

type Macro struct {
	params []string
	body   ast.Expr
}

type GhostDecl struct {
	name string
	sort Sort
}

type Spec struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	ghosts    map[string]Sort
	prelude   []string
	typesUsed []string
	assume    []string
	ginvs     []*Clause // invariants of package variables
	ginits    map[string][]ghostInit
}

var headRe = regexp.MustCompile(`^(func|extern|value|iface|initial)\s+(.*)$`)

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == "*" || t == p {
			return true
		}
	}
	return false
}

func loadSpec(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string]Sort{}, ginits: map[string][]ghostInit{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	pre, _ := filepath.Glob(filepath.Join(dir, "*.smt"))
	sort.Strings(pre)
	for _, f := range pre {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.prelude = append(sp.prelude, string(b))
	}
	return sp, nil
}

func parseE(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

var clauseRe = regexp.MustCompile(`^(requires|ensures|modifies|ghost|sync|loop|decreases|assert|use|entry)\s*(?:\[([^\]]*)\])?\s+(.*)$`)

func (sp *Spec) loadFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cur *Contract
	lines := strings.Split(string(b), "\n")
	// join continuation lines
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		ln := i + 1
		if j := strings.Index(l, "//"); j >= 0 && (j == 0 || l[j-1] == ' ' || l[j-1] == '\t') {
			l = l[:j]
		}
		for strings.HasSuffix(strings.TrimRight(l, " \t"), "\\") && i+1 < len(lines) {
			i++
			m := lines[i]
			if j := strings.Index(m, "//"); j >= 0 && (j == 0 || m[j-1] == ' ' || m[j-1] == '\t') {
				m = m[:j]
			}
			l = strings.TrimSuffix(strings.TrimRight(l, " \t"), "\\") + " " + strings.TrimSpace(m)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", file, ln, err) }
		switch {
		case strings.HasPrefix(l, "define "):
			m := regexp.MustCompile(`^define\s+(\w+)\(([^)]*)\)\s*=\s*(.*)$`).FindStringSubmatch(l)
			if m == nil {
				return fail(fmt.Errorf("bad define"))
			}
			e, err := parseE(m[3])
			if err != nil {
				return fail(err)
			}
			if sp.macros[m[1]] != nil {
				return fail(fmt.Errorf("%s is defined twice", m[1]))
			}
			sp.macros[m[1]] = &Macro{splitNames(m[2]), e}
		case strings.HasPrefix(l, "ghostvar "):
			m := regexp.MustCompile(`^ghostvar\s+(\w+)\s+(.*)$`).FindStringSubmatch(l)
			sp.ghosts[m[1]] = Sort(m[2])
		case strings.HasPrefix(l, "type "):
			sp.typesUsed = append(sp.typesUsed, strings.TrimSpace(l[5:]))
		case strings.HasPrefix(l, "assumption "):
			sp.assume = append(sp.assume, strings.TrimSpace(l[11:]))
		case strings.HasPrefix(l, "ghostinit "):
			// ghostinit TYPE GHOST := EXPR: ghost state of a new object
			f := strings.SplitN(strings.TrimSpace(l[10:]), " ", 3)
			if len(f) != 3 || !strings.HasPrefix(f[2], ":= ") {
				return fail(fmt.Errorf("bad ghostinit"))
			}
			c := &Clause{kind: "ghostinit", text: f[2][3:], file: filepath.Base(file), line: ln, tags: []string{"*"}}
			if c.expr, err = parseE(c.text); err != nil {
				return fail(err)
			}
			sp.ginits[f[0]] = append(sp.ginits[f[0]], ghostInit{f[1], c})
		case strings.HasPrefix(l, "ginvariant "):
			c := &Clause{kind: "ginvariant", text: strings.TrimSpace(l[11:]), file: filepath.Base(file), line: ln, tags: []string{"*"}}
			if c.expr, err = parseE(c.text); err != nil {
				return fail(err)
			}
			sp.ginvs = append(sp.ginvs, c)
		case headRe.MatchString(l):
			m := headRe.FindStringSubmatch(l)
			rest := m[2]
			// key(params) (results) flags...
			// the parameter list is the last balanced (...) directly after the name
			key, params, after, err := splitHead(rest)
			if err != nil {
				return fail(err)
			}
			if m[1] == "value" {
				key = "value " + key
			}
			if m[1] == "initial" {
				key = "initial " + key
			}
			cur = &Contract{key: key, params: params, file: file, line: ln}
			cur.root = m[1] == "initial"
			if m[1] == "extern" || m[1] == "value" {
				cur.trusted = true
			}
			after = strings.TrimSpace(after)
			if strings.HasPrefix(after, "(") {
				j := strings.Index(after, ")")
				cur.results = splitNames(after[1:j])
				after = strings.TrimSpace(after[j+1:])
			}
			for _, f := range strings.Fields(after) {
				switch {
				case f == "inline":
					cur.inline = true
				case f == "trusted":
					cur.trusted = true
				case f == "root":
					cur.root = true
				case f == "dispatch":
					cur.dispatch = true
				case strings.HasPrefix(f, "bv="):
					// bit vectors and unrolling, for these properties only
					cur.bv = map[string]bool{}
					for _, p := range strings.Split(f[3:], ",") {
						cur.bv[p] = true
					}
				case f == "pure":
					cur.pure = true
				case f == "terminates":
					cur.term = true
				case f == "top":
					// never called: the frame is not checked
					cur.top = true
				case f == "nonnil":
					cur.nonnil = true
				case f == "nopanic":
					cur.nopanic = true
				case strings.HasPrefix(f, "unroll="):
					cur.unroll, _ = strconv.Atoi(f[7:])
				case strings.HasPrefix(f, "entry="):
					cur.entry = map[string]bool{}
					for _, p := range strings.Split(f[6:], ",") {
						cur.entry[p] = true
					}
				case strings.HasPrefix(f, "props="):
					cur.props = map[string]bool{}
					for _, p := range strings.Split(f[6:], ",") {
						cur.props[p] = true
					}
				default:
					return fail(fmt.Errorf("unknown flag %s", f))
				}
			}
			if _, dup := sp.contracts[key]; dup {
				return fail(fmt.Errorf("duplicate contract %s", key))
			}
			sp.contracts[key] = cur
			sp.order = append(sp.order, key)
		case strings.HasPrefix(l, "why "):
			cur.why = l[4:]
		case clauseRe.MatchString(l):
			if cur == nil {
				return fail(fmt.Errorf("clause outside a contract"))
			}
			m := clauseRe.FindStringSubmatch(l)
			c := &Clause{kind: m[1], text: m[3], file: filepath.Base(file), line: ln}
			for _, t := range strings.Split(m[2], ",") {
				t = strings.TrimSpace(t)
				if strings.HasPrefix(t, "@") {
					c.name = t[1:]
				} else if t != "" {
					c.tags = append(c.tags, t)
				}
			}
			if len(c.tags) == 0 {
				c.tags = []string{"*"}
			}
			body := m[3]
			switch c.kind {
			case "loop", "decreases":
				if j := strings.Index(body, "=>"); j >= 0 && !strings.ContainsAny(body[:j], "(=<>") {
					for _, d := range strings.Split(body[:j], ",") {
						fs := strings.Fields(strings.Replace(d, ":", " ", 1))
						if len(fs) != 2 {
							return fail(fmt.Errorf("bad metavariable %q", d))
						}
						c.meta = append(c.meta, metaVar{fs[0], fs[1]})
					}
					body = body[j+2:]
				}
			case "ghost", "sync":
				j := strings.Index(body, ":=")
				if j < 0 {
					return fail(fmt.Errorf("ghost clause needs :="))
				}
				if c.lhs, err = parseE(strings.TrimSpace(body[:j])); err != nil {
					return fail(err)
				}
				body = body[j+2:]
			case "modifies":
				body = "mod(" + body + ")"
			}
			if c.expr, err = parseE(strings.TrimSpace(body)); err != nil {
				return fail(err)
			}
			cur.clauses = append(cur.clauses, c)
		default:
			return fail(fmt.Errorf("cannot parse %q", l))
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// splitHead splits "pkg.(*T).M(a, b) (r) flags".
func splitHead(s string) (key string, params []string, after string, err error) {
	i := 0
	for i < len(s) {
		if s[i] == '(' {
			// part of the key when preceded by '.'
			j := strings.IndexByte(s[i:], ')')
			if j < 0 {
				return "", nil, "", fmt.Errorf("bad head %q", s)
			}
			if i > 0 && s[i-1] == '.' {
				i += j + 1
				continue
			}
			return strings.TrimSpace(s[:i]), splitNames(s[i+1 : i+j]), s[i+j+1:], nil
		}
		i++
	}
	return "", nil, "", fmt.Errorf("head without parameter list: %q", s)
}

// ---- evaluation ----

type SVal struct {
	v   Val
	typ types.Type
	t   *Term
}

func (s SVal) isGo() bool { return s.typ != nil }

type ghostInit struct {
	ghost string
	c     *Clause
}

type sEnv struct {
	ex    *Exec
	vars  map[string]SVal
	st    *State
	old   *State
	loopE *State // loop entry
	sink  *State // receives well-formedness facts
	bound int
	depth int
}

type specError struct{ msg, key string }

func specFail(f string, a ...any) { panic(specError{msg: fmt.Sprintf(f, a...)}) }

func lt(t *Term) SVal { return SVal{t: t} }

func (e *sEnv) with(vars map[string]SVal) *sEnv {
	n := *e
	n.vars = map[string]SVal{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *sEnv) term(s SVal) *Term {
	if s.t != nil {
		return s.t
	}
	if s.typ != nil {
		if b, ok := s.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Int(0)
		}
	}
	return e.ex.term(s.v)
}

// iface gives the interface term of a value.
func (e *sEnv) iface(s SVal) *Term {
	if s.t != nil {
		return s.t
	}
	if isIface(s.typ) {
		return e.ex.term(s.v)
	}
	return e.ex.makeIface(s.typ, s.v)
}

func (e *sEnv) load(l Loc) SVal {
	wf := e.bound == 0 && e.sink != nil
	v := e.ex.load(e.st, l, false)
	if wf {
		tmp := &State{nextref: e.st.nextref}
		e.ex.assumeWF(tmp, l.typ, v)
		for _, a := range tmp.assumptions() {
			if !a.fb {
				e.sink.assume(a)
			}
		}
	}
	return SVal{v: v, typ: l.typ}
}

func (e *sEnv) bool(x ast.Expr) *Term {
	t := e.term(e.eval(x))
	if t.sort != SBool {
		specFail("boolean expected: %s", exprString(x))
	}
	return t
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

func (e *sEnv) int(x ast.Expr) *Term {
	t := e.term(e.eval(x))
	if t.sort == SBV {
		return t
	}
	if t.sort != SInt {
		specFail("int expected: %s has sort %s", exprString(x), t.sort)
	}
	return t
}

func (e *sEnv) eval(x ast.Expr) SVal {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v, err := strconv.ParseInt(n.Value, 0, 64)
			if err != nil {
				specFail("%v", err)
			}
			if e.ex.bv {
				return lt(BVConst(v))
			}
			return lt(Int(v))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				specFail("%v", err)
			}
			return lt(Int(int64(r)))
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				specFail("%v", err)
			}
			return lt(StrLit(s))
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return lt(Not(e.bool(n.X)))
		case token.SUB:
			t := e.int(n.X)
			if t.sort == SBV {
				return lt(mk("bvneg", SBV, t))
			}
			return lt(Sub(Int(0), t))
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		if p, ok := v.v.(PtrV); ok {
			return e.load(p.loc)
		}
		specFail("cannot dereference %s", exprString(n.X))
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.IndexExpr:
		a := e.eval(n.X)
		if a.isGo() {
			switch s := a.v.(type) {
			case SliceV:
				i := e.int(n.Index)
				return e.load(Loc{kind: lElem, ref: s.base, idx: Add(s.off, i), root: s.elem, typ: s.elem})
			case ArrayV:
				if k, ok := e.int(n.Index).intVal(); ok && int(k) < len(s.e) {
					return SVal{v: s.e[k], typ: under(s.typ).(*types.Array).Elem()}
				}
				specFail("array index %s", exprString(n.Index))
			}
		}
		t := e.term(a)
		i := e.int(n.Index)
		if t.sort == SStr {
			return lt(App("sat", SInt, t, i))
		}
		if strings.HasPrefix(string(t.sort), "Seq.") {
			k := string(t.sort)[4:]
			return lt(App("idx."+k, seqElem(k), t, i))
		}
		if strings.HasPrefix(string(t.sort), "(Array") {
			return lt(Select(t, i))
		}
		specFail("cannot index %s", exprString(n.X))
	case *ast.CallExpr:
		return e.call(n)
	}
	specFail("unsupported expression %s", exprString(x))
	return SVal{}
}

func (e *sEnv) ident(name string) SVal {
	if v, ok := e.vars[name]; ok {
		return v
	}
	switch name {
	case "true":
		return lt(True)
	case "false":
		return lt(False)
	case "nil":
		return SVal{v: TV{Int(0)}, typ: types.Typ[types.UntypedNil]}
	case "nextref":
		return lt(e.st.nextref)
	}
	if s, ok := e.ex.v.spec.ghosts[name]; ok {
		return lt(e.ex.comp(e.st, "g:"+name, s))
	}
	if sig, ok := e.ex.v.prelude.sigs[name]; ok && len(sig.args) == 0 {
		return lt(mk(name, sig.ret))
	}
	if dn := dotted(name); dn != "" {
		if sig, ok := e.ex.v.prelude.sigs[dn]; ok && len(sig.args) == 0 {
			return lt(mk(dn, sig.ret))
		}
	}
	specFail("unknown identifier %s", name)
	return SVal{}
}

// dotted maps nil_M to nil.M and so on.
func dotted(name string) string {
	if i := strings.LastIndex(name, "_"); i > 0 {
		return name[:i] + "." + name[i+1:]
	}
	return ""
}

func (e *sEnv) eqTerm(a, b SVal) *Term {
	isNil := func(s SVal) bool {
		b, ok := s.typ.(*types.Basic)
		return s.typ != nil && ok && b.Kind() == types.UntypedNil
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		if a.isGo() {
			if isIface(a.typ) {
				return Eq(e.term(a), NilI)
			}
			if s, ok := a.v.(SliceV); ok {
				return Eq(s.base, Int(0))
			}
			if _, ok := a.v.(FuncV); ok {
				return False
			}
			return Eq(e.term(a), Int(0))
		}
		if a.t.sort == SIface {
			return Eq(a.t, NilI)
		}
		return Eq(a.t, Int(0))
	}
	if a.isGo() && b.isGo() && !isIface(a.typ) && !isIface(b.typ) {
		la, lb := e.ex.unpack(a.typ, a.v), e.ex.unpack(b.typ, b.v)
		if len(la) != len(lb) {
			specFail("comparison of different types %s and %s", a.typ, b.typ)
		}
		var cs []*Term
		for i := range la {
			cs = append(cs, Eq(la[i], lb[i]))
		}
		return And(cs...)
	}
	if a.isGo() && isIface(a.typ) || a.t != nil && a.t.sort == SIface {
		return Eq(e.iface(a), e.iface(b))
	}
	if b.isGo() && isIface(b.typ) || b.t != nil && b.t.sort == SIface {
		return Eq(e.iface(a), e.iface(b))
	}
	x, y := e.term(a), e.term(b)
	if x.sort == SStr && y.sort == SInt {
		y = sunit(y)
	}
	// a library contract used in bit-vector mode
	toBV := func(t *Term) *Term {
		if n, ok := t.intVal(); ok {
			return BVConst(n)
		}
		return mk("(_ int2bv 64)", SBV, t)
	}
	if x.sort == SBV && y.sort == SInt {
		y = toBV(y)
	} else if x.sort == SInt && y.sort == SBV {
		x = toBV(x)
	}
	if x.sort != y.sort {
		specFail("comparison of sorts %s and %s", x.sort, y.sort)
	}
	return Eq(x, y)
}

func (e *sEnv) binary(n *ast.BinaryExpr) SVal {
	switch n.Op {
	case token.LAND:
		return lt(And(e.bool(n.X), e.bool(n.Y)))
	case token.LOR:
		return lt(Or(e.bool(n.X), e.bool(n.Y)))
	case token.EQL:
		return lt(e.eqTerm(e.eval(n.X), e.eval(n.Y)))
	case token.NEQ:
		return lt(Not(e.eqTerm(e.eval(n.X), e.eval(n.Y))))
	}
	a, b := e.term(e.eval(n.X)), e.term(e.eval(n.Y))
	if a.sort == SStr && n.Op == token.ADD {
		return lt(scat(a, b))
	}
	if strings.HasPrefix(string(a.sort), "Seq.") && n.Op == token.ADD {
		return lt(seqCat(string(a.sort)[4:], a, b))
	}
	if a.sort == SBV {
		ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvashr"}
		if o, ok := ops[n.Op]; ok {
			return lt(mk(o, SBV, a, b))
		}
		cmp := map[token.Token]string{token.LSS: "bvslt", token.LEQ: "bvsle", token.GTR: "bvsgt", token.GEQ: "bvsge"}
		if o, ok := cmp[n.Op]; ok {
			return lt(mk(o, SBool, a, b))
		}
	}
	if a.sort != SInt || b.sort != SInt {
		specFail("operands of %s: %s, %s", exprString(n), a.sort, b.sort)
	}
	switch n.Op {
	case token.ADD:
		return lt(Add(a, b))
	case token.SUB:
		return lt(Sub(a, b))
	case token.MUL:
		return lt(Mul(a, b))
	case token.LSS:
		return lt(Lt(a, b))
	case token.LEQ:
		return lt(Le(a, b))
	case token.GTR:
		return lt(Lt(b, a))
	case token.GEQ:
		return lt(Le(b, a))
	case token.QUO:
		if k, ok := b.intVal(); ok {
			return lt(Div(a, k))
		}
	case token.REM:
		if k, ok := b.intVal(); ok {
			return lt(Mod(a, k))
		}
	}
	specFail("operator in %s", exprString(n))
	return SVal{}
}

func (e *sEnv) selector(n *ast.SelectorExpr) SVal {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			if g := e.ex.v.global(id.Name + "." + n.Sel.Name); g != nil {
				if v, ok := e.ex.v.stableGlobal(e.ex, g); ok {
					return SVal{v: v, typ: g.Type().(*types.Pointer).Elem()}
				}
				return e.load(Loc{kind: lGlobal, glob: globalName(g), typ: g.Type().(*types.Pointer).Elem()})
			}
		}
	}
	l, ok := e.lval(n)
	if ok {
		return e.load(l)
	}
	a := e.eval(n.X)
	if sv, ok := a.v.(StructV); ok {
		u := under(sv.typ).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n.Sel.Name {
				return SVal{v: sv.f[i], typ: u.Field(i).Type()}
			}
		}
	}
	if sl, ok := a.v.(SliceV); ok {
		switch n.Sel.Name {
		case "base":
			return lt(sl.base)
		case "off":
			return lt(sl.off)
		case "cap":
			return lt(sl.cap)
		}
	}
	specFail("unknown selector %s", exprString(n))
	return SVal{}
}

// lval resolves field selections to locations.
func (e *sEnv) lval(x ast.Expr) (Loc, bool) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.lval(n.X)
	case *ast.StarExpr:
		v := e.eval(n.X)
		if p, ok := v.v.(PtrV); ok {
			return p.loc, true
		}
	case *ast.SelectorExpr:
		var base Loc
		found := false
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if g := e.ex.v.global(id.Name + "." + n.Sel.Name); g != nil {
					return Loc{kind: lGlobal, glob: globalName(g), typ: g.Type().(*types.Pointer).Elem()}, true
				}
			}
		}
		if inner, ok := n.X.(*ast.SelectorExpr); ok {
			// struct embedded by value in an object
			if l, ok := e.lval(inner); ok && isStructT(l.typ) {
				base, found = l, true
			}
		}
		if !found {
			v := e.eval(n.X)
			switch p := v.v.(type) {
			case PtrV:
				base, found = p.loc, true
			}
		}
		if !found || !isStructT(base.typ) {
			return Loc{}, false
		}
		// promoted fields
		obj, path, _ := types.LookupFieldOrMethod(base.typ, true, e.ex.v.pkgOf(base.typ), n.Sel.Name)
		if obj == nil {
			specFail("no field %s in %s", n.Sel.Name, base.typ)
		}
		if _, ok := obj.(*types.Var); !ok {
			return Loc{}, false
		}
		cur := base
		for i, k := range path {
			cur = e.ex.fieldLoc(cur, k)
			if i < len(path)-1 {
				if _, ok := under(cur.typ).(*types.Pointer); ok {
					v := e.load(cur)
					cur = v.v.(PtrV).loc
				}
			}
		}
		return cur, true
	case *ast.IndexExpr:
		a := e.eval(n.X)
		if s, ok := a.v.(SliceV); ok {
			return Loc{kind: lElem, ref: s.base, idx: Add(s.off, e.int(n.Index)), root: s.elem, typ: s.elem}, true
		}
	}
	return Loc{}, false
}

func (e *sEnv) typeByName(x ast.Expr) types.Type {
	lit, ok := x.(*ast.BasicLit)
	if !ok {
		specFail("type name must be a string literal")
	}
	s, _ := strconv.Unquote(lit.Value)
	t := e.ex.v.typeByName(s)
	if t == nil {
		specFail("unknown type %s", s)
	}
	return t
}

// seqLeaf builds the sequence of a leaf of a slice's elements.
func (e *sEnv) seqLeaf(s SliceV, field string) *Term {
	for _, lf := range e.ex.leaves(s.elem) {
		if field != "" && lf.suffix != "."+field {
			continue
		}
		if field == "" && len(e.ex.leaves(s.elem)) > 1 && lf.suffix != ".Moji" {
			continue
		}
		cn := "E:" + typeName(s.elem) + lf.suffix
		e.ex.v.noteSeq(cn)
		k := e.ex.elemSeqKind(lf.sort, s.elem)
		if k == "" {
			specFail("no sequence theory for %s", cn)
		}
		arr := Select(e.ex.comp(e.st, cn, e.ex.compSort(cn, lf.sort)), s.base)
		return seqOf(k, arr, s.off, s.len)
	}
	specFail("no leaf %q of %s", field, s.elem)
	return nil
}

// seqT coerces to a sequence or string term.
func (e *sEnv) seqT(x ast.Expr) *Term {
	s := e.eval(x)
	if s.isGo() {
		if sl, ok := s.v.(SliceV); ok {
			return e.seqLeaf(sl, "")
		}
	}
	return e.term(s)
}

func (e *sEnv) quant(q string, name string, sort Sort, mkBody func(*sEnv, *Term) *Term, pats []ast.Expr) *Term {
	v := BoundVarNamed(fmt.Sprintf("%s?%d", name, e.depth), sort)
	ne := e.with(map[string]SVal{name: lt(v)})
	ne.bound++
	ne.depth++
	body := mkBody(ne, v)
	var ps [][]*Term
	for _, p := range pats {
		ps = append(ps, []*Term{ne.term(ne.eval(p))})
	}
	if len(ps) == 0 {
		ps = autoPats(body, v)
	}
	if q == "forall" {
		return Forall([]*Term{v}, ps, body)
	}
	return Exists([]*Term{v}, nil, body)
}

// autoPats finds the smallest applications that have v as an argument.
func autoPats(body *Term, v *Term) [][]*Term {
	var idx, sel, other []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.fb {
			return
		}
		seen[t] = true
		if len(t.args) > 0 && t.vars == nil {
			direct := false
			for _, a := range t.args {
				if a == v {
					direct = true
				}
			}
			if direct {
				switch {
				case strings.HasPrefix(t.op, "idx."), t.op == "sat":
					idx = append(idx, t)
				case t.op == "select":
					sel = append(sel, t)
				case isInterpreted(t.op):
				default:
					other = append(other, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var out [][]*Term
	add := func(ts []*Term) {
		for _, t := range ts {
			ok := true
			// no other bound variables
			seen2 := map[*Term]bool{}
			collectSyms(t, seen2, func(x *Term) {
				if x.bound && x != v {
					ok = false
				}
			})
			if ok {
				out = append(out, []*Term{t})
			}
		}
	}
	add(idx)
	add(sel)
	add(other)
	return out
}

func isInterpreted(op string) bool {
	switch op {
	case "+", "*", "*nl", "<=", "<", "=", "=>", "and", "or", "not", "ite", "mod", "div", "store", "constarr":
		return true
	}
	return strings.HasPrefix(op, "bv") || strings.HasPrefix(op, "(_ ")
}

func (e *sEnv) call(n *ast.CallExpr) SVal {
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	default:
		specFail("cannot call %s", exprString(n.Fun))
	}
	arg := func(i int) ast.Expr {
		if i >= len(n.Args) {
			specFail("missing argument in %s", exprString(n))
		}
		return n.Args[i]
	}
	if m, ok := e.ex.v.spec.macros[name]; ok {
		if len(m.params) != len(n.Args) {
			specFail("macro %s needs %d arguments", name, len(m.params))
		}
		vars := map[string]SVal{}
		for i, p := range m.params {
			vars[p] = e.eval(n.Args[i])
		}
		ne := *e
		ne.vars = vars
		for _, k := range []string{"result", "result0", "result1", "result2"} {
			if v, ok := e.vars[k]; ok {
				if _, dup := vars[k]; !dup {
					vars[k] = v
				}
			}
		}
		return ne.eval(m.body)
	}
	switch name {
	case "old":
		if e.old == nil {
			specFail("old outside a postcondition")
		}
		ne := *e
		ne.st = e.old
		return ne.eval(arg(0))
	case "entry":
		ne := *e
		if e.loopE == nil {
			specFail("entry outside a loop")
		}
		ne.st = e.loopE
		return ne.eval(arg(0))
	case "when":
		// when("C01,C02", e): e for these properties, true for the others
		ps, _ := strconv.Unquote(arg(0).(*ast.BasicLit).Value)
		for _, p := range strings.Split(ps, ",") {
			if p == e.ex.v.prop {
				return e.eval(arg(1))
			}
		}
		return lt(True)
	case "nextref":
		return lt(e.st.nextref)
	case "imp":
		a := e.bool(arg(0))
		if a == False {
			return lt(True)
		}
		return lt(Imp(a, e.bool(arg(1))))
	case "iff":
		return lt(Eq(e.bool(arg(0)), e.bool(arg(1))))
	case "ite":
		c := e.bool(arg(0))
		if c == True {
			return e.eval(arg(1))
		}
		if c == False {
			return e.eval(arg(2))
		}
		a, b := e.eval(arg(1)), e.eval(arg(2))
		return lt(Ite(c, e.term(a), e.term(b)))
	case "all", "some":
		id := arg(0).(*ast.Ident).Name
		lo, hi := e.int(arg(1)), e.int(arg(2))
		q := "forall"
		if name == "some" {
			q = "exists"
		}
		return lt(e.quant(q, id, SInt, func(ne *sEnv, v *Term) *Term {
			rng := And(Le(lo, v), Lt(v, hi))
			if q == "forall" {
				return Imp(rng, ne.bool(arg(3)))
			}
			return And(rng, ne.bool(arg(3)))
		}, n.Args[4:]))
	case "forall", "exists":
		// forall(x, "Sort", body, patterns...)
		id := arg(0).(*ast.Ident).Name
		s, _ := strconv.Unquote(arg(1).(*ast.BasicLit).Value)
		return lt(e.quant(name, id, Sort(s), func(ne *sEnv, v *Term) *Term { return ne.bool(arg(2)) }, n.Args[3:]))
	case "let":
		// let(x, value, body)
		id := arg(0).(*ast.Ident).Name
		return e.with(map[string]SVal{id: e.eval(arg(1))}).eval(arg(2))
	case "len":
		s := e.eval(arg(0))
		if s.isGo() {
			switch v := s.v.(type) {
			case SliceV:
				return lt(v.len)
			case ArrayV:
				return lt(Int(int64(len(v.e))))
			}
		}
		t := e.term(s)
		if t.sort == SStr {
			return lt(slen(t))
		}
		if strings.HasPrefix(string(t.sort), "Seq.") {
			return lt(seqLen(t))
		}
		specFail("len of %s", exprString(arg(0)))
	case "cap":
		return lt(e.eval(arg(0)).v.(SliceV).cap)
	case "base":
		return lt(e.eval(arg(0)).v.(SliceV).base)
	case "off":
		return lt(e.eval(arg(0)).v.(SliceV).off)
	case "ref":
		if sel, ok := arg(0).(*ast.SelectorExpr); ok {
			// a struct held by value in an object
			if l, ok := e.lval(sel); ok && l.kind == lObj && l.path == "" && isStructT(l.typ) {
				return lt(l.ref)
			}
		}
		return lt(e.term(e.eval(arg(0))))
	case "seq":
		s := e.eval(arg(0))
		sl, ok := s.v.(SliceV)
		if !ok {
			specFail("seq of a non-slice %s", exprString(arg(0)))
		}
		f := ""
		if len(n.Args) > 1 {
			f = arg(1).(*ast.Ident).Name
		}
		return lt(e.seqLeaf(sl, f))
	case "cat":
		r := e.seqT(arg(0))
		for _, a := range n.Args[1:] {
			b := e.seqT(a)
			if r.sort == SStr {
				r = scat(r, b)
			} else {
				r = seqCat(string(r.sort)[4:], r, b)
			}
		}
		return lt(r)
	case "take", "drop":
		s := e.seqT(arg(0))
		k := e.int(arg(1))
		if s.sort == SStr {
			if name == "take" {
				return lt(ssub(s, Int(0), k))
			}
			return lt(ssub(s, k, slen(s)))
		}
		return lt(App(name+"."+string(s.sort)[4:], s.sort, s, k))
	case "sub":
		s := e.seqT(arg(0))
		i, j := e.int(arg(1)), e.int(arg(2))
		if s.sort == SStr {
			return lt(ssub(s, i, j))
		}
		k := string(s.sort)[4:]
		return lt(App("take."+k, s.sort, App("drop."+k, s.sort, s, i), Sub(j, i)))
	case "upd":
		s := e.seqT(arg(0))
		k := string(s.sort)[4:]
		v := e.eval(arg(2))
		tv := e.termOfSort(v, seqElem(k))
		return lt(App("upd."+k, s.sort, s, e.int(arg(1)), tv))
	case "unit":
		v := e.eval(arg(0))
		if v.isGo() && isIface(v.typ) || v.t != nil && v.t.sort == SIface {
			return lt(seqUnit("M", e.iface(v)))
		}
		t := e.term(v)
		switch t.sort {
		case SStr:
			return lt(seqUnit("S", t))
		case SInt:
			return lt(seqUnit("R", t))
		case "Seq.M":
			return lt(seqUnit("L", t))
		}
		specFail("unit of sort %s", t.sort)
	case "sunit":
		return lt(sunit(e.int(arg(0))))
	case "iface":
		return lt(e.iface(e.eval(arg(0))))
	case "istype":
		return lt(e.ex.isType(e.iface(e.eval(arg(0))), e.typeByName(arg(1))))
	case "payload":
		t := e.typeByName(arg(1))
		return SVal{v: e.ex.ifacePayload(e.iface(e.eval(arg(0))), t), typ: t}
	case "mkiface":
		t := e.typeByName(arg(1))
		v := e.eval(arg(0))
		if v.isGo() {
			return lt(e.ex.makeIface(t, v.v))
		}
		return lt(e.ex.makeIface(t, e.ex.scalarVal(t, v.t)))
	case "ptr":
		// ptr(ref, "T"): a typed pointer
		t := e.typeByName(arg(1))
		r := e.term(e.eval(arg(0)))
		return SVal{v: PtrV{Loc{kind: lObj, ref: r, root: t, typ: t}}, typ: types.NewPointer(t)}
	case "Out":
		w := e.iface(e.eval(arg(0)))
		return lt(Select(e.ex.comp(e.st, "g:Out", ArraySort(SIface, SStr)), w))
	case "comp":
		s, _ := strconv.Unquote(arg(0).(*ast.BasicLit).Value)
		e.ex.v.ensureComp(e.ex, s)
		srt, ok := e.ex.compSorts[s]
		if !ok {
			specFail("unknown component %s", s)
		}
		return lt(e.ex.comp(e.st, s, srt))
	case "sel":
		return lt(Select(e.term(e.eval(arg(0))), e.term(e.eval(arg(1)))))
	case "mapdom", "mapval":
		m := e.eval(arg(0))
		mt := under(m.typ).(*types.Map)
		dn, vn, ks, vs := e.ex.mapComps(mt)
		if name == "mapdom" {
			return lt(Select(e.ex.comp(e.st, dn, ArraySort(SInt, ArraySort(ks, SBool))), e.term(m)))
		}
		return lt(Select(e.ex.comp(e.st, vn, ArraySort(SInt, ArraySort(ks, vs))), e.term(m)))
	case "allocated":
		r := e.term(e.eval(arg(0)))
		return lt(allocTerm(r, e.st.nextref))
	case "isfresh":
		r := e.term(e.eval(arg(0)))
		return lt(And(Le(e.old.nextref, r), Lt(r, e.st.nextref)))
	case "min", "max":
		a, b := e.int(arg(0)), e.int(arg(1))
		if name == "min" {
			return lt(Ite(Le(a, b), a, b))
		}
		return lt(Ite(Le(a, b), b, a))
	}
	if s, ok := e.ex.v.spec.ghosts[name]; ok {
		c := e.ex.comp(e.st, "g:"+name, s)
		for _, a := range n.Args {
			v := e.eval(a)
			if c.sort.key() == SIface {
				c = Select(c, e.iface(v))
			} else {
				c = Select(c, e.term(v))
			}
		}
		return lt(c)
	}
	sig, ok := e.ex.v.prelude.sigs[name]
	fname := name
	if !ok {
		if fname = dotted(name); fname != "" {
			sig, ok = e.ex.v.prelude.sigs[fname]
		}
	}
	if !ok {
		specFail("unknown function %s", name)
	}
	if len(sig.args) != len(n.Args) {
		specFail("%s needs %d arguments", name, len(sig.args))
	}
	var ts []*Term
	for i := range n.Args {
		v := e.eval(n.Args[i])
		if v.isGo() {
			if sl, ok := v.v.(SliceV); ok && strings.HasPrefix(string(sig.args[i]), "Seq.") {
				v = lt(e.seqLeaf(sl, ""))
			}
			if sl, ok := v.v.(SliceV); ok && sig.args[i] == SStr {
				v = lt(e.seqLeaf(sl, ""))
			}
		}
		t := e.termOfSort(v, sig.args[i])
		ts = append(ts, t)
	}
	if fname == "enc" {
		return lt(e.ex.enc(ts[0]))
	}
	return lt(App(fname, sig.ret, ts...))
}

func (e *sEnv) termOfSort(v SVal, s Sort) *Term {
	if s == SIface {
		return e.iface(v)
	}
	t := e.term(v)
	if t.sort != s {
		if t.sort == SBV && s == SInt {
			return BVToInt(t)
		}
		specFail("sort %s expected, got %s: %s", s, t.sort, t)
	}
	return t
}

func seqLen(t *Term) *Term {
	k := string(t.sort)[4:]
	switch {
	case t.op == "nil."+k:
		return Int(0)
	case t.op == "unit."+k:
		return Int(1)
	case t.op == "of."+k && t.args[2].num != nil:
		return t.args[2]
	}
	return App("len."+k, SInt, t)
}

// allocTerm says that r is nil, an allocated object, or part of one.
func allocTerm(r, n *Term) *Term {
	return And(Lt(Mul(Int(-subMul), n), r), Lt(r, n))
}

// safeEval evaluates a clause, reporting specification errors.
func (e *sEnv) safeBool(c *Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specError:
				err = fmt.Errorf("%s:%d: %s", c.file, c.line, x.msg)
			case unsupported:
				err = fmt.Errorf("%s:%d: %s", c.file, c.line, x.msg)
			default:
				panic(r)
			}
		}
	}()
	return e.bool(c.expr), nil
}
