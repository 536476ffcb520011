package main

// Library functions with special treatment, and path feasibility.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// special executes library functions that need more than a contract.
func (ex *Exec) special(fr *Frame, key string, fn *ssa.Function, args []Val, st *State, pos tokenPos, k func(*Frame, *State, []Val)) bool {
	switch key {
	case "fmt.Sprintf":
		k(fr, st, []Val{TV{ex.format(st, args[0], args[1])}})
		return true
	case "fmt.Fprintf":
		s := ex.format(st, args[1], args[2])
		ex.write(fr, st, args[0], s, pos, k)
		return true
	case "fmt.Fprint":
		s := ex.formatArgs(st, args[1])
		ex.write(fr, st, args[0], s, pos, k)
		return true
	case "fmt.Fprintln":
		s := scat(ex.formatArgs(st, args[1]), StrLit("\n"))
		ex.write(fr, st, args[0], s, pos, k)
		return true
	case "fmt.Errorf":
		e := Fresh("err", SIface)
		st.assume(Not(Eq(e, NilI)))
		k(fr, st, []Val{TV{e}})
		return true
	}
	return false
}

// write sends text to a writer by the contract of io.WriteString.
func (ex *Exec) write(fr *Frame, st *State, w Val, s *Term, pos tokenPos, k func(*Frame, *State, []Val)) {
	ct := ex.v.contract("io.WriteString")
	if ct == nil {
		unsup("no contract for io.WriteString")
	}
	f := ex.v.libFunc("io", "WriteString")
	ex.applyContract(fr, ct, f, f.Signature, []Val{w, TV{s}}, st, pos, k)
}

func (v *Verifier) libFunc(pkg, name string) *ssa.Function {
	for _, p := range v.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	unsup("no library function %s.%s", pkg, name)
	return nil
}

func (ex *Exec) varargs(st *State, a Val) ([]*Term, bool) {
	s, ok := a.(SliceV)
	if !ok {
		return nil, false
	}
	n, ok := s.len.intVal()
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		v := ex.load(st, Loc{kind: lElem, ref: s.base, idx: Add(s.off, Int(i)), root: s.elem, typ: s.elem}, false)
		out = append(out, ex.term(v))
	}
	return out, true
}

// fmtArg gives the text of one argument for a verb, or nil.
func (ex *Exec) fmtArg(st *State, verb byte, x *Term) *Term {
	if isCtor(x) && len(x.args) == 1 {
		a := x.args[0]
		c := ex.v.ctors[x.op]
		plainStr := c != nil && a.sort == SStr && ex.v.methodOf(c.typ, "String") == nil && ex.v.methodOf(c.typ, "Error") == nil
		switch {
		case (verb == 's' || verb == 'v') && plainStr:
			return a
		case verb == 'X' && a.sort == SInt && ex.v.prelude.decl["hexs"] != nil:
			return App("hexs", SStr, a)
		case verb == 'c' && a.sort == SInt:
			return ex.enc(a)
		case (verb == 'd' || verb == 'v') && a.sort == SInt && (x.op == "I.int" || verb == 'd'):
			if n, ok := a.intVal(); ok {
				return StrLit(fmt.Sprint(n))
			}
			return App("dec", SStr, a)
		}
	}
	if ex.v.prelude.decl["fmtverb"] != nil {
		return App("fmtverb", SStr, Int(int64(verb)), x)
	}
	return Fresh("fmt", SStr)
}

func (ex *Exec) format(st *State, f Val, a Val) *Term {
	ft := ex.term(f)
	args, ok := ex.varargs(st, a)
	if ft.lit == nil || !ok {
		return Fresh("formatted", SStr)
	}
	out := StrLit("")
	s := *ft.lit
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			out = scat(out, StrLit(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return Fresh("formatted", SStr)
		}
		if s[i] == '%' {
			out = scat(out, StrLit("%"))
			continue
		}
		if strings.IndexByte("svdcX", s[i]) < 0 {
			// flags and widths are not modelled
			j := i
			for j < len(s) && strings.IndexByte("0123456789+-# .", s[j]) >= 0 {
				j++
			}
			if j >= len(s) || ai >= len(args) {
				return Fresh("formatted", SStr)
			}
			if ex.v.prelude.decl["fmtflag"] != nil {
				out = scat(out, App("fmtflag", SStr, StrLit(s[i:j+1]), args[ai]))
			} else {
				out = scat(out, Fresh("fmt", SStr))
			}
			ai++
			i = j
			continue
		}
		if ai >= len(args) {
			return Fresh("formatted", SStr)
		}
		out = scat(out, ex.fmtArg(st, s[i], args[ai]))
		ai++
	}
	if ai != len(args) {
		return Fresh("formatted", SStr)
	}
	return out
}

func (ex *Exec) formatArgs(st *State, a Val) *Term {
	args, ok := ex.varargs(st, a)
	if !ok {
		return Fresh("formatted", SStr)
	}
	out := StrLit("")
	for _, x := range args {
		out = scat(out, ex.fmtArg(st, 'v', x))
	}
	if len(args) > 1 {
		return Fresh("formatted", SStr)
	}
	return out
}

// ---- feasibility ----

type feasSolver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var feas *feasSolver
var feasCache = map[string]bool{}

// feasible asks a solver about the quantifier-free part of the path condition.
// "Unknown" counts as feasible.
func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	var as []*Term
	for _, a := range st.assumptions() {
		if !hasQuant(a) {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return true
	}
	as = coneOf(as)
	q := printGround(ex.v.prelude, as)
	if r, ok := feasCache[q]; ok {
		return r
	}
	if feas == nil || feas.n > 2000 {
		if feas != nil {
			feas.in.Close()
			feas.cmd.Wait()
		}
		cmd := exec.Command("z3-new", "-in", "-smt2")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return true
		}
		feas = &feasSolver{cmd: cmd, in: in, out: bufio.NewReader(out)}
		io.WriteString(in, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 0)\n")
	}
	feas.n++
	io.WriteString(feas.in, "(reset)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 400000)\n"+q+"(echo \"done\")\n")
	res := true
	for {
		l, err := feas.out.ReadString('\n')
		if err != nil {
			feas = nil
			return true
		}
		l = strings.TrimSpace(l)
		if l == "unsat" {
			res = false
		}
		if l == "done" {
			break
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") {
			panic(specError{msg: "feasibility query: " + l})
		}
	}
	feasCache[q] = res
	return res
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.vars != nil
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t] = r
	return r
}

// coneOf keeps the facts connected with the last one through shared symbols.
func coneOf(as []*Term) []*Term {
	if len(as) < 40 {
		return as
	}
	syms := map[*Term][]*Term{}
	for _, a := range as {
		collectSyms(a, map[*Term]bool{}, func(x *Term) {
			if x.isVar {
				syms[a] = append(syms[a], x)
			}
		})
	}
	want := map[*Term]bool{}
	for _, x := range syms[as[len(as)-1]] {
		want[x] = true
	}
	keep := map[*Term]bool{as[len(as)-1]: true}
	for round := 0; round < 3; round++ {
		add := map[*Term]bool{}
		for _, a := range as {
			if keep[a] {
				continue
			}
			for _, x := range syms[a] {
				if want[x] {
					keep[a] = true
					for _, y := range syms[a] {
						add[y] = true
					}
					break
				}
			}
		}
		for y := range add {
			want[y] = true
		}
	}
	var out []*Term
	for _, a := range as {
		if keep[a] {
			out = append(out, a)
		}
	}
	return out
}

// printGround prints a query whose prelude functions have no axioms, except
// that lengths are not negative.
func printGround(p *Prelude, as []*Term) string {
	return p.printWith(&Query{assumes: as}, 0, 0)
}
