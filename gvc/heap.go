package main

// Values, types, memory.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(format string, args ...any) { panic(unsupported{fmt.Sprintf(format, args...)}) }

type Val interface{}

type TV struct{ T *Term }
type SliceV struct {
	base, off, len, cap *Term
	elem                types.Type
}
type StructV struct {
	typ types.Type
	f   []Val
}
type ArrayV struct {
	typ types.Type
	e   []Val
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method value
}
type TupleV []Val
type PtrV struct{ loc Loc }
type IterV struct {
	cell int
	str  *Term
}

type locKind int

const (
	lObj locKind = iota
	lElem
	lCell
	lGlobal
)

// Loc is a memory location.
type Loc struct {
	kind locKind
	ref  *Term      // lObj: object; lElem: base of the slice or array
	idx  *Term      // lElem
	root types.Type // lObj: type of the object; lElem: element type
	path string     // path of leaves below root
	typ  types.Type // type of the location
	cell int        // lCell
	cp   []int      // lCell: path of field/array indices
	glob string     // lGlobal
}

type leaf struct {
	suffix string
	sort   Sort
	typ    types.Type
}

type State struct {
	heap    map[string]*Term
	cells   map[int]Val
	pc      *pcNode
	nextref *Term
	dead    bool
	trace   *traceNode
}

type traceNode struct {
	s    string
	prev *traceNode
}

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

func (st *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)), cells: make(map[int]Val, len(st.cells)), pc: st.pc, nextref: st.nextref, dead: st.dead, trace: st.trace}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	return n
}

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		st.dead = true
	}
	if t.op == "and" && !t.isVar {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n}
}

func (st *State) assumptions() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) has(t *Term) bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}

// ---- type helpers ----

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Named:
		n := x.Obj().Name()
		if x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Name() + "." + n
		}
		return n
	case *types.Pointer:
		return "*" + typeName(x.Elem())
	case *types.Slice:
		return "[]" + typeName(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typeName(x.Elem()))
	case *types.Basic:
		switch x.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return x.Name()
	case *types.Map:
		return "map[" + typeName(x.Key()) + "]" + typeName(x.Elem())
	}
	return t.String()
}

func under(t types.Type) types.Type { return t.Underlying() }

func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

func isStructT(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

func (ex *Exec) intSort() Sort {
	if ex.bv {
		return SBV
	}
	return SInt
}

func (ex *Exec) num(n int64) *Term {
	if ex.bv {
		return BVConst(n)
	}
	return Int(n)
}

// scalarSort returns the sort of a scalar type, or "" for composite types.
func (ex *Exec) scalarSort(t types.Type) Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			if ex.bv && (u.Kind() == types.Int || u.Kind() == types.Int64) {
				return SBV
			}
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
		unsup("type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	}
	return ""
}

func (ex *Exec) leaves(t types.Type) []leaf {
	if s := ex.scalarSort(t); s != "" {
		return []leaf{{"", s, t}}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return []leaf{{".b", SInt, nil}, {".o", SInt, nil}, {".l", SInt, nil}, {".c", SInt, nil}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range ex.leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.suffix, l.sort, l.typ})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 16 {
			unsup("array value of length %d", u.Len())
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range ex.leaves(u.Elem()) {
				out = append(out, leaf{"." + strconv.FormatInt(i, 10) + l.suffix, l.sort, l.typ})
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range ex.leaves(u.At(i).Type()) {
				out = append(out, leaf{"." + strconv.Itoa(i) + l.suffix, l.sort, l.typ})
			}
		}
		return out
	}
	unsup("leaves of type %s", t)
	return nil
}

// pack builds a value of type t from its leaf terms.
func (ex *Exec) pack(t types.Type, ts []*Term) Val {
	v, rest := ex.pack1(t, ts)
	if len(rest) != 0 {
		panic("pack: extra leaves")
	}
	return v
}

func (ex *Exec) pack1(t types.Type, ts []*Term) (Val, []*Term) {
	if s := ex.scalarSort(t); s != "" {
		return ex.scalarVal(t, ts[0]), ts[1:]
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = ex.pack1(u.Field(i).Type(), ts)
			sv.f = append(sv.f, f)
		}
		return sv, ts
	case *types.Array:
		av := ArrayV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ts = ex.pack1(u.Elem(), ts)
			av.e = append(av.e, f)
		}
		return av, ts
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = ex.pack1(u.At(i).Type(), ts)
			tv = append(tv, f)
		}
		return tv, ts
	}
	unsup("pack of type %s", t)
	return nil, nil
}

// scalarVal gives the value for a scalar term of type t.
func (ex *Exec) scalarVal(t types.Type, x *Term) Val {
	switch u := under(t).(type) {
	case *types.Pointer:
		if isStructT(u.Elem()) {
			return PtrV{Loc{kind: lObj, ref: x, root: u.Elem(), typ: u.Elem()}}
		}
		if c, ok := ex.cellPtrs[x]; ok {
			return c
		}
		if _, ok := under(u.Elem()).(*types.Array); ok {
			return PtrV{Loc{kind: lObj, ref: x, root: u.Elem(), typ: u.Elem()}}
		}
		return TV{x}
	case *types.Signature:
		if f, ok := ex.funcTerms[x]; ok {
			return f
		}
	}
	return TV{x}
}

// unpack is the inverse of pack.
func (ex *Exec) unpack(t types.Type, v Val) []*Term {
	if s := ex.scalarSort(t); s != "" {
		return []*Term{ex.term(v)}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if tv, ok := v.(TV); ok && tv.T == Int(0) {
			return []*Term{Int(0), Int(0), Int(0), Int(0)}
		}
		s := v.(SliceV)
		return []*Term{s.base, s.off, s.len, s.cap}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.unpack(u.Field(i).Type(), v.(StructV).f[i])...)
		}
		return out
	case *types.Array:
		var out []*Term
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, ex.unpack(u.Elem(), v.(ArrayV).e[i])...)
		}
		return out
	case *types.Tuple:
		var out []*Term
		for i := 0; i < u.Len(); i++ {
			out = append(out, ex.unpack(u.At(i).Type(), v.(TupleV)[i])...)
		}
		return out
	}
	unsup("unpack of type %s", t)
	return nil
}

// term converts a scalar value to its term.
func (ex *Exec) term(v Val) *Term {
	switch x := v.(type) {
	case TV:
		return x.T
	case PtrV:
		if x.loc.kind == lObj && x.loc.path == "" {
			return x.loc.ref
		}
		if x.loc.kind == lCell && len(x.loc.cp) == 0 {
			t := Const(fmt.Sprintf("cellptr#%d", x.loc.cell), SInt)
			ex.cellPtrs[t] = x
			return t
		}
		unsup("interior pointer used as a value")
	case FuncV:
		return ex.funcTerm(x)
	}
	unsup("no scalar term for %T", v)
	return nil
}

func (ex *Exec) funcTerm(f FuncV) *Term {
	if len(f.binds) == 0 && f.recv == nil {
		t := Const("fn:"+funcKey(f.fn), SInt)
		if _, ok := ex.funcTerms[t]; !ok {
			ex.funcTerms[t] = f
		}
		return t
	}
	for t, g := range ex.funcTerms {
		if g.fn == f.fn && len(g.binds) == len(f.binds) && len(f.binds) > 0 {
			same := true
			for i := range g.binds {
				a, ok1 := g.binds[i].(PtrV)
				b, ok2 := f.binds[i].(PtrV)
				if !ok1 || !ok2 || a.loc.kind != b.loc.kind || a.loc.cell != b.loc.cell || a.loc.ref != b.loc.ref {
					same = false
				}
			}
			if same {
				return t
			}
		}
	}
	t := Fresh("closure:"+funcKey(f.fn), SInt)
	ex.funcTerms[t] = f
	return t
}

func (ex *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range ex.leaves(t) {
		ts = append(ts, zeroOf(l.sort))
	}
	return ex.pack(t, ts)
}

func zeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SIface:
		return NilI
	case SBV:
		return BVConst(0)
	}
	panic("zeroOf " + string(s))
}

var NilI = mk("I.nil", SIface)

// freshVal makes an arbitrary well-formed value of type t.
func (ex *Exec) freshVal(st *State, hint string, t types.Type) Val {
	var ts []*Term
	for _, l := range ex.leaves(t) {
		ts = append(ts, Fresh(hint+l.suffix, l.sort))
	}
	v := ex.pack(t, ts)
	ex.assumeWF(st, t, v)
	return v
}

// assumeWF assumes what every value of type t satisfies.
func (ex *Exec) assumeWF(st *State, t types.Type, v Val) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && !ex.bv {
			x := v.(TV).T
			if x.num != nil {
				return
			}
			if lo, hi, ok := intRange(u); ok {
				st.assume(And(Le(Int(lo), x), Le(x, Int(hi))))
			}
		}
	case *types.Pointer:
		if p, ok := v.(PtrV); ok && p.loc.kind == lObj && p.loc.path == "" && p.loc.ref.num == nil {
			st.assume(Lt(p.loc.ref, st.nextref))
		}
	case *types.Map, *types.Chan:
		if x := v.(TV).T; x.num == nil {
			st.assume(And(Le(Int(0), x), Lt(x, st.nextref)))
		}
	case *types.Slice:
		s := v.(SliceV)
		if s.base.num != nil {
			return
		}
		st.assume(And(Le(Int(0), s.base), Lt(s.base, st.nextref), Le(Int(0), s.off), Le(Int(0), s.len), Le(s.len, s.cap)))
		st.assume(Imp(Eq(s.base, Int(0)), Eq(s.cap, Int(0))))
	case *types.Struct:
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			ex.assumeWF(st, u.Field(i).Type(), sv.f[i])
		}
	case *types.Array:
		av := v.(ArrayV)
		for i := range av.e {
			ex.assumeWF(st, u.Elem(), av.e[i])
		}
	case *types.Tuple:
		for i, x := range v.(TupleV) {
			ex.assumeWF(st, u.At(i).Type(), x)
		}
	case *types.Interface:
		// references inside interface values are allocated
		x := v.(TV).T
		if !isCtor(x) {
			st.assume(App("iallocated", SBool, x, st.nextref))
		}
	}
}

func intRange(b *types.Basic) (int64, int64, bool) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}

func (ex *Exec) wrap(t types.Type, x *Term) *Term {
	b, ok := under(t).(*types.Basic)
	if !ok || x.sort != SInt {
		return x
	}
	lo, hi, ok := intRange(b)
	if !ok {
		if b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr {
			return x // stated assumption: no overflow of 64-bit integers
		}
		return x
	}
	if n, ok := x.intVal(); ok && lo <= n && n <= hi {
		return x
	}
	size := hi - lo + 1
	if lo == 0 {
		return Mod(x, size)
	}
	return Sub(Mod(Add(x, Int(-lo)), size), Int(-lo))
}

// ---- heap components ----

func (ex *Exec) compSort(name string, l Sort) Sort {
	switch {
	case strings.HasPrefix(name, "H:"):
		return ArraySort(SInt, l)
	case strings.HasPrefix(name, "E:"):
		return ArraySort(SInt, ArraySort(SInt, l))
	case strings.HasPrefix(name, "G:"):
		return l
	}
	panic("compSort " + name)
}

func (ex *Exec) comp(st *State, name string, sort Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	return ex.initComp(name, sort)
}

func (ex *Exec) initComp(name string, sort Sort) *Term {
	ex.compSorts[name] = sort
	return Const(name+"@0", sort)
}

func (ex *Exec) setComp(st *State, name string, t *Term, key *Term) {
	ex.compSorts[name] = t.sort
	st.heap[name] = t
	for _, l := range ex.logs {
		l.add(name, key)
	}
}

// writeLog records what a loop body writes.
type writeLog struct {
	comps map[string]map[*Term]bool // key nil: whole component
	cells map[int]bool
	alloc bool
	mark  int
}

func newLog() *writeLog {
	return &writeLog{comps: map[string]map[*Term]bool{}, cells: map[int]bool{}}
}

func (l *writeLog) add(comp string, key *Term) {
	m := l.comps[comp]
	if m == nil {
		m = map[*Term]bool{}
		l.comps[comp] = m
	}
	m[key] = true
}

const subMul = 4096

// subRef is the reference of a struct embedded by value in a heap object.
func (ex *Exec) subRef(ref *Term, root types.Type, field string) *Term {
	key := typeName(root) + "." + field
	id, ok := ex.subIDs[key]
	if !ok {
		id = len(ex.subIDs) + 1
		ex.subIDs[key] = id
	}
	return Sub(Mul(Int(-subMul), ref), Int(int64(id)))
}

func (ex *Exec) fieldLoc(l Loc, i int) Loc {
	st := under(l.typ).(*types.Struct)
	f := st.Field(i)
	n := l
	n.typ = f.Type()
	switch l.kind {
	case lCell:
		n.cp = append(append([]int(nil), l.cp...), i)
	case lObj:
		if isStructT(f.Type()) && l.path == "" {
			return Loc{kind: lObj, ref: ex.subRef(l.ref, l.root, f.Name()), root: f.Type(), typ: f.Type()}
		}
		n.path = l.path + "." + f.Name()
	default:
		n.path = l.path + "." + f.Name()
	}
	return n
}

func (ex *Exec) constIndexLoc(l Loc, i int64) Loc {
	at := under(l.typ).(*types.Array)
	n := l
	n.typ = at.Elem()
	if l.kind == lCell {
		n.cp = append(append([]int(nil), l.cp...), int(i))
	} else {
		n.path = l.path + "." + strconv.FormatInt(i, 10)
	}
	return n
}

func locPrefix(l Loc) string {
	switch l.kind {
	case lObj:
		return "H:" + typeName(l.root) + l.path
	case lElem:
		return "E:" + typeName(l.root) + l.path
	case lGlobal:
		return "G:" + l.glob + l.path
	}
	panic("locPrefix")
}

func getPath(v Val, p []int) Val {
	for _, i := range p {
		switch x := v.(type) {
		case StructV:
			v = x.f[i]
		case ArrayV:
			v = x.e[i]
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func setPath(v Val, p []int, n Val) Val {
	if len(p) == 0 {
		return n
	}
	switch x := v.(type) {
	case StructV:
		f := append([]Val(nil), x.f...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return StructV{x.typ, f}
	case ArrayV:
		f := append([]Val(nil), x.e...)
		f[p[0]] = setPath(f[p[0]], p[1:], n)
		return ArrayV{x.typ, f}
	}
	unsup("path into %T", v)
	return nil
}

func isArrayObj(l Loc) bool {
	if l.kind != lObj || l.path != "" {
		return false
	}
	_, ok := under(l.root).(*types.Array)
	return ok
}

// load reads the value at a location.
func (ex *Exec) load(st *State, l Loc, wf bool) Val {
	if l.kind == lCell {
		v, ok := st.cells[l.cell]
		if !ok {
			unsup("cell %d out of scope", l.cell)
		}
		return getPath(v, l.cp)
	}
	if isArrayObj(l) {
		at := under(l.root).(*types.Array)
		av := ArrayV{typ: l.typ}
		for i := int64(0); i < at.Len(); i++ {
			av.e = append(av.e, ex.load(st, Loc{kind: lElem, ref: l.ref, idx: Int(i), root: at.Elem(), typ: at.Elem()}, wf))
		}
		return av
	}
	if l.kind == lObj && l.path == "" && isStructT(l.typ) {
		u := under(l.typ).(*types.Struct)
		sv := StructV{typ: l.typ}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, ex.load(st, ex.fieldLoc(l, i), wf))
		}
		return sv
	}
	prefix := locPrefix(l)
	var ts []*Term
	for _, lf := range ex.leaves(l.typ) {
		name := prefix + lf.suffix
		c := ex.comp(st, name, ex.compSort(name, lf.sort))
		switch l.kind {
		case lObj:
			c = Select(c, l.ref)
		case lElem:
			c = Select(Select(c, l.ref), l.idx)
		}
		ts = append(ts, c)
	}
	v := ex.pack(l.typ, ts)
	if wf {
		ex.assumeWF(st, l.typ, v)
	}
	return v
}

// store writes a value to a location.
func (ex *Exec) store(st *State, l Loc, v Val) {
	if l.kind == lCell {
		st.cells[l.cell] = setPath(st.cells[l.cell], l.cp, v)
		for _, lg := range ex.logs {
			lg.cells[l.cell] = true
		}
		return
	}
	if isArrayObj(l) {
		at := under(l.root).(*types.Array)
		for i := int64(0); i < at.Len(); i++ {
			ex.store(st, Loc{kind: lElem, ref: l.ref, idx: Int(i), root: at.Elem(), typ: at.Elem()}, v.(ArrayV).e[i])
		}
		return
	}
	if l.kind == lObj && l.path == "" && isStructT(l.typ) {
		u := under(l.typ).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ex.store(st, ex.fieldLoc(l, i), v.(StructV).f[i])
		}
		return
	}
	prefix := locPrefix(l)
	ts := ex.unpack(l.typ, v)
	for i, lf := range ex.leaves(l.typ) {
		name := prefix + lf.suffix
		c := ex.comp(st, name, ex.compSort(name, lf.sort))
		switch l.kind {
		case lObj:
			ex.setComp(st, name, Store(c, l.ref, ts[i]), l.ref)
		case lElem:
			arr := Select(c, l.ref)
			ex.setComp(st, name, Store(c, l.ref, Store(arr, l.idx, ts[i])), l.ref)
		case lGlobal:
			ex.setComp(st, name, ts[i], nil)
		}
	}
}

// seqKind returns the sequence theory for a leaf sort of slice elements.
func seqKind(s Sort, elem types.Type) string {
	switch s {
	case SIface:
		return "M"
	case SStr:
		return "S"
	case SInt:
		return "R"
	}
	return ""
}

func seqSort(k string) Sort { return Sort("Seq." + k) }

func seqElem(k string) Sort {
	switch k {
	case "M":
		return SIface
	case "S":
		return SStr
	case "R":
		return SInt
	case "L":
		return "Seq.M"
	}
	panic("seqElem " + k)
}
