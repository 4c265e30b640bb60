package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Value interface{}

type SliceV struct{ arr, off, len, cap *Term }
type IfaceV struct{ tag, val *Term }
type StructV struct{ f []Value }
type ArrayV struct {
	leaves []*Term
	n      int64
}
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	sym  *Term // opaque function value
}
type TupleV []Value
type IterV struct{ key string }

// ---- types ----

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") {
		s = reByte.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = reRune.ReplaceAllString(s, "int32")
	}
	return s
}

func isNamed(t types.Type, pkg, name string) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func isBufferT(t types.Type) bool {
	return isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder")
}
func isCipherT(t types.Type) bool { return isNamed(t, "crypto/rc4", "Cipher") }
func isReaderT(t types.Type) bool { return isNamed(t, "bytes", "Reader") }

type leaf struct {
	suffix string
	sort   Sort
	typ    types.Type
}

func basicSort(b *types.Basic) (Sort, bool) {
	switch {
	case b.Kind() == types.UntypedNil:
		return SRef, true
	case b.Info()&types.IsBoolean != 0:
		return SBool, true
	case b.Info()&types.IsInteger != 0:
		return SInt, true
	case b.Info()&types.IsFloat != 0:
		return SReal, true
	case b.Info()&types.IsString != 0:
		return SStr, true
	case b.Kind() == types.UnsafePointer:
		return SRef, true
	}
	return "", false
}

var leafCache sync.Map

func leavesOf(t types.Type) []leaf {
	k := typeKey(t)
	if v, ok := leafCache.Load(k); ok {
		return v.([]leaf)
	}
	r := leavesOf1(t)
	leafCache.Store(k, r)
	return r
}

func leavesOf1(t types.Type) []leaf {
	if isBufferT(t) || isCipherT(t) {
		return []leaf{{"", SStr, types.Typ[types.String]}}
	}
	if isReaderT(t) {
		return []leaf{{".src", SStr, types.Typ[types.String]}, {".pos", SInt, types.Typ[types.Uint]}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, ok := basicSort(u)
		if !ok {
			panic(unsupported("type " + t.String()))
		}
		return []leaf{{"", s, t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SRef, t}}
	case *types.Slice:
		return []leaf{{".arr", SRef, nil}, {".off", SInt, types.Typ[types.Uint]}, {".len", SInt, types.Typ[types.Uint]}, {".cap", SInt, types.Typ[types.Uint]}}
	case *types.Interface:
		return []leaf{{".tag", SInt, nil}, {".val", SRef, nil}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".f%d%s", i, l.suffix), l.sort, l.typ})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.suffix, ArrS(SInt, l.sort), nil})
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leavesOf(u.At(i).Type())...)
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

type unsupported string

func flatten(t types.Type, v Value) []*Term {
	if isBufferT(t) || isCipherT(t) {
		return []*Term{v.(*Term)}
	}
	if isReaderT(t) {
		s := v.(StructV)
		return []*Term{s.f[0].(*Term), s.f[1].(*Term)}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.arr, s.off, s.len, s.cap}
	case *types.Interface:
		s := v.(IfaceV)
		return []*Term{s.tag, s.val}
	case *types.Struct:
		var out []*Term
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, flatten(u.Field(i).Type(), s.f[i])...)
		}
		return out
	case *types.Array:
		return v.(ArrayV).leaves
	case *types.Tuple:
		var out []*Term
		for i := 0; i < u.Len(); i++ {
			out = append(out, flatten(u.At(i).Type(), v.(TupleV)[i])...)
		}
		return out
	case *types.Signature:
		if f, ok := v.(FuncV); ok {
			return []*Term{funcRef(f)}
		}
	}
	return []*Term{v.(*Term)}
}

func unflatten(t types.Type, ts []*Term) (Value, []*Term) {
	if isBufferT(t) || isCipherT(t) {
		return ts[0], ts[1:]
	}
	if isReaderT(t) {
		return StructV{[]Value{ts[0], ts[1]}}, ts[2:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		var fs []Value
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = unflatten(u.Field(i).Type(), ts)
			fs = append(fs, v)
		}
		return StructV{fs}, ts
	case *types.Array:
		n := len(leavesOf(u.Elem()))
		return ArrayV{ts[:n:n], u.Len()}, ts[n:]
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			var v Value
			v, ts = unflatten(u.At(i).Type(), ts)
			tv = append(tv, v)
		}
		return tv, ts
	case *types.Signature:
		return FuncV{sym: ts[0]}.resolve(), ts[1:]
	}
	return ts[0], ts[1:]
}

var funcRegMu sync.Mutex
var funcReg = map[*Term]FuncV{}

func funcRef(f FuncV) *Term {
	if f.fn == nil {
		return f.sym
	}
	if f.sym != nil {
		return f.sym
	}
	n := "fn_" + f.fn.String()
	if len(f.bind) > 0 {
		n = freshName(n)
	}
	// function objects live at negative ids: distinct from heap objects and nil
	r := mkObj(mkInt(-1000000 - int64(internName(n))))
	funcRegMu.Lock()
	f.sym = r
	funcReg[r] = f
	funcRegMu.Unlock()
	return r
}

func (f FuncV) resolve() FuncV {
	if f.fn != nil {
		return f
	}
	funcRegMu.Lock()
	defer funcRegMu.Unlock()
	if g, ok := funcReg[f.sym]; ok {
		return g
	}
	return f
}

var nameIdMu sync.Mutex
var nameIds = map[string]int{}

func internName(n string) int {
	nameIdMu.Lock()
	defer nameIdMu.Unlock()
	if v, ok := nameIds[n]; ok {
		return v
	}
	v := len(nameIds) + 1
	nameIds[n] = v
	return v
}

func zeroValue(t types.Type) Value {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroOfSort(l.sort))
	}
	v, _ := unflatten(t, ts)
	return v
}

func typeTag(t types.Type) *Term { return mkInt(int64(internName("type:" + typeKey(t)))) }

// field ids
func fieldID(st types.Type, i int) int {
	k := typeKey(st)
	return internName(fmt.Sprintf("field:%s.%d", k, i))
}

func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool, ok bool) {
	if t == nil {
		return
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	if signed {
		lo = new(big.Int).Neg(pow2(bits - 1))
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	return lo, hi, bits, signed, true
}

// hintType records the type range of a symbolic integer term.
func hintType(t *Term, typ types.Type) {
	if t.sort != SInt || typ == nil {
		return
	}
	if t.op != "var" && t.op != "app" && t.op != "select" {
		return
	}
	if t.op == "app" && t.name == "sat" || t.bound {
		return
	}
	lo, hi, bits, signed, ok := intRange(typ)
	if !ok || (bits == 64 && signed) {
		return
	}
	if _, have := boundHints.Load(t); !have {
		setBounds(t, lo, hi)
	}
}

// ---- memory ----

type Mem struct {
	kind  int // 0 base, 1 store, 2 havoc
	prev  *Mem
	ref   *Term
	val   *Term
	name  string // base / havoc function symbol
	sort  Sort   // value sort
	al    *Term  // havoc: allocation counter right after havoc
	al0   *Term  // havoc: allocation counter before the havoc region started
	w     []*Term
	noFr  bool // havoc without frame
	depth int
}

type PC struct {
	up *PC
	t  *Term
	n  int
}

type Write struct {
	mapw bool
	comp string
	ref  *Term
	typ  types.Type // typed write: comp == ""
	up   *Write
	n    int
	g    *Term // the write changes something only under this condition (nil: always)
}

type State struct {
	heap     map[string]*Mem
	al       *Term
	pc       *PC
	pcset    map[*Term]bool // shared copy-on-write is overkill: rebuilt lazily
	iters    map[string]*Term
	wlog     *Write
	entry    *State // state at entry of the function under verification (for old())
	trace    []string
	dead     bool
	havocAll bool
	xerr     string
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Mem, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.iters = make(map[string]*Term, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t == tFalse {
		s.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for p, i := s.pc, 0; p != nil && i < 400; p, i = p.up, i+1 {
		if p.t == t {
			return
		}
		if p.t == mkNot(t) {
			s.dead = true
		}
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{s.pc, t, n + 1}
}

func (s *State) pcs() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.up {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// known: is t syntactically implied by the path condition?
func (s *State) known(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !s.known(a) {
				return false
			}
		}
		return true
	}
	for p := s.pc; p != nil; p = p.up {
		if p.t == t {
			return true
		}
		if t.op == "ge0" && p.t.op == "ge0" {
			d := mkSub(t.args[0], p.t.args[0])
			if isConst(d) && d.r.Sign() >= 0 {
				return true
			}
		}
	}
	return false
}

var compSortMu sync.Mutex
var compSort = map[string]Sort{}

func (s *State) mem(comp string, sort Sort) *Mem {
	if m, ok := s.heap[comp]; ok {
		return m
	}
	compSortMu.Lock()
	compSort[comp] = sort
	compSortMu.Unlock()
	n := "H0_" + comp
	setBirth(n, stamp{0, 0})
	m := &Mem{kind: 0, name: n, sort: sort}
	if s.havocAll {
		nm := freshName("HD_" + comp)
		setBirth(nm, stamp{1 << 20, 0})
		m = &Mem{kind: 2, prev: m, name: nm, sort: sort, al: s.al, al0: s.al, noFr: true}
	}
	s.heap[comp] = m
	return m
}

func isGlobRef(r *Term) bool {
	r = refRoot(r)
	return isCtor(r, "obj") && r.args[0].op == "int" && r.args[0].r.Sign() < 0
}

// freshSince: the allocation root of ref was allocated at or after counter al.
func freshSince(ref, al *Term) bool {
	r := refRoot(ref)
	if !isCtor(r, "obj") {
		return false
	}
	d := mkSub(r.args[0], al)
	if isConst(d) {
		return d.r.Sign() >= 0
	}
	s1, ok1 := stampOfAl(r.args[0])
	s2, ok2 := stampOfAl(al)
	return ok1 && ok2 && s2.leq(s1)
}

// existedAt: every object ref may denote existed when the counter was al.
func existedAt(ref, al *Term) bool {
	if isGlobRef(ref) || ref == tNil {
		return true
	}
	s2, ok2 := stampOfAl(al)
	if !ok2 {
		return false
	}
	st, ok := latestBirth(refRoot(ref))
	return ok && st.leq(s2)
}

func mkRid(r *Term) *Term {
	if r.op == "ite" {
		return mkIte(r.args[0], mkRid(r.args[1]), mkRid(r.args[2]))
	}
	r = refRoot(r)
	if r == tNil {
		return mkInt(-1)
	}
	if isCtor(r, "obj") {
		return r.args[0]
	}
	return mkApp("rid", SInt, r)
}

func (m *Mem) frameCond(ref *Term) *Term {
	if m.noFr {
		return tFalse
	}
	var c *Term
	if existedAt(ref, m.al0) {
		c = tTrue
	} else if freshSince(ref, m.al0) {
		return tFalse
	} else {
		c = mkLt(mkRid(ref), m.al0)
	}
	for _, w := range m.w {
		c = mkAnd(c, mkNot(mkEq(ref, w)))
		if c == tFalse {
			return c
		}
	}
	return c
}

var globArrMu sync.Mutex
var globArr = map[string]*Term{} // comp|refid -> contents

func (m *Mem) read(comp string, ref *Term) *Term {
	if ref.op == "ite" {
		return mkIte(ref.args[0], m.read(comp, ref.args[1]), m.read(comp, ref.args[2]))
	}
	switch m.kind {
	case 0:
		if isGlobRef(ref) {
			globArrMu.Lock()
			v, ok := globArr[fmt.Sprintf("%s|%d", comp, ref.id)]
			globArrMu.Unlock()
			if ok {
				return v
			}
		} else if r := refRoot(ref); isCtor(r, "obj") && r.args[0].op != "int" {
			// allocated during this run and never written: zero
			return zeroOfSort(m.sort)
		}
		return mkApp(m.name, m.sort, ref)
	case 1:
		if m.ref == ref {
			return m.val
		}
		if refDistinct(m.ref, ref) {
			return m.prev.read(comp, ref)
		}
		return mkIte(mkEq(m.ref, ref), m.val, m.prev.read(comp, ref))
	case 2:
		if freshSince(ref, m.al) && !isGlobRef(ref) {
			return zeroOfSort(m.sort)
		}
		c := m.frameCond(ref)
		if c == tTrue {
			return m.prev.read(comp, ref)
		}
		g := mkApp(m.name, m.sort, ref)
		if c == tFalse {
			return g
		}
		return mkIte(c, m.prev.read(comp, ref), g)
	}
	panic("mem")
}

func (s *State) readComp(comp string, sort Sort, ref *Term) *Term {
	return s.mem(comp, sort).read(comp, ref)
}

func (s *State) writeComp(comp string, sort Sort, ref, val *Term) {
	s.writeCompG(comp, sort, ref, val, nil)
}

// writeCompG: the caller guarantees that under not g the written value is the old one.
func (s *State) writeCompG(comp string, sort Sort, ref, val, g *Term) {
	if ref.op == "ite" {
		c, a, b := ref.args[0], ref.args[1], ref.args[2]
		ga, gb := c, mkNot(c)
		if g != nil {
			ga, gb = mkAnd(g, ga), mkAnd(g, gb)
		}
		s.writeCompG(comp, sort, a, mkIte(c, val, s.readComp(comp, sort, a)), ga)
		s.writeCompG(comp, sort, b, mkIte(c, s.readComp(comp, sort, b), val), gb)
		return
	}
	m := s.mem(comp, sort)
	if m.kind == 1 && m.ref == ref {
		m = m.prev
	}
	s.heap[comp] = &Mem{kind: 1, prev: m, ref: ref, val: val, sort: sort, depth: m.depth + 1}
	n := 0
	if s.wlog != nil {
		n = s.wlog.n
	}
	s.wlog = &Write{comp: comp, ref: ref, up: s.wlog, n: n + 1, g: g}
}

// route an address to (component, outer ref, inner index)
func route(ref *Term, t types.Type, suffix string) (comp string, outer, idx *Term) {
	path := ""
	r := ref
	for isCtor(r, "fld") {
		path = ".f" + r.args[1].r.RatString() + path
		r = r.args[0]
	}
	if isCtor(r, "elem") {
		if path == "" {
			return "E:" + typeKey(t) + suffix, r.args[0], r.args[1]
		}
		return "E" + path + suffix, r.args[0], r.args[1]
	}
	if isCtor(ref, "fld") {
		return "F" + ref.args[1].r.RatString() + suffix, ref.args[0], nil
	}
	return "C:" + typeKey(t) + suffix, ref, nil
}

func (s *State) loadLeaf(ref *Term, t types.Type, l leaf) *Term {
	if ref.op == "ite" {
		return mkIte(ref.args[0], s.loadLeaf(ref.args[1], t, l), s.loadLeaf(ref.args[2], t, l))
	}
	comp, outer, idx := route(ref, t, l.suffix)
	var v *Term
	if idx != nil {
		v = mkSelect(s.readComp(comp, ArrS(SInt, l.sort), outer), idx)
	} else {
		v = s.readComp(comp, l.sort, outer)
	}
	hintType(v, l.typ)
	return v
}

func (s *State) storeLeaf(ref *Term, t types.Type, l leaf, v *Term) {
	if ref.op == "ite" {
		oa, ob := s.loadLeaf(ref.args[1], t, l), s.loadLeaf(ref.args[2], t, l)
		s.storeLeaf(ref.args[1], t, l, mkIte(ref.args[0], v, oa))
		s.storeLeaf(ref.args[2], t, l, mkIte(ref.args[0], ob, v))
		return
	}
	comp, outer, idx := route(ref, t, l.suffix)
	if idx != nil {
		srt := ArrS(SInt, l.sort)
		inner := s.readComp(comp, srt, outer)
		s.writeComp(comp, srt, outer, mkStore(inner, idx, v))
	} else {
		s.writeComp(comp, l.sort, outer, v)
	}
}

func (s *State) load(ref *Term, t types.Type) Value {
	if !isLeafy(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var fs []Value
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, s.load(mkFld(ref, fieldID(t, i)), u.Field(i).Type()))
			}
			return StructV{fs}
		case *types.Array:
			var ls []*Term
			for _, p := range elemComps(u.Elem()) {
				ls = append(ls, s.readComp(p.comp, ArrS(SInt, p.sort), ref))
			}
			return ArrayV{ls, u.Len()}
		}
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, s.loadLeaf(ref, t, l))
	}
	v, _ := unflatten(t, ts)
	s.assumeTyped(t, v)
	return v
}

// assumeTyped adds the representation invariants of composite values.
func (s *State) assumeTyped(t types.Type, v Value) {
	if sv, ok := v.(SliceV); ok {
		if sv.len.bound || sv.arr.bound {
			return
		}
		s.assume(mkGe0(sv.len))
		s.assume(mkLe(sv.len, sv.cap))
		s.assume(mkGe0(sv.off))
		if sv.arr != tNil && !isCtor(sv.arr, "obj") {
			s.assume(mkImp(mkEq(sv.arr, tNil), mkEq(sv.cap, mkInt(0))))
		}
	}
	if st, ok := v.(StructV); ok {
		if u, ok := t.Underlying().(*types.Struct); ok && !isReaderT(t) {
			for i := range st.f {
				s.assumeTyped(u.Field(i).Type(), st.f[i])
			}
		}
	}
	if iv, ok := v.(IfaceV); ok && !iv.tag.bound {
		s.assume(mkGe0(iv.tag))
	}
	if isReaderT(t) {
		rv := v.(StructV)
		if !rv.f[1].(*Term).bound {
			s.assume(mkGe0(rv.f[1].(*Term)))
		}
	}
}

func (s *State) store(ref *Term, t types.Type, v Value) {
	if isLeafy(t) {
		s.logTyped(ref, t)
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv := v.(StructV)
			for i := 0; i < u.NumFields(); i++ {
				s.store(mkFld(ref, fieldID(t, i)), u.Field(i).Type(), sv.f[i])
			}
			return
		case *types.Array:
			av := v.(ArrayV)
			for i, p := range elemComps(u.Elem()) {
				s.writeComp(p.comp, ArrS(SInt, p.sort), ref, av.leaves[i])
			}
			s.logTyped(ref, t)
			return
		}
		s.logTyped(ref, t)
	}
	ts := flatten(t, v)
	for i, l := range leavesOf(t) {
		s.storeLeaf(ref, t, l, ts[i])
	}
}

func (s *State) logWrite(comp string, ref *Term) {
	n := 0
	if s.wlog != nil {
		n = s.wlog.n
	}
	s.wlog = &Write{comp: comp, ref: ref, up: s.wlog, n: n + 1}
}

func (s *State) logTyped(ref *Term, t types.Type) {
	n := 0
	if s.wlog != nil {
		n = s.wlog.n
	}
	s.wlog = &Write{ref: ref, typ: t, up: s.wlog, n: n + 1}
}

type ecomp struct {
	comp string
	sort Sort
	typ  types.Type
}

// elemComps lists the two-level components holding the elements of arrays of type t,
// in the leaf order of t.
func elemComps(t types.Type) []ecomp {
	dummy := mkElem(tNil, mkInt(0))
	var out []ecomp
	var walk func(ref *Term, t types.Type)
	walk = func(ref *Term, t types.Type) {
		if !isLeafy(t) {
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					walk(mkFld(ref, fieldID(t, i)), u.Field(i).Type())
				}
				return
			}
			if _, ok := t.Underlying().(*types.Array); ok {
				panic(unsupported("array of arrays"))
			}
		}
		for _, l := range leavesOf(t) {
			c, _, _ := route(ref, t, l.suffix)
			out = append(out, ecomp{c, l.sort, l.typ})
		}
	}
	walk(dummy, t)
	return out
}

func (s *State) alloc() *Term {
	r := mkObj(s.al)
	s.al = mkAddI(s.al, 1)
	return r
}

// elements of a slice: per leaf inner arrays
func (s *State) sliceLeaves(elem types.Type, sv SliceV) []*Term {
	var out []*Term
	for _, p := range elemComps(elem) {
		out = append(out, s.readComp(p.comp, ArrS(SInt, p.sort), sv.arr))
	}
	return out
}

func (s *State) strOfSlice(sv SliceV) *Term {
	if isInt(sv.len, 0) {
		return tEmpty
	}
	a := s.readComp("E:"+byteKey, ArrS(SInt, SInt), sv.arr)
	return mkStrOf(a, sv.off, sv.len)
}

const byteKey = "uint8"

// newBytes allocates a fresh []byte with the content of string term str.
func (s *State) newBytes(str *Term) SliceV {
	r := s.alloc()
	n := mkSlen(str)
	s.writeComp("E:"+byteKey, ArrS(SInt, SInt), r, mkArrOf(str))
	s.assume(mkGe0(n))
	return SliceV{r, mkInt(0), n, n}
}

// symbolic value of a type
func (s *State) symValue(name string, t types.Type) Value {
	if tup, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tup.Len(); i++ {
			tv = append(tv, s.symValue(fmt.Sprintf("%s.%d", name, i), tup.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	st, _ := stampOfAl(s.al)
	for _, l := range leavesOf(t) {
		n := freshName(name + l.suffix)
		setBirth(n, st)
		v := mkVar(n, l.sort)
		hintType(v, l.typ)
		ts = append(ts, v)
	}
	v, _ := unflatten(t, ts)
	s.assumeTyped(t, v)
	return v
}

// ---- constants ----

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	return constToValue(c.Value, t)
}

func constToValue(v constant.Value, t types.Type) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(v))
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(v)
		r, _ := new(big.Rat).SetString(i.ExactString())
		return mkRatS(r, SInt)
	case b.Info()&types.IsFloat != 0:
		f := constant.ToFloat(v)
		r, ok := new(big.Rat).SetString(f.ExactString())
		if !ok {
			x, _ := constant.Float64Val(f)
			r = new(big.Rat).SetFloat64(x)
		}
		return mkReal(r)
	case b.Info()&types.IsString != 0:
		return mkLit(constant.StringVal(v))
	}
	panic(unsupported("const " + t.String()))
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/signintech/pdft/minigopdf/fontmaker/", "")
	s = strings.ReplaceAll(s, "github.com/signintech/", "")
	s = strings.ReplaceAll(s, "pdft/minigopdf", "gopdf")
	s = strings.ReplaceAll(s, "pdft/", "")
	return s
}
