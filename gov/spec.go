package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sval struct {
	v Value
	t types.Type // nil for specification-only values
}

type Clause struct {
	Name   string
	Props  []string
	Text   string
	E      ast.Expr
	Vars   []mvar // loop templates
	Guards []*Clause
	Line   string
}

type mvar struct {
	name, kind string
}

type Contract struct {
	Func     string
	Params   []string
	Results  []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Invs     []*Clause
	Lemmas   []*Clause
	Assumes  []*Clause
	Trusted  bool
	Opaque   []string
	NoInline bool
	Ghosts   []string
	GSorts   []Sort
	Defs     []*Clause
	Safety   bool
	Havoc    bool
	file     string
	Note     string
}

type recDef struct {
	name   string
	params []string
	sorts  []Sort
	res    Sort
	body   ast.Expr
	text   string
	axiom  bool
}

type macroDef struct {
	params []string
	body   ast.Expr
}

var reDollar = regexp.MustCompile(`\$([a-zA-Z])`)

func parseSpec(s string) (ast.Expr, error) {
	return parser.ParseExpr(reDollar.ReplaceAllString(s, "MV_$1"))
}

var sortNames = map[string]Sort{"int": SInt, "str": SStr, "real": SReal, "bool": SBool, "ref": SRef,
	"arrint": ArrS(SInt, SInt), "arrstr": ArrS(SInt, SStr), "arrref": ArrS(SInt, SRef), "arrreal": ArrS(SInt, SReal),
	"setint": ArrS(SInt, SBool), "setstr": ArrS(SStr, SBool), "mapintint": ArrS(SInt, SInt), "mapstrint": ArrS(SStr, SInt),
	"map2int": ArrS(SInt, ArrS(SInt, SInt))}

type ufDecl struct {
	args []Sort
	res  Sort
}

var specUFs = map[string]ufDecl{}

var keywords = []string{"func", "prop", "requires", "ensures", "modifies", "inv", "trusted", "opaque", "rec", "macro", "ufn", "ind", "axiom", "lemma", "safety", "note", "assume", "ghost", "def"}

func (P *Program) loadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := P.parseContracts(filepath.Base(f), string(b)); err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
	}
	return nil
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	cur := 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' && (i == 0 || s[i-1] != '\\'):
			inq = !inq
		case inq:
		case c == '(' || c == '[' || c == '{':
			d++
		case c == ')' || c == ']' || c == '}':
			d--
		case c == sep && d == 0:
			out = append(out, strings.TrimSpace(s[cur:i]))
			cur = i + 1
		}
	}
	if t := strings.TrimSpace(s[cur:]); t != "" {
		out = append(out, t)
	}
	return out
}

type item struct {
	kw, body string
	line     int
}

func names(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func (P *Program) parseContracts(file, text string) error {
	var items []item
	for ln, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		kw := ""
		for _, k := range keywords {
			if t == k || strings.HasPrefix(t, k+" ") {
				kw = k
			}
		}
		if kw == "" {
			if len(items) == 0 {
				return fmt.Errorf("line %d: stray %q", ln+1, t)
			}
			items[len(items)-1].body += " " + t
			continue
		}
		items = append(items, item{kw, strings.TrimSpace(strings.TrimPrefix(t, kw)), ln + 1})
	}
	var cur *Contract
	reHead := regexp.MustCompile(`^(\S+)\s+\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)
	reTag := regexp.MustCompile(`^([A-Za-z0-9_.-]+)?\s*(?:\[([A-Z0-9, ]+)\])?\s*:\s*(.*)$`)
	clause := func(it item, named bool) (*Clause, error) {
		c := &Clause{Text: it.body, Line: fmt.Sprintf("%s:%d", file, it.line)}
		body := it.body
		if named {
			if m := reTag.FindStringSubmatch(body); m != nil && m[1] != "" {
				c.Name = m[1]
				c.Props = names(m[2])
				body = m[3]
			}
		}
		c.Text = body
		e, err := parseSpec(body)
		if err != nil {
			return nil, fmt.Errorf("line %d: %v in %q", it.line, err, body)
		}
		c.E = e
		if c.Name == "" {
			c.Name = fmt.Sprintf("%s@%d", it.kw, it.line)
		}
		return c, nil
	}
	for _, it := range items {
		switch it.kw {
		case "func":
			m := reHead.FindStringSubmatch(it.body)
			if m == nil {
				return fmt.Errorf("line %d: bad func header %q", it.line, it.body)
			}
			cur = &Contract{Func: m[1], Params: names(m[2]), Results: names(m[3]), file: file}
			if P.contracts[cur.Func] != nil {
				return fmt.Errorf("line %d: duplicate contract %s", it.line, cur.Func)
			}
			P.contracts[cur.Func] = cur
		case "prop":
			cur.Props = append(cur.Props, names(it.body)...)
		case "note":
			cur.Note += it.body
		case "ghost":
			for _, p := range names(it.body) {
				f := strings.Fields(p)
				if len(f) != 2 || sortNames[f[1]] == "" {
					return fmt.Errorf("line %d: bad ghost %q", it.line, p)
				}
				cur.Ghosts = append(cur.Ghosts, f[0])
				cur.GSorts = append(cur.GSorts, sortNames[f[1]])
			}
		case "def":
			c, err := clause(it, false)
			if err != nil {
				return err
			}
			cur.Defs = append(cur.Defs, c)
		case "trusted":
			cur.Trusted = true
			cur.Note += it.body
		case "safety":
			cur.Safety = true
		case "opaque":
			cur.Opaque = append(cur.Opaque, names(it.body)...)
		case "requires", "ensures", "lemma", "assume":
			c, err := clause(it, true)
			if err != nil {
				return err
			}
			switch it.kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "assume":
				cur.Assumes = append(cur.Assumes, c)
			default:
				cur.Lemmas = append(cur.Lemmas, c)
			}
		case "modifies":
			for _, p := range splitTop(it.body, ',') {
				c, err := clause(item{it.kw, p, it.line}, false)
				if err != nil {
					return err
				}
				cur.Modifies = append(cur.Modifies, c)
			}
		case "inv":
			body := it.body
			var vs []mvar
			var guards []*Clause
			if i := strings.Index(body, "::"); i >= 0 {
				head := body[:i]
				if w := strings.Index(head, " when "); w >= 0 {
					for _, g := range splitTop(head[w+6:], ';') {
						c, err := clause(item{it.kw, strings.TrimSpace(g), it.line}, false)
						if err != nil {
							return err
						}
						guards = append(guards, c)
					}
					head = head[:w]
				}
				for _, p := range names(head) {
					q := strings.SplitN(strings.TrimPrefix(p, "$"), ":", 2)
					vs = append(vs, mvar{"MV_" + q[0], strings.TrimSpace(q[1])})
				}
				body = body[i+2:]
			}
			c, err := clause(item{it.kw, strings.TrimSpace(body), it.line}, false)
			if err != nil {
				return err
			}
			c.Vars = vs
			c.Guards = guards
			cur.Invs = append(cur.Invs, c)
		case "ind":
			if err := P.parseInd(file, it); err != nil {
				return err
			}
		case "rec", "axiom", "ufn", "macro":
			// name(params) sort = body
			i := strings.Index(it.body, "(")
			j := matchParen(it.body, i)
			if i < 0 || j < 0 {
				return fmt.Errorf("line %d: bad %s", it.line, it.kw)
			}
			name := strings.TrimSpace(it.body[:i])
			ps := names(it.body[i+1 : j])
			rest := strings.TrimSpace(it.body[j+1:])
			if it.kw == "ufn" {
				var d ufDecl
				for _, p := range ps {
					d.args = append(d.args, sortNames[p])
				}
				d.res = sortNames[rest]
				if d.res == "" {
					return fmt.Errorf("line %d: sort %q", it.line, rest)
				}
				specUFs[name] = d
				continue
			}
			k := strings.Index(rest, "=")
			if k < 0 {
				return fmt.Errorf("line %d: missing =", it.line)
			}
			e, err := parseSpec(strings.TrimSpace(rest[k+1:]))
			if err != nil {
				return fmt.Errorf("line %d: %v", it.line, err)
			}
			if it.kw == "macro" {
				P.macros[name] = &macroDef{ps, e}
				continue
			}
			r := &recDef{name: name, body: e, res: sortNames[strings.TrimSpace(rest[:k])], text: it.body}
			for _, p := range ps {
				f := strings.Fields(p)
				if len(f) != 2 || sortNames[f[1]] == "" {
					return fmt.Errorf("line %d: bad rec param %q", it.line, p)
				}
				r.params = append(r.params, f[0])
				r.sorts = append(r.sorts, sortNames[f[1]])
			}
			if r.res == "" {
				return fmt.Errorf("line %d: bad rec sort", it.line)
			}
			P.recs[name] = r
		}
	}
	return nil
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j >= 0 && j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	return -1
}

// ---------- evaluation ----------

type specEnv struct {
	x     *Exec
	st    *State
	old   *State
	ent   *specEnv // loop entry (templates)
	vars  map[string]sval
	pkg   *types.Package
	quant int
}

func (e *specEnv) with(name string, v sval) *specEnv {
	n := *e
	n.vars = make(map[string]sval, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type specErr string

func sfail(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (e *specEnv) term(x ast.Expr) *Term {
	v := e.eval(x)
	return asTerm(v)
}

func asTerm(v sval) *Term {
	switch t := v.v.(type) {
	case *Term:
		return t
	case FuncV:
		return funcRef(t)
	}
	sfail("scalar expected, got %T", v.v)
	return nil
}

func (e *specEnv) boolean(x ast.Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		sfail("boolean expected: %v", t)
	}
	return t
}

var tInt = types.Typ[types.Int]
var tStr = types.Typ[types.String]
var tReal = types.Typ[types.Float64]
var tBool = types.Typ[types.Bool]

func typeOfSort(s Sort) types.Type {
	switch s {
	case SInt:
		return tInt
	case SStr:
		return tStr
	case SReal:
		return tReal
	case SBool:
		return tBool
	}
	return nil
}

func (e *specEnv) addr(x ast.Expr) (*Term, types.Type) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.addr(n.X)
	case *ast.StarExpr:
		v := e.eval(n.X)
		return asTerm(v), deref(v.t)
	case *ast.SelectorExpr:
		// base pointer or addressable
		base, bt, ok := e.tryBase(n.X)
		if !ok {
			sfail("not addressable: %s", n.Sel.Name)
		}
		return e.fieldAddr(base, bt, n.Sel.Name)
	case *ast.IndexExpr:
		v := e.eval(n.X)
		i := e.term(n.Index)
		if s, ok := v.v.(SliceV); ok {
			return mkElem2(s.arr, mkAdd(s.off, i)), v.t.Underlying().(*types.Slice).Elem()
		}
		sfail("addr of index")
	}
	sfail("not addressable %T", x)
	return nil, nil
}

func (e *specEnv) tryBase(x ast.Expr) (*Term, types.Type, bool) {
	v := e.eval(x)
	if v.t != nil {
		if p, ok := v.t.Underlying().(*types.Pointer); ok {
			return asTerm(v), p.Elem(), true
		}
	}
	// addressable struct
	defer func() { recover() }()
	a, t := e.addr(x)
	return a, t, true
}

func (e *specEnv) fieldAddr(base *Term, t types.Type, name string) (*Term, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		sfail("field %s of non-struct %s", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFld(base, fieldID(t, i)), st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				var a *Term
				var ft types.Type
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(specErr); !ok {
								panic(r)
							}
						}
					}()
					a, ft = e.fieldAddr(mkFld(base, fieldID(t, i)), f.Type(), name)
				}()
				if a != nil {
					return a, ft
				}
			}
		}
	}
	sfail("no field %s in %s", name, t)
	return nil, nil
}

// loadAt loads without polluting the path condition for bound terms.
func (e *specEnv) load(a *Term, t types.Type) Value {
	return e.st.load(a, t)
}

func (e *specEnv) eval(x ast.Expr) sval {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				sfail("int %s", n.Value)
			}
			return sval{mkRatS(new(big.Rat).SetInt(b), SInt), tInt}
		case token.FLOAT:
			f, err := strconv.ParseFloat(n.Value, 64)
			if err != nil {
				sfail("float %s", n.Value)
			}
			return sval{mkReal(new(big.Rat).SetFloat64(f)), tReal}
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				sfail("string %s", n.Value)
			}
			return sval{mkLit(s), tStr}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(n.Value[1:], '\'')
			return sval{mkInt(int64(s)), tInt}
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return sval{tTrue, tBool}
		case "false":
			return sval{tFalse, tBool}
		case "nil":
			return sval{tNil, types.Typ[types.UntypedNil]}
		}
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(n.Name); o != nil {
				if c, ok := o.(*types.Const); ok {
					return sval{constToValue(c.Val(), c.Type()), c.Type()}
				}
			}
		}
		if len(n.Name) > 4 && n.Name[:4] == "TAG_" {
			return sval{mkInt(int64(internName("type:" + n.Name[4:]))), tInt}
		}
		sfail("unknown identifier %s", n.Name)
	case *ast.StarExpr:
		v := e.eval(n.X)
		return sval{e.load(asTerm(v), deref(v.t)), deref(v.t)}
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return sval{mkNot(e.boolean(n.X)), tBool}
		case token.SUB:
			v := e.eval(n.X)
			return sval{mkNeg(asTerm(v)), v.t}
		case token.AND:
			a, t := e.addr(n.X)
			return sval{a, types.NewPointer(t)}
		}
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		if sv, ok := v.v.(StructV); ok && v.t != nil {
			st := v.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n.Sel.Name {
					return sval{sv.f[i], st.Field(i).Type()}
				}
			}
			sfail("no field %s", n.Sel.Name)
		}
		if v.t == nil {
			sfail("field %s of spec value", n.Sel.Name)
		}
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			sfail("field %s of %s", n.Sel.Name, v.t)
		}
		a, t := e.fieldAddr(asTerm(v), p.Elem(), n.Sel.Name)
		return sval{e.load(a, t), t}
	case *ast.IndexExpr:
		v := e.eval(n.X)
		switch b := v.v.(type) {
		case SliceV:
			i := e.term(n.Index)
			et := v.t.Underlying().(*types.Slice).Elem()
			return sval{e.load(mkElem2(b.arr, mkAdd(b.off, i)), et), et}
		case ArrayV:
			et := v.t.Underlying().(*types.Array).Elem()
			return sval{arrIndex(b, et, e.term(n.Index)), et}
		case *Term:
			if b.sort == SStr {
				return sval{mkSat(b, e.term(n.Index)), types.Typ[types.Uint8]}
			}
			if b.sort.isArr() {
				r := mkSelect(b, e.term(n.Index))
				return sval{r, typeOfSort(r.sort)}
			}
			if v.t != nil {
				if mt, ok := v.t.Underlying().(*types.Map); ok {
					r, _ := e.x.mapGet(e.st, mt, b, e.term(n.Index))
					return sval{r, mt.Elem()}
				}
			}
		}
		sfail("bad index")
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo := mkInt(0)
		if n.Low != nil {
			lo = e.term(n.Low)
		}
		switch b := v.v.(type) {
		case *Term:
			hi := mkSlen(b)
			if n.High != nil {
				hi = e.term(n.High)
			}
			return sval{mkSsub(b, lo, hi), tStr}
		case SliceV:
			hi := b.len
			if n.High != nil {
				hi = e.term(n.High)
			}
			return sval{SliceV{b.arr, mkAdd(b.off, lo), mkSub(hi, lo), mkSub(b.cap, lo)}, v.t}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.CallExpr:
		return e.call(n)
	}
	sfail("unsupported spec expression %T", x)
	return sval{}
}

func (e *specEnv) unify(a, b sval) (*Term, *Term) {
	x, y := asTerm(a), asTerm(b)
	if x.sort == SReal && y.sort == SInt {
		y = mkToReal(y)
	}
	if y.sort == SReal && x.sort == SInt {
		x = mkToReal(x)
	}
	return x, y
}

func (e *specEnv) eq(a, b sval) *Term {
	isNil := func(v sval) bool { t, ok := v.v.(*Term); return ok && t == tNil }
	if isNil(a) && !isNil(b) {
		a, b = b, a
	}
	if isNil(b) {
		switch v := a.v.(type) {
		case SliceV:
			return mkEq(v.arr, tNil)
		case IfaceV:
			return mkEq(v.tag, mkInt(0))
		}
	}
	switch av := a.v.(type) {
	case SliceV:
		bv := b.v.(SliceV)
		return mkAnd(mkEq(av.arr, bv.arr), mkEq(av.off, bv.off), mkEq(av.len, bv.len), mkEq(av.cap, bv.cap))
	case IfaceV:
		bv, ok := b.v.(IfaceV)
		if !ok {
			sfail("iface comparison")
		}
		return mkAnd(mkEq(av.tag, bv.tag), mkEq(av.val, bv.val))
	case StructV:
		bv := b.v.(StructV)
		fa, fb := flatten(a.t, av), flatten(a.t, bv)
		var cs []*Term
		for i := range fa {
			cs = append(cs, mkEq(fa[i], fb[i]))
		}
		return mkAnd(cs...)
	}
	x, y := e.unify(a, b)
	return mkEq(x, y)
}

func (e *specEnv) binary(n *ast.BinaryExpr) sval {
	switch n.Op {
	case token.LAND:
		return sval{mkAnd(e.boolean(n.X), e.boolean(n.Y)), tBool}
	case token.LOR:
		return sval{mkOr(e.boolean(n.X), e.boolean(n.Y)), tBool}
	case token.EQL:
		return sval{e.eq(e.eval(n.X), e.eval(n.Y)), tBool}
	case token.NEQ:
		return sval{mkNot(e.eq(e.eval(n.X), e.eval(n.Y))), tBool}
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	x, y := e.unify(a, b)
	t := a.t
	if x.sort == SReal {
		t = tReal
	}
	switch n.Op {
	case token.ADD:
		if x.sort == SStr {
			return sval{mkCat(x, y), tStr}
		}
		return sval{mkAdd(x, y), t}
	case token.SUB:
		return sval{mkSub(x, y), t}
	case token.MUL:
		return sval{mkMul(x, y), t}
	case token.QUO:
		if x.sort == SReal {
			return sval{mkRDiv(x, y), tReal}
		}
		return sval{mkDivI(x, y), t}
	case token.REM:
		return sval{mkModI(x, y), t}
	case token.LSS:
		return sval{mkLt(x, y), tBool}
	case token.LEQ:
		return sval{mkLe(x, y), tBool}
	case token.GTR:
		return sval{mkLt(y, x), tBool}
	case token.GEQ:
		return sval{mkLe(y, x), tBool}
	case token.AND:
		return sval{mkBitAnd(x, y), t}
	case token.OR:
		return sval{mkBitOr(x, y), t}
	}
	sfail("operator %s", n.Op)
	return sval{}
}

func identName(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		return id.Name
	}
	sfail("identifier expected")
	return ""
}

func (e *specEnv) call(n *ast.CallExpr) sval {
	fn := identName(n.Fun)
	arg := func(i int) sval { return e.eval(n.Args[i]) }
	at := func(i int) *Term { return e.term(n.Args[i]) }
	need := func(k int) {
		if len(n.Args) != k {
			sfail("%s: %d arguments expected", fn, k)
		}
	}
	B := func(t *Term) sval { return sval{t, tBool} }
	switch fn {
	case "old":
		o := *e
		o.st = e.old
		if o.st == nil {
			sfail("old() outside of a postcondition")
		}
		return o.eval(n.Args[0])
	case "entry":
		if e.ent == nil {
			sfail("entry() outside of a loop invariant")
		}
		o := *e.ent
		o.vars = map[string]sval{}
		for k, v := range e.vars {
			o.vars[k] = v
		}
		for k, v := range e.ent.vars {
			o.vars[k] = v
		}
		return o.eval(n.Args[0])
	case "imp":
		need(2)
		a := e.boolean(n.Args[0])
		if a == tFalse {
			return B(tTrue)
		}
		return B(mkImp(a, e.boolean(n.Args[1])))
	case "iff":
		return B(mkEq(e.boolean(n.Args[0]), e.boolean(n.Args[1])))
	case "ite":
		need(3)
		c := e.boolean(n.Args[0])
		a, b := arg(1), arg(2)
		if _, ok := a.v.(*Term); ok {
			x, y := e.unify(a, b)
			return sval{mkIte(c, x, y), a.t}
		}
		fa, fb := flatten(a.t, a.v), flatten(b.t, b.v)
		var ts []*Term
		for i := range fa {
			ts = append(ts, mkIte(c, fa[i], fb[i]))
		}
		v, _ := unflatten(a.t, ts)
		return sval{v, a.t}
	case "forall", "exists":
		// forall(i, lo, hi, P)
		need(4)
		name := identName(n.Args[0])
		lo, hi := at(1), at(2)
		bv := mkBVar(name, SInt)
		p := e.with(name, sval{bv, tInt}).boolean(n.Args[3])
		rng := mkAnd(mkLe(lo, bv), mkLt(bv, hi))
		if fn == "forall" {
			return B(mkForall([]*Term{bv}, mkImp(rng, p)))
		}
		return B(mkExists([]*Term{bv}, mkAnd(rng, p)))
	case "all", "some":
		// all(i, sort, P)
		need(3)
		name := identName(n.Args[0])
		s := sortNames[identName(n.Args[1])]
		bv := mkBVar(name, s)
		p := e.with(name, sval{bv, typeOfSort(s)}).boolean(n.Args[2])
		if fn == "all" {
			return B(mkForall([]*Term{bv}, p))
		}
		return B(mkExists([]*Term{bv}, p))
	case "len":
		need(1)
		v := arg(0)
		switch b := v.v.(type) {
		case SliceV:
			return sval{b.len, tInt}
		case ArrayV:
			return sval{mkInt(b.n), tInt}
		case *Term:
			if b.sort == SStr {
				return sval{mkSlen(b), tInt}
			}
			if v.t != nil {
				if mt, ok := v.t.Underlying().(*types.Map); ok {
					_, _, _, ln := mapComps(mt)
					return sval{mkIte(mkEq(b, tNil), mkInt(0), e.st.readComp(ln, SInt, b)), tInt}
				}
			}
		}
		sfail("len")
	case "cap":
		return sval{arg(0).v.(SliceV).cap, tInt}
	case "off":
		return sval{arg(0).v.(SliceV).off, tInt}
	case "arr":
		return sval{arg(0).v.(SliceV).arr, nil}
	case "str":
		need(1)
		v := arg(0)
		switch b := v.v.(type) {
		case SliceV:
			return sval{e.st.strOfSlice(b), tStr}
		case *Term:
			if b.sort == SStr {
				return sval{b, tStr}
			}
			if v.t != nil {
				if p, ok := v.t.Underlying().(*types.Pointer); ok && isBufferT(p.Elem()) {
					return sval{e.st.load(b, p.Elem()), tStr}
				}
			}
		case ArrayV:
			return sval{mkStrOf(b.leaves[0], mkInt(0), mkInt(b.n)), tStr}
		}
		sfail("str() of %T %v", v.v, v.t)
	case "src", "pos": // bytes.Reader views
		v := arg(0)
		if p, ok := v.t.Underlying().(*types.Pointer); ok && isReaderT(p.Elem()) {
			rv := e.st.load(asTerm(v), p.Elem()).(StructV)
			if fn == "src" {
				return sval{rv.f[0], tStr}
			}
			return sval{rv.f[1], tInt}
		}
		sfail("%s()", fn)
	case "cat":
		var ts []*Term
		for i := range n.Args {
			ts = append(ts, at(i))
		}
		return sval{mkCat(ts...), tStr}
	case "itoa":
		return sval{mkItoa(at(0)), tStr}
	case "sub":
		need(3)
		return sval{mkSsub(at(0), at(1), at(2)), tStr}
	case "at":
		return sval{mkSat(at(0), at(1)), tInt}
	case "strof": // n bytes of an array from o on
		need(3)
		return sval{mkStrOf(at(0), at(1), at(2)), tStr}
	case "chr":
		return sval{mkChr(at(0)), tStr}
	case "store":
		need(3)
		return sval{mkStore(at(0), at(1), at(2)), nil}
	case "emptyset":
		return sval{mkConstArr(ArrS(SInt, SBool), tFalse), nil}
	case "zeromap":
		return sval{mkConstArr(ArrS(SInt, SInt), mkInt(0)), nil}
	case "valid_utf8":
		return sval{mkApp("valid_utf8", SBool, at(0)), types.Typ[types.Bool]}
	case "nrunes":
		return sval{mkNRunes(at(0)), tInt}
	case "rune_at":
		return sval{mkRuneAt(at(0), at(1)), tInt}
	case "rune_off":
		return sval{mkRuneOff(at(0), at(1)), tInt}
	case "rune_str":
		return sval{mkRuneStr(at(0)), tStr}
	case "toreal":
		return sval{mkToReal(at(0)), tReal}
	case "ftoi":
		return sval{mkFtoi(at(0)), tInt}
	case "u8":
		return sval{wrapInt(types.Typ[types.Uint8], at(0)), tInt}
	case "u16":
		return sval{wrapInt(types.Typ[types.Uint16], at(0)), tInt}
	case "u32":
		return sval{wrapInt(types.Typ[types.Uint32], at(0)), tInt}
	case "i16":
		return sval{wrapInt(types.Typ[types.Int16], at(0)), tInt}
	case "i32":
		return sval{wrapInt(types.Typ[types.Int32], at(0)), tInt}
	case "fmt":
		// fmt("%0.2f", x)
		return sval{fmtPiece(asTerm(arg(0)).str, arg(1), e.st), tStr}
	case "has":
		need(2)
		v := arg(0)
		return B(e.x.mapHas(e.st, v.t.Underlying().(*types.Map), asTerm(v), at(1)))
	case "keys": // domain set of a map
		v := arg(0)
		mt := v.t.Underlying().(*types.Map)
		dom, kS, _, _ := mapComps(mt)
		return sval{e.st.readComp(dom, ArrS(kS, SBool), asTerm(v)), nil}
	case "vals": // value array of a map (single leaf)
		v := arg(0)
		mt := v.t.Underlying().(*types.Map)
		_, kS, vals, _ := mapComps(mt)
		return sval{e.st.readComp(vals[0].comp, ArrS(kS, vals[0].sort), asTerm(v)), nil}
	case "elems": // backing array contents of a slice (first leaf)
		v := arg(0)
		sv := v.v.(SliceV)
		return sval{e.st.sliceLeaves(v.t.Underlying().(*types.Slice).Elem(), sv)[0], nil}
	case "fresh":
		v := arg(0)
		var r *Term
		switch b := v.v.(type) {
		case SliceV:
			r = b.arr
		case *Term:
			r = b
		}
		al := e.old.al
		if freshSince(r, al) {
			return B(tTrue)
		}
		return B(mkGe(mkRid(r), al))
	case "same":
		a := arg(0)
		o := *e
		o.st = e.old
		return B(e.eq(a, o.eval(n.Args[0])))
	case "samestr":
		o := *e
		o.st = e.old
		return B(mkEq(asTerm(e.call(&ast.CallExpr{Fun: ast.NewIdent("str"), Args: n.Args})), asTerm(o.call(&ast.CallExpr{Fun: ast.NewIdent("str"), Args: n.Args}))))
	case "typeis":
		iv := arg(0).v.(IfaceV)
		return B(mkEq(iv.tag, mkInt(int64(internName("type:"+asTerm(arg(1)).str)))))
	case "asptr": // asptr(iface, "pkg.Type")
		iv := arg(0).v.(IfaceV)
		t := e.x.prog.findType(asTerm(arg(1)).str)
		return sval{iv.val, types.NewPointer(t)}
	case "glob":
		g := e.x.prog.findGlobal(asTerm(arg(0)).str)
		if g == nil {
			sfail("no global %s", asTerm(arg(0)).str)
		}
		if v, ok := e.x.globalConst(g, e.st); ok {
			return sval{v, deref(g.Type())}
		}
		return sval{e.st.load(e.x.globalAddr(g), deref(g.Type())), deref(g.Type())}
	case "callint", "callreal": // callint(f, args...): what the function value f returns
		var ts []*Term
		for i := range n.Args {
			v := arg(i)
			if i == 0 {
				ts = append(ts, asTerm(v))
				continue
			}
			for _, t := range flatten(v.t, v.v) {
				if !t.sort.isArr() {
					ts = append(ts, t)
				}
			}
		}
		s := SInt
		if fn == "callreal" {
			s = SReal
		}
		return sval{cbApp(0, s, ts), typeOfSort(s)}
	case "tag":
		return sval{arg(0).v.(IfaceV).tag, tInt}
	case "ival":
		return sval{arg(0).v.(IfaceV).val, nil}
	case "let":
		// let(x, e, body)
		return e.with(identName(n.Args[0]), arg(1)).eval(n.Args[2])
	}
	if m, ok := e.x.prog.macros[fn]; ok {
		need(len(m.params))
		e2 := e
		for i, p := range m.params {
			e2 = e2.with(p, arg(i))
		}
		return e2.eval(m.body)
	}
	if r, ok := e.x.prog.recs[fn]; ok {
		need(len(r.params))
		var ts []*Term
		for i := range r.params {
			t := at(i)
			if t.sort == SInt && r.sorts[i] == SReal {
				t = mkToReal(t)
			}
			if t.sort != r.sorts[i] {
				sfail("%s arg %d has sort %s", fn, i, t.sort)
			}
			ts = append(ts, t)
		}
		return sval{mkApp("rec_"+fn, r.res, ts...), typeOfSort(r.res)}
	}
	if u, ok := specUFs[fn]; ok {
		need(len(u.args))
		var ts []*Term
		for i := range u.args {
			t := at(i)
			if t.sort == SInt && u.args[i] == SReal {
				t = mkToReal(t)
			}
			if t.sort != u.args[i] {
				sfail("%s arg %d has sort %s", fn, i, t.sort)
			}
			ts = append(ts, t)
		}
		return sval{mkUF(fn, u.res, ts...), typeOfSort(u.res)}
	}
	sfail("unknown function %s", fn)
	return sval{}
}

func mkUF(name string, res Sort, ts ...*Term) *Term { return mkApp(name, res, ts...) }

func (P *Program) findType(n string) types.Type {
	i := strings.LastIndexByte(n, '.')
	for _, p := range P.pkgs {
		if p.Pkg.Name() == n[:i] {
			if o := p.Pkg.Scope().Lookup(n[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	sfail("no type %s", n)
	return nil
}

func (P *Program) findGlobal(n string) *ssa.Global {
	i := strings.LastIndexByte(n, '.')
	for _, p := range P.pkgs {
		if p.Pkg.Name() == n[:i] {
			if g, ok := p.Members[n[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func clauseMentions(c *Clause, name string) bool {
	found := false
	ast.Inspect(c.E, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return true
	})
	return found
}
