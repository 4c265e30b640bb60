package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// Trusted models of the standard library functions the code under contract calls.

type modelFn func(sc *site, st *State, a []Value) []Value

var bufType, strBuilderType types.Type

func nilErr() Value { return IfaceV{mkInt(0), tNil} }

func newErr(st *State) Value {
	return IfaceV{errTag(), st.alloc()}
}

func errIf(st *State, c *Term) Value { // error exactly when c
	if c == tFalse {
		return nilErr()
	}
	r := st.alloc()
	return IfaceV{mkIte(c, errTag(), mkInt(0)), mkIte(c, r, tNil)}
}

var eofErr = func() Value { return IfaceV{errTag(), negObj("err:io.EOF")} }

func (sc *site) bufType(i int) types.Type { return deref(sc.argType(i)) }

func (sc *site) argType(i int) types.Type {
	c := sc.call
	if c.IsInvoke() {
		if i == 0 {
			return c.Value.Type()
		}
		return c.Args[i-1].Type()
	}
	return c.Args[i].Type()
}

func init() {
	// deferred types for bytes.Buffer handled through component keys
}

// buffer cell access independent of static type availability
func (x *Exec) bufT() types.Type {
	return x.prog.namedType("bytes", "Buffer")
}

func (P *Program) namedType(pkg, name string) types.Type {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic(unsupported("type " + pkg + "." + name))
}

func (sc *site) getBuf(st *State, p *Term) *Term {
	return st.load(p, sc.x.bufT()).(*Term)
}
func (sc *site) setBuf(st *State, p *Term, v *Term) { st.store(p, sc.x.bufT(), v) }

func (sc *site) nonNil(st *State, p *Term) {
	sc.x.nilCheck(st, p, sc.in)
}

func bytesOf(st *State, v Value) *Term {
	switch b := v.(type) {
	case SliceV:
		return st.strOfSlice(b)
	case *Term:
		return b
	}
	panic(unsupported("bytesOf"))
}

func lenOf(v Value) *Term {
	switch b := v.(type) {
	case SliceV:
		return b.len
	case *Term:
		return mkSlen(b)
	}
	panic(unsupported("lenOf"))
}

func uf(name string, s Sort, args ...*Term) *Term {
	if name == "trimspace" || name == "toupper" || name == "tolower" {
		if args[0].op == "lit" {
			switch name {
			case "trimspace":
				return mkLit(strings.TrimSpace(args[0].str))
			case "toupper":
				return mkLit(strings.ToUpper(args[0].str))
			case "tolower":
				return mkLit(strings.ToLower(args[0].str))
			}
		}
	}
	return mkApp(name, s, args...)
}

func idxTerm(st *State, name string, s, sep *Term) *Term {
	if s.op == "lit" && sep.op == "lit" {
		if name == "sindex" {
			return mkInt(int64(strings.Index(s.str, sep.str)))
		}
		return mkInt(int64(strings.LastIndex(s.str, sep.str)))
	}
	t := mkApp(name, SInt, s, sep)
	st.assume(mkGe(t, mkInt(-1)))
	st.assume(mkOr(mkLt(t, mkInt(0)), mkLe(mkAdd(t, mkSlen(sep)), mkSlen(s))))
	st.assume(mkOr(mkLt(t, mkInt(0)), mkEq(mkSsub(s, t, mkAdd(t, mkSlen(sep))), sep)))
	return t
}

func subSlice(b SliceV, lo, hi *Term) SliceV {
	return SliceV{b.arr, mkAdd(b.off, lo), mkSub(hi, lo), mkSub(b.cap, lo)}
}

// freshStrings returns a new []string with uninterpreted contents.
func freshStrings(st *State, arr, n *Term) SliceV {
	r := st.alloc()
	st.writeComp("E:string", ArrS(SInt, SStr), r, arr)
	st.assume(mkGe0(n))
	return SliceV{r, mkInt(0), n, n}
}

var fmtVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]*)?[a-zA-Z%]`)

func fmtPiece(verb string, v sval, st *State) *Term {
	t, ok := v.v.(*Term)
	last := verb[len(verb)-1]
	if !ok {
		if sv, isS := v.v.(SliceV); isS && v.t != nil && isByteSlice(v.t) {
			t = st.strOfSlice(sv)
		} else if iv, isI := v.v.(IfaceV); isI {
			return mkApp("fmt_iface_"+verb, SStr, iv.tag, iv.val)
		} else {
			panic(unsupported("fmt of composite"))
		}
	}
	switch t.sort {
	case SStr:
		if verb == "%s" || verb == "%v" {
			return t
		}
	case SInt:
		if verb == "%d" || verb == "%v" {
			return mkItoa(t)
		}
		if verb == "%c" {
			return mkRuneStr(t)
		}
		if t.op == "int" && (last == 'd' || last == 'x' || last == 'X') {
			return mkLit(fmt.Sprintf(verb, t.r.Num()))
		}
	case SReal:
		if t.op == "real" {
			f, _ := t.r.Float64()
			return mkLit(fmt.Sprintf(verb, f))
		}
	}
	return mkApp("fmt_"+string(t.sort)+"_"+verb, SStr, t)
}

// variadic interface arguments of a fmt call
func (sc *site) varargs(st *State, v Value) []sval {
	sv := v.(SliceV)
	if sv.arr == tNil {
		return nil
	}
	n, ok := constInt(sv.len)
	if !ok {
		panic(unsupported("non-constant variadic call"))
	}
	et := types.NewInterfaceType(nil, nil)
	_ = et
	var out []sval
	comps := elemComps(sc.ifaceT())
	tags := st.readComp(comps[0].comp, ArrS(SInt, comps[0].sort), sv.arr)
	vals := st.readComp(comps[1].comp, ArrS(SInt, comps[1].sort), sv.arr)
	for i := int64(0); i < n; i++ {
		tag := mkSelect(tags, mkAddI(sv.off, i))
		val := mkSelect(vals, mkAddI(sv.off, i))
		boxMu.Lock()
		b, have := boxes[val]
		bt := boxTypes[val]
		boxMu.Unlock()
		if have {
			out = append(out, sval{b, bt})
		} else {
			out = append(out, sval{IfaceV{tag, val}, nil})
		}
	}
	return out
}

var boxTypes = map[*Term]types.Type{}

func (sc *site) ifaceT() types.Type {
	c := sc.call
	t := c.Args[len(c.Args)-1].Type().Underlying().(*types.Slice).Elem()
	return t
}

func (sc *site) sprintf(st *State, format *Term, va Value) *Term {
	args := sc.varargs(st, va)
	if format.op != "lit" {
		ts := []*Term{format}
		for _, a := range args {
			if t, ok := a.v.(*Term); ok {
				ts = append(ts, t)
			}
		}
		return mkApp(fmt.Sprintf("sprintf_%d_%s", len(ts), sortsKey(ts)), SStr, ts...)
	}
	f := format.str
	var parts []*Term
	ai := 0
	last := 0
	for _, loc := range fmtVerb.FindAllStringIndex(f, -1) {
		parts = append(parts, mkLit(f[last:loc[0]]))
		verb := f[loc[0]:loc[1]]
		last = loc[1]
		if verb == "%%" {
			parts = append(parts, mkLit("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, mkLit("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		parts = append(parts, fmtPiece(verb, args[ai], st))
		ai++
	}
	parts = append(parts, mkLit(f[last:]))
	if ai < len(args) {
		parts = append(parts, mkLit("%!(EXTRA)"))
	}
	return mkCat(parts...)
}

func sortsKey(ts []*Term) string {
	s := ""
	for _, t := range ts {
		s += sortTag(t.sort)
	}
	return s
}

func (sc *site) writerWrite(st *State, w Value, data *Term) bool {
	iv := w.(IfaceV)
	n, ok := constInt(iv.tag)
	if !ok {
		return false
	}
	switch nameOfID(int(n)) {
	case "type:*bytes.Buffer":
		sc.setBuf(st, iv.val, mkCat(sc.getBuf(st, iv.val), data))
		return true
	}
	return false
}

var trivNoop = func(sc *site, st *State, a []Value) []Value { return nil }

func beBytes(st *State, v Value, n int) *Term {
	sv := v.(SliceV)
	a := st.readComp("E:"+byteKey, ArrS(SInt, SInt), sv.arr)
	r := mkInt(0)
	for i := 0; i < n; i++ {
		b := mkSelect(a, mkAddI(sv.off, int64(i)))
		hintType(b, types.Typ[types.Uint8])
		r = mkAdd(mkScale(ratI(256), r), b)
	}
	return r
}

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		"strings.TrimSpace": func(sc *site, st *State, a []Value) []Value {
			s := a[0].(*Term)
			return []Value{uf("trimspace", SStr, s)}
		},
		"strings.ToUpper": func(sc *site, st *State, a []Value) []Value { return []Value{uf("toupper", SStr, a[0].(*Term))} },
		"strings.ToLower": func(sc *site, st *State, a []Value) []Value { return []Value{uf("tolower", SStr, a[0].(*Term))} },
		"strings.Replace": func(sc *site, st *State, a []Value) []Value {
			s, o, n, k := a[0].(*Term), a[1].(*Term), a[2].(*Term), a[3].(*Term)
			if s.op == "lit" && o.op == "lit" && n.op == "lit" && k.op == "int" {
				kk, _ := constInt(k)
				return []Value{mkLit(strings.Replace(s.str, o.str, n.str, int(kk)))}
			}
			if o.op == "lit" && len(o.str) == 1 && isInt(k, -1) && sc.x.prog.recs["rp"] != nil {
				return []Value{mkApp("rec_rp", SStr, s, mkInt(int64(o.str[0])), n, mkSlen(s))}
			}
			return []Value{uf("sreplace", SStr, s, o, n, k)}
		},
		"strings.ReplaceAll": func(sc *site, st *State, a []Value) []Value {
			return models["strings.Replace"](sc, st, append(append([]Value{}, a...), mkInt(-1)))
		},
		"strings.Index": func(sc *site, st *State, a []Value) []Value {
			return []Value{idxTerm(st, "sindex", a[0].(*Term), a[1].(*Term))}
		},
		"strings.LastIndex": func(sc *site, st *State, a []Value) []Value {
			return []Value{idxTerm(st, "slastindex", a[0].(*Term), a[1].(*Term))}
		},
		"strings.Contains": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkGe0(idxTerm(st, "sindex", a[0].(*Term), a[1].(*Term)))}
		},
		"strings.HasPrefix": func(sc *site, st *State, a []Value) []Value {
			s, p := a[0].(*Term), a[1].(*Term)
			if p.op == "lit" && len(p.str) <= 16 {
				return []Value{bytesAt(s, mkInt(0), p.str)}
			}
			return []Value{mkAnd(mkLe(mkSlen(p), mkSlen(s)), mkEq(mkSsub(s, mkInt(0), mkSlen(p)), p))}
		},
		"strings.HasSuffix": func(sc *site, st *State, a []Value) []Value {
			s, p := a[0].(*Term), a[1].(*Term)
			if p.op == "lit" && len(p.str) <= 16 {
				return []Value{bytesAt(s, mkSub(mkSlen(s), mkSlen(p)), p.str)}
			}
			return []Value{mkAnd(mkLe(mkSlen(p), mkSlen(s)), mkEq(mkSsub(s, mkSub(mkSlen(s), mkSlen(p)), mkSlen(s)), p))}
		},
		"strings.TrimPrefix": func(sc *site, st *State, a []Value) []Value {
			s, p := a[0].(*Term), a[1].(*Term)
			c := mkAnd(mkLe(mkSlen(p), mkSlen(s)), mkEq(mkSsub(s, mkInt(0), mkSlen(p)), p))
			return []Value{mkIte(c, mkSsub(s, mkSlen(p), mkSlen(s)), s)}
		},
		"strings.TrimSuffix": func(sc *site, st *State, a []Value) []Value {
			s, p := a[0].(*Term), a[1].(*Term)
			l := mkSub(mkSlen(s), mkSlen(p))
			c := mkAnd(mkGe0(l), mkEq(mkSsub(s, l, mkSlen(s)), p))
			return []Value{mkIte(c, mkSsub(s, mkInt(0), l), s)}
		},
		"strings.Fields": func(sc *site, st *State, a []Value) []Value {
			s := a[0].(*Term)
			return []Value{freshStrings(st, uf("fields_arr", ArrS(SInt, SStr), s), uf("fields_n", SInt, s))}
		},
		"strings.Split": func(sc *site, st *State, a []Value) []Value {
			s, p := a[0].(*Term), a[1].(*Term)
			n := uf("split_n", SInt, s, p)
			st.assume(mkGe(n, mkInt(1)))
			return []Value{freshStrings(st, uf("split_arr", ArrS(SInt, SStr), s, p), n)}
		},
		"strings.Join": func(sc *site, st *State, a []Value) []Value {
			sv := a[0].(SliceV)
			arr := st.readComp("E:string", ArrS(SInt, SStr), sv.arr)
			return []Value{uf("sjoin", SStr, arr, sv.off, sv.len, a[1].(*Term))}
		},
		"strings.Repeat": func(sc *site, st *State, a []Value) []Value {
			return []Value{uf("srepeat", SStr, a[0].(*Term), a[1].(*Term))}
		},
		"strconv.Itoa": func(sc *site, st *State, a []Value) []Value { return []Value{mkItoa(a[0].(*Term))} },
		"strconv.Atoi": func(sc *site, st *State, a []Value) []Value {
			s := a[0].(*Term)
			if s.op == "app" && s.name == "itoa" {
				return []Value{s.args[0], nilErr()}
			}
			ok := mkApp("int_ok", SBool, s)
			return []Value{mkIte(ok, mkApp("atoiv", SInt, s), mkApp("atoi_bad", SInt, s)), errIf(st, mkNot(ok))}
		},
		"strconv.ParseFloat": func(sc *site, st *State, a []Value) []Value {
			s := a[0].(*Term)
			ok := mkApp("is_float", SBool, s)
			return []Value{mkIte(ok, mkApp("atofv", SReal, s), mkApp("atof_bad", SReal, s)), errIf(st, mkNot(ok))}
		},
		"strconv.ParseInt": func(sc *site, st *State, a []Value) []Value {
			s := a[0].(*Term)
			ok := mkApp("is_intb", SBool, s, a[1].(*Term))
			return []Value{mkIte(ok, mkApp("atoib", SInt, s, a[1].(*Term)), mkApp("atoi_bad", SInt, s)), errIf(st, mkNot(ok))}
		},
		"fmt.Sprintf": func(sc *site, st *State, a []Value) []Value {
			return []Value{sc.sprintf(st, a[0].(*Term), a[1])}
		},
		"fmt.Sprint": func(sc *site, st *State, a []Value) []Value {
			args := sc.varargs(st, a[0])
			if len(args) == 1 {
				return []Value{fmtPiece("%v", args[0], st)}
			}
			panic(unsupported("fmt.Sprint with several arguments"))
		},
		"fmt.Errorf": func(sc *site, st *State, a []Value) []Value { return []Value{newErr(st)} },
		"fmt.Fprintf": func(sc *site, st *State, a []Value) []Value {
			d := sc.sprintf(st, a[1].(*Term), a[2])
			if !sc.writerWrite(st, a[0], d) {
				panic(unsupported("Fprintf to unknown writer"))
			}
			return []Value{mkSlen(d), nilErr()}
		},
		"io.WriteString": func(sc *site, st *State, a []Value) []Value {
			if !sc.writerWrite(st, a[0], a[1].(*Term)) {
				panic(unsupported("WriteString to unknown writer"))
			}
			return []Value{mkSlen(a[1].(*Term)), nilErr()}
		},
		"fmt.Printf":  func(sc *site, st *State, a []Value) []Value { return []Value{mkFresh("n", SInt), nilErr()} },
		"fmt.Println": func(sc *site, st *State, a []Value) []Value { return []Value{mkFresh("n", SInt), nilErr()} },
		"fmt.Print":   func(sc *site, st *State, a []Value) []Value { return []Value{mkFresh("n", SInt), nilErr()} },
		"log.Printf":  trivNoop,
		"log.Panicf": func(sc *site, st *State, a []Value) []Value {
			sc.x.oblige(st, "safety", "no-panic", tFalse, sc.pos, nil)
			return nil
		},
		"errors.New": func(sc *site, st *State, a []Value) []Value { return []Value{newErr(st)} },
		"iface:(error).Error": func(sc *site, st *State, a []Value) []Value {
			iv := a[0].(IfaceV)
			return []Value{mkApp("err_text", SStr, iv.val)}
		},
		"*errors.errorString.Error": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkApp("err_text", SStr, a[0].(*Term))}
		},

		// bytes.Buffer: the content leaf is the unread portion
		"(*bytes.Buffer).Write": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			sc.setBuf(st, p, mkCat(sc.getBuf(st, p), bytesOf(st, a[1])))
			return []Value{lenOf(a[1]), nilErr()}
		},
		"(*bytes.Buffer).WriteString": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			sc.setBuf(st, p, mkCat(sc.getBuf(st, p), a[1].(*Term)))
			return []Value{lenOf(a[1]), nilErr()}
		},
		"(*bytes.Buffer).WriteByte": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			sc.setBuf(st, p, mkCat(sc.getBuf(st, p), mkChr(a[1].(*Term))))
			return []Value{nilErr()}
		},
		"(*bytes.Buffer).WriteRune": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			s := mkRuneStr(a[1].(*Term))
			sc.setBuf(st, p, mkCat(sc.getBuf(st, p), s))
			return []Value{mkSlen(s), nilErr()}
		},
		"(*bytes.Buffer).Len": func(sc *site, st *State, a []Value) []Value {
			sc.nonNil(st, a[0].(*Term))
			return []Value{mkSlen(sc.getBuf(st, a[0].(*Term)))}
		},
		"(*bytes.Buffer).String": func(sc *site, st *State, a []Value) []Value {
			sc.nonNil(st, a[0].(*Term))
			return []Value{sc.getBuf(st, a[0].(*Term))}
		},
		"(*bytes.Buffer).Bytes": func(sc *site, st *State, a []Value) []Value {
			sc.nonNil(st, a[0].(*Term))
			sc.x.note("bytes.Buffer.Bytes is modelled as a snapshot of the content (later writes to the buffer do not show through)")
			return []Value{st.newBytes(sc.getBuf(st, a[0].(*Term)))}
		},
		"(*bytes.Buffer).Reset": func(sc *site, st *State, a []Value) []Value {
			sc.nonNil(st, a[0].(*Term))
			sc.setBuf(st, a[0].(*Term), tEmpty)
			return nil
		},
		"(*bytes.Buffer).Truncate": func(sc *site, st *State, a []Value) []Value {
			p, n := a[0].(*Term), a[1].(*Term)
			sc.nonNil(st, p)
			c := sc.getBuf(st, p)
			sc.x.oblige(st, "safety", "truncate-in-range", mkAnd(mkGe0(n), mkLe(n, mkSlen(c))), sc.pos, nil)
			sc.setBuf(st, p, mkSsub(c, mkInt(0), n))
			return nil
		},
		"(*bytes.Buffer).WriteTo": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			c := sc.getBuf(st, p)
			if !sc.writerWrite(st, a[1], c) {
				panic(unsupported("WriteTo unknown writer"))
			}
			sc.setBuf(st, p, tEmpty)
			return []Value{mkSlen(c), nilErr()}
		},
		"bytes.NewBuffer": func(sc *site, st *State, a []Value) []Value {
			r := st.alloc()
			c := tEmpty
			if sv, ok := a[0].(SliceV); ok && sv.arr != tNil {
				c = st.strOfSlice(sv)
			}
			sc.setBuf(st, r, c)
			return []Value{r}
		},
		"bytes.NewBufferString": func(sc *site, st *State, a []Value) []Value {
			r := st.alloc()
			sc.setBuf(st, r, a[0].(*Term))
			return []Value{r}
		},
		"bytes.NewReader": func(sc *site, st *State, a []Value) []Value {
			r := st.alloc()
			st.store(r, sc.x.prog.namedType("bytes", "Reader"), StructV{[]Value{bytesOf(st, a[0]), mkInt(0)}})
			return []Value{r}
		},
		"(*bytes.Reader).Read": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			T := sc.x.prog.namedType("bytes", "Reader")
			rv := st.load(p, T).(StructV)
			src, pos := rv.f[0].(*Term), rv.f[1].(*Term)
			b := a[1].(SliceV)
			rem := mkSub(mkSlen(src), pos)
			rem = mkIte(mkGe0(rem), rem, mkInt(0))
			n := mkIte(mkLe(b.len, rem), b.len, rem)
			if st.known(mkLe(mkAdd(pos, b.len), mkSlen(src))) {
				n = b.len
			}
			eof := mkLe(rem, mkInt(0))
			srt := ArrS(SInt, SInt)
			st.writeComp("E:"+byteKey, srt, b.arr, mkAWrite(st.readComp("E:"+byteKey, srt, b.arr), b.off, mkArrOf(src), pos, n))
			storePos(st, p, T, mkAdd(pos, n))
			ev := eofErr().(IfaceV)
			return []Value{n, IfaceV{mkIte(eof, ev.tag, mkInt(0)), mkIte(eof, ev.val, tNil)}}
		},
		"(*bytes.Reader).Seek": func(sc *site, st *State, a []Value) []Value {
			p, off := a[0].(*Term), a[1].(*Term)
			sc.nonNil(st, p)
			T := sc.x.prog.namedType("bytes", "Reader")
			rv := st.load(p, T).(StructV)
			src, pos := rv.f[0].(*Term), rv.f[1].(*Term)
			wh, ok := constInt(a[2].(*Term))
			if !ok {
				panic(unsupported("Seek whence"))
			}
			np := off
			if wh == 1 {
				np = mkAdd(pos, off)
			} else if wh == 2 {
				np = mkAdd(mkSlen(src), off)
			}
			neg := mkLt(np, mkInt(0))
			storePos(st, p, T, mkIte(neg, pos, np))
			return []Value{mkIte(neg, mkInt(0), np), errIf(st, neg)}
		},
		"(*bytes.Reader).Len": func(sc *site, st *State, a []Value) []Value {
			T := sc.x.prog.namedType("bytes", "Reader")
			rv := st.load(a[0].(*Term), T).(StructV)
			d := mkSub(mkSlen(rv.f[0].(*Term)), rv.f[1].(*Term))
			return []Value{mkIte(mkGe0(d), d, mkInt(0))}
		},
		"bytes.Index": func(sc *site, st *State, a []Value) []Value {
			return []Value{idxTerm(st, "sindex", bytesOf(st, a[0]), bytesOf(st, a[1]))}
		},
		"bytes.LastIndex": func(sc *site, st *State, a []Value) []Value {
			return []Value{idxTerm(st, "slastindex", bytesOf(st, a[0]), bytesOf(st, a[1]))}
		},
		"bytes.Contains": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkGe0(idxTerm(st, "sindex", bytesOf(st, a[0]), bytesOf(st, a[1])))}
		},
		"bytes.Equal": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkEq(bytesOf(st, a[0]), bytesOf(st, a[1]))}
		},
		"bytes.HasPrefix": func(sc *site, st *State, a []Value) []Value {
			return models["strings.HasPrefix"](sc, st, []Value{bytesOf(st, a[0]), bytesOf(st, a[1])})
		},
		"bytes.HasSuffix": func(sc *site, st *State, a []Value) []Value {
			return models["strings.HasSuffix"](sc, st, []Value{bytesOf(st, a[0]), bytesOf(st, a[1])})
		},
		"bytes.TrimSpace": func(sc *site, st *State, a []Value) []Value {
			b := a[0].(SliceV)
			s := st.strOfSlice(b)
			l, r := uf("ts_l", SInt, s), uf("ts_r", SInt, s)
			st.assume(mkAnd(mkGe0(l), mkLe(l, r), mkLe(r, b.len)))
			return []Value{subSlice(b, l, r)}
		},
		"bytes.Trim": func(sc *site, st *State, a []Value) []Value {
			b := a[0].(SliceV)
			s := st.strOfSlice(b)
			l, r := uf("tr_l", SInt, s, a[1].(*Term)), uf("tr_r", SInt, s, a[1].(*Term))
			st.assume(mkAnd(mkGe0(l), mkLe(l, r), mkLe(r, b.len)))
			return []Value{subSlice(b, l, r)}
		},
		"crypto/md5.Sum": func(sc *site, st *State, a []Value) []Value {
			d := uf("md5", SStr, bytesOf(st, a[0]))
			return []Value{ArrayV{[]*Term{mkArrOf(d)}, 16}}
		},
		"crypto/rc4.NewCipher": func(sc *site, st *State, a []Value) []Value {
			k := bytesOf(st, a[0])
			n := lenOf(a[0])
			bad := mkOr(mkLt(n, mkInt(1)), mkGt(n, mkInt(256)))
			r := st.alloc()
			st.store(r, sc.x.prog.namedType("crypto/rc4", "Cipher"), k)
			return []Value{mkIte(bad, tNil, r), errIf(st, bad)}
		},
		"(*crypto/rc4.Cipher).XORKeyStream": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			sc.nonNil(st, p)
			T := sc.x.prog.namedType("crypto/rc4", "Cipher")
			key := st.load(p, T).(*Term)
			dst, src := a[1].(SliceV), a[2].(SliceV)
			sc.x.oblige(st, "safety", "xor-dst-long-enough", mkLe(src.len, dst.len), sc.pos, nil)
			out := uf("rc4", SStr, key, st.strOfSlice(src))
			st.assume(mkEq(mkSlen(out), src.len))
			srt := ArrS(SInt, SInt)
			st.writeComp("E:"+byteKey, srt, dst.arr, mkAWrite(st.readComp("E:"+byteKey, srt, dst.arr), dst.off, mkArrOf(out), mkInt(0), src.len))
			st.store(p, T, uf("rc4next", SStr, key, src.len))
			return nil
		},
		"(encoding/binary.bigEndian).Uint16": func(sc *site, st *State, a []Value) []Value {
			sc.x.oblige(st, "safety", "index-in-range", mkLe(mkInt(2), lenOf(a[1])), sc.pos, nil)
			return []Value{beBytes(st, a[1], 2)}
		},
		"(encoding/binary.bigEndian).Uint32": func(sc *site, st *State, a []Value) []Value {
			sc.x.oblige(st, "safety", "index-in-range", mkLe(mkInt(4), lenOf(a[1])), sc.pos, nil)
			return []Value{beBytes(st, a[1], 4)}
		},
		"(encoding/binary.littleEndian).Uint16":    nil,
		"(encoding/binary.littleEndian).PutUint16": putUint(2, true),
		"(encoding/binary.littleEndian).PutUint32": putUint(4, true),
		"(encoding/binary.bigEndian).PutUint16":    putUint(2, false),
		"(encoding/binary.bigEndian).PutUint32":    putUint(4, false),
		"(*regexp.Regexp).FindAllIndex":            nil,
		"math/big.NewInt": func(sc *site, st *State, a []Value) []Value {
			r := st.alloc()
			st.writeComp("C:math/big.Int", SInt, r, a[0].(*Term))
			return []Value{r}
		},
		"(*math/big.Int).SetBytes": func(sc *site, st *State, a []Value) []Value {
			r := a[0].(*Term)
			sc.nonNil(st, r)
			for n := int64(0); n <= 8; n++ {
				if st.known(mkEq(lenOf(a[1]), mkInt(n))) {
					st.writeComp("C:math/big.Int", SInt, r, beBytes(st, a[1], int(n)))
					return []Value{r}
				}
			}
			panic(unsupported("SetBytes of unknown length"))
		},
		"(*math/big.Int).Uint64": func(sc *site, st *State, a []Value) []Value {
			sc.nonNil(st, a[0].(*Term))
			return []Value{st.readComp("C:math/big.Int", SInt, a[0].(*Term))}
		},
		"sort.Ints": func(sc *site, st *State, a []Value) []Value {
			sv := a[0].(SliceV)
			srt := ArrS(SInt, SInt)
			A := st.readComp("E:int", srt, sv.arr)
			B := mkApp("sorted_ints", srt, A, sv.off, sv.len)
			st.writeComp("E:int", srt, sv.arr, B)
			sortFacts(st, A, B, "sorted_ints", sv.off, sv.len, true)
			return nil
		},
		"sort.Strings": func(sc *site, st *State, a []Value) []Value {
			sv := a[0].(SliceV)
			srt := ArrS(SInt, SStr)
			A := st.readComp("E:string", srt, sv.arr)
			B := mkApp("sorted_strs", srt, A, sv.off, sv.len)
			st.writeComp("E:string", srt, sv.arr, B)
			sortFacts(st, A, B, "sorted_strs", sv.off, sv.len, false)
			return nil
		},
		"(*regexp.Regexp).MatchString": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkApp("re_match", SBool, a[0].(*Term), a[1].(*Term))}
		},
		"(*regexp.Regexp).Match": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkApp("re_match", SBool, a[0].(*Term), bytesOf(st, a[1]))}
		},
		"math.Floor": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkApp("ffloor", SReal, a[0].(*Term))}
		},
		"unicode/utf8.RuneCountInString": func(sc *site, st *State, a []Value) []Value {
			return []Value{mkNRunes(a[0].(*Term))}
		},
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
}

var _ = strconv.Itoa
var _ = big.NewInt

// bytesAt: the bytes of p stand in s from o on (o is 0 or len(s)-len(p))
func bytesAt(s, o *Term, p string) *Term {
	c := []*Term{mkLe(mkInt(int64(len(p))), mkSlen(s))}
	for i := 0; i < len(p); i++ {
		c = append(c, mkEq(mkSat(s, mkAddI(o, int64(i))), mkInt(int64(p[i]))))
	}
	return mkAnd(c...)
}

// putUint writes the n bytes of a number into a slice.
func putUint(n int, le bool) modelFn {
	return func(sc *site, st *State, a []Value) []Value {
		sv, v := a[1].(SliceV), a[2].(*Term)
		sc.x.oblige(st, "safety", "index-in-range", mkLe(mkInt(int64(n)), sv.len), sc.pos, nil)
		srt := ArrS(SInt, SInt)
		A := st.readComp("E:"+byteKey, srt, sv.arr)
		for k := 0; k < n; k++ {
			sh := k
			if !le {
				sh = n - 1 - k
			}
			A = mkStore(A, mkAddI(sv.off, int64(k)), mkModI(mkDivI(v, mkInt(int64(1)<<(8*sh))), mkInt(256)))
		}
		st.writeComp("E:"+byteKey, srt, sv.arr, A)
		return nil
	}
}

// storePos moves a bytes.Reader without touching the data it reads.
func storePos(st *State, p *Term, T types.Type, v *Term) {
	for _, l := range leavesOf(T) {
		if strings.HasSuffix(l.suffix, "pos") {
			comp, outer, idx := route(p, T, l.suffix)
			if idx != nil {
				panic(unsupported("reader in an array"))
			}
			st.writeComp(comp, l.sort, outer, v)
		}
	}
}

// sortFacts: B is A with the elements from off on, n of them, permuted into order.
func sortFacts(st *State, A, B *Term, name string, off, n *Term, ints bool) {
	lo, hi := off, mkAdd(off, n)
	in := func(i *Term) *Term { return mkAnd(mkLe(lo, i), mkLt(i, hi)) }
	i, j := mkBVar("i", SInt), mkBVar("j", SInt)
	P := func(x *Term) *Term { return mkApp(name+"_p", SInt, A, off, n, x) }
	Q := func(x *Term) *Term { return mkApp(name+"_q", SInt, A, off, n, x) }
	bi, bj, ai := mkSelect(B, i), mkSelect(B, j), mkSelect(A, i)
	if ints {
		st.assume(mkForall([]*Term{i, j}, mkImp(mkAnd(mkLe(lo, i), mkLe(i, j), mkLt(j, hi)), mkLe(bi, bj)), []*Term{bi, bj}))
	}
	st.assume(mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(P(i)), mkEq(bi, mkSelect(A, P(i))), mkEq(Q(P(i)), i))), []*Term{bi}))
	st.assume(mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(Q(i)), mkEq(ai, mkSelect(B, Q(i))), mkEq(P(Q(i)), i))), []*Term{ai}))
	st.assume(mkForall([]*Term{i}, mkImp(mkNot(in(i)), mkEq(bi, ai)), []*Term{bi}))
}
