package main

import (
	"strconv"
)

// String terms. scat is n-ary, flat, adjacent literals merged.

func catParts(t *Term) []*Term {
	if t.op == "scat" {
		return t.args
	}
	if t == tEmpty {
		return nil
	}
	return []*Term{t}
}

func mkCat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if t.sort != SStr {
			panic("mkCat of " + t.String())
		}
		for _, p := range catParts(t) {
			if len(parts) > 0 {
				l := parts[len(parts)-1]
				if l.op == "lit" && p.op == "lit" {
					parts[len(parts)-1] = mkLit(l.str + p.str)
					continue
				}
				// ssub(s,i,j) ++ ssub(s,j,k) = ssub(s,i,k)  (valid when i<=j<=k in range; guarded by use)
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return tEmpty
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return intern(&Term{op: "scat", sort: SStr, args: parts})
}

func mkSlen(t *Term) *Term {
	switch t.op {
	case "lit":
		return mkInt(int64(len(t.str)))
	case "scat":
		r := mkInt(0)
		for _, p := range t.args {
			r = mkAdd(r, mkSlen(p))
		}
		return r
	case "ite":
		return mkIte(t.args[0], mkSlen(t.args[1]), mkSlen(t.args[2]))
	case "app":
		switch t.name {
		case "chr":
			return mkInt(1)
		case "str_of":
			return t.args[2] // str_of is only built with 0<=n (slice lengths)
		}
	}
	return mkApp("slen", SInt, t)
}

func mkChr(c *Term) *Term {
	if n, ok := constInt(c); ok && n >= 0 && n < 256 {
		return mkLit(string([]byte{byte(n)}))
	}
	return mkApp("chr", SStr, c)
}

func mkSat(s, i *Term) *Term {
	if s.op == "lit" {
		if n, ok := constInt(i); ok && n >= 0 && n < int64(len(s.str)) {
			return mkInt(int64(s.str[n]))
		}
	}
	if s.op == "app" && s.name == "chr" && isInt(i, 0) {
		return s.args[0]
	}
	if s.op == "app" && s.name == "str_of" {
		// in range by construction of uses
		return mkSelect(s.args[0], mkAdd(s.args[1], i))
	}
	if s.op == "scat" {
		pos := i
		for _, p := range s.args {
			l := mkSlen(p)
			if mkAnd(mkGe0(pos), mkLt(pos, l)) == tTrue {
				return mkSat(p, pos)
			}
			if mkGe(pos, l) != tTrue {
				break
			}
			pos = mkSub(pos, l)
		}
	}
	return mkApp("sat", SInt, s, i)
}

func mkSsub(s, i, j *Term) *Term {
	if i == j {
		return tEmpty
	}
	if isInt(i, 0) && j == mkSlen(s) {
		return s
	}
	if s.op == "lit" {
		a, ok1 := constInt(i)
		b, ok2 := constInt(j)
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s.str)) {
			return mkLit(s.str[a:b])
		}
	}
	if s.op == "app" && s.name == "ssub" {
		return mkSsub(s.args[0], mkAdd(s.args[1], i), mkAdd(s.args[1], j))
	}
	if s.op == "app" && s.name == "str_of" {
		return mkStrOf(s.args[0], mkAdd(s.args[1], i), mkSub(j, i))
	}
	if s.op == "scat" {
		// drop leading parts fully before i and trailing parts fully after j
		parts := s.args
		for len(parts) > 0 {
			l := mkSlen(parts[0])
			if mkGe(i, l) == tTrue {
				i, j = mkSub(i, l), mkSub(j, l)
				parts = parts[1:]
				continue
			}
			break
		}
		for len(parts) > 0 {
			pre := mkInt(0)
			for _, p := range parts[:len(parts)-1] {
				pre = mkAdd(pre, mkSlen(p))
			}
			if mkLe(j, pre) == tTrue {
				parts = parts[:len(parts)-1]
				continue
			}
			break
		}
		if len(parts) == 1 {
			return mkSsub(parts[0], i, j)
		}
		if len(parts) < len(s.args) {
			return mkSsub(mkCat(parts...), i, j)
		}
		// i inside first part (0<=i<=len0) and j known to be at/after end of first part:
		tot := mkSlen(s)
		l0 := mkSlen(parts[0])
		if isInt(i, 0) {
			if mkGe(j, l0) == tTrue {
				return mkCat(parts[0], mkSsub(mkCat(parts[1:]...), mkInt(0), mkSub(j, l0)))
			}
		} else if parts[0].op == "lit" || j == tot {
			if mkAnd(mkGe0(i), mkLe(i, l0), mkGe(j, l0)) == tTrue {
				return mkCat(mkSsub(parts[0], i, l0), mkSsub(mkCat(parts[1:]...), mkInt(0), mkSub(j, l0)))
			}
		}
	}
	return mkApp("ssub", SStr, s, i, j)
}

func mkStrOf(a, off, n *Term) *Term {
	if isInt(n, 0) {
		return tEmpty
	}
	if a.op == "ite" {
		return mkIte(a.args[0], mkStrOf(a.args[1], off, n), mkStrOf(a.args[2], off, n))
	}
	if a.op == "app" && a.name == "arr_of" {
		return mkSsub(a.args[0], off, mkAdd(off, n))
	}
	if a.op == "app" && len(a.name) > 5 && a.name[:5] == "acopy" && isInt(off, 0) && n == a.args[2] {
		return mkStrOf(a.args[0], a.args[1], n)
	}
	if a.op == "app" && len(a.name) > 6 && a.name[:6] == "awrite" {
		// awrite(A,pos,B,ob,m): whole range [off, pos+m) with off<=pos
		A, pos, B, ob, m := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		if mkAdd(off, n) == mkAdd(pos, m) && mkLe(off, pos) == tTrue {
			return mkCat(mkStrOf(A, off, mkSub(pos, off)), mkStrOf(B, ob, m))
		}
		if off == pos && n == m {
			return mkStrOf(B, ob, m)
		}
		if mkLe(mkAdd(off, n), pos) == tTrue {
			return mkStrOf(A, off, n)
		}
		if mkLe(off, pos) == tTrue && mkLe(mkAdd(off, n), mkAdd(pos, m)) == tTrue && mkGe0(n) == tTrue {
			return mkSsub(mkCat(mkStrOf(A, off, mkSub(pos, off)), mkStrOf(B, ob, m)), mkInt(0), n)
		}
	}
	if a.op == "store" {
		rel := mkSub(a.args[1], off)
		if mkLt(rel, mkInt(0)) == tTrue || mkGe(rel, n) == tTrue {
			return mkStrOf(a.args[0], off, n)
		}
		if rel == mkAddI(n, -1) && mkGe0(rel) == tTrue || isInt(n, 1) && isInt(rel, 0) {
			return mkCat(mkStrOf(a.args[0], off, rel), mkChr(a.args[2]))
		}
	}
	if k, ok := constInt(n); ok && k <= 16 {
		var ps []*Term
		for j := int64(0); j < k; j++ {
			ps = append(ps, mkChr(mkSelect(a, mkAddI(off, j))))
		}
		return mkCat(ps...)
	}
	return mkApp("str_of", SStr, a, off, n)
}

func mkArrOf(s *Term) *Term {
	return mkApp("arr_of", ArrS(SInt, SInt), s)
}

func mkItoa(n *Term) *Term {
	if n.op == "int" {
		return mkLit(n.r.Num().String())
	}
	return mkApp("itoa", SStr, n)
}

func mkEqStr(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "lit" && b.op == "lit" {
		return tFalse
	}
	if a.op == "ite" && b.op == "lit" || b.op == "ite" && a.op == "lit" {
		if b.op == "ite" {
			a, b = b, a
		}
		if a.args[1].op == "lit" || a.args[2].op == "lit" {
			return mkIte(a.args[0], mkEqStr(a.args[1], b), mkEqStr(a.args[2], b))
		}
	}
	pa, pb := catParts(a), catParts(b)
	pa = append([]*Term{}, pa...)
	pb = append([]*Term{}, pb...)
	ch := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			ch = true
			continue
		}
		if x.op == "lit" && y.op == "lit" {
			n := 0
			for n < len(x.str) && n < len(y.str) && x.str[n] == y.str[n] {
				n++
			}
			if n < len(x.str) && n < len(y.str) {
				return tFalse
			}
			ch = true
			pa, pb = pa[1:], pb[1:]
			if n < len(x.str) {
				pa = append([]*Term{mkLit(x.str[n:])}, pa...)
			}
			if n < len(y.str) {
				pb = append([]*Term{mkLit(y.str[n:])}, pb...)
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			ch = true
			continue
		}
		if x.op == "lit" && y.op == "lit" {
			n := 0
			for n < len(x.str) && n < len(y.str) && x.str[len(x.str)-1-n] == y.str[len(y.str)-1-n] {
				n++
			}
			if n < len(x.str) && n < len(y.str) {
				return tFalse
			}
			ch = true
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			if n < len(x.str) {
				pa = append(pa, mkLit(x.str[:len(x.str)-n]))
			}
			if n < len(y.str) {
				pb = append(pb, mkLit(y.str[:len(y.str)-n]))
			}
			continue
		}
		break
	}
	if ch {
		return mkEqStr(mkCat(pa...), mkCat(pb...))
	}
	// empty vs something with positive literal part
	if a == tEmpty || b == tEmpty {
		o := a
		if a == tEmpty {
			o = b
		}
		for _, p := range catParts(o) {
			if p.op == "lit" && p.str != "" || p.op == "app" && (p.name == "chr" || p.name == "itoa") {
				return tFalse
			}
		}
		return mkEq(mkSlen(o), mkInt(0))
	}
	if isCtor(a, "chr") && isCtor(b, "chr") {
		return mkEq(a.args[0], b.args[0])
	}
	if isCtor(a, "chr") && b.op == "lit" || isCtor(b, "chr") && a.op == "lit" {
		if b.op != "lit" {
			a, b = b, a
		}
		if len(b.str) == 1 {
			return mkEq(a.args[0], mkInt(int64(b.str[0])))
		}
		return tFalse
	}
	if isCtor(a, "itoa") && isCtor(b, "itoa") {
		return mkEq(a.args[0], b.args[0])
	}
	if isCtor(a, "itoa") && b.op == "lit" || isCtor(b, "itoa") && a.op == "lit" {
		if b.op != "lit" {
			a, b = b, a
		}
		n, err := strconv.ParseInt(b.str, 10, 64)
		if err == nil && strconv.FormatInt(n, 10) == b.str {
			return mkEq(a.args[0], mkInt(n))
		}
		if err != nil {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func mkToReal(t *Term) *Term {
	if t.op == "int" {
		return mkReal(t.r)
	}
	if t.op == "lin" {
		res := mkReal(t.r)
		for i, a := range t.args {
			res = mkAdd(res, mkScale(t.coefs[i], mkToReal(a)))
		}
		return res
	}
	if t.op == "ite" {
		return mkIte(t.args[0], mkToReal(t.args[1]), mkToReal(t.args[2]))
	}
	return mkApp("to_real", SReal, t)
}
