package main

import (
	"fmt"
	"go/ast"
	"strings"
	"time"
)

// indLemma is a lemma about recursive specification functions, proved by
// induction on one integer parameter and then available to every proof.
type indLemma struct {
	name   string
	params []string
	sorts  []Sort
	by     string
	body   ast.Expr
	trig   []ast.Expr
	line   string
}

func (P *Program) parseInd(file string, it item) error {
	i := strings.Index(it.body, "(")
	j := matchParen(it.body, i)
	if i < 0 || j < 0 {
		return fmt.Errorf("line %d: bad ind", it.line)
	}
	l := &indLemma{name: strings.TrimSpace(it.body[:i]), line: fmt.Sprintf("%s:%d", file, it.line)}
	for _, p := range names(it.body[i+1 : j]) {
		f := strings.Fields(p)
		if len(f) != 2 || sortNames[f[1]] == "" {
			return fmt.Errorf("line %d: bad ind param %q", it.line, p)
		}
		l.params = append(l.params, f[0])
		l.sorts = append(l.sorts, sortNames[f[1]])
	}
	rest := strings.TrimSpace(it.body[j+1:])
	if strings.HasPrefix(rest, "by ") {
		rest = strings.TrimSpace(rest[3:])
		k := strings.IndexAny(rest, " =")
		l.by = rest[:k]
		rest = strings.TrimSpace(rest[k:])
	}
	if !strings.HasPrefix(rest, "=") {
		return fmt.Errorf("line %d: ind needs =", it.line)
	}
	rest = rest[1:]
	k := strings.LastIndex(rest, "trigger")
	if k < 0 {
		return fmt.Errorf("line %d: ind needs trigger", it.line)
	}
	var err error
	if l.body, err = parseSpec(strings.TrimSpace(rest[:k])); err != nil {
		return fmt.Errorf("line %d: %v", it.line, err)
	}
	for _, t := range splitTop(rest[k+len("trigger"):], ',') {
		e, err := parseSpec(strings.TrimSpace(t))
		if err != nil {
			return fmt.Errorf("line %d: %v", it.line, err)
		}
		l.trig = append(l.trig, e)
	}
	P.inds = append(P.inds, l)
	return nil
}

// proveInds proves every induction lemma in order and registers it.
func (P *Program) proveInds(assumed string) *Result {
	known := map[string]bool{}
	for _, n := range strings.Split(assumed, ",") {
		known[n] = true
	}
	res := &Result{Func: "(induction lemmas)"}
	for n, r := range P.recs {
		var as []string
		for _, s := range r.sorts {
			as = append(as, string(s))
		}
		declOverride["rec_"+n] = "(declare-fun rec_" + n + " (" + strings.Join(as, " ") + ") " + string(r.res) + ")"
	}
	for n, u := range specUFs {
		var as []string
		for _, s := range u.args {
			as = append(as, string(s))
		}
		declOverride[n] = "(declare-fun " + n + " (" + strings.Join(as, " ") + ") " + string(u.res) + ")"
	}
	for _, l := range P.inds {
		if assumed == "" && P.indFiles != nil && !P.indFiles[l.line[:strings.LastIndex(l.line, ":")]] {
			continue
		}
		x := newExec(P, nil, &Contract{Func: "ind " + l.name}, time.Hour)
		x.al0 = mkInt(0)
		mk := func(by *Term, bound bool) (*Term, []*Term, []*Term) {
			vars := map[string]sval{}
			var vs []*Term
			for i, p := range l.params {
				var t *Term
				if p == l.by && by != nil {
					t = by
				} else if bound {
					t = mkBVar(p, l.sorts[i])
				} else {
					t = mkVar("ind_"+p, l.sorts[i])
				}
				vs = append(vs, t)
				vars[p] = sval{t, typeOfSort(l.sorts[i])}
			}
			e := &specEnv{x: x, vars: vars}
			var trig []*Term
			for _, tr := range l.trig {
				trig = append(trig, asTerm(e.eval(tr)))
			}
			return e.boolean(l.body), vs, trig
		}
		ok := true
		run := func(part string, hyps []*Term, goal *Term) {
			t0 := time.Now()
			q := x.mkQuery(hyps, goal)
			r, out, solver := prove(q, 3)
			if r != "unsat" {
				r, out, solver = prove(q, 2)
			}
			o := &Obligation{Func: "ind " + l.name, Name: part, Kind: "lemma", Pos: l.line, Solver: solver, Ms: time.Since(t0).Milliseconds()}
			o.Result = map[string]string{"unsat": "proved", "sat": "refuted"}[r]
			if o.Result == "" {
				o.Result = "unknown"
				o.Detail = trunc(out, 300)
			}
			if o.Result != "proved" {
				ok = false
			}
			res.Obls = append(res.Obls, o)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
					res.Err = fmt.Sprintf("ind %s: %v", l.name, r)
				}
			}()
			if assumed != "" {
				ok = known[l.name] || known["all"]
			} else if l.by == "" {
				g, _, _ := mk(nil, false)
				run("direct", nil, g)
			} else {
				n := mkVar("ind_"+l.by, SInt)
				g, _, _ := mk(nil, false)
				run("base", []*Term{mkLe(n, mkInt(0))}, g)
				ih, _, _ := mk(mkAddI(n, -1), false)
				hyps := []*Term{mkGt(n, mkInt(0)), ih}
				if len(l.params) > 1 {
					// the hypothesis holds for all values of the other parameters
					gb, gvs, gtr := mk(mkAddI(n, -1), true)
					var bvs []*Term
					for _, v := range gvs {
						if v.op == "bvar" {
							bvs = append(bvs, v)
						}
					}
					full := true
					for _, v := range bvs {
						if !occursIn(v, gtr) {
							full = false
						}
					}
					if full && gb != tTrue {
						q := mkForall(bvs, gb)
						if q.op == "forall" {
							q.pats = [][]*Term{gtr}
						}
						hyps = append(hyps, q)
					}
				}
				run("step", hyps, g)
			}
			if ok {
				res.Used = append(res.Used, l.name)
				b, vs, trig := mk(nil, true)
				q := mkForall(vs, b)
				q.pats = [][]*Term{trig}
				need := map[string]bool{}
				var walk func(t *Term)
				walk = func(t *Term) {
					if t.op == "app" {
						need[t.name] = true
					}
					for _, a := range t.args {
						walk(a)
					}
				}
				litsOf := func(ts ...*Term) (out []*Term) {
					var w func(t *Term)
					w = func(t *Term) {
						if t.op == "lit" && t.str != "" {
							out = append(out, t)
						}
						for _, a := range t.args {
							w(a)
						}
					}
					for _, t := range ts {
						w(t)
					}
					return out
				}
				for _, t := range trig {
					walk(t)
				}
				var ns []string
				for n := range need {
					ns = append(ns, n)
				}
				userAxioms = append(userAxioms, userAxiom{needs: []string{strings.Join(ns, "&")}, text: "(assert " + smtStr(q, nil) + ")", lits: litsOf(append([]*Term{b}, trig...)...), tlits: litsOf(trig...)})
			}
		}()
	}
	return res
}

func occursIn(v *Term, ts []*Term) bool {
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if w(t) {
			return true
		}
	}
	return false
}
