package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const preludeBase = `(set-option :produce-models true)
(set-logic ALL)
(declare-sort Str 0)
(declare-datatypes ((Ref 0)) (((nil) (obj (oid Int)) (fld (fbase Ref) (fkey Int)) (elem (ebase Ref) (eidx Int)))))
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sdiff (Str Str) Int)
(declare-fun chr (Int) Str)
(declare-fun itoa (Int) Str)
(declare-fun atoiv (Str) Int)
(declare-fun arr_of (Str) (Array Int Int))
(declare-fun str_of ((Array Int Int) Int Int) Str)
(declare-fun rid (Ref) Int)
(declare-fun rinv (Real) Real)
(declare-const lit_empty Str)
(assert (= (slen lit_empty) 0))
`

type axiom struct {
	needs []string // included when any of these symbols occurs
	text  string
}

var baseAxioms = []axiom{
	{[]string{"slen", "scat", "sat", "ssub", "str_of"}, `(assert (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s lit_empty))) :pattern ((slen s)))))`},
	{[]string{"scat"}, `(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
(assert (forall ((a Str)) (! (= (scat lit_empty a) a) :pattern ((scat lit_empty a)))))
(assert (forall ((a Str)) (! (= (scat a lit_empty) a) :pattern ((scat a lit_empty)))))`},
	{[]string{"sat"}, `(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))`},
	{[]string{"sat&scat"}, `(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))`},
	{[]string{"ssub"}, `(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (= i 0) (= j (slen s))) (= (ssub s i j) s)) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (= i j) (= (ssub s i j) lit_empty)) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int) (j Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (<= i j) (<= j (- b a))) (= (ssub (ssub s a b) i j) (ssub s (+ a i) (+ a j)))) :pattern ((ssub (ssub s a b) i j)))))`},
	{[]string{"ssub&sat"}, `(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))`},
	{[]string{"ssub&scat"}, `(assert (forall ((a Str) (b Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (slen a) (slen b)))) (= (ssub (scat a b) i j) (ite (<= j (slen a)) (ssub a i j) (ite (>= i (slen a)) (ssub b (- i (slen a)) (- j (slen a))) (scat (ssub a i (slen a)) (ssub b 0 (- j (slen a)))))))) :pattern ((ssub (scat a b) i j)))))`},
	{[]string{"chr"}, `(assert (forall ((c Int)) (! (and (= (slen (chr c)) 1) (=> (and (<= 0 c) (<= c 255)) (= (sat (chr c) 0) c))) :pattern ((chr c)))))`},
	{[]string{"itoa"}, `(assert (forall ((n Int)) (! (and (= (atoiv (itoa n)) n) (>= (slen (itoa n)) 1) (=> (and (<= 0 n) (< n 10000000000)) (<= (slen (itoa n)) 10))) :pattern ((itoa n)))))`},
	{[]string{"arr_of"}, `(assert (forall ((s Str) (i Int)) (! (= (select (arr_of s) i) (sat s i)) :pattern ((select (arr_of s) i)))))
(assert (forall ((s Str) (i Int) (n Int)) (! (= (str_of (arr_of s) i n) (ssub s i (+ i n))) :pattern ((str_of (arr_of s) i n)))))`},
	{[]string{"str_of"}, `(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (str_of a o n)) n)) :pattern ((str_of a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (= 0 n) (= (str_of a o n) lit_empty)) :pattern ((str_of a o n)))))`},
	{[]string{"str_of&sat"}, `(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (sat (str_of a o n) i) (select a (+ o i)))) :pattern ((sat (str_of a o n) i)))))`},
	{[]string{"rid"}, `(assert (= (rid nil) (- 1)))
(assert (forall ((n Int)) (! (= (rid (obj n)) n) :pattern ((obj n)))))
(assert (forall ((r Ref) (k Int)) (! (= (rid (fld r k)) (rid r)) :pattern ((fld r k)))))
(assert (forall ((r Ref) (k Int)) (! (= (rid (elem r k)) (rid r)) :pattern ((elem r k)))))`},
}

// symbols that the prelude declares
var preludeSyms = map[string]bool{"slen": true, "sat": true, "scat": true, "ssub": true, "chr": true, "itoa": true, "atoiv": true,
	"arr_of": true, "str_of": true, "rid": true, "obj": true, "fld": true, "elem": true, "nil": true, "to_real": true, "sdiff": true, "rinv": true, "lit_empty": true}

// extra axioms registered by models / contracts: keyed by symbol
type userAxiom struct {
	needs []string
	text  string
	lits  []*Term // literals of the text
	tlits []*Term // literals of the pattern: the axiom is of no use without them
}

var userAxioms []userAxiom
var declOverride = map[string]string{}

type Query struct {
	text string
	syms map[string]bool
	hyps int
}

// buildQuery produces the SMT-LIB text for: hyps |- goal
func buildQuery(hyps []*Term, goal *Term, extraLemmas func(all []*Term) []*Term) *Query {
	asserts := make([]*Term, 0, len(hyps)+4)
	seenA := map[*Term]bool{}
	skn := 0
	addA := func(t *Term) {
		t = normAssert(t, &skn)
		if t == tTrue || seenA[t] {
			return
		}
		seenA[t] = true
		asserts = append(asserts, t)
	}
	for _, h := range hyps {
		addA(h)
	}
	skn0 := skn
	neg := mkNot(goal)
	addA(neg)
	if extraLemmas != nil {
		for _, l := range extraLemmas(asserts) {
			addA(l)
		}
	}
	// string extensionality for equalities in the goal
	for _, e := range strEqs(normAssert(neg, &skn0)) {
		a, b := e.args[0], e.args[1]
		d := mkApp("sdiff", SInt, a, b)
		addA(mkOr(e, mkNot(mkEq(mkSlen(a), mkSlen(b))), mkAnd(mkGe0(d), mkLt(d, mkSlen(a)), mkNot(mkEq(mkSat(a, d), mkSat(b, d))))))
	}

	syms := map[string]bool{}
	decls := map[string]string{}
	lits := map[*Term]bool{}
	uses := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		switch t.op {
		case "var":
			syms[t.name] = true
			if !preludeSyms[t.name] {
				decls[t.name] = "(declare-fun " + symName(t.name) + " () " + string(t.sort) + ")"
			}
		case "app":
			syms[t.name] = true
			if !preludeSyms[t.name] {
				if _, ok := decls[t.name]; !ok {
					var as []string
					for _, a := range t.args {
						as = append(as, string(a.sort))
					}
					decls[t.name] = "(declare-fun " + symName(t.name) + " (" + strings.Join(as, " ") + ") " + string(t.sort) + ")"
				}
			}
		case "scat":
			syms["scat"] = true
			syms["slen"] = true
		case "lit":
			if t.str != "" {
				lits[t] = true
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	var sb strings.Builder
	sb.WriteString(preludeBase)
	// user axioms pull in their own declarations (text may declare)
	var names []string
	axText := &strings.Builder{}
	has := func(need string) bool {
		for _, p := range strings.Split(need, "&") {
			if !syms[p] {
				return false
			}
		}
		return true
	}
	// ext lemma may need sat
	changed := true
	used := map[int]bool{}
	usedB := map[int]bool{}
	for changed {
		changed = false
		for i, ax := range userAxioms {
			if used[i] {
				continue
			}
			ok := false
			for _, n := range ax.needs {
				if has(n) {
					ok = true
				}
			}
			for _, l := range ax.tlits {
				if !lits[l] {
					ok = false
				}
			}
			if ok {
				used[i] = true
				changed = true
				for _, l := range ax.lits {
					lits[l] = true
				}
				for _, s := range symsInText(ax.text) {
					if !syms[s] {
						syms[s] = true
					}
					if d, ok := declOverride[s]; ok && !preludeSyms[s] {
						decls[s] = d
					}
				}
				axText.WriteString(ax.text + "\n")
			}
		}
		for i, ax := range baseAxioms {
			if usedB[i] {
				continue
			}
			ok := false
			for _, n := range ax.needs {
				if has(n) {
					ok = true
				}
			}
			if ok {
				usedB[i] = true
				changed = true
				axText.WriteString(ax.text + "\n")
				if strings.Contains(ax.text, "(slen") {
					syms["slen"] = true
				}
			}
		}
	}
	for n := range decls {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := decls[n]
		if o, ok := declOverride[n]; ok {
			d = o
		}
		sb.WriteString(d + "\n")
	}
	// per-sort array helper axioms
	for _, n := range names {
		if strings.HasPrefix(n, "acopy_") {
			es := elemSortOfDecl(decls[n])
			fmt.Fprintf(&sb, "(assert (forall ((a (Array Int %s)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (select (%s a o n) i) (select a (+ o i)))) :pattern ((select (%s a o n) i)))))\n", es, n, n)
		}
		if syms["str_of"] && strings.Contains(n, "E:uint8") && strings.HasSuffix(decls[n], " (Ref) (Array Int Int))") {
			q := n
			if !strings.HasPrefix(q, "|") {
				q = "|" + q + "|"
			}
			fmt.Fprintf(&sb, "(assert (forall ((r Ref) (i Int)) (! (and (<= 0 (select (%s r) i)) (<= (select (%s r) i) 255)) :pattern ((select (%s r) i)))))\n", q, q, q)
		}
		if strings.HasPrefix(n, "awrite_") {
			es := elemSortOfDecl(decls[n])
			fmt.Fprintf(&sb, "(assert (forall ((a (Array Int %s)) (p Int) (b (Array Int %s)) (o Int) (n Int) (i Int)) (! (= (select (%s a p b o n) i) (ite (and (<= p i) (< i (+ p n))) (select b (+ o (- i p))) (select a i))) :pattern ((select (%s a p b o n) i)))))\n", es, es, n, n)
		}
	}
	// literals, and how longer ones start with shorter ones
	litEqs := ""
	if syms["scat"] && len(lits) > 1 && len(lits) < 40 {
		work := []*Term{}
		for l := range lits {
			work = append(work, l)
		}
		sort.Slice(work, func(i, j int) bool { return work[i].id < work[j].id })
		base := append([]*Term{}, work...)
		for len(work) > 0 && len(lits) < 120 {
			l := work[0]
			work = work[1:]
			for _, a := range base {
				if len(a.str) < len(l.str) && len(l.str) <= 80 && strings.HasPrefix(l.str, a.str) {
					suf := mkLit(l.str[len(a.str):])
					litEqs += fmt.Sprintf("(assert (= %s (scat %s %s)))\n", litName(l), litName(a), litName(suf))
					if !lits[suf] {
						lits[suf] = true
						work = append(work, suf)
					}
				}
			}
		}
	}
	var ls []*Term
	for l := range lits {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		fmt.Fprintf(&sb, "(declare-const %s Str) ; %q\n(assert (= (slen %s) %d))\n", litName(l), trunc(l.str, 60), litName(l), len(l.str))
	}
	if len(ls) > 1 {
		sb.WriteString("(assert (distinct lit_empty")
		for _, l := range ls {
			sb.WriteString(" " + litName(l))
		}
		sb.WriteString("))\n")
	}
	if syms["sat"] || syms["ssub"] {
		for _, l := range ls {
			if len(l.str) <= 40 {
				for i := 0; i < len(l.str); i++ {
					fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", litName(l), i, l.str[i])
				}
			}
		}
	}
	sb.WriteString(litEqs)
	sb.WriteString(axText.String())
	// shared ground subterms
	dn := map[*Term]string{}
	for _, t := range order {
		if t.bound || len(t.args) == 0 {
			continue
		}
		if uses[t] > 1 && t.size > 4 {
			n := fmt.Sprintf("d_%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, smtStr(t, dn))
			dn[t] = n
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		sb.WriteString(smtStr(a, dn))
		sb.WriteString(")\n")
	}
	return &Query{text: sb.String(), syms: syms, hyps: len(asserts)}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func elemSortOfDecl(d string) string {
	// result sort is the trailing (Array Int X)
	i := strings.LastIndex(d, ") (Array Int ")
	s := d[i+len(") (Array Int "):]
	return s[:len(s)-2]
}

func symsInText(s string) []string {
	var out []string
	cur := ""
	for _, c := range s {
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += string(c)
		}
	}
	return out
}

func strEqs(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.sort != SBool {
			return
		}
		seen[t] = true
		if t.op == "=" && t.args[0].sort == SStr && !t.bound {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func scale() int {
	if os.Getenv("GOV_SCALE") == "3" {
		return 3
	}
	return 1
}

type solverStat struct {
	n  int64
	ns int64
}

var statMu sync.Mutex
var solverStats = map[string]*solverStat{}
var totalQueries int64
var solverSem = make(chan struct{}, 8)

func runSolver(parent context.Context, name string, text string, timeout time.Duration, wantModel bool) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	var cmd *exec.Cmd
	timeout *= time.Duration(scale())
	ms := int(timeout.Milliseconds())
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	full := text + "(check-sat)\n"
	if wantModel {
		full += "(get-model)\n"
	}
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "auto_config=false", "smt.mbqi=false", "smt.relevancy=2")
		if name == "z3" {
			cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
		}
	case "z3-mbqi":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--produce-models")
	}
	cmd.Stdin = strings.NewReader(full)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Run()
	el := time.Since(t0)
	statMu.Lock()
	st := solverStats[name]
	if st == nil {
		st = &solverStat{}
		solverStats[name] = st
	}
	st.n++
	st.ns += el.Nanoseconds()
	statMu.Unlock()
	atomic.AddInt64(&totalQueries, 1)
	o := out.String()
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	first = strings.TrimSpace(first)
	if first != "sat" && first != "unsat" && first != "unknown" {
		if strings.Contains(o, "error") {
			if os.Getenv("GOV_DUMP") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, trunc(o, 500), trunc(errb.String(), 300))
				os.WriteFile("/tmp/gov_err.smt2", []byte(full), 0644)
			}
			return "error", o + errb.String()
		}
		return "unknown", o
	}
	return first, o
}

// prove returns "unsat" (proved), "sat" (refuted by a model) or "unknown".
// level 0: quick feasibility; 1: invariant candidates; 2: full obligations.
func prove(q *Query, level int) (fr, fo, fs string) {
	first := []time.Duration{600 * time.Millisecond, 2 * time.Second, 4 * time.Second, 4 * time.Second}[level]
	t0 := time.Now()
	r, out := "unknown", ""
	if level != 2 { // level 2 follows level 3
		r, out = runSolver(context.Background(), "z3-new", q.text, first, false)
	}
	if os.Getenv("GOV_STATS") != "" {
		d := time.Since(t0)
		defer func() {
			fmt.Fprintf(os.Stderr, "STAT level=%d first=%s %dms total=%dms final=%s/%s\n", level, r, d.Milliseconds(), time.Since(t0).Milliseconds(), fr, fs)
		}()
	}
	if r == "unsat" || level == 0 || level == 3 {
		return r, out, "z3-new"
	}
	fast := false
	if level == 1 && r == "unknown" && time.Since(t0) < time.Second {
		fast = true // saturated without a contradiction: most likely no invariant
	}
	type res struct{ r, o, n string }
	names := []string{"cvc5", "z3-mbqi", "z3", "z3-new"}
	to := 12 * time.Second
	if level == 1 {
		names = []string{"cvc5", "z3-mbqi"}
		to = 2500 * time.Millisecond
		if fast {
			to = 1200 * time.Millisecond
		}
	}
	ch := make(chan res, len(names))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, n := range names {
		go func(n string) {
			r, o := runSolver(ctx, n, q.text, to, n == "z3-mbqi")
			ch <- res{r, o, n}
		}(n)
	}
	best := res{r, out, "z3-new"}
	for range names {
		x := <-ch
		if x.r == "unsat" {
			return x.r, x.o, x.n
		}
		if x.r == "sat" {
			return x.r, x.o, x.n
		}
	}
	return best.r, best.o, best.n
}
