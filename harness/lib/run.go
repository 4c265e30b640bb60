// Package zzverif is the library behind the bounded checks and the search for
// failing inputs. It is compiled into the module through an overlay only.
package zzverif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

// Seed is VERIF_SEED, Depth VERIF_DEPTH (6 quick, 40 deep, 150 thorough).
func Seed() int64 { return int64(envInt("VERIF_SEED", 1)) }
func Depth() int  { return envInt("VERIF_DEPTH", 1) }

// Repo is the tree under test.
func Repo() string {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		return s
	}
	return "/repo"
}

// Scratch is a directory the run may write to.
func Scratch() string {
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// C is one case.
type C struct {
	R    *rand.Rand
	N    int
	desc []string
	fail []string
	key  string
}

// Desc records what the case is about; it goes into the replay file.
func (c *C) Desc(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	c.desc = append(c.desc, s)
}

type stop struct{}

// Fail records a violation under a key and ends the case.
func (c *C) Fail(key, f string, a ...interface{}) {
	c.key = key
	c.fail = append(c.fail, fmt.Sprintf(f, a...))
	panic(stop{})
}

// Check fails the case unless ok.
func (c *C) Check(ok bool, key, f string, a ...interface{}) {
	if !ok {
		c.Fail(key, f, a...)
	}
}

// NoErr fails the case on an error.
func (c *C) NoErr(err error, key string) {
	if err != nil {
		c.Fail(key, "unexpected error: %v", err)
	}
}

// Intn, Pick: random choices.
func (c *C) Intn(n int) int             { return c.R.Intn(n) }
func (c *C) Range(a, b int) int         { return a + c.R.Intn(b-a+1) }
func (c *C) Bool() bool                 { return c.R.Intn(2) == 0 }
func (c *C) Float(a, b float64) float64 { return a + (b-a)*c.R.Float64() }
func (c *C) PickInt(v ...int) int       { return v[c.R.Intn(len(v))] }
func (c *C) PickStr(v ...string) string { return v[c.R.Intn(len(v))] }

var printed = map[string]int{}
var mu sync.Mutex

func report(test, key, cas, msg string, n int) {
	mu.Lock()
	defer mu.Unlock()
	printed[key]++
	if printed[key] > 3 {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"test": test, "key": key, "case": cas, "msg": msg, "seed": Seed(), "n": n})
	fmt.Printf("VERIF-FAIL %s\n", b)
}

// Run runs n*Depth cases of f. A panic of the code under test, or a case that
// does not end, is a failure.
func Run(t *testing.T, name string, n int, f func(c *C)) {
	total := n * Depth()
	t0 := time.Now()
	bad := 0
	done := 0
	limit := time.Duration(envInt("VERIF_CASE_S", 60)) * time.Second
	budget := time.Duration(envInt("VERIF_BUDGET_S", 60)) * time.Second
	for i := 0; i < total; i++ {
		if time.Since(t0) > budget {
			break
		}
		c := &C{R: rand.New(rand.NewSource(Seed()*1000003 + int64(i)*7919 + int64(len(name)))), N: i}
		fin := make(chan bool, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						c.key = "panic"
						st := string(debug.Stack())
						c.fail = append(c.fail, fmt.Sprintf("panic: %v\n%s", r, trimStack(st)))
					}
				}
				fin <- true
			}()
			f(c)
		}()
		select {
		case <-fin:
		case <-time.After(limit):
			report(name, "hang", strings.Join(c.desc, " | "), "the case did not end within "+limit.String(), i)
			t.Fail()
			stat(name, i+1, bad+1, t0)
			return
		}
		done++
		if len(c.fail) > 0 {
			bad++
			report(name, name+"/"+c.key, strings.Join(c.desc, " | "), strings.Join(c.fail, "; "), i)
			t.Fail()
			if bad >= 5 {
				break
			}
		}
	}
	stat(name, done, bad, t0)
}

func stat(name string, n, bad int, t0 time.Time) {
	b, _ := json.Marshal(map[string]interface{}{"test": name, "cases": n, "bad": bad})
	fmt.Printf("VERIF-STAT %s\n", b)
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
