package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("contracts", "/verif/contracts", "contracts")
	fn := flag.String("func", "", "verify only this function")
	list := flag.Bool("list", false, "list functions")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("ssa", "", "dump ssa of function")
	asJSON := flag.Bool("json", false, "print one JSON result")
	files := flag.String("files", "", "with -inds: only the lemmas of these contract files")
	onlyInds := flag.Bool("inds", false, "prove the induction lemmas only")
	check := flag.String("check", "", "check a property")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *check != "" {
		os.Exit(runCheck(*repo, *specs, *verif, *check))
	}
	t0 := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list {
		for _, n := range P.funcNames() {
			fmt.Println(n)
		}
		return
	}
	if *dump != "" {
		P.byName[*dump].WriteTo(os.Stdout)
		return
	}
	if err := P.loadContracts(*specs); err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	if *files != "" {
		P.indFiles = map[string]bool{}
		for _, f := range strings.Split(*files, ",") {
			P.indFiles[f] = true
		}
	}
	assumed := os.Getenv("GOV_INDS")
	indRes := P.proveInds(assumed)
	if *onlyInds {
		j := toJSON(indRes)
		j.Inds = indRes.Used
		j.Used = nil
		b, _ := json.Marshal(j)
		fmt.Printf("\n@@JSON %s", b)
		return
	}
	if assumed == "" {
		indRes.print(*verbose)
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	if *asJSON {
		b, _ := json.Marshal(toJSON(P.verify(P.contracts[*fn], time.Duration(200*scale())*time.Second)))
		fmt.Printf("\n@@JSON %s", b)
		return
	}
	var names []string
	for n := range P.contracts {
		if *fn == "" || n == *fn || P.contracts[n].file == *fn || (!*asJSON && strings.HasSuffix(n, *fn)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		t1 := time.Now()
		r := P.verify(P.contracts[n], 300*time.Second)
		r.print(*verbose)
		fmt.Printf("   %v\n", time.Since(t1).Round(time.Millisecond))
	}
}

func writeFile(n, s string) { os.WriteFile(n, []byte(s), 0644) }
