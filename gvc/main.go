package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

func dump(ob *Obligation, text string) {
	os.MkdirAll(dumpFailed, 0o755)
	n := sanitize(ob.Name)
	if len(n) > 120 {
		n = n[:120]
	}
	os.WriteFile(filepath.Join(dumpFailed, n+".smt2"), []byte("; "+ob.Name+"\n"+text), 0o644)
}

type jsonOb struct {
	Name, Kind, Pos, Status, By, Model string
	Ms                                 int64
}
type jsonFn struct {
	Key         string
	Obs         []jsonOb
	Trusted     map[string]string
	Used        []string
	Inlined     []string
	Notes       []string
	NoTerm      []string
	Unsupported string
	Vacuous     string
	QuickN      int
	QuickMs     int64
	WallMs      int64
	Lines       int
}

func toJSON(r *FnResult) jsonFn {
	j := jsonFn{Key: r.Key, Trusted: r.Trusted, Used: r.Used, Inlined: r.Inlined, Notes: r.Notes, NoTerm: r.NoTerm, Unsupported: r.Unsupported, Vacuous: r.Vacuous, QuickN: r.QuickN, QuickMs: r.QuickMs, Lines: r.Lines}
	for _, o := range r.Obligations {
		j.Obs = append(j.Obs, jsonOb{o.Name, o.Kind, o.Pos, o.Status, o.By, o.Model, o.Ms})
	}
	return j
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("contracts", "/verif/contracts", "contract directory")
	fns := flag.String("fn", "", "comma-separated functions to verify")
	prop := flag.String("prop", "", "verify the contracts of a property")
	limit := flag.Float64("limit", 10, "solver seconds per obligation")
	out := flag.String("json", "", "write results as JSON")
	worker := flag.Bool("worker", false, "internal")
	par := flag.Int("par", 8, "parallel workers")
	budget := flag.Int("budget", 0, "seconds after which no further obligation is attempted")
	until := flag.Int64("until", 0, "internal")
	verbose := flag.Bool("v", false, "list every obligation")
	list := flag.Bool("list", false, "list functions and whether they have a contract")
	flag.StringVar(&dumpFailed, "dump", "", "write failing queries here")
	flag.BoolVar(&probe, "probe", false, "report every return that the contracts make unreachable")
	flag.Parse()
	defer cleanTmp()
	db, err := LoadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *until > 0 {
		deadline = time.Unix(*until, 0)
	}
	if *worker {
		prog, err := Load(*repo, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		nPar = 2
		t0 := time.Now()
		r := verifyFunc(prog, db, *fns, *limit)
		j := toJSON(r)
		j.WallMs = time.Since(t0).Milliseconds()
		json.NewEncoder(os.Stdout).Encode(j)
		cleanTmp()
		return
	}
	if *list {
		prog, err := Load(*repo, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, k := range prog.sortedKeys() {
			m := "-"
			if c := db.Funcs[k]; c != nil {
				m = "contract " + strings.Join(c.Props, " ")
			}
			fmt.Println(k, m)
		}
		for k := range db.Funcs {
			if prog.ByKey[k] == nil && !strings.HasPrefix(k, "ext.") {
				fmt.Println("MISSING", k)
			}
		}
		return
	}
	if len(goListSave) == 0 {
		// the package listing is computed once and shared with the workers
		f, _ := os.CreateTemp("", "gvclist")
		ps, err := goList(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		b, _ := json.Marshal(ps)
		f.Write(b)
		f.Close()
		os.Setenv("GVC_LIST", f.Name())
		defer os.Remove(f.Name())
	}
	var todo []string
	queued := map[string]bool{}
	add := func(k string) {
		c := db.Funcs[k]
		if c == nil || c.Trusted || queued[k] {
			return
		}
		queued[k] = true
		todo = append(todo, k)
	}
	if *fns != "" {
		for _, k := range strings.Split(*fns, ",") {
			if db.Funcs[k] == nil {
				// prefix match
				for _, o := range db.Order {
					if strings.HasPrefix(o, k) {
						add(o)
					}
				}
			}
			add(k)
		}
	}
	for _, k := range db.Order {
		if *prop == "" && *fns == "" {
			add(k)
		}
		for _, p := range db.Funcs[k].Props {
			if p == *prop {
				add(k)
			}
		}
	}
	results := map[string]jsonFn{}
	var mu sync.Mutex
	self, _ := os.Executable()
	t0 := time.Now()
	for len(todo) > 0 {
		batch := todo
		todo = nil
		sem := make(chan bool, *par)
		var wg sync.WaitGroup
		for _, k := range batch {
			wg.Add(1)
			sem <- true
			go func(k string) {
				defer func() { <-sem; wg.Done() }()
				args := []string{"-worker", "-repo", *repo, "-contracts", *specs, "-fn", k, "-limit", fmt.Sprint(*limit)}
				if *budget > 0 {
					args = append(args, "-until", fmt.Sprint(t0.Unix()+int64(*budget)))
				}
				if dumpFailed != "" {
					args = append(args, "-dump", dumpFailed)
				}
				cmd := exec.Command(self, args...)
				cmd.Stderr = os.Stderr
				b, err := cmd.Output()
				var j jsonFn
				if err != nil {
					j = jsonFn{Key: k, Unsupported: "verifier process failed: " + err.Error()}
				} else if e := json.Unmarshal(b, &j); e != nil {
					j = jsonFn{Key: k, Unsupported: "verifier output: " + e.Error()}
				}
				mu.Lock()
				results[k] = j
				mu.Unlock()
			}(k)
		}
		wg.Wait()
		for _, k := range batch {
			for _, u := range results[k].Used {
				if *fns == "" {
					add(u)
				}
			}
		}
	}
	var keys []string
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	total, ok := 0, 0
	bad := 0
	for _, k := range keys {
		r := results[k]
		n, p := len(r.Obs), 0
		var ms int64
		for _, o := range r.Obs {
			ms += o.Ms
			if o.Status == "proved" {
				p++
			}
		}
		total += n
		ok += p
		status := "ok"
		if p < n || r.Unsupported != "" || r.Vacuous != "" || n == 0 {
			status = "FAIL"
			bad++
		}
		if *out == "" || status != "ok" {
			fmt.Printf("%-4s %-55s %3d/%-3d solver %5dms wall %5dms\n", status, k, p, n, ms, r.WallMs)
		}
		if r.Unsupported != "" {
			fmt.Printf("     unsupported: %s\n", r.Unsupported)
		}
		if r.Vacuous != "" {
			fmt.Printf("     VACUOUS: %s\n", r.Vacuous)
		}
		for _, o := range r.Obs {
			if o.Status != "proved" || *verbose {
				fmt.Printf("     %-7s %s  [%s] %s %dms\n", o.Status, o.Name, o.Pos, o.By, o.Ms)
				if o.Status == "failed" && *verbose {
					fmt.Printf("        %s\n", o.Model)
				}
			}
		}
	}
	fmt.Printf("functions %d (%d failing), obligations %d, discharged %d, wall %.1fs\n", len(keys), bad, total, ok, time.Since(t0).Seconds())
	if *out != "" {
		var rs []jsonFn
		for _, k := range keys {
			rs = append(rs, results[k])
		}
		b, _ := json.MarshalIndent(rs, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if bad > 0 {
		cleanTmp()
		os.Exit(1)
	}
}

var goListSave = os.Getenv("GVC_LIST")
