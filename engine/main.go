package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsym explore|check ...")
		os.Exit(9)
	}
	switch os.Args[1] {
	case "explore":
		explore(os.Args[2:])
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "replay":
		os.Exit(replayFile(os.Args[2:]))
	}
}

type kv map[string]int

func (k kv) String() string { return "" }
func (k kv) Set(s string) error {
	n, v, _ := strings.Cut(s, "=")
	i, err := strconv.Atoi(v)
	k[n] = i
	return err
}

func explore(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	entry := fs.String("entry", "", "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	secs := fs.Int("t", 60, "")
	sched := fs.Bool("sched", false, "")
	pre := fs.Int("preempt", 2, "")
	sites := fs.Bool("sites", false, "count where paths fork")
	maporder := fs.Bool("maporder", false, "")
	steps := fs.Int64("steps", 20_000_000, "")
	native := fs.Bool("native", true, "")
	params := kv{}
	fs.Var(params, "p", "")
	fs.Parse(args)
	pk, _, _ := strings.Cut(*entry, ".")
	t0 := time.Now()
	p, err := load(pk)
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	fn, err := p.entry(*entry)
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	s := &Session{p: p, entry: fn, name: *entry, cache: newQueryCache(), st: &SolverStats{}, budget: time.Duration(*secs) * time.Second, verbose: true, nsamples: 40, solverLimit: 10 * time.Second,
		opt: &Options{Sched: *sched, Preempt: *pre, MapOrder: *maporder, MaxSteps: *steps, Params: params}}
	if *sites {
		s.sites = map[string]int{}
	}
	s.run(*workers)
	for _, k := range sortedKeys(s.sites) {
		fmt.Printf("forks %d %s\n", s.sites[k], k)
	}
	fmt.Printf("paths %d done %d infeasible %d abandoned %d left %d expired %v asserts %d steps %d queries %d cached %d solver %.1fs wall %.1fs maxpc %d\n", s.paths, s.donePaths, s.infeasible, s.abandoned, s.leftItems, s.expired, s.asserts, s.steps, s.st.queries, s.st.cached, time.Duration(s.st.nanos).Seconds(), time.Since(s.start).Seconds(), s.maxPC)
	for _, k := range sortedKeys(s.abReasons) {
		fmt.Printf("abandoned %d: %.600s\n", s.abReasons[k], k)
	}
	fmt.Println("covers", s.covers)
	for n := range s.notes {
		fmt.Println("note:", n)
	}
	for _, v := range s.viols {
		fmt.Printf("VIOL %s %s\n%s\n%v\n", v.Kind, v.Msg, v.Stack, fmtValues(v.Values))
	}
	if !*native {
		for _, sm := range s.samples {
			fmt.Println("sample", fmtValues(sm.Values), sm.Obs)
		}
		return
	}
	nat := buildNative(p, []string{pk}, false)
	defer nat.close()
	for _, v := range s.viols {
		r, err := nat.run(*entry, v.Values, params)
		fmt.Printf("native of %s %s: %s %s %v\n", v.Kind, v.Msg, r.What, firstFail(r.Out), err)
	}
	bad := 0
	for _, sm := range s.samples {
		r, err := nat.run(*entry, sm.Values, params)
		if r.What != "ok" || err != nil || strings.Join(r.Obs, "\n") != strings.Join(sm.Obs, "\n") {
			bad++
			fmt.Println("MISMATCH", fmtValues(sm.Values), "engine", sm.Obs, "native", r.What, firstFail(r.Out), r.Obs, err)
		}
	}
	fmt.Printf("%d samples, %d mismatches\n", len(s.samples), bad)
	for i, sm := range s.samples {
		if i < 3 {
			fmt.Println("sample", fmtValues(sm.Values), sm.Obs)
		}
	}
}

// fmtValues writes an assignment compactly; byte arrays become quoted strings.
func fmtValues(m map[string]uint64) string {
	strs := map[string]map[int]byte{}
	var out []string
	for _, k := range sortedKeys(m) {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			n, _ := strconv.Atoi(k[i+1 : len(k)-1])
			b := k[:i]
			if strs[b] == nil {
				strs[b] = map[int]byte{}
			}
			strs[b][n] = byte(m[k])
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", k, m[k]))
	}
	for _, k := range sortedKeys(strs) {
		b := make([]byte, len(strs[k]))
		for i, c := range strs[k] {
			if i < len(b) {
				b[i] = c
			}
		}
		out = append(out, fmt.Sprintf("%s=%q", k, b))
	}
	return strings.Join(out, " ")
}
