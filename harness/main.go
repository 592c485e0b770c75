package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Replays behaviours against the library.
//   harness replay -prop C02 -cmp value,grad -vals 3 -seed 1 -out DIR FILE...
//   harness rerun REPLAYFILE

type ReplayFile struct {
	Property  string
	Case      string
	Kind      string
	Message   string
	Event     int
	Valuation int
	Seed      int64
	Cmp       string
	Known     string
	Program   []string
	Behaviour json.RawMessage
}

type Summary struct {
	Behaviours, Runs, Events        int64
	Elements, Grads, Skipped, Calls int64
	Violations                      int
	KnownFindings                   map[string]int
	KnownExamples                   map[string]string
	Replay                          []string
	Messages                        []string
	Samples                         []any
	Ops                             map[string]int64
}

func toSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Split(s, ",") {
		if k != "" {
			m[k] = true
		}
	}
	return m
}

func program(b *Behaviour) []string {
	var out []string
	for i := range b.Ev {
		s := b.Ev[i].describe()
		if (b.Ev[i].T == "op" || b.Ev[i].T == "upd") && !b.Ev[i].OK {
			s += "  -> error"
		}
		out = append(out, s)
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness replay|rerun|...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		replayMain(os.Args[2:])
	case "rerun":
		rerunMain(os.Args[2:])
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown subcommand")
		os.Exit(2)
	}
}

var subcommands = map[string]func([]string){}

func rerunMain(args []string) {
	for _, p := range args {
		if p == "-v" {
			debugDump = true
			continue
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rf ReplayFile
		if err := json.Unmarshal(raw, &rf); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		b, err := parseBehaviour(string(rf.Behaviour))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, l := range program(b) {
			fmt.Println("  ", l)
		}
		mm := runBehaviour(b, rf.Valuation, rf.Seed, toSet(rf.Cmp), nil, &Stats{})
		for _, m := range mm {
			fmt.Printf("%s at event %d: %s\n", m.Kind, m.Event, m.Msg)
		}
		if len(mm) > 0 {
			os.Exit(1)
		}
		fmt.Println("no mismatch")
	}
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	cmpS := fs.String("cmp", "value,shape,grad,gradnil,gradshape,err,bperr,panic,immut", "what to compare")
	vals := fs.Int("vals", 3, "valuations per behaviour")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "", "directory for replay files")
	knownS := fs.String("known", "", "known findings")
	limit := fs.Duration("limit", 60*time.Second, "time limit per behaviour")
	max := fs.Int("max", 5, "violations to report")
	fs.Parse(args)
	cmp := toSet(*cmpS)
	known := toSet(*knownS)

	sum := &Summary{KnownFindings: map[string]int{}, KnownExamples: map[string]string{}, Ops: map[string]int64{}}
	type job struct {
		n   int64
		raw string
	}
	debug.SetMemoryLimit(5 << 30)
	jobs := make(chan job, 24)
	var mu sync.Mutex
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	var stop atomic.Bool
	report := func(b *Behaviour, vi int, m Mismatch) {
		mu.Lock()
		defer mu.Unlock()
		if m.Known != "" {
			sum.KnownFindings[m.Known]++
			if _, ok := sum.KnownExamples[m.Known]; !ok {
				sum.KnownExamples[m.Known] = strings.Join(program(b), "; ") + ": " + m.Msg
			}
			return
		}
		sum.Violations++
		if sum.Violations > *max {
			stop.Store(true)
			return
		}
		cs := *cmpS
		if strings.HasPrefix(m.Msg, "first looked at") {
			cs += ",late"
		}
		rf := ReplayFile{Property: *prop, Case: b.Case, Kind: m.Kind, Message: m.Msg, Event: m.Event, Valuation: vi,
			Seed: *seed, Cmp: cs, Known: *knownS, Program: program(b), Behaviour: json.RawMessage(b.Raw)}
		raw, _ := json.MarshalIndent(rf, "", " ")
		p := filepath.Join(*out, fmt.Sprintf("violation_%d.json", sum.Violations))
		os.MkdirAll(*out, 0o755)
		os.WriteFile(p, raw, 0o644)
		sum.Replay = append(sum.Replay, p)
		sum.Messages = append(sum.Messages, fmt.Sprintf("[%s] case %s: %s", m.Kind, b.Case, m.Msg))
	}
	cmpLate := toSet(*cmpS + ",late")
	finish := func() {
		raw, _ := json.Marshal(sum)
		fmt.Println("SUMMARY " + string(raw))
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := &Stats{}
			ops := map[string]int64{}
			for j := range jobs {
				if stop.Load() {
					continue
				}
				b, err := parseBehaviour(j.raw)
				if err != nil {
					fmt.Fprintln(os.Stderr, "bad behaviour:", err)
					os.Exit(2)
				}
				if j.n == 0 || j.n == 17 || j.n == 301 || j.n == 999 {
					mu.Lock()
					sum.Samples = append(sum.Samples, map[string]any{"case": json.RawMessage(b.Case), "program": program(b)})
					mu.Unlock()
				}
				runs := *vals
				if lateOK(b) {
					runs++
				}
				for k := 0; k < runs; k++ {
					vi, cmp := k, cmp
					if k == *vals {
						vi, cmp = min(1, *vals-1), cmpLate
					}
					done := make(chan []Mismatch, 1)
					go func() { done <- runBehaviour(b, vi, *seed, cmp, known, st) }()
					var mm []Mismatch
					select {
					case mm = <-done:
					case <-time.After(*limit):
						report(b, vi, Mismatch{Kind: "hang", Msg: fmt.Sprintf("the behaviour did not finish within %v", *limit)})
						mu.Lock()
						finish()
						os.Exit(0)
					}
					atomic.AddInt64(&sum.Runs, 1)
					atomic.AddInt64(&sum.Events, int64(len(b.Ev)))
					bad := false
					seen := map[string]bool{}
					for _, m := range mm {
						if m.Known != "" && seen[m.Known] {
							continue
						}
						seen[m.Known] = true
						report(b, vi, m)
						if m.Known == "" {
							bad = true
							break
						}
					}
					if bad {
						break
					}
				}
				for i := range b.Ev {
					k := b.Ev[i].T
					if b.Ev[i].Op != "" {
						k = b.Ev[i].Op
					}
					ops[k]++
				}
			}
			mu.Lock()
			sum.Elements += st.Elements
			sum.Grads += st.Grads
			sum.Skipped += st.Skipped
			sum.Calls += st.Calls
			for k, v := range ops {
				sum.Ops[k] += v
			}
			mu.Unlock()
		}()
	}
	for _, f := range fs.Args() {
		err := tlcLines(f, func(raw string) error {
			jobs <- job{sum.Behaviours, raw}
			sum.Behaviours++
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "reading behaviours:", err)
			os.Exit(2)
		}
	}
	close(jobs)
	wg.Wait()
	sort.Strings(sum.Replay)
	finish()
}
