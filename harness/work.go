package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Work of back-propagation on deep shared graphs: allocations made by BackPropagate,
// per link of the graph (the specification's measure), at several depths of the same
// pattern.  Allocation counts are deterministic up to a few runtime objects.

func init() { subcommands["work"] = workMain }

func mallocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Mallocs
}

func workMain(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "", "directory for replay files")
	factor := fs.Float64("factor", 4.5, "allowed growth of the work per link when the depth doubles")
	fs.Parse(args)
	debug.SetGCPercent(-1)
	type point struct {
		d     int
		links int
		alloc float64
		raw   string
		prog  []string
	}
	pts := map[int][]point{}
	sum := &Summary{KnownFindings: map[string]int{}, KnownExamples: map[string]string{}, Ops: map[string]int64{}}
	for _, f := range fs.Args() {
		err := tlcLines(f, func(raw string) error {
			var m struct {
				Case struct {
					K    string
					P, D int
				}
			}
			if !strings.Contains(raw, "deep") {
				return nil
			}
			b, err := parseBehaviour(raw)
			if err != nil {
				return err
			}
			if err := json.Unmarshal([]byte(b.Case), &m.Case); err != nil {
				return err
			}
			if m.Case.K != "deep" {
				return nil
			}
			w := &World{b: b, seed: *seed, cmp: map[string]bool{}, adj: map[[2]int][]V{}, fc: map[int]*fcLayer{}, st: &Stats{},
				ts: make([]tensor.Tensor, 1), sh: make([][]int, 1), vals: make([][]float64, 1), expG: make([][]V, 1),
				lastG: make([]tensor.Tensor, 1), lastV: make([][]float64, 1), sgds: map[string]any{}, comps: map[string]any{}}
			for i := range b.Ev {
				e := &b.Ev[i]
				w.ev = i
				if e.T != "bp" {
					if !w.step(e) {
						return fmt.Errorf("%s: event %d failed", b.Case, i)
					}
					continue
				}
				a := mallocs()
				if err := tensor.BackPropagate(w.ts[e.Root]); err != nil {
					return err
				}
				pts[m.Case.P] = append(pts[m.Case.P], point{m.Case.D, e.Links, float64(mallocs() - a), raw, program(b)})
			}
			sum.Behaviours++
			sum.Runs++
			runtime.GC()
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if len(pts) == 0 {
		fmt.Fprintln(os.Stderr, "no deep graph to measure")
		os.Exit(2)
	}
	for p, ps := range pts {
		sort.Slice(ps, func(i, j int) bool { return ps[i].d < ps[j].d })
		lo, hi := ps[0], ps[len(ps)-1]
		growth := (hi.alloc / float64(hi.links)) / (lo.alloc / float64(lo.links))
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, map[string]any{"work_pattern": p, "depths": []int{lo.d, hi.d}, "links": []int{lo.links, hi.links}, "allocations": []float64{lo.alloc, hi.alloc}})
		}
		if growth > *factor {
			sum.Violations++
			msg := fmt.Sprintf("pattern %d: BackPropagate made %.0f allocations over %d links at depth %d but %.0f over %d at depth %d", p, lo.alloc, lo.links, lo.d, hi.alloc, hi.links, hi.d)
			rf := ReplayFile{Property: *prop, Case: fmt.Sprint(p), Kind: "work", Message: msg, Program: hi.prog, Behaviour: json.RawMessage(hi.raw)}
			raw, _ := json.MarshalIndent(rf, "", " ")
			os.MkdirAll(*out, 0o755)
			path := filepath.Join(*out, fmt.Sprintf("work_%d.json", p))
			os.WriteFile(path, raw, 0o644)
			sum.Replay = append(sum.Replay, path)
			sum.Messages = append(sum.Messages, "[work] "+msg)
		}
	}
	raw, _ := json.Marshal(sum)
	fmt.Println("SUMMARY " + string(raw))
}
