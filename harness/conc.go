package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Runs the concurrent programs of Gen_C20 with real goroutines:
//   harness conc -cur FILE -out DIR -budget 30s -shard 0 -of 4 FILE...
// The set-up runs first, then every goroutine runs its own requests; afterwards the results are
// compared bit by bit with the same programs run one after the other, and judged against the
// specification's events.  Built with -race, a data race ends the process (GORACE exitcode); FILE
// holds the behaviour that was running.

func init() { subcommands["conc"] = concMain }

type concProg struct {
	setup []int
	thr   map[int][]int
	order []int
}

func splitThreads(b *Behaviour) *concProg {
	p := &concProg{thr: map[int][]int{}}
	g := -1
	for i := range b.Ev {
		e := &b.Ev[i]
		if e.T == "thr" {
			g = e.G
			continue
		}
		if g <= 0 {
			p.setup = append(p.setup, i)
			continue
		}
		if p.thr[g] == nil {
			p.order = append(p.order, g)
		}
		p.thr[g] = append(p.thr[g], i)
	}
	return p
}

var concCmp = toSet("value,shape,grad,gradnil,gradshape,err,bperr,panic,hang")

func newWorld(b *Behaviour, vi int, seed int64) *World {
	return &World{b: b, vi: vi, seed: seed, cmp: concCmp, adj: map[[2]int][]V{}, fc: map[int]*fcLayer{}, st: &Stats{},
		ts: make([]tensor.Tensor, 1), sh: make([][]int, 1), vals: make([][]float64, 1), expG: make([][]V, 1),
		lastG: make([]tensor.Tensor, 1), lastV: make([][]float64, 1), sgds: map[string]any{}, comps: map[string]any{}}
}

// run executes events i of the behaviour; between two of them it may yield.
func (w *World) run(idx []int, yield func()) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			w.mm = append(w.mm, Mismatch{Kind: "panic", Event: w.ev, Msg: w.b.Ev[w.ev].describe() + ": panic: " + s})
		}
	}()
	for _, i := range idx {
		w.ev = i
		if yield != nil {
			yield()
		}
		if !w.step(&w.b.Ev[i]) || len(w.mm) > 0 {
			return
		}
	}
}

// fork makes the world of one goroutine.
func (w *World) fork(shared map[string]any) *World {
	g := newWorld(w.b, w.vi, w.seed)
	g.fast = true
	g.ts = append([]tensor.Tensor(nil), w.ts...)
	g.slot = append([]*tensor.Tensor(nil), w.slot...)
	for k, v := range w.fc {
		g.fc[k] = v
	}
	for k, v := range shared {
		g.comps[k] = v
	}
	return g
}

func makes(e *Event) []int {
	switch e.T {
	case "leaf", "grad":
		return []int{e.ID}
	case "op", "fcfwd", "upd":
		if e.OK {
			return []int{e.ID}
		}
	case "fcnew":
		return []int{e.W, e.B}
	}
	return nil
}

func bitsOf(t tensor.Tensor) (sh []int, v []float64, err error) {
	sh = t.Shape()
	v, err = readAll(t, sh)
	return
}

func sameBits(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return i
		}
	}
	return -1
}

// diff compares tensor n of two worlds, with its gradient; tol 0: bit by bit.
func diff(a, b tensor.Tensor, tol float64) string {
	one := func(what string, a, b tensor.Tensor) string {
		if (a == nil) != (b == nil) {
			return fmt.Sprintf("%s nil=%v concurrently, nil=%v sequentially", what, a == nil, b == nil)
		}
		if a == nil {
			return ""
		}
		as, av, ae := bitsOf(a)
		bs, bv, be := bitsOf(b)
		if ae != nil || be != nil {
			return fmt.Sprintf("%s: reading: %v, %v", what, ae, be)
		}
		if !eqInts(as, bs) {
			return fmt.Sprintf("%s has shape %v concurrently, %v sequentially", what, as, bs)
		}
		if tol > 0 {
			for i := range av {
				if math.Abs(av[i]-bv[i]) > tol*(1+math.Abs(bv[i])) {
					return fmt.Sprintf("%s: element %d is %v concurrently, %v sequentially", what, i, av[i], bv[i])
				}
			}
			return ""
		}
		if i := sameBits(av, bv); i >= 0 {
			return fmt.Sprintf("%s: element %d is %v concurrently, %v sequentially", what, i, av[i], bv[i])
		}
		return ""
	}
	if s := one("value", a, b); s != "" || a == nil {
		return s
	}
	return one("gradient", a.Gradient(), b.Gradient())
}

type concRun struct {
	b     *Behaviour
	p     *concProg
	elems int64
	grads int64
	calls int64
	comps map[string]any // component objects of a sequential run
}

func (c *concRun) setup(vi int, seed int64, fast bool) *World {
	w := newWorld(c.b, vi, seed)
	w.fast = fast
	w.run(c.p.setup, nil)
	return w
}

// round runs the goroutines once; it returns a violation or "".
func (c *concRun) round(vi int, seed int64, rnd *rand.Rand, share bool) (kind, msg string) {
	b, p := c.b, c.p
	s := c.setup(vi, seed, true)
	if len(s.mm) > 0 {
		return s.mm[0].Kind, s.mm[0].Msg
	}
	var before []([]float64)
	for n := 1; n < len(s.ts); n++ {
		_, v, _ := bitsOf(s.ts[n])
		before = append(before, v)
	}
	var shared map[string]any
	if share {
		shared = c.comps
	}
	ws := map[int]*World{}
	var started atomic.Int64
	var wg sync.WaitGroup
	go_ := make(chan struct{})
	for _, g := range p.order {
		w := s.fork(shared)
		ws[g] = w
		wg.Add(1)
		style, r := rnd.Intn(4), rand.New(rand.NewSource(rnd.Int63()))
		go func() {
			defer wg.Done()
			<-go_
			started.Add(1)
			for k := 0; k < 200 && started.Load() < int64(len(p.order)); k++ {
				runtime.Gosched()
			}
			w.run(p.thr[g], func() {
				switch style {
				case 1:
					runtime.Gosched()
				case 2:
					for k := r.Intn(4); k > 0; k-- {
						runtime.Gosched()
					}
				case 3:
					if r.Intn(6) == 0 {
						time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
					}
				}
			})
		}()
	}
	close(go_)
	wg.Wait()
	for _, g := range p.order {
		c.calls += ws[g].st.Calls
		if m := ws[g].mm; len(m) > 0 {
			return m[0].Kind, fmt.Sprintf("goroutine %d: %s", g, m[0].Msg)
		}
	}
	for n := 1; n < len(s.ts); n++ {
		_, v, _ := bitsOf(s.ts[n])
		if i := sameBits(before[n-1], v); i >= 0 {
			return "value", fmt.Sprintf("shared tensor t%d: element %d became %v, was %v", n, i, v[i], before[n-1][i])
		}
	}
	// the same programs one after the other
	seq := func() map[int]*World {
		out := map[int]*World{}
		for _, g := range p.order {
			w := s.fork(nil)
			w.run(p.thr[g], nil)
			out[g] = w
			for k, v := range w.comps {
				if c.comps[k] == nil {
					c.comps[k] = v
				}
			}
		}
		return out
	}
	q := seq()
	compare := func(x, y map[int]*World, tol float64) string {
		for _, g := range p.order {
			random := false
			for _, i := range p.thr[g] {
				random = random || b.Ev[i].T == "fcnew" && b.Ev[i].Init != "custom"
			}
			if random {
				continue
			}
			if tol == 0 {
				if l, m := x[g].notes, y[g].notes; strings.Join(l, "\n") != strings.Join(m, "\n") {
					return fmt.Sprintf("goroutine %d: %v concurrently, %v sequentially", g, l, m)
				}
			}
			for _, i := range p.thr[g] {
				for _, n := range makes(&b.Ev[i]) {
					c.elems++
					if d := diff(x[g].ts[n], y[g].ts[n], tol); d != "" {
						return fmt.Sprintf("goroutine %d: %s: %s", g, b.Ev[i].describe(), d)
					}
				}
			}
		}
		return ""
	}
	if d := compare(ws, q, 0); d != "" {
		stable := true
		for k := 0; k < 6; k++ {
			stable = stable && compare(q, seq(), 0) == ""
		}
		if !stable { // not reproducible sequentially either: only up to rounding
			d = compare(ws, q, 1e-9)
		}
		if d != "" {
			return "value", d
		}
	}
	// the specification's judgement of what the goroutines obtained
	j := newWorld(b, vi, seed)
	j.given = append([]tensor.Tensor(nil), s.ts...)
	for _, g := range p.order {
		for _, i := range p.thr[g] {
			for _, n := range makes(&b.Ev[i]) {
				for len(j.given) <= n {
					j.given = append(j.given, nil)
				}
				j.given[n] = ws[g].ts[n]
			}
		}
	}
	all := make([]int, len(b.Ev))
	for i := range all {
		all[i] = i
	}
	j.run(all, nil)
	if len(j.mm) == 0 {
		j.checkGrads("all goroutines")
	}
	c.elems += j.st.Elements
	c.grads += j.st.Grads
	if len(j.mm) > 0 {
		return j.mm[0].Kind, "after concurrent execution: " + j.mm[0].Msg
	}
	return "", ""
}

// pure selects, of one goroutine's requests, those that make or read tensors from tensors that
// exist without any of the requests left out: they can be repeated any number of times.
func (c *concRun) pure(g int, n0 int, slots map[int]bool) (idx []int) {
	have := map[int]bool{}
	for n := 1; n < n0; n++ {
		have[n] = true
	}
	for _, i := range c.p.thr[g] {
		e := &c.b.Ev[i]
		ok := true
		switch e.T {
		case "leaf":
			ok = e.Via == "TensorOf" || e.Via == ""
		case "op":
			for _, n := range e.In {
				ok = ok && have[n]
			}
		case "scalar", "at":
			ok = have[e.N]
		case "equals":
			ok = have[e.N] && have[e.M]
		case "fcfwd":
			ok = have[e.X] && slots[e.S]
		default:
			ok = false
		}
		if !ok {
			continue
		}
		idx = append(idx, i)
		for _, n := range makes(e) {
			have[n] = true
		}
	}
	return
}

// hammer runs the repeatable requests of every goroutine many times at once, on two goroutines
// each: every repetition has to give what one sequential run gives.
func (c *concRun) hammer(vi int, seed int64, times int) (kind, msg string) {
	s := c.setup(vi, seed, true)
	if len(s.mm) > 0 {
		return s.mm[0].Kind, s.mm[0].Msg
	}
	for i := range c.b.Ev {
		if e := &c.b.Ev[i]; e.T == "set" || e.T == "fcnew" && e.Init != "custom" {
			return "", ""
		}
	}
	want := map[int]*World{}
	list := map[int][]int{}
	for _, g := range c.p.order {
		slots := map[int]bool{}
		for k := range s.fc {
			slots[k] = true
		}
		list[g] = c.pure(g, len(s.ts), slots)
		w := s.fork(c.comps)
		w.run(list[g], nil)
		want[g] = w
		for k, v := range w.comps {
			if c.comps[k] == nil {
				c.comps[k] = v
			}
		}
		if len(w.mm) > 0 {
			return w.mm[0].Kind, w.mm[0].Msg
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	go_ := make(chan struct{})
	for copy_ := 0; copy_ < 2; copy_++ {
		for _, g := range c.p.order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go_
				for k := 0; k < times; k++ {
					w := s.fork(c.comps)
					w.run(list[g], nil)
					k, m := "", ""
					if len(w.mm) > 0 {
						k, m = w.mm[0].Kind, fmt.Sprintf("goroutine %d: %s", g, w.mm[0].Msg)
					} else if a, b := strings.Join(w.notes, "\n"), strings.Join(want[g].notes, "\n"); a != b {
						k, m = "value", fmt.Sprintf("goroutine %d: %v concurrently, %v sequentially", g, a, b)
						for r := 0; r < 6 && m != ""; r++ { // not reproducible sequentially either
							w := s.fork(c.comps)
							w.run(list[g], nil)
							if strings.Join(w.notes, "\n") != b {
								k, m = "", ""
							}
						}
					} else {
						for _, i := range list[g] {
							for _, n := range makes(&c.b.Ev[i]) {
								a, b := w.ts[n], want[g].ts[n]
								if a == nil || b == nil {
									continue
								}
								as, av, ae := bitsOf(a)
								bs, bv, be := bitsOf(b)
								same := ae == nil && be == nil && eqInts(as, bs) && len(av) == len(bv)
								for j := 0; same && j < len(av); j++ {
									same = sameBits(av[j:j+1], bv[j:j+1]) < 0 || math.Abs(av[j]-bv[j]) <= 1e-9*(1+math.Abs(bv[j]))
								}
								if !same {
									k, m = "value", fmt.Sprintf("goroutine %d: %s: %v %v concurrently, %v %v sequentially", g, c.b.Ev[i].describe(), as, clipv(av), bs, clipv(bv))
								}
							}
						}
					}
					mu.Lock()
					c.calls += w.st.Calls
					if m != "" && msg == "" {
						kind, msg = k, m
					}
					stop := msg != ""
					mu.Unlock()
					if stop {
						return
					}
				}
			}()
		}
	}
	close(go_)
	wg.Wait()
	return
}

func concMain(args []string) {
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	prop := fs.String("prop", "C20", "property")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "", "directory for replay files")
	cur := fs.String("cur", "", "file that holds the behaviour being run")
	budget := fs.Duration("budget", 30*time.Second, "time to spend")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	hammer := fs.Int("hammer", 0, "repeat the repeatable requests so often, every other round")
	rep := fs.String("replay", "", "run one replay file")
	limit := fs.Duration("limit", 60*time.Second, "time limit per behaviour")
	fs.Parse(args)
	var cold, warm []*Behaviour
	n := 0
	add := func(raw string, forced bool) error {
		b, err := parseBehaviour(raw)
		if err != nil {
			return err
		}
		var cs struct {
			K string
			V int
		}
		json.Unmarshal([]byte(b.Case), &cs)
		if cs.K == "cold" {
			if forced || cs.V%*of == *shard {
				cold = append(cold, b)
			}
			return nil
		}
		if cs.K == "il" && !forced {
			return nil
		}
		if n%*of == *shard {
			warm = append(warm, b)
		}
		n++
		return nil
	}
	if *rep != "" {
		raw, err := os.ReadFile(*rep)
		if err != nil {
			panic(err)
		}
		var rf ReplayFile
		if err := json.Unmarshal(raw, &rf); err != nil {
			panic(err)
		}
		if err := add(string(rf.Behaviour), true); err != nil {
			panic(err)
		}
	}
	for _, f := range fs.Args() {
		if err := tlcLines(f, func(raw string) error { return add(raw, false) }); err != nil {
			panic(err)
		}
	}
	rnd := rand.New(rand.NewSource(*seed*1000 + int64(*shard)))
	sum := &Summary{KnownFindings: map[string]int{}, KnownExamples: map[string]string{}, Ops: map[string]int64{}}
	finish := func() {
		raw, _ := json.Marshal(sum)
		fmt.Println("SUMMARY " + string(raw))
	}
	record := func(b *Behaviour, round int, kind, msg string) ReplayFile {
		return ReplayFile{Property: *prop, Case: b.Case, Kind: kind, Message: msg, Valuation: round, Seed: *seed, Cmp: "conc",
			Program: program(b), Behaviour: json.RawMessage(b.Raw)}
	}
	report := func(b *Behaviour, round int, kind, msg string) {
		sum.Violations++
		raw, _ := json.MarshalIndent(record(b, round, kind, msg), "", " ")
		p := filepath.Join(*out, fmt.Sprintf("conc_%d_%d.json", *shard, sum.Violations))
		os.MkdirAll(*out, 0o755)
		os.WriteFile(p, raw, 0o644)
		sum.Replay = append(sum.Replay, p)
		sum.Messages = append(sum.Messages, fmt.Sprintf("[%s] concurrent, case %s: %s", kind, b.Case, msg))
	}
	t0 := time.Now()
	procs := []int{4, 8, 2, 3, 1, 6}
	runs := map[*Behaviour]*concRun{}
	all := append(append([]*Behaviour(nil), cold...), warm...)
	sum.Behaviours = int64(len(all))
	for round := 0; round == 0 || time.Since(t0) < *budget; round++ {
		runtime.GOMAXPROCS(procs[round%len(procs)])
		for _, b := range all {
			if round > 0 && time.Since(t0) > *budget {
				break
			}
			c := runs[b]
			if c == nil {
				c = &concRun{b: b, p: splitThreads(b), comps: map[string]any{}}
				runs[b] = c
				for i := range b.Ev {
					k := b.Ev[i].T
					if b.Ev[i].Op != "" {
						k = b.Ev[i].Op
					}
					sum.Ops[k]++
				}
			}
			if *cur != "" {
				raw, _ := json.MarshalIndent(record(b, round, "race", "crashed while running concurrently"), "", " ")
				os.WriteFile(*cur, raw, 0o644)
			}
			done := make(chan [2]string, 1)
			go func() {
				var k, m string
				if *hammer > 0 && round%2 == 1 {
					k, m = c.hammer(round%3, *seed, *hammer)
				} else {
					k, m = c.round(round%3, *seed, rnd, round%2 == 1)
				}
				done <- [2]string{k, m}
			}()
			select {
			case r := <-done:
				if r[0] != "" {
					report(b, round, r[0], r[1])
				}
			case <-time.After(*limit):
				report(b, round, "hang", fmt.Sprintf("the goroutines did not finish within %v", *limit))
				finish()
				os.Exit(0)
			}
			sum.Runs++
			if sum.Violations >= 3 {
				finish()
				os.Exit(0)
			}
		}
	}
	for _, c := range runs {
		sum.Elements += c.elems
		sum.Grads += c.grads
		sum.Events += c.calls
	}
	if *cur != "" {
		os.Remove(*cur)
	}
	finish()
}
