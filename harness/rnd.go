package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Executes the schedule of Gen_C18 and records, for every call, what Trace_C18 judges.

func init() { subcommands["rndtrace"] = rndMain }

type rndConf struct {
	f, kind  string
	args     []string
	tr       bool
	lo, hi   float64 // or mean, standard deviation
	ex, stat bool
	obj      initializer
	frozen   bool      // the calls are concurrent: obj is not replaced
	last     []float64 // unit values of the previous result
	seen     map[float64]bool
	held     tensor.Tensor // the previous result itself, and its elements
	heldV    []float64
	mirror   map[float64]bool
}

func dec(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func (c *rndConf) a(i int) float64 { return dec(c.args[i]) }
func (c *rndConf) n(i int) int {
	v, err := strconv.Atoi(c.args[i])
	if err != nil {
		panic(err)
	}
	return v
}

// the initializer object, or nil for the plain constructors
func (c *rndConf) make() (in initializer, err error) {
	switch c.f {
	case "InitFull":
		return initializers.NewFull(&initializers.FullConfig{Value: c.a(0)}), nil
	case "InitFullNil":
		return initializers.NewFull(nil), nil
	case "InitUniform":
		return initializers.NewUniform(&initializers.UniformConfig{Lower: c.a(0), Upper: c.a(1)})
	case "InitUniformNil":
		return initializers.NewUniform(nil)
	case "InitNormal":
		return initializers.NewNormal(&initializers.NormalConfig{Mean: c.a(0), StdDev: c.a(1)})
	case "InitNormalNil":
		return initializers.NewNormal(nil)
	case "InitHeU":
		return initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: c.n(0)})
	case "InitHeN":
		return initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: c.n(0)})
	case "InitXavU":
		return initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: c.n(0), FanOut: c.n(1)})
	case "InitXavN":
		return initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: c.n(0), FanOut: c.n(1)})
	}
	return nil, nil
}

func (c *rndConf) call(sh []int, fresh bool) (t tensor.Tensor, err error) {
	switch c.f {
	case "RandU":
		return tensor.RandU(sh, c.a(0), c.a(1), &tensor.Config{Device: tensor.CPU, GradTrack: c.tr})
	case "RandUNil":
		return tensor.RandU(sh, c.a(0), c.a(1), nil)
	case "RandN":
		return tensor.RandN(sh, c.a(0), c.a(1), &tensor.Config{Device: tensor.CPU, GradTrack: c.tr})
	case "RandNNil":
		return tensor.RandN(sh, c.a(0), c.a(1), nil)
	}
	obj := c.obj
	if obj == nil || fresh {
		if obj, err = c.make(); err != nil {
			return
		}
		if !c.frozen {
			c.obj = obj
		}
	}
	return obj.Init(sh)
}

// position of v in the distribution as a number in [0,1), and its standardised value
func (c *rndConf) unit(v float64) (u, z float64) {
	if c.kind == "norm" {
		z = (v - c.lo) / c.hi
		return 0.5 * math.Erfc(-z/math.Sqrt2), z
	}
	u = (v/2 - c.lo/2) / (c.hi/2 - c.lo/2)
	return u, (u - 0.5) * math.Sqrt(12)
}

func (c *rndConf) outside(v float64) bool {
	switch c.kind {
	case "const":
		return !(math.Float64bits(v) == math.Float64bits(c.lo) || math.IsNaN(v) && math.IsNaN(c.lo))
	case "norm":
		return math.IsNaN(v) || math.IsInf(v, 0)
	}
	if c.ex {
		return !(c.lo <= v && v < c.hi)
	}
	return !(math.Abs(v) <= c.hi*(1+1e-12))
}

func class(u float64, n int) int {
	k := int(math.Floor(u * float64(n)))
	return min(max(k, 0), n-1)
}

type rndEvent struct {
	K      int   `json:"k"`
	Sh     []int `json:"sh"`
	Tr     bool  `json:"tr"`
	Err    bool  `json:"err"`
	BadRej bool  `json:"badrej"`
	New    bool  `json:"new"`  // a tensor object not handed out before, without a gradient, computing like a new one
	Kept   bool  `json:"kept"` // the previous result of the configuration is what it was
	N      int   `json:"n"`
	Oos    int   `json:"oos"`
	Hist   []int `json:"hist"`
	S1     int   `json:"s1"`
	S2     int   `json:"s2"`
	Lag    []int `json:"lag"`
	Cross  []int `json:"cross"`
	Prev   []int `json:"prev"`
	Pos    []int `json:"pos"`
	Dup    int   `json:"dup"`
	Mir    int   `json:"mir"`
	Tail   int   `json:"tail"`
}

func hundredths(x float64) int {
	if !(math.Abs(x) < 20000) {
		x = math.Copysign(20000, x)
		if math.IsNaN(x) {
			x = 20000
		}
	}
	return int(math.Round(100 * x))
}

func rndMain(args []string) {
	fs := flag.NewFlagSet("rndtrace", flag.ExitOnError)
	out := fs.String("out", "", "trace file")
	par := fs.Int("par", 1, "goroutines that make the calls")
	fs.Parse(args)
	confs := map[int]*rndConf{}
	fh, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(fh)
	type call struct {
		C          int
		Sh         []int
		Fresh, Bad bool
	}
	calls := map[int]call{}
	err = tlcLines(fs.Arg(0), func(raw string) error {
		var m struct {
			Cfg  int
			Conf map[string]any
			K    int
			Call call
		}
		var in string
		if err := json.Unmarshal([]byte(raw), &in); err != nil {
			return err
		}
		if err := json.Unmarshal([]byte(in), &m); err != nil {
			return err
		}
		if m.Cfg > 0 {
			c := &rndConf{f: getStr(m.Conf, "f"), kind: getStr(m.Conf, "kind"), tr: getBool(m.Conf, "tr"),
				ex: getBool(m.Conf, "ex"), stat: getBool(m.Conf, "stat"), seen: map[float64]bool{}, mirror: map[float64]bool{}}
			for _, x := range asSlice(m.Conf["args"]) {
				c.args = append(c.args, x.(string))
			}
			p1 := asSlice(m.Conf["p1"])
			if p1[0] == "c" {
				c.lo, c.hi = dec(p1[1].(string)), dec(asSlice(m.Conf["p2"])[1].(string))
			} else {
				c.lo, c.hi = parseTerm(m.Conf["p1"]).Eval(nil).v, parseTerm(m.Conf["p2"]).Eval(nil).v
			}
			confs[m.Cfg] = c
		} else {
			calls[m.K] = m.Call
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	sum := &Summary{Behaviours: 1, Ops: map[string]int64{}}
	// the calls themselves
	type result struct {
		sh        []int
		vals      []float64
		tr        bool
		err, bad  bool
		new, kept bool
	}
	var mu sync.Mutex
	objs := map[tensor.Tensor]bool{}
	res := make([]result, len(calls)+1)
	draw := func(k int) {
		cl := calls[k]
		c := confs[cl.C]
		r := &res[k]
		defer func() {
			if x := recover(); x != nil {
				r.err = true
			}
		}()
		if cl.Bad {
			sh := append(append([]int{}, cl.Sh...), -(k % 2))
			_, err := c.call(sh, cl.Fresh)
			r.bad = err != nil
		}
		t, err := c.call(append([]int{}, cl.Sh...), cl.Fresh)
		if err != nil {
			r.err = true
			return
		}
		r.sh = append([]int{}, t.Shape()...)
		if r.vals, err = readAll(t, r.sh); err != nil {
			r.err = true
			return
		}
		mu.Lock()
		r.new = t.Gradient() == nil && !objs[t]
		if len(r.vals) <= 64 {
			objs[t] = true
		}
		held, heldV := c.held, c.heldV
		c.held, c.heldV = t, r.vals
		mu.Unlock()
		r.kept = true
		if held != nil {
			if now, err := readAll(held, held.Shape()); err != nil || sameBits(now, heldV) >= 0 {
				r.kept = false
			}
		}
		p := t.Scale(1)
		if tensor.BackPropagate(p) != nil {
			r.err = true
			return
		}
		r.tr = t.Gradient() != nil
		if (p.Gradient() != nil) != r.tr {
			r.new = false
		}
	}
	if *par > 1 {
		for _, c := range confs {
			c.frozen = true
			if c.obj, err = c.make(); err != nil {
				c.obj = nil
			}
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for g := 0; g < *par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := int(next.Add(1)); k <= len(calls); k = int(next.Add(1)) {
					draw(k)
				}
			}()
		}
		wg.Wait()
	}
	// what the trace specification judges
	var prev []float64
	var elems int64
	for k := 1; k <= len(calls); k++ {
		cl := calls[k]
		c := confs[cl.C]
		e := rndEvent{K: k, Sh: []int{}, Hist: make([]int, 16), Lag: make([]int, 16), Cross: make([]int, 16),
			Prev: make([]int, 16), Pos: make([]int, 48)}
		var us []float64
		if *par <= 1 {
			draw(k)
		}
		r := res[k]
		res[k] = result{}
		e.BadRej = r.bad
		e.Err = r.err
		e.New, e.Kept = r.new, r.kept
		func() {
			if r.err {
				return
			}
			vals := r.vals
			e.Sh = append(e.Sh, r.sh...)
			e.Tr = r.tr
			e.N = len(vals)
			elems += int64(len(vals))
			var s1, s2 float64
			for j, v := range vals {
				if c.outside(v) {
					e.Oos++
					continue
				}
				if !c.stat {
					continue
				}
				u, z := c.unit(v)
				us = append(us, u)
				e.Hist[class(u, 16)]++
				s1 += z
				s2 += z*z - 1
				if math.Abs(z) > 3 {
					e.Tail++
				}
				e.Pos[4*(j%12)+class(u, 4)]++
				if c.seen[v] {
					e.Dup++
				}
				c.seen[v] = true
				mid := c.lo
				if c.kind == "unif" {
					mid = c.lo/2 + c.hi/2
				}
				if d := math.Abs(v - mid); c.mirror[d] {
					e.Mir++
				} else {
					c.mirror[d] = true
				}
			}
			e.S1, e.S2 = hundredths(s1), hundredths(s2)
			pairs := func(dst []int, a, b []float64) {
				for j := 0; j < len(a) && j < len(b); j++ {
					dst[4*class(a[j], 4)+class(b[j], 4)]++
				}
			}
			if len(us) > 1 {
				pairs(e.Lag, us, us[1:])
			}
			pairs(e.Cross, c.last, us)
			pairs(e.Prev, prev, us)
		}()
		if c.stat && !e.Err {
			c.last, prev = us, us
		}
		sum.Ops[c.f]++
		if err := enc.Encode(e); err != nil {
			panic(err)
		}
	}
	fh.Close()
	sum.Elements = elems
	sum.Events = int64(len(calls))
	js, _ := json.Marshal(sum)
	fmt.Println("SUMMARY " + string(js))
}
