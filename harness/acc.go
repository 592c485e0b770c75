package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// The accuracy metric (spec/Accuracy.tla).

var labels = []string{"0", "-0", "1", "1.0000000001", "-1", "1e300", "NaN", "+Inf", "-Inf", "2", "3.5", "1e-100", "0.1", "0.30000000000000004", "-1e300", "7",
	"5", "5.000000000000001", "1e-130", "3e-130", "1e-200", "-1e-200", "1000000000000000", "1000000000000001", "123456.789", "123456.78900000002", "4e-239", "9e-239"}

func label(i int) float64 {
	v, err := strconv.ParseFloat(labels[i-1], 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if labels[i-1] == "-0" {
		return math.Copysign(0, -1)
	}
	return v
}

// vector makes a rank-1 tensor of the values in one of several ways.
func vector(v []float64, how int) (tensor.Tensor, error) {
	c := append([]float64(nil), v...)
	switch how % 6 {
	case 1: // tracked
		return tensor.TensorOf(c, conf(true))
	case 2: // part of a longer one
		t, err := tensor.TensorOf(append(append([]float64{9, 9}, c...), 9), nil)
		if err != nil {
			return nil, err
		}
		return t.Slice([]tensor.Range{{From: 2, To: 2 + len(c)}})
	case 3: // a column
		t, err := tensor.TensorOf(c, nil)
		if err != nil {
			return nil, err
		}
		if t, err = t.UnSqueeze(1); err != nil {
			return nil, err
		}
		return t.Squeeze(1)
	case 4:
		t, err := tensor.TensorOf([][]float64{c}, conf(true))
		if err != nil {
			return nil, err
		}
		return t.Flatten(0)
	case 5: // computed and spent
		t, err := tensor.TensorOf(c, conf(true))
		if err != nil {
			return nil, err
		}
		y := t.Scale(1)
		if err := tensor.BackPropagate(y); err != nil {
			return nil, err
		}
		return y, nil
	}
	return tensor.TensorOf(c, nil)
}

func accCall(a *metrics.Accuracy, kind string, p, t []float64, how int) error {
	v := func(x []float64, h int) tensor.Tensor {
		r, err := vector(x, h)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return r
	}
	must := func(r tensor.Tensor, err error) tensor.Tensor {
		if err != nil {
			panic("harness: " + err.Error())
		}
		return r
	}
	vp, vt := v(p, how), v(t, how/7)
	switch kind {
	case "ok":
		return a.Accumulate(vp, vt)
	case "nilnil":
		return a.Accumulate(nil, nil)
	case "nilp":
		return a.Accumulate(nil, vt)
	case "nilt":
		return a.Accumulate(vp, nil)
	case "rank0":
		return a.Accumulate(must(tensor.TensorOf(p[0], nil)), must(tensor.TensorOf(p[0], nil)))
	case "rank2":
		return a.Accumulate(must(vp.UnSqueeze(how%2)), must(vt.UnSqueeze(how%2)))
	case "rankp":
		return a.Accumulate(must(vp.UnSqueeze(how%2)), vt)
	case "rankt":
		return a.Accumulate(vp, must(vt.UnSqueeze(how%2)))
	case "longer":
		return a.Accumulate(v(append(append([]float64{}, p...), t[0]), how), vt)
	case "shorter":
		return a.Accumulate(vp, v(append(append([]float64{}, t...), p[0]), how))
	case "one": // would broadcast
		return a.Accumulate(v(p[:1], how), v(append(append([]float64{}, p...), p[0]), how))
	case "row":
		return a.Accumulate(must(tensor.TensorOf([][]float64{p}, nil)), must(tensor.TensorOf([][]float64{p}, nil)))
	case "foreign":
		return a.Accumulate(vp, foreign{vt})
	}
	panic("harness: call kind " + kind)
}

func repeated(pat [][2]int, rep int) (p, t []float64) {
	for i := 0; i < rep; i++ {
		for _, q := range pat {
			p = append(p, label(q[0]))
			t = append(t, label(q[1]))
		}
	}
	return
}

func (w *World) acc(e *Event, what string) bool {
	a := w.comp(fmt.Sprint("acc", e.O), func() any { return metrics.NewAccuracy() }).(*metrics.Accuracy)
	p, t := repeated(e.Pat, e.Rep)
	err := accCall(a, e.Op, p, t, w.vi*5+w.ev*3+len(p))
	if (err == nil) != e.OK {
		w.fail("err", "%s: error %v, expected accepted=%v", what, err, e.OK)
		return false
	}
	if w.accWant == nil {
		w.accWant = map[int][2]int{}
	}
	w.accWant[e.O] = [2]int{e.Correct, e.Total}
	if w.vi%2 == 0 || w.ev == len(w.b.Ev)-1 {
		for o, want := range w.accWant {
			a := w.comps[fmt.Sprint("acc", o)].(*metrics.Accuracy)
			r, err := a.Result()
			exp := 0.
			if want[1] > 0 {
				exp = float64(want[0]) / float64(want[1])
			}
			w.st.Elements++
			if err != nil || math.IsNaN(r) || math.Abs(r-exp) > 4*ulp*exp || r < 0 || r > 1 {
				w.fail("value", "after %s: Result of metric %d is %v (%v), expected %d/%d", what, o, r, err, want[0], want[1])
				return false
			}
		}
	}
	return true
}

// acctrace records a history of the real metric for TLC to judge: one JSON line per call with
// the batch size, the number of equal positions, whether the call was rejected, and the result
// in millionths.
func init() {
	subcommands["acctrace"] = func(args []string) {
		fs := flag.NewFlagSet("acctrace", flag.ExitOnError)
		seed := fs.Int64("seed", 1, "")
		n := fs.Int("n", 200, "calls")
		out := fs.String("out", "", "")
		fs.Parse(args)
		r := rand.New(rand.NewSource(*seed))
		fh, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		enc := json.NewEncoder(fh)
		objs := []*metrics.Accuracy{metrics.NewAccuracy(), metrics.NewAccuracy()}
		var totals [2]int
		kinds := []string{"nilnil", "nilp", "nilt", "rank0", "rank2", "rankp", "rankt", "longer", "shorter", "one", "row", "foreign"}
		for i := 0; i < *n; i++ {
			o := r.Intn(2)
			size := 1 + r.Intn(1+r.Intn(20))
			if totals[o]+size > 2000 {
				objs[o], totals[o] = metrics.NewAccuracy(), 0
				enc.Encode(map[string]any{"new": true, "o": o + 1, "n": 0, "m": 0, "rej": false, "res": 0})
			}
			p, t := make([]float64, size), make([]float64, size)
			m := 0
			pm := r.Float64()
			for j := range p {
				p[j] = r.NormFloat64() * math.Pow(10, float64([]int{-4, -3, -2, -1, 0, 1, 2, 3, 4, -130, -60, 150}[r.Intn(12)]))
				t[j] = p[j]
				if r.Float64() > pm {
					if t[j] = math.Nextafter(p[j], math.Inf(1)); r.Intn(2) == 0 {
						t[j] += 1e-9 * math.Abs(p[j])
					}
				}
				if p[j] == t[j] {
					m++
				}
			}
			kind := "ok"
			if r.Intn(4) == 0 {
				kind = kinds[r.Intn(len(kinds))]
			}
			res := 0.
			rej := func() (rej bool) {
				defer func() {
					if x := recover(); x != nil {
						rej = true
						res = math.NaN()
					}
				}()
				if accCall(objs[o], kind, p, t, i) != nil {
					rej = true
				} else {
					totals[o] += size
				}
				res, err = objs[o].Result()
				return
			}()
			if math.IsNaN(res) || math.IsInf(res, 0) || err != nil || math.Abs(res) > 1000 {
				res = -1
			}
			if kind != "ok" { // the specification decides that these are rejected
				m = -1
			}
			enc.Encode(map[string]any{"new": false, "o": o + 1, "n": size, "m": m, "rej": rej, "res": int(math.Round(res * 1e6))})
		}
		fh.Close()
		fmt.Println(`SUMMARY {"Behaviours":1}`)
	}
}
