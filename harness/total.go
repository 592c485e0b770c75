package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Totality probes: calls with arbitrary arguments, judged by the outcome the specification
// (spec/Contracts.tla) gives them: "ok" with a shape, "err", or "any".

type outcome struct {
	err   error
	t     tensor.Tensor // nil when the call has no tensor result
	hasT  bool          // the call returns a tensor
	extra string        // anything else that is wrong
}

func (w *World) guarded(what string, f func() outcome) (o outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if s := fmt.Sprint(r); len(s) > 8 && s[:8] == "harness:" {
				panic(r)
			}
			w.fail("panic", "%s: panic: %v", what, r)
			ok = false
		}
	}()
	return f(), true
}

func (w *World) judge(what, res string, sh []int, o outcome) {
	if debugDump {
		fmt.Println("  ", what, "->", res, sh, "err:", o.err)
	}
	w.st.Elements++
	if o.extra != "" {
		w.fail("shape", "%s: %s", what, o.extra)
	}
	switch res {
	case "err":
		if o.err == nil {
			w.fail("err", "%s: accepted, expected an error", what)
		} else if o.t != nil {
			w.fail("err", "%s: error together with a result", what)
		}
	case "ok":
		if o.err != nil {
			w.fail("err", "%s: unexpected error: %v", what, o.err)
			return
		}
		if !o.hasT {
			return
		}
		if o.t == nil {
			w.fail("err", "%s: no error and no result", what)
			return
		}
		w.wellFormed(what, o.t, sh)
	case "any":
		if o.err == nil && o.hasT && o.t != nil {
			w.wellFormed(what, o.t, o.t.Shape())
		}
	default:
		panic("harness: outcome " + res)
	}
}

// wellFormed checks that t is a usable tensor of shape sh.
func (w *World) wellFormed(what string, t tensor.Tensor, sh []int) {
	_, _ = w.guarded(what+": reading the result", func() outcome {
		if s := t.Shape(); !eqInts(s, sh) {
			w.fail("shape", "%s: shape %v, expected %v", what, s, sh)
			return outcome{}
		}
		if n := t.NElems(); n != prod(sh) {
			w.fail("shape", "%s: NElems %d, expected %d", what, n, prod(sh))
			return outcome{}
		}
		if _, err := readAll(t, sh); err != nil {
			w.fail("shape", "%s: %v", what, err)
		}
		return outcome{}
	})
}

func (w *World) try(t *Try) {
	what := fmt.Sprintf("%s(t%v d=%d s=%v r=%v)", t.Op, t.In, t.Par.D, t.Par.S, t.Par.R)
	for _, n := range t.In {
		if n > 0 {
			what += fmt.Sprintf(" t%d:%v", n, w.sh[n])
		}
	}
	o, ok := w.guarded(what, func() outcome {
		ts := make([]tensor.Tensor, len(t.In))
		for i, n := range t.In {
			ts[i] = w.at(n)
		}
		return w.tryOp(t, ts)
	})
	if ok {
		w.judge(what, t.Res, t.Sh, o)
	}
}

func (w *World) tryOp(t *Try, ts []tensor.Tensor) outcome {
	switch t.Op {
	case "Sum", "Max", "Min", "Avg", "Mean", "Var", "Std", "NElems", "Shape", "Gradient":
		x := ts[0]
		switch t.Op {
		case "Sum":
			x.Sum()
		case "Max":
			x.Max()
		case "Min":
			x.Min()
		case "Avg":
			x.Avg()
		case "Mean":
			x.Mean()
		case "Var":
			x.Var()
		case "Std":
			x.Std()
		case "NElems":
			x.NElems()
		case "Shape":
			x.Shape()
		case "Gradient":
			x.Gradient()
		}
		return outcome{}
	case "At":
		_, err := ts[0].At(t.Par.S...)
		return outcome{err: err}
	case "Equals":
		_, err := ts[0].Equals(ts[1])
		return outcome{err: err}
	case "BackPropagate":
		return outcome{err: tensor.BackPropagate(ts[0])}
	case "FCFwd":
		l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: t.Par.D})
		if err != nil {
			return outcome{extra: fmt.Sprintf("NewFC(2,%d): %v", t.Par.D, err)}
		}
		y, err := l.Forward(ts...)
		return outcome{err: err, t: y, hasT: true}
	case "Slice":
		if len(t.Par.R) == 0 {
			y, err := ts[0].Slice(nil)
			return outcome{err: err, t: y, hasT: true}
		}
	case "Patch":
		if len(t.Par.R) == 0 {
			y, err := ts[0].Patch(nil, ts[1])
			return outcome{err: err, t: y, hasT: true}
		}
	case "Reshape":
		if len(t.Par.S) == 0 {
			y, err := ts[0].Reshape(nil)
			return outcome{err: err, t: y, hasT: true}
		}
	case "Concat":
		if len(t.In) == 0 {
			y, err := tensor.Concat(nil, t.Par.D)
			return outcome{err: err, t: y, hasT: true}
		}
	}
	y, err := w.callOp(t.Op, ts, &t.Par)
	return outcome{err: err, t: y, hasT: true}
}

var reals = []string{"-Inf", "-2", "-0.5", "-5e-324", "0", "5e-324", "0.25", "1", "6", "1e308", "+Inf", "NaN"}

func realAt(p []int, i int) float64 {
	v, err := strconv.ParseFloat(reals[p[i]-1], 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func devConf(d string) *tensor.Config {
	switch d {
	case "nil":
		return nil
	case "cpu":
		return &tensor.Config{Device: tensor.CPU}
	case "cpuT":
		return &tensor.Config{Device: tensor.CPU, GradTrack: true}
	case "zero":
		return &tensor.Config{}
	case "two":
		return &tensor.Config{Device: tensor.CPU + 1, GradTrack: true}
	case "neg":
		return &tensor.Config{Device: -1}
	case "max":
		return &tensor.Config{Device: tensor.Device(math.MaxInt)}
	}
	panic("harness: device " + d)
}

type kindInit struct {
	kind string
}

func (k kindInit) Init(shape []int) (tensor.Tensor, error) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	switch k.kind {
	case "good":
		return tensor.Full(shape, 0.5, c)
	case "scalar":
		return tensor.Full(nil, 0.5, c)
	case "rank2":
		return tensor.Full([]int{shape[0], 1}, 0.5, c)
	case "short":
		if shape[0] == 1 {
			return tensor.Full([]int{3}, 0.5, c)
		}
		return tensor.Full([]int{shape[0] - 1}, 0.5, c)
	case "long":
		return tensor.Full([]int{shape[0] + 1}, 0.5, c)
	case "none":
		return nil, nil
	case "error":
		return nil, fmt.Errorf("this initializer fails")
	}
	panic("harness: initializer " + k.kind)
}

// nested builds the nested slices of a datum of the given depth, numbering the elements.
func nested(k int, d any, nilEmpty bool, next *float64) any {
	leaf := func(n int) []float64 {
		if n == 0 && nilEmpty {
			return nil
		}
		s := make([]float64, n)
		for i := range s {
			s[i] = *next
			*next++
		}
		return s
	}
	switch k {
	case 0:
		return *next
	case 1:
		return leaf(toInt(d))
	case 2:
		if nilEmpty && len(asSlice(d)) == 0 {
			return [][]float64(nil)
		}
		s := [][]float64{}
		for _, x := range asSlice(d) {
			s = append(s, nested(1, x, nilEmpty, next).([]float64))
		}
		return s
	case 3:
		if nilEmpty && len(asSlice(d)) == 0 {
			return [][][]float64(nil)
		}
		s := [][][]float64{}
		for _, x := range asSlice(d) {
			s = append(s, nested(2, x, nilEmpty, next).([][]float64))
		}
		return s
	case 4:
		if nilEmpty && len(asSlice(d)) == 0 {
			return [][][][]float64(nil)
		}
		s := [][][][]float64{}
		for _, x := range asSlice(d) {
			s = append(s, nested(3, x, nilEmpty, next).([][][]float64))
		}
		return s
	}
	panic("harness: depth")
}

func tensorOfAny(d any, c *tensor.Config) (tensor.Tensor, error) {
	switch v := d.(type) {
	case float64:
		return tensor.TensorOf(v, c)
	case []float64:
		return tensor.TensorOf(v, c)
	case [][]float64:
		return tensor.TensorOf(v, c)
	case [][][]float64:
		return tensor.TensorOf(v, c)
	case [][][][]float64:
		return tensor.TensorOf(v, c)
	}
	panic("harness: data")
}

func (w *World) call(c *Call) {
	what := fmt.Sprintf("%s dims=%v a=%v p=%v k=%v dev=%s nilconf=%v data=%v", c.F, c.Dims, c.A, c.P, c.K, c.Dev, c.Nilc, c.Data)
	o, ok := w.guarded(what, func() outcome { return w.doCall(c) })
	if ok {
		w.judge(what, c.Res, c.Sh, o)
	}
}

func ptrOutcome(isNil bool, err error) outcome {
	o := outcome{err: err}
	if err != nil && !isNil {
		o.extra = "error together with a component"
	}
	if err == nil && isNil {
		o.extra = "neither a component nor an error"
	}
	return o
}

func (w *World) initOutcome(in initializer, isNil bool, err error, dims []int) outcome {
	if o := ptrOutcome(isNil, err); err != nil || o.extra != "" {
		return o
	}
	t, err := in.Init(dims)
	return outcome{err: err, t: t, hasT: true}
}

func shaped(dims []int, tr bool) tensor.Tensor {
	t, err := tensor.Full(dims, 0.25, conf(tr))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return t
}

func (w *World) doCall(c *Call) outcome {
	dims := append([]int{}, c.Dims...)
	if c.Nild {
		dims = nil
	}
	dc := devConf(c.Dev)
	tout := func(t tensor.Tensor, err error) outcome { return outcome{err: err, t: t, hasT: true} }
	switch c.F {
	case "Full":
		return tout(tensor.Full(dims, realAt(c.P, 0), dc))
	case "Zeros":
		return tout(tensor.Zeros(dims, dc))
	case "Ones":
		return tout(tensor.Ones(dims, dc))
	case "Eye":
		return tout(tensor.Eye(c.A[0], dc))
	case "RandU":
		return tout(tensor.RandU(dims, realAt(c.P, 0), realAt(c.P, 1), dc))
	case "RandN":
		return tout(tensor.RandN(dims, realAt(c.P, 0), realAt(c.P, 1), dc))
	case "TensorOf":
		n := 1.0
		t, err := tensorOfAny(nested(c.A[0], c.Data, c.Ne, &n), dc)
		if err == nil && t != nil && c.Res == "ok" && eqInts(t.Shape(), c.Sh) {
			vals, e := readAll(t, c.Sh)
			for i := range vals {
				if e == nil && vals[i] != float64(i+1) {
					return outcome{t: t, hasT: true, extra: fmt.Sprintf("element %d is %v, expected %v", i, vals[i], i+1)}
				}
			}
		}
		return tout(t, err)
	case "InitFull":
		var fc *initializers.FullConfig
		if !c.Nilc {
			fc = &initializers.FullConfig{Value: 3}
		}
		in := initializers.NewFull(fc)
		return w.initOutcome(in, in == nil, nil, dims)
	case "InitUniform":
		var fc *initializers.UniformConfig
		if !c.Nilc {
			fc = &initializers.UniformConfig{Lower: realAt(c.P, 0), Upper: realAt(c.P, 1)}
		}
		in, err := initializers.NewUniform(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "InitNormal":
		var fc *initializers.NormalConfig
		if !c.Nilc {
			fc = &initializers.NormalConfig{Mean: realAt(c.P, 0), StdDev: realAt(c.P, 1)}
		}
		in, err := initializers.NewNormal(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "InitHeUniform":
		var fc *initializers.HeUniformConfig
		if !c.Nilc {
			fc = &initializers.HeUniformConfig{FanIn: c.A[0]}
		}
		in, err := initializers.NewHeUniform(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "InitHeNormal":
		var fc *initializers.HeNormalConfig
		if !c.Nilc {
			fc = &initializers.HeNormalConfig{FanIn: c.A[0]}
		}
		in, err := initializers.NewHeNormal(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "InitXavierUniform":
		var fc *initializers.XavierUniformConfig
		if !c.Nilc {
			fc = &initializers.XavierUniformConfig{FanIn: c.A[0], FanOut: c.A[1]}
		}
		in, err := initializers.NewXavierUniform(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "InitXavierNormal":
		var fc *initializers.XavierNormalConfig
		if !c.Nilc {
			fc = &initializers.XavierNormalConfig{FanIn: c.A[0], FanOut: c.A[1]}
		}
		in, err := initializers.NewXavierNormal(fc)
		return w.initOutcome(in, in == nil, err, dims)
	case "NewFC":
		if c.Nilc {
			l, err := layers.NewFC(nil)
			return ptrOutcome(l == nil, err)
		}
		fc := &layers.FCConfig{Inputs: c.A[0], Outputs: c.A[1]}
		for i, key := range []string{"Weight", "Bias"} {
			if c.K[i] == "default" {
				continue
			}
			if fc.Initializers == nil {
				fc.Initializers = map[string]layers.Initializer{}
			}
			if c.K[i] == "nil" {
				fc.Initializers[key] = nil
			} else {
				fc.Initializers[key] = kindInit{c.K[i]}
			}
		}
		l, err := layers.NewFC(fc)
		o := ptrOutcome(l == nil, err)
		if l != nil && err == nil {
			if l.Weight == nil || l.Bias == nil {
				o.extra = "a layer without parameters"
			} else if c.Res == "ok" {
				o.t, o.hasT = l.Weight, true
				w.wellFormed("NewFC bias", l.Bias, c.Sh)
				x := shaped([]int{2, c.A[0]}, false)
				y, err := l.Forward(x)
				if err != nil || y == nil {
					o.extra = fmt.Sprintf("Forward of the new layer: %v", err)
				} else {
					w.wellFormed("FC.Forward", y, []int{2, c.A[1]})
				}
			}
		}
		return o
	case "NewSoftmax":
		var sc *activations.SoftmaxConfig
		if !c.Nilc {
			sc = &activations.SoftmaxConfig{Dim: c.A[0]}
		}
		s, err := activations.NewSoftmax(sc)
		o := ptrOutcome(s == nil, err)
		return o
	case "NewOther":
		var v any
		nilv := false
		switch c.K[0] {
		case "Relu":
			x := activations.NewRelu()
			v, nilv = x, x == nil
		case "LeakyRelu":
			x := activations.NewLeakyRelu(&activations.LeakyReluConfig{})
			v, nilv = x, x == nil
		case "LeakyReluNil":
			x := activations.NewLeakyRelu(nil)
			v, nilv = x, x == nil
		case "Sigmoid":
			x := activations.NewSigmoid()
			v, nilv = x, x == nil
		case "Tanh":
			x := activations.NewTanh()
			v, nilv = x, x == nil
		case "MSE":
			x := losses.NewMSE()
			v, nilv = x, x == nil
		case "BCE":
			x := losses.NewBCE()
			v, nilv = x, x == nil
		case "CE":
			x := losses.NewCE()
			v, nilv = x, x == nil
		case "Accuracy":
			x := metrics.NewAccuracy()
			v, nilv = x, x == nil
		case "SGD":
			x := optimizers.NewSGD(&optimizers.SGDConfig{})
			v, nilv = x, x == nil
		case "SGDNil":
			x := optimizers.NewSGD(nil)
			v, nilv = x, x == nil
		case "Input":
			x := layers.NewInput()
			v, nilv = x, x == nil
		case "Full":
			x := initializers.NewFull(&initializers.FullConfig{})
			v, nilv = x, x == nil
		case "FullNil":
			x := initializers.NewFull(nil)
			v, nilv = x, x == nil
		default:
			panic("harness: component " + c.K[0])
		}
		if v == nil || nilv {
			return outcome{extra: "no component"}
		}
		return outcome{}
	case "Input":
		l := layers.NewInput()
		if c.K[0] == "set" {
			l.SeedFunc = func() tensor.Tensor { return shaped(c.Dims, false) }
		}
		xs := make([]tensor.Tensor, c.A[0])
		if c.K[1] == "ok" {
			for i := range xs {
				xs[i] = shaped([]int{2, 3}, false)
			}
		}
		return tout(l.Forward(xs...))
	case "FCStruct":
		l := new(layers.FC)
		for i, p := range []*tensor.Tensor{&l.Weight, &l.Bias} {
			switch c.K[i] {
			case "ok":
				*p = shaped([]int{c.A[1]}, true)
			case "odd":
				*p = shaped([][]int{{}, {2, 2}, {3}, {1}}[(len(c.Dims)+c.A[0]+i)%4], true)
			}
		}
		xs := make([]tensor.Tensor, c.A[0])
		if c.K[2] == "ok" {
			for i := range xs {
				xs[i] = shaped(c.Dims, false)
			}
		}
		return tout(l.Forward(xs...))
	case "ZeroComp":
		return w.zeroComp(c)
	case "Update":
		sgd := optimizers.NewSGD(nil)
		switch c.K[0] {
		case "nilptr":
			return outcome{err: sgd.Update(nil)}
		case "nil":
			var t tensor.Tensor
			err := sgd.Update(&t)
			return outcome{err: err, t: t}
		}
		t := shaped(c.Dims, c.K[0] != "untracked")
		old := t
		if c.K[0] == "grad" {
			y := t.Scale(2)
			if err := tensor.BackPropagate(y); err != nil {
				return outcome{extra: "BackPropagate: " + err.Error()}
			}
		}
		err := sgd.Update(&t)
		if err != nil {
			if t != old {
				return outcome{err: err, extra: "failed but replaced the tensor"}
			}
			return outcome{err: err}
		}
		return outcome{t: t, hasT: true}
	}
	panic("harness: call " + c.F)
}

// zeroComp uses component structures that were not made by their constructors.
func (w *World) zeroComp(c *Call) outcome {
	x := shaped([][]int{{}, {3}, {2, 3}}[c.A[0]-1], true)
	tout := func(t tensor.Tensor, err error) outcome { return outcome{err: err, t: t, hasT: true} }
	switch c.K[0] {
	case "Relu":
		return tout(new(activations.Relu).Forward(x))
	case "LeakyRelu":
		return tout(new(activations.LeakyRelu).Forward(x))
	case "Sigmoid":
		return tout(new(activations.Sigmoid).Forward(x))
	case "Tanh":
		return tout(new(activations.Tanh).Forward(x))
	case "Softmax":
		return tout(new(activations.Softmax).Forward(x))
	case "MSE":
		return tout(new(losses.MSE).Compute(x, x))
	case "BCE":
		return tout(new(losses.BCE).Compute(x, x))
	case "CE":
		return tout(new(losses.CE).Compute(x, x))
	case "Accuracy":
		a := new(metrics.Accuracy)
		_, err := a.Result()
		if err == nil {
			err = a.Accumulate(x, x)
		}
		return outcome{err: err}
	case "Results":
		a := metrics.NewAccuracy()
		err := a.Accumulate(nil, x)
		if err == nil {
			return outcome{extra: "Accumulate(nil, x) accepted"}
		}
		if err = a.Accumulate(x, nil); err == nil {
			return outcome{extra: "Accumulate(x, nil) accepted"}
		}
		_, err = a.Result()
		return outcome{err: err}
	case "SGD":
		y := x.Scale(3)
		if err := tensor.BackPropagate(y); err != nil {
			return outcome{err: err}
		}
		return outcome{err: new(optimizers.SGD).Update(&x)}
	case "Input":
		return tout(new(layers.Input).Forward())
	case "InputNew":
		return tout(layers.NewInput().Forward(nil))
	case "FC":
		l := new(layers.FC)
		l.Weights()
		return tout(l.Forward(x))
	case "Initializers":
		s := x.Shape()
		for _, in := range []initializer{new(initializers.Full), new(initializers.Uniform), new(initializers.Normal), new(initializers.HeUniform),
			new(initializers.HeNormal), new(initializers.XavierUniform), new(initializers.XavierNormal)} {
			if t, err := in.Init(s); err == nil && t != nil {
				w.wellFormed(fmt.Sprintf("zero %T", in), t, s)
			}
		}
		return outcome{}
	}
	panic("harness: component " + c.K[0])
}
