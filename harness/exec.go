package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Executes one behaviour of the specification against the real library and
// compares what the library does with what the specification says.

type Mismatch struct {
	Kind  string // value shape grad gradnil gradshape err panic hang immut
	Event int
	Msg   string
	Known string
}

type Stats struct {
	Elements, Grads, Skipped, Calls int64
}

type fcLayer struct {
	l    *layers.FC
	slot int
}

type World struct {
	b       *Behaviour
	vi      int
	seed    int64
	cmp     map[string]bool
	ts      []tensor.Tensor // 1-based
	sh      [][]int
	vals    [][]float64 // observed values
	adj     map[[2]int][]V
	expG    [][]V // nil: gradient must be nil
	slot    []*tensor.Tensor
	fc      map[int]*fcLayer
	comps   map[string]any
	accWant map[int][2]int

	given []tensor.Tensor // tensors made elsewhere: only judge them
	fast  bool            // goroutine world: results are kept, not looked at
	sgds  map[string]any
	asked int
	notes []string // results of queries, in order

	bufs []buf // caller-owned slices handed to the library so far, and slices handed out

	lastG []tensor.Tensor // gradient objects at the last look (immutability)
	lastV [][]float64
	held  []heldGrad // every gradient object ever handed out: a tensor like any other
	heldM map[tensor.Tensor]bool

	mm    []Mismatch
	st    *Stats
	ev    int
	known map[string]bool
}

func (w *World) X(n, i int) float64 { return w.vals[n][i] }
func (w *World) Adj(k, n, i int) V  { return w.adj[[2]int{k, n}][i] }
func (w *World) fail(kind, f string, a ...any) {
	if w.cmp[kind] {
		w.mm = append(w.mm, Mismatch{Kind: kind, Event: w.ev, Msg: fmt.Sprintf(f, a...)})
	}
}

func prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// readAll reads every element through At, in row-major order.
func readAll(t tensor.Tensor, sh []int) ([]float64, error) {
	n := prod(sh)
	out := make([]float64, n)
	idx := make([]int, len(sh))
	for l := 0; l < n; l++ {
		v, err := t.At(idx...)
		if err != nil {
			return nil, fmt.Errorf("At(%v): %w", idx, err)
		}
		out[l] = v
		for i := len(sh) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < sh[i] {
				break
			}
			idx[i] = 0
		}
	}
	return out, nil
}

func constOf(q []any) float64 {
	if len(q) == 1 {
		v, err := strconv.ParseFloat(q[0].(string), 64)
		if err != nil {
			panic(err)
		}
		return v
	}
	return q[0].(float64) / q[1].(float64)
}

// Every slice handed to the library is a view of a longer array with spare capacity, and a
// snapshot tells whether the library wrote into it; mutate overwrites all of them.
type buf struct {
	check func() bool // unchanged since the snapshot
	mut   func()      // overwrite, take a new snapshot
	what  string
}

func addBuf[T any](w *World, what string, full []T, eq func(a, b T) bool, val func(i int) T) {
	if !w.cmp["immut"] {
		return
	}
	snap := append([]T(nil), full...)
	w.bufs = append(w.bufs, buf{
		check: func() bool {
			for i := range full {
				if !eq(full[i], snap[i]) {
					return false
				}
			}
			return true
		},
		mut: func() {
			for i := range full {
				full[i] = val(i)
				snap[i] = full[i]
			}
		}, what: what})
}

func eqInt(a, b int) bool { return a == b }

func (w *World) ints(s []int) []int {
	c := append(append(make([]int, 0, len(s)+2), s...), 1, 1)
	addBuf(w, "integer list", c, eqInt, func(i int) int { return 7 + i })
	return c[:len(s)]
}
func (w *World) ranges(s [][2]int) []tensor.Range {
	c := make([]tensor.Range, len(s)+2)
	for i := range s {
		c[i] = tensor.Range{From: s[i][0], To: s[i][1]}
	}
	addBuf(w, "range list", c, func(a, b tensor.Range) bool { return a == b }, func(i int) tensor.Range {
		if i%2 == 0 {
			return tensor.Range{From: -3, To: 99}
		}
		return tensor.Range{From: 0, To: 1}
	})
	return c[:len(s)]
}
func (w *World) tensors(s []tensor.Tensor) []tensor.Tensor {
	c := append(append(make([]tensor.Tensor, 0, len(s)+1), s...), nil)
	n := len(w.bufs)
	addBuf(w, "tensor list", c, func(a, b tensor.Tensor) bool { return a == b }, func(i int) tensor.Tensor {
		if n%2 == 0 && len(w.ts) > 1 { // a plausible tensor instead of nil
			return w.ts[1]
		}
		return nil
	})
	return c[:len(s)]
}
func (w *World) floats(s []float64) []float64 {
	c := append(append(make([]float64, 0, len(s)+1), s...), 77)
	addBuf(w, "data", c, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, func(i int) float64 { return 1234.5 + float64(i) })
	return c[:len(s)]
}
func sameSlice[T any](a, b []T) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}
func (w *World) shapeOf(t tensor.Tensor) []int {
	s := t.Shape()
	c := append([]int(nil), s...)
	addBuf(w, "result of Shape()", s, eqInt, func(i int) int { return 7 + i })
	return c
}
func (w *World) conf(tr bool) *tensor.Config {
	c := []tensor.Config{{Device: tensor.CPU, GradTrack: tr}}
	addBuf(w, "configuration", c, func(a, b tensor.Config) bool { return a == b }, func(i int) tensor.Config { return tensor.Config{Device: tensor.CPU, GradTrack: !tr} })
	return &c[0]
}

// mutate overwrites every slice the caller owns or was given.
func (w *World) mutate() {
	for _, b := range w.bufs {
		b.mut()
	}
}

func conf(tr bool) *tensor.Config { return &tensor.Config{Device: tensor.CPU, GradTrack: tr} }

func (w *World) makeLeaf(e *Event, vals []float64) (tensor.Tensor, error) {
	sh := e.Sh
	c := w.conf(e.Tr)
	if !e.Tr && prod(sh)%2 == 0 {
		c = nil
	}
	switch e.Via {
	case "Full":
		return tensor.Full(w.ints(sh), constOf(e.Q), c)
	case "Zeros":
		return tensor.Zeros(w.ints(sh), c)
	case "Ones":
		return tensor.Ones(w.ints(sh), c)
	case "Eye":
		return tensor.Eye(sh[0], c)
	case "RandU":
		return tensor.RandU(w.ints(sh), -2, 2, c)
	case "RandN":
		return tensor.RandN(w.ints(sh), 0, 1, c)
	case "InitFull":
		return initializers.NewFull(&initializers.FullConfig{Value: constOf(e.Q)}).Init(w.ints(sh))
	case "InitXavierUniform", "InitHeNormal", "InitUniform", "InitNormal":
		var in initializer
		var err error
		switch e.Via {
		case "InitXavierUniform":
			in, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 2, FanOut: 3})
		case "InitHeNormal":
			in, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 2})
		case "InitUniform":
			in, err = initializers.NewUniform(nil)
		case "InitNormal":
			in, err = initializers.NewNormal(nil)
		}
		if err != nil {
			return nil, err
		}
		return in.Init(w.ints(sh))
	}
	if t, err, ok := w.otherMaker(e, vals, c); ok {
		return t, err
	}
	return w.fromValues(sh, vals, c, e.Tr)
}

// otherMaker makes a leaf of given values some other way than from a nested slice, where one
// exists: nothing that is done with the tensor afterwards may depend on how it was made.
func (w *World) otherMaker(e *Event, vals []float64, c *tensor.Config) (tensor.Tensor, error, bool) {
	n := len(vals)
	if w.vi == 0 || n == 0 {
		return nil, nil, false
	}
	sh := e.Sh
	same := true
	for _, v := range vals {
		same = same && math.Float64bits(v) == math.Float64bits(vals[0])
	}
	pick := rand.New(rand.NewSource(seedOf(w.seed, w.vi, e.ID, "maker"))).Intn(24)
	if same && pick%2 == 0 {
		var t tensor.Tensor
		var err error
		switch {
		case math.Float64bits(vals[0]) == 0:
			t, err = tensor.Zeros(w.ints(sh), c)
		case vals[0] == 1:
			t, err = tensor.Ones(w.ints(sh), c)
		default:
			t, err = tensor.Full(w.ints(sh), vals[0], c)
		}
		return t, err, true
	}
	if len(sh) == 2 && sh[0] == sh[1] && isEye(vals, sh[0]) && pick%4 != 0 {
		t, err := tensor.Eye(sh[0], c)
		return t, err, true
	}
	if len(sh) == 0 || len(sh) > 4 || pick > 4 {
		return nil, nil, false
	}
	// the result of an operation on tensors that are not tracked, made a leaf by ResetGradContext
	var t tensor.Tensor
	var err error
	switch pick {
	case 0: // Reshape of a flat one
		if t, err = tensor.TensorOf(w.floats(vals), nil); err == nil {
			t, err = t.Reshape(w.ints(sh))
		}
	case 1: // the transpose of its transpose
		if len(sh) < 2 {
			return nil, nil, false
		}
		l := len(sh)
		a, b := sh[l-2], sh[l-1]
		tv := make([]float64, n)
		for k := 0; k < n; k += a * b {
			for i := 0; i < a; i++ {
				for j := 0; j < b; j++ {
					tv[k+j*a+i] = vals[k+i*b+j]
				}
			}
		}
		ts := append([]int{}, sh...)
		ts[l-2], ts[l-1] = b, a
		if t, err = w.fromValues(ts, tv, nil, false); err == nil {
			t, err = t.Transpose()
		}
	case 2: // the inner part of a longer one
		k := n / sh[0]
		long := append([]int{}, sh...)
		long[0] += 2
		lv := make([]float64, n+2*k)
		for i := range lv {
			lv[i] = 77
		}
		copy(lv[k:], vals)
		if t, err = w.fromValues(long, lv, nil, false); err == nil {
			t, err = t.Slice([]tensor.Range{{From: 1, To: 1 + sh[0]}})
		}
	case 3: // put in place of something else
		var under tensor.Tensor
		if t, err = w.fromValues(sh, vals, nil, false); err == nil {
			if under, err = tensor.Full(w.ints(sh), 77, nil); err == nil {
				t, err = under.Patch(nil, t)
			}
		}
	case 4: // two parts joined
		if sh[0] < 2 {
			return nil, nil, false
		}
		k := n / sh[0]
		h1, h2 := append([]int{}, sh...), append([]int{}, sh...)
		h1[0], h2[0] = 1, sh[0]-1
		var a, b tensor.Tensor
		if a, err = w.fromValues(h1, vals[:k], nil, false); err == nil {
			if b, err = w.fromValues(h2, vals[k:], nil, false); err == nil {
				t, err = tensor.Concat([]tensor.Tensor{a, b}, 0)
			}
		}
	}
	if err == nil && t != nil {
		t.ResetGradContext(e.Tr)
	}
	return t, err, true
}

func isEye(vals []float64, n int) bool {
	for i, v := range vals {
		if i%(n+1) == 0 && v != 1 || i%(n+1) != 0 && math.Float64bits(v) != 0 {
			return false
		}
	}
	return true
}

func (w *World) fromValues(sh []int, vals []float64, c *tensor.Config, tr bool) (tensor.Tensor, error) {
	switch len(sh) {
	case 0:
		return tensor.TensorOf(vals[0], c)
	case 1:
		return tensor.TensorOf(w.floats(vals), c)
	case 2:
		return tensor.TensorOf(w.nest2(sh, vals), c)
	case 3:
		return tensor.TensorOf(w.nest3(sh, vals), c)
	case 4:
		d := make([][][][]float64, sh[0])
		k := prod(sh[1:])
		for i := range d {
			d[i] = w.nest3(sh[1:], vals[i*k:(i+1)*k])
		}
		addBuf(w, "nested data", d, sameSlice[[][]float64], func(i int) [][][]float64 { return nil })
		return tensor.TensorOf(d, c)
	}
	t, err := tensor.TensorOf(w.floats(vals), nil)
	if err != nil {
		return nil, err
	}
	t, err = t.Reshape(w.ints(sh))
	if err != nil {
		return nil, err
	}
	t.ResetGradContext(tr)
	return t, nil
}

func (w *World) nest2(sh []int, vals []float64) [][]float64 {
	d := make([][]float64, sh[0])
	for i := range d {
		d[i] = w.floats(vals[i*sh[1] : (i+1)*sh[1]])
	}
	addBuf(w, "nested data", d, sameSlice[float64], func(i int) []float64 { return nil })
	return d
}

func (w *World) nest3(sh []int, vals []float64) [][][]float64 {
	d := make([][][]float64, sh[0])
	k := prod(sh[1:])
	for i := range d {
		d[i] = w.nest2(sh[1:], vals[i*k:(i+1)*k])
	}
	addBuf(w, "nested data", d, sameSlice[[]float64], func(i int) [][]float64 { return nil })
	return d
}

// comp returns the component object for a configuration: one object serves all calls of
// a behaviour, as in a model.
func (w *World) comp(key string, mk func() any) any {
	c, ok := w.comps[key]
	if !ok {
		c = mk()
		if w.comps == nil {
			w.comps = map[string]any{}
		}
		w.comps[key] = c
	}
	return c
}

// callOp performs an operation through the public API; ts may contain nils.
func (w *World) callOp(op string, ts []tensor.Tensor, p *Par) (tensor.Tensor, error) {
	if op == "Concat" {
		return tensor.Concat(w.tensors(ts), p.D)
	}
	ts = w.tensors(ts)
	switch op {
	case "Relu":
		return w.comp(op, func() any { return activations.NewRelu() }).(*activations.Relu).Forward(ts...)
	case "LeakyRelu":
		if p.Nilc {
			return w.comp(op, func() any { return activations.NewLeakyRelu(nil) }).(*activations.LeakyRelu).Forward(ts...)
		}
		return w.comp(fmt.Sprint(op, p.Q), func() any { return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: constOf(p.Q)}) }).(*activations.LeakyRelu).Forward(ts...)
	case "Sigmoid":
		return w.comp(op, func() any { return activations.NewSigmoid() }).(*activations.Sigmoid).Forward(ts...)
	case "TanhAct":
		return w.comp(op, func() any { return activations.NewTanh() }).(*activations.Tanh).Forward(ts...)
	case "Softmax":
		var c *activations.SoftmaxConfig
		key := op
		if !p.Nilc {
			c = &activations.SoftmaxConfig{Dim: p.D}
			key = fmt.Sprint(op, p.D)
		}
		var err error
		a := w.comp(key, func() any {
			var s *activations.Softmax
			s, err = activations.NewSoftmax(c)
			return s
		}).(*activations.Softmax)
		if err != nil || a == nil {
			delete(w.comps, key)
			if err == nil {
				return nil, nil
			}
			return nil, err
		}
		return a.Forward(ts...)
	case "MSE":
		return w.comp(op, func() any { return losses.NewMSE() }).(*losses.MSE).Compute(ts[0], ts[1])
	case "BCE":
		return w.comp(op, func() any { return losses.NewBCE() }).(*losses.BCE).Compute(ts[0], ts[1])
	case "CE":
		return w.comp(op, func() any { return losses.NewCE() }).(*losses.CE).Compute(ts[0], ts[1])
	case "FC":
		l := &layers.FC{Weight: ts[1], Bias: ts[2]}
		return l.Forward(ts[0])
	}
	x := ts[0]
	var y tensor.Tensor
	if len(ts) > 1 {
		y = ts[1]
	}
	switch op {
	case "Slice":
		return x.Slice(w.ranges(p.R))
	case "Patch":
		return x.Patch(w.ranges(p.R), y)
	case "Transpose":
		return x.Transpose()
	case "Reshape":
		return x.Reshape(w.ints(p.S))
	case "UnSqueeze":
		return x.UnSqueeze(p.D)
	case "Squeeze":
		return x.Squeeze(p.D)
	case "Flatten":
		return x.Flatten(p.D)
	case "Broadcast":
		return x.Broadcast(w.ints(p.S))
	case "SumAlong":
		return x.SumAlong(p.D)
	case "MaxAlong":
		return x.MaxAlong(p.D)
	case "MinAlong":
		return x.MinAlong(p.D)
	case "AvgAlong":
		return x.AvgAlong(p.D)
	case "VarAlong":
		return x.VarAlong(p.D)
	case "StdAlong":
		return x.StdAlong(p.D)
	case "MeanAlong":
		return x.MeanAlong(p.D)
	case "Scale":
		return x.Scale(constOf(p.Q)), nil
	case "Pow":
		return x.Pow(constOf(p.Q)), nil
	case "Exp":
		return x.Exp(), nil
	case "Log":
		return x.Log(), nil
	case "Sin":
		return x.Sin(), nil
	case "Cos":
		return x.Cos(), nil
	case "Tan":
		return x.Tan(), nil
	case "Sinh":
		return x.Sinh(), nil
	case "Cosh":
		return x.Cosh(), nil
	case "Tanh":
		return x.Tanh(), nil
	case "Eq":
		return x.Eq(y)
	case "Ne":
		return x.Ne(y)
	case "Gt":
		return x.Gt(y)
	case "Ge":
		return x.Ge(y)
	case "Lt":
		return x.Lt(y)
	case "Le":
		return x.Le(y)
	case "ElMax":
		return x.ElMax(y)
	case "ElMin":
		return x.ElMin(y)
	case "Add":
		return x.Add(y)
	case "Sub":
		return x.Sub(y)
	case "Mul":
		return x.Mul(y)
	case "Div":
		return x.Div(y)
	case "Dot":
		return x.Dot(y)
	case "MatMul":
		return x.MatMul(y)
	}
	panic("harness: unknown op " + op)
}

// agree compares an observed number with an expected value and its error bound.
// It returns ok, and whether the comparison was decided at all.
func agree(obs float64, e V, floor float64) (ok, decided bool) {
	if !known(e) || math.IsInf(e.v, 0) || math.Abs(e.v) > 1e290 {
		if math.IsInf(e.v, 0) && obs == e.v {
			return true, true
		}
		return true, false
	}
	if math.IsNaN(obs) || math.IsInf(obs, 0) {
		return false, true
	}
	if obs == e.v {
		return true, true
	}
	tol := 8*e.r + 1e-11*math.Abs(e.v) + floor
	return math.Abs(obs-e.v) <= tol, true
}

const valueFloor = 1e-320
const gradFloor = 1e-140

func isMove(t *Term) bool {
	return t.Tag == "x" || t.Tag == "c" || t.Tag == "q" || t.Tag == "cmp" || t.Tag == "maxn" || t.Tag == "minn" || t.Tag == "max2" || t.Tag == "min2"
}

// pure terms mention tensor elements only directly, so that moves, extrema and
// comparisons over them must be exact
func exactTerm(t *Term) bool {
	if !isMove(t) {
		return false
	}
	for _, s := range t.Sub {
		if s.Tag != "x" && s.Tag != "c" && s.Tag != "q" {
			return false
		}
	}
	return t.Tag != "q" || t.B == 1
}

// register adds a result tensor to the world and checks it.
func (w *World) register(id int, t tensor.Tensor, sh []int, el []*Term, free []float64, what string) bool {
	if w.fast {
		for len(w.ts) <= id {
			w.ts = append(w.ts, nil)
		}
		w.ts[id] = t
		if t == nil {
			w.fail("err", "%s: no error and no result", what)
		}
		return t != nil
	}
	if id != len(w.ts) {
		panic(fmt.Sprintf("harness: id %d out of order", id))
	}
	w.ts = append(w.ts, t)
	w.expG = append(w.expG, nil)
	w.sh = append(w.sh, sh)
	w.vals = append(w.vals, nil)
	w.lastG = append(w.lastG, nil)
	w.lastV = append(w.lastV, nil)
	if t == nil {
		w.fail("err", "%s: no error and no result", what)
		return false
	}
	osh := w.shapeOf(t)
	if !eqInts(osh, sh) {
		w.fail("shape", "%s: shape %v, expected %v", what, osh, sh)
		return false
	}
	if n := t.NElems(); n != prod(sh) {
		w.fail("shape", "%s: NElems %d, expected %d", what, n, prod(sh))
		return false
	}
	obs, err := readAll(t, sh)
	if err != nil {
		w.fail("shape", "%s: reading the elements: %v", what, err)
		return false
	}
	w.vals[id] = obs
	if free != nil {
		for i := range free {
			if obs[i] != free[i] {
				w.fail("value", "%s: element %d is %v, expected %v", what, i, obs[i], free[i])
				return false
			}
		}
	}
	if !w.cmp["value"] {
		return true
	}
	for i, t := range el {
		if !w.judgeEl(obs, i, t, what) {
			return false
		}
	}
	if w.ev < len(w.b.Ev) && w.b.Ev[w.ev].ID == id {
		for _, t := range w.b.Ev[w.ev].Sp {
			if !w.judgeEl(obs, t.I, t.T, what) {
				return false
			}
		}
	}
	return true
}

// judgeEl compares element i of a result with its term.
func (w *World) judgeEl(obs []float64, i int, t *Term, what string) bool {
	e := t.Eval(w)
	w.st.Elements++
	ok, dec := agree(obs[i], e, valueFloor)
	if ok && exactTerm(t) {
		if t.Tag == "cmp" {
			ok = obs[i] == 0 || obs[i] == 1
			if e.r == 0 {
				ok = obs[i] == e.v
			}
		} else if t.Tag == "x" { // moves keep every bit pattern, infinities included
			x := w.X(t.A, t.B)
			ok = obs[i] == x || (math.IsNaN(obs[i]) && math.IsNaN(x))
		} else if known(e) {
			ok = obs[i] == e.v
		}
	}
	if x, special := ieee(w, t); ok && !dec && special {
		ok, dec, e = sameSpecial(obs[i], x), true, V{x, 0}
	}
	if !dec {
		w.st.Skipped++
	}
	if !ok {
		txt := t.String()
		if len(txt) > 300 {
			txt = txt[:300] + "..."
		}
		w.fail("value", "%s: element %d of shape %v is %v, expected %v (+-%.3g) = %s%s", what, i, w.sh[len(w.sh)-1], obs[i], e.v, e.r, txt, w.where(t))
	}
	return ok
}

func collectX(t *Term, m map[[2]int]bool) {
	if t.Tag == "x" {
		m[[2]int{t.A, t.B}] = true
	}
	for _, s := range t.Sub {
		collectX(s, m)
	}
}

func (w *World) where(t *Term) string {
	m := map[[2]int]bool{}
	collectX(t, m)
	if len(m) == 0 || len(m) > 12 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString(" with")
	for k := range m {
		fmt.Fprintf(&sb, " t%d[%d]=%v", k[0], k[1], w.vals[k[0]][k[1]])
	}
	return sb.String()
}

func (e *Event) describe() string {
	switch e.T {
	case "leaf":
		return fmt.Sprintf("t%d = leaf %s%v tracked=%v dom=%s", e.ID, e.Via, e.Sh, e.Tr, e.Dom)
	case "op":
		return fmt.Sprintf("t%d = %s(t%v d=%d s=%v r=%v q=%v)", e.ID, e.Op, e.In, e.Par.D, e.Par.S, e.Par.R, e.Par.Q)
	case "bp":
		return fmt.Sprintf("BackPropagate(t%d)", e.Root)
	case "reset":
		return fmt.Sprintf("t%d.ResetGradContext(%v)", e.N, e.Tr)
	case "grad":
		return fmt.Sprintf("t%d = t%d.Gradient()", e.ID, e.N)
	case "scalar":
		return fmt.Sprintf("t%d.%s()", e.N, e.Op)
	case "at":
		return fmt.Sprintf("t%d.At(%v)", e.N, e.Idx)
	case "equals":
		return fmt.Sprintf("t%d.Equals(t%d)", e.N, e.M)
	case "same":
		return fmt.Sprintf("t%d identical to t%d", e.N, e.M)
	case "bound":
		return fmt.Sprintf("t%d finite and within [%s,%s]", e.N, e.Lo, e.Hi)
	case "acc":
		return fmt.Sprintf("metric%d.Accumulate(%s %v x%d) -> accepted=%v %d/%d", e.O, e.Op, e.Pat, e.Rep, e.OK, e.Correct, e.Total)
	case "tries":
		return fmt.Sprintf("probe %d operations", len(e.Tries))
	case "calls":
		return fmt.Sprintf("probe %d calls", len(e.Calls))
	case "mut":
		return "caller overwrites all its slices"
	case "thr":
		return fmt.Sprintf("goroutine %d:", e.G)
	case "slot":
		return fmt.Sprintf("slot%d := t%d", e.S, e.N)
	case "set":
		return fmt.Sprintf("*slot%d = t%d", e.S, e.N)
	case "fcnew":
		return fmt.Sprintf("t%d,t%d = NewFC(%d,%d,%s).Weights() (slots %d,%d)", e.W, e.B, e.Ins, e.Outs, e.Init, e.S, e.S+1)
	case "fcfwd":
		return fmt.Sprintf("t%d = FC[slot %d].Forward(t%d)", e.ID, e.S, e.X)
	case "upd":
		return fmt.Sprintf("t%d = SGD(%v).Update(&slot%d)", e.ID, e.Lr, e.S)
	}
	return e.T
}

type initializer interface {
	Init(shape []int) (tensor.Tensor, error)
}

type valueInit struct {
	w    *World
	vals []float64
}

func (v *valueInit) Init(shape []int) (tensor.Tensor, error) {
	if len(shape) != 1 || shape[0] != len(v.vals) {
		return nil, fmt.Errorf("harness initializer: asked for shape %v, expected [%d]", shape, len(v.vals))
	}
	return tensor.TensorOf(append([]float64(nil), v.vals...), &tensor.Config{Device: tensor.CPU, GradTrack: true})
}

// foreign is a tensor of another implementation.
type foreign struct{ tensor.Tensor }

func (w *World) at(n int) tensor.Tensor {
	if n == 0 {
		return nil
	}
	if n < 0 {
		return foreign{w.ts[1]}
	}
	return w.ts[n]
}

func (w *World) step(e *Event) (cont bool) {
	w.st.Calls++
	what := e.describe()
	switch e.T {
	case "leaf":
		var free []float64
		if e.El == nil && e.Via == "TensorOf" {
			r := rand.New(rand.NewSource(seedOf(w.seed, w.vi, e.ID, e.Dom)))
			free = leafValues(e.Dom, prod(e.Sh), w.vi, r)
			if w.vi > 0 && len(e.Sh) == 2 && e.Sh[0] == e.Sh[1] && e.Sh[0] > 1 && zeroAndOne(e.Dom) && r.Intn(12) == 0 {
				for i := range free { // the identity
					free[i] = 0
					if i%(e.Sh[0]+1) == 0 {
						free[i] = 1
					}
				}
			}
			if len(e.Idx) > 0 { // a mask: zero elsewhere
				m := make([]float64, len(free))
				for _, i := range e.Idx {
					if m[i] = free[i]; m[i] == 0 {
						m[i] = 1
					}
				}
				free = m
			}
		}
		if w.given != nil {
			return w.register(e.ID, w.given[e.ID], e.Sh, e.El, free, what)
		}
		t, err := w.makeLeaf(e, free)
		if err != nil {
			w.fail("err", "%s: error %v", what, err)
			return false
		}
		return w.register(e.ID, t, e.Sh, e.El, free, what)
	case "op", "fcfwd":
		var t tensor.Tensor
		var err error
		if w.given != nil {
			if !e.OK {
				return true
			}
			return w.register(e.ID, w.given[e.ID], e.Sh, e.El, nil, what)
		}
		if e.T == "op" {
			ts := make([]tensor.Tensor, len(e.In))
			for i, n := range e.In {
				ts[i] = w.at(n)
			}
			t, err = w.callOp(e.Op, ts, &e.Par)
		} else {
			t, err = w.fc[e.S].l.Forward(w.at(e.X))
		}
		if !e.OK {
			if err == nil {
				w.fail("err", "%s: accepted, expected an error", what)
				return false
			}
			if t != nil {
				w.fail("err", "%s: error together with a result", what)
			}
			return true
		}
		if err != nil {
			w.fail("err", "%s: unexpected error: %v", what, err)
			return false
		}
		return w.register(e.ID, t, e.Sh, e.El, nil, what)
	case "scalar":
		x := w.ts[e.N]
		var v float64
		switch e.Op {
		case "Sum":
			v = x.Sum()
		case "Max":
			v = x.Max()
		case "Min":
			v = x.Min()
		case "Avg":
			v = x.Avg()
		case "Mean":
			v = x.Mean()
		case "Var":
			v = x.Var()
		case "Std":
			v = x.Std()
		}
		if w.fast {
			w.notes = append(w.notes, fmt.Sprintf("%s: %x", what, math.Float64bits(v)))
			return true
		}
		ev := e.El[0].Eval(w)
		w.st.Elements++
		ok, dec := agree(v, ev, valueFloor)
		if ok && exactTerm(e.El[0]) && known(ev) {
			ok = v == ev.v
		}
		if !dec {
			w.st.Skipped++
		}
		if !ok {
			w.fail("value", "%s of %v = %v, expected %v (+-%.3g)", what, clipv(w.vals[e.N]), v, ev.v, ev.r)
		}
	case "at":
		v, err := w.ts[e.N].At(w.ints(e.Idx)...)
		if w.fast {
			w.notes = append(w.notes, fmt.Sprintf("%s: %x %v", what, math.Float64bits(v), err))
			return true
		}
		if e.OK != (err == nil) {
			w.fail("err", "%s on shape %v: error %v, expected ok=%v", what, w.sh[e.N], err, e.OK)
		} else if x := e.El[0]; e.OK && x.Tag == "x" && math.Float64bits(v) != math.Float64bits(w.X(x.A, x.B)) {
			w.fail("value", "%s: %v, expected %v", what, v, w.X(x.A, x.B))
		}
		w.st.Elements++
	case "equals":
		v, err := w.at(e.N).Equals(w.at(e.M))
		if w.fast {
			w.notes = append(w.notes, fmt.Sprintf("%s: %v %v", what, v, err))
			return true
		}
		if e.OK != (err == nil) {
			w.fail("err", "%s: error %v, expected ok=%v", what, err, e.OK)
		} else if e.OK {
			exp, sure := true, true
			for _, t := range e.El {
				c := t.Eval(w)
				if c.r > 0 {
					sure = false
				} else if c.v == 0 {
					exp, sure = false, true
					break
				}
			}
			w.st.Elements++
			if sure && v != exp {
				w.fail("value", "%s: %v, expected %v: %v vs %v", what, v, exp, clipv(w.vals[e.N]), clipv(w.vals[e.M]))
			}
		}
	case "bp":
		var err error
		if w.given == nil {
			err = tensor.BackPropagate(w.at(e.Root))
		} else if !e.OK {
			return true
		}
		if !e.OK {
			if err == nil {
				w.fail("err", "%s: accepted, expected an error", what)
				return false
			}
			return true
		}
		if err != nil {
			w.fail("bperr", "%s: %v", what, err)
			return false
		}
		if w.fast {
			return true
		}
		for _, q := range e.Eqs {
			a := make([]V, len(q.El))
			for i, t := range q.El {
				a[i] = t.Eval(w)
			}
			if q.El == nil { // a large tensor: default value and summands
				a = make([]V, prod(w.sh[q.N]))
				for i := range a {
					a[i] = V{v: q.Def}
				}
				for _, t := range q.Sp {
					a[t.I] = addV(a[t.I], t.T.Eval(w))
				}
			}
			w.adj[[2]int{e.K, q.N}] = a
			if w.expG[q.N] == nil {
				w.expG[q.N] = append([]V(nil), a...)
			} else {
				for i := range a {
					w.expG[q.N][i] = addV(w.expG[q.N][i], a[i])
				}
			}
		}
		if w.given == nil {
			w.checkGrads(what)
		}
	case "reset":
		if w.given != nil {
			w.expG[e.N] = nil
			return true
		}
		w.ts[e.N].ResetGradContext(e.Tr)
		if w.fast {
			return true
		}
		w.expG[e.N] = nil
		w.checkGrads(what)
	case "grad":
		if w.given != nil {
			return w.register(e.ID, w.given[e.ID], e.Sh, nil, nil, what)
		}
		g := w.ts[e.N].Gradient()
		if g == nil {
			w.fail("gradnil", "%s: nil", what)
			return false
		}
		// values were compared after the back-propagation
		return w.register(e.ID, g, e.Sh, nil, nil, what)
	case "same":
		if w.fast {
			return true
		}
		for i := range w.vals[e.N] {
			x, y := w.vals[e.N][i], w.vals[e.M][i]
			w.st.Elements++
			if x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
				w.fail("value", "%s: element %d is %v in t%d but %v in t%d", what, i, x, e.N, y, e.M)
				break
			}
		}
	case "bound":
		if w.fast {
			return true
		}
		lo, hi := math.Inf(-1), math.Inf(1)
		if e.Lo != "" {
			lo, _ = strconv.ParseFloat(e.Lo, 64)
		}
		if e.Hi != "" {
			hi, _ = strconv.ParseFloat(e.Hi, 64)
		}
		for i, v := range w.vals[e.N] {
			w.st.Elements++
			if math.IsNaN(v) || math.IsInf(v, 0) || v < lo || v > hi {
				w.fail("value", "%s: element %d is %v", what, i, v)
				break
			}
		}
	case "thr":
	case "mut":
		w.mutate()
	case "acc":
		return w.acc(e, what)
	case "tries":
		for i := range e.Tries {
			w.try(&e.Tries[i])
		}
	case "calls":
		for i := range e.Calls {
			w.call(&e.Calls[i])
		}
	case "slot":
		if w.given != nil {
			return true
		}
		p := new(tensor.Tensor)
		*p = w.at(e.N)
		w.putSlot(e.S, p)
	case "set":
		if w.given != nil {
			return true
		}
		*w.pointer(e.S) = w.at(e.N)
		w.samePointer(e.S, what)
	case "fcnew":
		return w.newFC(e, what)
	case "upd":
		return w.update(e, what)
	default:
		panic("harness: unknown event " + e.T)
	}
	return true
}

func clipv(v []float64) []float64 {
	if len(v) > 12 {
		return v[:12]
	}
	return v
}

func (w *World) newFC(e *Event, what string) bool {
	c := &layers.FCConfig{Inputs: e.Ins, Outputs: e.Outs}
	var wv, bv []float64
	if e.Init == "custom" {
		r := rand.New(rand.NewSource(seedOf(w.seed, w.vi, e.W, e.Dom)))
		wv, bv = leafValues(e.Dom, e.Outs, w.vi, r), leafValues(e.Dom, e.Outs, w.vi, r)
	}
	if w.given != nil {
		return w.register(e.W, w.given[e.W], e.Sh, nil, wv, what+" weight") &&
			w.register(e.B, w.given[e.B], e.Sh, nil, bv, what+" bias")
	}
	if e.Init == "custom" {
		c.Initializers = map[string]layers.Initializer{"Weight": &valueInit{w, wv}, "Bias": &valueInit{w, bv}}
	} else if e.Init == "shared" {
		// one map serves several layers; it configures the bias only
		c.Initializers = w.comp("initmap", func() any {
			return map[string]layers.Initializer{"Bias": initializers.NewFull(&initializers.FullConfig{Value: 0.5})}
		}).(map[string]layers.Initializer)
	} else if e.Init == "full" {
		c.Initializers = map[string]layers.Initializer{"Bias": initializers.NewFull(&initializers.FullConfig{Value: 0.5})}
	}
	l, err := layers.NewFC(c)
	if err != nil {
		w.fail("err", "%s: %v", what, err)
		return false
	}
	ws := l.Weights()
	if len(ws) != 2 || ws[0].Value == nil || ws[1].Value == nil || !ws[0].Trainable || !ws[1].Trainable {
		w.fail("value", "%s: Weights() does not address two trainable parameters", what)
		return false
	}
	if *ws[0].Value != l.Weight || *ws[1].Value != l.Bias {
		w.fail("value", "%s: Weights() does not address Weight, Bias", what)
		return false
	}
	w.fc[e.S] = &fcLayer{l, e.S}
	w.putSlot(e.S, ws[0].Value)
	w.putSlot(e.S+1, ws[1].Value)
	addBuf(w, "result of Weights()", ws, func(a, b layers.Weight) bool { return a == b }, func(i int) layers.Weight { return layers.Weight{} })
	return w.register(e.W, *ws[0].Value, e.Sh, nil, wv, what+" weight") &&
		w.register(e.B, *ws[1].Value, e.Sh, nil, bv, what+" bias")
}

func (w *World) putSlot(s int, p *tensor.Tensor) {
	for len(w.slot) < s {
		w.slot = append(w.slot, nil)
	}
	w.slot[s-1] = p
}

// pointer gives the pointer of a slot; for a parameter of a layer, every other time the one that a
// new call of Weights() returns.
func (w *World) pointer(s int) *tensor.Tensor {
	p := w.slot[s-1]
	w.asked++
	if q := w.newPointer(s); q != nil && w.asked%2 == 0 {
		return q
	}
	return p
}

func (w *World) newPointer(s int) *tensor.Tensor {
	if w.fast || w.given != nil {
		return nil
	}
	for _, l := range w.fc {
		if s == l.slot || s == l.slot+1 {
			if ws := l.l.Weights(); len(ws) == 2 {
				return ws[s-l.slot].Value
			}
		}
	}
	return nil
}

// samePointer: all pointers of a parameter address the same tensor.
func (w *World) samePointer(s int, what string) {
	if q := w.newPointer(s); q != nil && *q != *w.slot[s-1] {
		w.fail("value", "%s: a new call of Weights() addresses another tensor than the earlier one", what)
	}
}

func (w *World) update(e *Event, what string) bool {
	if w.given != nil {
		if !e.OK {
			return true
		}
		return w.register(e.ID, w.given[e.ID], e.Sh, e.El, nil, what)
	}
	key := "sgd"
	if !e.Nilc {
		key = fmt.Sprint("sgd", e.Lr)
	}
	comp := w.comp
	if w.fast { // an optimizer belongs to its goroutine
		comp = func(key string, mk func() any) any {
			if w.sgds[key] == nil {
				w.sgds[key] = mk()
			}
			return w.sgds[key]
		}
	}
	sgd := comp(key, func() any {
		if e.Nilc {
			return optimizers.NewSGD(nil)
		}
		return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: constOf(e.Lr)})
	}).(*optimizers.SGD)
	p := w.pointer(e.S)
	before := *p
	err := sgd.Update(p)
	w.samePointer(e.S, what)
	if !e.OK {
		if err == nil {
			w.fail("err", "%s: accepted, expected an error", what)
			return false
		}
		if *p != before {
			w.fail("value", "%s: failed but replaced the tensor", what)
		}
		return true
	}
	if err != nil {
		w.fail("err", "%s: %v", what, err)
		return false
	}
	return w.register(e.ID, *p, e.Sh, e.El, nil, what)
}

// checkGrads compares the gradient of every tensor with the specification.
func (w *World) checkGrads(what string) {
	overflowed := false // some forward value is not finite: what it makes of the gradients is outside the claims
	for _, vs := range w.vals {
		for _, v := range vs {
			overflowed = overflowed || math.IsNaN(v) || math.IsInf(v, 0)
		}
	}
	for n := 1; n < len(w.ts); n++ {
		t := w.ts[n]
		if t == nil {
			continue
		}
		g := t.Gradient()
		exp := w.expG[n]
		if exp == nil {
			if g != nil {
				w.fail("gradnil", "after %s: t%d has a gradient, expected none", what, n)
			}
			continue
		}
		if g == nil {
			w.fail("gradnil", "after %s: t%d has no gradient", what, n)
			continue
		}
		gs := w.shapeOf(g)
		if !eqInts(gs, w.sh[n]) {
			w.fail("gradshape", "after %s: gradient of t%d has shape %v, expected %v", what, n, gs, w.sh[n])
			continue
		}
		if !w.cmp["grad"] {
			continue
		}
		obs, err := readAll(g, gs)
		if err != nil {
			w.fail("gradshape", "after %s: gradient of t%d: %v", what, n, err)
			continue
		}
		for i := range obs {
			w.st.Grads++
			ok, dec := agree(obs[i], exp[i], gradFloor)
			if !ok && overflowed && (math.IsNaN(obs[i]) || math.IsInf(obs[i], 0)) {
				ok, dec = true, false
			}
			if !dec {
				w.st.Skipped++
			}
			if ok {
				continue
			}
			kf := ""
			for _, a := range w.b.Alts {
				if a.N == n && w.known[a.ID] {
					alt := V{exp[i].v * a.Num / a.Den, exp[i].r}
					if ok, dec := agree(obs[i], alt, gradFloor); ok && dec {
						kf = a.ID
					}
				}
			}
			w.mm = append(w.mm, Mismatch{Kind: "grad", Event: w.ev, Known: kf,
				Msg: fmt.Sprintf("after %s: gradient of t%d (shape %v) element %d is %v, expected %v (+-%.3g); t%d=%v",
					what, n, w.sh[n], i, obs[i], exp[i].v, exp[i].r, n, clipv(w.vals[n]))})
			if kf == "" {
				break
			}
		}
	}
}

// checkImmut verifies that no tensor that existed before the last call changed.
func (w *World) checkImmut(what string) {
	for _, b := range w.bufs {
		if !b.check() {
			w.fail("immut", "after %s: the library wrote into the caller's slice (%s)", what, b.what)
			break
		}
	}
	for n := 1; n < len(w.ts); n++ {
		t := w.ts[n]
		if t == nil || w.vals[n] == nil {
			continue
		}
		s := w.shapeOf(t)
		if !eqInts(s, w.sh[n]) {
			w.fail("immut", "after %s: shape of t%d became %v, was %v", what, n, s, w.sh[n])
			continue
		}
		obs, err := readAll(t, s)
		if err != nil {
			w.fail("immut", "after %s: t%d: %v", what, n, err)
			continue
		}
		for i := range obs {
			if math.Float64bits(obs[i]) != math.Float64bits(w.vals[n][i]) {
				w.fail("immut", "after %s: element %d of t%d became %v, was %v", what, i, n, obs[i], w.vals[n][i])
				break
			}
		}
		g := t.Gradient()
		e := &w.b.Ev[w.ev]
		if (g == nil) != (w.expG[n] == nil) {
			w.fail("gradnil", "after %s: gradient of t%d nil=%v, expected nil=%v", what, n, g == nil, w.expG[n] == nil)
			continue
		}
		if g == nil {
			w.lastG[n], w.lastV[n] = nil, nil
			continue
		}
		gv, err := readAll(g, w.sh[n])
		if err != nil {
			w.fail("gradshape", "after %s: gradient of t%d: %v", what, n, err)
			continue
		}
		if w.lastG[n] != nil && e.T != "bp" && e.T != "reset" {
			for i := range gv {
				if math.Float64bits(gv[i]) != math.Float64bits(w.lastV[n][i]) {
					w.fail("immut", "after %s: gradient of t%d element %d became %v, was %v", what, n, i, gv[i], w.lastV[n][i])
					break
				}
			}
		}
		w.lastG[n], w.lastV[n] = g, gv
		if !w.heldM[g] && len(w.held) < 200 {
			if w.heldM == nil {
				w.heldM = map[tensor.Tensor]bool{}
			}
			w.heldM[g] = true
			w.held = append(w.held, heldGrad{n: n, ev: w.ev, t: g, v: gv, sh: w.sh[n]})
		}
	}
	for i := range w.held {
		q := &w.held[i]
		if q.ev == w.ev {
			continue
		}
		now, err := readAll(q.t, q.sh)
		if err != nil {
			w.fail("immut", "after %s: the gradient tensor that t%d had after event %d: %v", what, q.n, q.ev, err)
			return
		}
		for j := range now {
			if math.Float64bits(now[j]) != math.Float64bits(q.v[j]) {
				w.fail("immut", "after %s: element %d of the gradient tensor that t%d had after event %d became %v, was %v", what, j, q.n, q.ev, now[j], q.v[j])
				return
			}
		}
	}
}

type heldGrad struct {
	n, ev int
	t     tensor.Tensor
	v     []float64
	sh    []int
}

func runBehaviour(b *Behaviour, vi int, seed int64, cmp map[string]bool, knownIDs map[string]bool, st *Stats) (mm []Mismatch) {
	if cmp["late"] {
		return runLate(b, vi, seed, cmp, knownIDs, st)
	}
	w := &World{b: b, vi: vi, seed: seed, cmp: cmp, adj: map[[2]int][]V{}, fc: map[int]*fcLayer{}, st: st, known: knownIDs,
		ts: make([]tensor.Tensor, 1), sh: make([][]int, 1), vals: make([][]float64, 1), expG: make([][]V, 1),
		lastG: make([]tensor.Tensor, 1), lastV: make([][]float64, 1)}
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			what := ""
			if w.ev < len(b.Ev) {
				what = b.Ev[w.ev].describe()
			}
			w.mm = append(w.mm, Mismatch{Kind: "panic", Event: w.ev, Msg: what + ": panic: " + s})
			mm = w.mm
		}
	}()
	for i := range b.Ev {
		w.ev = i
		if !w.step(&b.Ev[i]) {
			break
		}
		if debugDump {
			w.dump()
		}
		if cmp["immut"] {
			w.checkImmut(b.Ev[i].describe())
		}
		hard := false
		for _, m := range w.mm {
			if m.Known == "" {
				hard = true
			}
		}
		if hard {
			break
		}
	}
	return w.mm
}

// lateOK: the behaviour can be judged from the tensors it leaves behind.
func lateOK(b *Behaviour) bool {
	for i := range b.Ev {
		switch b.Ev[i].T {
		case "acc", "tries", "calls", "thr":
			return false
		}
	}
	return true
}

// runLate issues all the requests without looking at anything in between (no element, shape
// or gradient is read), and judges what is there in the end: what is observed must not
// depend on when, or whether, something else was observed.
func runLate(b *Behaviour, vi int, seed int64, cmp map[string]bool, knownIDs map[string]bool, st *Stats) (mm []Mismatch) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			mm = []Mismatch{{Kind: "panic", Event: len(b.Ev) - 1, Msg: "first looked at in the end: panic: " + s}}
		}
	}()
	all := make([]int, len(b.Ev))
	for i := range all {
		all[i] = i
	}
	w := newWorld(b, vi, seed)
	w.fast, w.cmp = true, cmp
	w.run(all, func() {
		if cmp["immut"] { // the caller's slices are the caller's again after every call
			w.mutate()
		}
	})
	if cmp["immut"] {
		w.mutate()
	}
	if len(w.mm) == 0 {
		j := newWorld(b, vi, seed)
		j.cmp, j.known, j.st = cmp, knownIDs, st
		j.given = w.ts
		j.run(all, nil)
		if len(j.mm) == 0 {
			j.ev = len(b.Ev) - 1
			j.checkGrads("all requests (nothing was read before)")
		}
		w.mm = j.mm
	}
	for i := range w.mm {
		w.mm[i].Msg = "first looked at in the end: " + w.mm[i].Msg
	}
	return w.mm
}

var debugDump = false

func (w *World) dump() {
	e := &w.b.Ev[w.ev]
	fmt.Println(">>", e.describe())
	if e.T == "bp" {
		for n := 1; n < len(w.ts); n++ {
			if w.expG[n] != nil {
				g := w.ts[n].Gradient()
				if g == nil {
					continue
				}
				gv, _ := readAll(g, g.Shape())
				fmt.Printf("   grad t%d = %v\n        expected %v\n", n, gv, w.expG[n])
			}
		}
	} else if n := len(w.ts) - 1; n > 0 && e.ID == n {
		fmt.Printf("   t%d%v = %v\n", n, w.sh[n], w.vals[n])
	}
}
