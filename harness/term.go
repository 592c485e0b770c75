package main

import (
	"fmt"
	"math"
	"strconv"
)

// Terms are the specification's symbolic scalars (spec/Terms.tla).  They are
// evaluated to a value together with a bound on the error which a straightforward
// floating-point evaluation may have (running error analysis); a NaN or infinite
// bound means that nothing can be said ("unknown").

type Term struct {
	Tag  string
	Sub  []*Term
	F    string // function / comparison / constant
	A, B int    // x: tensor, element;  a: (K) tensor, element; q,^: num, den; smax/amax/amin: index
	K    int
	C    float64
}

type V struct{ v, r float64 }

const ulp = 1.1102230246251565e-16
const tiny = 1e-322

func toInt(x any) int { return int(x.(float64)) }

func isEmptyObj(x any) bool {
	m, ok := x.(map[string]any)
	return ok && len(m) == 0
}

func asSlice(x any) []any {
	if x == nil || isEmptyObj(x) {
		return nil
	}
	return x.([]any)
}

func parseTerms(x any) []*Term {
	s := asSlice(x)
	ts := make([]*Term, 0, len(s))
	for i := range s {
		if a, ok := s[i].([]any); ok && len(a) > 1 && (a[0] == "run" || a[0] == "cmprun") { // an arithmetic progression of elements
			if a[0] == "run" {
				for n, p, k := toInt(a[1]), toInt(a[2]), toInt(a[4]); k > 0; p, k = p+toInt(a[3]), k-1 {
					ts = append(ts, &Term{Tag: "x", A: n, B: p})
				}
			} else {
				for n, m, p := toInt(a[2]), toInt(a[3]), 0; p < toInt(a[4]); p++ {
					ts = append(ts, &Term{Tag: "cmp", F: a[1].(string), Sub: []*Term{{Tag: "x", A: n, B: p}, {Tag: "x", A: m, B: p}}})
				}
			}
			continue
		}
		ts = append(ts, parseTerm(s[i]))
	}
	return ts
}

func parseTerm(x any) *Term {
	a := x.([]any)
	t := &Term{Tag: a[0].(string)}
	switch t.Tag {
	case "x":
		t.A, t.B = toInt(a[1]), toInt(a[2])
	case "a":
		t.K, t.A, t.B = toInt(a[1]), toInt(a[2]), toInt(a[3])
	case "q":
		t.A, t.B = toInt(a[1]), toInt(a[2])
	case "c":
		t.F = a[1].(string)
		c, err := strconv.ParseFloat(t.F, 64)
		if err != nil {
			panic(err)
		}
		t.C = c
	case "+", "*", "maxn", "minn", "mean", "var", "std":
		t.Sub = parseTerms(a[1])
	case "/", "max2", "min2", "gt2", "leak", "dleak":
		t.Sub = []*Term{parseTerm(a[1]), parseTerm(a[2])}
	case "^":
		t.Sub = []*Term{parseTerm(a[1])}
		t.A, t.B = toInt(a[2]), toInt(a[3])
	case "u":
		t.F = a[1].(string)
		t.Sub = []*Term{parseTerm(a[2])}
	case "clip", "in":
		t.Sub = []*Term{parseTerm(a[1]), parseTerm(a[2]), parseTerm(a[3])}
	case "cmp":
		t.F = a[1].(string)
		t.Sub = []*Term{parseTerm(a[2]), parseTerm(a[3])}
	case "smax", "amax", "amin":
		t.A = toInt(a[1])
		t.Sub = parseTerms(a[2])
	default:
		panic("unknown term tag " + t.Tag)
	}
	return t
}

type Env interface {
	X(n, i int) float64
	Adj(k, n, i int) V
}

var unknown = V{0, math.Inf(1)}

func known(v V) bool { return !math.IsNaN(v.v) && !math.IsNaN(v.r) && !math.IsInf(v.r, 0) }

func addV(a, b V) V {
	s := a.v + b.v
	return V{s, a.r + b.r + ulp*math.Abs(s)}
}

func mulV(a, b V) V {
	p := a.v * b.v
	r := math.Abs(a.v)*b.r + math.Abs(b.v)*a.r + a.r*b.r + ulp*math.Abs(p) + tiny
	return V{p, r}
}

func divV(a, b V) V {
	if b.r >= math.Abs(b.v) {
		return unknown
	}
	q := a.v / b.v
	r := (a.r+math.Abs(q)*b.r)/(math.Abs(b.v)-b.r) + 2*ulp*math.Abs(q) + tiny
	return V{q, r}
}

func cmpUnknown() V { return V{0.5, 0.5} }

func (t *Term) Eval(e Env) V {
	switch t.Tag {
	case "x":
		x := e.X(t.A, t.B)
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return unknown // overflowed: outside the claims
		}
		return V{x, 0}
	case "a":
		return e.Adj(t.K, t.A, t.B)
	case "q":
		q := float64(t.A) / float64(t.B)
		return V{q, ulp * math.Abs(q)}
	case "c":
		return V{t.C, 0}
	}
	xs := make([]V, len(t.Sub))
	for i, s := range t.Sub {
		xs[i] = s.Eval(e)
	}
	switch t.Tag {
	case "u", "clip", "in", "gt2", "leak", "dleak", "amax", "amin", "smax", "max2", "min2", "maxn", "minn":
		for _, x := range xs { // bounded functions of an operand outside the claims
			if !known(x) {
				return unknown
			}
		}
	}
	n := float64(len(xs))
	switch t.Tag {
	case "+":
		s, r, m := 0., 0., 0.
		for _, x := range xs {
			s += x.v
			r += x.r
			m += math.Abs(x.v)
		}
		return V{s, r + n*ulp*m}
	case "*":
		p := xs[0]
		for _, x := range xs[1:] {
			p = mulV(p, x)
		}
		return p
	case "/":
		return divV(xs[0], xs[1])
	case "^":
		return powV(xs[0], t.A, t.B)
	case "u":
		return funV(t.F, xs[0])
	case "max2":
		return V{math.Max(xs[0].v, xs[1].v), math.Max(xs[0].r, xs[1].r)}
	case "min2":
		return V{math.Min(xs[0].v, xs[1].v), math.Max(xs[0].r, xs[1].r)}
	case "maxn", "minn":
		m := xs[0]
		for _, x := range xs[1:] {
			if t.Tag == "maxn" {
				m.v = math.Max(m.v, x.v)
			} else {
				m.v = math.Min(m.v, x.v)
			}
			m.r = math.Max(m.r, x.r)
		}
		return m
	case "mean":
		return meanV(xs)
	case "var":
		return varV(xs)
	case "std":
		w := varV(xs)
		if !known(w) || math.IsInf(w.v, 0) {
			return unknown
		}
		s := math.Sqrt(w.v)
		hi := math.Sqrt(w.v + w.r)
		lo := math.Sqrt(math.Max(0, w.v-w.r))
		return V{s, math.Max(hi-s, s-lo) + 2*ulp*s}
	case "clip":
		v := math.Min(math.Max(xs[0].v, xs[1].v), xs[2].v)
		return V{v, xs[0].r}
	case "in":
		x, lo, hi := xs[0], xs[1].v, xs[2].v
		if x.v-x.r > lo && x.v+x.r < hi {
			return V{1, 0}
		}
		if x.v+x.r < lo || x.v-x.r > hi {
			return V{0, 0}
		}
		return cmpUnknown()
	case "gt2":
		d := xs[0].v - xs[1].v
		r := xs[0].r + xs[1].r
		if xs[0].v > xs[1].v && d > r {
			return V{1, 0}
		}
		if xs[0].v < xs[1].v && -d > r {
			return V{0, 0}
		}
		return cmpUnknown()
	case "leak":
		x, m := xs[0], xs[1]
		if x.v > x.r {
			return x
		}
		y := mulV(x, m)
		if x.v < -x.r {
			return y
		}
		if x.v >= 0 {
			y.v = x.v
		}
		y.r = math.Max(y.r, x.r)
		return y
	case "dleak":
		x, m := xs[0], xs[1]
		if x.v > x.r {
			return V{1, 0}
		}
		if x.v < -x.r {
			return m
		}
		return V{(1 + m.v) / 2, math.Abs(1-m.v)/2 + m.r + ulp*(1+math.Abs(m.v))}
	case "amax", "amin":
		j := t.A - 1
		s := 1.
		if t.Tag == "amin" {
			s = -1.
		}
		out := V{1, 0}
		for i, x := range xs {
			if i == j {
				continue
			}
			d := s*xs[j].v - s*x.v
			r := xs[j].r + x.r
			if s*x.v > s*xs[j].v && -d > r {
				return V{0, 0}
			}
			if !(s*xs[j].v > s*x.v && d > r) {
				out = cmpUnknown()
			}
		}
		return out
	case "cmp":
		return cmpV(t.F, xs[0], xs[1])
	case "smax":
		m := math.Inf(-1)
		rm := 0.
		for _, x := range xs {
			if math.Abs(x.v) > 700 { // the property speaks of inputs up to 700
				return unknown
			}
			m = math.Max(m, x.v)
			rm = math.Max(rm, x.r)
		}
		s := 0.
		for _, x := range xs {
			s += math.Exp(x.v - m)
		}
		p := math.Exp(xs[t.A-1].v-m) / s
		rel := (n+16)*ulp + 2*ulp*math.Abs(m-xs[t.A-1].v) + 3*rm
		// a straightforward e^x / sum e^x loses what underflows next to e^max
		return V{p, p*rel + tiny*math.Max(1, math.Exp(math.Min(m, 709)))}
	}
	panic("eval " + t.Tag)
}

func meanV(xs []V) V {
	n := float64(len(xs))
	s, r, m := 0., 0., 0.
	for _, x := range xs {
		s += x.v
		r += x.r
		m += math.Abs(x.v)
	}
	return V{s / n, r/n + (n+1)*ulp*m/n + tiny}
}

func varV(xs []V) V {
	n := float64(len(xs))
	if len(xs) == 1 {
		return V{0, 0}
	}
	mu := meanV(xs)
	s, r := 0., 0.
	for _, x := range xs {
		d := x.v - mu.v
		dr := x.r + mu.r + ulp*math.Abs(d)
		s += d * d
		r += 2*math.Abs(d)*dr + dr*dr
	}
	v := s / (n - 1)
	return V{v, r/(n-1) + (n+3)*ulp*v + tiny}
}

func powV(x V, p, d int) V {
	e := float64(p) / float64(d)
	v := math.Pow(x.v, e)
	if x.r == 0 {
		return V{v, 4*ulp*math.Abs(v) + tiny}
	}
	if d != 1 && x.v-x.r <= 0 {
		return unknown
	}
	if e < 1 && x.r >= math.Abs(x.v) {
		return unknown
	}
	far := math.Abs(x.v) + x.r
	if e < 1 {
		far = math.Abs(x.v) - x.r
	}
	return V{v, math.Abs(e)*math.Pow(far, e-1)*x.r + 4*ulp*math.Abs(v) + tiny}
}

func funV(f string, x V) V {
	a, r := x.v, x.r
	switch f {
	case "exp":
		v := math.Exp(a)
		return V{v, v*math.Expm1(r) + 4*ulp*v + tiny}
	case "log":
		if a-r <= 0 {
			if r == 0 {
				return V{math.Log(a), math.Inf(1)}
			}
			return unknown
		}
		v := math.Log(a)
		return V{v, r/(a-r) + 4*ulp*math.Abs(v)}
	case "sin":
		v := math.Sin(a)
		return V{v, r + 4*ulp*math.Abs(v) + tiny}
	case "cos":
		v := math.Cos(a)
		return V{v, r + 4*ulp*math.Abs(v)}
	case "tan":
		v := math.Tan(a)
		if r == 0 {
			return V{v, 8 * ulp * math.Abs(v)}
		}
		c := math.Abs(math.Cos(a)) - r
		if c <= 0 {
			return unknown
		}
		return V{v, r/(c*c) + 8*ulp*math.Abs(v) + tiny}
	case "sinh":
		v := math.Sinh(a)
		return V{v, r*math.Cosh(math.Abs(a)+r) + 4*ulp*math.Abs(v) + tiny}
	case "cosh":
		v := math.Cosh(a)
		return V{v, r*math.Sinh(math.Abs(a)+r) + 4*ulp*v}
	case "tanh":
		v := math.Tanh(a)
		return V{v, r + 4*ulp*math.Abs(v) + tiny}
	case "sigm":
		var v float64
		if a >= 0 {
			v = 1 / (1 + math.Exp(-a))
		} else {
			ex := math.Exp(a)
			v = ex / (1 + ex)
		}
		// 0x1p-1022: e^-x overflows where the value is not a normal number
		return V{v, v*math.Expm1(r) + 8*ulp*v + 0x1p-1022}
	case "dtanh": // as 1 - tanh^2 or 1 / cosh^2
		f := func(a float64) float64 {
			c := math.Cosh(math.Min(a, 355))
			return 1 / (c * c)
		}
		v := f(math.Abs(a))
		return V{v, around(f, math.Abs(a), r) + 8*ulp*v + 4*ulp}
	case "dsigm": // as s (1 - s) or otherwise
		s := func(a float64) float64 { e := math.Exp(-a); return e / ((1 + e) * (1 + e)) }
		v := s(math.Abs(a))
		e := 2 * ulp
		if a < 0 {
			e = 4*ulp*v + tiny
		}
		return V{v, around(s, math.Abs(a), r) + 12*ulp*v + e}
	}
	panic("fun " + f)
}

// ieee evaluates one scalar function applied to finite elements and tells whether
// it has no finite value there: a pole, a point outside its domain, an overflow.
func ieee(e Env, t *Term) (x float64, special bool) {
	xs := make([]float64, len(t.Sub))
	for i, s := range t.Sub {
		switch {
		case s.Tag == "x":
			xs[i] = e.X(s.A, s.B)
		case s.Tag == "q":
			xs[i] = float64(s.A) / float64(s.B)
		case s.Tag == "c":
			xs[i] = s.C
		case t.Tag == "+" && s.Tag == "*" && len(s.Sub) == 2 && s.Sub[0].Tag == "q" && s.Sub[0].A == -1 && s.Sub[0].B == 1 && s.Sub[1].Tag == "x":
			xs[i] = -e.X(s.Sub[1].A, s.Sub[1].B)
		default:
			return 0, false
		}
		if math.IsNaN(xs[i]) || math.IsInf(xs[i], 0) {
			return 0, false
		}
	}
	switch {
	case t.Tag == "+" && len(xs) == 2:
		x = xs[0] + xs[1]
	case t.Tag == "*" && len(xs) == 2:
		x = xs[0] * xs[1]
	case t.Tag == "/":
		x = xs[0] / xs[1]
	case t.Tag == "^":
		x = math.Pow(xs[0], float64(t.A)/float64(t.B))
	case t.Tag == "u":
		switch t.F {
		case "exp":
			x = math.Exp(xs[0])
		case "log":
			x = math.Log(xs[0])
		case "sinh":
			x = math.Sinh(xs[0])
		case "cosh":
			x = math.Cosh(xs[0])
		}
	}
	return x, math.IsNaN(x) || math.IsInf(x, 0)
}

// sameSpecial leaves open how what lies next to the largest number overflows.
func sameSpecial(obs, x float64) bool {
	if math.IsNaN(x) {
		return math.IsNaN(obs)
	}
	return obs == x || math.Signbit(obs) == math.Signbit(x) && math.Abs(obs) >= 0.999999999*math.MaxFloat64
}

// around bounds the change of a function decreasing on [0, inf) within r of a.
func around(f func(float64) float64, a, r float64) float64 {
	v := f(a)
	return math.Max(f(math.Max(0, a-r))-v, v-f(a+r))
}

func cmpV(f string, a, b V) V {
	one := func(ok bool) V {
		if ok {
			return V{1, 0}
		}
		return V{0, 0}
	}
	if a.r+b.r > 0 && math.Abs(a.v-b.v) <= a.r+b.r {
		return cmpUnknown()
	}
	switch f {
	case "eq", "ne":
		// identical, or farther apart than any absolute tolerance in sight
		if a.v == b.v {
			return one(f == "eq")
		}
		if math.Abs(a.v-b.v) < 1e-150 {
			return cmpUnknown()
		}
		return one(f == "ne")
	case "gt":
		return one(a.v > b.v)
	case "ge":
		return one(a.v >= b.v)
	case "lt":
		return one(a.v < b.v)
	case "le":
		return one(a.v <= b.v)
	}
	panic("cmp " + f)
}

func (t *Term) String() string {
	switch t.Tag {
	case "x":
		return fmt.Sprintf("t%d[%d]", t.A, t.B)
	case "a":
		return fmt.Sprintf("adj%d(t%d[%d])", t.K, t.A, t.B)
	case "q":
		if t.B == 1 {
			return fmt.Sprint(t.A)
		}
		return fmt.Sprintf("%d/%d", t.A, t.B)
	case "c":
		return t.F
	case "^":
		return fmt.Sprintf("pow(%v,%d/%d)", t.Sub[0], t.A, t.B)
	}
	s := t.Tag
	if t.F != "" {
		s += ":" + t.F
	}
	if t.A != 0 {
		s += fmt.Sprintf("#%d", t.A)
	}
	s += "("
	for i, x := range t.Sub {
		if i > 0 {
			s += ","
		}
		s += x.String()
		if len(s) > 300 {
			return s + "...)"
		}
	}
	return s + ")"
}
