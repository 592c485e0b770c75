package main

import (
	"hash/fnv"
	"math"
	"math/rand"
)

// Valuation domains: which values the driver puts into a free leaf.  Valuation 0
// is generic (distinct, moderate, no ties); odd valuations are adversarial (special
// values, ties, extremes of the domain); even ones mix.

func seedOf(parts ...any) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case int:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(x >> (8 * i))})
			}
		case int64:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(x >> (8 * i))})
			}
		}
		h.Write([]byte{0xff})
	}
	return int64(h.Sum64() >> 1)
}

var ulp1 = math.Nextafter(1, 2)

var specials = map[string][]float64{
	"any": {0, math.Copysign(0, -1), 1, -1, ulp1, 1e-300, -1e-300, 5e-324, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64,
		math.Pi, 1e-250, 2e-250, 3, 3, -2, 1e16, 1e16 + 2, -0.5, 709, -745},
	"e150": {0, math.Copysign(0, -1), 1, -1, ulp1, 1e-150, -1e-150, 1e150, -1e150, 1e100, -3e100, math.Pi, 3, 3, 1e16, 1e16 + 2, -0.5, 7e-90},
	"mid":  {0, math.Copysign(0, -1), 1, -1, 2, 2, -2, 1e-3, -1e-3, 0.5, 100, -100, 1e-250, ulp1, 7, -7},
	"pos":  {1, 2, 0.5, 1e-5, 1e5, ulp1, 1e-300, 1e300, 1e-12, 3, 5e-324},
	"nz":   {1, -1, 2, -2, 1e-3, -1e-3, 1e3, 0.5, ulp1, 1e-140, 1e150, -1e160, 1e-200, 3},
	"tan":  {0, math.Copysign(0, -1), 1, -1, 0.5, 3, 4, 6.5, 1e-8, 1e-300},
	"e700": {0, math.Copysign(0, -1), 1, -1, 700, -700, 699.5, 350, -350, 1e-8, 36.5, -36.5, 20, 30, -30, -20, 400, -400, 1e-250, 5e-324},
	"trig": {0, math.Copysign(0, -1), 1, -1, math.Pi, math.Pi / 2, 1e6, -1e6, 1e-8, 1e-300, 100},
	"unit": {0, 1, 0.5, 1, 0, 0.25, 1e-9, 1 - 1e-9},
	"prob": {0, 1, 0.5, 0.25, 1e-9, 1 - 1e-9, 2e-12, 1 - 2e-12, 1e-11, 5e-13, 1 - 5e-13, 0.999},
	"p6":   {0, 1, 1e6, -1e6, 0.5, 1e-12, 1 - 1e-12, 2e-12, 1e-13, 1 - 1e-13, -1e-13, 1 + 1e-13, -1, 2, 5e-324, math.Copysign(0, -1), 1e-300},
	"G":    {0, 1, -1, 1e3, -1e3, 0.5, 2, -3, 1e-6},
	"w":    {0, 1, -1, 2, 0.5, -0.25, 3, -3, 1e-3},
	"lab":  {0, 1, 2, -1, 3, 1, 0, 2},
	"var":  {0, 1, -1, 1e8, 1e8 + 1, 1e8 + 2, -1e6, 3, 1e-8, 5, 5, 1e100, -1e100, 1e-100},
	"odd":  {math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1, -1, 1e18, -1e19, 0.5, 800, -800},
	"sum":  {0, 1, -1, 1e16, -1e16, 1e-16, 1e200, -1e200, 3, 3, 1e-300, 7, math.Copysign(0, -1)},
}

func generic(dom string, r *rand.Rand) float64 {
	u := 2*r.Float64() - 1
	switch dom {
	case "pos":
		return math.Exp(2 * u)
	case "nz":
		x := 0.3 + 2*r.Float64()
		if u < 0 {
			x = -x
		}
		return x
	case "tan":
		x := 1.3 * u
		return x + math.Pi*float64(r.Intn(3)-1)
	case "e700":
		return 3 * u
	case "unit":
		return r.Float64()
	case "prob":
		return 0.02 + 0.96*r.Float64()
	case "p6":
		return 0.5 + 0.6*u
	case "w":
		return 1.5 * u
	case "lab":
		return float64(r.Intn(3))
	}
	return 3 * u
}

func wide(dom string, r *rand.Rand) float64 {
	u := 2*r.Float64() - 1
	switch dom {
	case "any", "e150":
		return math.Copysign(math.Pow(10, 6*u), r.Float64()-0.5)
	case "mid", "var", "sum":
		return math.Copysign(math.Pow(10, 2*u), r.Float64()-0.5)
	case "pos":
		return math.Pow(10, 4*u)
	case "nz":
		return math.Copysign(math.Pow(10, 3*u), r.Float64()-0.5)
	case "e700":
		if r.Intn(2) == 0 {
			return 700 * u
		}
		return 40 * u
	case "trig":
		return 1e3 * u
	case "p6":
		return 1e6 * u
	case "prob":
		return math.Pow(10, -11.9*r.Float64())
	case "G":
		return 100 * u
	}
	return generic(dom, r)
}

func leafValues(dom string, n int, vi int, r *rand.Rand) []float64 {
	out := make([]float64, n)
	sp, ok := specials[dom]
	if !ok {
		panic("unknown domain " + dom)
	}
	if dom == "odd" { // values no other domain has; only for totality
		one := r.Intn(4) == 0
		x := sp[r.Intn(len(sp))]
		for i := range out {
			out[i] = x
			if !one {
				out[i] = sp[r.Intn(len(sp))]
			}
		}
		return out
	}
	if vi > 0 && r.Intn(12) == 0 { // one value everywhere, as the constructors make them
		x := generic(dom, r)
		if r.Intn(2) == 0 {
			x = sp[r.Intn(len(sp))]
		} else if zeroAndOne(dom) && r.Intn(2) == 0 {
			x = float64(r.Intn(2))
		}
		for i := range out {
			out[i] = x
		}
		return out
	}
	if vi > 0 && r.Intn(4) == 0 {
		return cluster(dom, n, sp, r)
	}
	for i := range out {
		mode := 0
		if vi > 0 {
			if vi%2 == 1 {
				mode = []int{1, 1, 1, 2, 0}[r.Intn(5)]
			} else {
				mode = []int{0, 2, 2, 1}[r.Intn(4)]
			}
		}
		switch mode {
		case 0:
			out[i] = generic(dom, r)
		case 1:
			out[i] = sp[r.Intn(len(sp))]
		case 2:
			out[i] = wide(dom, r)
		}
	}
	if vi > 0 && n > 1 && r.Intn(4) == 0 { // force some ties
		for k := 0; k < 1+n/3; k++ {
			out[r.Intn(n)] = out[r.Intn(n)]
		}
	}
	return out
}

// zeroAndOne tells whether 0 and 1 are values of the domain.
func zeroAndOne(dom string) bool {
	zero, one := false, false
	for _, x := range specials[dom] {
		zero, one = zero || math.Float64bits(x) == 0, one || x == 1
	}
	return zero && one
}

// cluster fills a leaf with values that have something in common: all of one sign,
// all extreme, all within a few units in the last place, or all equal.
func cluster(dom string, n int, sp []float64, r *rand.Rand) []float64 {
	out := make([]float64, n)
	inside := func(x float64) bool { // stays in the domain around special values
		switch dom {
		case "any", "sum", "var", "w", "G", "mid", "p6", "trig":
			return true
		case "pos":
			return x > 0
		case "nz":
			return math.Abs(x) >= 1e-200
		case "e150":
			return math.Abs(x) <= 2e150
		case "e700":
			return math.Abs(x) <= 700
		case "unit", "prob":
			return x >= 0 && x <= 1
		}
		return false
	}
	base := wide(dom, r)
	if r.Intn(2) == 0 {
		base = sp[r.Intn(len(sp))]
	}
	style := r.Intn(6)
	noise := math.Pow(10, -3-9*r.Float64())
	if dom == "any" && style == 0 {
		base = []float64{-1.5e308, 1.5e308, -3e-308, 3e-308, -1e-320, 1e-320, -1e301, 1e301}[r.Intn(8)]
	}
	for i := range out {
		x := base
		switch style {
		case 0: // the same magnitude and sign
			x = base * (1 + r.Float64()/8)
			if math.IsInf(x, 0) {
				x = base
			}
		case 1: // neighbours
			for k := r.Intn(4); k > 0; k-- {
				x = math.Nextafter(x, math.Inf(1-2*r.Intn(2)))
			}
		case 2: // equal but for a small relative deviation
			if i == n/2 || r.Intn(8) == 0 {
				x = base * (1 + []float64{1e-6, 1e-9, 1e-12, 1e-15}[r.Intn(4)])
			}
		case 3: // one sign
			x = math.Copysign(wide(dom, r), base)
		case 4: // equal
		case 5: // nearly constant
			x = base * (1 + noise*(2*r.Float64()-1))
		}
		if math.IsInf(x, 0) || math.IsNaN(x) || !inside(x) {
			x = generic(dom, r)
		}
		out[i] = x
	}
	return out
}
