package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
)

// A behaviour of the specification (spec/Qeep.tla), as written by TLC.

type Par struct {
	D    int
	S    []int
	R    [][2]int
	Q    []any
	Nilc bool
}

type Eq struct {
	N   int
	El  []*Term
	Sp  []SpTerm // sparse: the summands of single elements, all others being Def
	Def float64
}

// SpTerm is the term of one element of a large tensor (spec/Gen_Large.tla).
type SpTerm struct {
	I int
	T *Term
}

func parseSp(x any) (out []SpTerm) {
	for _, q := range asSlice(x) {
		p := q.([]any)
		out = append(out, SpTerm{toInt(p[0]), parseTerm(p[1])})
	}
	return
}

type Event struct {
	T, Op, Dom, Via, Init  string
	Lo, Hi                 string
	ID, N, M, Root, K, G   int
	Links                  int
	S, W, B, X, Ins, Outs  int
	In, Sh, Idx            []int
	Par                    Par
	OK, Tr, Nilc           bool
	El                     []*Term
	Sp                     []SpTerm
	Eqs                    []Eq
	Q, Lr                  []any
	O, Rep, Total, Correct int
	Pat                    [][2]int
	Tries                  []Try
	Calls                  []Call
}

// Try is one probed operation, Call one probed constructor or component call.
type Try struct {
	Op  string
	In  []int
	Par Par
	Res string
	Sh  []int
}

type Call struct {
	F              string
	Dims, A, P     []int
	K              []string
	Dev            string
	Nild, Nilc, Ne bool
	Data           any
	Res            string
	Sh             []int
}

type Alt struct { // alternate expectation of a known finding
	ID       string
	N        int
	Num, Den float64
}

type Behaviour struct {
	Case string
	Ev   []Event
	Alts []Alt
	Raw  string
}

func ints(x any) []int {
	s := asSlice(x)
	out := make([]int, len(s))
	for i := range s {
		out[i] = huge(toInt(s[i]))
	}
	return out
}

// huge replaces the specification's tokens for extreme integers (spec/Contracts.tla).
func huge(n int) int {
	switch n {
	case 2000000001:
		return 1<<62 + 1
	case 2000000002:
		return math.MaxInt
	case -2000000002:
		return math.MinInt
	}
	return n
}

func getInt(m map[string]any, k string) int {
	if v, ok := m[k]; ok {
		if f, ok := v.(float64); ok {
			return int(f)
		}
	}
	return 0
}

func getBool(m map[string]any, k string) bool  { b, _ := m[k].(bool); return b }
func getStr(m map[string]any, k string) string { s, _ := m[k].(string); return s }

func parsePar(x any) (p Par) {
	m, ok := x.(map[string]any)
	if !ok {
		return
	}
	p.D = huge(getInt(m, "d"))
	p.S = ints(m["s"])
	for _, r := range asSlice(m["r"]) {
		q := ints(r)
		p.R = append(p.R, [2]int{q[0], q[1]})
	}
	p.Q = asSlice(m["q"])
	p.Nilc = getBool(m, "nilc")
	return
}

func parseEvent(m map[string]any) (e Event) {
	e.T, e.Op, e.Dom, e.Via, e.Init = getStr(m, "t"), getStr(m, "op"), getStr(m, "dom"), getStr(m, "via"), getStr(m, "init")
	e.Lo, e.Hi = getStr(m, "lo"), getStr(m, "hi")
	e.ID, e.N, e.M, e.Root, e.K = getInt(m, "id"), getInt(m, "n"), getInt(m, "m"), getInt(m, "root"), getInt(m, "k")
	e.S, e.W, e.B, e.X, e.Ins, e.Outs = getInt(m, "s"), getInt(m, "w"), getInt(m, "b"), getInt(m, "x"), getInt(m, "ins"), getInt(m, "outs")
	e.In, e.Sh, e.Idx = ints(m["in"]), ints(m["sh"]), ints(m["idx"])
	e.Par = parsePar(m["par"])
	e.Links, e.G = getInt(m, "links"), getInt(m, "g")
	e.OK, e.Tr, e.Nilc = getBool(m, "ok"), getBool(m, "tr"), getBool(m, "nilc")
	if el, ok := m["el"].([]any); ok {
		if len(el) > 0 {
			if _, isTag := el[0].(string); isTag {
				e.El = []*Term{parseTerm(el)}
			} else {
				e.El = parseTerms(el)
			}
		}
	}
	for _, q := range asSlice(m["eqs"]) {
		qm := q.(map[string]any)
		eq := Eq{N: getInt(qm, "n"), El: parseTerms(qm["el"])}
		if _, ok := qm["def"]; ok {
			eq.Sp, eq.Def = parseSp(qm["sp"]), float64(getInt(qm, "def"))
			eq.El = nil
		}
		e.Eqs = append(e.Eqs, eq)
	}
	if sp, ok := m["sp"]; ok {
		e.Sp = parseSp(sp)
	}
	e.Q, e.Lr = asSlice(m["q"]), asSlice(m["lr"])
	if e.T == "acc" {
		e.Op = getStr(m, "k")
		e.O, e.Rep, e.Total, e.Correct = getInt(m, "o"), getInt(m, "rep"), getInt(m, "total"), getInt(m, "correct")
		for _, q := range asSlice(m["pat"]) {
			x := ints(q)
			e.Pat = append(e.Pat, [2]int{x[0], x[1]})
		}
	}
	for _, x := range asSlice(m["list"]) {
		l := x.(map[string]any)
		if e.T == "tries" {
			e.Tries = append(e.Tries, Try{getStr(l, "op"), ints(l["in"]), parsePar(l["par"]), getStr(l, "res"), ints(l["sh"])})
		} else {
			c := Call{F: getStr(l, "f"), Dims: ints(l["dims"]), A: ints(l["a"]), P: ints(l["p"]), Dev: getStr(l, "dev"),
				Nild: getBool(l, "nild"), Nilc: getBool(l, "nilc"), Ne: getBool(l, "ne"), Data: l["data"], Res: getStr(l, "res"), Sh: ints(l["sh"])}
			for _, k := range asSlice(l["k"]) {
				c.K = append(c.K, k.(string))
			}
			e.Calls = append(e.Calls, c)
		}
	}
	return
}

func parseBehaviour(raw string) (*Behaviour, error) {
	if strings.HasPrefix(raw, `"`) { // a TLA+ string, as TLC prints it
		var in string
		if e := json.Unmarshal([]byte(strings.TrimSpace(raw)), &in); e != nil {
			return nil, fmt.Errorf("bad TLC line: %w", e)
		}
		raw = in
	}
	var m map[string]any
	if err := json.Unmarshal([]byte(raw), &m); err != nil {
		return nil, err
	}
	cs, _ := json.Marshal(m["case"])
	b := &Behaviour{Case: string(cs), Raw: raw}
	for _, ev := range asSlice(m["ev"]) {
		em := ev.(map[string]any)
		if getStr(em, "t") == "alt" {
			b.Alts = append(b.Alts, Alt{getStr(em, "id"), getInt(em, "n"), float64(getInt(em, "num")), float64(getInt(em, "den"))})
			continue
		}
		b.Ev = append(b.Ev, parseEvent(em))
	}
	return b, nil
}

// tlcLines calls f with every JSON line TLC printed into the file.
func tlcLines(path string, f func(raw string) error) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	rd := bufio.NewReaderSize(fh, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if strings.HasPrefix(line, `"{`) {
			if e := f(line); e != nil {
				return e
			}
		}
		if err != nil {
			return nil
		}
	}
}
