package main

import (
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"pgregory.net/rapid"
)

// counted counts how often the productions of a grammar are asked for, and
// stops a parser that asks far too often.
type counted struct {
	parlex.Grammar
	calls, budget int
}

func (c *counted) Productions(s parlex.Symbol) parlex.Productions {
	if c.calls++; c.calls > c.budget {
		panic(fmt.Sprintf("the productions were looked up %d times", c.calls))
	}
	return c.Grammar.Productions(s)
}

// CostCase is a grammar with a long input, made of the parts A^n mid B^n tail.
type CostCase struct {
	G    G
	Open []S
	Mid  []S
	End  []S
	N    int
	Tail []S
	Down bool
}

func (c CostCase) input() []S {
	var out []S
	for i := 0; i < c.N; i++ {
		out = append(out, c.Open...)
	}
	out = append(out, c.Mid...)
	for i := 0; i < c.N; i++ {
		out = append(out, c.End...)
	}
	return append(out, c.Tail...)
}

func genTermsSeq(t *rapid.T, terms []S, lo, hi int) []S {
	out := []S{}
	for k := intn(t, lo, hi); k > 0; k-- {
		out = append(out, terms[intn(t, 0, len(terms)-1)])
	}
	return out
}

// genBacktrack makes a nest of brackets whose productions differ only in their
// last symbol, or after it, so that every level has to be read again unless it
// is remembered. The prefix has up to six symbols.
func genBacktrack(t *rapid.T) (c CostCase) {
	levels := intn(t, 1, 3)
	names := []S{"X", "Y", "Z"}[:levels]
	ends := []S{"a", "b", "c", "d"}[:intn(t, 2, 4)]
	first := []NT{}
	in := make([]NT, levels)
	for l := range in {
		in[l].N = names[l]
		pre, post := []S{}, []S{}
		for k := intn(t, 1, 3); k > 0; k-- {
			pre = append(pre, S(fmt.Sprintf("%c%d", 'o'+rune(l), k)))
		}
		for k := intn(t, 0, 3); k > 0; k-- {
			post = append(post, S(fmt.Sprintf("%c%d", 's'+rune(l), k)))
		}
		inner := names[(l+1)%levels]
		if oneIn(t, 4) { // by way of another non-terminal
			w := S(fmt.Sprintf("W%d", l))
			first = append(first, NT{w, [][]S{{inner}}})
			inner = w
		}
		for _, e := range ends {
			in[l].P = append(in[l].P, append(append(append(append([]S{}, pre...), inner), post...), e))
		}
		if oneIn(t, 3) { // the ends are optional
			in[l].P = append(in[l].P, in[l].P[0][:len(in[l].P[0])-1])
		}
		in[l].P = append(in[l].P, []S{"m"})
		c.Open = append(c.Open, pre...)
		c.End = append(append(append([]S{}, post...), ends[intn(t, 0, len(ends)-1)]), c.End...)
	}
	c.G = append(append(c.G, in...), first...)
	c.Mid, c.N = []S{"m"}, intn(t, 1, 40/levels)
	if oneIn(t, 4) {
		c.Tail = []S{pick[S](t, "m", "a", "b")}
	}
	if oneIn(t, 4) {
		c.Mid = []S{}
	}
	return c
}

func genCostCase(t *rapid.T) CostCase {
	if oneIn(t, 3) {
		c := genBacktrack(t)
		c.Down = !oneIn(t, 4)
		return c
	}
	c := CostCase{Down: boolean(t)}
	if c.Down {
		switch intn(t, 0, 4) {
		case 0: // every level has to be read again for the next alternative
			c.G = G{
				{"E", [][]S{{"T", "+", "E"}, {"T", "-", "E"}, {"T"}}},
				{"T", [][]S{{"P", "*", "T"}, {"P", "/", "T"}, {"P"}}},
				{"P", [][]S{{"(", "E", ")", "!"}, {"(", "E", ")"}, {"n"}}},
			}
			c.Open, c.Mid, c.End, c.N = []S{"("}, []S{"n"}, []S{")"}, intn(t, 1, 60)
			if oneIn(t, 4) {
				c.Tail = []S{pick[S](t, "!", "+", ")", "n")}
			}
		case 1:
			c.G = G{
				{"S", [][]S{{"a", "S", "b"}, {"a", "S", "c"}, {"a", "S", "d"}, {"x"}}},
			}
			c.Open, c.Mid, c.End, c.N = []S{"a"}, []S{"x"}, []S{pick[S](t, "b", "c", "d", "e")}, intn(t, 1, 80)
		case 2:
			c.G = G{
				{"S", [][]S{{"A", "S", "y"}, {"A", "S", "z"}, {"A", "A"}, {"A"}}},
				{"A", [][]S{{"x"}, {"w"}}},
			}
			c.Open, c.Mid, c.End, c.N = []S{"x"}, []S{"w"}, []S{pick[S](t, "y", "z", "x")}, intn(t, 1, 80)
		case 3:
			c.G = G{{"L", [][]S{{"I", ",", "L"}, {"I", ";", "L"}, {"I"}}}, {"I", [][]S{{"i"}, {"[", "L", "]"}, {"[", "L", "}"}, {"[", "]"}}}}
			c.Open, c.Mid, c.End, c.N = pick(t, []S{"["}, []S{"i", ","}, []S{"[", "i", ";"}), []S{"i"}, pick(t, []S{"]"}, []S{}, []S{"}"}), intn(t, 1, 60)
		default:
			c.G = genRight(t)
			for k := 0; k < 4 && (c.G.leftRecursive() || c.G.maxProd() > 4); k++ {
				c.G = genRight(t)
			}
			if c.G.leftRecursive() {
				c.G = G{{"S", [][]S{{"x", "S"}, {}}}}
			}
			if terms := c.G.terminals(); len(terms) > 0 {
				c.Open, c.Mid, c.End = genTermsSeq(t, terms, 1, 3), genTermsSeq(t, terms, 0, 2), genTermsSeq(t, terms, 0, 2)
			}
			c.N = intn(t, 4, 60)
		}
		return c
	}
	switch intn(t, 0, 5) {
	case 0:
		c.G = G{{"S", [][]S{{"S", "S"}, {"x"}}}}
		c.Open, c.N = []S{"x"}, intn(t, 1, 60)
	case 1:
		c.G = G{{"S", [][]S{{"S", "S", "S"}, {"S", "S"}, {"x"}, {}}}}
		c.Open, c.N = []S{"x"}, intn(t, 1, 40)
	case 2:
		c.G = genOperatorGrammar(t)
		c.Mid, c.End, c.N = []S{"num"}, []S{pick[S](t, "+", "*"), "num"}, intn(t, 1, 24)
		for _, n := range c.G.terminals() {
			if n == "n" {
				c.Mid, c.End[1] = []S{"n"}, "n"
			}
		}
	case 3: // cycles and empty symbols
		c.G = G{
			{"S", [][]S{{"A", "S", "B"}, {"A"}, {"x"}, {}}},
			{"A", [][]S{{"B"}, {"S", "x"}, {}}},
			{"B", [][]S{{"A"}, {"y"}, {}}},
		}
		c.Open, c.End, c.N = []S{"x"}, []S{pick[S](t, "y", "x")}, intn(t, 1, 12)
	case 4:
		c.G = G{
			{"E", [][]S{{"T", "+", "E"}, {"T", "-", "E"}, {"T"}}},
			{"T", [][]S{{"P", "*", "T"}, {"P", "/", "T"}, {"P"}}},
			{"P", [][]S{{"(", "E", ")", "!"}, {"(", "E", ")"}, {"n"}}},
		}
		c.Open, c.Mid, c.End, c.N = []S{"("}, []S{"n"}, []S{")"}, intn(t, 1, 60)
	default:
		c.G = genAmbiguous(t)
		for k := 0; k < 4 && c.G.maxProd() > 3; k++ {
			c.G = genAmbiguous(t)
		}
		if c.G.maxProd() > 3 {
			c.G = G{{"S", [][]S{{"S", "S"}, {"x"}}}}
		}
		terms := c.G.terminals()
		if len(terms) > 0 {
			c.Open, c.End = genTermsSeq(t, terms, 1, 2), genTermsSeq(t, terms, 0, 1)
		}
		c.N = intn(t, 4, 12)
	}
	return c
}

func checkCost(c CostCase, o *Obs) error {
	in := c.input()
	gr := &counted{Grammar: c.G.build(), budget: 1 << 40}
	var p parlex.Parser = packrat.New(gr)
	if c.Down {
		o.Label("topdown")
		var err error
		if p, err = topdown.New(gr); err != nil {
			return errf("New: %v\n%s", err, c.G)
		}
	}
	gr.calls = 0
	gr.budget = 1000 + 20*(len(c.G.symbols())+2)*(len(in)+1)*(len(in)+1)
	var n parlex.ParseNode
	if err := try(func() { n = p.Parse(tokens(in)) }); err != nil {
		return errf("%d tokens: %v\ninput %q\n%s", len(in), err, in, c.G)
	}
	inputLabels(in, n != nil, o)
	o.NonTrivial(len(in) > 12)
	if n != nil {
		// the tree has to spell the input
		if _, err := checkTree(c.G, tokens(in), n); err != nil {
			return errf("input %q: %v\n%s", in, err, c.G)
		}
	} else if len(in) < 60 && !c.Down && c.G.chart(in).accepts() {
		return errf("%q is not accepted\n%s", in, c.G)
	}
	return nil
}

func init() {
	register("C29", []string{"work is counted as look-ups of productions, at most 20 for each symbol and pair of positions, and as 20 s of processor time for each case"},
		&suite[CostCase]{nm: "cost", quick: 4000, gen: genCostCase, chk: checkCost,
			rl: "ambiguous, cyclic and backtracking grammars with inputs of up to 240 tokens built from a repeated opening and closing part; non-trivial: more than 12 tokens"})
}
