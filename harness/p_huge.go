package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"pgregory.net/rapid"
)

// Inputs that are far larger than the generators make otherwise. A case only
// says how they are made.

// Part is a piece of text, repeated.
type Part struct {
	Text S
	N    int
}

// HugeLex is a long text for one of two fixed lexers.
type HugeLex struct {
	Stack bool
	Prio  bool
	Parts []Part
}

var hugeRules = []LRule{
	{Kind: "word", Re: `[a-z]+`},
	{Kind: "sp", Re: ` +`, Discard: true},
	{Kind: "nl", Re: `\n`},
	{Kind: "num", Re: `\d+`},
	{Kind: "str", Re: `"[^"]*"`},
	{Kind: "ab", Re: `ab`},
	{Kind: "semi", Re: `;\n`, Discard: true},
}

var hugeSubs = []Sub{
	{Name: "Main", Lines: append([]LRule{{Kind: "open", Re: `\(`, Push: "In"}}, hugeRules...)},
	{Name: "In", Lines: []LRule{{Kind: "more", Re: `\(`, Push: "In"}, {Kind: "close", Re: `\)`, Pop: 1}, {Kind: "out", Re: `!`, Pop: 300}, {Inherit: "Main"}}},
}

func genHugeLex(stack int) func(t *rapid.T) HugeLex {
	return func(t *rapid.T) HugeLex {
		c := HugeLex{Stack: stack == 1 || stack == 2 && boolean(t), Prio: oneIn(t, 4)}
		pushes, big := 0, false
		for k := intn(t, 1, 6); k > 0; k-- {
			p := Part{Text: pick(t, S("\n"), S("a"), S("?"), S(" "), S("ab "), S("12 \n"), S("\"\n\" "), S(";\n"), S("é"), S("("), S(")"), S("?\n"), S("!"))}
			switch {
			case p.Text == "(" || p.Text == ")":
				p.N = intn(t, 1, 300)
				pushes += p.N
			case p.Text == "!":
				p.N = 1
			case len(p.Text) == 1 && pushes == 0 && !big:
				big = true
				p.N = pick(t, 1, 255, 256, 300, 1000, 4096, 32768, 65536, 70000) + intn(t, 0, 2)
			default:
				p.N = pick(t, 1, 100, 255, 256, 300, 1100) + intn(t, 0, 2)
			}
			c.Parts = append(c.Parts, p)
		}
		return c
	}
}

func (c HugeLex) text() string {
	var b strings.Builder
	for _, p := range c.Parts {
		b.WriteString(strings.Repeat(string(p.Text), p.N))
	}
	return b.String()
}

func checkHugeLex(c HugeLex, o *Obs) error {
	in := c.text()
	o.LabelIf(len(in) > 1<<16, "over-65536-bytes")
	o.LabelIf(len(in) > 1<<8, "over-256-bytes")
	o.LabelIf(c.Stack, "stacklexer")
	o.NonTrivial(len(in) > 255)
	opts := LOpts{ByPriority: c.Prio}
	var got, want []MLex
	lay := Layout{}
	if c.Stack {
		l, err := stacklexer.New(subText(lay, true, hugeSubs))
		if err != nil {
			return err
		}
		if c.Prio {
			l.ByPriority()
		}
		got, want = observe(l.Lex(in)), modelLex(in, "Main", flatten(hugeSubs), opts, 1)
	} else {
		l, err := simplelexer.New(lay.lines(hugeRules))
		if err != nil {
			return err
		}
		if c.Prio {
			l.ByPriority()
		}
		got, want = observe(l.Lex(in)), modelLex(in, "", map[string]*subModel{"": {rules: hugeRules}}, opts, 0)
	}
	o.LabelIf(len(want) > 255, "over-255-lexemes")
	for i := range want {
		if len(want[i].Val) > 200 && i < len(got) && got[i] == want[i] {
			want[i].Val, got[i].Val = "...", "..."
		}
	}
	if err := sameLex(got, want, true); err != nil {
		return errf("%s", cut(err.Error()))
	}
	return nil
}

func hugeLex(stack int) *suite[HugeLex] {
	return &suite[HugeLex]{nm: "huge", quick: 100, gen: genHugeLex(stack), chk: checkHugeLex,
		rl: "texts of 1-6 pieces that are repeated up to 70000 times, for fixed rules; non-trivial: more than 255 bytes"}
}

const hugeParseRule = "lists, nesting, one production of up to 600 symbols, up to 300 alternatives and symbols, with inputs of up to 600 and sometimes 33000 lexemes, right or wrong at one place; non-trivial: more than 100 lexemes or alternatives"

func cut(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

// HugeParse is a long input for a grammar of which it is clear what it derives.
type HugeParse struct {
	Shape int
	N     int
	Wrong int // what is wrong with the input, if > 0
	At    int
	Alts  int
}

// shapes of which the last two only suit packrat
const hugeShapes = 7

func (c HugeParse) grammar() (G, []S) {
	rep := func(n int, s ...S) []S {
		var out []S
		for ; n > 0; n-- {
			out = append(out, s...)
		}
		return out
	}
	n := c.N
	switch c.Shape {
	case 0:
		return G{{"L", [][]S{{"x", "L"}, {"x"}}}}, rep(n, "x")
	case 1:
		return G{{"N", [][]S{{"(", "N", ")"}, {"m"}}}}, append(append(rep(n, "("), "m"), rep(n, ")")...)
	case 2: // many symbols
		g := G{{"L", [][]S{{"I", ",", "L"}, {"I"}}}, {N: "I"}}
		for k := 0; k < c.Alts; k++ {
			g[1].P = append(g[1].P, []S{S(fmt.Sprintf("K%d", k))})
			g = append(g, NT{S(fmt.Sprintf("K%d", k)), [][]S{{S(fmt.Sprintf("k%d", k))}}})
		}
		var in []S
		for k := 0; k < min(n, 120); k++ {
			in = append(in, S(fmt.Sprintf("k%d", (c.At+k*7)%c.Alts)), ",")
		}
		return g, in[:len(in)-1]
	case 3: // one long production
		p := rep(n, "x", "Y")
		return G{{"S", [][]S{append(p[:len(p):len(p)], "z"), p}}, {"Y", [][]S{{"y"}}}}, rep(n, "x", "y")
	case 4: // many productions for one symbol
		g := G{{"S", [][]S{{"T", "S"}, {"T"}}}, {N: "T"}}
		for k := 0; k < c.Alts; k++ {
			g[1].P = append(g[1].P, []S{S(fmt.Sprintf("t%d", k)), "end"})
		}
		var in []S
		for k := 0; k < min(n, 60); k++ {
			in = append(in, S(fmt.Sprintf("t%d", (c.At+k*11)%c.Alts)), "end")
		}
		return g, in
	case 5:
		in := rep(n, "x", ",")
		return G{{"L", [][]S{{"L", ",", "I"}, {"I"}}}, {"I", [][]S{{"x"}}}}, in[:len(in)-1]
	}
	in := rep(n, "n", "+")
	return G{{"E", [][]S{{"E", "+", "T"}, {"T"}}}, {"T", [][]S{{"T", "*", "P"}, {"P"}}}, {"P", [][]S{{"n"}, {"(", "E", ")"}}}}, in[:len(in)-1]
}

func genHugeParse(down bool) func(t *rapid.T) HugeParse {
	return func(t *rapid.T) HugeParse {
		k := hugeShapes
		if down {
			k -= 2
		}
		c := HugeParse{Shape: intn(t, 0, k-1), Alts: pick(t, 10, 130, 256, 300)}
		c.N = pick(t, 1, 100, 128, 255, 256, 257, 300) + intn(t, 0, 2)
		if down || c.Shape != 0 && c.Shape != 3 {
			c.N = pick(t, 1, 100, 128, 255, 256, 257, 300, 600) + intn(t, 0, 2)
			if rare(t) && (down || c.Shape == 5) && c.Shape != 3 {
				c.N = pick(t, 4096, 33000)
			}
		}
		c.Wrong = pick(t, 0, 0, 1, 2, 3)
		c.At = intn(t, 0, 300)
		return c
	}
}

// input is the input, and whether it is derived.
func (c HugeParse) input(in []S) ([]S, bool) {
	in = append([]S{}, in...)
	switch c.Wrong {
	case 1: // something that does not occur
		in[c.At%len(in)] = "wrong"
		return in, false
	case 2: // too much: no prefix of these inputs with it is derived
		return append(in, "wrong"), false
	case 3: // not all of it
		if c.Shape == 0 && len(in) > 1 {
			return in[1:], true
		}
		return in[:len(in)-1], false
	}
	return in, true
}

func (c HugeParse) labels(o *Obs, in []S, want bool) {
	inputLabels(in, want, o)
	o.LabelIf(len(in) > 255, "over-255-lexemes")
	o.LabelIf(len(in) > 32767, "over-32767-lexemes")
	o.NonTrivial(len(in) > 100 || c.Alts > 100)
}

func checkHugeRecognise(c HugeParse, o *Obs) error {
	g, in := c.grammar()
	in, want := c.input(in)
	c.labels(o, in, want)
	if got := packrat.New(g.build()).Parse(tokens(in)) != nil; got != want {
		return errf("packrat accepts %d lexemes: %v, the language has them: %v", len(in), got, want)
	}
	return nil
}

func checkHugeTree(c HugeParse, o *Obs) error {
	g, in := c.grammar()
	in, want := c.input(in)
	c.labels(o, in, want)
	lxs := tokens(in)
	n := packrat.New(g.build()).Parse(lxs)
	if n == nil {
		if want {
			return errf("no tree for %d lexemes", len(in))
		}
		return nil
	}
	_, err := checkTree(g, lxs, n)
	if err == nil {
		err = checkPositions(g, n)
	}
	if err != nil {
		return errf("%d lexemes: %s", len(in), cut(err.Error()))
	}
	return nil
}

func checkHugeDown(c HugeParse, o *Obs) error {
	g, in := c.grammar()
	in, want := c.input(in)
	c.labels(o, in, want)
	lxs := tokens(in)
	p, err := topdown.New(g.build())
	if err != nil {
		return err
	}
	n := p.Parse(lxs)
	if (n != nil) != want {
		return errf("topdown accepts %d lexemes: %v, expected: %v", len(in), n != nil, want)
	}
	if n == nil {
		return nil
	}
	if _, err := checkTree(g, lxs, n); err != nil {
		return errf("%d lexemes: %s", len(in), cut(err.Error()))
	}
	return nil
}
