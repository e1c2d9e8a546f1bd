package main

import (
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/parser/packrat"
	"pgregory.net/rapid"
)

// ParseCase is a grammar with inputs for it.
type ParseCase struct {
	G      G
	Inputs [][]S
}

func genParseCase(gen func(*rapid.T) G) func(*rapid.T) ParseCase {
	return func(t *rapid.T) ParseCase {
		c := ParseCase{G: gen(t)}
		for k := intn(t, 1, 5); k > 0; k-- {
			c.Inputs = append(c.Inputs, genInput(t, c.G, c.G.inputLimit()))
		}
		return c
	}
}

// genLongCase has the grammars people write with inputs up to 60 tokens.
func genLongCase(t *rapid.T) ParseCase {
	c := ParseCase{}
	switch intn(t, 0, 5) {
	case 0:
		c.G = genOperatorGrammar(t)
	case 5: // the same long list wanted again, later
		list := [][]S{{"x", "L"}, {"x"}}
		if boolean(t) {
			list = [][]S{{"L", "x"}, {"x"}}
		}
		c.G = G{
			{"S", [][]S{{"L", "c"}, {"N", "L", "d"}, {"M", "L", "e", "S"}}},
			{"L", list},
			{"N", [][]S{{"M"}, {"L", "y"}}},
			{"M", [][]S{{}, {"y"}}},
		}
		for k := range c.G[0].P { // in any order
			j := intn(t, k, 2)
			c.G[0].P[k], c.G[0].P[j] = c.G[0].P[j], c.G[0].P[k]
		}
	case 1:
		c.G = G{{"L", [][]S{{"x", "L"}, {}}}}
		if boolean(t) {
			c.G = G{{"L", [][]S{{"L", ",", "I"}, {"I"}}}, {"I", [][]S{{"x"}, {"y"}, {"[", "L", "]"}}}}
		}
	case 2:
		c.G = G{
			{"E", [][]S{{"T", "+", "E"}, {"T"}}},
			{"T", [][]S{{"P", "*", "T"}, {"P"}}},
			{"P", [][]S{{"n"}, {"(", "E", ")"}}},
		}
	case 3:
		c.G = G{
			{"Prog", [][]S{{"Stmts"}}},
			{"Stmts", [][]S{{"Stmt", "Stmts"}, {}}},
			{"Stmt", [][]S{{"id", "=", "Ex", ";"}, {"{", "Stmts", "}"}}},
			{"Ex", [][]S{{"Ex", "+", "id"}, {"id"}, {"num"}}},
		}
	default: // deeply nested
		c.G = G{{"N", [][]S{{"(", "N", ")"}, {"N", "x"}, {}}}}
		if boolean(t) {
			c.G = G{{"N", [][]S{{"a", "M", "a"}, {"c"}}}, {"M", [][]S{{"b", "N", "b"}, {"N"}}}}
		}
	}
	in, ok := derive(t, c.G, 60)
	for k := 0; k < 4 && (!ok || len(in) < 12); k++ {
		if o2, ok2 := derive(t, c.G, 60); ok2 && len(o2) >= len(in) {
			in, ok = o2, ok2
		}
	}
	if !ok {
		in = nil
	}
	c.Inputs = [][]S{append([]S{}, in...)}
	if boolean(t) {
		c.Inputs = append(c.Inputs, mutate(t, in, c.G.terminals()))
	}
	if len(in) > 0 && len(in) < 50 && boolean(t) { // one token again and again
		k := intn(t, 0, len(in)-1)
		long := append([]S{}, in[:k]...)
		for n := intn(t, 1, 60-len(in)); n > 0; n-- {
			long = append(long, in[k])
		}
		c.Inputs = append(c.Inputs, append(long, in[k:]...))
	}
	return c
}

func (c ParseCase) labels(o *Obs) {
	o.LabelIf(c.G.leftRecursive(), "left-recursive")
	o.LabelIf(c.G.hiddenLeft(), "hidden-left-recursion")
	o.LabelIf(c.G.cyclic(), "cyclic")
	o.LabelIf(len(c.G.nullable()) > 0, "nullable")
	o.LabelIf(c.G.maxProd() > 4, "long-production")
	o.LabelIf(len(c.G) > 5, "many-nonterminals")
}

func inputLabels(in []S, accepted bool, o *Obs) {
	o.LabelIf(accepted, "accepted")
	o.LabelIf(!accepted, "rejected")
	o.LabelIf(len(in) == 0, "empty-input")
	o.LabelIf(len(in) > 8, "long-input")
	o.LabelIf(len(in) > 30, "very-long-input")
}

func checkRecognise(c ParseCase, o *Obs) error {
	c.labels(o)
	p := packrat.New(c.G.build())
	if len(c.Inputs) == 1 && packrat.New(grammar.Empty()).Parse(tokens(c.Inputs[0])) != nil {
		return errf("a grammar without non-terminals has a tree for %q", c.Inputs[0])
	}
	for _, in := range c.Inputs {
		want := c.G.chart(in).accepts()
		got := p.Parse(tokens(in)) != nil
		inputLabels(in, want, o)
		o.NonTrivial(len(in) > 1 && want)
		if got != want {
			return errf("packrat accepts %q: %v, the language has it: %v\ngrammar:\n%s", in, got, want, c.G)
		}
	}
	return nil
}

func checkPackratTree(c ParseCase, o *Obs) error {
	c.labels(o)
	p := packrat.New(c.G.build())
	for _, in := range c.Inputs {
		lxs := tokens(in)
		n := p.Parse(lxs)
		if n == nil {
			if c.G.chart(in).accepts() {
				return errf("no tree for %q, which is in the language\ngrammar:\n%s", in, c.G)
			}
			continue
		}
		inputLabels(in, true, o)
		o.NonTrivial(len(in) > 1)
		_, err := checkTree(c.G, lxs, n)
		if err == nil {
			err = checkPositions(c.G, n)
		}
		if err != nil {
			return errf("input %q: %v\ngrammar:\n%s", in, err, c.G)
		}
	}
	return nil
}

// checkPositions checks that a non-terminal is where its first child is.
func checkPositions(g G, n parlex.ParseNode) error {
	if n.Children() > 0 {
		l, c := n.Pos()
		l1, c1 := n.Child(0).Pos()
		if l != l1 || c != c1 {
			return errf("%s is at %d,%d, its first child %s at %d,%d", n.Kind(), l, c, n.Child(0).Kind(), l1, c1)
		}
	}
	for i := 0; i < n.Children(); i++ {
		if err := checkPositions(g, n.Child(i)); err != nil {
			return err
		}
	}
	return nil
}

func checkPackratPriority(c ParseCase, o *Obs) error {
	if c.G.cyclic() {
		o.Label("cyclic-skipped")
		return nil
	}
	p := packrat.New(c.G.build())
	for _, in := range c.Inputs {
		lxs := tokens(in)
		n := p.Parse(lxs)
		ch := c.G.chart(in)
		if n == nil {
			if ch.accepts() {
				return errf("no tree for %q, which is in the language\ngrammar:\n%s", in, c.G)
			}
			continue
		}
		used, err := checkTree(c.G, lxs, n)
		if err != nil {
			return err
		}
		for _, u := range used {
			for k := 0; k < u.prod; k++ {
				if ch.spans(c.G[u.nt].P[k], u.start, u.end) {
					return errf("input %q: %s from %d to %d uses production %d, but production %d derives it too\ntree %s\ngrammar:\n%s",
						in, c.G[u.nt].N, u.start, u.end, u.prod, k, sexpr(n), c.G)
				}
			}
			// a case is non-trivial if there was a choice
			for k := u.prod + 1; k < len(c.G[u.nt].P); k++ {
				if ch.spans(c.G[u.nt].P[k], u.start, u.end) {
					o.NonTrivial(true)
					o.Label("choice")
				}
			}
		}
		inputLabels(in, true, o)
	}
	return nil
}

// genAmbiguous makes grammars in which most strings have several trees.
func genAmbiguous(t *rapid.T) G {
	if oneIn(t, 4) {
		return genGrammar(t)
	}
	names := []S{"A", "B", "C", "D"}
	terms := []S{"x", "y"}
	nn, nt := intn(t, 1, 4), intn(t, 1, 2)
	g := make(G, nn)
	eps := oneIn(t, 4)
	for i := range g {
		g[i].N = names[i]
		for k := intn(t, 2, 5); k > 0; k-- {
			ln := intn(t, 1, 3)
			if eps && oneIn(t, 5) {
				ln = 0
			}
			p := make([]S, ln)
			for l := range p {
				p[l] = terms[intn(t, 0, nt-1)]
				if ln > 1 && intn(t, 0, 2) > 0 {
					p[l] = names[intn(t, 0, nn-1)]
				} else if i+1 < nn && oneIn(t, 3) {
					p[l] = names[intn(t, i+1, nn-1)]
				}
			}
			g[i].P = append(g[i].P, p)
		}
		g[i].P = append(g[i].P, []S{terms[intn(t, 0, nt-1)]})
	}
	return g
}

// OpCase is an expression over binary operators, level by level.
type OpCase struct {
	Ops int // number of operators, lowest precedence first
	// Level is the level of every operator, if several share one; then a level
	// is a non-terminal with its operators as productions.
	Level []int
	Paren bool
	Neg   bool
	Expr  []S
}

var opNames = []S{"+", "-", "*", "/", "^", "=="}

func (c OpCase) grammar() G {
	e := NT{N: "E"}
	leaves := [][]S{{"num"}}
	if c.Paren {
		leaves = append(leaves, []S{"(", "E", ")"})
	}
	if c.Neg {
		leaves = append(leaves, []S{"neg", "num"})
	}
	g := G{e}
	for i := 0; i < c.Ops; i++ {
		if c.Level == nil {
			g[0].P = append(g[0].P, []S{"E", opNames[i], "E"})
			continue
		}
		l := c.Level[i]
		if l+1 == len(g) {
			g = append(g, NT{N: levelName(l)})
			g[0].P = append(g[0].P, []S{"E", levelName(l), "E"})
		}
		g[l+1].P = append(g[l+1].P, []S{opNames[i]})
	}
	g[0].P = append(g[0].P, leaves...)
	return g
}

func levelName(l int) S { return S(fmt.Sprintf("L%d", l)) }

func genOpCase(t *rapid.T) OpCase {
	c := OpCase{Ops: intn(t, 1, len(opNames)), Paren: boolean(t), Neg: oneIn(t, 3)}
	if oneIn(t, 3) {
		c.Level = make([]int, c.Ops)
		for i := 1; i < c.Ops; i++ {
			c.Level[i] = c.Level[i-1] + intn(t, 0, 1)
		}
	}
	var rec func(n int)
	rec = func(n int) {
		for k := 0; k < n; k++ {
			if k > 0 {
				c.Expr = append(c.Expr, opNames[intn(t, 0, c.Ops-1)])
			}
			switch m := intn(t, 0, 7); {
			case m == 7 && c.Paren && len(c.Expr) < 20:
				c.Expr = append(c.Expr, "(")
				rec(intn(t, 1, 3))
				c.Expr = append(c.Expr, ")")
			case m == 6 && c.Neg:
				c.Expr = append(c.Expr, "neg", "num")
			default:
				c.Expr = append(c.Expr, "num")
			}
		}
	}
	rec(size(t, 1, 6, 16))
	return c
}

// climb is precedence climbing with left associative operators.
func (c OpCase) climb() string {
	pos := 0
	prec := map[S]int{}
	for i := 0; i < c.Ops; i++ {
		prec[opNames[i]] = i
		if c.Level != nil {
			prec[opNames[i]] = c.Level[i]
		}
	}
	var expr func(min int) string
	leaf := func() string {
		switch s := c.Expr[pos]; s {
		case "(":
			pos++
			in := expr(0)
			pos++
			return "E(( " + in + " ))"
		case "neg":
			pos += 2
			return "E(neg num)"
		default:
			pos++
			return "E(num)"
		}
	}
	expr = func(min int) string {
		l := leaf()
		for pos < len(c.Expr) {
			op := c.Expr[pos]
			p, ok := prec[op]
			if !ok || p < min {
				break
			}
			pos++
			r := expr(p + 1)
			if c.Level != nil {
				op = S(fmt.Sprintf("%s(%s)", levelName(p), op))
			}
			l = fmt.Sprintf("E(%s %s %s)", l, op, r)
		}
		return l
	}
	return expr(0)
}

func checkOperators(c OpCase, o *Obs) error {
	g := c.grammar()
	n := packrat.New(g.build()).Parse(tokens(c.Expr))
	if n == nil {
		return errf("no tree for %q\ngrammar:\n%s", c.Expr, g)
	}
	ops, kinds := 0, map[S]bool{}
	for _, s := range c.Expr {
		for _, op := range opNames {
			if s == op {
				ops++
				kinds[s] = true
			}
		}
	}
	o.NonTrivial(ops > 1)
	o.LabelIf(len(kinds) > 1, "mixed-operators")
	o.LabelIf(ops > len(kinds), "repeated-operator")
	if got, want := sexpr(n), c.climb(); got != want {
		return errf("%q is %s, the precedences of the productions ask for %s\ngrammar:\n%s", c.Expr, got, want, g)
	}
	return nil
}

func init() {
	how := "a random grammar (1-12 non-terminals, productions of length 0-7, any recursion) or one of the shapes people write (operators, layers, lists, optional parts, dangling else, indirect and hidden left recursion, unit cycles, blocks), with 1-5 inputs: strings derived from it, mutations of those, and arbitrary terminals; "
	long := "grammars people write with inputs of up to 60 tokens; "
	nt := "non-trivial: an input of two or more tokens is accepted"
	register("C11", []string{"lexeme kinds are not non-terminals"},
		&suite[ParseCase]{nm: "recognise", quick: 60000, gen: genParseCase(genGrammar), chk: checkRecognise, rl: how + nt},
		&suite[ParseCase]{nm: "long", quick: 12000, gen: genLongCase, chk: checkRecognise, rl: long + nt},
		&suite[HugeParse]{nm: "huge", quick: 150, gen: genHugeParse(false), chk: checkHugeRecognise, rl: hugeParseRule})
	register("C12", []string{"lexeme kinds are not non-terminals"},
		&suite[ParseCase]{nm: "tree", quick: 60000, gen: genParseCase(genGrammar), chk: checkPackratTree, rl: how + nt},
		&suite[ParseCase]{nm: "long", quick: 12000, gen: genLongCase, chk: checkPackratTree, rl: long + nt},
		&suite[HugeParse]{nm: "huge", quick: 150, gen: genHugeParse(false), chk: checkHugeTree, rl: hugeParseRule})
	register("C13", []string{"lexeme kinds are not non-terminals"},
		&suite[ParseCase]{nm: "priority", quick: 60000, gen: genParseCase(genAmbiguous), chk: checkPackratPriority,
			rl: "grammars over one or two terminals in which most strings have several trees, and those of C11; non-trivial: some node of a tree had more than one production that derives its span"},
		&suite[OpCase]{nm: "operators", quick: 16000, gen: genOpCase, chk: checkOperators,
			rl: "a single ambiguous non-terminal with 1-6 binary operators, each a level of its own or several to a level, and expressions of 1-16 operands, compared with precedence climbing; non-trivial: two or more operators"})
}
