package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/tree"
	"pgregory.net/rapid"
)

// ---- Run with stand-ins

// RunCase says what the stand-ins for the components do.
type RunCase struct {
	Input    S
	NilLex   bool
	Lexemes  int
	Errs     []int // which lexemes are errors
	NoParse  bool
	Reducers []int // 0 nil, 1 gives a new node, 2 gives nil, 3 gives its argument
	Times    int
}

func genRunCase(t *rapid.T) RunCase {
	c := RunCase{Input: pick(t, S(""), S("a b"), S("x\ny"), S("\xff")), NilLex: oneIn(t, 8), Lexemes: intn(t, 0, 6), NoParse: oneIn(t, 6), Times: intn(t, 1, 3)}
	if oneIn(t, 3) {
		for k := intn(t, 1, 3); k > 0; k-- {
			c.Errs = append(c.Errs, intn(t, 0, 5))
		}
	}
	if rare(t) {
		c.Lexemes = intn(t, 20, 200)
		c.Errs = append(c.Errs, intn(t, 0, c.Lexemes))
	}
	for k := size(t, 0, 5, 20); k > 0; k-- {
		c.Reducers = append(c.Reducers, pick(t, 0, 1, 1, 3, 2, 1))
	}
	return c
}

type badLexeme struct {
	*lexeme.Lexeme
}

func (b *badLexeme) Error() string { return "bad " + b.V }

type fakeLexer func(string) []parlex.Lexeme

func (f fakeLexer) Lex(s string) []parlex.Lexeme { return f(s) }

type fakeParser func([]parlex.Lexeme) parlex.ParseNode

func (f fakeParser) Parse(l []parlex.Lexeme) parlex.ParseNode { return f(l) }

type fakeReducer func(parlex.ParseNode) parlex.ParseNode

func (f fakeReducer) Reduce(n parlex.ParseNode) parlex.ParseNode { return f(n) }
func (f fakeReducer) Can(parlex.ParseNode) bool                  { return false }

func checkRun(c RunCase, o *Obs) error {
	var lxs []parlex.Lexeme
	if !c.NilLex {
		lxs = []parlex.Lexeme{}
		for i := 0; i < c.Lexemes; i++ {
			lx := lexeme.New(sym("k")).Set(fmt.Sprint(i)).At(1, i)
			switch (i + len(c.Input)) % 5 { // neither the kind nor the value makes an error
			case 1:
				lx.V = ""
			case 2:
				lx.K = sym("Error")
			case 3:
				lx.L = -1
			}
			bad := false
			for _, e := range c.Errs {
				bad = bad || e == i
			}
			if bad {
				lxs = append(lxs, &badLexeme{lx})
			} else {
				lxs = append(lxs, lx)
			}
		}
	}
	node := func(s string) *tree.PN { return &tree.PN{Lexeme: lexeme.New(sym(S(s)))} }
	nodes := []*tree.PN{node("parsed")}
	for i := range c.Reducers {
		nodes = append(nodes, node(fmt.Sprint("reduced", i)))
	}
	// what is expected
	var wantErr error
	var want parlex.ParseNode
	var wantLog []string
	wantLog = append(wantLog, fmt.Sprintf("lex %q", c.Input))
	firstBad := -1
	for i, lx := range lxs {
		if _, bad := lx.(*badLexeme); bad && firstBad < 0 {
			firstBad = i
		}
	}
	switch {
	case c.NilLex:
		wantErr = parlex.ErrCouldNotLex
		o.Label("no-lexemes")
	case firstBad >= 0:
		wantErr = lxs[firstBad].(error)
		o.Label("lex-error")
	default:
		wantLog = append(wantLog, "parse")
		if c.NoParse {
			wantErr = parlex.ErrCouldNotParse
			o.Label("no-parse")
			break
		}
		want = nodes[0]
		for i, r := range c.Reducers {
			if r == 0 {
				continue
			}
			wantLog = append(wantLog, fmt.Sprintf("reduce %d %s", i, want.Kind()))
			if r == 2 {
				want, wantErr = nil, parlex.ErrCouldNotReduce
				o.Label("no-reduce")
				break
			}
			if r == 1 {
				want = nodes[i+1]
			}
		}
	}
	o.NonTrivial(len(c.Reducers) > 1 || len(c.Errs) > 1)
	var log []string
	var broken error
	lexer := fakeLexer(func(s string) []parlex.Lexeme {
		log = append(log, fmt.Sprintf("lex %q", s))
		return lxs
	})
	parser := fakeParser(func(l []parlex.Lexeme) parlex.ParseNode {
		log = append(log, "parse")
		if len(l) != len(lxs) {
			broken = errf("the parser got %d lexemes of %d", len(l), len(lxs))
			return nil
		}
		for i := range l {
			if l[i] != lxs[i] {
				broken = errf("the parser got another lexeme %d", i)
			}
		}
		if c.NoParse {
			return nil
		}
		return nodes[0]
	})
	var reducers []parlex.Reducer
	for i, r := range c.Reducers {
		switch r {
		case 0:
			reducers = append(reducers, nil)
		default:
			reducers = append(reducers, fakeReducer(func(n parlex.ParseNode) parlex.ParseNode {
				log = append(log, fmt.Sprintf("reduce %d %s", i, n.Kind()))
				switch r {
				case 1:
					return nodes[i+1]
				case 2:
					return nil
				}
				return n
			}))
		}
	}
	if wantErr != nil && wantErr.Error() == "" {
		return errf("the error has no message")
	}
	std := map[string]bool{}
	for _, e := range []error{parlex.ErrCouldNotLex, parlex.ErrCouldNotParse, parlex.ErrCouldNotReduce, parlex.ErrBadGrammar} {
		if std[e.Error()] || e.Error() == "" {
			return errf("no or two standard errors may say %q", e.Error())
		}
		std[e.Error()] = true
	}
	runner := parlex.New(lexer, parser, reducers...)
	for k := 0; k < 2*c.Times; k++ {
		log = nil
		var got parlex.ParseNode
		var err error
		if k%2 == 0 {
			got, err = runner.Run(string(c.Input))
		} else {
			got, err = parlex.Run(string(c.Input), lexer, parser, reducers...)
		}
		if broken != nil {
			return broken
		}
		if err != wantErr {
			return errf("run %d: error is %v, expected %v", k, err, wantErr)
		}
		if got != want {
			return errf("run %d: result is %v, expected %v", k, got, want)
		}
		if strings.Join(log, "; ") != strings.Join(wantLog, "; ") {
			return errf("run %d: calls were %q, expected %q", k, log, wantLog)
		}
	}
	return nil
}

// ---- Run with the components

// PipeCase is a text for a lexer with one letter kinds, a grammar over them, and
// rules for a reducer.
type PipeCase struct {
	G      G
	Rules  []Rule
	Inputs [][]S // tokens; "?" cannot be lexed
	Gaps   []S
	Stack  bool
	Top    bool
}

func genPipe(t *rapid.T) PipeCase {
	var c PipeCase
	c.Stack, c.Top = boolean(t), boolean(t)
	if c.Top {
		c.G = genRight(t)
	} else {
		c.G = genGrammar(t)
	}
	// letters for the terminals
	to := map[S]S{}
	for i, s := range c.G.terminals() {
		to[s] = S("abcdefghijklmnop"[i%16 : i%16+1])
	}
	for i, n := range c.G {
		to[n.N] = S(fmt.Sprint("N", i))
	}
	var g G
	for _, n := range c.G {
		m := NT{N: to[n.N]}
		for _, p := range n.P {
			q := []S{}
			for _, s := range p {
				q = append(q, to[s])
			}
			m.P = append(m.P, q)
		}
		g = append(g, m)
	}
	c.G = g
	for k := intn(t, 1, 4); k > 0; k-- {
		in := genInput(t, g, 10)
		for i, s := range in {
			if len(s) != 1 {
				in[i] = "p" // not a terminal of the grammar, but a lexeme
			}
		}
		if oneIn(t, 6) {
			i := intn(t, 0, len(in))
			in = append(in[:i:i], append([]S{"?"}, in[i:]...)...)
		}
		c.Inputs = append(c.Inputs, in)
	}
	kinds := []S{}
	for _, n := range g {
		kinds = append(kinds, n.N)
	}
	c.Rules = genRules2(t, kinds)
	for k := intn(t, 0, 3); k > 0; k-- {
		c.Gaps = append(c.Gaps, pick(t, S(""), S(" "), S("\n"), S(" \t\n ")))
	}
	return c
}

func checkPipe(c PipeCase, o *Obs) error {
	def := "space /\\s+/ -\n"
	for _, s := range "abcdefghijklmnop" {
		def += string(s) + "\n"
	}
	var lx parlex.Lexer
	var err error
	line0 := 0
	if c.Stack {
		lx, err = stacklexer.New("== Main\n" + def)
		line0 = 1
	} else {
		lx, err = simplelexer.New(def)
	}
	if err != nil {
		return err
	}
	gr := c.G.build()
	lr := c.G.leftRecursive()
	var pr parlex.Parser = packrat.New(gr)
	top := c.Top && !lr
	if top {
		pr, err = topdown.New(gr)
		if err != nil {
			return err
		}
	}
	o.LabelIf(top, "topdown")
	o.LabelIf(c.Stack, "stacklexer")
	rd := reducerOf(c.Rules, 0)
	runner := parlex.New(lx, pr, rd)
	for _, in := range c.Inputs {
		text := ""
		var lxs []parlex.Lexeme
		bad := -1
		line, col := line0, 1
		put := func(s string) {
			text += s
			for _, r := range s {
				col++
				if r == '\n' {
					line++
					col = 1
				}
			}
		}
		badL, badC := 0, 0
		for i, s := range in {
			if len(c.Gaps) > 0 {
				put(string(c.Gaps[i%len(c.Gaps)]))
			}
			if s == "?" && bad < 0 {
				bad, badL, badC = i, line, col
			}
			lxs = append(lxs, lexeme.New(sym(s)).Set(string(s)).At(line, col))
			put(string(s))
		}
		got, err := runner.Run(text)
		if bad >= 0 {
			o.Label("lex-error")
			var le parlex.LexError
			if got != nil || !errors.As(err, &le) {
				return errf("Run(%q) gave %v, %v, expected a lex error", text, got, err)
			}
			if l, c := le.Pos(); l != badL || c != badC || !strings.HasPrefix(le.Value(), "?") {
				return errf("Run(%q) gave the lex error %v at %d,%d, expected one at %d,%d", text, le, l, c, badL, badC)
			}
			continue
		}
		var ok bool
		if top {
			ok = c.G.peg(in) != "nil"
		} else {
			ok = c.G.chart(in).accepts()
		}
		if !ok {
			o.Label("rejected")
			if got != nil || err != parlex.ErrCouldNotParse {
				return errf("Run(%q) gave %v, %v, expected ErrCouldNotParse\n%s", text, got, err, c.G)
			}
			continue
		}
		o.Label("accepted")
		o.NonTrivial(len(in) > 1)
		if err != nil || got == nil {
			return errf("Run(%q) gave %v, %v\n%s", text, got, err, c.G)
		}
		raw, err := parlex.Run(text, lx, pr)
		if err != nil {
			return errf("Run(%q) without reducer: %v", text, err)
		}
		if _, err := checkTree(c.G, lxs, raw); err != nil {
			return errf("Run(%q): %v\n%s", text, err, c.G)
		}
		want := reduceModel(modelOf(raw), ruleMap(c.Rules))
		if err := sameTree(got, want, false); err != nil {
			return errf("Run(%q): %v\n%s", text, err, c.G)
		}
	}
	return nil
}

// ---- reuse

// ReuseCase has components that are used for several inputs.
type ReuseCase struct {
	SL    SLCase
	ST    STCase
	P     ParseCase
	R     []Rule
	RG    []RGram
	Order []int
}

func genReuse(t *rapid.T) ReuseCase {
	c := ReuseCase{SL: genSLCase(t), ST: genSTCase(t), P: genParseCase(genRight)(t)}
	c.P.Inputs = append(c.P.Inputs, genInput(t, c.P.G, 8))
	var kinds []S
	for _, n := range c.P.G {
		kinds = append(kinds, n.N)
	}
	c.R = genRules2(t, kinds)
	for k := intn(t, 0, 2); k > 0; k-- {
		c.RG = append(c.RG, genRGram(t))
	}
	for k := size(t, 2, 10, 40); k > 0; k-- {
		c.Order = append(c.Order, intn(t, 0, 15))
	}
	return c
}

func treeText(n parlex.ParseNode) string {
	if n == nil {
		return "nil"
	}
	return modelOf(n).String()
}

func lexText(lxs []parlex.Lexeme) string { return lexStr(observe(lxs)) }

func checkReuse(c ReuseCase, o *Obs) error {
	sl, err := c.SL.build()
	if err != nil {
		return err
	}
	st, err := c.ST.build()
	if err != nil {
		return err
	}
	gr := c.P.G.build()
	pk := packrat.New(gr)
	td, _ := topdown.New(gr)
	rd := reducerOf(c.R, 0)
	an := analyze.Analyze(gr)
	pkAn := packrat.New(an)

	type kept struct {
		what string
		text func() string
		want string
	}
	var keep []kept
	note := func(what string, text func() string) {
		keep = append(keep, kept{what, text, text()})
	}
	for i, x := range c.Order {
		fail := func(what, in, got, want string) error {
			return errf("use %d of %s, input %s, gave\n%s\na new one gives\n%s", i, what, in, got, want)
		}
		// lexers
		in := string(c.SL.Inputs[x%len(c.SL.Inputs)])
		fresh, err := c.SL.build()
		if err != nil {
			return err
		}
		got := sl.Lex(in)
		if g, w := lexText(got), lexText(fresh.Lex(in)); g != w {
			return fail("simplelexer", fmt.Sprintf("%q", in), g, w)
		}
		if x%3 == 0 && len(got) > 0 {
			got[0] = lexeme.New(sym("changed")) // the caller owns the slice
		} else {
			note("simplelexer", func() string { return lexText(got) })
		}
		in2 := string(c.ST.Inputs[x%len(c.ST.Inputs)])
		fresh2, err := c.ST.build()
		if err != nil {
			return err
		}
		got2 := st.Lex(in2)
		if g, w := lexText(got2), lexText(fresh2.Lex(in2)); g != w {
			return fail("stacklexer", fmt.Sprintf("%q", in2), g, w)
		}
		if x%3 == 1 && len(got2) > 0 {
			got2[0] = lexeme.New(sym("changed"))
		} else {
			note("stacklexer", func() string { return lexText(got2) })
		}
		// parsers
		toks := c.P.Inputs[x%len(c.P.Inputs)]
		lxs := tokens(toks)
		before := lexText(lxs)
		g2 := c.P.G.build()
		n := pk.Parse(lxs)
		if g, w := treeText(n), treeText(packrat.New(g2).Parse(tokens(toks))); g != w {
			return fail("packrat", fmt.Sprintf("%q", toks), g, w)
		}
		if g, w := treeText(pkAn.Parse(lxs)), treeText(n); g != w {
			return fail("packrat with an analysis", fmt.Sprintf("%q", toks), g, w)
		}
		if lexText(lxs) != before {
			return errf("packrat changed the lexemes")
		}
		note("packrat", func() string { return treeText(n) })
		if td != nil {
			n2 := td.Parse(lxs)
			f, err := topdown.New(g2)
			if err != nil {
				return errf("topdown.New: %v", err)
			}
			if g, w := treeText(n2), treeText(f.Parse(tokens(toks))); g != w {
				return fail("topdown", fmt.Sprintf("%q", toks), g, w)
			}
			if lexText(lxs) != before {
				return errf("topdown changed the lexemes")
			}
			note("topdown", func() string { return treeText(n2) })
		}
		// reducer; its result can be changed without changing the tree
		if n != nil {
			o.NonTrivial(len(toks) > 1)
			was := treeText(n)
			a := rd.Reduce(n)
			if g, w := treeText(a), reduceModel(modelOf(n), ruleMap(c.R)).String(); g != w {
				return fail("reducer", was, g, w)
			}
			pn := a.(*tree.PN)
			pn.PromoteGrandChildren()
			pn.Lexeme.(*lexeme.Lexeme).Set("changed")
			if len(pn.C) > 0 {
				pn.C[0].Lexeme.(*lexeme.Lexeme).Set("changed too")
			}
			if treeText(n) != was {
				return errf("changing a reduced tree changed the tree")
			}
			if x%5 == 0 {
				// changing a tree changes no other one and not the lexemes
				m := pk.Parse(lxs).(*tree.PN)
				for _, q := range preorder(m) {
					q.Lexeme.(*lexeme.Lexeme).Set("mine").At(99, 99)
				}
				if lexText(lxs) != before {
					return errf("changing a tree changed the lexemes it was parsed from")
				}
			}
		}
		if len(c.RG) > 0 {
			r := c.RG[x%len(c.RG)]
			o.Label("regexgram")
			g, _, err := regexgram.New(r.text())
			if err != nil {
				return errf("regexgram: %v", err)
			}
			if err := r.sameExpansion(read(g)); err != nil {
				return errf("use %d of regexgram: %v\n%s", i, err, r.text())
			}
		}
		if !read(gr).equal(c.P.G) {
			return errf("use %d changed the grammar", i)
		}
	}
	for _, k := range keep {
		if k.text() != k.want {
			return errf("a later use of %s changed an earlier result from\n%s\nto\n%s", k.what, k.want, k.text())
		}
	}
	o.LabelIf(td != nil, "topdown")
	o.LabelIf(len(c.Order) > 5, "many-uses")
	return nil
}

// ---- other implementations

// mine is a lexeme of our own.
type mine struct {
	k, v string
	l, c int
}

func (m *mine) Kind() parlex.Symbol { return alien{S(m.k)} }
func (m *mine) Value() string       { return m.v }
func (m *mine) Pos() (int, int)     { return m.l, m.c }

// strangeGrammar has productions and symbols of our own types.
type strangeGrammar struct{ g G }
type strangeProds [][]S
type strangeProd []S

func (s strangeGrammar) NonTerminals() []parlex.Symbol {
	var out []parlex.Symbol
	for _, n := range s.g {
		out = append(out, alien{n.N})
	}
	return out
}
func (s strangeGrammar) Productions(x parlex.Symbol) parlex.Productions {
	for _, n := range s.g {
		if string(n.N) == x.String() {
			return strangeProds(n.P)
		}
	}
	return nil
}
func (p strangeProds) Productions() int { return len(p) }
func (p strangeProds) Production(i int) parlex.Production {
	if i < len(p) {
		return strangeProd(p[i])
	}
	return nil
}
func (p strangeProds) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}
func (p strangeProd) Symbols() int { return len(p) }
func (p strangeProd) Symbol(i int) parlex.Symbol {
	if i < len(p) {
		return alien{p[i]}
	}
	return nil
}
func (p strangeProd) Iter() *parlex.ProductionIterator {
	return &parlex.ProductionIterator{Production: p}
}

// setGrammar has symbols and productions of a set of its own, which has the
// symbols in another order.
type setGrammar struct {
	g   G
	set *setsymbol.Set
}

// otherSet has the symbols of g, rotated.
func otherSet(g G, by int) *setsymbol.Set {
	set := setsymbol.New()
	syms := g.symbols()
	for i := range syms {
		set.Str(string(syms[(len(syms)-1-i+by)%len(syms)]))
	}
	return set
}

func (s setGrammar) NonTerminals() []parlex.Symbol {
	var out []parlex.Symbol
	for _, n := range s.g {
		out = append(out, s.set.Str(string(n.N)))
	}
	return out
}

func (s setGrammar) Productions(x parlex.Symbol) parlex.Productions {
	for _, n := range s.g {
		if string(n.N) == x.String() {
			ps := s.set.Productions()
			for _, p := range n.P {
				pr := s.set.Production()
				for _, y := range p {
					pr.AddSymbols(s.set.Str(string(y)))
				}
				ps.AddProductions(pr)
			}
			return ps
		}
	}
	return nil
}

func checkImpl(c ParseCase, o *Obs) error {
	c.labels(o)
	base := c.G.build()
	kinds := []struct {
		what string
		g    parlex.Grammar
	}{
		{"plain grammar", plain{c.G}},
		{"grammar of our own types", strangeGrammar{c.G}},
		{"grammar of another set", setGrammar{c.G, otherSet(c.G, 0)}},
		{"analysis", analyze.Analyze(base)},
		{"analysis of a grammar of our own types", analyze.Analyze(strangeGrammar{c.G})},
	}
	textual := true
	for _, s := range c.G.symbols() {
		textual = textual && s != "" && !strings.Contains(string(s), "->") && !strings.Contains(string(s), " ")
	}
	if textual {
		o.Label("as-text")
		g, err := grammar.New(c.G.String())
		if err != nil {
			return errf("grammar.New: %v\n%s", err, c.G)
		}
		kinds = append(kinds, struct {
			what string
			g    parlex.Grammar
		}{"grammar from text", g})
	}
	lr := c.G.leftRecursive()
	for _, k := range kinds {
		if parlex.IsLeftRecursive(k.g) != lr {
			return errf("IsLeftRecursive is %v for the %s\n%s", !lr, k.what, c.G)
		}
	}
	if c.G.expansion() < 300 {
		o.Label("transformed")
		want := read(grammar.RemoveLeftRecursion(base))
		for _, k := range kinds {
			if got := read(grammar.RemoveLeftRecursion(k.g)); !got.equal(want) {
				return errf("RemoveLeftRecursion gives\n%s--- for the %s,\n%s--- for a grammar.Grammar\n%s", got, k.what, want, c.G)
			}
		}
	}
	for _, in := range c.Inputs {
		lxs := tokens(in)
		var own []parlex.Lexeme
		for _, lx := range lxs {
			l, cl := lx.Pos()
			own = append(own, &mine{lx.Kind().String(), lx.Value(), l, cl})
		}
		for k := range own { // kinds of other sets of the same size
			if set := otherSet(c.G, 1+k%2); k%3 != 2 && set.Has(own[k].Kind().String()) {
				l, cl := own[k].Pos()
				own[k] = lexeme.New(set.Str(own[k].Kind().String())).Set(own[k].Value()).At(l, cl)
			}
		}
		want := treeText(packrat.New(base).Parse(lxs))
		o.LabelIf(want != "nil", "accepted")
		o.NonTrivial(want != "nil" && len(in) > 1)
		if got := treeText(packrat.New(base).Parse(own)); got != want {
			return errf("packrat gives %s for lexemes of our own, %s for others\ninput %q\n%s", got, want, in, c.G)
		}
		for _, k := range kinds {
			p, err := packrat.Constructor(k.g)
			if err != nil {
				return errf("packrat.Constructor: %v", err)
			}
			if got := treeText(p.Parse(own)); got != want {
				return errf("packrat gives %s for the %s, %s for a grammar.Grammar\ninput %q\n%s", got, k.what, want, in, c.G)
			}
		}
		if lr {
			continue
		}
		tp, err := topdown.New(base)
		if err != nil {
			return errf("topdown.New: %v", err)
		}
		want = treeText(tp.Parse(lxs))
		for _, k := range kinds {
			p, err := topdown.New(k.g)
			if err != nil {
				return errf("topdown.New for the %s: %v", k.what, err)
			}
			if got := treeText(p.Parse(own)); got != want {
				return errf("topdown gives %s for the %s, %s for a grammar.Grammar\ninput %q\n%s", got, k.what, want, in, c.G)
			}
		}
	}
	return nil
}

// ---- helpers

// HelpCase has lexemes.
type HelpCase struct {
	K, V  []S
	L, C  []int
	Bad   []bool
	Own   bool
	Panic int
}

func genHelp(t *rapid.T) HelpCase {
	c := HelpCase{Own: boolean(t), Panic: intn(t, 0, 3)}
	for k := size(t, 0, 4, pick(t, 12, 12, 12, 100)); k > 0; k-- {
		c.K = append(c.K, treeKinds[uniform(t, len(treeKinds))])
		if oneIn(t, 8) {
			c.K[len(c.K)-1] = ""
		}
		c.V = append(c.V, treeVals[uniform(t, len(treeVals))])
		c.L = append(c.L, pick(t, 1, -1, 0, 12, -3))
		c.C = append(c.C, pick(t, 1, 0, 7, -1))
		c.Bad = append(c.Bad, oneIn(t, 4))
	}
	return c
}

func checkHelpers(c HelpCase, o *Obs) error {
	var lxs []parlex.Lexeme
	var errs []parlex.LexError
	var inline, list []string
	for i := range c.K {
		k, v := string(c.K[i]), string(c.V[i])
		lx := lexeme.New(sym(c.K[i]))
		if l, cl := lx.Pos(); l != -1 || cl != 0 || lx.Value() != "" || lx.Kind().String() != k {
			return errf("New(%q) is %v", k, lx)
		}
		if ls := lexeme.String(k); ls.Kind().String() != k || ls.L != -1 || ls.V != "" {
			return errf("String(%q) is %v", k, ls)
		}
		if ret := lx.Set(v).At(c.L[i], c.C[i]); ret != lx {
			return errf("Set or At returned another lexeme")
		}
		if n := parlex.SymLen(lx.Kind()); n != utf8.RuneCountInString(k) {
			return errf("SymLen(%q) is %d", k, n)
		}
		cp := lexeme.Copy(lx)
		if cp == lx || cp.Kind().String() != k || cp.V != v || cp.L != c.L[i] || cp.C != c.C[i] {
			return errf("Copy of %v is %v", lx, cp)
		}
		cp.Set("changed").At(99, 99)
		if lx.V != v || lx.L != c.L[i] || lx.C != c.C[i] {
			return errf("changing a copy changed the lexeme")
		}
		s := "Lexeme{" + k
		if v != "" {
			s += fmt.Sprintf(":%q", v)
		}
		if c.L[i] != -1 {
			s += fmt.Sprintf(" (%d, %d)", c.L[i], c.C[i])
		}
		if s += "}"; lx.String() != s {
			return errf("String is %s, expected %s", lx, s)
		}
		switch {
		case c.Bad[i]:
			e := &badLexeme{lx}
			lxs = append(lxs, e)
			errs = append(errs, e)
		case c.Own:
			lxs = append(lxs, &mine{k, v, c.L[i], c.C[i]})
		default:
			lxs = append(lxs, lx)
		}
		s = k
		if v != "" {
			s += ": " + v
		}
		inline = append(inline, s)
		s = fmt.Sprintf("%s: %q", k, v)
		if c.L[i] > 0 || c.C[i] > 0 {
			s += fmt.Sprintf(" (%d, %d)", c.L[i], c.C[i])
		}
		list = append(list, s)
	}
	got := parlex.LexErrors(lxs)
	if len(got) != len(errs) {
		return errf("LexErrors gave %d of %d errors", len(got), len(errs))
	}
	for i := range got {
		if got[i] != errs[i] {
			return errf("LexErrors gave %v as error %d, expected %v", got[i], i, errs[i])
		}
	}
	want := ""
	if len(inline) == 1 {
		want = inline[0]
	} else if len(inline) > 1 {
		want = "[" + strings.Join(inline, ", ") + "]"
	}
	if s := parlex.LexemeString(lxs...); s != want {
		return errf("LexemeString is %q, expected %q", s, want)
	}
	if s, w := parlex.LexemeList(lxs), strings.Join(list, "\n"); s != w {
		return errf("LexemeList is %q, expected %q", s, w)
	}
	o.NonTrivial(len(c.K) > 1)
	o.LabelIf(len(errs) > 1, "several-errors")
	// Must*
	var e error
	if c.Panic > 0 {
		e = errors.New("broken")
	}
	pr, lx, gr := packrat.New(grammar.Empty()), fakeLexer(nil), grammar.Empty()
	for _, f := range []func() bool{
		func() bool { return parlex.MustParser(pr, e) == parlex.Parser(pr) },
		func() bool { return parlex.MustLexer(&ptrLexer, e) == parlex.Lexer(&ptrLexer) },
		func() bool { return parlex.MustGrammar(gr, e) == parlex.Grammar(gr) },
	} {
		same := false
		var r any
		func() {
			defer func() { r = recover() }()
			same = f()
		}()
		if e == nil && (r != nil || !same) {
			return errf("Must does not return what it is given")
		}
		if e != nil && r != e {
			return errf("Must panics with %v, expected %v", r, e)
		}
	}
	_ = lx
	return nil
}

var ptrLexer = simplelexer.Lexer{}

func init() {
	register("C01", nil,
		&suite[RunCase]{nm: "calls", quick: 160000, gen: genRunCase, chk: checkRun,
			rl: "stand-ins for lexer, parser and 0-5 reducers that succeed or fail, used up to 6 times; non-trivial: two or more reducers or lex errors"},
		&suite[PipeCase]{nm: "pipeline", quick: 48000, gen: genPipe, chk: checkPipe,
			rl: "texts for either lexer, either parser and a generated reducer; non-trivial: a text of two or more tokens is accepted"})
	register("C23", nil,
		&suite[ReuseCase]{nm: "reuse", quick: 4000, gen: genReuse, chk: checkReuse,
			rl: "histories of 2-10 uses of one lexer of each kind, parser of each kind, reducer, analysis and regexgram; non-trivial: an input of two or more tokens was parsed"})
	register("C27", nil,
		&suite[HelpCase]{nm: "helpers", quick: 240000, gen: genHelp, chk: checkHelpers,
			rl: "0-12 lexemes of several types with any kinds, values and positions; non-trivial: two or more lexemes"})
	register("C28", nil,
		&suite[ParseCase]{nm: "implementations", quick: 12000, gen: genParseCase(genGrammar), chk: checkImpl,
			rl: "the grammars of C11 as five implementations of parlex.Grammar, inputs as two of parlex.Lexeme; non-trivial: an input of two or more tokens is accepted"},
		&suite[ParseCase]{nm: "implementations-right", quick: 6000, gen: genParseCase(genRight), chk: checkImpl,
			rl: "the same for grammars that are mostly not left recursive"})
}
