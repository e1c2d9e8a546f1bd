package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- generators

func intn(t *rapid.T, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(t, "n")
}

// oneIn is true about once in k, and shrinks to false.
func oneIn(t *rapid.T, k int) bool { return intn(t, 0, k-1) == k-1 }

// rare is true about once in 36; it guards what makes a case large.
func rare(t *rapid.T) bool { return oneIn(t, 6) && oneIn(t, 6) }

// longName is longer than a line that a scanner would take.
var longName = S(strings.Repeat("long", 17000))

// veryRare is true about once in 200.
func veryRare(t *rapid.T) bool { return rare(t) && oneIn(t, 6) }

func pick[T any](t *rapid.T, from ...T) T { return from[intn(t, 0, len(from)-1)] }

// size is mostly up to small, sometimes up to big.
func size(t *rapid.T, lo, small, big int) int {
	if big > small && oneIn(t, 14) {
		return intn(t, small, big)
	}
	return intn(t, lo, small)
}

func boolean(t *rapid.T) bool { return rapid.Bool().Draw(t, "b") }

// ---------------------------------------------------------------- the model

// NT is a non-terminal with its productions.
type NT struct {
	N S
	P [][]S
}

// G is a context free grammar, the first non-terminal is the start symbol.
type G []NT

func (g G) String() string {
	var b strings.Builder
	for _, n := range g {
		for _, p := range n.P {
			fmt.Fprintf(&b, "%s -> %s\n", n.N, strings.Join(strs(p), " "))
		}
	}
	return b.String()
}

func (g G) idx() map[S]int {
	m := make(map[S]int, len(g))
	for i, n := range g {
		m[n.N] = i
	}
	return m
}

func (g G) isNT(s S) bool {
	for _, n := range g {
		if n.N == s {
			return true
		}
	}
	return false
}

func (g G) symbols() []S {
	seen := map[S]bool{}
	var out []S
	add := func(s S) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, n := range g {
		add(n.N)
		for _, p := range n.P {
			for _, s := range p {
				add(s)
			}
		}
	}
	return out
}

func (g G) terminals() []S {
	var out []S
	for _, s := range g.symbols() {
		if !g.isNT(s) {
			out = append(out, s)
		}
	}
	return out
}

// nullable symbols derive the empty string.
func (g G) nullable() map[S]bool {
	nl := map[S]bool{}
	for ch := true; ch; {
		ch = false
		for _, n := range g {
			for _, p := range n.P {
				all := true
				for _, s := range p {
					all = all && nl[s]
				}
				if all && !nl[n.N] {
					nl[n.N] = true
					ch = true
				}
			}
		}
	}
	return nl
}

// productive symbols derive some string of terminals.
func (g G) productive() map[S]bool {
	pr := map[S]bool{}
	ix := g.idx()
	for ch := true; ch; {
		ch = false
		for _, n := range g {
			for _, p := range n.P {
				all := true
				for _, s := range p {
					if _, nt := ix[s]; nt && !pr[s] {
						all = false
					}
				}
				if all && !pr[n.N] {
					pr[n.N] = true
					ch = true
				}
			}
		}
	}
	return pr
}

type edges map[S]map[S]bool

func (e edges) add(a, b S) {
	if e[a] == nil {
		e[a] = map[S]bool{}
	}
	e[a][b] = true
}

func (e edges) closure() {
	for k := range e {
		for i := range e {
			if e[i][k] {
				for j := range e[k] {
					e[i][j] = true
				}
			}
		}
	}
}

func (e edges) cyclic() bool {
	for i := range e {
		if e[i][i] {
			return true
		}
	}
	return false
}

// leftEdges has A -> X if X can be leftmost after one step from A, with
// everything to the left of it empty.
func (g G) leftEdges() edges {
	nl, ix, e := g.nullable(), g.idx(), edges{}
	for _, n := range g {
		e[n.N] = map[S]bool{}
		for _, p := range n.P {
			for _, s := range p {
				if _, nt := ix[s]; nt {
					e.add(n.N, s)
				}
				if !nl[s] {
					break
				}
			}
		}
	}
	return e
}

func (g G) leftRecursive() bool {
	e := g.leftEdges()
	e.closure()
	return e.cyclic()
}

// hiddenLeft is true if left recursion needs a nullable symbol to be skipped.
func (g G) hiddenLeft() bool {
	if !g.leftRecursive() {
		return false
	}
	all, ix := g.leftEdges(), g.idx()
	all.closure()
	for _, n := range g {
		for _, p := range n.P {
			nl := g.nullable()
			for i, s := range p {
				if _, nt := ix[s]; nt && i > 0 && (s == n.N || all[s][n.N]) {
					return true
				}
				if !nl[s] {
					break
				}
			}
		}
	}
	return false
}

// cyclic is true if some A derives A in one or more steps.
func (g G) cyclic() bool {
	nl, ix, e := g.nullable(), g.idx(), edges{}
	for _, n := range g {
		e[n.N] = map[S]bool{}
		for _, p := range n.P {
			for k, s := range p {
				if _, nt := ix[s]; !nt {
					continue
				}
				rest := true
				for k2, s2 := range p {
					rest = rest && (k2 == k || nl[s2])
				}
				if rest {
					e.add(n.N, s)
				}
			}
		}
	}
	e.closure()
	return e.cyclic()
}

// firsts is FIRST: the terminals that can begin a string derived from each
// symbol (through productions, whether or not the rest is productive).
func (g G) firsts() edges {
	nl, ix, f := g.nullable(), g.idx(), edges{}
	for ch := true; ch; {
		ch = false
		add := func(a, b S) {
			if !f[a][b] {
				f.add(a, b)
				ch = true
			}
		}
		for _, n := range g {
			for _, p := range n.P {
				for _, s := range p {
					if _, nt := ix[s]; !nt {
						add(n.N, s)
						break
					}
					for x := range f[s] {
						add(n.N, x)
					}
					if !nl[s] {
						break
					}
				}
			}
		}
	}
	return f
}

// maxProd is the length of the longest production.
func (g G) maxProd() int {
	m := 0
	for _, n := range g {
		for _, p := range n.P {
			m = max(m, len(p))
		}
	}
	return m
}

// chart says which symbol derives which span of the tokens. Sets of positions
// are bits, so there can be at most 63 tokens.
type chart struct {
	g    G
	ix   map[S]int
	n    int
	d    [][]uint64   // [nt][i] the ends of the spans from i
	term map[S]uint64 // where the terminal is
}

type chartSym struct {
	nt   int // or -1
	term uint64
}

func (g G) chart(toks []S) *chart {
	if len(toks) > 63 {
		panic("chart: too many tokens")
	}
	c := &chart{g: g, ix: g.idx(), n: len(toks), term: map[S]uint64{}}
	for i, s := range toks {
		c.term[s] |= 1 << i
	}
	c.d = make([][]uint64, len(g))
	prods := make([][][]chartSym, len(g))
	for i := range c.d {
		c.d[i] = make([]uint64, c.n+1)
		for _, p := range g[i].P {
			prods[i] = append(prods[i], c.compile(p))
		}
	}
	for ch := true; ch; {
		ch = false
		for a := range g {
			for _, p := range prods[a] {
				for i := c.n; i >= 0; i-- {
					if e := c.d[a][i] | c.run(p, i); e != c.d[a][i] {
						c.d[a][i] = e
						ch = true
					}
				}
			}
		}
	}
	return c
}

func (c *chart) compile(p []S) []chartSym {
	out := make([]chartSym, len(p))
	for i, s := range p {
		if nt, is := c.ix[s]; is {
			out[i].nt = nt
		} else {
			out[i] = chartSym{-1, c.term[s]}
		}
	}
	return out
}

func (c *chart) run(p []chartSym, i int) uint64 {
	cur := uint64(1) << i
	for _, s := range p {
		if s.nt < 0 {
			cur = (cur & s.term) << 1
		} else {
			var nx uint64
			for m := cur; m != 0; m &= m - 1 {
				nx |= c.d[s.nt][bits.TrailingZeros64(m)]
			}
			cur = nx
		}
		if cur == 0 {
			return 0
		}
	}
	return cur
}

// spans says if the symbols can derive the tokens from i to j.
func (c *chart) spans(p []S, i, j int) bool { return c.run(c.compile(p), i)>>j&1 == 1 }

func (c *chart) accepts() bool { return c.d[0][0]>>c.n&1 == 1 }

// ------------------------------------------------------------ the code's side

func sym(s S) parlex.Symbol { return stringsymbol.Symbol(s) }

// build makes a *grammar.Grammar with Add, which does not depend on the
// grammar text format.
func (g G) build() *grammar.Grammar {
	out := grammar.Empty()
	for _, n := range g {
		for _, p := range n.P {
			pr := make(stringsymbol.Production, len(p))
			for i, s := range p {
				pr[i] = stringsymbol.Symbol(s)
			}
			out.Add(sym(n.N), pr)
		}
	}
	return out
}

// plain is a parlex.Grammar of our own.
type plain struct{ g G }

func (p plain) Productions(s parlex.Symbol) parlex.Productions {
	for _, n := range p.g {
		if string(n.N) == s.String() {
			ps := make(stringsymbol.Productions, len(n.P))
			for i, pr := range n.P {
				ps[i] = make(stringsymbol.Production, len(pr))
				for k, x := range pr {
					ps[i][k] = stringsymbol.Symbol(x)
				}
			}
			return ps
		}
	}
	return nil
}

func (p plain) NonTerminals() []parlex.Symbol {
	out := make([]parlex.Symbol, len(p.g))
	for i, n := range p.g {
		out[i] = sym(n.N)
	}
	return out
}

// read converts any parlex.Grammar to the model.
func read(gr parlex.Grammar) G {
	var g G
	for _, nt := range gr.NonTerminals() {
		n := NT{N: S(nt.String())}
		ps := gr.Productions(nt)
		if ps != nil {
			for i := 0; i < ps.Productions(); i++ {
				p := ps.Production(i)
				row := make([]S, 0, p.Symbols())
				for k := 0; k < p.Symbols(); k++ {
					row = append(row, S(p.Symbol(k).String()))
				}
				n.P = append(n.P, row)
			}
		}
		g = append(g, n)
	}
	return g
}

func (g G) equal(h G) bool {
	if len(g) != len(h) {
		return false
	}
	for i := range g {
		if g[i].N != h[i].N || len(g[i].P) != len(h[i].P) {
			return false
		}
		for k := range g[i].P {
			if !equalS(g[i].P[k], h[i].P[k]) {
				return false
			}
		}
	}
	return true
}

func equalS(a, b []S) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tokens are lexemes with distinct values and positions. The positions start
// at line 1, at line 0 or below it, since a lexer may number lines as it likes.
func tokens(toks []S) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(toks))
	for i, s := range toks {
		v := fmt.Sprintf("v%d", i)
		if i%7 == 6 {
			v = ""
		}
		if i%5 == 4 || i == len(toks)-1 && i%2 == 0 {
			v = [...]string{"\n", string(s), " ", "", "v0", "\x00"}[len(toks)%6]
		}
		out[i] = lexeme.New(sym(s)).Set(v).At(i/5+1-len(toks)%3, 3*(i%5)+len(toks)%2)
	}
	return out
}

// sexpr writes a tree as kind(children).
func sexpr(n parlex.ParseNode) string {
	var b strings.Builder
	var rec func(n parlex.ParseNode, depth int)
	rec = func(n parlex.ParseNode, depth int) {
		b.WriteString(n.Kind().String())
		if n.Children() > 0 && depth < 2000 {
			b.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				rec(n.Child(i), depth+1)
			}
			b.WriteString(")")
		}
	}
	if n == nil {
		return "nil"
	}
	rec(n, 0)
	return b.String()
}

// checkTree checks that the tree is a derivation of the lexemes in g: the root
// is the start symbol, the children of each non-terminal are one of its
// productions, and the terminals are the lexemes in order. It also checks
// parents. It returns the production used by each inner node.
type usedProd struct {
	nt, prod, start, end int
}

func checkTree(g G, lxs []parlex.Lexeme, root parlex.ParseNode) ([]usedProd, error) {
	ix := g.idx()
	pos := 0
	seen := map[parlex.ParseNode]bool{}
	var used []usedProd
	var rec func(n, parent parlex.ParseNode) error
	rec = func(n, parent parlex.ParseNode) error {
		if n == nil {
			return errf("nil node in the tree")
		}
		if pn, ok := n.(*tree.PN); ok && pn == nil {
			return errf("nil *tree.PN in the tree")
		}
		if seen[n] {
			return errf("node %s is in the tree twice", n.Kind())
		}
		seen[n] = true
		if n.Parent() != parent {
			if parent == nil {
				return errf("the parent of the root is not nil")
			}
			return errf("node %s, child of %s, has the wrong parent", n.Kind(), parent.Kind())
		}
		k := S(n.Kind().String())
		a, isNT := ix[k]
		if !isNT {
			if n.Children() != 0 {
				return errf("terminal %s has children", k)
			}
			if pos >= len(lxs) {
				return errf("the tree has more terminals than there are lexemes")
			}
			lx := lxs[pos]
			gl, gc := n.Pos()
			wl, wc := lx.Pos()
			if string(k) != lx.Kind().String() || n.Value() != lx.Value() || gl != wl || gc != wc {
				return errf("terminal %d of the tree is %s %q at %d,%d, the lexeme is %s %q at %d,%d",
					pos, k, n.Value(), gl, gc, lx.Kind(), lx.Value(), wl, wc)
			}
			pos++
			return nil
		}
		start := pos
		kinds := make([]S, n.Children())
		for i := range kinds {
			c := n.Child(i)
			if c == nil {
				return errf("%s has a nil child", k)
			}
			kinds[i] = S(c.Kind().String())
			if err := rec(c, n); err != nil {
				return err
			}
		}
		prod := -1
		for i, p := range g[a].P {
			if equalS(p, kinds) {
				prod = i
				break
			}
		}
		if prod < 0 {
			return errf("%s has children %q, which is not one of its productions", k, kinds)
		}
		if n.Value() != "" {
			return errf("non-terminal %s has value %q", k, n.Value())
		}
		used = append(used, usedProd{a, prod, start, pos})
		return nil
	}
	if S(root.Kind().String()) != g[0].N {
		return nil, errf("the root is %s, not the start symbol %s", root.Kind(), g[0].N)
	}
	if err := rec(root, nil); err != nil {
		return nil, errf("%v\ntree %s", err, sexpr(root))
	}
	if pos != len(lxs) {
		return nil, errf("the tree has %d terminals for %d lexemes: %s", pos, len(lxs), sexpr(root))
	}
	return used, nil
}

// ---------------------------------------------------------------- generation

var ntNames = [][]S{
	{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "T", "U", "V", "W", "X", "Y", "Z", "AA", "AB", "AC", "AD", "AE"},
	{"Expr", "Term", "Factor", "Stmt", "List", "Expr'", "Term'", "Σ", "List*", "X_1", "longNonTerminalName", "B?", "(C)", "S", "START", "Q", "R", "Value", "Rule", "Rules", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "N10"},
}

var termNames = [][]S{
	{"x", "y", "z", "w", "v", "u"},
	{"+", "(", ")", "number", "é", "->x"},
	{"int", "op", "a1", "-", "a", "b"},
	{"#", "", ";", "//", "a b", "→"},
}

// genRandomGrammar makes an arbitrary grammar.
func genRandomGrammar(t *rapid.T) G {
	names := pick(t, ntNames...)
	terms := pick(t, termNames...)
	based := !oneIn(t, 3) // every non-terminal has a production of terminals
	nn := size(t, 1, 4, 12)
	nt := size(t, 1, 3, len(terms))
	// how often a symbol is a non-terminal, how long productions are
	ntBias := pick(t, 2, 3, 1)
	maxLen := pick(t, 3, 2, 4, 1, 3)
	g := make(G, nn)
	for i := range g {
		g[i].N = names[i]
		np := size(t, 1, 3, 8)
		for k := 0; k < np; k++ {
			ln := size(t, 0, maxLen, maxLen+3)
			p := make([]S, ln)
			for l := range p {
				if intn(t, 0, 3) < ntBias {
					p[l] = names[intn(t, 0, nn-1)]
				} else {
					p[l] = terms[intn(t, 0, nt-1)]
				}
			}
			g[i].P = append(g[i].P, p)
		}
		if based {
			base := make([]S, intn(t, 1, 2))
			for l := range base {
				base[l] = terms[intn(t, 0, nt-1)]
			}
			g[i].P[intn(t, 0, np-1)] = base
		}
	}
	return g
}

// genShapedGrammar makes a grammar of a shape that people write.
func genShapedGrammar(t *rapid.T) G {
	switch intn(t, 0, 8) {
	case 0: // ambiguous operators
		return genOperatorGrammar(t)
	case 1: // layered, left or right recursive
		n := intn(t, 1, 4)
		var g G
		for i := 0; i < n; i++ {
			me := S(fmt.Sprintf("L%d", i))
			next := S(fmt.Sprintf("L%d", i+1))
			op := []S{"+", "*", "^", "=="}[i]
			rec := []S{me, op, next}
			if boolean(t) {
				rec = []S{next, op, me}
			}
			ps := [][]S{rec, {next}}
			if boolean(t) {
				ps = [][]S{{next}, rec}
			}
			g = append(g, NT{me, ps})
		}
		last := NT{N: S(fmt.Sprintf("L%d", n)), P: [][]S{{"num"}, {"(", "L0", ")"}}}
		if boolean(t) {
			last.P = append(last.P, []S{"-", last.N})
		}
		return append(g, last)
	case 2: // lists
		sep := pick(t, []S{","}, []S{}, []S{";", "nl"})
		item := pick(t, []S{"x"}, []S{"I"}, []S{"I", "x"})
		left := boolean(t)
		rec := append(append([]S{}, item...), append(append([]S{}, sep...), "L")...)
		if left {
			rec = append(append([]S{"L"}, sep...), item...)
		}
		l := NT{N: "L", P: [][]S{rec}}
		if boolean(t) {
			l.P = append(l.P, item)
		} else {
			l.P = append(l.P, []S{})
		}
		if boolean(t) {
			l.P[0], l.P[1] = l.P[1], l.P[0]
		}
		g := G{l}
		if boolean(t) {
			g = G{{"S", [][]S{{"[", "L", "]"}, {"L"}}}, l}
		}
		return append(g, NT{"I", [][]S{{"i"}, {"[", "L", "]"}}})
	case 3: // optional parts
		n := intn(t, 1, 5)
		g := G{{N: "S"}}
		var p []S
		for i := 0; i < n; i++ {
			o := S(fmt.Sprintf("O%d", i))
			p = append(p, o)
			body := []S{pick(t, S("x"), S("y"), S("z"))}
			if oneIn(t, 4) {
				body = append(body, "S")
			}
			ps := [][]S{body, {}}
			if oneIn(t, 3) {
				ps = [][]S{{}, body}
			}
			g = append(g, NT{o, ps})
		}
		g[0].P = [][]S{p}
		if oneIn(t, 3) {
			g[0].P = append(g[0].P, []S{"S", "w"})
		}
		return g
	case 4: // dangling else
		return G{{"S", [][]S{{"if", "E", "then", "S"}, {"if", "E", "then", "S", "else", "S"}, {"s"}}}, {"E", [][]S{{"b"}}}}
	case 5: // indirect left recursion
		n := intn(t, 2, 5)
		var g G
		for i := 0; i < n; i++ {
			me, next := S(fmt.Sprintf("R%d", i)), S(fmt.Sprintf("R%d", (i+1)%n))
			ps := [][]S{{next, S(fmt.Sprintf("t%d", i))}}
			if i == n-1 || boolean(t) {
				ps = append(ps, []S{S(fmt.Sprintf("b%d", i))})
			}
			if oneIn(t, 4) {
				ps = append(ps, []S{})
			}
			if oneIn(t, 4) {
				ps = append(ps, []S{me, me})
			}
			g = append(g, NT{me, ps})
		}
		return g
	case 6: // unit chains and cycles
		n := intn(t, 2, 6)
		var g G
		for i := 0; i < n; i++ {
			var ps [][]S
			for k := intn(t, 0, 2); k >= 0; k-- {
				ps = append(ps, []S{S(fmt.Sprintf("U%d", intn(t, 0, n-1)))})
			}
			if i == n-1 || boolean(t) {
				ps = append(ps, []S{S(fmt.Sprintf("t%d", intn(t, 0, 2)))})
			}
			if oneIn(t, 5) {
				ps = append(ps, []S{S(fmt.Sprintf("U%d", intn(t, 0, n-1))), S(fmt.Sprintf("U%d", intn(t, 0, n-1)))})
			}
			g = append(g, NT{S(fmt.Sprintf("U%d", i)), ps})
		}
		return g
	case 7: // left recursion hidden by nullable symbols
		g := G{{"A", [][]S{{"B", "A", "x"}, {"y"}}}, {"B", [][]S{{"b"}, {}}}}
		if boolean(t) {
			g[1].P = [][]S{{"C", "D"}, {"b"}}
			g = append(g, NT{"C", [][]S{{"c"}, {}}}, NT{"D", [][]S{{}, {"A", "d"}}})
		}
		if boolean(t) {
			g[0].P = append(g[0].P, []S{})
		}
		return g
	default: // statements: nested blocks
		return G{
			{"Prog", [][]S{{"Stmts"}}},
			{"Stmts", [][]S{{"Stmt", "Stmts"}, {}}},
			{"Stmt", [][]S{{"id", "=", "Ex", ";"}, {"{", "Stmts", "}"}, {"if", "Ex", "Stmt"}}},
			{"Ex", [][]S{{"Ex", "+", "Ex"}, {"id"}, {"num"}, {"(", "Ex", ")"}}},
		}
	}
}

// genOperatorGrammar is a single ambiguous E with binary operators in order of
// increasing precedence.
func genOperatorGrammar(t *rapid.T) G {
	n := intn(t, 1, 4)
	e := NT{N: "E"}
	for i := 0; i < n; i++ {
		e.P = append(e.P, []S{"E", S([]string{"+", "*", "^", "=="}[i]), "E"})
	}
	e.P = append(e.P, []S{"num"})
	if boolean(t) {
		e.P = append(e.P, []S{"(", "E", ")"})
	}
	if oneIn(t, 3) {
		e.P = append(e.P, []S{"-", "num"})
	}
	return G{e}
}

// genLargeGrammar makes a grammar that is large in one way.
func genLargeGrammar(t *rapid.T) G {
	n := intn(t, 10, 50)
	names := func(p string) []S {
		var out []S
		for k := 0; k < n; k++ {
			out = append(out, S(fmt.Sprintf("%s%d", p, k)))
		}
		return out
	}
	switch intn(t, 0, 4) {
	case 3: // many uses of one symbol at the same place
		g := G{{N: "S"}, {"X", [][]S{{"x"}, {"X", "x"}}}}
		if boolean(t) {
			g[1].P = append(g[1].P, []S{})
		}
		for _, k := range names("k") {
			g[0].P = append(g[0].P, append([]S{"X", k}, [][]S{nil, {"S"}, {"X"}}[intn(t, 0, 2)]...))
		}
		return g
	case 4: // the same through as many other symbols
		g := G{{N: "S"}, {"X", [][]S{{"x", "X"}, {"x"}}}}
		us, ks := names("U"), names("k")
		for k, u := range us {
			g[0].P = append(g[0].P, []S{u})
			g = append(g, NT{u, [][]S{{"X", ks[k]}}})
			if oneIn(t, 10) {
				g[len(g)-1].P = append(g[len(g)-1].P, []S{us[uniform(t, n)], ks[k]})
			}
		}
		return g
	case 0: // a long production
		p := names("t")[:min(n, 30)]
		for k := range p {
			if oneIn(t, 3) {
				p[k] = "x"
			}
		}
		for k := intn(t, 0, 2); k > 0; k-- {
			p[uniform(t, len(p))] = "X"
		}
		g := G{{"S", [][]S{p}}, {"X", [][]S{{"x"}, {"x", "x"}}}}
		if boolean(t) {
			g[1].P[intn(t, 0, 1)] = []S{}
		}
		if boolean(t) {
			g[0].P = append([][]S{append(append([]S{}, p[:len(p)-1]...), "other")}, p)
		}
		return g
	case 1: // many alternatives
		g := G{{"S", [][]S{{"K", "S"}, {"K"}}}, {N: "K"}}
		if boolean(t) {
			g[0].P = [][]S{{"S", "K"}, {"K"}}
		}
		for _, k := range names("k") {
			p := []S{k}
			if oneIn(t, 10) {
				p = append(p, pick(t, S("k1"), S("S"), S("K")))
			}
			g[1].P = append(g[1].P, p)
		}
		return g
	}
	// a chain
	us := names("U")
	var g G
	for k, u := range us {
		next := S("x")
		if k+1 < n {
			next = us[k+1]
		}
		ps := [][]S{{next}}
		if oneIn(t, 8) {
			ps = append(ps, []S{"(", us[uniform(t, n)], ")"})
		}
		g = append(g, NT{u, ps})
	}
	return g
}

func genGrammar(t *rapid.T) G {
	if rare(t) {
		return genLargeGrammar(t)
	}
	if intn(t, 0, 3) == 3 {
		return genShapedGrammar(t)
	}
	return genRandomGrammar(t)
}

// derive makes a random string of g, or nil if it gets too long.
func derive(t *rapid.T, g G, limit int) ([]S, bool) {
	ix := g.idx()
	// minimal depth of each non-terminal, to be able to finish
	depth := make([]int, len(g))
	const inf = 1 << 20
	for i := range depth {
		depth[i] = inf
	}
	pd := func(p []S) int {
		d := 0
		for _, s := range p {
			if k, nt := ix[s]; nt {
				d = max(d, depth[k])
			}
		}
		return min(d+1, inf)
	}
	for r := 0; r <= len(g); r++ {
		for i, n := range g {
			for _, p := range n.P {
				depth[i] = min(depth[i], pd(p))
			}
		}
	}
	if depth[0] >= inf {
		return nil, false
	}
	var out []S
	steps := 0
	ok := true
	grow := !oneIn(t, 3)
	var rec func(s S, d int)
	rec = func(s S, d int) {
		if !ok {
			return
		}
		k, nt := ix[s]
		if !nt {
			out = append(out, s)
			if len(out) > limit {
				ok = false
			}
			return
		}
		steps++
		var can [][]S
		for _, p := range g[k].P {
			if dp := pd(p); dp < inf && (d > 0 && steps < 4*limit+20 || dp == depth[k]) {
				can = append(can, p)
			}
		}
		p := can[0]
		if len(can) > 1 {
			p = can[intn(t, 0, len(can)-1)]
			if grow && d > 0 && pd(p) == 1 {
				p = can[intn(t, 0, len(can)-1)]
			}
		}
		for _, x := range p {
			rec(x, d-1)
		}
	}
	if limit >= 40 {
		rec(g[0].N, intn(t, 8, 60))
	} else {
		rec(g[0].N, intn(t, 1, 12))
	}
	return out, ok
}

// genInput makes an input for g: a string of the language, a changed one, or
// arbitrary terminals.
func genInput(t *rapid.T, g G, limit int) []S {
	terms := g.terminals()
	alphabet := append(append([]S{}, terms...), "unknown")
	mode := intn(t, 0, 7)
	if mode >= 1 {
		out, ok := derive(t, g, limit)
		for k := 0; k < 3 && (!ok || len(out) < 2); k++ {
			// too long or too short, again
			if o2, ok2 := derive(t, g, limit); ok2 && len(o2) >= len(out) {
				out, ok = o2, ok2
			}
		}
		if ok {
			if out == nil {
				out = []S{}
			}
			if mode >= 5 {
				for k := intn(t, 1, 2); k > 0; k-- {
					out = mutate(t, out, alphabet)
				}
			}
			return out
		}
	}
	n := intn(t, 0, min(limit, 8))
	out := make([]S, n)
	for i := range out {
		if len(terms) > 0 && !oneIn(t, 12) {
			out[i] = terms[intn(t, 0, len(terms)-1)]
		} else {
			out[i] = alphabet[intn(t, 0, len(alphabet)-1)]
		}
	}
	return out
}

func mutate(t *rapid.T, in []S, alphabet []S) []S {
	out := append([]S{}, in...)
	switch op := intn(t, 0, 3); {
	case op == 0 || len(out) == 0:
		i := intn(t, 0, len(out))
		out = append(out[:i], append([]S{alphabet[intn(t, 0, len(alphabet)-1)]}, out[i:]...)...)
	case op == 1:
		i := intn(t, 0, len(out)-1)
		out = append(out[:i], out[i+1:]...)
	case op == 2:
		i := intn(t, 0, len(out)-1)
		out[i] = alphabet[intn(t, 0, len(alphabet)-1)]
	default:
		i, k := intn(t, 0, len(out)-1), intn(t, 0, len(out)-1)
		out[i], out[k] = out[k], out[i]
	}
	return out
}

// inputLimit keeps the work of the parsers in bounds: packrat enumerates the
// ways to split a span for a production.
func (g G) inputLimit() int {
	m := g.maxProd()
	for _, n := range g {
		for _, p := range n.P {
			if len(p) == m && m > 8 { // a long one has few non-terminals
				return m + 4
			}
		}
	}
	switch {
	case m <= 2:
		return 24
	case m == 3:
		return 18
	case m == 4:
		return 11
	case m == 5:
		return 8
	default:
		return 6
	}
}
