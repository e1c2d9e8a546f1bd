package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"pgregory.net/rapid"
)

// GLine is a line of a grammar definition.
type GLine struct {
	NT   S // empty: continues the last one
	Bare bool
	P    []S
	Form int // spacing
}

// GTextCase is a grammar as text with later additions.
type GTextCase struct {
	Lines []GLine
	CRLF  bool
	NoEnd bool // no newline at the end
	Adds  []NTProd
	Bad   int // this line gets a second arrow, if > 0
	Ask   []S // symbols to ask for
}

// NTProd is a production to add.
type NTProd struct {
	N   S
	P   []S
	Nil bool
	Src int // what type the production is, see checkGText
}

var textSyms = []S{"A", "B", "C", "D", "E", "Expr", "x", "y", "+", "(", ")", "int", "é", "-", ">", "START", "E'", "longName", "日", "|", "a.b", "\"q\"", "S", "%", "%d", "%s%v", "%-3s", "100%", "#", "#x", "//", "//x", ";", "→", "::=", ":=", "ε", "*", "?", "<A>", "{", "}", "=", "\\", "$", "@", "A|B", "\\n", "--", "_", ",", "x,", ",x", "x.", ":", "A:", "x;", "'x'", "[x]", "(x)", "x-", "-x", "!x", "&x", "~", "^", "`x`", "A1", "0", "1x", "..."}

func genTextSym(t *rapid.T, nt bool) S {
	if nt && !oneIn(t, 4) {
		return pick(t, S("A"), S("B"), S("C"), S("D"), S("Expr"), S("START"), S("List"), S("T'"), S("%s"))
	}
	return textSyms[uniform(t, len(textSyms))]
}

func genTextProd(t *rapid.T) []S {
	p := make([]S, size(t, 0, 3, 9))
	if rare(t) {
		p = make([]S, intn(t, 10, 50))
	}
	if len(p) > 0 && veryRare(t) {
		defer func() { p[len(p)/2] = longName }()
	}
	for i := range p {
		p[i] = genTextSym(t, boolean(t))
	}
	return p
}

func genGText(t *rapid.T) GTextCase {
	var c GTextCase
	n := size(t, 0, 7, 40)
	for k := 0; k < n; k++ {
		l := GLine{P: genTextProd(t), Form: intn(t, 0, 5)}
		switch m := intn(t, 0, 9); {
		case m < 5:
			l.NT = genTextSym(t, true)
			if oneIn(t, 12) {
				l.NT = pick(t, S("two words"), S("A B"))
			} else if rare(t) {
				l.NT = S(strings.Repeat(pick(t, "n", "é"), intn(t, 20, 300)))
			}
		case m < 8:
		default:
			l.Bare = true
		}
		c.Lines = append(c.Lines, l)
	}
	if rare(t) { // a long one
		k := intn(t, 40, 300)
		for i := 0; i < k; i++ {
			l := GLine{NT: S(fmt.Sprintf("N%d", i)), P: []S{"x", S(fmt.Sprintf("N%d", i+1))}, Form: i % 6}
			if i%5 == 4 {
				l.NT = ""
			}
			c.Lines = append(c.Lines, l)
		}
		at := intn(t, 0, n)
		c.Lines = append(append(append([]GLine{}, c.Lines[n:]...), c.Lines[:at]...), c.Lines[at:n]...)
		n += k
	}
	c.CRLF = oneIn(t, 10)
	c.NoEnd = oneIn(t, 3)
	if oneIn(t, 8) && n > 0 {
		c.Bad = intn(t, 1, n)
	}
	for k := size(t, 0, 2, 8); k > 0 && boolean(t); k-- {
		c.Adds = append(c.Adds, NTProd{N: genTextSym(t, true), P: genTextProd(t), Nil: oneIn(t, 6), Src: intn(t, 0, 3)})
	}
	for k := intn(t, 0, 3); k > 0; k-- {
		c.Ask = append(c.Ask, pick(t, S("never"), S("x"), S("A"), S("START"), S("")))
	}
	return c
}

func (c GTextCase) text() string {
	var b strings.Builder
	for i, l := range c.Lines {
		lead := []string{"", "  ", "\t", "    ", "", " \t "}[l.Form]
		sep := []string{" ", " ", "  ", " \t", "   ", " "}[l.Form]
		arrow := []string{" -> ", "->", "  ->  ", "\t->\t", " -> ", " ->"}[l.Form]
		b.WriteString(lead)
		if !l.Bare {
			b.WriteString(string(l.NT) + arrow)
		}
		b.WriteString(strings.Join(strs(l.P), sep))
		if c.Bad == i+1 {
			b.WriteString([]string{" -> ", "->", " -> x", "->->"}[l.Form%4])
			if l.Bare {
				b.WriteString(" -> ")
			}
		}
		if l.Form == 4 {
			b.WriteString("  ")
		}
		if c.CRLF {
			b.WriteString("\r")
		}
		b.WriteString("\n")
		if l.Form == 5 {
			b.WriteString(lead + "\n")
		}
	}
	if c.NoEnd {
		return strings.TrimSuffix(b.String(), "\n")
	}
	return b.String()
}

func (g G) with(n S, p []S) G {
	for i := range g {
		if g[i].N == n {
			g[i].P = append(g[i].P, p)
			return g
		}
	}
	return append(g, NT{N: n, P: [][]S{p}})
}

func (c GTextCase) model() G {
	var g G
	var cur S
	for _, l := range c.Lines {
		if l.Bare && len(l.P) == 0 {
			continue
		}
		if l.NT != "" && !l.Bare {
			cur = l.NT
		} else if cur == "" {
			cur = "START"
		}
		g = g.with(cur, l.P)
	}
	return g
}

func checkGText(c GTextCase, o *Obs) error {
	text := c.text()
	gr, err := grammar.New(text)
	if c.Bad > 0 {
		o.Label("bad-grammar")
		o.NonTrivial(true)
		if err != grammar.ErrBadGrammar || gr != nil {
			return errf("New returned %v and grammar %v for a line with two arrows:\n%s", err, gr != nil, text)
		}
		return nil
	}
	if err != nil {
		return errf("New: %v\n%s", err, text)
	}
	want := c.model()
	if len(c.Lines) == 0 && len(c.Ask)%2 == 1 {
		gr = grammar.Empty()
	}
	if got := read(gr); !got.equal(want) {
		return errf("the grammar of\n%s--- is\n%s--- expected\n%s", text, got, want)
	}
	o.LabelIf(len(want) > 0 && want[0].N == "START", "start")
	o.LabelIf(len(want) > 8, "many-nonterminals")
	o.LabelIf(len(c.Lines) > 12, "many-lines")
	o.NonTrivial(len(want) > 1)
	roundTrip := func() error {
		str := gr.String()
		col := -1
		for _, l := range strings.Split(str, "\n") {
			k := utf8.RuneCountInString(strings.SplitN(l, "->", 2)[0])
			if str != "" && (!strings.Contains(l, "->") || col >= 0 && k != col) {
				return errf("String does not align the arrows\n%s", str)
			}
			col = k
		}
		cp, err := grammar.New(str)
		if err != nil {
			return errf("String is not a valid grammar: %v\n%s", err, str)
		}
		if got := read(cp); !got.equal(want) {
			return errf("String\n%s\n--- is read as\n%s--- expected\n%s", str, got, want)
		}
		if again := cp.String(); again != str {
			return errf("String of the copy differs:\n%s\n---\n%s", str, again)
		}
		return nil
	}
	if err := roundTrip(); err != nil {
		return err
	}
	// asking changes nothing, and only non-terminals have productions
	ask := func() error {
		for _, s := range append(append([]S{}, c.Ask...), want.symbols()...) {
			ps := gr.Productions(sym(s))
			if want.isNT(s) != (ps != nil) {
				return errf("Productions(%q) is nil: %v, it is a non-terminal: %v", s, ps == nil, want.isNT(s))
			}
		}
		nts := gr.NonTerminals()
		for i := range nts {
			nts[i] = stringsymbol.Symbol("changed")
		}
		if got := read(gr); !got.equal(want) {
			return errf("asking for productions changed the grammar to\n%s--- expected\n%s", got, want)
		}
		return nil
	}
	if err := ask(); err != nil {
		return err
	}
	for _, a := range c.Adds {
		o.Label("add")
		if a.Nil {
			gr.Add(sym(a.N), nil)
			want = want.with(a.N, []S{})
			continue
		}
		from := sym(a.N)
		for _, nt := range gr.NonTerminals() {
			if nt.String() == string(a.N) {
				from = nt
			}
		}
		switch {
		case a.Src == 1: // of another set
			set := setsymbol.New()
			set.Str("other")
			pr := set.Production()
			for _, s := range a.P {
				pr.AddSymbols(sym(s))
			}
			gr.Add(from, pr)
			pr.AddSymbols(sym("changed"))
		case a.Src == 2 && len(want) > 0: // one that the grammar has
			src := want[len(a.P)%len(want)]
			k := len(a.P) % len(src.P)
			pr := gr.Productions(sym(src.N)).Production(k)
			gr.Add(from, pr)
			pr.(*setsymbol.Production).AddSymbols(sym("changed"))
			a.P = src.P[k]
		case a.Src == 3: // of a type of our own
			gr.Add(from, strangeProd(a.P))
		default:
			pr := make(stringsymbol.Production, len(a.P))
			for i, s := range a.P {
				pr[i] = stringsymbol.Symbol(s)
			}
			gr.Add(from, pr)
			for i := range pr {
				pr[i] = "changed"
			}
		}
		want = want.with(a.N, a.P)
	}
	if got := read(gr); !got.equal(want) {
		return errf("after Add the grammar is\n%s--- expected\n%s", got, want)
	}
	if err := ask(); err != nil {
		return err
	}
	return roundTrip()
}

// genChain is a long chain of non-terminals, that may be closed and may need
// nullable symbols to be left recursive.
func genChain(t *rapid.T) G {
	n := intn(t, 2, 14)
	if oneIn(t, 3) {
		n = intn(t, 14, 30)
	}
	if rare(t) {
		n = intn(t, 31, 150)
		if oneIn(t, 10) {
			n = 151 + uniform(t, 450)
		}
	}
	g := make(G, n)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := range order {
		j := intn(t, i, n-1)
		order[i], order[j] = order[j], order[i]
	}
	back := uniform(t, n)
	if oneIn(t, 3) {
		back = 0
	}
	closed := !oneIn(t, 3)
	twice := oneIn(t, 5) // each link is there twice, so there are 2^n ways through
	for i := range g {
		g[i].N = S(fmt.Sprintf("N%d", i))
		if n <= 30 {
			g[i].N = ntNames[0][i]
		}
	}
	for k, i := range order {
		next := S("end")
		if k+1 < n {
			next = g[order[k+1]].N
		} else if closed {
			next = g[order[back]].N
		}
		p := []S{next, "t"}
		switch intn(t, 0, 5) {
		case 4: // behind a nullable symbol
			p = []S{"Nul", next}
		case 5: // behind one that is not
			if oneIn(t, 4) && uniform(t, n) < 8 { // not often in long chains
				p = []S{"Not", next}
			}
		}
		g[i].P = [][]S{p}
		if twice {
			g[i].P = append(g[i].P, append(p[:len(p):len(p)], "u"))
		}
		if boolean(t) {
			g[i].P = append(g[i].P, []S{"y"})
		}
		if oneIn(t, 10) {
			g[i].P = append([][]S{{"z", g[intn(t, 0, n-1)].N}}, g[i].P...)
		}
	}
	g = append(g, NT{"Nul", [][]S{{"Nul2", "Nul2"}, {"n"}}}, NT{"Nul2", [][]S{{"n2"}, {}}}, NT{"Not", [][]S{{"Nul", "no"}}})
	if oneIn(t, 6) { // with many productions
		w, nt := intn(t, 5, 60), len(g)-1-uniform(t, 3)
		if oneIn(t, 6) {
			w = intn(t, 250, 300)
		}
		var many [][]S
		for i := 0; i < w; i++ {
			many = append(many, []S{S(fmt.Sprint("w", i))})
		}
		g[nt].P = append(many, g[nt].P...)
		if oneIn(t, 4) {
			k := uniform(t, n)
			g[k].P = append(many[:w:w], g[k].P...)
		}
	}
	if oneIn(t, 3) {
		g[0], g[n+2] = g[n+2], g[0]
	}
	return g
}

func genLRGrammar(t *rapid.T) G {
	if oneIn(t, 5) {
		return genChain(t)
	}
	if oneIn(t, 8) {
		g := genOptionals(t)
		if boolean(t) { // one of the optional symbols is not
			if i := intn(t, 0, len(g)-1); g[i].N[0] == 'O' {
				g[i].P = [][]S{{"o"}}
			}
		}
		return g
	}
	return genGrammar(t)
}

func checkIsLR(g G, o *Obs) error {
	want := g.leftRecursive()
	o.LabelIf(want, "left-recursive")
	o.LabelIf(g.hiddenLeft(), "hidden")
	o.LabelIf(len(g) > 8, "many-nonterminals")
	o.NonTrivial(want || len(g) > 2)
	if len(g) == 1 && parlex.IsLeftRecursive(grammar.Empty()) {
		return errf("a grammar without non-terminals is left recursive")
	}
	for name, gr := range map[string]parlex.Grammar{"grammar.Grammar": g.build(), "own": plain{g}} {
		if got := parlex.IsLeftRecursive(gr); got != want {
			return errf("IsLeftRecursive (%s) is %v, expected %v\n%s", name, got, want, g)
		}
		if !read(gr).equal(g) {
			return errf("IsLeftRecursive changed the grammar to\n%s", read(gr))
		}
	}
	return nil
}

// RLRCase is a grammar with strings to try.
type RLRCase struct {
	G      G
	Plain  bool
	Inputs [][]S
}

// genOptionals makes a grammar that is left recursive behind many symbols that
// can be empty.
func genOptionals(t *rapid.T) G {
	k := intn(t, 3, 8)
	var p []S
	var opts G
	for i := 0; i < k; i++ {
		n := S(fmt.Sprintf("O%d", i))
		term := S(fmt.Sprintf("o%d", i))
		if oneIn(t, 6) && i > 0 {
			n = opts[intn(t, 0, len(opts)-1)].N // twice
		} else if boolean(t) {
			opts = append(opts, NT{n, [][]S{{term}, {}}})
		} else {
			opts = append(opts, NT{n, [][]S{{}, {term}}})
		}
		p = append(p, n)
	}
	at := intn(t, 0, k)
	p = append(append(append([]S{}, p[:at]...), "S"), p[at:]...)
	if boolean(t) {
		p = append(p, "x")
	}
	s := NT{"S", [][]S{p, {"y"}}}
	if boolean(t) {
		s.P = append(s.P, append([]S{}, p[:intn(t, 0, len(p))]...))
	}
	if oneIn(t, 5) { // through a chain of unit productions
		n := intn(t, 2, 20)
		for i := 0; i < n; i++ {
			u := NT{S(fmt.Sprint("U", i)), [][]S{{S(fmt.Sprint("U", i+1))}}}
			if i == n-1 {
				u.P = [][]S{{"u"}, pick(t, []S{"S", "w"}, []S{"u", "u"}, []S{"U0"})}
			}
			opts = append(opts, u)
		}
		s.P = append(s.P, []S{"U0"})
	}
	if oneIn(t, 3) {
		return append(append(G{{"T", [][]S{{"S"}, {"S", "T"}}}}, opts...), s)
	}
	return append(G{s}, opts...)
}

// genSmallLR makes grammars whose transformation stays small.
func genSmallLR(t *rapid.T) G {
	if oneIn(t, 12) {
		return genOptionals(t)
	}
	if boolean(t) {
		return genShapedGrammar(t)
	}
	names := []S{"A", "B", "C", "D", "E"}
	if oneIn(t, 4) {
		names = []S{"A", "A'", "A''", "B", "B'"}
		if boolean(t) {
			names = []S{"A", "A'", "A''", "A'''", "A''''", "A'''''"}
		}
	}
	terms := []S{"x", "y", "z"}
	nn, nt := intn(t, 1, 4), intn(t, 1, 3)
	if len(names) > 5 {
		nn = intn(t, 1, 6)
	}
	g := make(G, nn)
	for i := range g {
		g[i].N = names[i]
		for k := intn(t, 1, 3); k > 0; k-- {
			p := make([]S, size(t, 0, 3, 4))
			for l := range p {
				p[l] = terms[intn(t, 0, nt-1)]
				if intn(t, 0, 4) < 2 || l == 0 && boolean(t) {
					p[l] = names[intn(t, 0, nn-1)]
				}
			}
			g[i].P = append(g[i].P, p)
		}
		if !oneIn(t, 4) {
			g[i].P = append(g[i].P, []S{terms[intn(t, 0, nt-1)]})
		}
	}
	return g
}

// expansion estimates how many productions substitution of the leading
// non-terminals makes, which is exponential for some grammars.
func (g G) expansion() float64 {
	ix, null := g.idx(), g.nullable()
	worst := 0.0
	for _, eps := range []bool{false, true} {
		v := make([][]float64, len(g)) // number of productions by first symbol
		units := edges{}
		for i, n := range g {
			v[i] = make([]float64, len(g)+1)
			for _, p := range n.P {
				rest := 1.0
				if eps {
					for _, s := range p {
						if null[s] {
							rest *= 2
						}
					}
				}
				for k, s := range p {
					j, nt := ix[s]
					if !nt {
						j = len(g)
					}
					if eps && null[s] {
						rest /= 2
					}
					v[i][j] += rest
					if eps && nt && len(p) > 0 {
						units.add(n.N, s) // at most
					}
					if !eps || !null[s] || k == len(p)-1 {
						break
					}
				}
				if len(p) == 0 {
					v[i][len(g)]++
				}
			}
		}
		if eps {
			units.closure()
			w := make([][]float64, len(g))
			for i, n := range g {
				w[i] = append([]float64{}, v[i]...)
				for j, m := range g {
					if i != j && units[n.N][m.N] && g.unit(n.N, m.N) {
						for k := range w[i] {
							w[i][k] += v[j][k]
						}
					}
				}
			}
			v = w
		}
		total := 0.0
		for i := range v {
			for j := 0; j < i; j++ {
				m := v[i][j]
				v[i][j] = 0
				for k := range v[i] {
					v[i][k] += m * v[j][k]
				}
			}
			total += v[i][i]
			v[i][i] = 0 // those are of the new non-terminal
			for _, x := range v[i] {
				total += x
			}
		}
		worst = max(worst, total)
	}
	return worst
}

// unit reports whether a can become b alone.
func (g G) unit(a, b S) bool {
	null := g.nullable()
	e := edges{}
	for _, n := range g {
		for _, p := range n.P {
			for k, s := range p {
				alone := true
				for l, x := range p {
					alone = alone && (l == k || null[x])
				}
				if alone && g.isNT(s) {
					e.add(n.N, s)
				}
			}
		}
	}
	e.closure()
	return e[a][b]
}

func genRLR(t *rapid.T) RLRCase {
	c := RLRCase{G: genSmallLR(t), Plain: oneIn(t, 4)}
	for k := 0; c.G.expansion() > 2000; k++ {
		if k == 8 {
			c.G = G{{"A", [][]S{{"A", "x"}, {"y"}}}}
			break
		}
		c.G = genSmallLR(t)
	}
	for k := intn(t, 1, 4); k > 0; k-- {
		c.Inputs = append(c.Inputs, genInput(t, c.G, 10))
	}
	return c
}

func (g G) sizeOf() int {
	n := 0
	for _, nt := range g {
		for _, p := range nt.P {
			n += 1 + len(p)
		}
	}
	return n
}

// allStrings of terminals, the short ones first.
func allStrings(terms []S, limit int) [][]S {
	out := [][]S{{}}
	for i := 0; i < len(out) && len(out) < limit; i++ {
		for _, s := range terms {
			out = append(out, append(append([]S{}, out[i]...), s))
		}
	}
	return out
}

func checkRLR(c RLRCase, o *Obs) error {
	g := c.G
	var in parlex.Grammar = g.build()
	if c.Plain {
		in = plain{g}
	}
	if len(g) == 1 {
		if e := grammar.RemoveLeftRecursion(grammar.Empty()); e == nil || len(e.NonTerminals()) > 0 {
			return errf("RemoveLeftRecursion of a grammar without non-terminals is %v", e)
		}
	}
	out := grammar.RemoveLeftRecursion(in)
	if out == nil {
		return errf("RemoveLeftRecursion returned nil for\n%s", g)
	}
	if !read(in).equal(g) {
		return errf("RemoveLeftRecursion changed its argument to\n%s--- from\n%s", read(in), g)
	}
	h := read(out)
	lr := g.leftRecursive()
	o.LabelIf(lr, "left-recursive")
	o.LabelIf(g.hiddenLeft(), "hidden")
	o.LabelIf(g.cyclic(), "cyclic")
	o.LabelIf(len(h) > len(g), "new-nonterminals")
	o.NonTrivial(lr)
	if h.leftRecursive() {
		return errf("the result is left recursive:\n%s--- for\n%s", h, g)
	}
	if _, err := topdown.New(out); err != nil {
		return errf("topdown.New: %v for the result\n%s--- of\n%s", err, h, g)
	}
	seen := map[S]bool{}
	for _, n := range h {
		if seen[n.N] {
			return errf("non-terminal %q is listed twice in the result", n.N)
		}
		seen[n.N] = true
	}
	// it can be printed, also if a symbol is left without productions
	var printed G
	for _, n := range h {
		if len(n.P) > 0 {
			printed = append(printed, n)
		}
	}
	o.LabelIf(len(printed) < len(h), "no-productions")
	if cp, err := grammar.New(out.String()); err != nil || !read(cp).equal(printed) {
		return errf("the result is printed as\n%s\n--- but is\n%s", out, h)
	}
	if h.sizeOf() > 1500 {
		o.Label("too-big")
		return nil
	}
	n := 40
	if h.sizeOf() > 200 {
		o.Label("big")
		n = 8
	}
	for _, s := range append(append([][]S{}, c.Inputs...), allStrings(g.terminals(), n)...) {
		a, b := g.chart(s).accepts(), h.chart(s).accepts()
		o.LabelIf(a && len(s) > 1, "in-language")
		if a != b {
			return errf("%q is in the language: %v, in that of the result: %v\ngrammar\n%s--- result\n%s", s, a, b, g, h)
		}
	}
	return nil
}

// ---- topdown

// peg is ordered choice: the first production that matches is taken.
type peg struct {
	g    G
	ix   map[S]int
	toks []S
	memo map[[2]int]*pegRes
}

type pegRes struct {
	ok   bool
	end  int
	tree string
}

func (p *peg) prod(nt int, pr []S, pos int) *pegRes {
	var kids []string
	for _, s := range pr {
		r := p.at(s, pos)
		if !r.ok {
			return &pegRes{}
		}
		kids = append(kids, r.tree)
		pos = r.end
	}
	t := string(p.g[nt].N)
	if len(kids) > 0 {
		t += "(" + strings.Join(kids, " ") + ")"
	}
	return &pegRes{true, pos, t}
}

func (p *peg) at(s S, pos int) *pegRes {
	nt, is := p.ix[s]
	if !is {
		if pos < len(p.toks) && p.toks[pos] == s {
			return &pegRes{true, pos + 1, string(s)}
		}
		return &pegRes{}
	}
	key := [2]int{nt, pos}
	if r, ok := p.memo[key]; ok {
		return r
	}
	res := &pegRes{}
	for _, pr := range p.g[nt].P {
		if r := p.prod(nt, pr, pos); r.ok {
			res = r
			break
		}
	}
	p.memo[key] = res
	return res
}

func (g G) peg(toks []S) string {
	p := &peg{g: g, ix: g.idx(), toks: toks, memo: map[[2]int]*pegRes{}}
	for _, pr := range g[0].P {
		if r := p.prod(0, pr, 0); r.ok && r.end == len(toks) {
			return r.tree
		}
	}
	return "nil"
}

// genRight makes grammars that are mostly not left recursive.
func genRight(t *rapid.T) G {
	switch intn(t, 0, 6) {
	case 0:
		return genGrammar(t)
	case 1:
		return genShapedGrammar(t)
	}
	// non-terminals may be first only if they come later
	names := pick(t, ntNames...)
	terms := pick(t, termNames...)
	nn, nt := size(t, 1, 5, 10), intn(t, 1, 3)
	g := make(G, nn)
	for i := range g {
		g[i].N = names[i]
		for k := size(t, 1, 4, 7); k > 0; k-- {
			p := make([]S, size(t, 0, 3, 6))
			null := true // all before this may be empty
			for l := range p {
				p[l] = terms[intn(t, 0, nt-1)]
				lo := 0
				if null {
					lo = i + 1
				}
				if lo < nn && boolean(t) {
					p[l] = names[intn(t, lo, nn-1)]
				} else {
					null = false
				}
			}
			g[i].P = append(g[i].P, p)
		}
		if boolean(t) {
			g[i].P[len(g[i].P)-1] = []S{terms[intn(t, 0, nt-1)]}
		}
	}
	return g
}

func checkTopdown(c ParseCase, o *Obs) error {
	gr := c.G.build()
	p, err := topdown.New(gr)
	if c.G.leftRecursive() {
		o.Label("left-recursive")
		if err != topdown.ErrLeftRecursion || p != nil {
			return errf("New returned %v, parser %v for a left recursive grammar\n%s", err, p != nil, c.G)
		}
		return nil
	}
	if err != nil {
		return errf("New: %v for\n%s", err, c.G)
	}
	c.labels(o)
	if len(c.Inputs) == 1 {
		if p, err := topdown.New(grammar.Empty()); err != nil || p.Parse(tokens(c.Inputs[0])) != nil {
			return errf("a grammar without non-terminals: error %v, or a tree for %q", err, c.Inputs[0])
		}
	}
	for _, in := range c.Inputs {
		lxs := tokens(in)
		n := p.Parse(lxs)
		want := c.G.peg(in)
		inputLabels(in, want != "nil", o)
		if got := sexpr(n); got != want {
			return errf("%q is parsed as %s, expected %s\n%s", in, got, want, c.G)
		}
		if n == nil {
			o.LabelIf(c.G.chart(in).accepts(), "ordered-choice-misses")
			continue
		}
		o.NonTrivial(len(in) > 1)
		if _, err := checkTree(c.G, lxs, n); err != nil {
			return errf("input %q: %v\n%s", in, err, c.G)
		}
		// what topdown finds, packrat finds
		if packrat.New(gr).Parse(lxs) == nil {
			return errf("packrat does not accept %q, topdown does\n%s", in, c.G)
		}
	}
	return nil
}

func init() {
	register("C08", []string{"symbols have no white space and no ->"}, &suite[GTextCase]{nm: "text", quick: 160000, gen: genGText, chk: checkGText,
		rl: "0-40 lines with a non-terminal, a continuation or bare symbols, in varying layout, some with two arrows, then Add, String and read again; non-trivial: two or more non-terminals, or a bad line"})
	register("C09", nil, &suite[G]{nm: "is-left-recursive", quick: 200000, gen: genLRGrammar, chk: checkIsLR,
		rl: "random and shaped grammars and chains of up to 30 non-terminals, closed or not, through symbols that may be empty; non-trivial: left recursive, or three or more non-terminals"})
	register("C10", []string{"languages are compared on all strings up to a length, and on strings derived from the original"},
		&suite[RLRCase]{nm: "remove", quick: 50000, gen: genRLR, chk: checkRLR,
			rl: "small random grammars and the shapes people write, compared on 40 short strings and up to 4 derived ones; non-trivial: the grammar is left recursive"})
	register("C14", []string{"lexeme kinds are not non-terminals"}, &suite[ParseCase]{nm: "ordered-choice", quick: 120000, gen: genParseCase(genRight), chk: checkTopdown,
		rl: "grammars without left recursion by construction (and some with), 1-5 inputs each; non-trivial: an input of two or more tokens is parsed"},
		&suite[HugeParse]{nm: "huge", quick: 150, gen: genHugeParse(true), chk: checkHugeDown, rl: hugeParseRule})
}
