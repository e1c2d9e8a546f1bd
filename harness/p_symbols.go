package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"pgregory.net/rapid"
)

// ---- analysis

// AnCase is a grammar, analysed as a *grammar.Grammar or as one of our own.
type AnCase struct {
	G     G
	Plain bool
}

func genAnCase(t *rapid.T) AnCase {
	return AnCase{G: genLRGrammar(t), Plain: boolean(t)}
}

// alien is a symbol of a type of our own.
type alien struct{ s S }

func (a alien) String() string { return string(a.s) }

func checkAnalyze(c AnCase, o *Obs) error {
	g := c.G
	var in parlex.Grammar = g.build()
	if c.Plain {
		in = plain{g}
	}
	a := analyze.Analyze(in)
	if again := analyze.Analyze(a); again != a {
		return errf("analysing an analysis gave another one")
	}
	if !read(a).equal(g) {
		return errf("the analysis is the grammar\n%s\nexpected\n%s", read(a), g)
	}
	fs := g.firsts()
	// nilFirst: an empty production through leftmost children
	nilFirst := map[S]bool{}
	for ch := true; ch; {
		ch = false
		for _, n := range g {
			for _, p := range n.P {
				if !nilFirst[n.N] && (len(p) == 0 || nilFirst[p[0]]) {
					nilFirst[n.N] = true
					ch = true
				}
			}
		}
	}
	syms := g.symbols()
	known := map[S]bool{}
	for _, s := range syms {
		known[s] = true
	}
	o.NonTrivial(len(g) > 2)
	o.LabelIf(g.leftRecursive(), "left-recursive")
	o.LabelIf(g.hiddenLeft(), "hidden-left-recursion")
	o.LabelIf(len(g.nullable()) > 0, "nullable")
	other := setsymbol.New()
	for round := 0; round < 2; round++ {
		for i, s := range append(append([]S{}, syms...), "not-there", "") {
			variants := []parlex.Symbol{sym(s), alien{s}, other.Str(string(s))}
			v := variants[(i+round)%3]
			if got := a.Contains(v); got != known[s] {
				return errf("Contains(%q) is %v\n%s", s, got, g)
			}
			if got := a.NonTerminal(v); got != g.isNT(s) {
				return errf("NonTerminal(%q) is %v\n%s", s, got, g)
			}
			if got := a.HasNilInFirst(v); got != nilFirst[s] {
				return errf("HasNilInFirst(%q) is %v\n%s", s, got, g)
			}
			for j, f := range append(append([]S{}, syms...), "not-there", "") {
				w := []parlex.Symbol{sym(f), alien{f}, other.Str(string(f))}[(j+round)%3]
				want := fs[s][f]
				if s == f {
					want = known[s]
				} else if g.isNT(f) {
					continue // whether FIRST has non-terminals is not said
				}
				if got := a.HasFirst(v, w); got != want {
					return errf("HasFirst(%q, %q) is %v\n%s", s, f, got, g)
				}
			}
		}
	}
	if !read(a).equal(g) || !read(in).equal(g) {
		return errf("asking changed the grammar")
	}
	return nil
}

// ---- symbol sets

// SetStep is a step of a history with sets.
type SetStep struct {
	Op   int
	Set  int // one of two sets
	Syms []int
	Kind int // what type the symbols are
	On   int // which of the productions made earlier
}

// SetCase is a history with two sets.
type SetCase struct{ Steps []SetStep }

var setNames = []S{"A", "B", "C", "", "x", "é", "A B", "->", "日本", "a\nb", "START", "'", "D", "E", "F", "G"}

func setName(k int) S {
	if k < len(setNames) {
		return setNames[k]
	}
	return S(fmt.Sprintf("s%d", k))
}

func genSetCase(t *rapid.T) SetCase {
	var c SetCase
	if rare(t) { // many symbols
		s := SetStep{Set: intn(t, 0, 1), Op: intn(t, 0, 14), Kind: intn(t, 0, 3)}
		for k := intn(t, 50, 400); k > 0; k-- {
			s.Syms = append(s.Syms, len(setNames)+k)
		}
		c.Steps = append(c.Steps, s)
	}
	for k := size(t, 1, 12, 40); k > 0; k-- {
		s := SetStep{Op: intn(t, 0, 14), Set: intn(t, 0, 1), Kind: intn(t, 0, 3), On: intn(t, 0, 15)}
		for n := size(t, 0, 3, 12); n > 0; n-- {
			s.Syms = append(s.Syms, uniform(t, len(setNames)+len(c.Steps)%2*8))
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

type setModel struct {
	set   *setsymbol.Set
	order []S
}

func (m *setModel) idx(s S) int {
	for i, x := range m.order {
		if x == s {
			return i
		}
	}
	return -1
}

func (m *setModel) add(s S) int {
	if i := m.idx(s); i >= 0 {
		return i
	}
	m.order = append(m.order, s)
	return len(m.order) - 1
}

// someProd is a production made earlier with what it should hold.
type someProd struct {
	p    parlex.Production
	set  int // -1 if it is not of a set
	want []S
}

type someProds struct {
	p    parlex.Productions
	set  int
	want [][]S
}

func sameProd(p parlex.Production, want []S) error {
	if p == nil {
		return errf("production is nil, expected %q", want)
	}
	if p.Symbols() != len(want) {
		return errf("production has %d symbols, expected %q", p.Symbols(), want)
	}
	for i, s := range want {
		if x := p.Symbol(i); x == nil || x.String() != string(s) {
			return errf("symbol %d is %v, expected %q", i, x, s)
		}
	}
	if x := p.Symbol(len(want)); x != nil {
		return errf("symbol %d is %v, expected none", len(want), x)
	}
	i := 0
	it := p.Iter()
	for it.Next() {
		if i >= len(want) || it.Idx != i || it.Symbol.String() != string(want[i]) {
			return errf("iterating gives %v at %d, expected %q", it.Symbol, i, want)
		}
		i++
	}
	if i != len(want) {
		return errf("iterating gives %d symbols, expected %q", i, want)
	}
	if it.Next() {
		return errf("iterating goes on after the end of %q", want)
	}
	if st, ok := p.(fmt.Stringer); ok {
		if st.String() != strings.Join(strs(want), " ") {
			return errf("String is %q, expected %q", st.String(), want)
		}
	}
	return nil
}

func sameProds(p parlex.Productions, want [][]S) error {
	if p == nil {
		return errf("productions are nil, expected %q", want)
	}
	if p.Productions() != len(want) {
		return errf("there are %d productions, expected %q", p.Productions(), want)
	}
	for i, w := range want {
		if err := sameProd(p.Production(i), w); err != nil {
			return errf("production %d: %v", i, err)
		}
	}
	if x := p.Production(len(want)); x != nil {
		return errf("production %d is %v, expected none", len(want), x)
	}
	i := 0
	it := p.Iter()
	for it.Next() {
		if i >= len(want) || it.Idx != i {
			return errf("iterating gives a production at %d of %d", i, len(want))
		}
		if err := sameProd(it.Production, want[i]); err != nil {
			return errf("iterating, production %d: %v", i, err)
		}
		i++
	}
	if i != len(want) || it.Next() {
		return errf("iterating gives %d productions, expected %q", i, want)
	}
	if sp, ok := p.(*setsymbol.Productions); ok {
		var ss []string
		for _, w := range want {
			ss = append(ss, "["+strings.Join(strs(w), ", ")+"]")
		}
		if s := "{" + strings.Join(ss, " ") + "}"; sp.String() != s {
			return errf("String is %q, expected %q", sp.String(), s)
		}
	}
	return nil
}

func checkSets(c SetCase, o *Obs) error {
	sets := []*setModel{{set: setsymbol.New()}, {set: setsymbol.New()}}
	strange := setsymbol.New()
	var ps []*someProd
	var pss []*someProds
	for i, st := range c.Steps {
		m := sets[st.Set]
		words := make([]S, len(st.Syms))
		for k, s := range st.Syms {
			words[k] = setName(s)
		}
		mk := func(k int) parlex.Symbol {
			s := words[k]
			switch (st.Kind + k) % 4 {
			case 0:
				return sym(s)
			case 1:
				return alien{s}
			case 2:
				return strange.Str(string(s))
			}
			if x := m.set.HasSymbol(sym(s)); x != nil {
				return x
			}
			return sym(s)
		}
		var syms []parlex.Symbol
		var ss stringsymbol.Production
		for k := range words {
			syms = append(syms, mk(k))
			ss = append(ss, stringsymbol.Symbol(words[k]))
		}
		fail := func(f string, a ...any) error {
			return errf("step %d: %s", i, fmt.Sprintf(f, a...))
		}
		old := func() *someProd {
			if len(ps) == 0 {
				return nil
			}
			return ps[st.On%len(ps)]
		}
		addAll := func(ws []S) {
			for _, w := range ws {
				m.add(w)
			}
		}
		switch st.Op {
		case 0: // look up, adds nothing
			for k, w := range words {
				idx := m.idx(w)
				if m.set.Has(string(w)) != (idx >= 0) {
					return fail("Has(%q) is wrong", w)
				}
				if x := m.set.HasSymbol(syms[k]); (x != nil) != (idx >= 0) || x != nil && (x.Idx() != idx || x.String() != string(w)) {
					return fail("HasSymbol(%q) is %v, expected index %d", w, x, idx)
				}
				if got := m.set.Idx(syms[k]); got != idx {
					return fail("Idx(%q) is %d, expected %d", w, got, idx)
				}
			}
		case 1, 2: // add
			for k, w := range words {
				idx := m.add(w)
				var x *setsymbol.Symbol
				if st.Op == 1 {
					x = m.set.Str(string(w))
				} else {
					x = m.set.Symbol(syms[k])
				}
				if x == nil || x.Idx() != idx || x.String() != string(w) {
					return fail("symbol %q is %v, expected index %d", w, x, idx)
				}
			}
		case 3:
			addAll(words)
			ps = append(ps, &someProd{m.set.Production(syms...), st.Set, words})
		case 4:
			addAll(words)
			ps = append(ps, &someProd{m.set.CastProduction(ss), st.Set, words})
		case 5:
			ps = append(ps, &someProd{ss, -1, words})
		case 6: // cast one made earlier, maybe of the other set
			if p := old(); p != nil {
				addAll(p.want)
				if p.set == st.Set {
					// the same or a copy
					if err := sameProd(m.set.CastProduction(p.p), p.want); err != nil {
						return fail("CastProduction: %v", err)
					}
				} else {
					ps = append(ps, &someProd{m.set.CastProduction(p.p), st.Set, p.want})
				}
			}
		case 7: // append
			if p := old(); p != nil {
				if sp, ok := p.p.(*setsymbol.Production); ok {
					for _, w := range words {
						sets[p.set].add(w)
					}
					own := make([]parlex.Symbol, len(words))
					for k, w := range words {
						own[k] = alien{w}
					}
					sp.AddSymbols(own...)
					p.want = append(append([]S{}, p.want...), words...)
				}
			}
		case 8: // productions
			var in []parlex.Production
			var want [][]S
			for k := 0; k <= st.Kind && len(ps) > 0; k++ {
				p := ps[(st.On+k)%len(ps)]
				in = append(in, p.p)
				want = append(want, p.want)
				addAll(p.want)
			}
			pss = append(pss, &someProds{m.set.Productions(in...), st.Set, want})
		case 9: // add to productions
			if len(pss) > 0 {
				q := pss[st.On%len(pss)]
				if sp, ok := q.p.(*setsymbol.Productions); ok {
					for _, w := range words {
						sets[q.set].add(w)
					}
					sp.AddProductions(ss)
					q.want = append(append([][]S{}, q.want...), words)
				}
			}
		case 10: // a production of productions can be extended on its own
			if len(pss) > 0 {
				q := pss[st.On%len(pss)]
				if len(q.want) > 0 && q.set >= 0 {
					k := st.Kind % len(q.want)
					p := &someProd{q.p.Production(k), q.set, q.want[k]}
					ps = append(ps, p)
				}
			}
		case 11: // cast productions
			if len(pss) > 0 {
				q := pss[st.On%len(pss)]
				if st.Kind%2 == 0 {
					cast := stringsymbol.CastProductions(q.p)
					if err := sameProds(cast, q.want); err != nil {
						return fail("stringsymbol.CastProductions: %v", err)
					}
					if q.set >= 0 {
						pss = append(pss, &someProds{cast, -1, q.want})
					}
				} else {
					for _, w := range q.want {
						addAll(w)
					}
					cast := m.set.CastProductions(q.p)
					if err := sameProds(cast, q.want); err != nil {
						return fail("CastProductions: %v", err)
					}
					if q.set != st.Set {
						pss = append(pss, &someProds{cast, st.Set, q.want})
					}
				}
			}
		case 12: // strings
			if p := old(); p != nil {
				cast := stringsymbol.CastProduction(p.p)
				if err := sameProd(cast, p.want); err != nil {
					return fail("stringsymbol.CastProduction: %v", err)
				}
			}
			for k, w := range words {
				if x := stringsymbol.CastSymbol(syms[k]); string(x) != string(w) {
					return fail("stringsymbol.CastSymbol(%q) is %q", w, x)
				}
				if n := parlex.SymLen(syms[k]); n != len([]rune(string(w))) {
					return fail("SymLen(%q) is %d", w, n)
				}
			}
		case 14: // nothing
			if m.set.Symbol(nil) != nil || m.set.CastProduction(nil) != nil || m.set.CastProductions(nil) != nil {
				return fail("nil is cast to something")
			}
			if stringsymbol.CastProduction(nil) != nil || stringsymbol.CastProductions(nil) != nil {
				return fail("nil is cast to something")
			}
			var p1 *setsymbol.Production
			var p2 *setsymbol.Productions
			for k, p := range []parlex.Production{p1, stringsymbol.Production(nil)} {
				if p.Symbols() != 0 || p.Iter().Next() {
					return fail("nil production %d has symbols", k)
				}
			}
			for k, p := range []parlex.Productions{p2, stringsymbol.Productions(nil)} {
				if p.Productions() != 0 || p.Iter().Next() {
					return fail("nil productions %d have productions", k)
				}
			}
			if (&parlex.ProductionIterator{}).Next() || (&parlex.ProductionsIterator{}).Next() {
				return fail("an iterator over nothing has a next")
			}
			_ = p2.String()
			// an empty production in a list of someone else's
			mixed := mixedProds{stringsymbol.Production(nil), stringsymbol.Production{"m"}, stringsymbol.Production{}, strangeProd{}, strangeProd{"n"}}
			if st.Kind%2 == 0 {
				mixed = mixed[1:]
			}
			var names [][]S
			for _, p := range mixed {
				var ws []S
				for i := 0; i < p.Symbols(); i++ {
					ws = append(ws, S(p.Symbol(i).String()))
				}
				names = append(names, ws)
			}
			if err := sameProds(stringsymbol.CastProductions(mixed), names); err != nil {
				return fail("stringsymbol.CastProductions of a list of another type: %v", err)
			}
			if err := sameProds(setsymbol.New().CastProductions(mixed), names); err != nil {
				return fail("CastProductions of a list of another type: %v", err)
			}
		default: // lexemes
			var lxs []parlex.Lexeme
			for k := range words {
				lxs = append(lxs, lexeme.New(syms[k]).Set(fmt.Sprint("v", k)).At(k, k+1))
			}
			addAll(words)
			out := m.set.LoadLexemes(lxs)
			if len(out) != len(words) {
				return fail("LoadLexemes gave %d lexemes for %d", len(out), len(words))
			}
			for k, lx := range out {
				sx, ok := lx.Kind().(*setsymbol.Symbol)
				if !ok || sx.String() != string(words[k]) || sx.Idx() != m.idx(words[k]) || lx.V != fmt.Sprint("v", k) || lx.L != k || lx.C != k+1 {
					return fail("LoadLexemes gave %v for %q", lx, words[k])
				}
				if lxs[k].Kind() != syms[k] {
					return fail("LoadLexemes changed its argument")
				}
			}
		}
		// everything made so far still holds
		for _, m := range sets {
			if m.set.Size() != len(m.order) {
				return fail("the set has %d symbols, expected %q", m.set.Size(), m.order)
			}
			for k, w := range m.order {
				if x := m.set.ByIdx(k); x == nil || x.String() != string(w) || x.Idx() != k || m.set.Idx(x) != k || m.set.Symbol(x).Idx() != k {
					return fail("symbol %d is %v, expected %q", k, x, w)
				}
			}
			if n := len(m.order); m.set.ByIdx(n) != nil || m.set.ByIdx(n+1+n%3) != nil || m.set.ByIdx(-1) != nil || m.set.ByIdx(-5) != nil {
				return fail("ByIdx out of bounds is not nil")
			}
		}
		for k, p := range ps {
			if err := sameProd(p.p, p.want); err != nil {
				return fail("production number %d: %v", k, err)
			}
		}
		for k, p := range pss {
			if err := sameProds(p.p, p.want); err != nil {
				return fail("productions number %d: %v", k, err)
			}
		}
	}
	o.LabelIf(len(ps) > 2, "productions")
	o.LabelIf(len(pss) > 1, "several-productions")
	o.LabelIf(len(sets[0].order) > 0 && len(sets[1].order) > 0, "two-sets")
	o.NonTrivial(len(ps) > 1 && len(sets[0].order)+len(sets[1].order) > 2)
	return nil
}

// checkLoad checks that loading a grammar adds all its symbols and nothing else.
func checkLoad(g G, o *Obs) error {
	o.NonTrivial(len(g) > 1)
	for _, in := range []parlex.Grammar{g.build(), plain{g}} {
		s := setsymbol.New()
		s.Str("already")
		s.LoadGrammar(in)
		want := map[S]bool{"already": true}
		for _, x := range g.symbols() {
			want[x] = true
		}
		if s.Size() != len(want) {
			return errf("the set has %d symbols, expected %d\n%s", s.Size(), len(want), g)
		}
		for x := range want {
			if !s.Has(string(x)) {
				return errf("the set does not have %q\n%s", x, g)
			}
		}
		if s.ByIdx(0).String() != "already" {
			return errf("loading changed the index of a symbol")
		}
		if !read(in).equal(g) {
			return errf("loading changed the grammar")
		}
	}
	return nil
}

// BigSet is a set of many symbols.
type BigSet struct{ N, Step int }

func checkBigSet(c BigSet, o *Obs) error {
	o.NonTrivial(c.N > 256)
	o.LabelIf(c.N > 65536, "over-65536-symbols")
	set := setsymbol.New()
	name := func(i int) string { return fmt.Sprint("n", i*c.Step) }
	prod := set.Production()
	for i := 0; i < c.N; i++ {
		x := set.Str(name(i))
		if x.Idx() != i || x.String() != name(i) || set.Size() != i+1 {
			return errf("symbol %d has number %d and name %q in a set of %d", i, x.Idx(), x.String(), set.Size())
		}
		prod.AddSymbols(x)
	}
	other := setsymbol.New()
	cast := other.CastProduction(prod)
	if prod.Symbols() != c.N || cast.Symbols() != c.N {
		return errf("productions of %d symbols have %d and %d", c.N, prod.Symbols(), cast.Symbols())
	}
	it := cast.Iter()
	for i := 0; i < c.N; i++ {
		x := set.Symbol(sym(S(name(i))))
		if x.Idx() != i || set.Idx(alien{S(name(i))}) != i || set.ByIdx(i).String() != name(i) || !set.Has(name(i)) {
			return errf("symbol %d is not found again", i)
		}
		if p, q := prod.Symbol(i).String(), cast.Symbol(i).String(); p != name(i) || q != name(i) {
			return errf("symbol %d of the productions is %q and %q", i, p, q)
		}
		if !it.Next() || it.Idx != i || it.Symbol.String() != name(i) {
			return errf("iterating does not give symbol %d", i)
		}
	}
	if it.Next() || set.Size() != c.N || other.Size() != c.N || set.ByIdx(c.N) != nil || set.Has(name(c.N)) {
		return errf("there are more than %d symbols", c.N)
	}
	return nil
}

func init() {
	register("C21", nil, &suite[AnCase]{nm: "analysis", quick: 100000, gen: genAnCase, chk: checkAnalyze,
		rl: "grammars of 1-12 non-terminals with hidden and mutual recursion, and symbols of several types; non-trivial: three or more non-terminals"})
	register("C22", nil,
		&suite[SetCase]{nm: "histories", quick: 160000, gen: genSetCase, chk: checkSets,
			rl: "histories of 1-40 operations on two symbol sets and on productions of both, with symbols of four types; non-trivial: two or more productions and three or more symbols"},
		&suite[BigSet]{nm: "big", quick: 16, gen: func(t *rapid.T) BigSet {
			return BigSet{65000 + uniform(t, 8000), intn(t, 1, 9)}
		}, chk: checkBigSet, rl: "a set of 65000-73000 symbols and a production of all of them; non-trivial: all"},
		&suite[G]{nm: "load", quick: 40000, gen: genLRGrammar, chk: checkLoad,
			rl: "grammars of 1-12 non-terminals; non-trivial: two or more non-terminals"})
}

// mixedProds is a list of productions of any types.
type mixedProds []parlex.Production

func (p mixedProds) Productions() int { return len(p) }
func (p mixedProds) Production(i int) parlex.Production {
	if i < len(p) {
		return p[i]
	}
	return nil
}
func (p mixedProds) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}
