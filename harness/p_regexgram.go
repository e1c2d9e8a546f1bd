package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/tree"
	"pgregory.net/rapid"
)

// RX is the right side of a production with operators.
//
//	sym         S
//	seq         Kids in a row; the right side itself, or a group
//	opt, rep    Kids[0], a symbol or a group
//	or          two or more of symbols, groups, optionals and repeats
type RX struct {
	Op   string
	S    S     `json:",omitempty"`
	Kids []*RX `json:",omitempty"`
}

// RProd has the right sides of a non-terminal; Cont says how each is written:
// with the name or without.
type RProd struct {
	N     S
	Right []*RX
	Cont  []bool
}

// RGram is a grammar with operators.
type RGram struct {
	Prods []RProd
	Forms []int
}

// expansions is how many productions the right side stands for.
func (x *RX) expansions() int {
	switch x.Op {
	case "sym", "rep":
		return 1
	case "opt":
		return x.Kids[0].expansions() + 1
	case "or":
		n := 0
		for _, k := range x.Kids {
			n += k.expansions()
		}
		return n
	}
	n := 1
	for _, k := range x.Kids {
		n *= k.expansions()
		if n > 1000 {
			return n
		}
	}
	return n
}

func (x *RX) maxExpansions() int {
	n := x.expansions()
	for _, k := range x.Kids {
		n = max(n, k.maxExpansions())
	}
	return n
}

func (x *RX) has(op string) bool {
	if x.Op == op {
		return true
	}
	for _, k := range x.Kids {
		if k.has(op) {
			return true
		}
	}
	return false
}

// nestedRep is true if a repeat has a repeat in it.
func (x *RX) nestedRep() bool {
	for _, k := range x.Kids {
		if x.Op == "rep" && k.has("rep") || k.nestedRep() {
			return true
		}
	}
	return false
}

// form gives one of n choices of layout.
type former struct {
	forms []int
	i     int
}

func (f *former) next() int {
	f.i++
	if len(f.forms) == 0 {
		return 0
	}
	return f.forms[f.i%len(f.forms)]
}

func (x *RX) text(f *former, top bool) string {
	switch x.Op {
	case "sym":
		return string(x.S)
	case "opt":
		return x.Kids[0].text(f, false) + []string{"?", "?", "?", " ?", "?", "?", "\t?", "?", "?"}[f.next()]
	case "rep":
		return x.Kids[0].text(f, false) + []string{"*", "*", "*", " *", "*", "*", "\t*", "*", "*"}[f.next()]
	case "or":
		var s []string
		for _, k := range x.Kids {
			s = append(s, k.text(f, false))
		}
		return strings.Join(s, []string{"|", " | ", "|", "| ", " |", "\t|", "|", " |\t", "|"}[f.next()])
	}
	var s []string
	for _, k := range x.Kids {
		s = append(s, k.text(f, false))
	}
	body := strings.Join(s, []string{" ", " ", "  ", "\t", " ", "   ", "\t\t ", " ", " "}[f.next()])
	if top {
		return body
	}
	return []string{"(", "( ", "(", "(\t", "(", "(", "(", " (", "("}[f.next()] + body + []string{")", " )", ")", ")", "  )", ")", "\t)", ")", ")"}[f.next()]
}

func (c RGram) text() string {
	f := &former{forms: c.Forms}
	var b strings.Builder
	if len(c.Forms) > 0 {
		b.WriteString([]string{"", "\n", "\n  ", "\n// a comment -> | ( \n", "\n\n\t", "\r\n", "\n \t\n", "\n\t// c\r\n\t//\n ", "\n \n\t \n // c\n \t\n"}[f.next()])
	}
	for i, p := range c.Prods {
		for k, r := range p.Right {
			name := string(p.N)
			if k > 0 && k < len(p.Cont) && p.Cont[k] {
				name = ""
			}
			if i+k > 0 {
				b.WriteString([]string{"\n", "\n  ", "\n\n", "\n // B -> C* (\n\t", "  \n", "\r\n", "\n\t\n \t", "\n//\n\n\t// é ) \"\n", "\t\r\n\t \r\n  // -> (\n"}[f.next()])
			}
			b.WriteString(name + []string{" -> ", "->", "  ->  ", "\t-> ", " ->", " -> ", "->\t", "-> ", " \t->"}[f.next()])
			b.WriteString(r.text(f, true))
		}
	}
	if len(c.Forms) > 0 {
		b.WriteString([]string{"", "\n", "\n  ", "\n// end", "\n\n", " ", "\t\n\t", "\n// A -> b\n", "\r\n \t\r\n//"}[f.next()])
	}
	return b.String()
}

// cfg rewrites the grammar to one without operators, with a new non-terminal
// for each operator. It defines the language.
func (c RGram) cfg() G {
	var g G
	at := map[S]int{}
	add := func(n S, p []S) {
		if _, ok := at[n]; !ok {
			at[n] = len(g)
			g = append(g, NT{N: n})
		}
		g[at[n]].P = append(g[at[n]].P, p)
	}
	id := 0
	var sub func(x *RX) S
	seq := func(x *RX) []S {
		p := []S{}
		for _, k := range x.Kids {
			p = append(p, sub(k))
		}
		return p
	}
	type todo struct {
		n S
		p []S
	}
	var later []todo
	sub = func(x *RX) S {
		if x.Op == "sym" {
			return x.S
		}
		id++
		n := S(fmt.Sprintf("<%d>", id))
		switch x.Op {
		case "opt":
			later = append(later, todo{n, []S{sub(x.Kids[0])}}, todo{n, []S{}})
		case "rep":
			later = append(later, todo{n, []S{sub(x.Kids[0]), n}}, todo{n, []S{}})
		case "or":
			for _, k := range x.Kids {
				later = append(later, todo{n, []S{sub(k)}})
			}
		default:
			later = append(later, todo{n, seq(x)})
		}
		return n
	}
	for _, p := range c.Prods {
		for _, r := range p.Right {
			add(p.N, seq(r))
		}
	}
	for _, l := range later {
		add(l.n, l.p)
	}
	return g
}

// elem is a symbol or a repeat in an expanded production.
type elem struct {
	s   S
	rep *RX
}

// expand lists the productions in order: the first alternative first, and with
// before without.
func (x *RX) expand() [][]elem {
	switch x.Op {
	case "sym":
		return [][]elem{{{s: x.S}}}
	case "rep":
		return [][]elem{{{rep: x}}}
	case "opt":
		return append(x.Kids[0].expand(), []elem{})
	case "or":
		var out [][]elem
		for _, k := range x.Kids {
			out = append(out, k.expand()...)
		}
		return out
	}
	out := [][]elem{{}}
	for _, k := range x.Kids {
		var nx [][]elem
		for _, a := range out {
			for _, b := range k.expand() {
				nx = append(nx, append(append([]elem{}, a...), b...))
			}
		}
		out = nx
	}
	return out
}

func (x *RX) key() string { return x.text(&former{}, x.Op == "seq") }

// sameExpansion checks the productions of the grammar against the expansion, up
// to the names of the non-terminals for the repeats.
func (c RGram) sameExpansion(g G) error {
	ix := g.idx()
	user := map[S]bool{}
	for _, p := range c.Prods {
		user[p.N] = true
	}
	bound := map[S]string{} // what a generated name repeats
	var reps []*RX
	var names []S
	match := func(what string, got [][]S, want [][]elem) error {
		if len(got) != len(want) {
			return errf("%s has %d productions, expected %d", what, len(got), len(want))
		}
		for i := range got {
			if len(got[i]) != len(want[i]) {
				return errf("production %d of %s is %q", i, what, got[i])
			}
			for k, e := range want[i] {
				s := got[i][k]
				if e.rep == nil {
					if s != e.s {
						return errf("production %d of %s is %q, expected %q at %d", i, what, got[i], e.s, k)
					}
					continue
				}
				if _, is := ix[s]; !is || user[s] {
					return errf("production %d of %s is %q, %q is not a non-terminal for the repeat", i, what, got[i], s)
				}
				key := e.rep.key()
				if b, ok := bound[s]; ok && b != key {
					return errf("%q stands for %s and for %s", s, b, key)
				} else if !ok {
					bound[s] = key
					reps = append(reps, e.rep)
					names = append(names, s)
				}
			}
		}
		return nil
	}
	order := []S{}
	for _, p := range c.Prods {
		order = append(order, p.N)
		var want [][]elem
		for _, r := range p.Right {
			want = append(want, r.expand()...)
		}
		i, ok := ix[p.N]
		if !ok {
			return errf("%s is not a non-terminal", p.N)
		}
		if err := match(string(p.N), g[i].P, want); err != nil {
			return err
		}
	}
	for i := 0; i < len(reps); i++ {
		self := names[i]
		var got [][]S
		ps := g[ix[self]].P
		for k, p := range ps {
			if k == len(ps)-1 {
				if len(p) != 0 {
					return errf("the last production of %q is %q, not the empty one", self, p)
				}
				continue
			}
			if len(p) == 0 || p[len(p)-1] != self {
				return errf("%q has production %q, which does not repeat", self, p)
			}
			got = append(got, p[:len(p)-1])
		}
		if err := match(string(self), got, reps[i].Kids[0].expand()); err != nil {
			return err
		}
	}
	for i, n := range order {
		if g[i].N != n {
			return errf("non-terminal %d is %s, expected %s", i, g[i].N, n)
		}
	}
	if len(g) != len(order)+len(names) {
		return errf("there are %d non-terminals, expected %d", len(g), len(order)+len(names))
	}
	return nil
}

// ---- generation

var rxNames = []S{"A", "B", "C", "D", "E"}
var rxTerms = []S{"x", "y", "z", "A_B", "x_y", "num", "_", "w1", "1", "0x", "symbol", "nl", "or", "Group", "Symbols", "optional", "Rarr"}

// names that mean something to the grammar of grammars
var rxOddNames = []S{"Symbol", "symbol", "nl", "NL", "Production", "ContinueProd", "RepSymbol", "or", "Group", "Grammar", "a", "E_1", "_x", "12", "repeats"}

func genRX(t *rapid.T, syms []S, depth int) *RX {
	atom := func() *RX {
		if depth <= 0 || !oneIn(t, 3) {
			return &RX{Op: "sym", S: syms[uniform(t, len(syms))]}
		}
		return genSeq(t, syms, depth-1)
	}
	post := func() *RX {
		a := atom()
		switch intn(t, 0, 5) {
		case 0:
			return &RX{Op: "opt", Kids: []*RX{a}}
		case 1:
			return &RX{Op: "rep", Kids: []*RX{a}}
		}
		return a
	}
	if depth > 0 && oneIn(t, 5) {
		x := &RX{Op: "or", Kids: []*RX{post(), post()}}
		k := intn(t, 0, 2)
		if rare(t) {
			k = intn(t, 3, 12)
		}
		for ; k > 0; k-- {
			x.Kids = append(x.Kids, post())
		}
		return x
	}
	return post()
}

func genSeq(t *rapid.T, syms []S, depth int) *RX {
	x := &RX{Op: "seq"}
	k := pick(t, 1, 2, 3, 0, 4, 2, 1)
	if rare(t) {
		k = intn(t, 5, 16)
	}
	for ; k > 0; k-- {
		x.Kids = append(x.Kids, genRX(t, syms, depth))
	}
	return x
}

var lookalikes = [][][]S{
	{{"a_", "a"}, {"a", "_a"}},
	{{"a", "b"}, {"a_b"}},
	{{"a_b", "c"}, {"a", "b_c"}, {"a", "b", "c"}},
	{{"a", "b"}, {"ab"}},
	{{"x", "y"}, {"y", "x"}},
	{{"_", "_"}, {"___"}, {"_", "_", "_"}},
}

func genRGram(t *rapid.T) RGram {
	var c RGram
	n := intn(t, 1, 4)
	nts := append([]S{}, rxNames[:n]...)
	if oneIn(t, 5) {
		nts[intn(t, 0, n-1)] = rxOddNames[uniform(t, len(rxOddNames))]
	}
	terms := []S{"x", "y", "z"}
	for k := intn(t, 0, 2); k > 0; k-- {
		x := rxTerms[uniform(t, len(rxTerms))]
		used := false
		for _, nt := range nts {
			used = used || nt == x
		}
		if !used {
			terms = append(terms, x)
		}
	}
	if veryRare(t) {
		terms = append(terms, longName)
	}
	depth := intn(t, 1, 3)
	if oneIn(t, 4) { // names that look alike when they are joined
		terms = append([]S{}, pick(t,
			[]S{"a", "b", "a_b", "ab"}, []S{"x", "y", "x_y", "y_x", "x_y_x"}, []S{"A_B", "x", "x_A", "A_x"}, []S{"_", "a", "a_", "_a"})...)
		depth = intn(t, 1, 2)
	}
	syms := append(append([]S{}, terms...), nts...)
	for _, nt := range nts {
		p := RProd{N: nt}
		for k := intn(t, 1, 3); k > 0; k-- {
			r := genSeq(t, syms, depth)
			for tries := 0; r.maxExpansions() > 40 && tries < 3; tries++ {
				r = genSeq(t, syms, depth-1-tries)
			}
			if r.maxExpansions() > 40 {
				r = &RX{Op: "seq", Kids: []*RX{{Op: "sym", S: terms[0]}}}
			}
			p.Right = append(p.Right, r)
			p.Cont = append(p.Cont, boolean(t))
		}
		c.Prods = append(c.Prods, p)
	}
	for k := intn(t, 0, 7); k > 0; k-- {
		c.Forms = append(c.Forms, intn(t, 0, 8))
	}
	if oneIn(t, 12) { // repeats of groups that are the same when joined
		for _, g := range lookalikes[uniform(t, len(lookalikes))] {
			seq := &RX{Op: "seq"}
			for _, s := range g {
				seq.Kids = append(seq.Kids, &RX{Op: "sym", S: s})
			}
			pr := &c.Prods[intn(t, 0, n-1)]
			i := intn(t, 0, len(pr.Right)-1)
			pr.Right[i].Kids = append(pr.Right[i].Kids, &RX{Op: "rep", Kids: []*RX{seq}})
		}
	} else if oneIn(t, 5) { // repeats of groups over the same symbols
		pr := &c.Prods[intn(t, 0, n-1)]
		for k := intn(t, 2, 4); k > 0; k-- {
			g := &RX{Op: "seq"}
			var kids []*RX
			for i := intn(t, 1, 3); i > 0; i-- {
				x := &RX{Op: "sym", S: terms[uniform(t, len(terms))]}
				if oneIn(t, 5) {
					x = &RX{Op: pick(t, "opt", "rep"), Kids: []*RX{x}}
				}
				kids = append(kids, x)
			}
			if len(kids) > 1 && oneIn(t, 3) {
				kids = []*RX{{Op: "or", Kids: kids}}
			}
			g.Kids = kids
			rep := &RX{Op: "rep", Kids: []*RX{g}}
			if len(kids) == 1 && kids[0].Op == "sym" && boolean(t) {
				rep.Kids = kids
			}
			i := intn(t, 0, len(pr.Right)-1)
			pr.Right[i].Kids = append(pr.Right[i].Kids, rep)
		}
	}
	return c
}

// RGCase is a grammar with operators, and inputs.
type RGCase struct {
	RGram
	Inputs [][]S
	Breaks int
	At     int
	Seeds  []uint64 `json:",omitempty"` // of trees that no parser made
}

func genRGCase(t *rapid.T) RGCase {
	c := RGCase{RGram: genRGram(t)}
	g := c.cfg()
	for k := intn(t, 1, 5); k > 0; k-- {
		c.Inputs = append(c.Inputs, genInput(t, g, 8))
	}
	if oneIn(t, 6) {
		c.Breaks = intn(t, 1, len(rgBreaks))
		c.At = intn(t, 0, 9)
	}
	for k := intn(t, 0, 2); k > 0; k-- {
		c.Seeds = append(c.Seeds, rapid.Uint64().Draw(t, "seed"))
	}
	return c
}

// texts that are not a grammar
var rgBreaks = []string{
	"\nA B", "\nA -> (x", "\nA -> x)", "\nA -> ?", "\nA -> *", "\nA -> | x", "\nA -> x |", "\nA -> x || y", "\nA -> x ( | y)",
	"\nA -> x -> y", "\nA -> x + y", "\nA -> {x}", "\nA", "\nA -> x // at the end of a line", "\n-> -> x", "\nA -> (x))", "\nA -> (*)", "\nA -> x?? y", "\nA -> x** y", "\nA -> x?* y", "\nA B -> x",
}

func (c RGram) labels(o *Obs) {
	for _, p := range c.Prods {
		for _, r := range p.Right {
			for _, op := range []string{"opt", "rep", "or"} {
				o.LabelIf(r.has(op), op)
			}
			o.LabelIf(r.nestedRep(), "nested-repeats")
		}
	}
}

func checkRGLanguage(c RGCase, o *Obs) error {
	text := c.text()
	if c.Breaks > 0 {
		bad := text + rgBreaks[c.Breaks-1] + "\n"
		o.Label("invalid")
		o.NonTrivial(true)
		if g, r, err := regexgram.New(bad); err == nil || g != nil || r != nil {
			return errf("New accepted\n%s", bad)
		}
		if !panics(func() { regexgram.Must(bad) }) {
			return errf("Must did not panic for\n%s", bad)
		}
	}
	c.labels(o)
	gr, _, err := regexgram.New(text)
	if err != nil {
		return errf("New: %v\n%s", err, text)
	}
	got := read(gr)
	if err := c.sameExpansion(got); err != nil {
		return errf("%v\n%s\ngave\n%s", err, text, got)
	}
	if len(c.Forms)%4 == 1 {
		mg, mr := regexgram.Must(text)
		if mg == nil || mr == nil || !read(mg).equal(got) {
			return errf("Must gave another grammar than New:\n%s", text)
		}
	}
	model := c.cfg()
	p := packrat.New(gr)
	for _, in := range c.Inputs {
		want := model.chart(in).accepts()
		inputLabels(in, want, o)
		o.NonTrivial(want && len(in) > 1)
		if acc := got.chart(in).accepts(); acc != want {
			return errf("the grammar has %q: %v, expected %v\n%s\ngave\n%s", in, acc, want, text, got)
		}
		if acc := p.Parse(tokens(in)) != nil; acc != want {
			return errf("packrat accepts %q: %v, expected %v\n%s\ngave\n%s", in, acc, want, text, got)
		}
	}
	return nil
}

// matches are the ends of the matches of the right side in the kinds from i.
func (x *RX) matches(kinds []S, i int) uint64 {
	switch x.Op {
	case "sym":
		if i < len(kinds) && kinds[i] == x.S {
			return 1 << (i + 1)
		}
		return 0
	case "opt":
		return 1<<i | x.Kids[0].matches(kinds, i)
	case "or":
		var m uint64
		for _, k := range x.Kids {
			m |= k.matches(kinds, i)
		}
		return m
	case "rep":
		done, m := uint64(0), uint64(1)<<i
		for m != done {
			next := m
			for k := 0; k <= len(kinds); k++ {
				if m>>k&1 == 1 && done>>k&1 == 0 {
					next |= x.Kids[0].matches(kinds, k)
				}
			}
			done, m = m, next
		}
		return m
	}
	m := uint64(1) << i
	for _, y := range x.Kids {
		var next uint64
		for k := 0; k <= len(kinds); k++ {
			if m>>k&1 == 1 {
				next |= y.matches(kinds, k)
			}
		}
		m = next
	}
	return m
}

// checkRGReduce checks that reducing leaves a tree in the terms of the grammar
// as written: the children of a node match a right side as a regular
// expression, and the leaves are the lexemes.
func checkRGReduce(c RGCase, o *Obs) error {
	c.labels(o)
	text := c.text()
	gr, rd, err := regexgram.New(text)
	if err != nil {
		return errf("New: %v\n%s", err, text)
	}
	p := packrat.New(gr)
	rights := map[S][]*RX{}
	for _, pr := range c.Prods {
		rights[pr.N] = pr.Right
	}
	type parsed struct {
		in  []S
		raw parlex.ParseNode
	}
	var trees []parsed
	for _, in := range c.Inputs {
		if raw := p.Parse(tokens(in)); raw != nil {
			trees = append(trees, parsed{in, raw})
		}
	}
	g := read(gr)
	for _, seed := range c.Seeds {
		if t, in := g.anyTree(seed, 40); t != nil {
			o.Label("any-derivation")
			trees = append(trees, parsed{in, t.pn()})
		}
	}
	for _, tr := range trees {
		in, raw := tr.in, tr.raw
		lxs := tokens(in)
		inputLabels(in, true, o)
		before := modelOf(raw)
		red := rd.Reduce(raw)
		if red == nil {
			return errf("Reduce returned nil")
		}
		if err := sameTree(raw, before, false); err != nil {
			return errf("Reduce changed its argument: %v", err)
		}
		var flat func(t *T) *T
		flat = func(t *T) *T {
			out := *t
			out.Kids = nil
			for _, k := range t.Kids {
				k = flat(k)
				if _, user := rights[k.K]; !user && gr.Productions(sym(k.K)) != nil {
					out.Kids = append(out.Kids, k.Kids...)
					o.LabelIf(len(k.Kids) > 1, "flattened")
					o.NonTrivial(len(k.Kids) > 1)
				} else {
					out.Kids = append(out.Kids, k)
				}
			}
			return &out
		}
		want := flat(before)
		if err := sameTree(red, want, false); err != nil {
			return errf("input %q: %v\ngot  %s\nwant %s\n%s", in, err, modelOf(red), want, text)
		}
		pos := 0
		var rec func(n parlex.ParseNode) error
		rec = func(n parlex.ParseNode) error {
			rs, nt := rights[S(n.Kind().String())]
			if !nt {
				if pos >= len(lxs) || n.Kind().String() != lxs[pos].Kind().String() || n.Value() != lxs[pos].Value() || n.Children() != 0 {
					return errf("leaf %d is %s %q", pos, n.Kind(), n.Value())
				}
				pos++
				return nil
			}
			kinds := make([]S, n.Children())
			for i := range kinds {
				kinds[i] = S(n.Child(i).Kind().String())
				if err := rec(n.Child(i)); err != nil {
					return err
				}
			}
			ok := false
			for _, r := range rs {
				ok = ok || r.matches(kinds, 0)>>len(kinds)&1 == 1
			}
			if !ok {
				return errf("%s has children %q, which no right side of it matches", n.Kind(), kinds)
			}
			return nil
		}
		if err := rec(red); err != nil {
			return errf("input %q: %v\ntree %s\n%s", in, err, modelOf(red), text)
		}
		if pos != len(lxs) {
			return errf("input %q: the tree has %d of %d lexemes\n%s", in, pos, len(lxs), text)
		}
	}
	// rules of the user are added to those of the grammar
	m := tree.Merge(rd, tree.Reducer{string(c.Prods[0].N): tree.RemoveChild(0)})
	for _, in := range c.Inputs {
		raw := p.Parse(tokens(in))
		if raw == nil {
			continue
		}
		a := modelOf(rd.Reduce(raw))
		var rec func(t *T)
		rec = func(t *T) {
			for _, k := range t.Kids {
				rec(k)
			}
			if t.K == c.Prods[0].N && len(t.Kids) > 0 {
				t.Kids = t.Kids[1:]
			}
		}
		rec(a)
		if err := sameTree(m.Reduce(raw), a, false); err != nil {
			return errf("merged with another reducer, input %q: %v\n%s", in, err, text)
		}
	}
	return nil
}

// anyTree makes a random derivation, not only of the kind that a parser finds.
func (g G) anyTree(seed uint64, limit int) (*T, []S) {
	rnd := rand.New(rand.NewPCG(seed, 1))
	ix := g.idx()
	depth := make([]int, len(g))
	const inf = 1 << 20
	for i := range depth {
		depth[i] = inf
	}
	pd := func(p []S) int {
		d := 0
		for _, s := range p {
			if k, nt := ix[s]; nt {
				d = max(d, depth[k])
			}
		}
		return min(d+1, inf)
	}
	for r := 0; r <= len(g); r++ {
		for i, n := range g {
			for _, p := range n.P {
				depth[i] = min(depth[i], pd(p))
			}
		}
	}
	if depth[0] >= inf {
		return nil, nil
	}
	var in []S
	nodes := 0
	var rec func(s S, d int) *T
	rec = func(s S, d int) *T {
		nodes++
		k, nt := ix[s]
		if !nt {
			in = append(in, s)
			return &T{K: s}
		}
		var can [][]S
		for _, p := range g[k].P {
			if dp := pd(p); dp < inf && (d > 0 && nodes < limit || dp == depth[k]) {
				can = append(can, p)
			}
		}
		t := &T{K: s}
		for _, x := range can[rnd.IntN(len(can))] {
			t.Kids = append(t.Kids, rec(x, d-1))
		}
		return t
	}
	t := rec(g[0].N, 1+rnd.IntN(12))
	if len(in) > 60 || nodes > 10*limit {
		return nil, nil
	}
	lxs := tokens(in)
	at := 0
	var leaves func(t *T)
	leaves = func(t *T) {
		if !g.isNT(t.K) {
			t.V = S(lxs[at].Value())
			t.L, t.C = lxs[at].Pos()
			at++
		}
		for _, k := range t.Kids {
			leaves(k)
		}
	}
	leaves(t)
	return t, in
}

// RGSoup is the tokens of a grammar with some of them changed.
type RGSoup struct {
	Toks []S
}

var rgToken = regexp.MustCompile(`->|\w+|[*?|()]|\n`)

func genRGSoup(t *rapid.T) RGSoup {
	c := genRGram(t)
	c.Forms = nil
	var out RGSoup
	for _, tok := range rgToken.FindAllString(c.text(), -1) {
		out.Toks = append(out.Toks, S(tok))
	}
	vocabulary := []S{"->", "*", "?", "|", "(", ")", "\n", "A", "x", "B", "y"}
	for k := intn(t, 0, 3); k > 0 && len(out.Toks) > 0; k-- {
		i := uniform(t, len(out.Toks))
		head, tail := append([]S{}, out.Toks[:i]...), out.Toks[i:]
		word := vocabulary[intn(t, 0, len(vocabulary)-1)]
		switch intn(t, 0, 4) {
		case 0:
			out.Toks = append(head, tail[1:]...)
		case 1:
			out.Toks = append(append(head, word), tail[1:]...)
		case 2:
			out.Toks = append(append(head, word), tail...)
		case 3:
			out.Toks = append(append(head, tail[0]), tail...)
		case 4:
			j := min(i+1, len(out.Toks)-1)
			out.Toks[i], out.Toks[j] = out.Toks[j], out.Toks[i]
		}
	}
	return out
}

// rgReader reads right sides by recursive descent.
type rgReader struct {
	toks []S
	bad  bool
}

func (r *rgReader) peek() S {
	if len(r.toks) == 0 {
		return ""
	}
	return r.toks[0]
}

func (r *rgReader) seq(end S) *RX {
	x := &RX{Op: "seq"}
	for !r.bad && r.peek() != end {
		x.Kids = append(x.Kids, r.alt())
	}
	return x
}

func (r *rgReader) alt() *RX {
	x := &RX{Op: "or", Kids: []*RX{r.post()}}
	for !r.bad && r.peek() == "|" {
		r.toks = r.toks[1:]
		x.Kids = append(x.Kids, r.post())
	}
	if len(x.Kids) == 1 {
		return x.Kids[0]
	}
	return x
}

func (r *rgReader) post() *RX {
	var x *RX
	switch s := r.peek(); {
	case s == "(":
		r.toks = r.toks[1:]
		x = r.seq(")")
		if r.peek() != ")" {
			r.bad = true
			return x
		}
		r.toks = r.toks[1:]
	case dslWord.MatchString(string(s)):
		r.toks = r.toks[1:]
		x = &RX{Op: "sym", S: s}
	default:
		r.bad = true
		return &RX{Op: "seq"}
	}
	switch r.peek() {
	case "?":
		r.toks = r.toks[1:]
		return &RX{Op: "opt", Kids: []*RX{x}}
	case "*":
		r.toks = r.toks[1:]
		return &RX{Op: "rep", Kids: []*RX{x}}
	}
	return x
}

// read is the grammar, or not ok.
func (c RGSoup) read() (g RGram, ok bool) {
	cur := -1
	for toks := c.Toks; len(toks) > 0; {
		k := 0
		for k < len(toks) && toks[k] != "\n" {
			k++
		}
		line := toks[:k]
		toks = toks[min(k+1, len(toks)):]
		if len(line) == 0 {
			continue
		}
		if dslWord.MatchString(string(line[0])) {
			cur = -1
			for i, p := range g.Prods {
				if p.N == line[0] {
					cur = i
				}
			}
			if cur < 0 {
				cur = len(g.Prods)
				g.Prods = append(g.Prods, RProd{N: line[0]})
			}
			line = line[1:]
		}
		if cur < 0 || len(line) == 0 || line[0] != "->" {
			return g, false
		}
		r := &rgReader{toks: line[1:]}
		x := r.seq("")
		if r.bad {
			return g, false
		}
		g.Prods[cur].Right = append(g.Prods[cur].Right, x)
	}
	return g, len(g.Prods) > 0
}

func checkRGSoup(c RGSoup, o *Obs) error {
	parts := make([]string, len(c.Toks))
	for i, s := range c.Toks {
		parts[i] = string(s)
	}
	text := strings.Join(parts, " ")
	want, ok := c.read()
	for _, p := range want.Prods {
		for _, r := range p.Right {
			if r.maxExpansions() > 300 {
				return nil
			}
		}
	}
	o.NonTrivial(len(c.Toks) > 4)
	gr, rd, err := regexgram.New(text)
	if !ok {
		o.Label("invalid")
		if err == nil || gr != nil || rd != nil {
			return errf("New accepted\n%s", text)
		}
		if !panics(func() { regexgram.Must(text) }) {
			return errf("Must did not panic for\n%s", text)
		}
		return nil
	}
	o.Label("valid")
	if err != nil {
		return errf("New: %v\n%s", err, text)
	}
	if got := read(gr); want.sameExpansion(got) != nil {
		return errf("%v\n%s\ngave\n%s", want.sameExpansion(got), text, got)
	}
	return nil
}

func init() {
	register("C19", []string{"names are made of word characters; comments are on lines of their own, after the first line; up to 40 productions per right side"},
		&suite[RGCase]{nm: "language", quick: 12000, gen: genRGCase, chk: checkRGLanguage,
			rl: "grammars of 1-4 non-terminals with nested groups, ?, * and | in varying layout, with up to 5 inputs of up to 8 tokens, and invalid texts; non-trivial: an input of two or more tokens is in the language, or the text is invalid"},
		&suite[RGSoup]{nm: "soup", quick: 16000, gen: genRGSoup, chk: checkRGSoup,
			rl: "the tokens of such a grammar with up to three of them removed, replaced, added, repeated or swapped, against a recursive descent reader; non-trivial: more than four tokens"})
	register("C20", []string{"as for C19"},
		&suite[RGCase]{nm: "flatten", quick: 12000, gen: genRGCase, chk: checkRGReduce,
			rl: "the grammars of C19, trees from the packrat parser and random derivations; non-trivial: a repeat of two or more was flattened"})
}
