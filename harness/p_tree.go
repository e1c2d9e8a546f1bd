package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
	"pgregory.net/rapid"
)

// ---- text

// TreeTextCase is a tree and how it is written by hand.
type TreeTextCase struct {
	Tree   *T
	Indent S
	Forms  []int
}

func genTreeText(t *rapid.T) TreeTextCase {
	c := TreeTextCase{Tree: genTree(t, treeKinds, 12), Indent: pick(t, S("\t"), S("  "), S(""), S(" "))}
	if veryRare(t) {
		ns := c.Tree.nodes()
		ns[uniform(t, len(ns))].V += longName
	} else if veryRare(t) { // very deep or wide
		p, deep := c.Tree, pick(t, 1, 2, 40)
		for k := 500 * intn(t, 1, 5); k > 0; k-- {
			n := &T{K: treeKinds[k%len(treeKinds)], V: S(fmt.Sprint(k)), L: -1}
			p.Kids = append(p.Kids, n)
			if k%deep == 0 {
				p = n
			}
		}
	}
	for k := 0; k < 6; k++ {
		c.Forms = append(c.Forms, intn(t, 0, 5))
	}
	return c
}

// byHand writes the tree with free spacing.
func (c TreeTextCase) byHand() string {
	var b strings.Builder
	i := 0
	form := func() int { i++; return c.Forms[i%len(c.Forms)] }
	closing := false // a } that is still to be written
	var rec func(t *T, pad string)
	rec = func(t *T, pad string) {
		f := form()
		if f == 4 {
			b.WriteString(pad + "\n")
		}
		b.WriteString(pad)
		if closing {
			b.WriteString("}" + []string{"", " ", "  ", "\t", " ", ""}[f])
			closing = false
		}
		b.WriteString(string(t.K))
		if t.V != "" {
			b.WriteString([]string{": ", ":", " : ", ":\t", ": ", ":  "}[f])
			if f%2 == 1 && utf8.ValidString(string(t.V)) { // only what must be escaped
				b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(string(t.V)) + `"`)
			} else {
				fmt.Fprintf(&b, "%q", string(t.V))
			}
		} else if f == 2 {
			b.WriteString(`:""`)
		}
		if len(t.Kids) > 0 {
			b.WriteString([]string{" {", "{", " {", "\t{", " {", "  {"}[f])
		}
		b.WriteString("\n")
		for _, k := range t.Kids {
			rec(k, pad+string(c.Indent))
		}
		if len(t.Kids) > 0 {
			if closing {
				b.WriteString(pad + "}\n")
				closing = false
			}
			if form() == 1 {
				closing = true // with the next node, if there is one
			} else {
				b.WriteString(pad + "}\n")
			}
		}
	}
	rec(c.Tree, "")
	if closing {
		b.WriteString("}")
	}
	return b.String()
}

func checkTreeText(c TreeTextCase, o *Obs) error {
	o.NonTrivial(c.Tree.size() > 2)
	o.LabelIf(c.Tree.size() > 14, "big")
	o.LabelIf(c.Tree.depth() > 6, "deep")
	p := c.Tree.pn()
	if n := p.Size(); n != c.Tree.size() {
		return errf("Size is %d, expected %d", n, c.Tree.size())
	}
	str := p.String()
	got, err := tree.New(str)
	if err != nil {
		return errf("String is not a valid tree: %v\n%s", err, str)
	}
	if err := sameTree(got, c.Tree, true); err != nil {
		return errf("String is read back wrong: %v\n%s", err, str)
	}
	if again := got.String(); again != str {
		return errf("String of the copy differs:\n%s---\n%s", str, again)
	}
	hand := c.byHand()
	got, err = tree.New(hand)
	if err != nil {
		return errf("New: %v\n%s", err, hand)
	}
	if err := sameTree(got, c.Tree, true); err != nil {
		return errf("New: %v\n%s", err, hand)
	}
	return nil
}

// SoupCase is text that may or may not be a tree.
type SoupCase struct {
	Text S
}

var soupToks = []string{"A", "B", "{", "}", "}", "{", ":", "\"x\"", "\"", "\n", "\n", " ", "\t", "A {", "A {\n", "}\n", "B: \"1\"\n", "\\", "\"\\\"", "\"a\nb\"", "é", "A: \"\\q\"\n", "A: \"\\d\\n\\\\n\\\"\\\\\"\n", "B: \"\\\\\\w\\t'\\n\" {\n", "A{}", "C:\"\\n\\t\\\\\" {\n"}

// genTreeSoup makes pieces in any order, or changes a valid text in a few
// places.
func genTreeSoup(t *rapid.T) SoupCase {
	tok := func() string { return soupToks[uniform(t, len(soupToks))] }
	if oneIn(t, 4) {
		var b strings.Builder
		for k := size(t, 0, 12, 40); k > 0; k-- {
			b.WriteString(tok())
		}
		return SoupCase{S(b.String())}
	}
	text := genTreeText(t).byHand()
	if oneIn(t, 8) { // several roots
		text += pick(t, "", "\n", " ") + genTreeText(t).byHand()
	}
	lines := strings.Split(text, "\n")
	for k := intn(t, 0, 3); k > 0; k-- {
		i := uniform(t, len(lines))
		switch intn(t, 0, 6) {
		case 0: // drop
			lines = append(lines[:i:i], lines[i+1:]...)
			if len(lines) == 0 {
				lines = []string{""}
			}
		case 1: // repeat
			lines = append(lines[:i+1:i+1], lines[i:]...)
		case 2: // insert
			j := uniform(t, len(lines[i])+1)
			lines[i] = lines[i][:j] + tok() + lines[i][j:]
		case 3: // cut
			if len(lines[i]) > 0 {
				j := uniform(t, len(lines[i]))
				lines[i] = lines[i][:j] + lines[i][j+1:]
			}
		case 4:
			lines = append(lines[:i:i], append([]string{pick(t, "}", "A", "B {", "} C: \"v\" {", "} D", "", " \t")}, lines[i:]...)...)
		case 5: // join
			if i+1 < len(lines) {
				lines[i] += lines[i+1]
				lines = append(lines[:i+1:i+1], lines[i+2:]...)
			}
		default: // indent
			lines[i] = pick(t, " ", "\t\t", "\t ") + lines[i] + pick(t, "", " ", "\t")
		}
	}
	return SoupCase{S(strings.Join(lines, "\n"))}
}

// readTree is the reference reader: a line is blank, a closing brace, or a node
// with an optional closing brace before it, an optional quoted value, and an
// optional opening brace.
func readTree(text string) (roots []*T, odd, ok bool) {
	top := &T{}
	stack := []*T{top}
	for _, line := range strings.Split(text, "\n") {
		i := 0
		ws := func() {
			for i < len(line) && strings.IndexByte(" \t\r\f", line[i]) >= 0 {
				i++
			}
		}
		is := func(c byte) bool {
			if i < len(line) && line[i] == c {
				i++
				return true
			}
			return false
		}
		ws()
		if is('}') {
			if len(stack) == 1 {
				return nil, odd, false
			}
			stack = stack[:len(stack)-1]
			ws()
		}
		from := i
		for i < len(line) && strings.IndexByte(" \t\r\f}{:\"", line[i]) < 0 {
			i++
		}
		if i == from {
			if i < len(line) {
				return nil, odd, false
			}
			continue
		}
		n := &T{K: S(line[from:i])}
		ws()
		if is(':') {
			ws()
			at := i
			if !is('"') {
				return nil, odd, false
			}
			for i < len(line) && line[i] != '"' {
				if line[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(line) {
				return nil, odd, false
			}
			i++
			v, err := strconv.Unquote(line[at:i])
			if err != nil { // only these escapes are replaced
				odd = true
				v = ""
				for raw := line[at+1 : i-1]; len(raw) > 0; {
					n := 1
					switch {
					case strings.HasPrefix(raw, "\\\\"):
						v, n = v+"\\", 2
					case strings.HasPrefix(raw, "\\n"):
						v, n = v+"\n", 2
					case strings.HasPrefix(raw, "\\\""):
						v, n = v+"\"", 2
					default:
						v += raw[:1]
					}
					raw = raw[n:]
				}
			}
			n.V = S(v)
			ws()
		}
		p := stack[len(stack)-1]
		p.Kids = append(p.Kids, n)
		if is('{') {
			stack = append(stack, n)
		}
		if i < len(line) {
			return nil, odd, false
		}
	}
	return top.Kids, odd, len(stack) == 1 && len(top.Kids) > 0
}

func checkTreeSoup(c SoupCase, o *Obs) error {
	s := string(c.Text)
	got, err := tree.New(s)
	if (err == nil) == (got == nil) {
		return errf("New returned tree %v and error %v\n%s", got != nil, err, s)
	}
	roots, odd, ok := readTree(s)
	if len(roots) > 1 {
		ok = err == nil // not decided
	}
	if ok != (err == nil) {
		return errf("New returned error %v\n%s", err, s)
	}
	if err != nil {
		o.Label("rejected")
		o.NonTrivial(strings.Count(s, "\n") > 1)
		if err != tree.ErrBadTreeString {
			return errf("New returned error %v\n%s", err, s)
		}
		return nil
	}
	var none *tree.PN
	if none.Size() != 0 || strings.TrimSpace(none.String()) == "" {
		return errf("a nil node has Size %d and String %q", none.Size(), none.String())
	}
	o.Label("accepted")
	o.LabelIf(odd, "odd-escapes")
	o.LabelIf(len(roots) > 1, "several-roots")
	o.NonTrivial(got.Size() > 1)
	m := modelOf(got)
	if len(roots) == 1 {
		m = roots[0]
	}
	if err := sameTree(got, m, true); err != nil {
		return errf("New: %v\n%s", err, s)
	}
	again, err := tree.New(got.String())
	if err != nil {
		return errf("String is not valid: %v\n%s", err, got.String())
	}
	if err := sameTree(again, m, true); err != nil {
		return errf("String is read back wrong: %v\n%s", err, got.String())
	}
	return nil
}

func modelOf(n parlex.ParseNode) *T {
	t := &T{K: S(n.Kind().String()), V: S(n.Value())}
	t.L, t.C = n.Pos()
	for i := 0; i < n.Children(); i++ {
		t.Kids = append(t.Kids, modelOf(n.Child(i)))
	}
	return t
}

// ---- edits

// EditCase is a history of operations on nodes of a tree.
type EditCase struct {
	Tree  *T
	Steps []Step
}

// Step is an operation on the node with this number in preorder.
type Step struct {
	Node int
	Op   *TOp
	Mode int // 0 method, 1 reduction, 2 chained reduction
}

func genEdit(t *rapid.T) EditCase {
	kinds := treeKinds[:pick(t, 4, 3, 8, len(treeKinds))]
	c := EditCase{Tree: genTree(t, kinds, 12)}
	if rare(t) {
		var ops []*TOp
		c.Tree, ops = genWide(t, kinds)
		for _, o := range ops {
			c.Steps = append(c.Steps, Step{Op: o, Mode: intn(t, 0, 2)})
		}
	}
	for k := size(t, 1, 8, 30); k > 0; k-- {
		s := Step{Op: genOp(t, kinds, 1), Mode: intn(t, 0, 2)}
		s.Node = intn(t, 0, 7)
		if oneIn(t, 4) {
			s.Node = intn(t, 0, 40)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func preorder(p *tree.PN) []*tree.PN {
	out := []*tree.PN{p}
	for _, c := range p.C {
		out = append(out, preorder(c)...)
	}
	return out
}

func checkEdit(c EditCase, o *Obs) error {
	p, m := c.Tree.pn(), c.Tree.clone()
	orig := c.Tree.pn()
	did := 0
	// the lexemes may be used elsewhere too
	held, were := []parlex.Lexeme{}, []string{}
	for _, n := range preorder(p) {
		held, were = append(held, n.Lexeme), append(were, parlex.LexemeList([]parlex.Lexeme{n.Lexeme}))
	}
	for i, s := range c.Steps {
		ns, ms := preorder(p), m.nodes()
		k := s.Node % len(ms)
		n, w := ns[k], ms[k]
		// what the node says about its children
		for _, idx := range []int{s.Op.Idx, 0, -1, len(w.Kids), -len(w.Kids), -len(w.Kids) - 1} {
			j, ok := at(idx, len(w.Kids))
			gi, gl, gok := n.GetIdx(idx)
			if gok != ok || gl != len(w.Kids) || ok && gi != j {
				return errf("step %d: GetIdx(%d) is %d, %d, %v with %d children", i, idx, gi, gl, gok, len(w.Kids))
			}
			ch := n.Child(idx)
			if (ch == nil) == ok || ok && ch.(*tree.PN) != ns[k].C[j] {
				return errf("step %d: Child(%d) is wrong with %d children", i, idx, len(w.Kids))
			}
			for _, kd := range []S{"A", "B", "Foo"} {
				is := ok && w.Kids[j].K == kd
				if n.ChildIs(idx, string(kd)) != is || n.ChildAt(idx, string(kd)) != is || n.ChildAt(idx, "none", string(kd)) != is {
					return errf("step %d: ChildIs(%d, %s) or ChildAt is not %v", i, idx, kd, is)
				}
			}
		}
		before := w.clone().String()
		want := s.Op.apply(w)
		switch s.Mode {
		case 0:
			if ret, has := s.Op.do(n); has && ret != want {
				return errf("step %d: %s returned %v with %s", i, s.Op.text(), ret, before)
			}
		case 1:
			s.Op.reduction()(n)
		default:
			s.Op.chain(nil)(n)
		}
		if w.String() != before {
			did++
		}
		o.Label(s.Op.Name)
		o.LabelIf(len(w.Kids) > 4, "many-children")
		if err := sameTree(p, m, false); err != nil {
			return errf("step %d, %s on %s in mode %d: %v\ntree before %s", i, s.Op.text(), before, s.Mode, err, before)
		}
		if p.Size() != m.size() {
			return errf("step %d: Size is %d, expected %d", i, p.Size(), m.size())
		}
	}
	o.NonTrivial(did > 1)
	for i, lx := range held {
		if is := parlex.LexemeList([]parlex.Lexeme{lx}); is != were[i] {
			return errf("the edits changed the lexeme %s to %s", were[i], is)
		}
	}
	// cloning copies everything and shares nothing
	cp := tree.Clone(p)
	if err := sameTree(cp, m, false); err != nil {
		return errf("Clone: %v", err)
	}
	in := map[*tree.PN]bool{}
	for _, n := range preorder(p) {
		in[n] = true
	}
	for _, n := range preorder(cp) {
		if in[n] {
			return errf("Clone shares a node")
		}
	}
	if len(cp.C) > 0 {
		cp.RemoveChild(0)
		cp.PromoteGrandChildren()
		if err := sameTree(p, m, false); err != nil {
			return errf("changing a clone changed the tree: %v", err)
		}
	}
	cp = tree.Clone(p)
	for _, n := range preorder(p) {
		scribble(n)
	}
	p.PromoteChildValue(0)
	p.PromoteChild(-1)
	if err := sameTree(cp, m, false); err != nil {
		return errf("changing the tree changed a clone of it: %v", err)
	}
	cp2 := tree.Clone(cp)
	for _, n := range preorder(cp2) {
		scribble(n)
	}
	if err := sameTree(cp, m, false); err != nil {
		return errf("changing the values in a clone changed the tree: %v", err)
	}
	if err := sameTree(tree.Clone(c.Tree.own(nil)), modelOf(orig), false); err != nil {
		return errf("Clone of another ParseNode: %v", err)
	}
	if err := sameTree(tree.Clone(c.Tree.shared(map[string]*own{})), modelOf(orig), false); err != nil {
		return errf("Clone of another ParseNode with shared leaves: %v", err)
	}
	return nil
}

// scribble changes the lexeme of a node in place.
func scribble(n *tree.PN) {
	if lx, ok := n.Lexeme.(*lexeme.Lexeme); ok {
		lx.Set("scribble").At(98, 99)
		lx.K = sym("scribble")
	}
}

// ---- reducers

// ReduceCase is a tree with two reducers.
type ReduceCase struct {
	Tree   *T
	R1, R2 []Rule
	Mode   int
}

func genRules2(t *rapid.T, kinds []S) []Rule { return genRules3(t, kinds, kinds) }

// genRules3 draws rules for kinds whose operations name args.
func genRules3(t *rapid.T, kinds, args []S) []Rule {
	var rs []Rule
	used := map[S]bool{}
	k := intn(t, 0, 4)
	if rare(t) {
		k = intn(t, 5, 40)
	}
	for ; k > 0; k-- {
		kd := kinds[uniform(t, len(kinds))]
		if used[kd] {
			continue
		}
		used[kd] = true
		rs = append(rs, Rule{K: kd, Ops: genOps(t, args, 2)})
	}
	return rs
}

func genReduce(t *rapid.T) ReduceCase {
	kinds := treeKinds[:pick(t, 4, 6, len(treeKinds))]
	if rare(t) {
		n, ops := genWide(t, kinds)
		return ReduceCase{Tree: n, R1: []Rule{{K: n.K, Ops: ops}}, R2: genRules2(t, kinds), Mode: intn(t, 0, 3)}
	}
	return ReduceCase{Tree: genTree(t, kinds, 12), R1: genRules2(t, kinds), R2: genRules2(t, kinds), Mode: intn(t, 0, 3)}
}

func reducerOf(rs []Rule, mode int) tree.Reducer {
	r := tree.Reducer{}
	for i, x := range rs {
		rd := reductionOf(x.Ops, (i+mode)%2 == 0)
		if mode < 2 {
			r[string(x.K)] = rd
		} else {
			r.Add(string(x.K), rd)
		}
	}
	return r
}

func ruleMap(rs ...[]Rule) map[S][]*TOp {
	m := map[S][]*TOp{}
	for _, r := range rs {
		for _, x := range r {
			m[x.K] = append(m[x.K], x.Ops...)
		}
	}
	return m
}

// lastRules are the operations of the last rule for each kind.
func lastRules(rs []Rule) map[S][]*TOp {
	m := map[S][]*TOp{}
	for _, x := range rs {
		m[x.K] = x.Ops
	}
	return m
}

func checkReduce(c ReduceCase, o *Obs) error {
	r1, r2 := reducerOf(c.R1, c.Mode), reducerOf(c.R2, c.Mode+1)
	in := c.Tree.pn()
	want1 := reduceModel(c.Tree, ruleMap(c.R1))
	o.NonTrivial(want1.String() != c.Tree.String())
	o.LabelIf(want1.K != c.Tree.K, "root-replaced")
	shared := func(out *tree.PN) error {
		nodes := map[*tree.PN]bool{}
		for _, n := range preorder(in) {
			nodes[n] = true
		}
		for _, n := range preorder(out) {
			if nodes[n] {
				return errf("the result shares node %s with the argument", n.Kind())
			}
		}
		return sameTree(in, c.Tree, false)
	}
	run := func(what string, r tree.Reducer, want *T) error {
		got := r.Reduce(in)
		if got == nil {
			return errf("%s: Reduce returned nil", what)
		}
		if err := sameTree(got, want, false); err != nil {
			return errf("%s: %v\ntree %s\nexpected %s", what, err, c.Tree, want)
		}
		if err := shared(got.(*tree.PN)); err != nil {
			return errf("%s: %v", what, err)
		}
		if err := sameTree(r.RawReduce(in), want, false); err != nil {
			return errf("%s: RawReduce: %v", what, err)
		}
		if err := sameTree(r.Reduce(c.Tree.own(nil)), want, false); err != nil {
			return errf("%s: with another ParseNode: %v", what, err)
		}
		return nil
	}
	if err := run("reducer", r1, want1); err != nil {
		return err
	}
	m := tree.Merge(r1, r2)
	if err := run("merged", m, reduceModel(c.Tree, ruleMap(c.R1, c.R2))); err != nil {
		return err
	}
	// merging leaves its arguments alone
	if err := run("reducer after Merge", r1, want1); err != nil {
		return err
	}
	if err := run("second reducer", r2, reduceModel(c.Tree, ruleMap(c.R2))); err != nil {
		return err
	}
	if err := run("empty reducer", tree.Reducer{}, c.Tree); err != nil {
		return err
	}
	if err := run("nil reducer", nil, c.Tree); err != nil {
		return err
	}
	// they are independent afterwards
	for _, x := range []struct{ a, b tree.Reducer }{{r1, r2}, {r1, nil}, {nil, r2}, {tree.Reducer{}, r2}, {r1, tree.Reducer{}}} {
		m := tree.Merge(x.a, x.b)
		m.Add("added", tree.RemoveChild(0))
		n := (&T{K: "added"}).pn()
		if r1.Can(n) || r2.Can(n) {
			return errf("a rule added to merged reducers is in a reducer that was merged")
		}
	}
	k1, k2 := ruleMap(c.R1), ruleMap(c.R2)
	for _, n := range preorder(in) {
		k := S(n.Kind().String())
		_, has1 := k1[k]
		_, has2 := k2[k]
		has1 = has1 || hasRule(c.R1, k)
		has2 = has2 || hasRule(c.R2, k)
		if r1.Can(n) != has1 || r2.Can(n) != has2 || m.Can(n) != (has1 || has2) {
			return errf("Can(%s) is wrong", k)
		}
		o.LabelIf(has1 && has2, "rule-in-both")
	}
	if r1.Reduce(nil) != nil || r1.RawReduce(nil) != nil {
		return errf("Reduce(nil) is not nil")
	}
	// each node is reduced once, after its children
	var order []string
	rec := tree.Reducer{}
	for _, k := range treeKinds {
		rec.Add(string(k), func(n *tree.PN) { order = append(order, fmt.Sprint(n.Kind(), n.C)) })
	}
	rec.Reduce(in)
	var post []string
	var walk func(p *tree.PN)
	walk = func(p *tree.PN) {
		for _, x := range p.C {
			walk(x)
		}
		post = append(post, fmt.Sprint(p.Kind(), p.C))
	}
	walk(in)
	if strings.Join(order, "|") != strings.Join(post, "|") {
		return errf("nodes are reduced in the order %q, expected %q", order, post)
	}
	// a rule may change the lexeme of its node
	set := tree.Reducer{}
	for _, k := range treeKinds {
		set.Add(string(k), func(n *tree.PN) {
			if lx, ok := n.Lexeme.(*lexeme.Lexeme); ok {
				lx.V, lx.L = "changed", 7
			}
		})
	}
	set.Reduce(in)
	if err := sameTree(in, c.Tree, false); err != nil {
		return errf("a rule that changes the lexeme of its node changes the argument: %v", err)
	}
	// also if the rules change the nodes
	var got, want []string
	logged := tree.Reducer{}
	for k, rd := range r1 {
		logged[k] = func(n *tree.PN) {
			got = append(got, k+" "+modelOf(n).String())
			if rd != nil {
				rd(n)
			}
			got = append(got, "done "+modelOf(n).String())
		}
	}
	logged.Reduce(in)
	rules := ruleMap(c.R1)
	var model func(t *T) *T
	model = func(t *T) *T {
		x := *t
		x.Kids = nil
		for _, k := range t.Kids {
			x.Kids = append(x.Kids, model(k))
		}
		if hasRule(c.R1, t.K) {
			want = append(want, string(t.K)+" "+x.String())
			for _, o := range rules[t.K] {
				o.apply(&x)
			}
			want = append(want, "done "+x.String())
		}
		return &x
	}
	model(c.Tree)
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		return errf("the rules are applied as\n%s\nexpected\n%s", g, w)
	}
	return nil
}

func hasRule(rs []Rule, k S) bool {
	for _, r := range rs {
		if r.K == k {
			return true
		}
	}
	return false
}

// ---- the reducer language

// DSLCase is a reducer as text.
type DSLCase struct {
	Rules  []Rule
	Tree   *T
	Forms  []int
	Breaks int // how the text is made invalid, if > 0
	At     int
	End    S `json:",omitempty"` // what the text ends with
}

var dslKinds = []S{"A", "B", "C", "Foo", "op", "Nils", "Iffy", "X_1", "a1", "If2", "RemoveAllx", "d", "_x", "__", "9x", "If_", "Nil0", "rule", "number", "comma", "Rule"}

var dslArgs = []S{"b c", "+", "->", "//x", "a,b", "(", ")", ".", "é", "'", "%d", "1", "-1", "Nil", "If(", " ", "RemoveAll", "E'", "{", "a  b"}

// outside rewrites the parts of a text that are not in quotes.
func outside(text string, r *strings.Replacer) string {
	parts := strings.Split(text, `"`)
	for i := 0; i < len(parts); i += 2 {
		parts[i] = r.Replace(parts[i])
	}
	return strings.Join(parts, `"`)
}

func genDSL(t *rapid.T) DSLCase {
	kinds := dslKinds[:pick(t, 4, 6, len(dslKinds))]
	args := kinds
	if boolean(t) { // names that only occur in quotes can have any characters
		args = append(append([]S{}, kinds...), dslArgs...)
	}
	c := DSLCase{Tree: genTree(t, args, 12), Rules: genRules3(t, kinds, args)}
	if rare(t) {
		n, ops := genWide(t, args)
		c.Tree, c.Rules = n, []Rule{{K: n.K, Ops: ops}}
	}
	if oneIn(t, 4) { // an operation that does nothing
		for i := range c.Rules {
			ops := c.Rules[i].Ops
			k := intn(t, 0, len(ops))
			c.Rules[i].Ops = append(append(append([]*TOp{}, ops[:k]...), &TOp{Name: "Nil"}), ops[k:]...)
		}
	}
	if oneIn(t, 6) && len(c.Rules) > 0 { // the last rule of a kind counts
		c.Rules = append(c.Rules, Rule{K: c.Rules[intn(t, 0, len(c.Rules)-1)].K, Ops: genOps(t, args, 1)})
	}
	for k := 0; k < 5; k++ {
		c.Forms = append(c.Forms, intn(t, 0, 5))
	}
	c.End = pick(t, S(""), S("// the end"), S(" "), S("//"), S("\n"), S("//\"."), S("// é\r\n"))
	if oneIn(t, 6) {
		c.Breaks = intn(t, 1, 7)
		c.At = intn(t, 0, 40)
	}
	return c
}

func (c DSLCase) text() string {
	var b strings.Builder
	for i, r := range c.Rules {
		f := c.Forms[i%len(c.Forms)]
		sep := []string{".", " . ", ".\n    ", ". // next\n", "\n.", "."}[f]
		b.WriteString([]string{"", "  ", "\n", "// a comment\n", "\t", "\n// Foo \"Nil\" // ( , \\\n\n"}[f])
		b.WriteString(string(r.K) + []string{" ", "   ", "\t", "\n", " ", " "}[f])
		body := chainText(r.Ops, sep)
		if f == 1 {
			body = outside(body, strings.NewReplacer("(", "( ", ")", " )", ",", " , "))
		}
		b.WriteString(body)
		b.WriteString([]string{"\n", " ", " // done", "\n\n", " ", "\r\n"}[f])
		if f == 2 {
			b.WriteString("\n")
		}
	}
	return b.String() + string(c.End)
}

func checkDSL(c DSLCase, o *Obs) error {
	text := c.text()
	if c.Breaks > 0 {
		o.Label("invalid")
		o.NonTrivial(true)
		switch c.Breaks {
		case 1:
			text += "\nFoo"
		case 2:
			text += "\nFoo PromoteChild()"
		case 3:
			text += "\nFoo PromoteChild(0"
		case 4:
			text += "\nFoo Unknown(0)"
		case 5:
			text += "\nFoo RemoveAll(0)"
		case 6:
			text += "\nFoo If(ChildIs(0, \"A\"), Nil)"
		default:
			text += "\nFoo PromoteSingleChild()."
		}
		r, err := reducer.Parse(text)
		if err == nil || r != nil {
			return errf("Parse accepted\n%s", text)
		}
		if !panics(func() { reducer.Must(text) }) {
			return errf("Must did not panic for\n%s", text)
		}
		return nil
	}
	r, err := reducer.Parse(text)
	if err != nil {
		return errf("Parse: %v\n%s", err, text)
	}
	for _, x := range c.Rules {
		for _, op := range x.Ops {
			o.Label(op.Name)
		}
	}
	o.LabelIf(len(c.Rules) > 2, "many-rules")
	for i := 0; i < 2; i++ {
		want := reduceModel(c.Tree, lastRules(c.Rules))
		o.NonTrivial(want.String() != c.Tree.String())
		got := r.Reduce(c.Tree.pn())
		if err := sameTree(got, want, false); err != nil {
			return errf("%v\n%s\ntree %s\nexpected %s", err, text, c.Tree, want)
		}
		for _, n := range c.Tree.nodes() {
			if r.Can(n.pn()) != hasRule(c.Rules, n.K) {
				return errf("Can(%s) is wrong for\n%s", n.K, text)
			}
		}
		r = reducer.Must(text)
	}
	return nil
}

func init() {
	register("C15", []string{"kinds have no white space, quotes, colons or braces"},
		&suite[TreeTextCase]{nm: "round-trip", quick: 40000, gen: genTreeText, chk: checkTreeText,
			rl: "trees of 1-50 nodes with values of any bytes, written by String and by hand in varying layout; non-trivial: three or more nodes"},
		&suite[SoupCase]{nm: "total", quick: 60000, gen: genTreeSoup, chk: checkTreeSoup,
			rl: "tree text changed in up to three places, or pieces of tree text in any order, against a line by line reference reader; non-trivial: read as a tree of two or more nodes, or rejected with three or more lines"})
	register("C16", nil, &suite[EditCase]{nm: "edits", quick: 100000, gen: genEdit, chk: checkEdit,
		rl: "histories of 1-30 operations, with indexes in and out of bounds, on any node of trees of 1-50 nodes; non-trivial: two or more operations changed something"})
	register("C17", nil, &suite[ReduceCase]{nm: "reduce", quick: 60000, gen: genReduce, chk: checkReduce,
		rl: "trees of 1-50 nodes with two reducers of up to 4 rules of up to 3 operations and conditions; non-trivial: the reducer changes the tree"})
	register("C18", []string{"rules are for kinds that are words and not operations"},
		&suite[DSLCase]{nm: "language", quick: 16000, gen: genDSL, chk: checkDSL,
			rl: "reducers of C17 written as text in varying layout, with comments, and invalid texts; non-trivial: the reducer changes the tree, or the text is invalid"},
		dslSoup)
}
