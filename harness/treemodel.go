package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/tree"
	"pgregory.net/rapid"
)

// T is a tree of the model.
type T struct {
	K, V S
	L, C int  `json:",omitempty"`
	Kids []*T `json:",omitempty"`
}

func (t *T) String() string {
	s := string(t.K)
	if t.V != "" {
		s += fmt.Sprintf(":%q", string(t.V))
	}
	s += fmt.Sprintf("@%d,%d", t.L, t.C)
	if len(t.Kids) > 0 {
		var ks []string
		for _, k := range t.Kids {
			ks = append(ks, k.String())
		}
		s += "(" + strings.Join(ks, " ") + ")"
	}
	return s
}

func (t *T) clone() *T {
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (t *T) size() int {
	n := 1
	for _, k := range t.Kids {
		n += k.size()
	}
	return n
}

func (t *T) depth() int {
	d := 0
	for _, k := range t.Kids {
		d = max(d, k.depth())
	}
	return d + 1
}

// nodes in preorder
func (t *T) nodes() []*T {
	out := []*T{t}
	for _, k := range t.Kids {
		out = append(out, k.nodes()...)
	}
	return out
}

// pn builds the tree for the code.
func (t *T) pn() *tree.PN {
	p := &tree.PN{Lexeme: lexeme.New(sym(t.K)).Set(string(t.V)).At(t.L, t.C)}
	for _, k := range t.Kids {
		c := k.pn()
		c.P = p
		p.C = append(p.C, c)
	}
	return p
}

// own is a ParseNode of our own.
type own struct {
	t      *T
	parent *own
	kids   []*own
}

func (t *T) own(parent *own) *own {
	o := &own{t: t, parent: parent}
	for _, k := range t.Kids {
		o.kids = append(o.kids, k.own(o))
	}
	return o
}

// shared has one node for all equal leaves.
func (t *T) shared(leaves map[string]*own) *own {
	o := &own{t: t}
	for _, k := range t.Kids {
		c := leaves[k.String()]
		if c == nil {
			c = k.shared(leaves)
			if len(k.Kids) == 0 {
				leaves[k.String()] = c
			}
		}
		o.kids = append(o.kids, c)
	}
	return o
}

func (o *own) Kind() parlex.Symbol { return sym(o.t.K) }
func (o *own) Value() string       { return string(o.t.V) }
func (o *own) Pos() (int, int)     { return o.t.L, o.t.C }
func (o *own) Children() int       { return len(o.kids) }
func (o *own) Child(i int) parlex.ParseNode {
	if i < 0 || i >= len(o.kids) {
		return nil
	}
	return o.kids[i]
}
func (o *own) Parent() parlex.ParseNode {
	if o.parent == nil {
		return nil
	}
	return o.parent
}

// sameTree compares a tree with the model; it checks parents and that no node
// is used twice. ignorePos is for trees read from text.
func sameTree(got parlex.ParseNode, want *T, ignorePos bool) error {
	seen := map[parlex.ParseNode]bool{}
	var rec func(n parlex.ParseNode, w *T, parent parlex.ParseNode, path string) error
	rec = func(n parlex.ParseNode, w *T, parent parlex.ParseNode, path string) error {
		if n == nil {
			return errf("node %s is nil, expected %s", path, w.K)
		}
		if pn, ok := n.(*tree.PN); ok && pn == nil {
			return errf("node %s is a nil *PN, expected %s", path, w.K)
		}
		if seen[n] {
			return errf("node %s is in the tree twice", path)
		}
		seen[n] = true
		if n.Kind().String() != string(w.K) || n.Value() != string(w.V) {
			return errf("node %s is %s %q, expected %s %q", path, n.Kind(), n.Value(), w.K, string(w.V))
		}
		if l, c := n.Pos(); !ignorePos && (l != w.L || c != w.C) {
			return errf("node %s (%s) is at %d,%d, expected %d,%d", path, n.Kind(), l, c, w.L, w.C)
		}
		if n.Parent() != parent {
			return errf("node %s (%s) has the wrong parent", path, n.Kind())
		}
		if n.Children() != len(w.Kids) {
			return errf("node %s (%s) has %d children, expected %d", path, n.Kind(), n.Children(), len(w.Kids))
		}
		for i, k := range w.Kids {
			if err := rec(n.Child(i), k, n, fmt.Sprintf("%s.%d", path, i)); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(got, want, nil, "root")
}

var treeKinds = []S{"A", "B", "C", "Foo", "op", "int", "é", "E'", "(", "a-b", "\\", "日本", ",", "NIL", "[x]", "*", "%", "%d%s", "%!"}
var treeVals = []S{"", "", "", "1", "x", "a b", "\"q\"", "back\\slash", "new\nline", "\t", "é日", "\xff\xfe", "%d", "100%", "%s%q%v", "\\n", "{", "}", ": {", "\x00", "\r", "‮", "\u00a0", "'", "`", "\\\"", "very long value with several words in it", "\U0001F600", "\u2028", "a\u2029b", "\u0085", "\v\f", "\ufeff", "\ufffd", "\x7f"}

func genTree(t *rapid.T, kinds []S, maxKids int) *T {
	n := size(t, 1, 14, 50)
	root := &T{K: kinds[uniform(t, len(kinds))]}
	all := []*T{root}
	pos := !oneIn(t, 4)
	for i := 1; i < n; i++ {
		// bushy or deep
		var p *T
		switch intn(t, 0, 3) {
		case 0:
			p = all[len(all)-1]
		case 1:
			p = all[0]
		default:
			p = all[uniform(t, len(all))]
		}
		if len(p.Kids) >= maxKids {
			p = all[len(all)-1]
		}
		k := &T{K: kinds[uniform(t, len(kinds))], V: treeVals[uniform(t, len(treeVals))]}
		p.Kids = append(p.Kids, k)
		all = append(all, k)
	}
	if oneIn(t, 4) { // values of several parts
		for k := intn(t, 1, 3); k > 0; k-- {
			c := all[uniform(t, len(all))]
			c.V += treeVals[uniform(t, len(treeVals))] + pick(t, S(""), S("\\"), S("\\\\"), S("\n"), S("\""), S("'"))
		}
	}
	if oneIn(t, 5) {
		root.V = treeVals[uniform(t, len(treeVals))]
	}
	if rare(t) { // a large one
		p := all[uniform(t, len(all))]
		m := intn(t, 1, 3)
		kd := kinds[uniform(t, len(kinds))]
		for k := intn(t, 30, 150) * pick(t, 1, 1, 2); k > 0; k-- {
			c := &T{K: kd, V: S(fmt.Sprint(k))}
			if k%5 == 0 {
				c.K = kinds[k%len(kinds)]
			}
			p.Kids = append(p.Kids, c)
			if m == 1 || m == 2 && k%7 == 0 {
				p = c
			}
		}
	} else if rare(t) {
		v := all[uniform(t, len(all))]
		v.V = S(strings.Repeat(string(pick(t, S("é"), S("x\n"), S("\x00"), S("ab "))), intn(t, 50, 5000)))
	}
	first := pick(t, 1, 0, -2) // lexers number lines as they like
	for i, nd := range root.nodes() {
		nd.L, nd.C = -1, 0
		if pos {
			nd.L, nd.C = first+i/3, 1+i*2
		}
	}
	return root
}

// genWide makes a node with many children and operations that mean them.
func genWide(t *rapid.T, kinds []S) (*T, []*TOp) {
	n := pick(t, 20, 100, 127, 130, 256, 300) + intn(t, 0, 2)
	if rare(t) {
		n = pick(t, 1023, 2047, 4096) + intn(t, 0, 2)
	}
	root := &T{K: kinds[0], L: 1, C: 1}
	for k := 0; k < n; k++ {
		root.Kids = append(root.Kids, &T{K: kinds[(k+k/7)%len(kinds)], V: S(fmt.Sprint(k)), L: 2, C: k})
	}
	idx := func() int { return uniform(t, 2*n+4) - n - 2 }
	var ops []*TOp
	for k := intn(t, 1, 3); k > 0; k-- {
		o := genOp(t, kinds, 1)
		o.Idx = idx()
		if len(o.Idxs) > 0 {
			o.Idxs = []int{idx(), idx(), idx()}
		}
		ops = append(ops, o)
	}
	return root, ops
}

// TOp is an operation on a node.
type TOp struct {
	Name  string
	Idx   int    `json:",omitempty"`
	Idxs  []int  `json:",omitempty"`
	Kinds []S    `json:",omitempty"`
	Then  []*TOp `json:",omitempty"`
	Else  []*TOp `json:",omitempty"`
}

func (o *TOp) text() string {
	switch o.Name {
	case "If":
		return fmt.Sprintf("If(ChildIs(%d, %q), %s, %s)", o.Idx, string(o.Kinds[0]), chainText(o.Then, "."), chainText(o.Else, "."))
	case "RemoveAll":
		var ks []string
		for _, k := range o.Kinds {
			ks = append(ks, `"`+string(k)+`"`)
		}
		return "RemoveAll(" + strings.Join(ks, ", ") + ")"
	case "RemoveChildren":
		return strings.ReplaceAll(strings.Trim(fmt.Sprintf("RemoveChildren(%d)", o.Idxs), ""), " ", ",")
	case "PromoteSingleChild", "PromoteGrandChildren":
		return o.Name + "()"
	case "Nil":
		return "Nil"
	}
	return fmt.Sprintf("%s(%d)", o.Name, o.Idx)
}

func chainText(ops []*TOp, sep string) string {
	if len(ops) == 0 {
		return "Nil"
	}
	var s []string
	for _, o := range ops {
		t := o.text()
		t = strings.NewReplacer("([", "(", "])", ")").Replace(t)
		s = append(s, t)
	}
	return strings.Join(s, sep)
}

var opNamesT = []string{"RemoveChild", "PromoteChild", "PromoteChildrenOf", "PromoteChildValue", "ReplaceWithChild", "RemoveAll", "RemoveChildren", "PromoteSingleChild", "PromoteGrandChildren"}

func genIdx(t *rapid.T) int {
	if rare(t) {
		return intn(t, -150, 150)
	}
	return pick(t, 0, 1, -1, 2, -2, 3, -3, 5, -6, 100, -100, 4, 300, -1000, 70000)
}

func genOp(t *rapid.T, kinds []S, depth int) *TOp {
	if depth > 0 && oneIn(t, 6) {
		return &TOp{Name: "If", Idx: genIdx(t), Kinds: []S{kinds[uniform(t, len(kinds))]}, Then: genOps(t, kinds, depth-1), Else: genOps(t, kinds, depth-1)}
	}
	o := &TOp{Name: opNamesT[intn(t, 0, len(opNamesT)-1)], Idx: genIdx(t)}
	switch o.Name {
	case "RemoveAll":
		k := intn(t, 1, 3)
		if rare(t) {
			k = intn(t, 4, 20)
		}
		if veryRare(t) {
			o.Kinds = append(o.Kinds, longName)
		}
		for ; k > 0; k-- {
			o.Kinds = append(o.Kinds, kinds[uniform(t, len(kinds))])
		}
	case "RemoveChildren":
		k := intn(t, 1, 4)
		if rare(t) {
			k = intn(t, 5, 20)
		}
		for ; k > 0; k-- {
			o.Idxs = append(o.Idxs, genIdx(t))
		}
	}
	return o
}

func genOps(t *rapid.T, kinds []S, depth int) []*TOp {
	var ops []*TOp
	k := intn(t, 0, 3)
	if depth == 2 && rare(t) {
		k = intn(t, 4, 20)
	}
	for ; k > 0; k-- {
		ops = append(ops, genOp(t, kinds, depth))
	}
	return ops
}

func at(i, n int) (int, bool) {
	if i < 0 {
		i += n
	}
	return i, i >= 0 && i < n
}

// apply is what the operation does to a node, and what it returns if it says
// whether it did anything.
func (o *TOp) apply(t *T) bool {
	n := len(t.Kids)
	i, ok := at(o.Idx, n)
	splice := func(mid []*T) {
		ks := append([]*T{}, t.Kids[:i]...)
		ks = append(ks, mid...)
		t.Kids = append(ks, t.Kids[i+1:]...)
	}
	switch o.Name {
	case "RemoveChild":
		if ok {
			splice(nil)
		}
	case "PromoteChildrenOf":
		if ok {
			splice(t.Kids[i].Kids)
		}
	case "PromoteSingleChild":
		if n != 1 {
			return false
		}
		return (&TOp{Name: "PromoteChild"}).apply(t)
	case "PromoteChild":
		if ok {
			c := t.Kids[i]
			t.K, t.V, t.L, t.C = c.K, c.V, c.L, c.C
			splice(c.Kids)
		}
	case "PromoteChildValue":
		if ok {
			c := t.Kids[i]
			t.V, t.L, t.C = c.V, c.L, c.C
			splice(nil)
		}
	case "ReplaceWithChild":
		if ok {
			*t = *t.Kids[i]
		}
	case "RemoveAll":
		var ks []*T
		for _, k := range t.Kids {
			drop := false
			for _, s := range o.Kinds {
				drop = drop || s == k.K
			}
			if !drop {
				ks = append(ks, k)
			}
		}
		t.Kids = ks
	case "RemoveChildren":
		drop := map[int]bool{}
		for _, x := range o.Idxs {
			if j, ok := at(x, n); ok {
				drop[j] = true
			}
		}
		var ks []*T
		for j, k := range t.Kids {
			if !drop[j] {
				ks = append(ks, k)
			}
		}
		t.Kids = ks
	case "PromoteGrandChildren":
		var ks []*T
		for _, k := range t.Kids {
			ks = append(ks, k.Kids...)
		}
		t.Kids = ks
	case "If":
		branch := o.Else
		if ok && t.Kids[i].K == o.Kinds[0] {
			branch = o.Then
		}
		for _, b := range branch {
			b.apply(t)
		}
	}
	return ok
}

// do runs the operation as a method of the node. If it returns a bool, it is in
// ret.
func (o *TOp) do(p *tree.PN) (ret bool, has bool) {
	switch o.Name {
	case "RemoveChild":
		return p.RemoveChild(o.Idx), true
	case "PromoteChildrenOf":
		return p.PromoteChildrenOf(o.Idx), true
	case "PromoteSingleChild":
		return p.PromoteSingleChild(), true
	case "PromoteChild":
		return p.PromoteChild(o.Idx), true
	case "PromoteChildValue":
		p.PromoteChildValue(o.Idx)
	case "ReplaceWithChild":
		return p.ReplaceWithChild(o.Idx), true
	case "RemoveAll":
		p.RemoveAll(strs(o.Kinds)...)
	case "RemoveChildren":
		p.RemoveChildren(o.Idxs...)
	case "PromoteGrandChildren":
		p.PromoteGrandChildren()
	case "If":
		o.reduction()(p)
	}
	return false, false
}

// reduction is the operation as a tree.Reduction.
func (o *TOp) reduction() tree.Reduction {
	switch o.Name {
	case "RemoveChild":
		return tree.RemoveChild(o.Idx)
	case "PromoteChildrenOf":
		return tree.PromoteChildrenOf(o.Idx)
	case "PromoteSingleChild":
		return tree.PromoteSingleChild
	case "PromoteChild":
		return tree.PromoteChild(o.Idx)
	case "PromoteChildValue":
		return tree.PromoteChildValue(o.Idx)
	case "ReplaceWithChild":
		return tree.ReplaceWithChild(o.Idx)
	case "RemoveAll":
		return tree.RemoveAll(strs(o.Kinds)...)
	case "RemoveChildren":
		return tree.RemoveChildren(o.Idxs...)
	case "PromoteGrandChildren":
		return tree.PromoteGrandChildren
	case "If":
		return tree.If(tree.ChildIs(o.Idx, string(o.Kinds[0])), reductionOf(o.Then, false), reductionOf(o.Else, true))
	}
	return nil
}

// chain adds the operation with the method of a reduction.
func (o *TOp) chain(r tree.Reduction) tree.Reduction {
	switch o.Name {
	case "RemoveChild":
		return r.RemoveChild(o.Idx)
	case "PromoteChildrenOf":
		return r.PromoteChildrenOf(o.Idx)
	case "PromoteSingleChild":
		return r.PromoteSingleChild()
	case "PromoteChild":
		return r.PromoteChild(o.Idx)
	case "PromoteChildValue":
		return r.PromoteChildValue(o.Idx)
	case "ReplaceWithChild":
		return r.ReplaceWithChild(o.Idx)
	case "RemoveAll":
		return r.RemoveAll(strs(o.Kinds)...)
	case "RemoveChildren":
		return r.RemoveChildren(o.Idxs...)
	case "PromoteGrandChildren":
		return r.PromoteGrandChildren()
	case "If":
		return r.If(tree.ChildIs(o.Idx, string(o.Kinds[0])), reductionOf(o.Then, true), reductionOf(o.Else, false))
	}
	return r
}

func reductionOf(ops []*TOp, methods bool) tree.Reduction {
	var r tree.Reduction
	for _, o := range ops {
		if methods {
			r = o.chain(r)
		} else {
			r = tree.Chain(r, o.reduction())
		}
	}
	return r
}

// Rule is the reduction of a kind.
type Rule struct {
	K   S
	Ops []*TOp
}

// reduce is bottom up: the children first, then the rule of the node's kind.
func reduceModel(t *T, rules map[S][]*TOp) *T {
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, reduceModel(k, rules))
	}
	for _, o := range rules[t.K] {
		o.apply(&c)
	}
	return &c
}
