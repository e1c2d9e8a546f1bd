package main

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/tree/reducer"
	"pgregory.net/rapid"
)

// DSLSoup is the text of a reducer as tokens, with some of them changed.
type DSLSoup struct {
	Tree *T
	Toks []S
	Sep  S
}

var dslToken = regexp.MustCompile(`"[^"]*"|-?\d+|\w+|[().,]`)

var dslVocabulary = []S{"(", ")", ",", ".", "0", "-1", "2", `"A"`, `"+"`, "A", "B", "Foo", "Nil", "If", "ChildIs", "RemoveAll", "RemoveChild", "RemoveChildren", "PromoteChild", "PromoteChildrenOf", "PromoteChildValue", "PromoteGrandChildren", "PromoteSingleChild", "ReplaceWithChild", "_x"}

func genDSLSoup(t *rapid.T) DSLSoup {
	kinds := dslKinds[:4]
	c := DSLSoup{Tree: genTree(t, append(append([]S{}, kinds...), "+"), 8), Sep: pick(t, S(" "), S("\n"), S("\t"), S(" // c\n"))}
	for k := intn(t, 1, 2); k > 0; k-- {
		c.Toks = append(c.Toks, kinds[intn(t, 0, len(kinds)-1)])
		for _, tok := range dslToken.FindAllString(chainText(genOps(t, append(append([]S{}, kinds...), "+"), 1), "."), -1) {
			c.Toks = append(c.Toks, S(tok))
		}
	}
	for k := intn(t, 0, 2); k > 0 && len(c.Toks) > 0; k-- {
		i := uniform(t, len(c.Toks))
		out := append([]S{}, c.Toks[:i]...)
		word := dslVocabulary[uniform(t, len(dslVocabulary))]
		switch intn(t, 0, 4) {
		case 0: // removed
			c.Toks = append(out, c.Toks[i+1:]...)
		case 1: // another
			c.Toks = append(append(out, word), c.Toks[i+1:]...)
		case 2: // one more
			c.Toks = append(append(out, word), c.Toks[i:]...)
		case 3: // twice
			c.Toks = append(append(out, c.Toks[i]), c.Toks[i:]...)
		case 4:
			j := min(i+1, len(c.Toks)-1)
			c.Toks[i], c.Toks[j] = c.Toks[j], c.Toks[i]
		}
	}
	return c
}

// dslReader reads a reducer by recursive descent.
type dslReader struct {
	toks []S
	bad  bool
}

func (r *dslReader) peek() S {
	if len(r.toks) == 0 {
		return ""
	}
	return r.toks[0]
}

func (r *dslReader) next() S {
	if len(r.toks) == 0 {
		r.bad = true
		return ""
	}
	s := r.toks[0]
	r.toks = r.toks[1:]
	return s
}

func (r *dslReader) want(s S) {
	if r.next() != s {
		r.bad = true
	}
}

func (r *dslReader) num() int {
	n, err := strconv.Atoi(string(r.next()))
	r.bad = r.bad || err != nil
	return n
}

func (r *dslReader) str() S {
	s := r.next()
	if !strings.HasPrefix(string(s), `"`) {
		r.bad = true
		return ""
	}
	return s[1 : len(s)-1]
}

func (r *dslReader) chain() (ops []*TOp) {
	for !r.bad {
		ops = append(ops, r.op())
		if r.peek() != "." {
			break
		}
		r.next()
	}
	return ops
}

func (r *dslReader) op() *TOp {
	o := &TOp{Name: string(r.next())}
	if o.Name == "Nil" {
		return o
	}
	switch o.Name {
	case "If":
		r.want("(")
		r.want("ChildIs")
		r.want("(")
		o.Idx = r.num()
		r.want(",")
		o.Kinds = []S{r.str()}
		r.want(")")
		r.want(",")
		o.Then = r.chain()
		r.want(",")
		o.Else = r.chain()
		r.want(")")
	case "RemoveAll":
		r.want("(")
		o.Kinds = append(o.Kinds, r.str())
		for !r.bad && r.peek() == "," {
			r.next()
			o.Kinds = append(o.Kinds, r.str())
		}
		r.want(")")
	case "RemoveChildren":
		r.want("(")
		o.Idxs = append(o.Idxs, r.num())
		for !r.bad && r.peek() == "," {
			r.next()
			o.Idxs = append(o.Idxs, r.num())
		}
		r.want(")")
	case "PromoteSingleChild", "PromoteGrandChildren":
		r.want("(")
		r.want(")")
	case "PromoteChild", "PromoteChildrenOf", "PromoteChildValue", "RemoveChild", "ReplaceWithChild":
		r.want("(")
		o.Idx = r.num()
		r.want(")")
	default:
		r.bad = true
	}
	return o
}

var dslKeyword = regexp.MustCompile(`^(If|ChildIs|Nil|RemoveAll|RemoveChild|RemoveChildren|PromoteChild|PromoteChildrenOf|PromoteChildValue|PromoteGrandChildren|PromoteSingleChild|ReplaceWithChild|-?\d+)$`)

var dslWord = regexp.MustCompile(`^\w+$`)

func (r *dslReader) rules() (rs []Rule) {
	for len(r.toks) > 0 && !r.bad {
		k := r.next()
		if dslKeyword.MatchString(string(k)) || !dslWord.MatchString(string(k)) {
			r.bad = true
			return nil
		}
		rs = append(rs, Rule{K: k, Ops: r.chain()})
	}
	return rs
}

func checkDSLSoup(c DSLSoup, o *Obs) error {
	parts := make([]string, len(c.Toks))
	for i, s := range c.Toks {
		parts[i] = string(s)
	}
	text := strings.Join(parts, string(c.Sep))
	rd := &dslReader{toks: c.Toks}
	rules := rd.rules()
	got, err := reducer.Parse(text)
	if rd.bad {
		o.Label("invalid")
		o.NonTrivial(len(c.Toks) > 3)
		if err == nil || got != nil {
			return errf("Parse accepted\n%s", text)
		}
		if !panics(func() { reducer.Must(text) }) {
			return errf("Must did not panic for\n%s", text)
		}
		return nil
	}
	o.Label("valid")
	if err != nil {
		return errf("Parse: %v\n%s", err, text)
	}
	want := reduceModel(c.Tree, lastRules(rules))
	o.NonTrivial(want.String() != c.Tree.String())
	if err := sameTree(got.Reduce(c.Tree.pn()), want, false); err != nil {
		return errf("%v\n%s\ntree %s\nexpected %s", err, text, c.Tree, want)
	}
	return nil
}

var dslSoup = &suite[DSLSoup]{nm: "soup", quick: 16000, gen: genDSLSoup, chk: checkDSLSoup,
	rl: "the tokens of a reducer text with up to two of them removed, replaced, added, repeated or swapped, against a recursive descent reader; non-trivial: the text is invalid, or the reducer changes the tree"}
