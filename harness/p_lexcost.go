package main

import (
	"runtime"
	"strings"
	"time"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"pgregory.net/rapid"
)

// LexCost is a text of Size bytes or a little more, made of the units in turn.
type LexCost struct {
	Stack  bool
	Push   bool // a stack lexer with sub-lexers; then every unit has a match for every rule
	Prio   bool
	Rules  []int // which rules of lexCostRules, in this order
	Absent []int // which rules of absentRules, among them
	Units  []S
	Once   S // once, in the middle
	Size   int
}

// no rule can match more than 32 bytes
var lexCostRules = []LRule{
	{Kind: "word", Re: `[a-z]{1,9}`},
	{Kind: "num", Re: `\d{1,5}`},
	{Kind: "sp", Re: ` `},
	{Kind: "nl", Re: `\n\t?`},
	{Kind: "op", Re: `[-+*,]`},
	{Kind: "str", Re: `"[^"\n]{0,20}"`},
	{Kind: "kw", Re: `if|then|ab`},
	{Kind: "id", Re: `[a-z_][a-z0-9_]{0,11}`},
	{Kind: "float", Re: `\d{0,3}\.\d{1,3}`},
	{Kind: "any", Re: `.`},
}

// rules that match nothing, or nearly nothing, of the text
var absentRules = []LRule{
	{Kind: "caps", Re: `[A-Z]{2}_`},
	{Kind: "tag", Re: `<[^>]{1,30}>`},
	{Kind: "sign", Re: `(?:@|#){2}`},
	{Kind: "eq", Re: `=\d\d?`},
	{Kind: "emoji", Re: `\x{1F600}`},
	{Kind: "deep", Re: `[a-z]{2}[0-9]{2}[A-Z]`},
	{Kind: "group", Re: `(x)(y)?(z)`},
}

var lexCostSubs = []Sub{
	{Name: "Main", Lines: []LRule{{Kind: "open", Re: `\(`, Push: "In"}, {Kind: "word", Re: `[a-z]{1,9}`}, {Kind: "num", Re: `\d{1,5}`}, {Kind: "sp", Re: ` `}, {Kind: "nl", Re: `\n`}}},
	{Name: "In", Lines: []LRule{{Kind: "close", Re: `\)`, Pop: 1}, {Kind: "more", Re: `\[`, Push: "In"}, {Kind: "less", Re: `\]`, Pop: 1}, {Inherit: "Main"}}},
}

func genLexCost(t *rapid.T) LexCost {
	c := LexCost{Stack: boolean(t), Prio: oneIn(t, 4)}
	c.Size = pick(t, 100000, 200000, 300000)
	if oneIn(t, 4) {
		c.Stack, c.Push = true, true
		for k := intn(t, 1, 3); k > 0; k-- {
			c.Units = append(c.Units, pick(t, S("ab (12 [x] y)\n"), S("(a [b [1] 2] [\n] )"), S("1 a\n((a) [b])"), S("?a (b ? [1]\n)")))
		}
		return c
	}
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(t, "rules")
	c.Rules = perm[:intn(t, 1, 8)]
	for k := intn(t, 0, 4); k > 0; k-- {
		c.Absent = append(c.Absent, intn(t, 0, len(absentRules)-1))
	}
	units := []S{"ab ", "foo 12\n", "\"a b\" ", "x", "1", "?", "a-b\n\t", "1.5 ", "if x then ", "é", "\n", "_a1 ", "abcdefghijklmnop", "\"", "123456789 ", "\x00"}
	for k := intn(t, 1, 5); k > 0; k-- {
		c.Units = append(c.Units, units[uniform(t, len(units))])
	}
	if boolean(t) {
		c.Once = pick(t, S("AB_"), S("<tag>"), S("@#"), S("xyz"), S("=1"))
	}
	if oneIn(t, 3) && len(c.Rules)+len(c.Absent) < 6 {
		c.Size = 1500000
	}
	return c
}

func (c LexCost) text() string {
	var b strings.Builder
	for i := 0; b.Len() < c.Size; i++ {
		b.WriteString(string(c.Units[i%len(c.Units)]))
		if b.Len() >= c.Size/2 && c.Once != "" {
			b.WriteString(string(c.Once))
			c.Once = ""
		}
	}
	return b.String()
}

// lexTime is the processor time that it takes to lex the text.
func lexTime(l parlex.Lexer, in string) (time.Duration, []parlex.Lexeme) {
	runtime.GC()
	at := cpuTime()
	lxs := l.Lex(in)
	return cpuTime() - at, lxs
}

// checkLexCost lexes a sixteenth, a quarter and all of the text. It is too slow
// if a step takes more than a second of processor time and more than ten times
// as much as the step before, which had a quarter of the text.
func checkLexCost(c LexCost, o *Obs) error {
	if len(c.Units) == 0 {
		return nil
	}
	var rules []LRule
	used := map[int]bool{}
	for i, r := range c.Rules {
		rules = append(rules, lexCostRules[r])
		if i < len(c.Absent) && !used[c.Absent[i]] {
			used[c.Absent[i]] = true
			rules = append(rules, absentRules[c.Absent[i]])
		}
	}
	o.LabelIf(len(used) > 0, "rules-without-matches")
	o.LabelIf(c.Stack, "stacklexer")
	o.LabelIf(c.Push, "pushes")
	o.LabelIf(c.Size > 1000000, "over-1-MB")
	in := c.text()
	var l parlex.Lexer
	switch {
	case c.Push:
		sl, err := stacklexer.New(subText(Layout{}, true, lexCostSubs))
		if err != nil {
			return err
		}
		if c.Prio {
			sl.ByPriority()
		}
		l = sl
	case c.Stack:
		sl, err := stacklexer.New(subText(Layout{}, true, []Sub{{Name: "Main", Lines: rules}}))
		if err != nil {
			return err
		}
		if c.Prio {
			sl.ByPriority()
		}
		l = sl
	default:
		sl, err := simplelexer.New(Layout{}.lines(rules))
		if err != nil {
			return err
		}
		if c.Prio {
			sl.ByPriority()
		}
		l = sl
	}
	before, _ := lexTime(l, in[:len(in)/16])
	var lxs []parlex.Lexeme
	for _, n := range []int{len(in) / 4, len(in)} {
		var now time.Duration
		now, lxs = lexTime(l, in[:n])
		if slow := func() bool { return now > time.Second && now > 10*before }; slow() {
			again, _ := lexTime(l, in[:n/4])
			before = max(before, again)
			if again, _ = lexTime(l, in[:n]); again < now {
				now = again
			}
			if slow() {
				return errf("%d bytes take more than a second and more than ten times as long as a quarter of them", n)
			}
		}
		before = now
	}
	o.NonTrivial(len(lxs) > 10000)
	rest := in
	for i, lx := range lxs {
		v := lx.Value()
		if v == "" || !strings.HasPrefix(rest, v) {
			return errf("lexeme %d of a text of %d bytes is %.40q, the text has %.40q there", i, len(in), v, rest)
		}
		rest = rest[len(v):]
	}
	if rest != "" {
		return errf("the last %d bytes of a text of %d are missing", len(rest), len(in))
	}
	return nil
}

func init() {
	register("C30", []string{"no pattern matches more than 32 bytes", "it is too slow if a text takes more than 1 s of processor time and ten times as long as a quarter of it"},
		&suite[LexCost]{nm: "lex-cost", quick: 50, gen: genLexCost, chk: checkLexCost,
			rl: "texts of 100 kB to 1.5 MB made of repeated units, for lexers with 1-8 rules that match them and up to 4 that match nowhere or once, and for a stack lexer that pushes and pops all the time; non-trivial: more than 10000 lexemes"})
}
