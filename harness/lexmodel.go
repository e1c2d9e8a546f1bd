package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"pgregory.net/rapid"
)

// LRule is one line of a lexer definition.
type LRule struct {
	Kind    S
	Re      S      // empty: the kind is the regex
	Discard bool   `json:",omitempty"`
	Groups  []LSeg `json:",omitempty"`
	Push    S      `json:",omitempty"`
	Pop     int    `json:",omitempty"`
	Inherit S      `json:",omitempty"` // the line inherits a sub-lexer
}

// LSeg is a segment of a value: a group, or a literal if Group < 0.
type LSeg struct {
	Group int
	Lit   S
	Quote bool
}

func (r LRule) pattern() string {
	if r.Re == "" {
		return string(r.Kind)
	}
	return string(r.Re)
}

var reCache = map[string]*regexp.Regexp{}

// anchored compiles a pattern so that it can match only at the start.
func anchored(p string) *regexp.Regexp {
	re := reCache[p]
	if re == nil {
		re = regexp.MustCompile(`\A(?:` + p + `)`)
		reCache[p] = re
	}
	return re
}

// MLex is a lexeme of the model.
type MLex struct {
	Kind, Val  string
	L, C       int
	Err, NoPos bool
}

func (m MLex) String() string {
	e := ""
	if m.Err {
		e = "!"
	}
	return fmt.Sprintf("%s%s:%q(%d,%d)", e, m.Kind, m.Val, m.L, m.C)
}

// LOpts are the settings of a lexer.
type LOpts struct {
	ByPriority         bool
	StartKind, StartV  S
	EndKind, EndV      S
	ErrKind            S
	ByLengthAfterwards bool // ByPriority and then ByLength again
}

func genLOpts(t *rapid.T) LOpts {
	var o LOpts
	o.ByPriority = oneIn(t, 3)
	if oneIn(t, 8) {
		o.ByLengthAfterwards = true
	}
	if oneIn(t, 4) {
		o.StartKind = pick(t, S("start"), S("nl"), S("a"), S("é"))
		o.StartV = pick(t, S(""), S("\n"), S("v"))
	}
	if oneIn(t, 4) {
		o.EndKind = pick(t, S("end"), S("nl"), S("a"), S("EOF"))
		o.EndV = pick(t, S(""), S("\n"), S("v"))
	}
	if oneIn(t, 4) {
		o.ErrKind = pick(t, S("lexError"), S("word"), S("a"))
	}
	return o
}

// genLater makes settings to change to after a lexer was used.
func genLater(t *rapid.T) (later []LOpts) {
	if !oneIn(t, 4) {
		return nil
	}
	for k := intn(t, 1, 2); k > 0; k-- {
		later = append(later, genLOpts(t))
	}
	return
}

func (o LOpts) byPriority() bool { return o.ByPriority && !o.ByLengthAfterwards }

// subModel is a flattened sub-lexer.
type subModel struct{ rules []LRule }

// lexStats is what the last modelLex went through.
var lexStats struct{ depth, pushes, multiPop, implicitPop, clampedPop, tie int }

// modelLex is the reference for both lexers. subs[0] is where lexing starts.
func modelLex(in string, start string, subs map[string]*subModel, o LOpts, firstLine int) []MLex {
	var out []MLex
	if o.StartKind != "" {
		out = append(out, MLex{Kind: string(o.StartKind), Val: string(o.StartV), L: -1, NoPos: true})
	}
	errKind := "Error"
	if o.ErrKind != "" {
		errKind = string(o.ErrKind)
	}
	from, l, c := 0, firstLine, 1
	pos := func(off int) (int, int) {
		if off < from {
			from, l, c = 0, firstLine, 1
		}
		for i := from; i < off; i++ {
			if in[i] == '\n' {
				l++
				c = 1
			} else {
				c++
			}
		}
		from = off
		return l, c
	}
	lexStats = struct{ depth, pushes, multiPop, implicitPop, clampedPop, tie int }{}
	errAt := -1
	cur := 0
	flush := func() {
		if errAt >= 0 {
			l, c := pos(errAt)
			out = append(out, MLex{Kind: errKind, Val: in[errAt:cur], L: l, C: c, Err: true})
			errAt = -1
		}
	}
	var stack []string
	at := start
	for cur < len(in) {
		var best *LRule
		var loc []int
		rules := subs[at].rules
		for i := range rules {
			m := anchored(rules[i].pattern()).FindStringSubmatchIndex(in[cur:])
			if m == nil || m[1] == 0 {
				continue
			}
			if best != nil && m[1] == loc[1] {
				lexStats.tie++
			}
			if best == nil || (!o.byPriority() && m[1] > loc[1]) {
				best, loc = &rules[i], m
			}
		}
		if best == nil {
			if len(stack) > 0 {
				at, stack = stack[len(stack)-1], stack[:len(stack)-1]
				lexStats.implicitPop++
				continue
			}
			if errAt < 0 {
				errAt = cur
			}
			cur++
			continue
		}
		flush()
		if !best.Discard {
			v := in[cur : cur+loc[1]]
			if len(best.Groups) > 0 {
				v = ""
				for _, g := range best.Groups {
					if g.Group < 0 {
						v += string(g.Lit)
					} else if loc[2*g.Group] >= 0 {
						v += in[cur+loc[2*g.Group] : cur+loc[2*g.Group+1]]
					}
				}
			}
			l, c := pos(cur)
			out = append(out, MLex{Kind: string(best.Kind), Val: v, L: l, C: c})
		}
		cur += loc[1]
		if best.Pop > 0 {
			k := max(0, len(stack)-best.Pop)
			if best.Pop > len(stack) {
				lexStats.clampedPop++
			} else if best.Pop > 1 {
				lexStats.multiPop++
			}
			if k < len(stack) {
				at, stack = stack[k], stack[:k]
			}
		} else if best.Push != "" {
			stack = append(stack, at)
			at = string(best.Push)
			lexStats.pushes++
			lexStats.depth = max(lexStats.depth, len(stack))
		}
	}
	flush()
	if o.EndKind != "" {
		out = append(out, MLex{Kind: string(o.EndKind), Val: string(o.EndV), L: -1, NoPos: true})
	}
	return out
}

func observe(lxs []parlex.Lexeme) []MLex {
	out := make([]MLex, len(lxs))
	for i, lx := range lxs {
		m := MLex{Kind: lx.Kind().String(), Val: lx.Value()}
		m.L, m.C = lx.Pos()
		_, m.Err = lx.(parlex.LexError)
		m.NoPos = m.L == -1
		out[i] = m
	}
	return out
}

// sameLex compares kinds, values and what is an error, and positions if asked.
func sameLex(got, want []MLex, positions bool) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return errf("lexeme %d is missing, expected %s", i, want[i])
		}
		if i >= len(want) {
			return errf("there is an extra lexeme %d, %s", i, got[i])
		}
		g, w := got[i], want[i]
		if !positions || w.NoPos {
			g.L, g.C, g.NoPos = w.L, w.C, w.NoPos
		}
		if g != w {
			return errf("lexeme %d is %s, expected %s", i, got[i], want[i])
		}
	}
	return nil
}

func lexStr(l []MLex) string {
	s := make([]string, len(l))
	for i, m := range l {
		s[i] = m.String()
	}
	return strings.Join(s, " ")
}

// pat is a regex with strings it matches.
type pat struct {
	re      string
	samples []string
}

// pool of patterns, without assertions about what is to the left
var pool = []pat{
	{`[a-z]+`, []string{"a", "foo", "bar", "abc", "foobar"}},
	{`\w+`, []string{"a", "foo1", "A_b", "9x", "0"}},
	{`\s+`, []string{" ", "  ", "\n", "\t", " \n ", "\r\n"}},
	{`\d+`, []string{"0", "12", "345"}},
	{`\d+\.\d+`, []string{"1.5", "12.25"}},
	{`foo`, []string{"foo"}},
	{`foobar`, []string{"foobar"}},
	{`foo|fo`, []string{"foo", "fo"}},
	{`fo|foo`, []string{"fo", "foo"}},
	{`a*`, []string{"a", "aaa", ""}},
	{`a+?`, []string{"a", "aa"}},
	{`a?b`, []string{"ab", "b"}},
	{`\+|-|\*`, []string{"+", "-", "*"}},
	{`\+`, []string{"+", "++"}},
	{`\+\+`, []string{"++", "+++"}},
	{`\(`, []string{"("}},
	{`\)`, []string{")"}},
	{`[\(\)]`, []string{"(", ")"}},
	{`\/\/[^\n]*`, []string{"// c", "//", "// a b\n"}},
	{`\/`, []string{"/", "//"}},
	{`"[^"]*"`, []string{`"x"`, `""`, "\"a\nb\"", `"foo`}},
	{`\n`, []string{"\n", "\n\n"}},
	{`\n[a-z]*`, []string{"\n", "\nab", "\n" + strings.Repeat("ab", 700)}},
	{`\n+`, []string{"\n", "\n\n", "\n\n\n"}},
	{`[ \t]+`, []string{" ", "\t "}},
	{`[A-Z][a-z]*`, []string{"A", "Foo", "FOO"}},
	{`(?i)if`, []string{"if", "IF", "iF"}},
	{`é+`, []string{"é", "éé"}},
	{`.`, []string{"x", "é", "\xff", "€"}},
	{`[^a]`, []string{"x", "\n", "b"}},
	{`[^\s\d]+`, []string{"ab", "é!", "+-"}},
	{`foo\b`, []string{"foo", "foo "}},
	{`[a-z]+$`, []string{"z", "end"}},
	{`x*y?`, []string{"xx", "xy", "y", ""}},
	{`(?s)<.*>`, []string{"<a>", "<\n>", "<"}},
	{`<.*?>`, []string{"<a>", "<b>c>"}},
	{`abc|abd|ab`, []string{"abc", "abd", "ab"}},
	{`0x[0-9a-f]+`, []string{"0xff", "0x"}},
	{`(a|b)(c|d)?`, []string{"ac", "b", "bd"}},
	{`[.,;:]`, []string{".", ",", ";"}},
	{`\$\d`, []string{"$1", "$"}},
	{`\\`, []string{`\`, `\\`}},
	{`%+`, []string{"%", "%%", "%d"}},
	{`%[ds]`, []string{"%d", "%s", "%"}},
}

// words are kinds that can do without a regex
var words = []S{"foo", "if", "bar", "a", "ab", "x", "start", "stop", "é", "foo1", "a-", "x-y", "[ab]+", "fo?o", `\d+`, "a|b", "-x", "b-"}

var kinds = []S{"word", "int", "space", "op", "lp", "rp", "str", "nl", "kw", "id", "k1", "k2", "Error", "+", "(", "-", "^", "E'", "日本", "longer_kind_name", "%", "%d", "%-9s", "e", "f", "g", "h", "i", "j", "#", ";", "#x", "--", ":", "{", "$", "."}

// genRules makes rules with distinct kinds; samples are strings that they match.
func genRules(t *rapid.T, n int) (rules []LRule, samples []string) {
	used := map[S]bool{}
	// an adjacent block of the pool makes overlaps likely
	for len(rules) < n {
		var r LRule
		if oneIn(t, 5) {
			r.Kind = words[intn(t, 0, len(words)-1)]
			samples = append(samples, string(r.Kind))
		} else {
			p := pool[uniform(t, len(pool))]
			r.Kind = kinds[uniform(t, len(kinds))]
			r.Re = S(p.re)
			samples = append(samples, p.samples...)
		}
		if used[r.Kind] {
			r.Kind += S(fmt.Sprintf("_%d", len(rules)))
			if r.Re == "" {
				samples = append(samples, string(r.Kind))
			}
		}
		if used[r.Kind] {
			continue
		}
		used[r.Kind] = true
		r.Discard = oneIn(t, 4)
		rules = append(rules, r)
	}
	return rules, samples
}

// addFiller adds n rules before or behind the others, all at one place.
func addFiller(t *rapid.T, rules []LRule, samples []string, prefix string, n int) ([]LRule, []string) {
	var fill []LRule
	for k := 0; k < n; k++ {
		r := LRule{Kind: S(fmt.Sprintf("%s%d", prefix, k)), Re: S(fmt.Sprintf("z%dz?", k))}
		if k%3 == 1 {
			r.Re = ""
		}
		fill = append(fill, r)
	}
	if oneIn(t, 6) {
		fill[n/2].Kind, fill[n/2].Re = longName, "zlong"
		samples = append(samples, "zlong")
	}
	for k := intn(t, 2, 5); k > 0; k-- {
		x := uniform(t, n)
		samples = append(samples, fmt.Sprintf("z%d", x), fmt.Sprintf("%s%d", prefix, x))
	}
	if boolean(t) {
		return append(fill, rules...), samples
	}
	return append(rules, fill...), samples
}

// uniform is rapid's int range without the bias to small values.
func uniform(t *rapid.T, n int) int {
	if n <= 16 {
		return intn(t, 0, n-1)
	}
	return (intn(t, 0, 15)*((n+15)/16) + intn(t, 0, (n+15)/16-1)) % n
}

var junk = []string{"?", "!", "~~", "\n", " ", "x", "é", "日", "\xff", "\r\n", "%%", "%s %d", strings.Repeat("?", 90), "a", "foo", "\t", "\x00", "\ufeff", "\u2028", "\ufffd", "\v\f", "\u00a0", "\u0085", "\r", "#"}

// textEdges are what some programs treat in a special way at the start or end
var textEdges = []string{"\ufeff", "\x00", "\x1a", "\r\n", "\n", " ", "\u2028", "\xff", "#", "\r", "\\", "\x00\x00"}

func genLexInput(t *rapid.T, samples []string) S {
	n := size(t, 0, 10, 16)
	if oneIn(t, 25) {
		n = intn(t, 30, 120)
	}
	noise := pick(t, 6, 3, 100, 2)
	var b strings.Builder
	for k := 0; k < n; k++ {
		if len(samples) == 0 || intn(t, 0, noise-1) == noise-1 && noise < 100 {
			b.WriteString(junk[intn(t, 0, len(junk)-1)])
		} else {
			b.WriteString(samples[uniform(t, len(samples))])
		}
	}
	if b.Len() > 0 && b.Len() < 80 && oneIn(t, 16) && oneIn(t, 6) { // a long one
		return S(strings.Repeat(b.String(), intn(t, 10, 100)))
	}
	if oneIn(t, 8) {
		e := textEdges[intn(t, 0, len(textEdges)-1)]
		if boolean(t) {
			return S(e + b.String())
		}
		return S(b.String() + e)
	}
	return S(b.String())
}

// Layout is how a definition is written.
type Layout struct {
	Indent S
	Blank  bool // blank lines
	CRLF   bool
	Align  int
	Trail  S
	Tab    bool // tabs between the parts
	Lead   bool // text starts with an empty line
	NoEnd  bool // text does not end with a newline
}

func genLayout(t *rapid.T) Layout {
	return Layout{
		Indent: pick(t, S(""), S("  "), S("\t"), S("    ")),
		Blank:  oneIn(t, 4),
		CRLF:   oneIn(t, 8),
		Align:  pick(t, 0, 1, 8),
		Trail:  pick(t, S(""), S(""), S(" ")),
		Tab:    oneIn(t, 6),
		Lead:   oneIn(t, 4),
		NoEnd:  oneIn(t, 3),
	}
}

// text is lines as a whole definition.
func (l Layout) text(lines string) string {
	if l.Lead {
		lines = l.nl() + lines
	}
	if l.NoEnd {
		lines = strings.TrimSuffix(lines, l.nl())
	}
	return lines
}

func (l Layout) nl() string {
	if l.CRLF {
		return "\r\n"
	}
	return "\n"
}

// line writes a rule.
func (l Layout) line(r LRule) string {
	sp := " "
	if l.Tab {
		sp = "\t"
	} else if l.Align > 1 {
		sp = strings.Repeat(" ", max(1, l.Align-len(r.Kind)))
	}
	s := string(l.Indent)
	if r.Inherit != "" {
		return s + string(r.Inherit) + string(l.Trail)
	}
	s += string(r.Kind)
	if r.Re != "" {
		s += sp + "/" + string(r.Re) + "/"
		if len(r.Groups) > 0 {
			var segs []string
			for _, g := range r.Groups {
				switch {
				case g.Group >= 0:
					segs = append(segs, fmt.Sprint(g.Group))
				case g.Quote:
					segs = append(segs, `"`+string(g.Lit)+`"`)
				default:
					segs = append(segs, string(g.Lit))
				}
			}
			s += " (" + strings.Join(segs, "|") + ")"
		}
	}
	if r.Push != "" {
		s += sp + string(r.Push)
	}
	if r.Pop > 0 {
		s += sp + strings.Repeat("^", r.Pop)
	}
	if r.Discard {
		s += sp + "-"
	}
	return s + string(l.Trail)
}

func (l Layout) lines(rules []LRule) string {
	var b strings.Builder
	for i, r := range rules {
		if l.Blank && i%2 == 0 {
			b.WriteString(string(l.Indent) + l.nl())
		}
		b.WriteString(l.line(r))
		b.WriteString(l.nl())
	}
	return b.String()
}
