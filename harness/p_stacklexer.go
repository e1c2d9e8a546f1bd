package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex/lexer/stacklexer"
	"pgregory.net/rapid"
)

// Sub is a sub-lexer.
type Sub struct {
	Name  S
	Lines []LRule
}

// STCase is a stacklexer with inputs.
type STCase struct {
	Subs   []Sub
	Opts   LOpts
	Layout Layout
	Tail   bool // == Name ==
	Split  int  // the definition is given in two strings, split here
	Inputs []S
	Later  []LOpts `json:",omitempty"` // then the settings are changed to these, one after the other
}

var subNames = []S{"Main", "Inner", "Shared", "str", "X_1", "Deep"}

// rules for stack lexers: brackets that push and pop are added to those of
// the pool
var stackPool = []LRule{
	{Kind: "open", Re: `\{`}, {Kind: "close", Re: `\}`, Pop: 1},
	{Kind: "quote", Re: `"`}, {Kind: "endquote", Re: `"`, Pop: 1},
	{Kind: "lt", Re: "<"}, {Kind: "gt", Re: ">", Pop: 1},
	{Kind: "gtgt", Re: ">>", Pop: 2}, {Kind: "bail", Re: "!!!", Pop: 3}, {Kind: "out", Re: "@", Pop: 7},
	{Kind: "start", Re: ""}, {Kind: "stop", Re: "", Pop: 1},
}

// genSubs makes 1-5 sub-lexers; inheritance only goes to later ones.
func genSubs(t *rapid.T) (subs []Sub, samples []string) {
	n := pick(t, 2, 3, 1, 4, 5)
	names := append([]S(nil), subNames...)
	if rare(t) {
		n = intn(t, 6, 14)
		for len(names) < n {
			names = append(names, S(fmt.Sprintf("Sub%d", len(names))))
		}
	}
	if n == 1 && boolean(t) {
		names[0] = "Only"
	}
	for i := 0; i < n; i++ {
		subs = append(subs, Sub{Name: names[i]})
	}
	for i := range subs {
		rules, sm := genRules(t, size(t, 1, 3, 8))
		// a kind that is the name of a sub-lexer would be inheritance
		for k := range rules {
			for _, s := range subs {
				if rules[k].Kind == s.Name {
					if rules[k].Re == "" {
						rules[k].Re = rules[k].Kind
					}
					rules[k].Kind += "_k"
				}
			}
			if rules[k].Kind == "^" || strings.HasPrefix(string(rules[k].Kind), "=") {
				rules[k].Kind = "caret"
			}
		}
		if rare(t) {
			rules, sm = addFiller(t, rules, sm, fmt.Sprintf("f%d_", i), intn(t, 10, 80))
		}
		samples = append(samples, sm...)
		for k := intn(t, 0, 4); k > 0; k-- {
			r := stackPool[intn(t, 0, len(stackPool)-1)]
			rules = append(rules, r)
			samples = append(samples, strings.NewReplacer(`\`, "").Replace(r.pattern()), strings.NewReplacer(`\`, "").Replace(r.pattern()))
		}
		for k := range rules {
			r := &rules[k]
			switch m := intn(t, 0, 9); {
			case r.Pop > 0 && m < 8:
			case m <= 2:
				r.Pop = 0
				r.Push = subs[intn(t, 0, n-1)].Name
			case m == 3:
				r.Pop, r.Push = pick(t, 1, 1, 2, 3), ""
			}
			if oneIn(t, 6) {
				genGroups(t, r)
			}
		}
		// some order
		for k := range rules {
			j := intn(t, k, len(rules)-1)
			rules[k], rules[j] = rules[j], rules[k]
		}
		subs[i].Lines = rules
		if oneIn(t, 12) { // nothing, or only what is inherited
			subs[i].Lines = nil
		}
	}
	if oneIn(t, 2) { // nest deeply and pop several levels
		for i := range subs {
			subs[i].Lines = append([]LRule{
				{Kind: "nest", Re: `\{`, Push: subs[intn(t, 0, n-1)].Name},
				{Kind: "bail2", Re: "!!", Pop: 2},
				{Kind: "bail3", Re: "%%", Pop: 3, Discard: boolean(t)},
			}, subs[i].Lines...)
		}
		for k := len(samples)/4 + 1; k > 0; k-- {
			samples = append(samples, "{", "{{", "{{{", "!!", "%%")
		}
	}
	// inheritance, at any place among the lines
	for i := range subs {
		for j := i + 1; j < n; j++ {
			if !oneIn(t, 3) {
				continue
			}
			k := intn(t, 0, len(subs[i].Lines))
			ls := append([]LRule{}, subs[i].Lines[:k]...)
			ls = append(ls, LRule{Inherit: subs[j].Name})
			subs[i].Lines = append(ls, subs[i].Lines[k:]...)
		}
	}
	// not always in the order of inheritance, the first one stays
	if n > 2 && boolean(t) {
		subs[1], subs[n-1] = subs[n-1], subs[1]
	}
	return subs, samples
}

var groupPool = []pat{
	{`(\d+)[-:_](\d+)`, []string{"12-34", "1:2", "5_6"}},
	{`"([^"]*)"`, []string{`"abc"`, `""`, "\"a\nb\""}},
	{`(a)|(b)`, []string{"a", "b"}},
	{`<(\w+)( \w+)?>`, []string{"<a>", "<ab cd>"}},
	{`((x+)(y*))z`, []string{"xyz", "xxz"}},
	{`\$(\w+)`, []string{"$foo", "$1"}},
	{`(\s*)(?:,|;)(\s*)`, []string{" , ", ";", ",\n"}},
	{`(é*)(\.)`, []string{"é.", "."}},
	{`(a)(b)?(c)?(d)?(e)?(f)?(g)?(h)?(i)?(j)(k+)`, []string{"abcdefghijk", "ajk", "abjkk", "acegijk"}},
	{`(((((a)b?)c?)d?)e?)f`, []string{"abcdef", "af", "acf", "adef"}},
	{`()(a)(b*)()(c*)()`, []string{"abc", "a", "ac"}},
	{`(?P<n>\w)(?:=)(?P<m>\w)?`, []string{"x=y", "x="}},
}

var groupCount = []int{2, 1, 2, 2, 3, 1, 2, 2, 11, 5, 6, 2}

func genGroups(t *rapid.T, r *LRule) []string {
	k := intn(t, 0, len(groupPool)-1)
	r.Re = S(groupPool[k].re)
	r.Groups = nil
	for n := intn(t, 1, 5); n > 0; n-- {
		if oneIn(t, 3) {
			r.Groups = append(r.Groups, pick(t,
				LSeg{-1, ":", true}, LSeg{-1, "x", false}, LSeg{-1, "1", true}, LSeg{-1, "", true},
				LSeg{-1, " ", true}, LSeg{-1, "é-", true}, LSeg{-1, "a b", true}, LSeg{-1, "x1", false}, LSeg{-1, "(", true}, LSeg{-1, "2x", false}, LSeg{-1, "", false}, LSeg{-1, "%d", true}, LSeg{-1, "-1", false}, LSeg{-1, "\"a", true}, LSeg{-1, "\"", true}, LSeg{-1, "a\"b", false}, LSeg{-1, "\"", false}, LSeg{-1, "\\n", true}, LSeg{-1, "/", true}, LSeg{-1, "\t", true}, LSeg{-1, "$1", true}, LSeg{-1, " 1", true}, LSeg{-1, "1 ", true}, LSeg{-1, "0", true}))
		} else {
			r.Groups = append(r.Groups, LSeg{uniform(t, groupCount[k]+1), "", false})
		}
	}
	if len(r.Groups) == 1 && r.Groups[0] == (LSeg{-1, "", false}) {
		r.Groups[0].Quote = true // () is no groups
	}
	return groupPool[k].samples
}

func genSTCase(t *rapid.T) STCase {
	var c STCase
	var samples []string
	c.Subs, samples = genSubs(t)
	for _, s := range c.Subs {
		for _, r := range s.Lines {
			if len(r.Groups) > 0 {
				for k, g := range groupPool {
					if g.re == string(r.Re) {
						samples = append(samples, groupPool[k].samples...)
					}
				}
			}
		}
	}
	c.Opts = genLOpts(t)
	c.Layout = genLayout(t)
	c.Tail = boolean(t)
	c.Split = intn(t, 0, len(c.Subs)-1)
	if oneIn(t, 4) { // what is in the definition besides the rules
		samples = append(samples, "==", "=", "== ", string(c.Subs[len(c.Subs)-1].Name), string(c.Subs[0].Name), "^", "-", "/")
	}
	for k := intn(t, 1, 4); k > 0; k-- {
		c.Inputs = append(c.Inputs, genLexInput(t, samples))
	}
	c.Later = genLater(t)
	return c
}

func pickInt(k int, of ...string) string { return of[k%len(of)] }

func subText(l Layout, tail bool, subs []Sub) string {
	var b strings.Builder
	for _, s := range subs {
		sp := pickInt(l.Align, " ", "", "  ")
		if l.Tab {
			sp = "\t"
		}
		b.WriteString("==" + sp + string(s.Name))
		if tail {
			b.WriteString(sp + "==")
		}
		b.WriteString(string(l.Trail))
		b.WriteString(l.nl())
		b.WriteString(l.lines(s.Lines))
	}
	return b.String()
}

// wholeText is a definition by itself: also without a newline at the end, if
// that is not the one that ends a header.
func wholeText(l Layout, tail bool, subs []Sub) string {
	if len(subs[len(subs)-1].Lines) == 0 {
		l.NoEnd = false
	}
	return l.text(subText(l, tail, subs))
}

func (c STCase) texts() []string {
	if c.Split > 0 && c.Split < len(c.Subs) {
		return []string{wholeText(c.Layout, c.Tail, c.Subs[:c.Split]), wholeText(c.Layout, c.Tail, c.Subs[c.Split:])}
	}
	return []string{wholeText(c.Layout, c.Tail, c.Subs)}
}

// flatten resolves inheritance: the first rule for a kind wins, in the order in
// which the lines are written.
func flatten(subs []Sub) map[string]*subModel {
	by := map[S]Sub{}
	for _, s := range subs {
		by[s.Name] = s
	}
	out := map[string]*subModel{}
	var rules func(s Sub) []LRule
	rules = func(s Sub) (rs []LRule) {
		seen := map[S]bool{}
		add := func(r LRule) {
			if !seen[r.Kind] {
				seen[r.Kind] = true
				rs = append(rs, r)
			}
		}
		for _, r := range s.Lines {
			if r.Inherit != "" {
				for _, r2 := range rules(by[r.Inherit]) {
					add(r2)
				}
			} else {
				add(r)
			}
		}
		return rs
	}
	for _, s := range subs {
		out[string(s.Name)] = &subModel{rules(by[s.Name])}
	}
	return out
}

func applySTOpts(l *stacklexer.StackLexer, o LOpts) *stacklexer.StackLexer {
	if o.ByPriority {
		l = l.ByPriority()
	}
	if o.ByLengthAfterwards {
		l = l.ByLength()
	}
	if o.StartKind != "" {
		l = l.InsertStart(string(o.StartKind), string(o.StartV))
	}
	if o.EndKind != "" {
		l = l.InsertEnd(string(o.EndKind), string(o.EndV))
	}
	if o.ErrKind != "" {
		l.Error = string(o.ErrKind)
	}
	return l
}

func (c STCase) build() (*stacklexer.StackLexer, error) {
	l, err := stacklexer.New(c.texts()...)
	if err != nil {
		return nil, errf("New: %v\n%s", err, strings.Join(c.texts(), "\n---\n"))
	}
	l = applySTOpts(l, c.Opts)
	return l, nil
}

func (c STCase) check(o *Obs, positions bool) error {
	l, err := c.build()
	if err != nil {
		return err
	}
	subs := flatten(c.Subs)
	o.LabelIf(c.Opts.byPriority(), "by-priority")
	o.LabelIf(len(c.Subs) > 1, "several-sub-lexers")
	for _, s := range c.Subs {
		for _, r := range s.Lines {
			o.LabelIf(r.Inherit != "", "inherits")
			o.LabelIf(len(r.Groups) > 0, "groups")
		}
	}
	o.LabelIf(len(c.Later) > 0, "settings-changed")
	for k, in := range (SLCase{Inputs: c.Inputs, Later: c.Later}).inputs() {
		if k > 0 && k%len(c.Inputs) == 0 {
			c.Opts = c.Later[k/len(c.Inputs)-1]
			l = l.ByLength().InsertStart("", "").InsertEnd("", "")
			l.Error = "Error"
			l = applySTOpts(l, c.Opts)
		}
		want := modelLex(string(in), string(c.Subs[0].Name), subs, c.Opts, 1)
		got := observe(l.Lex(string(in)))
		lexLabels(want, o)
		if positions {
			o.NonTrivial(len(want) > 1 && strings.Contains(string(in), "\n"))
		} else {
			o.NonTrivial(len(want) > 2 && len(c.Subs) > 1)
		}
		if err := sameLex(got, want, positions); err != nil {
			return errf("input %q: %v\n got %s\nwant %s\n%s", in, err, lexStr(got), lexStr(want), strings.Join(c.texts(), "\n---\n"))
		}
	}
	return nil
}

// STDefCase is a stacklexer definition that may be invalid.
type STDefCase struct {
	STCase
	Mode int // 0 valid, see checkSTDef for the others
	A, B int
	Bad  S
}

func genSTDefCase(t *rapid.T) STDefCase {
	c := STDefCase{STCase: genSTCase(t)}
	c.Mode = pick(t, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6)
	c.A = intn(t, 0, len(c.Subs)-1)
	c.B = uniform(t, 48)
	c.Bad = badLines[intn(t, 0, len(badLines)-1)]
	return c
}

// with returns the sub-lexers with a line inserted in sub-lexer a.
func (c STDefCase) with(line LRule) []Sub {
	subs := append([]Sub(nil), c.Subs...)
	ls := subs[c.A].Lines
	k := c.B % (len(ls) + 1)
	subs[c.A].Lines = append(append(append([]LRule{}, ls[:k]...), line), ls[k:]...)
	return subs
}

// undefinedPush is a rule that pushes a sub-lexer that there is not.
func (c STDefCase) undefinedPush() LRule {
	r := LRule{Kind: "pushes", Re: "p", Push: "Undefined"}
	names := []S{"Undefined", "u", "_", "Undefined9", "pushes", c.Subs[0].Name + "x", c.Subs[len(c.Subs)-1].Name + "_", S(strings.ToLower(string(c.Subs[c.A].Name))), c.Subs[c.A].Name[:1], c.Subs[0].Name[1:]}
	if n := names[c.B%len(names)]; subName.MatchString(string(n)) {
		used := false
		for _, s := range c.Subs {
			used = used || s.Name == n
		}
		if !used {
			r.Push = n
		}
	}
	r.Discard = c.B/10%2 == 1
	if c.B/20 == 1 {
		r.Re, r.Groups = "(p)", []LSeg{{1, "", false}}
	}
	return r
}

var subName = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9]*$`)

func rejected(what string, defs ...string) error {
	l, err := stacklexer.New(defs...)
	if err == nil {
		return errf("New accepted %s:\n%s", what, strings.Join(defs, "\n---\n"))
	}
	if l != nil {
		return errf("New returned a lexer with the error %v for %s:\n%s", err, what, strings.Join(defs, "\n---\n"))
	}
	if !panics(func() { stacklexer.Must(defs...) }) {
		return errf("Must did not panic for %s", what)
	}
	return nil
}

func checkSTDef(c STDefCase, o *Obs) error {
	name := c.Subs[c.A].Name
	switch c.Mode {
	case 1: // bad regex anywhere
		o.Label("bad-regex")
		o.NonTrivial(true)
		txt := subText(c.Layout, c.Tail, c.Subs[:c.A]) + "== " + string(name) + "\n" + string(c.Bad) + "\n" +
			c.Layout.lines(c.Subs[c.A].Lines) + subText(c.Layout, c.Tail, c.Subs[c.A+1:])
		return rejected("the bad line "+string(c.Bad), txt)
	case 2: // undefined push
		o.Label("undefined-push")
		o.NonTrivial(true)
		return rejected("a push of an undefined lexer", wholeText(c.Layout, c.Tail, c.with(c.undefinedPush())))
	case 3: // cyclic inheritance
		o.Label("cyclic")
		o.NonTrivial(true)
		subs := append([]Sub(nil), c.Subs...)
		cycle := 1 + c.B%7
		var extra []Sub
		for i := 0; i < cycle; i++ {
			lines := []LRule{{Kind: S(fmt.Sprintf("cy%d", i)), Re: "c"}, {Inherit: S(fmt.Sprintf("Cy%d", (i+1)%cycle))}}
			switch c.B / 7 % 4 {
			case 1:
				lines[0], lines[1] = lines[1], lines[0]
			case 2:
				lines = lines[1:]
			case 3:
				lines = append(lines, LRule{Kind: "last", Re: "l"})
			}
			extra = append(extra, Sub{Name: S(fmt.Sprintf("Cy%d", i)), Lines: lines})
		}
		if c.B%2 == 0 {
			subs = c.with(LRule{Inherit: "Cy0"})
		}
		txt := wholeText(c.Layout, c.Tail, append(subs, extra...))
		if _, err := stacklexer.New(txt); !errors.Is(err, stacklexer.ErrCyclic) {
			return errf("New returned %v for cyclic inheritance\n%s", err, txt)
		}
		return rejected("cyclic inheritance", txt)
	case 4: // group number too high
		o.Label("bad-group")
		o.NonTrivial(true)
		k := c.B % len(groupPool)
		return rejected("a group that the regex does not have",
			wholeText(c.Layout, c.Tail, c.with(LRule{Kind: "grouped", Re: S(groupPool[k].re), Discard: c.B%5 == 4, Groups: append([]LSeg{{1, "", false}, {-1, "x", true}}[:c.B/12%3], LSeg{groupCount[k] + 1 + c.B%4, "", false})})))
	case 5: // no lexer at all
		o.Label("no-lexer")
		o.NonTrivial(true)
		txt := c.Layout.lines(c.Subs[0].Lines)
		if c.B%2 == 0 {
			txt = ""
		}
		return rejected("a definition without sub-lexers", txt)
	case 6: // redefined: the last definition counts
		o.Label("redefined")
		old := Sub{Name: name, Lines: []LRule{{Kind: "oldrule", Re: `[a-z]+`}, {Kind: "oldcatch", Re: "(?s)."}}}
		first := []Sub{old}
		if c.A != 0 {
			first = nil // the first sub-lexer must stay the start
			subs := append([]Sub{}, c.Subs[0], old)
			first = append(first, subs...)
			c.Subs = append(first, c.Subs[1:]...)
		} else {
			c.Subs = append(first, c.Subs...)
		}
		c.Split = 0
	}
	c.Layout.Blank = c.Layout.Blank || c.B == 0
	// the same definition always gives the same lexer
	o.NonTrivial(len(c.Subs) > 1)
	for k := 0; k < 3; k++ {
		if err := c.STCase.check(newObs(), true); err != nil {
			return err
		}
	}
	must := applySTOpts(stacklexer.Must(c.texts()...), c.Opts)
	for _, in := range c.Inputs {
		if err := sameLex(observe(must.Lex(string(in))), modelLex(string(in), string(c.Subs[0].Name), flatten(c.Subs), c.Opts, 1), true); err != nil {
			return errf("the lexer of Must, input %q: %v", in, err)
		}
	}
	for _, s := range c.Subs {
		n := 0
		for _, r := range s.Lines {
			if r.Inherit != "" {
				n++
			}
		}
		o.LabelIf(n > 0, "inherits")
		o.LabelIf(n > 1, "inherits-several")
	}
	return nil
}

// GroupCase is one rule with groups.
type GroupCase struct {
	Rule   LRule
	Layout Layout
	Inputs []S
}

func genGroupCase(t *rapid.T) GroupCase {
	c := GroupCase{Layout: genLayout(t)}
	c.Rule.Kind = pick(t, S("code"), S("g"), S("x"))
	samples := genGroups(t, &c.Rule)
	if oneIn(t, 5) {
		c.Rule.Pop = 1
	}
	for k := intn(t, 1, 4); k > 0; k-- {
		c.Inputs = append(c.Inputs, genLexInput(t, samples))
	}
	return c
}

func checkGroups(c GroupCase, o *Obs) error {
	st := STCase{Subs: []Sub{{Name: "Main", Lines: []LRule{c.Rule, {Kind: "other", Re: "(?s)(.)"}}}}, Layout: c.Layout, Inputs: c.Inputs}
	lit, grp := 0, 0
	for _, g := range c.Rule.Groups {
		if g.Group < 0 {
			lit++
		} else {
			grp++
		}
	}
	o.LabelIf(lit > 0, "literals")
	o.LabelIf(lit > 0 && grp > 0, "mixed")
	o.LabelIf(grp > 1, "several-groups")
	o.NonTrivial(len(c.Rule.Groups) > 1)
	return st.check(o, true)
}

// PosCase is for positions in either lexer.
type PosCase struct {
	Simple *SLCase `json:",omitempty"`
	Stack  *STCase `json:",omitempty"`
}

func genPosCase(t *rapid.T) PosCase {
	nls := func(in []S) {
		for i := range in {
			for k := intn(t, 0, 3); k > 0; k-- {
				p := intn(t, 0, len(in[i]))
				in[i] = in[i][:p] + pick(t, S("\n"), S("\r\n"), S("\n\n"), S("?\n?"), S("\xff")) + in[i][p:]
			}
		}
	}
	if boolean(t) {
		c := genSLCase(t)
		nls(c.Inputs)
		return PosCase{Simple: &c}
	}
	c := genSTCase(t)
	nls(c.Inputs)
	return PosCase{Stack: &c}
}

func checkPos(c PosCase, o *Obs) error {
	if c.Simple != nil {
		o.Label("simplelexer")
		if err := c.Simple.check(o, true); err != nil {
			return err
		}
		return c.Simple.checkErrorMessages()
	}
	o.Label("stacklexer")
	if err := c.Stack.check(o, true); err != nil {
		return err
	}
	l, err := c.Stack.build()
	if err != nil {
		return err
	}
	for _, in := range c.Stack.Inputs {
		if err := errorMessages(l.Lex(string(in))); err != nil {
			return errf("input %q: %v", in, err)
		}
	}
	return nil
}

func init() {
	how := "1-5 sub-lexers with rules that push, pop 1-7 levels, discard, inherit others at any place and compose values from groups, with inputs of up to 120 pieces that rules match and junk; "
	notes := []string{"rule patterns do not look at what is left of the match (no ^, \\A, \\b at the start)"}
	register("C03", notes, &suite[PosCase]{nm: "positions", quick: 40000, gen: genPosCase, chk: checkPos,
		rl: "lexers of C02 and C05 with newlines anywhere in the input, also inside lexemes, discarded text and errors; non-trivial: two or more lexemes are expected and the input has a newline"}, hugeLex(2))
	register("C05", notes, &suite[STCase]{nm: "stack-machine", quick: 50000, gen: genSTCase,
		chk: func(c STCase, o *Obs) error { return c.check(o, false) },
		rl:  how + "non-trivial: three or more lexemes are expected and there are several sub-lexers"}, hugeLex(1))
	register("C06", notes, &suite[STDefCase]{nm: "definitions", quick: 20000, gen: genSTDefCase, chk: checkSTDef,
		rl: "definitions of C05, each built three times, some with a bad regex, an undefined push, cyclic inheritance, a missing group, no sub-lexer or a sub-lexer defined twice; non-trivial: invalid, or several sub-lexers"})
	register("C07", notes, &suite[GroupCase]{nm: "groups", quick: 80000, gen: genGroupCase, chk: checkGroups,
		rl: "one rule with 1-5 segments (groups, also optional ones, and literals) and inputs that it matches; non-trivial: two or more segments"})
}
