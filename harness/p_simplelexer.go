package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"pgregory.net/rapid"
)

// SLCase is a simplelexer with inputs.
type SLCase struct {
	Rules  []LRule
	Opts   LOpts
	Layout Layout
	Added  int      // this many of the last rules are added with Add
	Split  int      // the definition is given in two strings, split here
	Warm   []SLWarm `json:",omitempty"` // uses before rules are added
	Inputs []S
	Later  []LOpts `json:",omitempty"` // then the settings are changed to these, one after the other
}

// SLWarm lexes an input before the added rule with this number.
type SLWarm struct {
	At  int
	In  S
	Err S // the error kind meanwhile, if not empty
}

func genSLCase(t *rapid.T) SLCase {
	var c SLCase
	rules, samples := genRules(t, size(t, 1, 6, 16))
	if rare(t) {
		rules, samples = addFiller(t, rules, samples, "f", intn(t, 20, 120))
	}
	c.Rules = rules
	c.Opts = genLOpts(t)
	c.Layout = genLayout(t)
	if oneIn(t, 3) {
		c.Added = intn(t, 0, len(rules))
	}
	if c.Added > 0 && boolean(t) {
		for k := intn(t, 1, 2); k > 0; k-- {
			w := SLWarm{At: intn(t, 0, c.Added-1), In: genLexInput(t, samples) + pick(t, S(""), S("~"), S("\x01"))}
			if boolean(t) {
				w.Err = pick(t, S("lexError"), S("word"), S("E"), S("kw"))
			}
			c.Warm = append(c.Warm, w)
			if boolean(t) { // a rule for the error kind
				kind := w.Err
				if kind == "" {
					kind = "Error"
				}
				used := false
				for _, r := range rules {
					used = used || r.Kind == kind
				}
				if r := &rules[len(rules)-c.Added+intn(t, w.At, c.Added-1)]; !used {
					r.Re, r.Kind = S(r.pattern()), kind
				}
			}
		}
	}
	c.Split = intn(t, 0, len(rules)-c.Added)
	for k := intn(t, 1, 4); k > 0; k-- {
		c.Inputs = append(c.Inputs, genLexInput(t, samples))
	}
	c.Later = genLater(t)
	return c
}

func (c SLCase) build() (*simplelexer.Lexer, error) {
	text := c.Rules[:len(c.Rules)-c.Added]
	defs := []string{c.Layout.text(c.Layout.lines(text))}
	if c.Split > 0 && c.Split < len(text) {
		defs = []string{c.Layout.text(c.Layout.lines(text[:c.Split])), c.Layout.text(c.Layout.lines(text[c.Split:]))}
	}
	l, err := simplelexer.New(defs...)
	if err != nil {
		return nil, errf("New(%q): %v", defs, err)
	}
	for i, r := range c.Rules[len(text):] {
		for _, w := range c.Warm {
			if w.At != i {
				continue
			}
			def := l.Error
			if w.Err != "" {
				l.Error = string(w.Err)
			}
			want := modelLex(string(w.In), "", map[string]*subModel{"": {c.Rules[:len(text)+i]}}, LOpts{ErrKind: S(l.Error)}, 0)
			got := observe(l.Lex(string(w.In)))
			if err := sameLex(got, want, false); err != nil {
				return nil, errf("with the first %d rules, input %q: %v\n got %s\nwant %s\nrules:\n%s", len(text)+i, w.In, err, lexStr(got), lexStr(want), Layout{}.lines(c.Rules))
			}
			l.Error = def
		}
		if err := l.Add(sym(r.Kind), regexp.MustCompile(r.pattern()), r.Discard); err != nil {
			return nil, errf("Add(%s): %v", r.Kind, err)
		}
	}
	l = applyOpts(l, c.Opts)
	return l, nil
}

func applyOpts(l *simplelexer.Lexer, o LOpts) *simplelexer.Lexer {
	if o.ByPriority {
		l.ByPriority()
	}
	if o.ByLengthAfterwards {
		l.ByLength()
	}
	if o.StartKind != "" {
		l = l.InsertStart(string(o.StartKind), string(o.StartV))
	}
	if o.EndKind != "" {
		l = l.InsertEnd(string(o.EndKind), string(o.EndV))
	}
	if o.ErrKind != "" {
		l.Error = string(o.ErrKind)
	}
	return l
}

func lexLabels(want []MLex, o *Obs) {
	o.LabelIf(lexStats.tie > 0, "tie")
	o.LabelIf(lexStats.depth > 0, "push")
	o.LabelIf(lexStats.depth > 2, "deep-stack")
	o.LabelIf(lexStats.multiPop > 0, "pop-several")
	o.LabelIf(lexStats.clampedPop > 0, "pop-past-bottom")
	o.LabelIf(lexStats.implicitPop > 0, "implicit-pop")
	errs, toks, lines := 0, 0, false
	for _, w := range want {
		switch {
		case w.Err:
			errs++
		case !w.NoPos:
			toks++
		}
		lines = lines || w.L > 1
	}
	o.LabelIf(errs > 0, "lex-error")
	o.LabelIf(errs > 1, "several-errors")
	o.LabelIf(toks > 12, "long")
	o.LabelIf(lines, "several-lines")
	o.LabelIf(len(want) > 0 && want[len(want)-1].NoPos, "insert-end")
	o.LabelIf(len(want) == 0, "empty")
}

// inputs are the inputs once for each settings.
func (c SLCase) inputs() (all []S) {
	for k := 0; k <= len(c.Later); k++ {
		all = append(all, c.Inputs...)
	}
	return
}

func (c SLCase) check(o *Obs, positions bool) error {
	l, err := c.build()
	if err != nil {
		return err
	}
	subs := map[string]*subModel{"": {c.Rules}}
	o.LabelIf(c.Opts.byPriority(), "by-priority")
	o.LabelIf(c.Added > 0, "added-rules")
	o.LabelIf(len(c.Warm) > 0, "added-after-use")
	o.LabelIf(len(c.Rules) > 8, "many-rules")
	o.LabelIf(len(c.Later) > 0, "settings-changed")
	for k, in := range c.inputs() {
		if k > 0 && k%len(c.Inputs) == 0 {
			c.Opts = c.Later[k/len(c.Inputs)-1]
			l.ByLength()
			l = l.InsertStart("", "").InsertEnd("", "")
			l.Error = "Error"
			l = applyOpts(l, c.Opts)
		}
		want := modelLex(string(in), "", subs, c.Opts, 0)
		got := observe(l.Lex(string(in)))
		lexLabels(want, o)
		if positions {
			o.NonTrivial(len(want) > 1 && strings.Contains(string(in), "\n"))
		} else {
			o.NonTrivial(len(want) > 2)
		}
		if err := sameLex(got, want, positions); err != nil {
			return errf("input %q: %v\n got %s\nwant %s\nrules:\n%s", in, err, lexStr(got), lexStr(want), Layout{}.lines(c.Rules))
		}
	}
	return nil
}

// checkErrorMessages: lex errors say where they are and what was there.
func (c SLCase) checkErrorMessages() error {
	l, err := c.build()
	if err != nil {
		return err
	}
	for _, in := range c.Inputs {
		if err := errorMessages(l.Lex(string(in))); err != nil {
			return errf("input %q: %v", in, err)
		}
	}
	return nil
}

func errorMessages(lxs []parlex.Lexeme) error {
	for _, e := range parlex.LexErrors(lxs) {
		line, col := e.Pos()
		msg := e.Error()
		if !strings.Contains(msg, fmt.Sprintf("%d:%d", line, col)) || !strings.Contains(msg, e.Value()) {
			return errf("the message of the lex error %q at %d:%d is %q", e.Value(), line, col, msg)
		}
	}
	return nil
}

// SLDefCase is a definition that may be invalid, and edits of it.
type SLDefCase struct {
	SLCase
	Bad   S   // an invalid line
	BadAt int // where
	Dup   int // the rule to repeat
	Mode  int // 0 valid, 1 bad line, 2 duplicate in text, 3 duplicate by Add
}

var badLines = []S{"x /[/", "y /(/", "z /a{2,1}/", "( ", "* ", "q /(?P<n>a/ -", "[a", "+", "p /a\\/", "w /**/", "u /\\8/"}

func genSLDefCase(t *rapid.T) SLDefCase {
	c := SLDefCase{SLCase: genSLCase(t)}
	// slashes in added rules
	for i := len(c.Rules) - c.Added; i < len(c.Rules); i++ {
		if oneIn(t, 6) {
			c.Rules[i].Re = pick(t, S("a/b"), S("[/]"), S("//+"), S(`\\/`), S(`\/x`), S(`\\/\\`), S(`/\\`), S(`[/\\]/?`), S(`(?:/|\\)+`))
			for k := range c.Inputs {
				if boolean(t) {
					c.Inputs[k] += pick(t, S("/"), S("//"), S("a/b"), S(`\/`), S("/x"))
				}
			}
		}
	}
	c.Mode = pick(t, 0, 0, 0, 1, 2, 3)
	c.Bad = badLines[intn(t, 0, len(badLines)-1)]
	c.BadAt = intn(t, 0, len(c.Rules))
	c.Dup = intn(t, 0, len(c.Rules)-1)
	return c
}

func checkSLDef(c SLDefCase, o *Obs) error {
	switch c.Mode {
	case 1:
		o.Label("bad-regex")
		o.NonTrivial(true)
		at := min(c.BadAt, len(c.Rules))
		def := c.Layout.lines(c.Rules[:at]) + string(c.Bad) + "\n" + c.Layout.lines(c.Rules[at:])
		def = c.Layout.text(def)
		l, err := simplelexer.New(def)
		if err == nil || l != nil {
			return errf("New accepted a definition with the bad line %q: lexer %v, error %v", c.Bad, l != nil, err)
		}
		return nil
	case 2:
		o.Label("duplicate")
		o.NonTrivial(true)
		dup := c.Rules[c.Dup]
		if c.BadAt%2 == 0 {
			dup.Re = "zzz"
		}
		if c.BadAt%3 == 0 {
			dup.Discard = !dup.Discard
		}
		at := min(max(c.BadAt, c.Dup+1), len(c.Rules))
		def := c.Layout.lines(c.Rules[:at]) + c.Layout.line(dup) + "\n" + c.Layout.lines(c.Rules[at:])
		def = c.Layout.text(def)
		l, err := simplelexer.New(def)
		if err == nil || l != nil {
			return errf("New accepted a second rule for %q: lexer %v, error %v\n%s", dup.Kind, l != nil, err, def)
		}
		return nil
	case 3:
		o.Label("duplicate-add")
		l, err := c.build()
		if err != nil {
			return err
		}
		dup := c.Rules[c.Dup]
		re := "zzz"
		if c.BadAt%2 == 0 {
			if re = string(dup.Re); re == "" {
				re = string(dup.Kind)
			}
		}
		if err := l.Add(sym(dup.Kind), regexp.MustCompile(re), c.BadAt%3 == 0); err == nil {
			return errf("Add accepted a second rule for %q", dup.Kind)
		}
		// the lexer is as it was
		subs := map[string]*subModel{"": {c.Rules}}
		for _, in := range c.Inputs {
			in += "zzz"
			if err := sameLex(observe(l.Lex(string(in))), modelLex(string(in), "", subs, c.Opts, 0), true); err != nil {
				return errf("after Add failed, input %q: %v", in, err)
			}
		}
		return nil
	}
	l, err := c.build()
	if err != nil {
		return err
	}
	text := l.String()
	cp, err := simplelexer.New(text)
	if err != nil {
		return errf("String is not a valid definition: %v\n%s", err, text)
	}
	if again := cp.String(); again != text {
		if cp2, err := simplelexer.New(again); err != nil || cp2.String() != again {
			return errf("String does not round trip:\n%s\n--- becomes\n%s", text, again)
		}
	}
	// whatever was set on the lexer is not part of the definition
	applyOpts(cp, c.Opts)
	subs := map[string]*subModel{"": {c.Rules}}
	for _, in := range c.Inputs {
		want := modelLex(string(in), "", subs, c.Opts, 0)
		o.NonTrivial(len(want) > 2)
		o.Label("round-trip")
		if err := sameLex(observe(l.Lex(string(in))), want, true); err != nil {
			return errf("input %q: %v\ndefinition:\n%s", in, err, text)
		}
		if err := sameLex(observe(cp.Lex(string(in))), want, true); err != nil {
			return errf("the copy made from String lexes %q differently: %v\ndefinition:\n%s", in, err, text)
		}
	}
	return nil
}

func init() {
	how := "1-16 rules from a pool of 40 overlapping patterns (or without a regex), by length or by priority, discards, inserted start and end, written as text in varying layout or added with Add; inputs are up to 120 pieces that rules match, mixed with junk, newlines and bytes that are not UTF-8; "
	notes := []string{"rule patterns do not look at what is left of the match (no ^, \\A, \\b at the start)"}
	register("C02", notes, &suite[SLCase]{nm: "maximal-munch", quick: 80000, gen: genSLCase,
		chk: func(c SLCase, o *Obs) error { return c.check(o, false) },
		rl:  how + "non-trivial: three or more lexemes are expected"}, hugeLex(0))
	register("C04", notes, &suite[SLDefCase]{nm: "definitions", quick: 30000, gen: genSLDefCase, chk: checkSLDef,
		rl: "lexers of C02, written by String and read again, or with an invalid or duplicate rule somewhere; non-trivial: invalid, or three or more lexemes are expected"})
}
