package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"pgregory.net/rapid"
)

// ---- JSON

// TextCase is a sequence of tokens with the space around them.
type TextCase struct {
	Toks   []S
	Space  []S // one more than Toks
	Space2 []S // another way to lay it out
}

func layOut(toks, space []S) string {
	var b strings.Builder
	for i, s := range toks {
		b.WriteString(string(space[i]))
		b.WriteString(string(s))
	}
	b.WriteString(string(space[len(toks)]))
	return b.String()
}

func genSpaces(t *rapid.T, n int, need bool) []S {
	out := make([]S, n)
	for i := range out {
		out[i] = pick[S](t, "", "", "", " ", "\n", "\t ", "  ", "\r\n\r\n")
		if need && i > 0 && i < n-1 && out[i] == "" {
			out[i] = " "
		}
	}
	return out
}

func genJSONValue(t *rapid.T, depth int, out *[]S) {
	add := func(s S) { *out = append(*out, s) }
	k := 9 - uniform(t, 10)
	if depth > 2 && k < 6 && !oneIn(t, 8) {
		k = 6 + k%4
	}
	if depth <= 0 && k > 5 {
		k -= 5
	}
	switch {
	case k == 0:
		add("null")
	case k == 1:
		add(pick[S](t, "true", "false"))
	case k < 4:
		add(pick[S](t, "0", "1", "12", "3.25", "007", ".5", "100000000000000000000", "0.1"))
	case k < 6:
		add(genJSONString(t))
	case k < 8:
		add("[")
		for i, n := 0, size(t, 0, 3, 8); i < n; i++ {
			if i > 0 {
				add(",")
			}
			genJSONValue(t, depth-1, out)
		}
		add("]")
	default:
		add("{")
		for i, n := 0, size(t, 0, 3, 8); i < n; i++ {
			if i > 0 {
				add(",")
			}
			add(genJSONString(t))
			add(":")
			genJSONValue(t, depth-1, out)
		}
		add("}")
	}
}

func genJSONString(t *rapid.T) S {
	var b strings.Builder
	b.WriteString(`"`)
	if veryRare(t) {
		b.WriteString(string(longName))
	}
	for k := intn(t, 0, 5); k > 0; k-- {
		b.WriteString(pick(t, "a", "key", " ", "  ", `\"`, `\\`, `\n`, `\u00e9`, "{", "}", "[", "]", ",", ":", "1", "é", "世", "null", "\\/", "'"))
	}
	b.WriteString(`"`)
	return S(b.String())
}

var jsonPieces = []S{"[", "]", "{", "}", ",", ":", "1", "2.5", `"a"`, "true", "null", "-", ".", "'", "nul", "?"}

func genJSON(t *rapid.T) TextCase {
	c := TextCase{}
	genJSONValue(t, 4-uniform(t, 5), &c.Toks)
	if oneIn(t, 3) {
		for k := intn(t, 1, 2); k > 0; k-- {
			c.Toks = mutate(t, c.Toks, jsonPieces)
		}
	}
	c.Space = genSpaces(t, len(c.Toks)+1, true)
	c.Space2 = genSpaces(t, len(c.Toks)+1, true)
	return c
}

var jsonToken = regexp.MustCompile(`^(?:\d*\.?\d+|"(?s:[^"\\]|\\[^\n])*"|true|false|null|[\[\]{},:])$`)

// jsonAccepts is a recursive descent reader of the grammar of the formatter.
func jsonAccepts(toks []S) bool {
	for _, s := range toks {
		if !jsonToken.MatchString(string(s)) {
			return false
		}
	}
	pos := 0
	at := func(s S) bool {
		if pos < len(toks) && toks[pos] == s {
			pos++
			return true
		}
		return false
	}
	str := func() bool {
		if pos < len(toks) && toks[pos][0] == '"' {
			pos++
			return true
		}
		return false
	}
	var value func() bool
	list := func(end S, item func() bool) bool {
		if at(end) {
			return true
		}
		for {
			if !item() {
				return false
			}
			if at(end) {
				return true
			}
			if !at(",") {
				return false
			}
		}
	}
	value = func() bool {
		switch {
		case pos >= len(toks):
			return false
		case at("["):
			return list("]", value)
		case at("{"):
			return list("}", func() bool { return str() && at(":") && value() })
		case strings.ContainsAny(string(toks[pos][:1]), "]},:"):
			return false
		}
		pos++
		return true
	}
	return value() && pos == len(toks)
}

// stripSpace removes the space outside of strings.
func stripSpace(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case in && ch == '\\' && i+1 < len(s):
			b.WriteByte(ch)
			i++
			ch = s[i]
		case ch == '"':
			in = !in
		case !in && (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'):
			continue
		}
		b.WriteByte(ch)
	}
	return b.String()
}

func checkJSON(c TextCase, o *Obs) error {
	text := layOut(c.Toks, c.Space)
	want := jsonAccepts(c.Toks)
	got, err := parlexjson.Format(text)
	o.NonTrivial(want && len(c.Toks) > 4)
	o.LabelIf(want, "valid")
	o.LabelIf(!want, "invalid")
	if want != (err == nil) {
		return errf("%q: the error is %v, is it valid: %v", text, err, want)
	}
	if err != nil {
		if got != "" {
			return errf("%q gives an error and %q", text, got)
		}
		return nil
	}
	if a, b := stripSpace(got), stripSpace(text); a != b {
		return errf("%q is formatted as %q, which is not the same without the space", text, got)
	}
	again, err := parlexjson.Format(got)
	if err != nil || again != got {
		return errf("formatting %q again gives %q, %v", got, again, err)
	}
	if other, err := parlexjson.Format(layOut(c.Toks, c.Space2)); err != nil || other != got {
		return errf("%q and %q are formatted as %q and %q (%v)", text, layOut(c.Toks, c.Space2), got, other, err)
	}
	var a, b any
	if json.Unmarshal([]byte(text), &a) == nil {
		o.Label("strict-json")
		if err := json.Unmarshal([]byte(got), &b); err != nil || !reflect.DeepEqual(a, b) {
			return errf("%q is formatted as %q, which is another document (%v)", text, got, err)
		}
	}
	return nil
}

// ---- math

func genMath(t *rapid.T) TextCase {
	c := TextCase{}
	add := func(s S) { c.Toks = append(c.Toks, s) }
	var expr func(depth int)
	expr = func(depth int) {
		for i, n := 0, size(t, 1, 4, 10); i < n; i++ {
			if i > 0 {
				add(pick[S](t, "+", "-", "*", "/"))
			}
			switch k := intn(t, 0, 6); {
			case k == 0 && depth > 0 && len(c.Toks) < 24:
				add("(")
				expr(depth - 1)
				add(")")
			case k == 1:
				add(pick[S](t, "-", "+"))
				fallthrough
			default:
				add(pick[S](t, "1", "2", "3", "10", "0", "2.5", ".25", "7"))
			}
		}
	}
	expr(3)
	if oneIn(t, 5) {
		c.Toks = mutate(t, c.Toks, []S{"+", "-", "(", ")", "*", "2", "x", "."})
	}
	c.Space = genSpaces(t, len(c.Toks)+1, false)
	// two numbers next to each other, and a dot before a number, need space
	for i := 1; i < len(c.Toks); i++ {
		if num(c.Toks[i-1]) && num(c.Toks[i]) && c.Space[i] == "" {
			c.Space[i] = " "
		}
	}
	return c
}

func num(s S) bool { return s == "." || s[0] == '.' || s[0] >= '0' && s[0] <= '9' }

// mathValue is precedence climbing.
func mathValue(toks []S) (float64, bool) {
	pos, ok := 0, true
	var expr func(min int) float64
	leaf := func() float64 {
		if pos >= len(toks) {
			ok = false
			return 0
		}
		s := toks[pos]
		pos++
		switch {
		case s == "(":
			v := expr(0)
			if pos >= len(toks) || toks[pos] != ")" {
				ok = false
			}
			pos++
			return v
		case s == "-" || s == "+":
			if pos >= len(toks) || !num(toks[pos]) || toks[pos] == "." {
				ok = false
				return 0
			}
			v, _ := strconv.ParseFloat(string(toks[pos]), 64)
			pos++
			if s == "-" {
				v = -v
			}
			return v
		case num(s) && s != ".":
			v, _ := strconv.ParseFloat(string(s), 64)
			return v
		}
		ok = false
		return 0
	}
	expr = func(min int) float64 {
		l := leaf()
		for ok && pos < len(toks) {
			op := toks[pos]
			prec := map[S]int{"+": 0, "-": 0, "*": 1, "/": 1}
			p, is := prec[op]
			if !is || p < min {
				break
			}
			pos++
			r := expr(p + 1)
			switch op {
			case "+":
				l += r
			case "-":
				l -= r
			case "*":
				l *= r
			default:
				l /= r
			}
		}
		return l
	}
	v := expr(0)
	return v, ok && pos == len(toks)
}

func checkMath(c TextCase, o *Obs) error {
	text := layOut(c.Toks, c.Space)
	want, valid := mathValue(c.Toks)
	got, err := parlexmath.Eval(text)
	o.NonTrivial(valid && len(c.Toks) > 4)
	o.LabelIf(valid, "valid")
	o.LabelIf(!valid, "invalid")
	if valid != (err == nil) {
		return errf("%q: the error is %v, is it valid: %v", text, err, valid)
	}
	if valid && got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
		return errf("%q is %v, want %v", text, got, want)
	}
	return nil
}

// ---- stack calculator

// ScalcCase is a program of the stack calculator as tokens.
type ScalcCase struct {
	Toks []S
}

type scalcGen struct {
	t    *rapid.T
	toks []S
}

func (g *scalcGen) add(s ...S) { g.toks = append(g.toks, s...) }

func (g *scalcGen) number() {
	g.add(pick[S](g.t, "1", "2", "3", "-4", "+5", "10", "0", "2.50", "-1.5", "0.125", "7.0"))
}

var (
	uops = []S{"--", "abs"}
	bops = []S{"+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr"}
	sops = []S{"len", "sum", "avg", "min", "max", "first", "last"}
	smps = []S{"swap", "drop", "clear"}
)

// expr adds an expression; bottom says that nothing is below it, so a choice
// between operators can not be taken for one between expressions.
func (g *scalcGen) expr(depth int, bottom bool) {
	t := g.t
	k := intn(t, 0, 11)
	if depth <= 0 || len(g.toks) > 20 {
		k = 0
	}
	choice := func(ops []S) {
		if bottom && oneIn(t, 3) {
			g.add(pick(t, ops...) + " " + pick(t, ops...))
			g.expr(depth-2, false)
			g.add("? ")
			return
		}
		g.add(pick(t, ops...))
	}
	switch {
	case k < 4:
		g.number()
	case k < 6:
		g.expr(depth-1, bottom)
		choice(uops)
	case k < 10:
		g.expr(depth-1, bottom)
		g.expr(depth-1, false)
		choice(bops)
	default:
		g.expr(depth-1, bottom)
		g.expr(depth-1, false)
		g.expr(depth-1, false)
		g.add("?")
	}
}

func (g *scalcGen) stack(depth int) {
	t := g.t
	for i, n := 0, intn(t, 0, 4); i < n && len(g.toks) < 24; i++ {
		if depth > 0 && oneIn(t, 4) {
			g.add("(")
			g.stack(depth - 1)
			g.add(")")
		} else {
			g.expr(intn(t, 0, 2), i == 0)
		}
	}
	if oneIn(t, 3) {
		g.add(pick(t, sops...))
	}
}

func genScalc(t *rapid.T) ScalcCase {
	g := &scalcGen{t: t}
	g.stack(2)
	if oneIn(t, 4) {
		g.add(pick(t, smps...))
	}
	return ScalcCase{g.toks}
}

type pval struct {
	v    float64
	p    int
	tern bool // the result of a ternary expression
}

func in(s S, l []S) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func scalcBop(op S, a, b pval) pval {
	truth := func(c bool) float64 {
		if c {
			return 1
		}
		return 0
	}
	r := pval{p: max(a.p, b.p)}
	switch op {
	case "+":
		r.v = a.v + b.v
	case "-":
		r.v = a.v - b.v
	case "*":
		r.v = a.v * b.v
	case "/":
		r.v = a.v / b.v
	case "^":
		r.v = math.Pow(a.v, b.v)
	case "%":
		r.v = math.Mod(a.v, b.v)
	case ">":
		r.v = truth(a.v > b.v)
	case "<":
		r.v = truth(a.v < b.v)
	case "=":
		r.v = truth(a.v == b.v)
	default:
		r.v = truth(a.v > b.v) - truth(a.v < b.v)
	}
	return r
}

func scalcUop(op S, a pval) pval {
	if op == "--" || a.v < 0 {
		a.v = -a.v
	}
	return a
}

func scalcSop(op S, st []pval) pval {
	r := pval{}
	if op == "len" {
		return pval{v: float64(len(st))}
	}
	if len(st) == 0 {
		return r
	}
	switch op {
	case "first": // of the stack, which is its top
		return st[len(st)-1]
	case "last":
		return st[0]
	case "min", "max":
		r = st[0]
		for _, x := range st[1:] {
			if op == "min" && x.v < r.v || op == "max" && x.v > r.v {
				r = x
			}
		}
		return r
	}
	for _, x := range st {
		r.v += x.v
		r.p = max(r.p, x.p)
	}
	if op == "avg" {
		r.v /= float64(len(st))
	}
	return r
}

// The shapes of the programs that the calculator is known to get wrong, see
// known_findings.txt.
const (
	knownSubStack = "sub stack of other than one value, followed by other values or after another sub stack"
	knownTernary  = "ternary that is not the only value of its stack"
)

// scalcRun is a stack machine. It reports the known shapes it sees.
func scalcRun(toks []S, pos *int, known func(string)) (st []pval) {
	sub := false  // the stack ends with a sub stack of other than one value
	subs := false // the stack has sub stacks
	defer func() {
		for i, v := range st {
			if v.tern && len(st) > 1 {
				known(knownTernary)
			}
			st[i].tern = len(st) == 1 && v.tern
		}
	}()
	operands := func(v ...pval) {
		for _, x := range v {
			if x.tern {
				known(knownTernary)
			}
		}
	}
	apply := func(op S) {
		n := len(st)
		switch {
		case in(op, uops):
			operands(st[n-1])
			st[n-1] = scalcUop(op, st[n-1])
		case in(op, bops):
			operands(st[n-2:]...)
			st = append(st[:n-2], scalcBop(op, st[n-2], st[n-1]))
		case in(op, sops):
			if n > 1 {
				operands(st...)
			}
			st = []pval{scalcSop(op, st)}
		}
	}
	var ops []string // operators to choose from
	for *pos < len(toks) {
		s := toks[*pos]
		*pos++
		switch {
		case s == "(":
			if sub {
				known(knownSubStack)
			}
			vs := scalcRun(toks, pos, known)
			sub = len(vs) != 1
			if sub && subs {
				known(knownSubStack)
			}
			subs = true
			st = append(st, vs...)
		case s == ")":
			return st
		case strings.Contains(string(s), " ") && s != "? ":
			ops = strings.Fields(string(s))
		case s == "? ":
			n := len(st)
			op := ops[0]
			if st[n-1].v > 0 {
				op = ops[1]
			}
			operands(st[n-1])
			st = st[:n-1]
			apply(S(op))
			st[len(st)-1].tern = true
		case s == "?":
			n := len(st)
			c := st[n-1].v > 0
			v := st[n-3]
			if c {
				v = st[n-2]
			}
			operands(st[n-3:]...)
			v.tern = true
			st = append(st[:n-3], v)
		case in(s, smps):
			n := len(st)
			operands(st...)
			switch {
			case s == "clear":
				st = nil
			case s == "drop" && n > 0:
				st = st[:n-1]
			case s == "swap" && n > 1:
				st[n-1], st[n-2] = st[n-2], st[n-1]
			}
		case in(s, uops) || in(s, bops) || in(s, sops):
			apply(s)
		default:
			f, _ := strconv.ParseFloat(string(s), 64)
			p := 0
			if d := strings.IndexByte(string(s), '.'); d >= 0 {
				p = len(s) - d - 1
			}
			if sub {
				known(knownSubStack)
			}
			st = append(st, pval{f, p, false})
		}
	}
	return st
}

func checkScalc(c ScalcCase, o *Obs) error {
	text := strings.Join(strs(c.Toks), " ")
	pos := 0
	var want []string
	shape := ""
	for _, v := range scalcRun(c.Toks, &pos, func(s string) { shape = s }) {
		want = append(want, strconv.FormatFloat(v.v, 'f', v.p, 64))
	}
	var got []string
	for _, v := range scalc.Eval(text) {
		got = append(got, v.String())
	}
	o.NonTrivial(len(c.Toks) > 3)
	for _, s := range c.Toks {
		o.LabelIf(s == "(" || s == "?", string(s))
		o.LabelIf(in(s, sops), "stack-operator")
		o.LabelIf(in(s, smps), "stack-manipulation")
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		if shape != "" && !strict {
			o.Label("known finding: " + shape)
			return nil
		}
		return errf("%q gives %v, want %v", text, got, want)
	}
	return nil
}

func init() {
	register("C24", nil, &suite[TextCase]{nm: "format", quick: 60000, gen: genJSON, chk: checkJSON,
		rl: "JSON documents of depth 0-5 with random space, a third of them mutated token by token; non-trivial: valid and more than four tokens"})
	register("C25", nil, &suite[TextCase]{nm: "eval", quick: 200000, gen: genMath, chk: checkMath,
		rl: "infix expressions of up to about 30 tokens with signs, nesting and random space, a fifth of them mutated; non-trivial: valid and more than four tokens"})
	register("C26", []string{"a stack manipulation operator is the last token (the readme of the calculator notes that others are broken)", "a choice between operators is applied to the bottom of its stack, elsewhere the notation is ambiguous"},
		&suite[ScalcCase]{nm: "eval", quick: 120000, gen: genScalc, chk: checkScalc,
			rl: "programs of up to about 30 tokens with sub stacks, unary, binary, ternary and stack operators; non-trivial: more than three tokens"})
}
