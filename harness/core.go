package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// S is a string that survives JSON even if it is not valid UTF-8.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "b64:") {
		return json.Marshal(string(s))
	}
	return json.Marshal("b64:" + base64.StdEncoding.EncodeToString([]byte(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var str string
	if err := json.Unmarshal(b, &str); err != nil {
		return err
	}
	if strings.HasPrefix(str, "b64:") {
		raw, err := base64.StdEncoding.DecodeString(str[4:])
		if err != nil {
			return err
		}
		str = string(raw)
	}
	*s = S(str)
	return nil
}

func strs(in []S) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = string(s)
	}
	return out
}

// Obs collects what a case exercised.
type Obs struct {
	labels     map[string]bool
	nontrivial bool
}

// Label notes that the case exercised something.
func (o *Obs) Label(s string) { o.labels[s] = true }

// LabelIf notes it if cond is true.
func (o *Obs) LabelIf(cond bool, s string) {
	if cond {
		o.labels[s] = true
	}
}

// NonTrivial marks the case as non-trivial by the rule of its suite.
func (o *Obs) NonTrivial(cond bool) {
	if cond {
		o.nontrivial = true
	}
}

func newObs() *Obs { return &Obs{labels: map[string]bool{}} }

// Suite is one generator with its oracle.
type Suite interface {
	name() string
	rule() string
	weight() int
	draw(t *rapid.T) any
	check(c any, o *Obs) error
	decode(b []byte) (any, error)
}

// quickScale multiplies the number of cases of every suite.
const quickScale = 3

type suite[C any] struct {
	nm    string
	rl    string // how cases are made and what makes one non-trivial
	quick int    // cases in the quick tier, before quickScale
	gen   func(t *rapid.T) C
	chk   func(c C, o *Obs) error
}

func (s *suite[C]) name() string        { return s.nm }
func (s *suite[C]) rule() string        { return s.rl }
func (s *suite[C]) weight() int         { return s.quick * quickScale }
func (s *suite[C]) draw(t *rapid.T) any { return s.gen(t) }
func (s *suite[C]) check(c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.chk(c.(C), o)
}
func (s *suite[C]) decode(b []byte) (any, error) {
	var c C
	err := json.Unmarshal(b, &c)
	return c, err
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/verif/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Property has the suites that decide it.
type Property struct {
	ID     string
	Suites []Suite
	Notes  []string // assumptions
}

var properties []*Property

func register(id string, notes []string, suites ...Suite) {
	properties = append(properties, &Property{ID: id, Notes: notes, Suites: suites})
	sort.Slice(properties, func(i, j int) bool { return properties[i].ID < properties[j].ID })
}

func propertyByID(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Property) suite(name string) Suite {
	for _, s := range p.Suites {
		if s.name() == name {
			return s
		}
	}
	return nil
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	// finalise, fnv of short similar strings is weak
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	if v == 0 {
		v = 1
	}
	return v
}

// errf builds the message of a violated property.
func errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// firstErr returns the first error that is not nil.
func firstErr(errs ...error) error { return errors.Join(errs...) }

// try runs f and converts a panic into an error.
func try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return nil
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}
