From dea2a4f816189133e0ef837be5fcb7e4422f4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:32 +0000
Subject: [PATCH 01/31] fix: simplelexer ByPriority never matched any rule

---
 lexer/simplelexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..6c38ef5 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -36,7 +36,7 @@ func (l *Lexer) ByLength() { l.compare = lengthThenPriority }
 func (l *Lexer) ByPriority() { l.compare = priorityThenLength }
 
 func priorityThenLength(e1, p1, e2, p2 int) bool {
-	return p1 < p2 || (p1 == p2 && e1 > e2)
+	return p2 == -1 || p1 < p2 || (p1 == p2 && e1 > e2)
 }
 func lengthThenPriority(e1, p1, e2, p2 int) bool {
 	return e1 > e2 || (e1 == e2 && p1 < p2)
-- 
2.43.0


From da2fea730de2212674125cee42f1a4f421f452af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:52 +0000
Subject: [PATCH 02/31] fix: an empty match of a higher priority rule hid a
 real match in the lexers

---
 lexer/simplelexer/lexer.go | 2 +-
 lexer/stacklexer/lex.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 6c38ef5..94bb6e9 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -149,7 +149,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[1] > op.cur {
 			p := op.rules[kind].priority
 			if op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..c940aed 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -111,7 +111,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[1] > loc[0] {
 			tr := op.rules[kind]
 			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
 				idx = loc
-- 
2.43.0


From c0e8c2fa162fe17f43a7c50a82cbee81661dedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 03/31] fix: simplelexer positions ignored lines inside lex
 errors, and errors had none

---
 lexer/simplelexer/lexer.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 94bb6e9..047ac66 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -1,12 +1,12 @@
 package simplelexer
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
 	"regexp"
-	"strings"
 )
 
 // Lexer implements parlex.Lexer. It can take a string and produce a slice of
@@ -65,7 +65,6 @@ type lexOp struct {
 	errFlag  bool
 	errStart int
 	cur      int
-	lines    int
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -118,7 +117,7 @@ func (op *lexOp) checkError() {
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
 	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -160,10 +159,13 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 		}
 	}
 
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(lx.V, "\n")
+	lx.L, lx.C = op.pos(op.cur)
 
 	return lx, lxEnd
 }
+
+// pos returns the line and column of an offset into the input
+func (op *lexOp) pos(offset int) (int, int) {
+	before := op.b[:offset]
+	return bytes.Count(before, []byte("\n")), offset - bytes.LastIndexByte(before, '\n')
+}
-- 
2.43.0


From b79cb9f8471641303ab7f53476af78794e532833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 04/31] fix: simplelexer panicked when a rule was added after a
 lex error

---
 lexer/simplelexer/construct.go | 4 ++--
 lexer/simplelexer/lexer.go     | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 564fa52..5e2254e 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -106,8 +106,8 @@ func (l *Lexer) addRule(r *rule) error {
 // make a copy of the lexer.
 func (l *Lexer) String() string {
 	var longest int
-	for _, rule := range l.rules {
-		if ln := parlex.SymLen(l.set.ByIdx(rule.kind)); ln > longest {
+	for _, kind := range l.order {
+		if ln := parlex.SymLen(l.set.ByIdx(kind)); ln > longest {
 			longest = ln
 		}
 	}
diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 047ac66..141eb52 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -124,6 +124,9 @@ func (op *lexOp) checkError() {
 func (op *lexOp) populateNext() {
 	op.next = make([][]int, len(op.rules))
 	for kind, r := range op.rules {
+		if r == nil {
+			continue // the error kind shares the symbol set but has no rule
+		}
 		op.next[kind] = r.re.FindIndex(op.b)
 	}
 }
-- 
2.43.0


From ee805a31dd4dbff4d57cc365f5e470869f27a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:09 +0000
Subject: [PATCH 05/31] fix: stacklexer.New dropped bad regex and cyclic
 inheritance errors

---
 lexer/stacklexer/construct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..8311c25 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -122,7 +122,9 @@ func New(definitions ...string) (*StackLexer, error) {
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
 	}
 
 	return l, nil
-- 
2.43.0


From f10aec67e9009b83a845ee2c642503981af45503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:10 +0000
Subject: [PATCH 06/31] fix: stacklexer inherited rules did not keep their
 declared priority order

---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 8311c25..e7973b9 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -248,10 +248,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From 8121bb24c3c1f6080b43a0e4be7c260d9a2011f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:12 +0000
Subject: [PATCH 07/31] fix: stacklexer panicked on a pop with an empty stack

---
 lexer/stacklexer/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index c940aed..47d77f2 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -87,8 +87,10 @@ func (op *lexOp) pop(i int) {
 	if ln < 0 {
 		ln = 0
 	}
-	op.subLexer = op.stack[ln]
-	op.stack = op.stack[:ln]
+	if ln < len(op.stack) {
+		op.subLexer = op.stack[ln]
+		op.stack = op.stack[:ln]
+	}
 	op.populateNext()
 }
 
-- 
2.43.0


From 147db539b7e0a30e62a37b1ff205bff0bcf4df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:13 +0000
Subject: [PATCH 08/31] fix: stacklexer kept stale matches while skipping a lex
 error

---
 lexer/stacklexer/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 47d77f2..6d7eada 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
-- 
2.43.0


From d0fb90115b8ce20c0dfe98a7f860882697c1ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:14 +0000
Subject: [PATCH 09/31] fix: stacklexer positions around lex errors were wrong

---
 lexer/stacklexer/lex.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 6d7eada..cc32fcb 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -138,20 +136,18 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
 	} else {
 		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	lx.At(op.pos(op.cur))
 
 	return lx, offset + idx[1], r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+// pos returns the line and column of an offset into the input
+func (op *lexOp) pos(offset int) (int, int) {
+	before := string(op.b[:offset])
+	return 1 + strings.Count(before, "\n"), offset - strings.LastIndex(before, "\n")
 }
 
 func (op *lexOp) checkError() {
@@ -160,9 +156,7 @@ func (op *lexOp) checkError() {
 	}
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
-	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	lx := lexeme.New(op.err.kind).Set(val).At(op.pos(op.err.start))
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 75f8530f46927e1132fed9681a57607666b595b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:15 +0000
Subject: [PATCH 10/31] fix: stacklexer groups kept the quotes of literals and
 panicked on missing groups

---
 lexer/stacklexer/construct.go | 10 +++++++++-
 lexer/stacklexer/lex.go       |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index e7973b9..abf1d91 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,7 +55,7 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\d+$`)
 
 func parseSubmatches(str string) []submatch {
 	if str == "" {
@@ -68,6 +68,9 @@ func parseSubmatches(str string) []submatch {
 			sec, _ := strconv.Atoi(s)
 			ms[i] = submatch{section: sec}
 		} else {
+			if ln := len(s); ln >= 2 && s[0] == '"' && s[ln-1] == '"' {
+				s = s[1 : ln-1]
+			}
 			ms[i] = submatch{section: -1, str: s}
 		}
 	}
@@ -218,6 +221,11 @@ func (sl *subLexer) addMatch(m []string) error {
 		discard:    m[5] == "-",
 		submatches: parseSubmatches(m[3]),
 	}
+	for _, sub := range r.submatches {
+		if sub.section > re.NumSubexp() {
+			return fmt.Errorf("%s has no regex group %d", m[1], sub.section)
+		}
+	}
 	sl.addRule(r)
 	return nil
 }
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index cc32fcb..975eaff 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -132,7 +132,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
+			} else if idx[sub.section*2] >= 0 {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-- 
2.43.0


From 3c9b76fe1a478d96500b06a59ee87af6db987475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:17 +0000
Subject: [PATCH 11/31] fix: stacklexer.New accepted undefined push targets and
 definitions without a lexer

---
 lexer/stacklexer/construct.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index abf1d91..15c1979 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -80,6 +80,9 @@ func parseSubmatches(str string) []submatch {
 // ErrCyclic will be returned if a stack lexers form a cyclic inheritance
 var ErrCyclic = errors.New("Cyclic Inheritance")
 
+// ErrNoLexer will be returned if the definitions contain no sub-lexer
+var ErrNoLexer = errors.New("No Lexer Defined")
+
 var subParserDef = regexp.MustCompile(`==\s*([a-zA-Z_][a-zA-Z_0-9]*)\s*(?:==)?\s*\n`)
 var subParserLine = regexp.MustCompile(`([^\/\s]+)\s*(?:\/((?:[^\/\\]|(?:\\\/?))+)\/\s*(?:\(((?:[^\\\)]|(?:\\[^\n]))*)\))?)?\s*((?:\^+)|(?:[a-zA-Z_][a-zA-Z_0-9]*))?\s*(-?)`)
 
@@ -129,6 +132,16 @@ func New(definitions ...string) (*StackLexer, error) {
 			return nil, err
 		}
 	}
+	if l.start == nil {
+		return nil, ErrNoLexer
+	}
+	for _, sl := range l.lexers {
+		for _, kind := range sl.order {
+			if push := sl.rules[kind].push; push != "" && l.lexers[push] == nil {
+				return nil, fmt.Errorf("%s pushes undefined lexer %s", l.set.ByIdx(kind), push)
+			}
+		}
+	}
 
 	return l, nil
 }
-- 
2.43.0


From 5e4ac248c643c0da47aa0c06354b9d4527544dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 12/31] fix: redefining the first sub-lexer of a stacklexer
 left it without rules

---
 lexer/stacklexer/construct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 15c1979..9145317 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -116,7 +116,7 @@ func New(definitions ...string) (*StackLexer, error) {
 				name:       cur.name,
 			}
 			l.lexers[cur.name] = sl
-			if l.start == nil {
+			if l.start == nil || l.start.name == cur.name {
 				l.start = sl
 			}
 		}
-- 
2.43.0


From 02b08c7cfd95f3041d16f59311799f49dfa6c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:02 +0000
Subject: [PATCH 13/31] fix: IsLeftRecursive missed left recursion behind
 indirectly nullable symbols

---
 leftrecursion.go | 59 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..9f8e228 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -3,13 +3,14 @@ package parlex
 // IsLeftRecursive will check if a grammar is left recursive.
 func IsLeftRecursive(grammar Grammar) bool {
 	op := &lrOp{
-		Grammar: grammar,
-		checked: make(map[string]bool),
+		Grammar:  grammar,
+		checked:  make(map[string]bool),
+		nullable: make(map[string]bool),
 	}
+	op.findNullable()
 	for _, nt := range grammar.NonTerminals() {
 		op.stack = make(map[string]bool)
-		isLR, _ := op.check(nt)
-		if isLR {
+		if op.check(nt) {
 			return true
 		}
 	}
@@ -18,41 +19,61 @@ func IsLeftRecursive(grammar Grammar) bool {
 
 type lrOp struct {
 	Grammar
-	checked, stack map[string]bool
+	checked, stack, nullable map[string]bool
 }
 
-func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
+// findNullable finds the symbols that can derive the empty string, directly or
+// through other symbols.
+func (op *lrOp) findNullable() {
+	for again := true; again; {
+		again = false
+		for _, nt := range op.NonTerminals() {
+			prods := op.Productions(nt)
+			if prods == nil || op.nullable[nt.String()] {
+				continue
+			}
+			for i := prods.Iter(); i.Next(); {
+				isNil := true
+				for j := i.Iter(); isNil && j.Next(); {
+					isNil = op.nullable[j.Symbol.String()]
+				}
+				if isNil {
+					op.nullable[nt.String()] = true
+					again = true
+					break
+				}
+			}
+		}
+	}
+}
+
+func (op *lrOp) check(s Symbol) bool {
 	if op.checked[s.String()] {
-		return false, false
+		return false
 	}
 
 	prods := op.Productions(s)
 	if prods == nil {
 		// s is a terminal
 		op.checked[s.String()] = true // add to checked to avoid the lookup in the future
-		return false, false
+		return false
 	}
 
 	if op.stack[s.String()] {
-		return true, false
+		return true
 	}
 	op.stack[s.String()] = true
 
-	retCheckNext := false
 	for i := prods.Iter(); i.Next(); {
-		if i.Production.Symbols() == 0 {
-			retCheckNext = true
-			continue
-		}
-		for j, isLR, checkNext := i.Iter(), false, true; j.Next() && checkNext; {
-			isLR, checkNext = op.check(j.Symbol)
-			if isLR {
-				return true, false
+		for j, checkNext := i.Iter(), true; checkNext && j.Next(); {
+			if op.check(j.Symbol) {
+				return true
 			}
+			checkNext = op.nullable[j.Symbol.String()]
 		}
 	}
 
 	op.checked[s.String()] = true
 	op.stack[s.String()] = false
-	return false, retCheckNext
+	return false
 }
-- 
2.43.0


From 7260bee6233f7fb022f255dc151573f19f1152d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:20 +0000
Subject: [PATCH 14/31] fix: RemoveLeftRecursion changed the language or never
 returned

It substituted the original productions of a symbol instead of the
transformed ones, which recursed forever when that symbol was directly left
recursive, dropped all of A from A -> A A x, mixed up the indexes of two
symbol sets and took a name for the new symbol that may be in use.
---
 grammar/grammar.go        |  4 ++-
 grammar/left_recursion.go | 70 ++++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 42 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..5288246 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -184,7 +184,9 @@ func (g *Grammar) String() string {
 	for _, nt := range nonTerminals {
 		prods := g.Productions(nt)
 		iter := prods.Iter()
-		iter.Next()
+		if !iter.Next() {
+			continue // RemoveLeftRecursion can leave no productions
+		}
 		segs = append(segs, fmt.Sprintf(format, nt, iter.Production))
 		for iter.Next() {
 			segs = append(segs, fmt.Sprintf(format, "", iter.Production))
diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..a5f59e0 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -6,7 +6,6 @@ import (
 )
 
 type lrOp struct {
-	in        parlex.Grammar
 	out       *Grammar
 	done      []bool
 	cur       *setsymbol.Symbol
@@ -17,26 +16,22 @@ type lrOp struct {
 // RemoveLeftRecursion will convert a grammar with left recursion into one
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
-	nts := grammar.NonTerminals()
 	op := &lrOp{
-		in:   grammar,
-		out:  Empty(),
-		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
+		out: Empty(),
 	}
-	for _, s := range nts {
+	op.set = op.out.set
+	op.set.LoadGrammar(grammar)
+	op.done = make([]bool, op.set.Size())
+	for _, s := range grammar.NonTerminals() {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
-		for i := grammar.Productions(op.cur).Iter(); i.Next(); {
+		op.out.addNonTerminal(op.cur)
+		for i := grammar.Productions(s).Iter(); i.Next(); {
 			op.safeAdd(op.set.CastProduction(i.Production))
 		}
 		if op.hasDirect {
 			op.removeDirectLeftRecursion()
 		}
-		idx := op.cur.Idx()
-		if idx >= len(op.done) {
-			op.done = append(op.done, make([]bool, 1+idx+len(op.done))...)
-		}
 		op.done[op.cur.Idx()] = true
 	}
 	return op.out
@@ -56,7 +51,7 @@ func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 		return
 	}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
+	for i := op.out.Productions(first).Iter(); i.Next(); {
 		newProd := op.set.Production()
 		for lead := i.Production.Iter(); lead.Next(); {
 			newProd.AddSymbols(lead.Symbol)
@@ -78,44 +73,37 @@ func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
 }
 
 func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
-	nsIdx := newSym.Idx()
-	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
-		op.out.order = append(op.out.order, nsIdx)
-	}
-
+	newSym := unusedSymbol(op.set, op.cur)
 	prods := op.out.productions[op.cur.Idx()]
-	op.out.productions[op.cur.Idx()] = nil
+	op.out.productions[op.cur.Idx()] = op.set.Productions()
+	op.out.addNonTerminal(newSym)
 	for i := prods.Iter(); i.Next(); {
 		prod := i.Production.(*setsymbol.Production)
 		if prod.Symbols() == 0 || prod.Symbol(0).(*setsymbol.Symbol).Idx() != op.cur.Idx() {
 			prod.AddSymbols(newSym)
-			op.directAdd(op.cur, prod)
-		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
-			}
-			if prod.Symbols() > 0 {
-				prod.AddSymbols(newSym)
-				op.directAdd(newSym, prod)
-			}
+			op.out.Add(op.cur, prod)
+		} else if prod = op.getTail(prod); prod.Symbols() > 0 {
+			prod.AddSymbols(newSym)
+			op.out.Add(newSym, prod)
 		}
 	}
-	op.directAdd(newSym, op.set.Production())
+	op.out.Add(newSym, op.set.Production())
 }
 
-func (op *lrOp) directAdd(from *setsymbol.Symbol, to *setsymbol.Production) {
-	f := from.Idx()
-	var prods *setsymbol.Productions
-	if f < len(op.out.productions) {
-		prods = op.out.productions[f]
-	} else {
-		op.out.productions = append(op.out.productions, make([]*setsymbol.Productions, 1+f-len(op.out.productions))...)
+// unusedSymbol returns a symbol based on s that is not in the set yet
+func unusedSymbol(set *setsymbol.Set, s parlex.Symbol) *setsymbol.Symbol {
+	str := s.String() + "'"
+	for set.Has(str) {
+		str += "'"
 	}
+	return set.Str(str)
+}
 
-	if prods == nil {
-		op.out.productions[f] = op.out.set.Productions(to)
-	} else {
-		prods.AddProductions(to)
+// addNonTerminal adds a non-terminal that has no productions yet
+func (g *Grammar) addNonTerminal(s *setsymbol.Symbol) {
+	if ln := 1 + s.Idx() - len(g.productions); ln > 0 {
+		g.productions = append(g.productions, make([]*setsymbol.Productions, ln)...)
 	}
+	g.productions[s.Idx()] = g.set.Productions()
+	g.order = append(g.order, s.Idx())
 }
-- 
2.43.0


From fd546934a5c4b0cdd5dcc0622505fed1bc128686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:21 +0000
Subject: [PATCH 15/31] fix: RemoveLeftRecursion left (or never returned from)
 recursion hidden by empty symbols

---
 grammar/left_recursion.go | 79 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index a5f59e0..6c72bfb 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -16,6 +16,18 @@ type lrOp struct {
 // RemoveLeftRecursion will convert a grammar with left recursion into one
 // without.
 func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
+	out := removeLeftRecursion(grammar)
+	if out == nil {
+		// Left recursion was hidden behind a symbol that can be empty, which can't
+		// happen if there are no empty productions.
+		out = removeLeftRecursion(removeEmptyProductions(grammar))
+	}
+	return out
+}
+
+// removeLeftRecursion returns nil if the result would be left recursive because
+// of a symbol that can be empty.
+func removeLeftRecursion(grammar parlex.Grammar) *Grammar {
 	op := &lrOp{
 		out: Empty(),
 	}
@@ -33,6 +45,9 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 			op.removeDirectLeftRecursion()
 		}
 		op.done[op.cur.Idx()] = true
+		if parlex.IsLeftRecursive(op.out) {
+			return nil
+		}
 	}
 	return op.out
 }
@@ -107,3 +122,67 @@ func (g *Grammar) addNonTerminal(s *setsymbol.Symbol) {
 	g.productions[s.Idx()] = g.set.Productions()
 	g.order = append(g.order, s.Idx())
 }
+
+// removeEmptyProductions returns a grammar for the same language in which only
+// the start symbol may have an empty production, and only if it is not used by
+// any production.
+func removeEmptyProductions(grammar parlex.Grammar) *Grammar {
+	nts := grammar.NonTerminals()
+	nullable, used := make(map[string]bool), make(map[string]bool)
+	for again := true; again; {
+		again = false
+		for _, nt := range nts {
+			for i := grammar.Productions(nt).Iter(); i.Next(); {
+				isNil := true
+				for j := i.Iter(); j.Next(); {
+					used[j.Symbol.String()] = true
+					isNil = isNil && nullable[j.Symbol.String()]
+				}
+				if isNil && !nullable[nt.String()] {
+					nullable[nt.String()] = true
+					again = true
+				}
+			}
+		}
+	}
+
+	out := Empty()
+	out.set.LoadGrammar(grammar)
+	start := out.set.Symbol(nts[0])
+	if nullable[start.String()] && used[start.String()] {
+		start = unusedSymbol(out.set, nts[0])
+		out.Add(start, out.set.Production(nts[0]))
+		out.Add(start, nil)
+	}
+	for _, nt := range nts {
+		s := out.set.Symbol(nt)
+		out.addNonTerminal(s)
+		added := make(map[string]bool)
+		for i := grammar.Productions(nt).Iter(); i.Next(); {
+			// take every combination of leaving out symbols that can be empty
+			combs := []*setsymbol.Production{out.set.Production()}
+			for j := i.Iter(); j.Next(); {
+				for _, comb := range combs {
+					if nullable[j.Symbol.String()] {
+						without := out.set.Production()
+						for k := comb.Iter(); k.Next(); {
+							without.AddSymbols(k.Symbol)
+						}
+						combs = append(combs, without)
+					}
+					comb.AddSymbols(j.Symbol)
+				}
+			}
+			for _, comb := range combs {
+				if comb.Symbols() > 0 && !added[comb.String()] {
+					added[comb.String()] = true
+					out.Add(s, comb)
+				}
+			}
+		}
+		if nullable[nt.String()] && s.Idx() == start.Idx() {
+			out.Add(s, nil)
+		}
+	}
+	return out
+}
-- 
2.43.0


From efca620e157e861f26066849ee47437e6ffc6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:17 +0000
Subject: [PATCH 16/31] fix: packrat accepted an empty input for every grammar

---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From cd586be626873ca2609e5bf616761c8a57db1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:19 +0000
Subject: [PATCH 17/31] fix: the Parent of a root node was not nil

---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..2f1c055 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil // not a nil *PN in a non-nil interface
+	}
 	return p.P
 }
 
-- 
2.43.0


From 9e05d02d78e7143472bf51d4290aa09242cf720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 18/31] fix: tree.Clone lost the positions

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 2f1c055..2cc5226 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -159,11 +159,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From b2a5a2eebc85b9c710eea81f210024638cc17bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:22 +0000
Subject: [PATCH 19/31] fix: topdown trees shared nodes and had no parents

---
 parser/topdown/topdown.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..430ea09 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,8 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	// accept can use the same node in many places and does not set the parents
+	return tree.Clone(node)
 }
 
 type treeKey struct {
-- 
2.43.0


From 48ab20b2d1cc0e80d88fe0e3e771094b2fb1e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:23 +0000
Subject: [PATCH 20/31] fix: reduced trees had missing or wrong parents

---
 tree/node_reductions.go | 8 ++++++++
 tree/reducer.go         | 1 +
 2 files changed, 9 insertions(+)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..9909513 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,12 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	parent := p.P
 	*p = *(p.C[cIdx])
+	p.P = parent
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
@@ -122,6 +127,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	} else {
 		p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:]...)...)
 	}
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..3267eed 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -74,6 +74,7 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 	}
 	for i := range cp.C {
 		cp.C[i] = r.RawReduce(node.Child(i))
+		cp.C[i].P = cp
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 6033a0eae32e1ed30298199231252d8eb8f00eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:25 +0000
Subject: [PATCH 21/31] fix: PromoteChildValue removed a child for some out of
 bounds indexes

---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 9909513..88f942d 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -94,14 +94,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From aa194f3d09c4587cdf9ec7907a702bbf24c6c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:26 +0000
Subject: [PATCH 22/31] fix: tree.New panicked on unbalanced or empty strings

---
 tree/parsetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 2cc5226..b36f336 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -20,7 +20,8 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
@@ -28,6 +29,9 @@ func New(str string) (*PN, error) {
 		}
 		if m[1] == "}" {
 			cur = cur.P
+			if cur == nil {
+				return nil, ErrBadTreeString
+			}
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
@@ -42,7 +46,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != root || len(root.C) == 0 {
+		return nil, ErrBadTreeString
+	}
+	cur = root.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From fd90d842ad156fc8e97a99b7f8874d37d499bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 23/31] fix: tree.New did not read back all the escapes written
 by String

---
 tree/parsetree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index b36f336..0717261 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -35,7 +36,10 @@ func New(str string) (*PN, error) {
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val, err := strconv.Unquote(`"` + m[3] + `"`)
+			if err != nil {
+				val = handleSlash.Replace(m[3])
+			}
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
-- 
2.43.0


From c95923dbc22d79a488a5b5a4a48dd06c517835a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:51 +0000
Subject: [PATCH 24/31] fix: setsymbol.Set.ByIdx returned symbols that are not
 in the set

---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..cad2381 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -25,7 +25,7 @@ func (s *Set) Size() int { return len(s.symb2str) }
 
 // ByIdx gets a symbol by index from the set
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From 3b78566a3f19add03a202f2f323ca2a3ce9aa559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 25/31] fix: symbols added to one view of a set production
 overwrote those of another

---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index cad2381..8482d70 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -262,7 +262,7 @@ func (p *Productions) Productions() int {
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
 		return &Production{
-			symbs: p.prods[i],
+			symbs: p.prods[i][:len(p.prods[i]):len(p.prods[i])], // AddSymbols must not share capacity
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From 97e5c3c8c84872b38298c6cd09a2e257d607108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 26/31] fix: regexgram dropped productions with an empty group

---
 grammar/regexgram/regexgram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..60cfd8c 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -292,7 +292,7 @@ func mergeRules(a, b rules) rules {
 
 func (rc ruleComb) reduce() rules {
 	if len(rc) == 0 {
-		return nil
+		return rules{rule{}}
 	}
 	ra := rc[0]
 	for _, rb := range rc[1:] {
-- 
2.43.0


From 192940b06fa0a7e009e1a81d33383539bbcb1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:55 +0000
Subject: [PATCH 27/31] fix: regexgram confused the repeats of groups that get
 the same name

---
 grammar/regexgram/regexgram.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 60cfd8c..5354378 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -115,6 +115,7 @@ type evalOp struct {
 	nonterm   string
 	bludgeons map[string][]string
 	done      map[string]rules
+	names     map[string]string
 }
 
 func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
@@ -124,6 +125,7 @@ func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
 		rdcr:      tree.Reducer{},
 		bludgeons: make(map[string][]string),
 		done:      make(map[string]rules),
+		names:     make(map[string]string),
 	}
 	for _, c := range node.C {
 		if c.Kind().String() == "Production" {
@@ -192,7 +194,12 @@ func (op *evalOp) evalSymbol(node *tree.PN) rules {
 //    ->
 // And adds a rule to the reducer
 func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
-	symName := op.getName(node)
+	// (A B)* and (A_B)* are different but get the same name
+	id, symName := op.getName(node, " "), op.getName(node, "_")
+	for op.names[symName] != "" && op.names[symName] != id {
+		symName += "'"
+	}
+	op.names[symName] = id
 	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
 	if rs, ok := op.done[symName]; ok {
 		return rs
@@ -241,26 +248,26 @@ func bludgeon(symbols []string) func(*tree.PN) {
 	}
 }
 
-func (op *evalOp) getName(node *tree.PN) string {
+func (op *evalOp) getName(node *tree.PN, sep string) string {
 	switch node.Kind().String() {
 	case "symbol":
 		return node.Value()
 	case "OptSymbol":
-		return op.getName(node.C[0]) + "?"
+		return op.getName(node.C[0], sep) + "?"
 	case "RepSymbol":
-		return op.getName(node.C[0]) + "*"
+		return op.getName(node.C[0], sep) + "*"
 	case "OrSymbol":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, sep))
 		}
 		return strings.Join(strs, "|")
 	case "Group":
 		var strs []string
 		for _, c := range node.C {
-			strs = append(strs, op.getName(c))
+			strs = append(strs, op.getName(c, sep))
 		}
-		return "(" + strings.Join(strs, "_") + ")"
+		return "(" + strings.Join(strs, sep) + ")"
 	}
 
 	return ""
-- 
2.43.0


From 3ff44d7518818a34af97d3b413bec289e900215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:56 +0000
Subject: [PATCH 28/31] fix: analyze missed firsts of recursive grammars and
 symbols that are never first

---
 analyze/analysis.go | 104 ++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 46 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..bb075f4 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -12,8 +12,9 @@ type Analytics struct {
 	nonterm2firsts [][]int
 	nilInFirst     []bool
 	Terminals      []bool
+	nonterms       []bool
+	nullable       []bool
 	set            *setsymbol.Set
-	done           []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -35,61 +36,72 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
+		nonterms:       make([]bool, ln),
+		nullable:       make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
 	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+		a.nonterms[a.set.Symbol(symbol).Idx()] = true
 	}
 
-	// populate first2nonterms from nonterm2firsts
-	for symbol, firsts := range a.nonterm2firsts {
-		for _, first := range firsts {
-			var nonterms []bool
-			nonterms = a.first2nonterms[first]
-			if nonterms == nil {
-				nonterms = make([]bool, ln)
-				a.first2nonterms[first] = nonterms
-			}
-			nonterms[symbol] = true
+	// what is found for one symbol can be needed by any other, so repeat until
+	// nothing more is found
+	for again := true; again; {
+		again = false
+		for _, symbol := range a.NonTerminals() {
+			again = a.firsts(a.set.Symbol(symbol).Idx()) || again
 		}
 	}
 
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
-	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
+// firsts updates what is known about a non-terminal from its productions and
+// returns true if that changed anything.
+func (a *Analytics) firsts(sIdx int) (changed bool) {
+	set := func(flags []bool) {
+		changed = changed || !flags[sIdx]
+		flags[sIdx] = true
 	}
-	a.done[sIdx] = true
-
-	var fs []int
-	nilInFirst := false
-	for i := a.Productions(s).Iter(); i.Next(); {
+	for i := a.Productions(a.set.ByIdx(sIdx)).Iter(); i.Next(); {
 		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
+			set(a.nilInFirst)
 		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
-			symbol := a.set.Symbol(j.Symbol)
-			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
+		isNil := true // everything before j can be empty
+		for j := i.Iter(); j.Next(); {
+			idx := a.set.Symbol(j.Symbol).Idx()
+			if j.Idx == 0 && a.nilInFirst[idx] {
+				set(a.nilInFirst)
+			}
+			if !a.nonterms[idx] {
+				a.Terminals[idx] = true
+				if isNil {
+					changed = a.addFirst(sIdx, idx) || changed
+				}
+			} else if isNil {
+				for _, first := range a.nonterm2firsts[idx] {
+					changed = a.addFirst(sIdx, first) || changed
+				}
 			}
+			isNil = isNil && a.nullable[idx]
+		}
+		if isNil {
+			set(a.nullable)
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	return changed
+}
+
+func (a *Analytics) addFirst(nonterm, first int) bool {
+	if a.first2nonterms[first] == nil {
+		a.first2nonterms[first] = make([]bool, len(a.nonterms))
+	}
+	if a.first2nonterms[first][nonterm] {
+		return false
+	}
+	a.first2nonterms[first][nonterm] = true
+	a.nonterm2firsts[nonterm] = append(a.nonterm2firsts[nonterm], first)
+	return true
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
@@ -100,7 +112,7 @@ func (a *Analytics) Contains(symbol parlex.Symbol) bool {
 		return false
 	}
 	idx := s.Idx()
-	return a.nonterm2firsts[idx] != nil || a.Terminals[idx]
+	return a.nonterms[idx] || a.Terminals[idx]
 }
 
 // NonTerminal returns true if the symbol is a non-terminal in the grammar.
@@ -110,10 +122,10 @@ func (a *Analytics) NonTerminal(symbol parlex.Symbol) bool {
 		return false
 	}
 	idx := s.Idx()
-	if idx >= len(a.nonterm2firsts) {
+	if idx >= len(a.nonterms) {
 		return false
 	}
-	return a.nonterm2firsts[idx] != nil
+	return a.nonterms[idx]
 }
 
 // HasFirst returns true if first could be the first symbol in a tree with root
@@ -127,11 +139,11 @@ func (a *Analytics) HasFirst(symbol parlex.Symbol, first parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	nonterms := a.first2nonterms[f.Idx()]
-	if nonterms == nil {
-		return s.Idx() == f.Idx()
+	if s.Idx() == f.Idx() {
+		return true
 	}
-	return nonterms[s.Idx()]
+	nonterms := a.first2nonterms[f.Idx()]
+	return nonterms != nil && nonterms[s.Idx()]
 }
 
 // HasNilInFirst will return true if it possible to reach an empty production
-- 
2.43.0


From 29d092902061e9377d4ce5b14feb78bfe1e88733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 29/31] fix: simplelexer.String did not escape the slashes of a
 regex

---
 lexer/simplelexer/construct.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lexer/simplelexer/construct.go b/lexer/simplelexer/construct.go
index 5e2254e..564f9b5 100644
--- a/lexer/simplelexer/construct.go
+++ b/lexer/simplelexer/construct.go
@@ -102,6 +102,21 @@ func (l *Lexer) addRule(r *rule) error {
 	return nil
 }
 
+// escapeSlashes escapes the slashes that would otherwise end the regex in a
+// definition.
+func escapeSlashes(re string) string {
+	var out []byte
+	escaped := false
+	for i := 0; i < len(re); i++ {
+		if re[i] == '/' && !escaped {
+			out = append(out, '\\')
+		}
+		escaped = re[i] == '\\' && !escaped
+		out = append(out, re[i])
+	}
+	return string(out)
+}
+
 // String exports the lexer as a string. The output of String can be used to
 // make a copy of the lexer.
 func (l *Lexer) String() string {
@@ -125,7 +140,7 @@ func (l *Lexer) String() string {
 		if re == str {
 			re = ""
 		} else {
-			re = "/" + re + "/"
+			re = "/" + escapeSlashes(re) + "/"
 		}
 		lines[i] = fmt.Sprintf(format, str, re, d)
 	}
-- 
2.43.0


From c9c360ba47b1dc43c490cd63e533373826959736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 30/31] fix: RemoveLeftRecursion returned nil for some grammars
 with cycles

---
 grammar/left_recursion.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index 6c72bfb..0a54a0b 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -19,8 +19,8 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 	out := removeLeftRecursion(grammar)
 	if out == nil {
 		// Left recursion was hidden behind a symbol that can be empty, which can't
-		// happen if there are no empty productions.
-		out = removeLeftRecursion(removeEmptyProductions(grammar))
+		// happen if there are no empty productions and no cycles.
+		out = removeLeftRecursion(removeUnitProductions(removeEmptyProductions(grammar)))
 	}
 	return out
 }
@@ -123,6 +123,31 @@ func (g *Grammar) addNonTerminal(s *setsymbol.Symbol) {
 	g.order = append(g.order, s.Idx())
 }
 
+// removeUnitProductions returns a grammar for the same language in which no
+// production is a single non-terminal, so a non-terminal can't derive itself.
+func removeUnitProductions(grammar *Grammar) *Grammar {
+	out := Empty()
+	out.set.LoadGrammar(grammar)
+	for _, nt := range grammar.NonTerminals() {
+		s := out.set.Symbol(nt)
+		out.addNonTerminal(s)
+		added := make(map[string]bool)
+		var addFrom func(from parlex.Symbol)
+		addFrom = func(from parlex.Symbol) {
+			added[from.String()] = true
+			for i := grammar.Productions(from).Iter(); i.Next(); {
+				if i.Symbols() != 1 || grammar.Productions(i.Symbol(0)) == nil {
+					out.Add(s, i.Production)
+				} else if !added[i.Symbol(0).String()] {
+					addFrom(i.Symbol(0))
+				}
+			}
+		}
+		addFrom(nt)
+	}
+	return out
+}
+
 // removeEmptyProductions returns a grammar for the same language in which only
 // the start symbol may have an empty production, and only if it is not used by
 // any production.
-- 
2.43.0


From 9d5055e60ecff951d32eeaf8b5ec573c969a7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:51 +0000
Subject: [PATCH 31/31] fix: the lexers counted lines from the start of the
 input for every lexeme

---
 lexer/simplelexer/lexer.go | 20 ++++++++++++++++----
 lexer/stacklexer/lex.go    | 30 +++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 141eb52..11c258b 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -64,7 +64,11 @@ type lexOp struct {
 	next     [][]int
 	errFlag  bool
 	errStart int
+	errPos   [2]int
 	cur      int
+	counted  struct {
+		offset, lines, lineStart int
+	}
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -87,6 +91,7 @@ func (l *Lexer) Lex(str string) []parlex.Lexeme {
 			if !op.errFlag {
 				op.errFlag = true
 				op.errStart = op.cur
+				op.errPos = [2]int{lx.L, lx.C}
 			}
 			op.cur++
 		} else {
@@ -117,7 +122,7 @@ func (op *lexOp) checkError() {
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
 	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val).At(op.pos(op.errStart))
+	lxm := lexeme.New(errKind).Set(val).At(op.errPos[0], op.errPos[1])
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -167,8 +172,15 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 	return lx, lxEnd
 }
 
-// pos returns the line and column of an offset into the input
+// pos returns the line and column of an offset into the input. The offset may
+// not be before the one of the last call.
 func (op *lexOp) pos(offset int) (int, int) {
-	before := op.b[:offset]
-	return bytes.Count(before, []byte("\n")), offset - bytes.LastIndexByte(before, '\n')
+	at := &op.counted
+	passed := op.b[at.offset:offset]
+	if nl := bytes.LastIndexByte(passed, '\n'); nl >= 0 {
+		at.lines += bytes.Count(passed, []byte("\n"))
+		at.lineStart = at.offset + nl + 1
+	}
+	at.offset = offset
+	return at.lines, 1 + offset - at.lineStart
 }
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 975eaff..9c21b4f 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -1,10 +1,10 @@
 package stacklexer
 
 import (
+	"bytes"
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/setsymbol"
-	"strings"
 )
 
 type lexOp struct {
@@ -14,11 +14,15 @@ type lexOp struct {
 	lxs   []parlex.Lexeme
 	next  [][]int // next match [kind.Idx]
 	err   struct {
-		flag  bool
-		start int
-		kind  *setsymbol.Symbol
+		flag      bool
+		start     int
+		line, col int
+		kind      *setsymbol.Symbol
+	}
+	cur     int
+	counted struct {
+		offset, lines, lineStart int
 	}
-	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -144,10 +148,17 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 	return lx, offset + idx[1], r
 }
 
-// pos returns the line and column of an offset into the input
+// pos returns the line and column of an offset into the input. The offset may
+// not be before the one of the last call.
 func (op *lexOp) pos(offset int) (int, int) {
-	before := string(op.b[:offset])
-	return 1 + strings.Count(before, "\n"), offset - strings.LastIndex(before, "\n")
+	at := &op.counted
+	passed := op.b[at.offset:offset]
+	if nl := bytes.LastIndexByte(passed, '\n'); nl >= 0 {
+		at.lines += bytes.Count(passed, []byte("\n"))
+		at.lineStart = at.offset + nl + 1
+	}
+	at.offset = offset
+	return 1 + at.lines, 1 + offset - at.lineStart
 }
 
 func (op *lexOp) checkError() {
@@ -156,7 +167,7 @@ func (op *lexOp) checkError() {
 	}
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
-	lx := lexeme.New(op.err.kind).Set(val).At(op.pos(op.err.start))
+	lx := lexeme.New(op.err.kind).Set(val).At(op.err.line, op.err.col)
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
@@ -186,4 +197,5 @@ func (op *lexOp) setError() {
 	}
 	op.err.flag = true
 	op.err.start = op.cur
+	op.err.line, op.err.col = op.pos(op.cur)
 }
-- 
2.43.0

