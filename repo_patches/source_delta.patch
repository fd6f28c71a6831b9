From 8141fae019a120ab909bc5d07c0b251103e9de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 01/76] fix: don't swallow a sign that follows the digits of a
 number or numeric variable

---
 parser/lexer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..4a27721 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -957,6 +957,10 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		// Digits of an exponent
+		ctx.skipSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -965,6 +969,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -978,13 +983,16 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// Skips the optional sign of an exponent
+func (ctx *context) skipSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From b5839a647deb37de23d6207352866f173f0f5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 02/76] fix: report numbers that are out of range instead of
 silently clamping them

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 35 +++++++++++++++++++++++++++++------
 parser/parser.go |  7 ++++---
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..8e79ee0 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number '%{number}' is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 4a27721..2a61f27 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -319,6 +319,7 @@ type context struct {
 	tokenStartPos         int
 	tokenValue            interface{}
 	radix                 int
+	negative              bool // true when the next token is a number that is subject to negation
 	factory               ExpressionFactory
 	nameStack             []string
 	definitions           []Definition
@@ -366,8 +367,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
-		ctx.settokenValue(tokenInteger, v)
+		ctx.settokenValue(tokenInteger, ctx.parseInteger(start, start, 10))
 		ctx.radix = 10
 
 	case 'A' <= c && c <= 'Z':
@@ -673,7 +673,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.parseInteger(start+1, start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -701,7 +701,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.parseInteger(start, hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -720,7 +720,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.parseInteger(start, octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -979,10 +979,33 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		panic(ctx.numberOutOfRange(start))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// parseInteger converts the digits found between digitsStart and the current position to an integer. The start
+// is the position where the literal, including its radix prefix, starts
+func (ctx *context) parseInteger(start, digitsStart, radix int) int64 {
+	digits := ctx.From(digitsStart)
+	if ctx.negative {
+		digits = `-` + digits
+	}
+	v, err := strconv.ParseInt(digits, radix, 64)
+	if err != nil {
+		panic(ctx.numberOutOfRange(start))
+	}
+	return v
+}
+
+func (ctx *context) numberOutOfRange(start int) issue.Reported {
+	number := ctx.From(start)
+	ctx.SetPos(start)
+	return ctx.parseIssue2(lexNumberOutOfRange, issue.H{`number`: number})
+}
+
 // Skips the optional sign of an exponent
 func (ctx *context) skipSign() {
 	if c, n := ctx.Peek(); c == '-' || c == '+' {
diff --git a/parser/parser.go b/parser/parser.go
index d786464..abcc819 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.negative = false
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
@@ -654,10 +655,10 @@ func (ctx *context) unaryExpression() Expression {
 	switch ctx.currentToken {
 	case tokenSubtract:
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
+			ctx.negative = true
 			ctx.nextToken()
-			if ctx.currentToken == tokenInteger {
-				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(int64))
-			} else {
+			ctx.negative = false
+			if ctx.currentToken == tokenFloat {
 				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(float64))
 			}
 			expr := ctx.primaryExpression()
-- 
2.43.0


From 7fe158d944b9d478bfb00adbaed9ecaab50e4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 03/76] fix: retain leading and trailing zeroes in numeric
 segments of a node name

---
 parser/parser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index abcc819..9ba26c2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/lyraproj/issue/issue"
@@ -1729,10 +1728,9 @@ func (ctx *context) dottedName() Expression {
 		switch ctx.currentToken {
 		case tokenIdentifier, tokenTypeName:
 			names = append(names, ctx.tokenString())
-		case tokenInteger:
-			names = append(names, strconv.FormatInt(ctx.tokenValue.(int64), 10))
-		case tokenFloat:
-			names = append(names, strconv.FormatFloat(ctx.tokenValue.(float64), 'g', -1, 64))
+		case tokenInteger, tokenFloat:
+			// Use the text of the token. The value cannot represent leading or trailing zeroes
+			names = append(names, ctx.From(ctx.tokenStartPos))
 		default:
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
-- 
2.43.0


From de25b3e2198e81f880d2da7a3246e87657a817f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 04/76] fix: retain zeroes that end the exponent of a formatted
 float

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..20c7c76 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From a4ca472fcbdfe7ca4d2437132fda9b754ebb5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 05/76] fix: represent an issue code as a string literal in PN

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 20c7c76..bdc1fb6 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -82,7 +82,7 @@ var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
 	return Map([]Entry{
-		Literal(ri.Code()).WithName(`code`),
+		Literal(string(ri.Code())).WithName(`code`),
 		Literal(ri.Severity().String()).WithName(`severity`),
 		Literal(ri.Error()).WithName(`message`)})
 }
-- 
2.43.0


From b367d78b24efa30061e2de61380e49bbc9ac2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 06/76] fix: accept a valid U+FFFD character in the source

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..1c9ad73 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From e183b7541cf41f1c6184f0c9d3cefe81378f621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 07/76] fix: don't panic when finding the line of an error in
 source with invalid characters

---
 parser/expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..effb030 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -583,11 +583,11 @@ func (e *Locator) PosOnLine(offset int) int {
 
 func (e *Locator) getLineIndex() []int {
 	if e.lineIndex == nil {
+		// Index bytes rather than characters. The source might contain invalid characters
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-- 
2.43.0


From 60e52a1fb0dd1710ed538d474b179e957f2453f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 08/76] fix: synchronize the lazy creation of the line index

---
 parser/expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index effb030..a89e418 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -327,6 +328,7 @@ type (
 	Locator struct {
 		string    string
 		file      string
+		indexOnce sync.Once
 		lineIndex []int
 	}
 
@@ -582,7 +584,8 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	// Expressions that share the locator can be read concurrently
+	e.indexOnce.Do(func() {
 		// Index bytes rather than characters. The source might contain invalid characters
 		li := append(make([]int, 0, 32), 0)
 		for i := 0; i < len(e.string); i++ {
@@ -591,7 +594,7 @@ func (e *Locator) getLineIndex() []int {
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0


From 39fde385364654574bcfc05516235c57420a410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 09/76] fix: don't let a NUL character silently end the source

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 9ba26c2..50ac21b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -184,6 +184,12 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 		}
 	}()
 
+	if i := strings.IndexByte(source, 0); i >= 0 {
+		// The lexer uses zero to denote end of source. A NUL must hence not pass as a silent end of it
+		ctx.SetPos(i)
+		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `\0`}))
+	}
+
 	if ctx.eppMode {
 		ctx.consumeEPP()
 
-- 
2.43.0


From fd20ef9f9b700ba0742bf0e4643707abdad0108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 10/76] fix: don't let state from a failed parse affect the
 next parse

---
 parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 50ac21b..e4bd402 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,13 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.nextLineStart = -1
 	ctx.negative = false
 
+	// Don't inherit state from a previous, possibly failed, parse
+	ctx.currentToken = tokenEnd
+	ctx.tokenValue = nil
+	ctx.tokenStartPos = 0
+	ctx.beginningOfLine = 0
+	ctx.nameStack = nil
+
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
 		expr = ctx.factory.Program(expr, ctx.definitions, ctx.locator, 0, ctx.Pos())
-- 
2.43.0


From 0edf0f15f2d47aaa9ecc29a02897f9ed155fa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 11/76] fix: retain the white space that follows the first
 token of a block

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e4bd402..dbf891e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -256,8 +256,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From b6603302f244896b77aed395025f720823f4a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 12/76] fix: accept an empty collector query in validation

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..a22298d 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -449,7 +449,7 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 }
 
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
-	if e.Expr() != nil {
+	if e.Expr() != nil && !e.Expr().IsNop() {
 		v.checkQuery(e.Expr())
 	}
 }
-- 
2.43.0


From 66afe980a3736f139cdab9ec4b8cbd7e6d08e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 13/76] fix: report extraneous comma also when the last
 statement is a statement call

---
 parser/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dbf891e..93f1cfb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -322,7 +322,8 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
-				return
+				memo = nil
+				break
 			}
 			memo = exprs[idx]
 		} else {
@@ -333,10 +334,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			memo = expr
 		}
 	}
-	if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
-		cnFunc.rvalRequired = false
+	if memo != nil {
+		if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
+			cnFunc.rvalRequired = false
+		}
+		result = append(result, memo)
 	}
-	result = append(result, memo)
 	for _, ex := range result {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
-- 
2.43.0


From 1169df8c7fd9788521f37566a9c1874282292925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 14/76] fix: don't panic when a type alias hash is followed by
 an operator

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 93f1cfb..87eb79f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1232,7 +1232,8 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				// Must be the hash only since that's what's included in the body of the alias
+				hash := ctx.atomExpression().(*LiteralHash)
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From ec9d1089eb2e181d6cd8921ee6192621e36623ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 15/76] fix: don't panic on, or confuse, literal arrays and
 hashes used as hash keys

---
 literal/literal.go   |  8 +++++++-
 validator/checker.go | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..2d7a8af 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Cannot be represented as a key in a Go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
diff --git a/validator/checker.go b/validator/checker.go
index a22298d..0086d8e 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -74,6 +74,9 @@ var ReservedParameters = map[string]bool{
 	`title`: true,
 }
 
+// compositeKey represents the literal array or hash used as a key in a hash
+type compositeKey string
+
 type basicChecker struct {
 	AbstractValidator
 }
@@ -395,9 +398,10 @@ func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 	for _, entry := range e.Entries() {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
-			switch key.(type) {
-			case *parser.LiteralList, *parser.LiteralHash:
-				literalKey = key.ToPN().String()
+			switch literalKey.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not hashable. Use a type that is distinct from the type of a string key
+				literalKey = compositeKey(key.ToPN().String())
 			}
 			if _, ok = unique[literalKey]; ok {
 				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
-- 
2.43.0


From b71d7281f20d8c8e5596e2852de6a02d64f8ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 16/76] fix: don't confuse a type or regexp hash key with a
 string key

---
 validator/checker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 0086d8e..002177e 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -74,7 +74,7 @@ var ReservedParameters = map[string]bool{
 	`title`: true,
 }
 
-// compositeKey represents the literal array or hash used as a key in a hash
+// compositeKey represents a literal key for which the type must be distinct from that of a string
 type compositeKey string
 
 type basicChecker struct {
@@ -398,9 +398,9 @@ func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 	for _, entry := range e.Entries() {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
-			switch literalKey.(type) {
-			case []interface{}, map[interface{}]interface{}:
-				// Not hashable. Use a type that is distinct from the type of a string key
+			switch key.(type) {
+			case *parser.LiteralList, *parser.LiteralHash, *parser.RegexpExpression, *parser.QualifiedReference:
+				// Not hashable, or a literal that isn't equal to the string that represents it
 				literalKey = compositeKey(key.ToPN().String())
 			}
 			if _, ok = unique[literalKey]; ok {
-- 
2.43.0


From f0facb9e8028fac4fbcf7e5563b6ca7b052b42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 17/76] fix: don't panic when creating the PN for a parameter
 with a qualified name

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index bdc1fb6..810a65b 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -77,7 +77,7 @@ type (
 	}
 )
 
-var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
+var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-Za-z_-]+)*$`)
 
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
-- 
2.43.0


From 81447fe28959157e745b0baf2c0decbeca5b2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 18/76] fix: report a parameter without name instead of failing
 to create its PN

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 87eb79f..1b4f152 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1791,7 +1791,7 @@ func (ctx *context) parameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
@@ -1835,7 +1835,7 @@ func (ctx *context) returnParameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
-- 
2.43.0


From 2795ce00f1cfb920626a7d0a2c254a76c7953e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 19/76] fix: retain the end of a pending heredoc when peeking
 beyond a pipe

---
 parser/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2a61f27..f70a95f 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -630,9 +630,11 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
+					// Just a peek. The state that is altered when skipping past a newline must be restored
+					pos, nextLineStart, beginningOfLine := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine
 					n, _ := ctx.skipWhite(false)
 					ctx.SetPos(pos)
+					ctx.nextLineStart, ctx.beginningOfLine = nextLineStart, beginningOfLine
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
-- 
2.43.0


From 58553ae6c23cdad12e193df006e0b2f1690cb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 20/76] fix: locations of interpolated strings and the
 expressions that they contain

---
 parser/lexer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f70a95f..b14d192 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -562,6 +562,7 @@ func (ctx *context) nextToken() {
 			} else if c == '(' {
 				ctx.Advance(sz)
 				ctx.consumeHeredocString()
+				ctx.tokenStartPos = start // altered by interpolation
 			} else {
 				ctx.setToken(tokenAt)
 			}
@@ -647,6 +648,7 @@ func (ctx *context) nextToken() {
 
 		case '"':
 			ctx.consumeDoubleQuotedString()
+			ctx.tokenStartPos = start // altered by interpolation
 
 		case '\'':
 			ctx.consumeSingleQuotedString()
@@ -1053,12 +1055,12 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 
 			default:
 				handler(buf, ctx, ec)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 			}
 
@@ -1073,7 +1075,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			fallthrough
 		default:
 			buf.WriteRune(ec)
-			ec, _ = ctx.Next()
+			ec, start = ctx.Next()
 		}
 	}
 }
@@ -1180,7 +1182,7 @@ func (ctx *context) handleInterpolation(start int, segments []Expression, buf *b
 	buf.Reset()
 
 	if precedingString != `` {
-		segments = append(segments, ctx.factory.String(precedingString, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
+		segments = append(segments, ctx.factory.String(precedingString, ctx.locator, ctx.tokenStartPos, start-ctx.tokenStartPos))
 	}
 	segments = append(segments, ctx.interpolate(start))
 	ctx.tokenStartPos = ctx.Pos()
@@ -1567,10 +1569,11 @@ findEndOfText:
 		if quoteStart >= 0 && ctx.factory != nil {
 			segments = make([]Expression, 0, 4)
 		}
+		ctx.tokenStartPos = heredocContentStart // start of first segment
 		heredoc, segments = ctx.applyEscapes(heredocContentEnd, indentStrip, flags, segments)
 		if len(segments) > 0 {
 			if len(heredoc) > 0 {
-				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
+				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, heredocContentEnd-ctx.tokenStartPos))
 			}
 			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
 			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
-- 
2.43.0


From 58ed283e8306ee991d5716856699dd543ab77265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 21/76] fix: let the location of a string that starts with an
 interpolation be the location of its quote

---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index b14d192..bf9e21c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1283,7 +1283,8 @@ func (ctx *context) consumeDoubleQuotedString() {
 	if ctx.factory != nil {
 		segments = make([]Expression, 0, 4)
 	}
-	segments = ctx.consumeDelimitedString('"', ctx.Pos()-1, segments,
+	start := ctx.Pos() - 1
+	segments = ctx.consumeDelimitedString('"', start, segments,
 		func(buf *bytes.Buffer, ctx *context, ec rune) {
 			switch ec {
 			case '\\', '\'':
@@ -1329,14 +1330,13 @@ func (ctx *context) consumeDoubleQuotedString() {
 	} else {
 		segments = append(segments, ctx.factory.String(ctx.tokenValue.(string), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 	}
-	firstPos := segments[0].ByteOffset()
 	if len(segments) == 1 {
 		if _, ok := segments[0].(*LiteralString); ok {
 			// Avoid turning a single string literal into a concatenated string
 			return
 		}
 	}
-	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, firstPos, ctx.Pos()-firstPos))
+	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, start, ctx.Pos()-start))
 }
 
 func (ctx *context) consumeSingleQuotedString() {
-- 
2.43.0


From d05744b86732b088ffa9e59142e59fb8e94e7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 22/76] fix: report an interpolation that extends beyond the
 end of its heredoc

---
 parser/lexer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index bf9e21c..80b12ac 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1623,6 +1623,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 		if c != '\\' {
 			if c == '$' && segments != nil {
 				segments = ctx.handleInterpolation(start, segments, bld)
+				ctx.assertInterpolationEnd(start, end)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
@@ -1654,6 +1655,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 			bld.WriteRune('\\')
 			if c == '$' && segments != nil {
 				segments = ctx.handleInterpolation(start, segments, bld)
+				ctx.assertInterpolationEnd(start, end)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
@@ -1684,6 +1686,14 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 	return
 }
 
+// assertInterpolationEnd ensures that an interpolation that starts in heredoc text also ends there
+func (ctx *context) assertInterpolationEnd(start, end int) {
+	if ctx.Pos() > end {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexMalformedInterpolation))
+	}
+}
+
 func (ctx *context) stripIndent(indentStrip int) {
 	start := ctx.Pos()
 	for indentStrip > 0 {
-- 
2.43.0


From 04dd177565a1069015bdfcae1c30e60971587733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 23/76] fix: don't position beyond the end of source when it is
 also the end of a heredoc

---
 parser/lexer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 80b12ac..526a604 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1546,6 +1546,9 @@ findEndOfText:
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
 				heredocEnd = n
+				if c == '\n' {
+					heredocEnd++
+				}
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
 					if suppressLastNL {
@@ -1576,7 +1579,7 @@ findEndOfText:
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, heredocContentEnd-ctx.tokenStartPos))
 			}
 			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.nextLineStart = heredocEnd // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1587,7 +1590,7 @@ findEndOfText:
 	}
 
 	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.nextLineStart = heredocEnd // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From ad47df2a74954ef7cc84e49b1161f6bd14189101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 24/76] fix: interpolation of variables that are numeric, named
 by a keyword, or followed by a dash

---
 parser/lexer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 526a604..c89f8a2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1224,16 +1224,19 @@ func (ctx *context) interpolate(start int) Expression {
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
 
-	// Not delimited by curly braces. Must be a single identifier then
-	ctx.setToken(tokenVariable)
-	if c == ':' || isLowercaseLetter(c) || isDecimalDigit(c) {
-		ctx.nextToken()
-	}
-	if ctx.currentToken != tokenIdentifier {
+	// Not delimited by curly braces. Must be a single variable then
+	if !(c == ':' || isLowercaseLetter(c) || isDecimalDigit(c)) {
 		ctx.SetPos(start)
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
-	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
+	ctx.SetPos(start)
+	ctx.nextToken()
+	var textExpr Expression
+	if name, ok := ctx.tokenValue.(string); ok {
+		textExpr = ctx.factory.QualifiedName(name, ctx.locator, start+1, ctx.Pos()-(start+1))
+	} else {
+		textExpr = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, start+1, ctx.Pos()-(start+1))
+	}
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-- 
2.43.0


From fd84c3c7e34aff28e2d1ae6f9b1dc2818f98ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 25/76] fix: locations of workflow steps and their contents

---
 parser/parser.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1b4f152..bc3dbe1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -453,7 +453,7 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
@@ -1156,12 +1156,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1315,7 +1315,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1325,7 +1325,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1419,7 +1419,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1467,16 +1467,16 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
+			pl := ctx.Pos() - ps
 			ctx.nextToken()
-			vs := ctx.Pos()
-			pl := ps - vs
+			vs := ctx.tokenStartPos
 			iterVars := ctx.lambdaParameterList()
-			ctx.nextToken()
 			vl := ctx.Pos() - vs
 			fn := ctx.Pos() - fs
+			ctx.nextToken()
 			iter := f.Hash(
 				[]Expression{
 					f.KeyedEntry(
@@ -1523,7 +1523,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			ctx.nextToken()
 			entries := ctx.stateHash(hstart)
 			if len(entries) > 0 {
-				block = ctx.factory.Hash(entries, ctx.locator, start, ctx.Pos()-start).(*LiteralHash)
+				block = ctx.factory.Hash(entries, ctx.locator, hstart, ctx.Pos()-hstart).(*LiteralHash)
 			}
 			ctx.nextToken()
 		}
@@ -1846,7 +1846,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From dd6a9058a000795a823d44e07ad241a834eb013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 26/76] fix: don't skip tokens that are not the parenthesis or
 pipe expected in a workflow step

---
 parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index bc3dbe1..024ab7b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -285,6 +285,12 @@ func (ctx *context) assertToken(token int) {
 	}
 }
 
+func (ctx *context) assertLp() {
+	if ctx.currentToken != tokenWslp {
+		ctx.assertToken(tokenLp)
+	}
+}
+
 func (ctx *context) tokenString() string {
 	if ctx.tokenValue == nil {
 		return tokenMap[ctx.currentToken]
@@ -1332,11 +1338,13 @@ func (ctx *context) stepProperty() Expression {
 	case `parameters`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertLp()
 		value = ctx.factory.Array(ctx.parameterList(), ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
 	case `returns`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertLp()
 		params := ctx.returnParameters()
 		value = ctx.factory.Array(params, ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
@@ -1469,10 +1477,12 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			fs := ctx.tokenStartPos
 			ctx.nextToken()
 			ps := ctx.tokenStartPos
+			ctx.assertLp()
 			iterParams := ctx.parameterList()
 			pl := ctx.Pos() - ps
 			ctx.nextToken()
 			vs := ctx.tokenStartPos
+			ctx.assertToken(tokenPipe)
 			iterVars := ctx.lambdaParameterList()
 			vl := ctx.Pos() - vs
 			fn := ctx.Pos() - fs
-- 
2.43.0


From 7dad871ca4bf6594b4f18d6fa7b06659dc6d3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 27/76] fix: don't panic on a numeric variable in the iteration
 of a workflow step

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 024ab7b..4bbf5d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1462,7 +1462,11 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok || iterName == `` {
+			ctx.SetPos(ctx.tokenStartPos)
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From 5ee1c78e8b1c5fe2b8db0e6fcbdacde66ea7c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 28/76] fix: don't scan a token twice when the name of a
 workflow style isn't the start of a step

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 4bbf5d3..fa2213e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -465,8 +465,12 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					// Not a step. Parsing continues after current token
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From cb3277e496c7edfbbb1e2f8a74d2f833b4cced9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 29/76] fix: allow all kinds of statements in an EPP template
 without parameters

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index fa2213e..e61d69f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -246,7 +246,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
 				return
 			}
-			expressions = append(expressions, ctx.expression())
+			expressions = append(expressions, ctx.syntacticStatement())
+			if ctx.currentToken == tokenSemicolon {
+				ctx.nextToken()
+			}
 		}
 	}
 
-- 
2.43.0


From f4aa0062c88face2887edf209cec5cb5fcc51d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 30/76] fix: report an EPP tag that isn't closed

---
 parser/issues.go | 2 ++
 parser/lexer.go  | 6 ++++++
 parser/parser.go | 1 +
 3 files changed, 9 insertions(+)

diff --git a/parser/issues.go b/parser/issues.go
index 8e79ee0..8a7f30c 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -24,6 +24,7 @@ const (
 	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
+	lexUnbalancedEppTag             = `LEX_UNBALANCED_EPP_TAG`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
 	lexUnterminatedComment          = `LEX_UNTERMINATED_COMMENT`
 	lexUnterminatedString           = `LEX_UNTERMINATED_STRING`
@@ -78,6 +79,7 @@ func init() {
 	issue.Hard(lexNumberOutOfRange, `number '%{number}' is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
+	issue.Hard(lexUnbalancedEppTag, `unbalanced epp tag, reached end of source without closing tag`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
 	issue.Hard(lexUnterminatedComment, `unterminated /* */ comment`)
 	issue.Hard(lexUnterminatedString, `unterminated %{string_type} quoted string`)
diff --git a/parser/lexer.go b/parser/lexer.go
index c89f8a2..51b5271 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -313,6 +313,7 @@ type context struct {
 	handleHexEscapes      bool
 	tasks                 bool
 	workflow              bool
+	eppTextEnd            bool // true when the end of source was found in EPP text
 	nextLineStart         int
 	currentToken          int
 	beginningOfLine       int
@@ -379,6 +380,9 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			if ctx.eppMode && !ctx.eppTextEnd {
+				panic(ctx.parseIssue(lexUnbalancedEppTag))
+			}
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1083,6 +1087,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 func (ctx *context) consumeEPP() {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
+	ctx.eppTextEnd = false
 	var sz int
 	for ec, start := ctx.Next(); ec != 0; ec, start = ctx.Next() {
 		switch ec {
@@ -1164,6 +1169,7 @@ func (ctx *context) consumeEPP() {
 			lastNonWS = buf.Len()
 		}
 	}
+	ctx.eppTextEnd = true
 	if buf.Len() == 0 {
 		ctx.setToken(tokenEnd)
 	} else {
diff --git a/parser/parser.go b/parser/parser.go
index e61d69f..e270b45 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -171,6 +171,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.tokenStartPos = 0
 	ctx.beginningOfLine = 0
 	ctx.nameStack = nil
+	ctx.eppTextEnd = false
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From 3e07df2bc5571f91eeae65a8754acda9cd998142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 31/76] fix: don't let the simple lexer restart when it finds a
 newline

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index e270b45..fb71612 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -88,6 +88,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 	return &lexer{context{
 		stringReader:          stringReader{text: source},
 		factory:               nil,
+		nextLineStart:         -1,
 		locator:               &Locator{string: source, file: filename},
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
-- 
2.43.0


From 944fc7c7f02e40968e554c1bf1a8b547a6f5b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 32/76] fix: report a hexadecimal escape that doesn't start
 with a hexadecimal digit

---
 parser/lexer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 51b5271..1c32dfc 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1723,10 +1723,9 @@ func (ctx *context) stripIndent(indentStrip int) {
 
 func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
-	d, start := ctx.Next()
-	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
+	start := ctx.Pos()
+	for i := 0; i < 2; i++ {
+		if d, _ := ctx.Next(); !isHexDigit(d) {
 			ctx.SetPos(start - 2)
 			panic(ctx.parseIssue(lexMalformedHexEscape))
 		}
-- 
2.43.0


From 16fd069c65bba160ff73ab4609e0436e6da08850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 33/76] fix: include the name of the parameter in the message
 for an unsupported captures rest

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 002177e..eb5509f 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -671,7 +671,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From 00450dbadb4ee0b2ac1a9ad45bc9e2227ef1e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 34/76] fix: add missing labels for lambda, parenthesized
 expression, and plan

---
 parser/label.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..5b46bbc 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -33,6 +33,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
@@ -49,6 +50,8 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
+func (e *PlanDefinition) Label() string              { return "Plan Definition" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
-- 
2.43.0


From 68855bee6dfb4084a08d2d12b73a32b742664c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 35/76] fix: let the path of expressions found in a plan
 include the plan

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index a89e418..aefb2f4 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1575,6 +1575,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From bb24464c10862413a57597ab3f67932f03b33aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 36/76] fix: validate the definition of a plan

---
 validator/checker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index eb5509f..129c321 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -108,6 +108,7 @@ type Checker interface {
 	checkNamedDefinition(e parser.NamedDefinition)
 	checkNodeDefinition(e *parser.NodeDefinition)
 	checkParameter(e *parser.Parameter)
+	checkPlanDefinition(e *parser.PlanDefinition)
 	checkQueryExpression(e parser.QueryExpression)
 	checkRelationshipExpression(e *parser.RelationshipExpression)
 	checkReservedWord(e *parser.ReservedWord)
@@ -177,6 +178,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkNodeDefinition(e)
 	case *parser.Parameter:
 		v.checkParameter(e)
+	case *parser.PlanDefinition:
+		v.checkPlanDefinition(e)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
 	case *parser.ReservedWord:
@@ -452,6 +455,12 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 	}
 }
 
+func (v *basicChecker) checkPlanDefinition(e *parser.PlanDefinition) {
+	v.checkNamedDefinition(e)
+	v.checkCaptureLast(e, e.Parameters())
+	v.checkReturnType(e, e.ReturnType())
+}
+
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
 	if e.Expr() != nil && !e.Expr().IsNop() {
 		v.checkQuery(e.Expr())
-- 
2.43.0


From c1eea804d37ca99b22a8d79fbd4047fa5605f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 37/76] fix: find the text of a heredoc when its first line
 ends with a division or comment

---
 parser/lexer.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1c32dfc..8ed2750 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1481,16 +1481,18 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
-			n = ctx.Pos()
-			ctx.Advance(sz)
-			c, _ = ctx.Next()
-			if c == '*' {
-				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+			if tc, _ := ctx.PeekAt(ctx.Pos() + sz); tc == '*' {
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n) // just after comment
+			} else {
+				ctx.Advance(sz)
 			}
+			c, sz = ctx.Peek()
 
 		case '\n':
 			if ctx.nextLineStart >= 0 {
-- 
2.43.0


From 714d9726885c40342b4125a80f52215c09fc1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 38/76] fix: report invalid unicode from the parser validator
 instead of panicking

---
 validator/issues.go    | 3 +++
 validator/validator.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..8bfb790 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -39,6 +39,7 @@ const (
 	ValidateReservedParameter               = `VALIDATE_RESERVED_PARAMETER`
 	ValidateReservedTypeName                = `VALIDATE_RESERVED_TYPE_NAME`
 	ValidateReservedWord                    = `VALIDATE_RESERVED_WORD`
+	ValidateUnreadableSource                = `VALIDATE_UNREADABLE_SOURCE`
 	ValidateUnsupportedExpression           = `VALIDATE_UNSUPPORTED_EXPRESSION`
 	ValidateUnsupportedOperatorInContext    = `VALIDATE_UNSUPPORTED_OPERATOR_IN_CONTEXT`
 	ValidateWorkflowOperationNotSupported   = `VALIDATE_WORKFLOW_OPERATION_NOT_SUPPORTED`
@@ -142,6 +143,8 @@ func init() {
 
 	issue.Hard(ValidateReservedWord, `Use of reserved word: %{word}, must be quoted if intended to be a String value`)
 
+	issue.Hard(ValidateUnreadableSource, `%{message}`)
+
 	issue.Hard2(ValidateUnsupportedExpression,
 		`Expressions of type %{expression} are not supported in this version of Puppet`,
 		issue.HF{`expression`: issue.AnOrA})
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..9ec3152 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -176,7 +176,9 @@ func (pv *parserValidator) Parse(filename string, source string) (parser.Express
 		if i, ok := err.(issue.Reported); ok {
 			return nil, issue.NewResult([]issue.Reported{i})
 		}
-		panic(err.Error())
+		// Not possible to tokenize the source, e.g. invalid unicode
+		return nil, issue.NewResult([]issue.Reported{
+			issue.NewReported(ValidateUnreadableSource, issue.SeverityError, issue.H{`message`: err.Error()}, issue.NewLocation(filename, 0, 0))})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From defb9384d248e805370da18d2e453ef3b802080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 39/76] fix: don't lose lexer state, or parse twice, when a
 resource expression has no title

---
 parser/parser.go | 110 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 84 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fb71612..a21ffd8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -367,12 +367,17 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 }
 
 func (ctx *context) expressions(endToken int, producerFunc func() Expression) (exprs []Expression) {
-	exprs = make([]Expression, 0, 4)
+	if ctx.currentToken == endToken {
+		return make([]Expression, 0)
+	}
+	return ctx.expressionsAfter(producerFunc(), endToken, producerFunc)
+}
+
+// expressionsAfter continues a comma separated list where the first expression has already been parsed
+func (ctx *context) expressionsAfter(first Expression, endToken int, producerFunc func() Expression) (exprs []Expression) {
+	exprs = make([]Expression, 1, 4)
+	exprs[0] = first
 	for {
-		if ctx.currentToken == endToken {
-			return
-		}
-		exprs = append(exprs, producerFunc())
 		if ctx.currentToken != tokenComma {
 			if ctx.currentToken != endToken {
 				ctx.SetPos(ctx.tokenStartPos)
@@ -383,6 +388,10 @@ func (ctx *context) expressions(endToken int, producerFunc func() Expression) (e
 			return
 		}
 		ctx.nextToken()
+		if ctx.currentToken == endToken {
+			return
+		}
+		exprs = append(exprs, producerFunc())
 	}
 }
 
@@ -436,7 +445,11 @@ func (ctx *context) handleKeyword(next func() Expression) (expr Expression) {
 }
 
 func (ctx *context) relationship() (expr Expression) {
-	expr = ctx.assignment()
+	return ctx.relationshipOf(ctx.assignment())
+}
+
+func (ctx *context) relationshipOf(lhs Expression) (expr Expression) {
+	expr = lhs
 	for {
 		switch ctx.currentToken {
 		case tokenInEdge, tokenInEdgeSub, tokenOutEdge, tokenOutEdgeSub:
@@ -450,7 +463,11 @@ func (ctx *context) relationship() (expr Expression) {
 }
 
 func (ctx *context) assignment() (expr Expression) {
-	expr = ctx.step()
+	return ctx.assignmentOf(ctx.step())
+}
+
+func (ctx *context) assignmentOf(lhs Expression) (expr Expression) {
+	expr = lhs
 	for {
 		switch ctx.currentToken {
 		case tokenAssign, tokenAddAssign, tokenSubtractAssign:
@@ -465,7 +482,10 @@ func (ctx *context) assignment() (expr Expression) {
 
 func (ctx *context) step() (expr Expression) {
 	start := ctx.tokenStartPos
-	expr = ctx.resource()
+	return ctx.stepOf(start, ctx.resource())
+}
+
+func (ctx *context) stepOf(start int, expr Expression) Expression {
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
@@ -480,15 +500,18 @@ func (ctx *context) step() (expr Expression) {
 			}
 		}
 	}
-	return
+	return expr
 }
 
 func (ctx *context) resource() (expr Expression) {
-	expr = ctx.expression()
+	return ctx.resourceOf(ctx.expression())
+}
+
+func (ctx *context) resourceOf(expr Expression) Expression {
 	if ctx.currentToken == tokenLc {
 		expr = ctx.resourceExpression(expr.ByteOffset(), expr, REGULAR)
 	}
-	return
+	return expr
 }
 
 func (ctx *context) expression() (expr Expression) {
@@ -666,7 +689,10 @@ func (ctx *context) arrayExpression() (elements []Expression) {
 }
 
 func (ctx *context) keyedEntry() Expression {
-	key := ctx.hashEntry()
+	return ctx.keyedEntryOf(ctx.hashEntry())
+}
+
+func (ctx *context) keyedEntryOf(key Expression) Expression {
 	if ctx.currentToken != tokenFarrow {
 		panic(ctx.parseIssue(parseExpectedFarrowAfterKey))
 	}
@@ -1005,18 +1031,31 @@ func (ctx *context) caseOption() Expression {
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
 	ctx.nextToken()
-	titleStart := ctx.Pos()
+	titleStart := ctx.tokenStartPos
+	titleToken, titleValue, titleEnd := ctx.currentToken, ctx.tokenValue, ctx.Pos()
+	nextLineStart, beginningOfLine := ctx.nextLineStart, ctx.beginningOfLine
 	var firstTitle Expression
 
-	// First attribute might be a * => operator. No attempt should be made
-	// to read it as an expression.
-	if ctx.currentToken != tokenMultiply {
+	// The body might be empty, and the first attribute might be a * => operator or have a name that isn't
+	// an expression. No attempt should be made to read those as an expression.
+	if !(ctx.currentToken == tokenRc || ctx.currentToken == tokenMultiply || ctx.isAttribute()) {
 		firstTitle = ctx.expression()
 	}
 
+	assertNoTitle := func() {
+		if firstTitle != nil {
+			// What was parsed isn't the name of an attribute. Report the same error as for subsequent attributes
+			ctx.SetPos(titleEnd)
+			ctx.nextLineStart, ctx.beginningOfLine = nextLineStart, beginningOfLine
+			ctx.tokenStartPos = titleStart
+			ctx.settokenValue(titleToken, titleValue)
+			ctx.attributeName()
+			panic(ctx.parseIssue(parseInvalidAttribute))
+		}
+	}
+
 	if ctx.currentToken != tokenColon {
 		// Resource body without title
-		ctx.SetPos(titleStart)
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
@@ -1027,12 +1066,16 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			if ok {
 				name = fqn.name
 				if _, ok := statementCalls[name]; ok {
-					// Handle the call here and set lexer position to where the next expression (the one starting
-					// with a curly brace) starts.
+					// Handle the call here. What's been parsed so far is the start of the first key in the hash
+					var entries []Expression
+					if firstTitle == nil {
+						entries = ctx.hashExpression()
+					} else {
+						key := ctx.relationshipOf(ctx.assignmentOf(ctx.stepOf(titleStart, ctx.resourceOf(firstTitle))))
+						entries = ctx.expressionsAfter(ctx.keyedEntryOf(key), tokenRc, ctx.keyedEntry)
+					}
 					args := make([]Expression, 1)
-					ctx.SetPos(bodiesStart)
-					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
+					args[0] = ctx.factory.Hash(entries, ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
 					ctx.nextToken()
 					return
@@ -1041,13 +1084,11 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			ctx.SetPos(start)
 			panic(ctx.parseIssue2(parseResourceWithoutTitle, issue.H{`name`: name}))
 		case `defaults`:
-			ctx.SetPos(bodiesStart)
-			ctx.nextToken()
+			assertNoTitle()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceDefaults(form, first, ops, ctx.locator, start, ctx.Pos()-start)
 		case `override`:
-			ctx.SetPos(bodiesStart)
-			ctx.nextToken()
+			assertNoTitle()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceOverride(form, first, ops, ctx.locator, start, ctx.Pos()-start)
 		default:
@@ -1143,6 +1184,23 @@ func (ctx *context) attributeOperation() (op Expression) {
 	}
 }
 
+// isAttribute returns true if the current token is a name that is followed by an arrow
+func (ctx *context) isAttribute() bool {
+	if ctx.currentToken != tokenIdentifier {
+		if _, ok := ctx.keyword(); !ok {
+			return false
+		}
+	}
+
+	// Just a peek. The state that is altered when skipping past a newline must be restored
+	pos, nextLineStart, beginningOfLine := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine
+	c, _ := ctx.skipWhite(false)
+	n, _ := ctx.Peek()
+	ctx.SetPos(pos)
+	ctx.nextLineStart, ctx.beginningOfLine = nextLineStart, beginningOfLine
+	return (c == '=' || c == '+') && n == '>'
+}
+
 func (ctx *context) attributeName() string {
 	if name, ok := ctx.identifier(); ok {
 		return name
-- 
2.43.0


From f49f748794a8ee1f14d698264ecc3b99502fe5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 40/76] fix: let the location of a hash that is the argument of
 a statement call be the location of its brace

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a21ffd8..b1c78d9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1029,7 +1029,7 @@ func (ctx *context) caseOption() Expression {
 }
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
-	bodiesStart := ctx.Pos()
+	bodiesStart := ctx.tokenStartPos // start of the opening brace
 	ctx.nextToken()
 	titleStart := ctx.tokenStartPos
 	titleToken, titleValue, titleEnd := ctx.currentToken, ctx.tokenValue, ctx.Pos()
-- 
2.43.0


From a8d35657f3aa6dc591799ccc5c669cd924bf4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 41/76] fix: don't report a regexp that ends with a backslash
 as an unterminated backtick string

---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8ed2750..6c44f12 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1055,7 +1055,8 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			ec, _ = ctx.Next()
 			switch ec {
 			case 0:
-				panic(ctx.unterminatedQuote(delimiterStart, delimiter))
+				// Continue and deal with the end of source
+				continue
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-- 
2.43.0


From 69d03ca9b7a1a8b13d649cac01903caa31aec13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 42/76] fix: let the location of a capability mapping include
 its component

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b1c78d9..7a2d6fe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2032,7 +2032,7 @@ func (ctx *context) qualifiedName(name string) string {
 }
 
 func (ctx *context) capabilityMapping(component Expression, kind string) Expression {
-	start := ctx.tokenStartPos
+	start := component.ByteOffset()
 	ctx.nextToken()
 	capName := ctx.className()
 	ctx.assertToken(tokenLc)
-- 
2.43.0


From 12b855ab56b5c5d01f80ce73b75db6b3f35b4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 43/76] fix: retain the number of a numeric variable that is
 converted to a deferred reference

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7a2d6fe..ad39724 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1470,7 +1470,7 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 		}
 	case *VariableExpression:
 		ve := e.(*VariableExpression)
-		n, _ := ve.Name()
+		n := fmt.Sprint(ve.NameOrIndex())
 		e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), f.QualifiedName(`new`, l, bo, 0), l, bo, 0),
 			[]Expression{f.String(`$`+n, l, bo, bl)}, nil, l, bo, bl)
 	}
-- 
2.43.0


From 3c2fe06f9d7deb11a92f5997642860ad80771f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 44/76] fix: don't find comments in strings when looking for
 the text of a heredoc

---
 parser/lexer.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6c44f12..2dc5804 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1495,6 +1495,12 @@ findStartOfText:
 			}
 			c, sz = ctx.Peek()
 
+		case '\'', '"':
+			// What looks like a comment within a string isn't a comment
+			ctx.Advance(sz)
+			ctx.skipQuotedOnLine(c)
+			c, sz = ctx.Peek()
+
 		case '\n':
 			if ctx.nextLineStart >= 0 {
 				ctx.SetPos(ctx.nextLineStart)
@@ -1611,6 +1617,31 @@ findEndOfText:
 	}
 }
 
+// skipQuotedOnLine skips past the given end quote unless the line ends before it is found
+func (ctx *context) skipQuotedOnLine(quote rune) {
+	start := ctx.Pos()
+	for {
+		c, n := ctx.Peek()
+		if c == '\\' {
+			ctx.Advance(n)
+			c, n = ctx.Peek()
+			if c != 0 && c != '\n' {
+				ctx.Advance(n)
+				continue
+			}
+		}
+		switch c {
+		case 0, '\n':
+			ctx.SetPos(start)
+			return
+		case quote:
+			ctx.Advance(n)
+			return
+		}
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) extractFlags(start int) []byte {
 	s := ctx.From(start)
 	top := len(s)
-- 
2.43.0


From ab3a9604c89e447d819b301e220482843cfb014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 45/76] fix: take the leading name of any interpolated access
 or method call as a variable

---
 parser/lexer.go | 56 +++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 39 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2dc5804..78ee2fe 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1207,27 +1207,9 @@ func (ctx *context) interpolate(start int) Expression {
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-		// If the result is a single QualifiedName or an AccessExpression or CallMemberExpression with a QualifiedName
-		// as the LHS, then it's actually a variable since the `${var}` is the same as `$var`
-		switch expr.(type) {
-		case *QualifiedName:
-			expr = ctx.factory.Variable(expr, ctx.locator, start, ctx.Pos()-start)
-		case *AccessExpression:
-			access := expr.(*AccessExpression)
-			if identifier, ok := access.operand.(*QualifiedName); ok {
-				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
-			}
-		case *CallMethodExpression:
-			call := expr.(*CallMethodExpression)
-			if ne, ok := call.functor.(*NamedAccessExpression); ok {
-				modNe := ctx.convertNamedAccessLHS(ne, start)
-				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
-				}
-			}
-		}
+		// If the result is a single QualifiedName, or an AccessExpression or CallMemberExpression that starts with a
+		// QualifiedName, then it's actually a variable since the `${var}` is the same as `$var`
+		expr = ctx.convertLeadingName(expr, start)
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
 
@@ -1247,29 +1229,25 @@ func (ctx *context) interpolate(start int) Expression {
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
-	switch lhs := expr.lhs.(type) {
+// convertLeadingName converts the QualifiedName that the given expression consists of, or that it is an access of or a
+// method call on, to a Variable. All other expressions are returned as they are.
+func (ctx *context) convertLeadingName(expr Expression, start int) Expression {
+	length := expr.ByteOffset() + expr.ByteLength() - start
+	switch e := expr.(type) {
 	case *QualifiedName:
-		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.Variable(e, ctx.locator, start, length)
 	case *AccessExpression:
-		var lhe Expression = lhs
-		if identifier, ok := lhs.operand.(*QualifiedName); ok {
-			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
+		if operand := ctx.convertLeadingName(e.operand, start); operand != e.operand {
+			return ctx.factory.Access(operand, e.keys, ctx.locator, start, length)
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
 	case *NamedAccessExpression:
-		return ctx.factory.NamedAccess(
-			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		if lhs := ctx.convertLeadingName(e.lhs, start); lhs != e.lhs {
+			return ctx.factory.NamedAccess(lhs, e.rhs, ctx.locator, start, length)
+		}
 	case *CallMethodExpression:
-		lhe := ctx.factory.CallMethod(
-			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		if functor := ctx.convertLeadingName(e.functor, start); functor != e.functor {
+			return ctx.factory.CallMethod(functor, e.arguments, e.lambda, ctx.locator, start, length)
+		}
 	}
 	return expr
 }
-- 
2.43.0


From 0a807546d454aa41b7b6c4522c0b71c608c7f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 46/76] fix: let the location of a type alias, definition, or
 mapping start with its keyword

---
 parser/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ad39724..f6f2b70 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -899,7 +899,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 		name := ctx.tokenString()
 		ctx.nextToken()
 		if ctx.currentToken == tokenTypeName {
-			expr = ctx.typeAliasOrDefinition()
+			expr = ctx.typeAliasOrDefinition(atomStart)
 		} else {
 			// Not a type definition. Just treat the 'type' keyword as a qualified name
 			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
@@ -1282,8 +1282,7 @@ func (ctx *context) collectExpression(lhs Expression) Expression {
 	return ctx.factory.Collect(lhs, collectQuery, attributeOps, ctx.locator, lhs.ByteOffset(), ctx.Pos()-lhs.ByteOffset())
 }
 
-func (ctx *context) typeAliasOrDefinition() Expression {
-	start := ctx.tokenStartPos
+func (ctx *context) typeAliasOrDefinition(start int) Expression {
 	typeExpr := ctx.parameterType()
 	fqr, ok := typeExpr.(*QualifiedReference)
 	if !ok {
-- 
2.43.0


From 6bb51ce1ad32877d0bf206687843aec84292049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 47/76] fix: let the location of a number with a sign include
 the sign also when it is accessed or called

---
 parser/parser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f6f2b70..2a6b7d2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -716,9 +716,8 @@ func (ctx *context) unaryExpression() Expression {
 			if ctx.currentToken == tokenFloat {
 				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(float64))
 			}
-			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
-			return expr
+			ctx.tokenStartPos = unaryStart // the sign is part of the number
+			return ctx.primaryExpression()
 		}
 		ctx.nextToken()
 		expr := ctx.primaryExpression()
@@ -728,9 +727,8 @@ func (ctx *context) unaryExpression() Expression {
 		// Allow '+' prefix for constant numbers
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
 			ctx.nextToken()
-			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
-			return expr
+			ctx.tokenStartPos = unaryStart // the sign is part of the number
+			return ctx.primaryExpression()
 		}
 		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `+`}))
 
-- 
2.43.0


From f899f1e72e131aedaf533a0a624b2d21cba67a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 48/76] fix: don't let lines of a heredoc that start with a
 dash or pipe alter its margin or last newline

---
 parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 78ee2fe..411b550 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1495,7 +1495,6 @@ findStartOfText:
 		}
 	}
 
-	suppressLastNL := false
 	heredocContentEnd := -1
 	heredocEnd := -1
 	indentStrip := 0
@@ -1512,6 +1511,8 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+			lineIndent := 0
+			lineSuppressNL := false
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
 			case 0:
@@ -1519,7 +1520,7 @@ findEndOfText:
 				panic(ctx.parseIssue(lexHeredocUnterminated))
 
 			case '|':
-				indentStrip = n - lineStart
+				lineIndent = n - lineStart
 				c, n = ctx.skipWhiteInLiteral()
 				if c != '-' {
 					break
@@ -1527,7 +1528,7 @@ findEndOfText:
 				fallthrough
 
 			case '-':
-				suppressLastNL = true
+				lineSuppressNL = true
 				c, n = ctx.skipWhiteInLiteral()
 			}
 
@@ -1547,7 +1548,8 @@ findEndOfText:
 				}
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					indentStrip = lineIndent
+					if lineSuppressNL {
 						heredocContentEnd--
 						if expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
-- 
2.43.0


From 2287de3237a1e503a8ed2ca9cc565198c6748184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 49/76] fix: don't panic when the last newline of an empty
 heredoc is suppressed

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 411b550..116b7e2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1549,9 +1549,9 @@ findEndOfText:
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
 					indentStrip = lineIndent
-					if lineSuppressNL {
+					if lineSuppressNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From ff315d6844605d94d1f7d7583fa7a2491d1ba2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 50/76] fix: let the L escape of a heredoc escape a CRLF line
 break

---
 parser/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 116b7e2..6e4ee41 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1665,6 +1665,14 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 			break
 		}
 
+		if c == '\r' {
+			// The line break that ends a line can be a CRLF
+			if nc, n := ctx.Peek(); nc == '\n' && ctx.Pos() < end && bytes.IndexByte(flags, '\n') >= 0 {
+				ctx.Advance(n)
+				c = nc
+			}
+		}
+
 		escaped := false
 		if c < utf8.RuneSelf {
 			bc := byte(c)
-- 
2.43.0


From 4336c9b683bc14dd67be7729914c2304bb092332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 51/76] fix: don't let the token before a string affect the
 first token of an interpolation

---
 parser/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6e4ee41..aa18612 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1203,7 +1203,9 @@ func (ctx *context) interpolate(start int) Expression {
 	if c == '{' {
 		ctx.Advance(sz)
 
-		// Call context recursively and expect the ending token to be the ending curly brace
+		// Call context recursively and expect the ending token to be the ending curly brace. How the first token is
+		// interpreted must not depend on the token that precedes the string
+		ctx.setToken(tokenLc)
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-- 
2.43.0


From 6cda521458ec24f58521e7caafbdb04739f46606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 52/76] fix: don't take an escaped slash in a regexp as the
 start of a comment when looking for heredoc text

---
 parser/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index aa18612..323d296 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1475,6 +1475,14 @@ findStartOfText:
 			}
 			c, sz = ctx.Peek()
 
+		case '\\':
+			// An escaped character isn't the start of a comment
+			ctx.Advance(sz)
+			if c, sz = ctx.Peek(); !(c == 0 || c == '\n') {
+				ctx.Advance(sz)
+				c, sz = ctx.Peek()
+			}
+
 		case '\'', '"':
 			// What looks like a comment within a string isn't a comment
 			ctx.Advance(sz)
-- 
2.43.0


From 48a836332ddc4c05678415d2590ee75b9eb5d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 53/76] fix: let an EPP template without parameter list record
 that its parameters are not specified

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2a6b7d2..167d272 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -217,7 +217,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 			if _, ok := e.(*BlockExpression); !ok {
 				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
 			}
-			return ctx.factory.EppExpression([]Expression{}, e, ctx.locator, 0, ctx.Pos())
+			return ctx.factory.EppExpression(nil, e, ctx.locator, 0, ctx.Pos())
 		}
 
 		if ctx.currentToken == tokenEnd {
-- 
2.43.0


From b393b61083aa60a0f3b0b0fa02325a4e55413eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 54/76] fix: let -%> trim a CRLF line break

---
 parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 323d296..d40b2f9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -483,6 +483,12 @@ func (ctx *context) nextToken() {
 						for c, sz = ctx.Peek(); c == ' ' || c == '\t'; c, sz = ctx.Peek() {
 							ctx.Advance(sz)
 						}
+						if c == '\r' {
+							if nc, nsz := ctx.PeekAt(ctx.Pos() + sz); nc == '\n' {
+								ctx.Advance(sz)
+								c, sz = nc, nsz
+							}
+						}
 						if c == '\n' {
 							ctx.Advance(sz)
 						}
-- 
2.43.0


From 84be01316da11322bb17b4a4b325ad201acafca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 55/76] fix: let the location of EPP text start after the tag
 that precedes it

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index d40b2f9..f003473 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1095,6 +1095,7 @@ func (ctx *context) consumeEPP() {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
 	ctx.eppTextEnd = false
+	ctx.tokenStartPos = ctx.Pos() // the text starts after the tag that precedes it
 	var sz int
 	for ec, start := ctx.Next(); ec != 0; ec, start = ctx.Next() {
 		switch ec {
-- 
2.43.0


From fe8361048f9a37f6fac09e1ae99d99ceb22b7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 56/76] fix: let the location of the initial text of an EPP
 template be that of the text

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 167d272..461624b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -203,8 +203,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 		ctx.consumeEPP()
 
 		var text string
+		textStart, textLen := ctx.tokenStartPos, 0
 		if ctx.currentToken == tokenRenderString {
 			text = ctx.tokenString()
+			textLen = ctx.Pos() - textStart
 			ctx.nextToken()
 		}
 
@@ -222,7 +224,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 
 		if ctx.currentToken == tokenEnd {
 			// No EPP in the source.
-			expr = asEppLambda(ctx.factory.RenderString(text, ctx.locator, 0, ctx.Pos()))
+			expr = asEppLambda(ctx.factory.RenderString(text, ctx.locator, textStart, textLen))
 			return
 		}
 
@@ -240,7 +242,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 
 		expressions := make([]Expression, 0, 10)
 		if text != `` {
-			expressions = append(expressions, ctx.factory.RenderString(text, ctx.locator, 0, ctx.tokenStartPos))
+			expressions = append(expressions, ctx.factory.RenderString(text, ctx.locator, textStart, textLen))
 		}
 
 		for {
-- 
2.43.0


From 1a56df297cba01f42efe337abc9fdab5de503cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 57/76] fix: don't interpret EPP text as code when deciding if
 a parenthesis is first on its line

---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f003473..c096722 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1146,7 +1146,8 @@ func (ctx *context) consumeEPP() {
 			case '=':
 				ctx.Advance(sz)
 			}
-			ctx.SetPos(start) // Next token will be TOKEN_RENDER_EXPR
+			ctx.beginningOfLine = start // The text isn't part of the line
+			ctx.SetPos(start)           // Next token will be TOKEN_RENDER_EXPR
 			ctx.settokenValue(tokenRenderString, buf.String())
 			if buf.Len() == 0 {
 				ctx.nextToken()
-- 
2.43.0


From 850af6da08f17ce26078c760aec91ca7328d3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 58/76] fix: report an issue when expressions are nested so
 deep that the stack would be exhausted

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 10 +++++++---
 parser/parser.go | 29 +++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index 8a7f30c..b8cff7f 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -53,6 +53,7 @@ const (
 	parseInvalidStepAttribute         = `PARSE_INVALID_STEP_ATTRIBUTE`
 	parseInvalidAttribute             = `PARSE_INVALID_ATTRIBUTE`
 	parseInvalidResource              = `PARSE_INVALID_RESOURCE`
+	parseNestingTooDeep               = `PARSE_NESTING_TOO_DEEP`
 	parseInheritsMustBeTypeName       = `PARSE_INHERITS_MUST_BE_TYPE_NAME`
 	parseResourceWithoutTitle         = `PARSE_RESOURCE_WITHOUT_TITLE`
 	parseQuotedNotValidName           = `PARSE_QUOTED_NOT_VALID_NAME`
@@ -108,6 +109,7 @@ func init() {
 	issue.Hard(parseInvalidStepAttribute, `Attribute '%{name}' is not valid in a '%{style}' definition`)
 	issue.Hard(parseInvalidAttribute, `invalid attribute operation`)
 	issue.Hard(parseInvalidResource, `invalid resource expression`)
+	issue.Hard(parseNestingTooDeep, `expressions cannot be nested deeper than %{max} levels`)
 	issue.Hard(parseInheritsMustBeTypeName, `expected type name to follow 'inherits'`)
 	issue.Hard(parseResourceWithoutTitle, `This expression is invalid. Did you try declaring a '%{name}' resource without a title?`)
 	issue.Hard(parseQuotedNotValidName, `a quoted string is not valid as a name at this location`)
diff --git a/parser/lexer.go b/parser/lexer.go
index c096722..3dcd148 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -323,6 +323,7 @@ type context struct {
 	negative              bool // true when the next token is a number that is subject to negation
 	factory               ExpressionFactory
 	nameStack             []string
+	nesting               int
 	definitions           []Definition
 }
 
@@ -1150,7 +1151,9 @@ func (ctx *context) consumeEPP() {
 			ctx.SetPos(start)           // Next token will be TOKEN_RENDER_EXPR
 			ctx.settokenValue(tokenRenderString, buf.String())
 			if buf.Len() == 0 {
+				ctx.enter()
 				ctx.nextToken()
+				ctx.leave()
 			}
 			return
 
@@ -1191,7 +1194,6 @@ func (ctx *context) consumeEPP() {
 //   - Unless the string is empty, adds a StringExpression that represents the string to the segments slice
 //   - Asks the context to perform interpolation and adds the resulting expression to the segments slice
 //   - Sets the tokenStartPos to the position just after the end of the interpolation expression
-//
 func (ctx *context) handleInterpolation(start int, segments []Expression, buf *bytes.Buffer) []Expression {
 	precedingString := buf.String()
 	buf.Reset()
@@ -1210,6 +1212,8 @@ func (ctx *context) interpolate(start int) Expression {
 	c, sz := ctx.Peek()
 	if c == '{' {
 		ctx.Advance(sz)
+		ctx.enter()
+		defer ctx.leave()
 
 		// Call context recursively and expect the ending token to be the ending curly brace. How the first token is
 		// interpreted must not depend on the token that precedes the string
@@ -1594,7 +1598,7 @@ findEndOfText:
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, heredocContentEnd-ctx.tokenStartPos))
 			}
-			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
+			ctx.SetPos(heredocTagEnd)      // Normal parsing continues here
 			ctx.nextLineStart = heredocEnd // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
@@ -1605,7 +1609,7 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
-	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
+	ctx.SetPos(heredocTagEnd)      // Normal parsing continues here
 	ctx.nextLineStart = heredocEnd // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
diff --git a/parser/parser.go b/parser/parser.go
index 461624b..b5df125 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -24,6 +24,10 @@ type (
 	}
 )
 
+// maxNesting is the maximum nesting of expressions. It prevents that the parser, or something that traverses the
+// expression that it produces, exhausts the stack.
+const maxNesting = 10000
+
 // Set of names that will be treated as top level function calls rather than just identifiers
 // when followed by a single expression that is not within parenthesis.
 var statementCalls = map[string]bool{
@@ -172,6 +176,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.tokenStartPos = 0
 	ctx.beginningOfLine = 0
 	ctx.nameStack = nil
+	ctx.nesting = 0
 	ctx.eppTextEnd = false
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
@@ -285,6 +290,19 @@ func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expressi
 	return
 }
 
+// enter must be called when the parsing of something that can be nested starts and be followed by a call to leave
+func (ctx *context) enter() {
+	ctx.nesting++
+	if ctx.nesting > maxNesting {
+		ctx.SetPos(ctx.tokenStartPos)
+		panic(ctx.parseIssue2(parseNestingTooDeep, issue.H{`max`: maxNesting}))
+	}
+}
+
+func (ctx *context) leave() {
+	ctx.nesting--
+}
+
 func (ctx *context) assertToken(token int) {
 	if ctx.currentToken != token {
 		ctx.SetPos(ctx.tokenStartPos)
@@ -438,7 +456,9 @@ func (ctx *context) handleKeyword(next func() Expression) (expr Expression) {
 		expr = ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos)
 		ctx.nextToken()
 		if ctx.currentToken == tokenLp {
+			ctx.enter()
 			expr = ctx.callFunctionExpression(expr)
+			ctx.leave()
 		}
 	default:
 		expr = next()
@@ -475,7 +495,9 @@ func (ctx *context) assignmentOf(lhs Expression) (expr Expression) {
 		case tokenAssign, tokenAddAssign, tokenSubtractAssign:
 			op := ctx.tokenString()
 			ctx.nextToken()
+			ctx.enter()
 			expr = ctx.factory.Assignment(op, expr, ctx.assignment(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
+			ctx.leave()
 		default:
 			return expr
 		}
@@ -708,6 +730,9 @@ func (ctx *context) hashExpression() (entries []Expression) {
 }
 
 func (ctx *context) unaryExpression() Expression {
+	ctx.enter()
+	defer ctx.leave()
+
 	unaryStart := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenSubtract:
@@ -956,7 +981,9 @@ func (ctx *context) ifExpression(unless bool) (expr Expression) {
 		if unless {
 			panic(ctx.parseIssue(parseElsifInUnless))
 		}
+		ctx.enter()
 		elsePart = ctx.ifExpression(false)
+		ctx.leave()
 	default:
 		elsePart = ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)
 	}
@@ -1499,6 +1526,8 @@ func (ctx *context) stepExpression() Expression {
 	}
 	style := ctx.stepStyle()
 	name := ctx.stepName(style)
+	ctx.enter()
+	defer ctx.leave()
 	return ctx.stepDeclaration(start, style, name, false)
 }
 
-- 
2.43.0


From 052b48a5c00ef59924e57b9f6722cd187d6f78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 59/76] fix: retain the lambda of a call in the state of a
 resource step

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b5df125..61095b6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1487,12 +1487,12 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 			n := et.functor.(*QualifiedName).Name()
 			nw := f.QualifiedName(`new`, l, bo, 0)
 			e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), nw, l, bo, 0),
-				[]Expression{f.String(n, l, e.ByteOffset(), e.ByteLength()), f.Array(convertSliceToDeferred(f, et.arguments), l, bo, 0)}, nil, l, bo, bl)
+				[]Expression{f.String(n, l, e.ByteOffset(), e.ByteLength()), f.Array(convertSliceToDeferred(f, et.arguments), l, bo, 0)}, et.lambda, l, bo, bl)
 		case *QualifiedReference:
 			nw := f.QualifiedName(`new`, l, bo, 0)
 			args := append([]Expression{et.functor}, et.arguments...)
 			e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), nw, l, bo, 0),
-				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, nil, l, bo, bl)
+				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, et.lambda, l, bo, bl)
 		}
 	case *VariableExpression:
 		ve := e.(*VariableExpression)
-- 
2.43.0


From 81917d863e50654a2cef7b13e6fa137dbf75e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 60/76] fix: don't let two nodes share a child when a type call
 in a resource state is deferred

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61095b6..e34b02b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1492,7 +1492,7 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 			nw := f.QualifiedName(`new`, l, bo, 0)
 			args := append([]Expression{et.functor}, et.arguments...)
 			e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), nw, l, bo, 0),
-				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, et.lambda, l, bo, bl)
+				[]Expression{f.QualifiedName(`new`, l, bo, 0), f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, et.lambda, l, bo, bl)
 		}
 	case *VariableExpression:
 		ve := e.(*VariableExpression)
-- 
2.43.0


From 2e40594fcfb72040b129c59801dbbcf7b65ef63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 61/76] fix: write JSON for values that nest deeper than
 encoding/json permits

---
 json/json.go | 61 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/json/json.go b/json/json.go
index cc603b9..56fc4bc 100644
--- a/json/json.go
+++ b/json/json.go
@@ -3,14 +3,69 @@
 package json
 
 import (
+	"bytes"
 	"encoding/json"
 	"io"
+	"sort"
 )
 
+// text is text that is written as is
+type text string
+
+// ToJson writes the given value followed by a newline. Slices and maps are written here, and not by the encoder, since
+// it doesn't accept values that are as deeply nested as the data of an AST can be
 func ToJson(value interface{}, result io.Writer) {
-	enc := json.NewEncoder(result)
-	enc.SetEscapeHTML(false)
-	if err := enc.Encode(value); err != nil {
+	b := bytes.NewBufferString(``)
+	pending := []interface{}{value}
+	for len(pending) > 0 {
+		last := len(pending) - 1
+		next := pending[last]
+		pending = pending[:last]
+		switch next := next.(type) {
+		case text:
+			b.WriteString(string(next))
+		case []interface{}:
+			if next == nil {
+				b.WriteString(`null`)
+				continue
+			}
+			b.WriteByte('[')
+			pending = append(pending, text(`]`))
+			for idx := len(next) - 1; idx >= 0; idx-- {
+				pending = append(pending, next[idx])
+				if idx > 0 {
+					pending = append(pending, text(`,`))
+				}
+			}
+		case map[string]interface{}:
+			if next == nil {
+				b.WriteString(`null`)
+				continue
+			}
+			keys := make([]string, 0, len(next))
+			for key := range next {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+			b.WriteByte('{')
+			pending = append(pending, text(`}`))
+			for idx := len(keys) - 1; idx >= 0; idx-- {
+				pending = append(pending, next[keys[idx]], text(`:`), keys[idx])
+				if idx > 0 {
+					pending = append(pending, text(`,`))
+				}
+			}
+		default:
+			enc := json.NewEncoder(b)
+			enc.SetEscapeHTML(false)
+			if err := enc.Encode(next); err != nil {
+				panic(err)
+			}
+			b.Truncate(b.Len() - 1) // The newline that was added by the encoder
+		}
+	}
+	b.WriteByte('\n')
+	if _, err := b.WriteTo(result); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 2eb9d22c309292865dcc2a6234e6c6a4e2072876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 62/76] fix: reject a `$::` that is not followed by the name of
 a variable

---
 parser/lexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 3dcd148..52a83e5 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -681,6 +681,10 @@ func (ctx *context) nextToken() {
 				}
 				ctx.Advance(sz)
 				c, sz = ctx.Peek()
+				if !(isLowercaseLetter(c) || c == '_') {
+					ctx.SetPos(start)
+					panic(ctx.parseIssue(lexInvalidVariableName))
+				}
 			}
 			if isLowercaseLetter(c) {
 				ctx.Advance(sz)
@@ -1236,6 +1240,11 @@ func (ctx *context) interpolate(start int) Expression {
 	ctx.nextToken()
 	var textExpr Expression
 	if name, ok := ctx.tokenValue.(string); ok {
+		if name == `` {
+			// There was no name after the initial '::'
+			ctx.SetPos(start)
+			panic(ctx.parseIssue(lexMalformedInterpolation))
+		}
 		textExpr = ctx.factory.QualifiedName(name, ctx.locator, start+1, ctx.Pos()-(start+1))
 	} else {
 		textExpr = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, start+1, ctx.Pos()-(start+1))
-- 
2.43.0


From e9c94b8c29b7819ce7b61ad5cfa98120fae5f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 63/76] fix: don't read a line again for each parenthesis on it

---
 parser/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 52a83e5..fff6e57 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -425,11 +425,7 @@ func (ctx *context) nextToken() {
 		case '(':
 			// If token is first on line or only preceded by whitespace, then it is not start of parameters
 			// in a call.
-			savePos := ctx.Pos()
-			ctx.SetPos(ctx.beginningOfLine)
-			_, firstNonWhite := ctx.skipWhite(false)
-			ctx.SetPos(savePos)
-			if firstNonWhite == start {
+			if scanStart <= ctx.beginningOfLine && ctx.beginningOfLine <= start {
 				ctx.setToken(tokenWslp)
 			} else {
 				ctx.setToken(tokenLp)
-- 
2.43.0


From b76f013031316b876286ebe5da64b09f7d67c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 64/76] fix: report an operand that isn't a value once

---
 validator/checker.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 129c321..7512ebf 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -756,9 +756,8 @@ func (v *basicChecker) checkReturnType(function parser.Expression, returnType pa
 }
 
 func (v *basicChecker) checkRValue(e parser.Expression) {
-	switch e := e.(type) {
-	case parser.UnaryExpression:
-		v.checkRValue(e.Expr())
+	// The operand of a unary expression is checked when that expression is visited
+	switch e.(type) {
 	case parser.Definition, *parser.CollectExpression:
 		v.Accept(ValidateNotRvalue, e, issue.H{`value`: e})
 	}
-- 
2.43.0


From 47075ee57fc6e908e95a0787b8ce5e1d9aa3ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 65/76] fix: report an assigned expression that isn't a value

---
 validator/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/checker.go b/validator/checker.go
index 7512ebf..475d3ba 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -240,6 +240,7 @@ func (v *basicChecker) checkAssignmentExpression(e *parser.AssignmentExpression)
 	switch e.Operator() {
 	case `=`:
 		v.checkAssign(e.Lhs())
+		v.checkRValue(e.Rhs())
 	default:
 		v.Accept(ValidateAppendsDeletesNoLongerSupported, e, issue.H{`operator`: e.Operator()})
 	}
-- 
2.43.0


From b6944007a5e358000aeb64ee05721fd4b83551cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 66/76] fix: report a type definition that isn't at top level

---
 validator/checker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index 475d3ba..9c73fc2 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -121,6 +121,7 @@ type Checker interface {
 	checkSelectorExpression(e *parser.SelectorExpression)
 	checkSiteDefinition(e *parser.SiteDefinition)
 	checkTypeAlias(e *parser.TypeAlias)
+	checkTypeDefinition(e *parser.TypeDefinition)
 	checkTypeMapping(e *parser.TypeMapping)
 	checkUnaryExpression(e parser.UnaryExpression)
 	checkUnlessExpression(e *parser.UnlessExpression)
@@ -202,6 +203,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkSiteDefinition(e)
 	case *parser.TypeAlias:
 		v.checkTypeAlias(e)
+	case *parser.TypeDefinition:
+		v.checkTypeDefinition(e)
 	case *parser.TypeMapping:
 		v.checkTypeMapping(e)
 	case *parser.UnlessExpression:
@@ -556,6 +559,10 @@ func (v *basicChecker) checkTypeAlias(e *parser.TypeAlias) {
 	v.checkTypeRef(e, e.Type())
 }
 
+func (v *basicChecker) checkTypeDefinition(e *parser.TypeDefinition) {
+	v.checkTop(e, v.Container())
+}
+
 func (v *basicChecker) checkTypeMapping(e *parser.TypeMapping) {
 	v.checkTop(e, v.Container())
 	lhs := e.Type()
-- 
2.43.0


From 8db1277dab8659d918be847e22f06f39204ccfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 67/76] fix: recognize the pipe that ends parameters, whatever
 follows it

---
 parser/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e34b02b..e5df614 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -387,19 +387,25 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 }
 
 func (ctx *context) expressions(endToken int, producerFunc func() Expression) (exprs []Expression) {
-	if ctx.currentToken == endToken {
+	if ctx.isListEnd(endToken) {
 		return make([]Expression, 0)
 	}
 	return ctx.expressionsAfter(producerFunc(), endToken, producerFunc)
 }
 
+// isListEnd returns true if the current token ends a list. The lexer cannot recognize the pipe that ends a parameter
+// list unless it's followed by something that is expected there
+func (ctx *context) isListEnd(endToken int) bool {
+	return ctx.currentToken == endToken || endToken == tokenPipeEnd && ctx.currentToken == tokenPipe
+}
+
 // expressionsAfter continues a comma separated list where the first expression has already been parsed
 func (ctx *context) expressionsAfter(first Expression, endToken int, producerFunc func() Expression) (exprs []Expression) {
 	exprs = make([]Expression, 1, 4)
 	exprs[0] = first
 	for {
 		if ctx.currentToken != tokenComma {
-			if ctx.currentToken != endToken {
+			if !ctx.isListEnd(endToken) {
 				ctx.SetPos(ctx.tokenStartPos)
 				panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
 					`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
@@ -408,7 +414,7 @@ func (ctx *context) expressionsAfter(first Expression, endToken int, producerFun
 			return
 		}
 		ctx.nextToken()
-		if ctx.currentToken == endToken {
+		if ctx.isListEnd(endToken) {
 			return
 		}
 		exprs = append(exprs, producerFunc())
-- 
2.43.0


From aaccf9e3599977c6f6f4138fa3ce3154a7fe05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 68/76] fix: don't drop the last title of a resource when it
 has no body

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5df614..05d8eec 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1156,15 +1156,16 @@ func (ctx *context) resourceShape(expr Expression) string {
 
 func (ctx *context) resourceBodies(title Expression) (result []Expression) {
 	result = make([]Expression, 0, 1)
-	for ctx.currentToken != tokenRc {
+	for {
 		result = append(result, ctx.resourceBody(title))
 		if ctx.currentToken != tokenSemicolon {
 			break
 		}
 		ctx.nextToken()
-		if ctx.currentToken != tokenRc {
-			title = ctx.expression()
+		if ctx.currentToken == tokenRc {
+			break
 		}
+		title = ctx.expression()
 	}
 	return
 }
-- 
2.43.0


From cfd4c4e43d01da076abbca8ee6aa6346b505da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 69/76] fix: report a heredoc tag that is empty before syntax
 or flags

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index fff6e57..6450b0e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1403,7 +1403,7 @@ findTagEnd:
 			if escapeStart > 0 {
 				flags = ctx.extractFlags(escapeStart)
 			}
-			if tag == `` {
+			if tag == `` && syntaxStart < 0 && escapeStart < 0 {
 				tag = ctx.From(start)
 			}
 			ctx.Advance(n)
@@ -1424,7 +1424,7 @@ findTagEnd:
 			if escapeStart > 0 {
 				panic(ctx.parseIssue(lexHeredocMultipleEscape))
 			}
-			if tag == `` {
+			if tag == `` && syntaxStart < 0 {
 				tag = ctx.From(start)
 			} else if syntaxStart > 0 {
 				syntax = ctx.From(syntaxStart)
-- 
2.43.0


From 5afa51dac7c47dd95696ee0ee5ca99daf92b1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 70/76] fix: don't accept a virtual or exported resource
 without title as a call

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 05d8eec..3633c4a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1098,7 +1098,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			name := ``
 			if ok {
 				name = fqn.name
-				if _, ok := statementCalls[name]; ok {
+				if _, ok := statementCalls[name]; ok && form == REGULAR {
 					// Handle the call here. What's been parsed so far is the start of the first key in the hash
 					var entries []Expression
 					if firstTitle == nil {
-- 
2.43.0


From 6ca3882ce58faebdda69abfa6cf15bf6e22cf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 71/76] fix: a parenthesis or bracket that an EPP tag starts
 with is not a call or access of the text before it

---
 parser/lexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6450b0e..c2fde82 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -411,9 +411,9 @@ func (ctx *context) nextToken() {
 			ctx.setToken(tokenRc)
 
 		case '[':
-			// If token is preceded by whitespace or if it's the first token to be parsed, then it's a
-			// list rather than parameters to an access expression
-			if scanStart < start || start == 0 {
+			// If token is preceded by whitespace or if it's the first token to be parsed, or the first token
+			// of an EPP tag, then it's a list rather than parameters to an access expression
+			if scanStart < start || start == 0 || start == ctx.beginningOfLine {
 				ctx.setToken(tokenListstart)
 				break
 			}
@@ -610,8 +610,10 @@ func (ctx *context) nextToken() {
 						ctx.setToken(tokenRenderExpr)
 					case '-':
 						ctx.Advance(sz)
+						ctx.beginningOfLine = ctx.Pos()
 						ctx.nextToken()
 					default:
+						ctx.beginningOfLine = ctx.Pos()
 						ctx.nextToken()
 					}
 					break
-- 
2.43.0


From 67fab961c16dc20bf2ce04d479287f77f9d5ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 72/76] fix: read consecutive EPP tags without nesting, so that
 their number isn't limited

---
 parser/lexer.go  | 25 ++++++++++++++-----------
 parser/parser.go |  4 +++-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index c2fde82..9c75816 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -352,6 +352,8 @@ func (ctx *context) unterminatedQuote(start int, delimiter rune) issue.Reported
 
 func (ctx *context) nextToken() {
 	sz := 0
+
+scan:
 	scanStart := ctx.Pos()
 
 	c, start := ctx.skipWhite(false)
@@ -489,7 +491,9 @@ func (ctx *context) nextToken() {
 						if c == '\n' {
 							ctx.Advance(sz)
 						}
-						ctx.consumeEPP()
+						if !ctx.consumeEPP() {
+							goto scan
+						}
 					} else {
 						panic(ctx.parseIssue2(lexInvalidOperator, issue.H{`op`: `-%`}))
 					}
@@ -522,7 +526,9 @@ func (ctx *context) nextToken() {
 				c, sz = ctx.Peek()
 				if c == '>' {
 					ctx.Advance(sz)
-					ctx.consumeEPP()
+					if !ctx.consumeEPP() {
+						goto scan
+					}
 				}
 			}
 
@@ -611,10 +617,10 @@ func (ctx *context) nextToken() {
 					case '-':
 						ctx.Advance(sz)
 						ctx.beginningOfLine = ctx.Pos()
-						ctx.nextToken()
+						goto scan
 					default:
 						ctx.beginningOfLine = ctx.Pos()
-						ctx.nextToken()
+						goto scan
 					}
 					break
 				}
@@ -1094,7 +1100,8 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 	}
 }
 
-func (ctx *context) consumeEPP() {
+// consumeEPP consumes text up to the next EPP tag. It returns false when the tag isn't preceded by any text, since there's no token then
+func (ctx *context) consumeEPP() bool {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
 	ctx.eppTextEnd = false
@@ -1152,12 +1159,7 @@ func (ctx *context) consumeEPP() {
 			ctx.beginningOfLine = start // The text isn't part of the line
 			ctx.SetPos(start)           // Next token will be TOKEN_RENDER_EXPR
 			ctx.settokenValue(tokenRenderString, buf.String())
-			if buf.Len() == 0 {
-				ctx.enter()
-				ctx.nextToken()
-				ctx.leave()
-			}
-			return
+			return buf.Len() > 0
 
 		case ' ', '\t':
 			buf.WriteRune(ec)
@@ -1189,6 +1191,7 @@ func (ctx *context) consumeEPP() {
 	} else {
 		ctx.settokenValue(tokenRenderString, buf.String())
 	}
+	return true
 }
 
 // Called after a '$' has been encountered on input.
diff --git a/parser/parser.go b/parser/parser.go
index 3633c4a..e9e5ce6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -205,7 +205,9 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 	}
 
 	if ctx.eppMode {
-		ctx.consumeEPP()
+		if !ctx.consumeEPP() {
+			ctx.nextToken()
+		}
 
 		var text string
 		textStart, textLen := ctx.tokenStartPos, 0
-- 
2.43.0


From 5a33b9b34d7add887fdc00702084f16b0224aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 73/76] fix: give the right offset of an invalid character that
 is found by a look ahead

---
 parser/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/reader.go b/parser/reader.go
index 1c9ad73..b46c556 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -97,7 +97,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
 	if c == utf8.RuneError && size == 1 {
-		panic(r.invalidUnicode())
+		panic(&parseError{message: "invalid unicode character", offset: pos})
 	}
 	return c, size
 }
-- 
2.43.0


From 539ef474faae9ea75c90c61b0a79c588d4ae9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 74/76] fix: don't move backwards at the end of a line when a
 token reaches beyond the text of a heredoc

---
 parser/lexer.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9c75816..23a71de 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -787,10 +787,7 @@ func (ctx *context) skipWhite(breakOnNewLine bool) (c rune, start int) {
 				ctx.SetPos(start)
 				return
 			}
-			if ctx.nextLineStart >= 0 {
-				ctx.SetPos(ctx.nextLineStart)
-				ctx.nextLineStart = -1
-			}
+			ctx.skipHeredocText()
 			if commentStart == '#' {
 				commentStart = 0
 			}
@@ -839,6 +836,15 @@ func (ctx *context) skipWhite(breakOnNewLine bool) (c rune, start int) {
 	}
 }
 
+// skipHeredocText skips the text of heredocs that were declared on the line that just ended. A token that spans several
+// lines might have reached beyond that text. If so, nothing is skipped since the position must not move backwards
+func (ctx *context) skipHeredocText() {
+	if ctx.nextLineStart > ctx.Pos() {
+		ctx.SetPos(ctx.nextLineStart)
+	}
+	ctx.nextLineStart = -1
+}
+
 // Skips to next non-whitespace or newline character and returns that character and its start position without
 // comment recognition
 func (ctx *context) skipWhiteInLiteral() (c rune, start int) {
@@ -1512,12 +1518,8 @@ findStartOfText:
 			c, sz = ctx.Peek()
 
 		case '\n':
-			if ctx.nextLineStart >= 0 {
-				ctx.SetPos(ctx.nextLineStart)
-				ctx.nextLineStart = -1
-			} else {
-				ctx.Advance(sz)
-			}
+			ctx.Advance(sz)
+			ctx.skipHeredocText()
 			heredocContentStart = ctx.Pos()
 			break findStartOfText
 
-- 
2.43.0


From c914ecca9065e4279c91e7a66e66ed7aeb228a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:06 +0000
Subject: [PATCH 75/76] fix: a validator that embeds AbstractValidator can
 demote issues

---
 validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validator/validator.go b/validator/validator.go
index 9ec3152..555b671 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -81,6 +81,9 @@ func (v *AbstractValidator) Demote(code issue.Code, severity issue.Severity) {
 	if !i.IsDemotable() {
 		panic(fmt.Sprintf(`Attempt to demote the hard issue '%s' to %s`, code, severity.String()))
 	}
+	if v.severities == nil {
+		v.severities = make(map[issue.Code]issue.Severity, 5)
+	}
 	v.severities[code] = severity
 }
 
-- 
2.43.0


From 0bddac7fbf1abb7c0a5e7dadcb2b0bb7f4dd7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:15 +0000
Subject: [PATCH 76/76] fix: limit the nesting of selectors

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e9e5ce6..512e373 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1023,6 +1023,10 @@ func (ctx *context) selectorsExpression(test Expression) (expr Expression) {
 }
 
 func (ctx *context) selectorEntry() (expr Expression) {
+	// A selector follows its test and isn't a part of the unary expression that contributes to the nesting
+	ctx.enter()
+	defer ctx.leave()
+
 	start := ctx.tokenStartPos
 	lhs := ctx.expression()
 	ctx.assertToken(tokenFarrow)
-- 
2.43.0

