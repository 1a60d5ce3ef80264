From 827f92ef0493a8f1a1fcfbe9ae0766876720c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 01/82] fix: do not add the same gap to the gap pool more than
 once

---
 internal/gap/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..8b48c60 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -18,8 +18,8 @@ func (p *Pool) Add(g Gap) {
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
 		if len(p.arrays) == 0 {
 			p.arrays = append(p.arrays, g)
@@ -33,6 +33,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From f21a160c7ea4877d9ed06128f4c20add0f79fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 02/82] fix: do not treat remainder of write-unsafe gap as
 write-safe

---
 internal/reg/status.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..ae237ce 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -18,8 +18,11 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	writeSafe := true
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The remaining gap is write-safe only if the utilized gap was write-safe.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +33,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -75,8 +78,11 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	writeSafe := true
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The remaining gap is write-safe only if the utilized gap was write-safe.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +93,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From bc3de06a5d2922d099afaea112ff8ba29c68c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 03/82] fix: calculate range bit width using integer arithmetic

---
 pkg/fbdl/types/range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..11ca7df 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,7 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From dd29c58ea51d4797de8b5aeb481fa313e46145e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 04/82] fix: align to power of 2 using integer arithmetic

---
 internal/util/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 02bb8f7..2766b7e 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,7 @@ package util
 
 import (
 	"fmt"
-	"math"
+	"math/bits"
 )
 
 const RepoIssueUrl = "https://github.com/Functional-Bus-Description-Language/go-fbdl/issues"
@@ -99,7 +99,10 @@ func IsValidInnerType(it string, ot string) bool {
 }
 
 func AlignToPowerOf2(n int64) int64 {
-	return int64(math.Pow(2, math.Ceil(math.Log2(float64(n)))))
+	if n <= 0 {
+		return 0
+	}
+	return 1 << bits.Len64(uint64(n-1))
 }
 
 // Aligns n to multiple of m.
-- 
2.43.0


From 3456dc688b5e2e399ff6a4a1d4dab26d133b72eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 05/82] fix: calculate proper register widths for ArrayNRegs
 access placed in one register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From e4f529ab3497634014d01990933857289f5c7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 06/82] fix: registerify non-atomic status arrays with
 incomplete end register

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index ae237ce..ed894bb 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -111,9 +111,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From e1fa349e1439af9b6bda59b1c11ac4e1ceebebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 07/82] fix: use actual width of ID and TIMESTAMP instead of
 bus width

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From aee0a6fc49a622dadb651669179197f289292ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 08/82] fix: convert negative integers to bit strings using U2
 encoding

---
 internal/val/bit_str.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..b48a111 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -3,6 +3,7 @@ package val
 import (
 	"fmt"
 	"math"
+	"math/big"
 )
 
 // BitStr represents FBDL bit string type.
@@ -149,21 +150,20 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
-	if i >= 0 {
-		var s string
-		if width%4 == 0 {
-			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
-		} else if width%3 == 0 {
-			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
-		} else {
-			s = fmt.Sprintf("b\"%0*b\"", width, i)
-		}
-
-		return BitStr(s), nil
+	u := big.NewInt(i)
+	if i < 0 {
+		// U2 encoding
+		u.Add(u, new(big.Int).Lsh(big.NewInt(1), uint(width)))
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	var s string
+	if width%4 == 0 {
+		s = fmt.Sprintf("x\"%0*x\"", width/4, u)
+	} else if width%3 == 0 {
+		s = fmt.Sprintf("o\"%0*o\"", width/3, u)
+	} else {
+		s = fmt.Sprintf("b\"%0*b\"", width, u)
+	}
 
-	//return BitStr(""), nil
+	return BitStr(s), nil
 }
-- 
2.43.0


From 1b8e7d2e8c4ab4ce6bd3d50706d1b4178e92def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 09/82] fix: handle parenthesized expressions

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..82a4d7a 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -45,6 +45,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
 		expr, err = MakeUnaryExpr(e, src, s)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case nil:
 		return nil, nil
 	default:
-- 
2.43.0


From 524c211faf5d66171e2b1553fd1da9e8e542330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 10/82] fix: report syntax errors instead of panicking for
 invalid expressions and identifiers

---
 internal/ast/expr.go  | 9 ++-------
 internal/tok/parse.go | 3 +++
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..e3e384b 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -125,7 +125,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 	)
 
 	switch t := ctx.tok().(type) {
-	case tok.Neg, tok.Sub, tok.Add:
+	case tok.Sub, tok.Add:
 		expr, err = buildUnaryExpr(ctx)
 	case tok.Ident:
 		switch ctx.nextTok().(type) {
@@ -135,12 +135,7 @@ func buildExpr(ctx *context, leftOp tok.Operator) (Expr, error) {
 			expr, err = buildIdent(ctx)
 		}
 	case tok.QualIdent:
-		switch ctx.nextTok().(type) {
-		case tok.LParen:
-			expr, err = buildCallExpr(ctx)
-		default:
-			expr, err = buildQualIdent(ctx)
-		}
+		expr, err = buildQualIdent(ctx)
 	case tok.Bool:
 		expr, err = buildBool(ctx)
 	case tok.Int:
diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..92e4b45 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -758,6 +758,9 @@ func parseHexInt(ctx *context) (Int, error) {
 // qualified identifier does not start with upper case letter.
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
+	if len(aux) != 2 || len(aux[1]) == 0 {
+		return false
+	}
 	sym := aux[1]
 	r := []rune(string(sym))[0]
 	return unicode.IsUpper(r) || unicode.IsLower(r)
-- 
2.43.0


From 71df0f7767ea62dfb738f3fb886998c104ffb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 11/82] fix: split hyphenated words in expressions on each
 hyphen

---
 internal/tok/parse.go | 111 +++++++++---------------------------------
 1 file changed, 23 insertions(+), 88 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 92e4b45..84b37f9 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -772,47 +772,28 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	defer func() { ctx.idx = t.End() + 1 }()
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
-	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
+	if hasHyphen {
+		// Hyphenated word is a property only if it is in valid place.
+		// Otherwise, it is part of an expression, hyphens are subtraction operators.
+		_, notProp := parseProperty(word, ctx).(None)
+		if !notProp {
+			if prevTok, ok := lastToken(*toks); ok {
+				switch prevTok.(type) {
+				case Newline, Indent, Semicolon:
+					// Do nothing, this is property
+				default:
+					notProp = true
 				}
 			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
 		}
-	} else if hasDot {
+		if notProp {
+			word = word[:bytes.IndexByte(word, '-')]
+			hasHyphen = false
+			hasDot = bytes.IndexByte(word, '.') >= 0
+		}
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -824,32 +805,15 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		}}
 
 		if !isValidQualifiedIdentifier(word) {
-			return t, Error{qualIdentErrMsg, []Token{t}}
+			return t, Error{
+				"symbol name in qualified identifier must start with letter",
+				[]Token{t},
+			}
 		}
 
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
-		}
-		return i1, s, i2
-	}
-
 	if !hasHyphen {
 		// Firstly assume word is a keyword
 		t = parseKeyword(word, ctx)
@@ -886,36 +850,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 			}
 		}
 	} else {
-		// Firstly assume word is a property
 		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
-		}
 	}
 
 	// The word might be the unit of time literal
-- 
2.43.0


From 7d6d03d283ff58133fb98efeddd13846a7e3cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 12/82] fix: recognize property placed after nested body

---
 internal/tok/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 84b37f9..d77d2d0 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -779,7 +779,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		if !notProp {
 			if prevTok, ok := lastToken(*toks); ok {
 				switch prevTok.(type) {
-				case Newline, Indent, Semicolon:
+				case Newline, Indent, Dedent, Semicolon:
 					// Do nothing, this is property
 				default:
 					notProp = true
@@ -828,7 +828,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 				// otherwise, these are regular identifiers.
 				if prevTok, ok := lastToken(*toks); ok {
 					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
+					case Newline, Semicolon, Indent, Dedent:
 						// Do nothing, this is property
 					default:
 						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-- 
2.43.0


From 5484a852306b5cdbc02d86090b20417f355f8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 13/82] fix: report division by zero in expression

---
 internal/prs/expr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 82a4d7a..5727f52 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -98,6 +98,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -107,6 +113,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
-- 
2.43.0


From 1e2181efcbbc0382495b5d7e0146c8532f4bd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 14/82] fix: calculate integer exponentiation exactly

---
 internal/prs/expr.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 5727f52..9fd47df 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -3,6 +3,7 @@ package prs
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -124,7 +125,18 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 {
+					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+					break
+				}
+				p, ok := powInt(int64(x), int64(y))
+				if !ok {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of exponentiation %d ** %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v = val.Int(p)
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -192,6 +204,28 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
+// powInt returns x raised to the power of non-negative y.
+// The second return is false if the result does not fit int64.
+func powInt(x, y int64) (int64, bool) {
+	switch x {
+	case 0, 1:
+		if y == 0 {
+			return 1, true
+		}
+		return x, true
+	case -1:
+		return 1 - 2*(y%2), true
+	}
+
+	// Absolute value of the base is at least 2, larger exponents always overflow.
+	if y > 63 {
+		return 0, false
+	}
+
+	p := new(big.Int).Exp(big.NewInt(x), big.NewInt(y), nil)
+	return p.Int64(), p.IsInt64()
+}
+
 func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error) {
 	x, err := MakeExpr(be.X, src, s)
 	if err != nil {
-- 
2.43.0


From c12cf7367a8df3bb14ba2c48133549a069043bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 15/82] fix: evaluate log10 of powers of 10 exactly, reject
 invalid ceil and floor arguments

---
 internal/prs/call.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..f8e9a60 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -63,6 +63,8 @@ func evalCeil(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate ceil for argument of %s type", arg.Type())
 	}
 
 	return val.Int(int64(math.Ceil(f))), nil
@@ -81,6 +83,8 @@ func evalFloor(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate floor for argument of %s type", arg.Type())
 	}
 
 	return val.Int(int64(math.Floor(f))), nil
@@ -128,6 +132,16 @@ func evalLog10(c Call) (val.Value, error) {
 	switch arg := arg.(type) {
 	case val.Int:
 		argType = "int"
+		// math.Log10 is not exact for all powers of 10.
+		exp := int64(0)
+		i := arg
+		for i > 1 && i%10 == 0 {
+			i /= 10
+			exp++
+		}
+		if i == 1 {
+			return val.Int(exp), nil
+		}
 		f = float64(arg)
 	case val.Float:
 		argType = "float"
-- 
2.43.0


From 088352f524d119f16860222abf7e870302b8fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 16/82] fix: reject non-positive logarithm arguments

---
 internal/prs/call.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index f8e9a60..d3f8745 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -112,6 +112,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log2 argument must be positive")
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -152,6 +156,10 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log10 argument must be positive")
+	}
+
 	r := math.Log10(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
-- 
2.43.0


From de6939dbce7b20a3ab4633536ad5b856c450ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 17/82] fix: check names of all functionality types when
 looking for name conflicts

---
 internal/util/block/block.go | 15 +++++++++++++++
 internal/util/group/group.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..0d1af2f 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,6 +16,21 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..c2c9d86 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -7,6 +7,21 @@ import (
 )
 
 func HasFunctionality(grp *fn.Group, name string) bool {
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Configs {
 		if grp.Configs[i].Name == name {
 			return true
-- 
2.43.0


From 953560a84df25ae33f69dd1e96405fe7f291a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 18/82] fix: check float constants when looking for constant
 redefinition

---
 internal/util/constContainer/constContainer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
-- 
2.43.0


From 93d2ff4ff2c29354afedaa9e68e0a640ae28c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 19/82] fix: do not panic for short file names in package
 directory

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From d14c1596afb8b3a92263f27d6dcfcd9740dea72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 20/82] fix: report reinstantiation in package instead of
 panicking

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From 1cfbe16e76361a336e68f9d6890a56de4c2f17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 21/82] fix: ignore only the dangling symlink, not remaining
 directory entries

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 6c405ad4d8ea6a94a4a03d996fa941a8da21a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 22/82] fix: ignore inaccessible paths during package discovery
 instead of panicking

---
 internal/prs/pre.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index d3d9aad..b8005ba 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -71,8 +71,9 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 	visitedDirs[dirID] = struct{}{}
 
 	dirEntires, err := os.ReadDir(dirPath)
+	// If path is not a directory, or it can't be read, just ignore it.
 	if err != nil {
-		panic(err)
+		return
 	}
 
 	base := filepath.Base(dirPath)
@@ -83,8 +84,9 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 	for _, de := range dirEntires {
 		dePath := filepath.Join(dirPath, de.Name())
 		fileInfo, err := os.Lstat(dePath)
+		// If entry can't be accessed, just ignore it.
 		if err != nil {
-			panic(err)
+			continue
 		}
 		if fileInfo.Mode()&os.ModeSymlink != 0 {
 			dePath, err = filepath.EvalSymlinks(dePath)
@@ -95,8 +97,9 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		}
 
 		fileInfo, err = os.Stat(dePath)
+		// If entry can't be accessed, just ignore it.
 		if err != nil {
-			panic(err)
+			continue
 		}
 
 		if fileInfo.IsDir() {
-- 
2.43.0


From 3dff7212979aacc0688fb39016725bb167eddcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 23/82] fix: report location of conflicting range property

---
 internal/prs/check.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
-- 
2.43.0


From 9400cfd2d027cce668d083cecfbe61e2c8580cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 24/82] fix: bind type arguments separately for each
 instantiation

---
 internal/ins/args.go       | 170 +++++++++++++++++++++++++------------
 internal/ins/ins.go        |  11 ++-
 internal/ins/type_chain.go |  12 +--
 internal/prs/type.go       |  12 +++
 4 files changed, 141 insertions(+), 64 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..3b6c675 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -5,8 +5,10 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
+// resolveArgLists checks argument lists of all symbols within packages.
 func resolveArgLists(packages prs.Packages) error {
 	for _, pkgs := range packages {
 		for _, pkg := range pkgs {
@@ -28,86 +30,148 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if !util.IsBaseType(f.Type()) {
-			resolvedArgs, err := resolveArgs(f)
+			typ, err := f.Scope().GetType(f.Type())
+			if err == nil {
+				_, err = resolveArgs(f, typ)
+			}
 			if err != nil {
 				return fmt.Errorf(
 					"%s:%d:%d: %v",
 					s.File().Path, s.Line(), s.Col(), err,
 				)
 			}
-
-			f.SetResolvedArgs(resolvedArgs)
 		}
 
-		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+		err := resolveArgListsInSymbols(f.Symbols())
+		if err != nil {
+			return err
 		}
 	}
 
 	return nil
 }
 
-func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
-	var err error
-	args := symbol.Args()
+// resolveArgs returns expressions for params of type typ explicitly provided in the argument list of functionality f.
+func resolveArgs(f prs.Functionality, typ prs.Functionality) (map[string]prs.Expr, error) {
+	args := f.Args()
+	params := typ.Params()
 	resolvedArgs := make(map[string]prs.Expr)
-	inPositionalArgs := true
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
-	if err != nil {
-		return nil, err
+	if len(args) > len(params) {
+		return nil, fmt.Errorf(
+			"too many arguments for type '%s', type has %d parameters, but %d arguments were provided",
+			f.Type(), len(params), len(args),
+		)
 	}
 
-	params := typeSymbol.Params()
-
-	var argName string
-	var argHasName bool
-	for i, p := range params {
-		if inPositionalArgs {
-			if i < len(args) {
-				argHasName = args[i].Name != ""
-				argName = args[i].Name
-			} else {
-				inPositionalArgs = false
-				argHasName = false
-			}
-
-			if argHasName {
-				inPositionalArgs = false
-				if argName == p.Name {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					found := false
-					for _, ar := range args {
-						if ar.Name == p.Name {
-							resolvedArgs[p.Name] = ar.Value
-							found = true
-						}
-					}
-					if !found {
-						resolvedArgs[p.Name] = p.DfltValue
-					}
-				}
-			} else {
-				if i < len(args) {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					resolvedArgs[p.Name] = p.DfltValue
-				}
-			}
+	for i, a := range args {
+		name := a.Name
+		if name == "" {
+			name = params[i].Name
 		} else {
 			found := false
-			for _, ar := range args {
-				if ar.Name == p.Name {
-					resolvedArgs[p.Name] = ar.Value
+			for _, p := range params {
+				if p.Name == name {
 					found = true
 				}
 			}
 			if !found {
-				resolvedArgs[p.Name] = p.DfltValue
+				return nil, fmt.Errorf("type '%s' has no parameter '%s'", f.Type(), name)
 			}
 		}
+
+		if _, ok := resolvedArgs[name]; ok {
+			return nil, fmt.Errorf("reassignment to '%s' argument", name)
+		}
+		resolvedArgs[name] = a.Value
+	}
+
+	for _, p := range params {
+		if _, ok := resolvedArgs[p.Name]; !ok && p.DfltValue == nil {
+			return nil, fmt.Errorf("missing argument for parameter '%s' of type '%s'", p.Name, f.Type())
+		}
 	}
 
 	return resolvedArgs, nil
 }
+
+// argValue is an already evaluated argument.
+type argValue struct {
+	v val.Value
+}
+
+func (av argValue) Eval() (val.Value, error) { return av.v, nil }
+
+// dfltArgValue is a parameter default value, it is evaluated in the type scope.
+type dfltArgValue struct {
+	expr       prs.Expr
+	evaluating bool
+}
+
+func (dav *dfltArgValue) Eval() (val.Value, error) {
+	if dav.evaluating {
+		return nil, fmt.Errorf("cyclic default value of parameter")
+	}
+	dav.evaluating = true
+	defer func() { dav.evaluating = false }()
+
+	return dav.expr.Eval()
+}
+
+// bindArgs binds values to the parameters of all types in the type chain.
+// Arguments are evaluated in the scope of functionality with the argument list.
+func bindArgs(typeChain []prs.Functionality) error {
+	// If the last functionality in the chain is a type with parameters,
+	// then it is instantiated with default values.
+	last := typeChain[len(typeChain)-1]
+	if last.Kind() == prs.TypeDef {
+		last.SetResolvedArgs(bindDefaults(last, make(map[string]prs.Expr)))
+	}
+
+	for i := len(typeChain) - 1; i > 0; i-- {
+		f, typ := typeChain[i], typeChain[i-1]
+
+		args, err := resolveArgs(f, typ)
+		if err != nil {
+			return fmt.Errorf("%s:%d:%d: %v", f.File().Path, f.Line(), f.Col(), err)
+		}
+
+		values := make(map[string]prs.Expr)
+		for name, expr := range args {
+			v, err := expr.Eval()
+			if err != nil {
+				return err
+			}
+			values[name] = argValue{v}
+		}
+
+		typ.SetResolvedArgs(bindDefaults(typ, values))
+	}
+
+	return nil
+}
+
+func bindDefaults(typ prs.Functionality, values map[string]prs.Expr) map[string]prs.Expr {
+	for _, p := range typ.Params() {
+		if _, ok := values[p.Name]; !ok && p.DfltValue != nil {
+			values[p.Name] = &dfltArgValue{expr: p.DfltValue}
+		}
+	}
+
+	return values
+}
+
+// hasRequiredParams returns true if functionality has at least one parameter without default value.
+func hasRequiredParams(f prs.Functionality) bool {
+	if f.Kind() != prs.TypeDef {
+		return false
+	}
+
+	for _, p := range f.Params() {
+		if p.DfltValue == nil {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..435e3eb 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,6 +77,11 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				// Type with required parameters can't be instantiated without arguments.
+				if hasRequiredParams(prsFn) {
+					continue
+				}
+
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
@@ -95,7 +100,11 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
-	var err error
+
+	err := bindArgs(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
 
 	typ := typeChain[0].Type()
 	switch typ {
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..199805f 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -5,20 +5,12 @@ import (
 )
 
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
-	tc := typeChain
 	i := 0
 	return func() (prs.Functionality, bool) {
-		if i == len(tc) {
+		if i == len(typeChain) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
-		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
+		typ := typeChain[i]
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..fb2c8c4 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -65,6 +65,18 @@ func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Sy
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From 1c16c49744268a48229b5927cbfb75cb71b507e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 25/82] fix: report constants depending on themselves

---
 internal/prs/const.go | 14 ++++++++++++++
 internal/prs/expr.go  |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..b503876 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,12 +5,26 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool
+}
+
+// eval evaluates constant value.
+// It returns an error if the constant value depends on itself.
+func (c *Const) eval() (val.Value, error) {
+	if c.evaluating {
+		return nil, fmt.Errorf("value depends on itself")
+	}
+	c.evaluating = true
+	defer func() { c.evaluating = false }()
+	return c.Value.Eval()
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 9fd47df..04e7937 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -390,7 +390,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -412,7 +412,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
-- 
2.43.0


From 5e085e77812ede894a735a8c0981337e6e6966b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 26/82] fix: report types depending on themselves instead of
 overflowing stack

---
 internal/ins/ins.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 435e3eb..2b2d2d3 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -96,11 +96,25 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// underInstantiation contains types and instantiations which are currently being instantiated.
+var underInstantiation = make(map[prs.Functionality]bool)
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
 
+	for _, t := range typeChain {
+		if underInstantiation[t] {
+			log.Fatalf(
+				"%s:%d:%d: '%s' instantiates itself",
+				t.File().Path, t.Line(), t.Col(), t.Name(),
+			)
+		}
+		underInstantiation[t] = true
+		defer delete(underInstantiation, t)
+	}
+
 	err := bindArgs(typeChain)
 	if err != nil {
 		log.Fatalf("%v", err)
@@ -144,8 +158,20 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+	return resolveToBaseTypeRec(f, make(map[prs.Functionality]bool))
+}
+
+func resolveToBaseTypeRec(f prs.Functionality, visited map[prs.Functionality]bool) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
+	if visited[f] {
+		log.Fatalf(
+			"%s:%d:%d: type '%s' is defined with itself",
+			f.File().Path, f.Line(), f.Col(), f.Name(),
+		)
+	}
+	visited[f] = true
+
 	if !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
@@ -162,7 +188,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveToBaseTypeRec(typeFn, visited)...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From 63286aa4cc6030bb238a9c75f3b1e6422e800085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 27/82] fix: ignore constants not representable by constant
 container instead of panicking

---
 internal/util/constContainer/constContainer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..e9941f2 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -40,6 +40,10 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
+		if len(v.(val.List)) == 0 {
+			return
+		}
+
 		switch v.(val.List)[0].(type) {
 		case val.BitStr:
 			panic("not yet implemented")
@@ -50,12 +54,12 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 		case val.Str:
 			panic("not yet implemented")
 		default:
-			panic("should never happen")
+			// The container can't represent lists of other types, ignore the list.
 		}
 	case val.Str:
 		addStrConst(c, name, v)
 	default:
-		panic("should never happen")
+		// The container can't represent values of other types, ignore the constant.
 	}
 }
 
-- 
2.43.0


From 50817adf92d43e58cc4624fe1c519c19995191df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 28/82] fix: report package constants which can't be evaluated
 instead of panicking

---
 internal/ins/const.go | 18 ++++++++++++------
 internal/ins/ins.go   |  5 ++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..df3a3bf 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,12 +1,14 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
-func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
+func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
 	// TODO: Resolve name conflicts.
@@ -15,23 +17,27 @@ func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
 			panic("not yet implemented")
 		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			cPkg, err := constifyPkg(pkg)
+			if err != nil {
+				return nil, err
+			}
+			cPkgs[name] = cPkg
 		}
 	}
 
-	return cPkgs
+	return cPkgs, nil
 }
 
-func constifyPkg(pp *prs.Package) *pkg.Package {
+func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			return nil, fmt.Errorf("cannot evaluate expression for const '%s': %v", c.Name(), err)
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
 
-	return &p
+	return &p, nil
 }
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 2b2d2d3..1c6cd51 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -91,7 +91,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		}
 	}
 
-	pkgs := constifyPackages(packages)
+	pkgs, err := constifyPackages(packages)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	return mainBus, pkgs, nil
 }
-- 
2.43.0


From b6782158f3a7a4d5a471918f7a10b7b7dfe5508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 29/82] fix: check array size evaluation error before checking
 its type

---
 internal/ins/common.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..c96b811 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -27,13 +27,13 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 		isArray = true
 		v, err := inst.Count().Eval()
 
-		if v.Type() != "integer" {
-			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
-		}
-
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
 		}
+
+		if v.Type() != "integer" {
+			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
+		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From 6ea828d2403a566462123aae214757cb2e05abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 30/82] fix: report main bus of invalid base type instead of
 panicking

---
 internal/ins/ins.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 1c6cd51..6eab594 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -85,7 +85,13 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-					mainBus = f.(*fn.Block)
+					mainBus, ok = f.(*fn.Block)
+					if !ok {
+						return nil, nil, fmt.Errorf(
+							"%s:%d:%d: main bus '%s' must be of base type bus, current base type %s",
+							symbol.File().Path, symbol.Line(), symbol.Col(), mainName, f.Type(),
+						)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 58adff71d191f6a41648619089de03d8b3786f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 31/82] fix: report output errors

---
 cmd/fbdl/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..0efe801 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -54,7 +54,7 @@ func main() {
 	if args.DumpConsts != "" {
 		f, err := os.Create(args.DumpConsts)
 		if err != nil {
-			panic(err)
+			log.Fatalf("dump packages constants: %v", err)
 		}
 
 		byteArray, err := json.MarshalIndent(pkgsConsts, "", "  ")
@@ -78,5 +78,8 @@ func main() {
 	if err != nil {
 		log.Fatalf("marshal registerification results: %v", err)
 	}
-	fmt.Printf("%s", string(jsonBytes))
+	_, err = os.Stdout.Write(jsonBytes)
+	if err != nil {
+		log.Fatalf("dump registerification results: %v", err)
+	}
 }
-- 
2.43.0


From 3169f77d29467609ac3cdf439ff65afe30418eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 32/82] fix: consider width property set in main bus type

---
 internal/ins/ins.go | 48 +++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 6eab594..659b664 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,27 +17,37 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
-	}
+	busWidth = dfltBusWidth
 
-	v, err := prop.Value.Eval()
+	// The width property can be set in any type of the main bus type chain.
+	typeChain := resolveToBaseType(main)
+	err := bindArgs(typeChain)
 	if err != nil {
-		return fmt.Errorf(
-			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
-		)
+		return err
 	}
 
-	if vi, ok := v.(val.Int); ok {
-		busWidth = int64(vi)
-	} else {
-		return fmt.Errorf(
-			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
-		)
+	for _, f := range typeChain {
+		prop, ok := f.Props().Get("width")
+		if !ok {
+			continue
+		}
+
+		v, err := prop.Value.Eval()
+		if err != nil {
+			return fmt.Errorf(
+				"%s:%s: cannot evaluate main bus 'width' property",
+				f.File().Path, prop.Loc(),
+			)
+		}
+
+		if vi, ok := v.(val.Int); ok {
+			busWidth = int64(vi)
+		} else {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be of integer type, current type %s",
+				f.File().Path, prop.Loc(), v.Type(),
+			)
+		}
 	}
 
 	return nil
@@ -52,12 +62,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 0327a7d33230571422eb38d1eb4062db3da72f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 33/82] fix: count newlines in strings

---
 internal/tok/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index d77d2d0..a5d761e 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -510,8 +510,11 @@ func parseString(ctx *context) (String, error) {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
+		t.end++
+
+		if b == '\n' {
+			ctx.line++
+			ctx.nlIdx = ctx.idx
 		}
 		if b == '"' {
 			break
-- 
2.43.0


From 461a5c9308c29d37b08aa5f2a1f72c785c656a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 34/82] fix: do not print byte after the end of source in error
 messages

---
 internal/tok/error.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..8e59ba6 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -74,6 +74,10 @@ func (err Error) code(tok Token) string {
 		lineEndIdx--
 	}
 
+	// End of file token is placed after the last byte of the source.
+	if lineEndIdx >= len(src) {
+		lineEndIdx = len(src) - 1
+	}
 	line := src[lineStartIdx : lineEndIdx+1]
 
 	b.WriteRune(' ')
-- 
2.43.0


From 3aa150d4b3e8701493be809fb60f7123290209b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 35/82] fix: allow comment before the first constant in multi
 constant definition

---
 internal/ast/const.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..3b9624c 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -73,6 +73,12 @@ tokenLoop:
 			case tok.Ident:
 				con.Name = t
 				state = Ass
+			case tok.Comment:
+				doc := buildDoc(ctx)
+				con.Doc = doc
+				ctx.idx--
+			case tok.Newline:
+				continue
 			default:
 				return nil, unexpected(t, "identifier")
 			}
-- 
2.43.0


From 5196b4011bd21a538d6bcfc0baeabd865ccaec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 36/82] fix: allow comments in multi import

---
 internal/ast/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/import.go b/internal/ast/import.go
index f9b8d46..59e4321 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -73,7 +73,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-			case tok.Newline:
+			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
 				ctx.idx++
-- 
2.43.0


From d2142dcdefc5501960a1864a261b9fa54a13cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 37/82] fix: trim 'fbd-' prefix from default import name

---
 internal/prs/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
-- 
2.43.0


From 9febf4fa898320354157109f129a356f9109dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 38/82] fix: do not drop one character documentation comments

---
 internal/ast/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..e71582b 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,7 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
+		if len(t) > start {
 			text += t[start:]
 		}
 
-- 
2.43.0


From 74dcd076a1d78ab15abf372b102193680bd9304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 39/82] fix: integer division by zero for static array with
 zero width

---
 internal/reg/static.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/static.go b/internal/reg/static.go
index c745b58..dfdb2c5 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -45,7 +45,10 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
 	// TODO: In all below branches a potential gap can be added.
-	if busWidth/2 < st.Width && st.Width <= busWidth {
+	if st.Width == 0 {
+		// Items of zero width occupy no bits, the same as for config and status arrays.
+		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
+	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
-- 
2.43.0


From 63e5a7bdc8d2a0c728c5eda5ac96f6343457e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 40/82] fix: time needed to make single access to many
 registers proportional to the width

---
 pkg/fbdl/types/access.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..8ac5038 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -82,19 +82,14 @@ func MakeSingleOneRegAccess(addr, startBit, width int64) Access {
 //	|| c(0) || || c(1) || || c(2) | 24 bits gap ||
 //	---------- ---------- ------------------------
 func MakeSingleNRegsAccess(addr, startBit, width int64) Access {
-	regCount := int64(1)
-
-	endBit := int64(0)
-	w := busWidth - startBit
-	for {
-		regCount += 1
-		if w+busWidth < width {
-			w += busWidth
-		} else {
-			endBit = width - w - 1
-			break
-		}
+	// Width placed in the registers following the first one.
+	w := width - (busWidth - startBit)
+
+	regCount := int64(2)
+	if w > busWidth {
+		regCount += (w - 1) / busWidth
 	}
+	endBit := w - (regCount-2)*busWidth - 1
 
 	return Access{
 		Type:          "SingleNRegs",
-- 
2.43.0


From 1a26a497e625220845885891fb1dcc4f44fe0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 41/82] fix: subblocks of block array placed in the address
 space of the last block

---
 internal/reg/assign.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/reg/assign.go b/internal/reg/assign.go
index 51cd103..f16c2c5 100644
--- a/internal/reg/assign.go
+++ b/internal/reg/assign.go
@@ -46,7 +46,8 @@ func assignGlobalAccessAddresses(blk *fn.Block, baseAddr int64) {
 	}
 	sort.Slice(blk.Subblocks, sortFunc)
 
-	subblockBaseAddr := blk.AddrSpace.End + 1
+	// In case of array of blocks place subblocks within the first block of the array.
+	subblockBaseAddr := blk.AddrSpace.Start + blk.Sizes.Aligned
 	// Iterate subblocks in decreasing size order.
 	for i := len(blk.Subblocks) - 1; i >= 0; i-- {
 		sb := blk.Subblocks[i]
-- 
2.43.0


From a917e28fdeba1f32cbd0b87b1882da0372302d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 42/82] fix: start register width of array with multiple items
 placed in the only register

---
 pkg/fbdl/types/access.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 8ac5038..d2d1579 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -292,6 +292,11 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 
 	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
 
+	startRegWidth := width * itemsInReg
+	if regCount == 1 {
+		startRegWidth = width * itemsInEndReg
+	}
+
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
 		RegCount:      regCount,
@@ -302,7 +307,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		EndAddr:       startAddr + regCount - 1,
 		StartBit:      0,
 		EndBit:        itemsInEndReg*width - 1,
-		StartRegWidth: width * itemsInReg,
+		StartRegWidth: startRegWidth,
 		EndRegWidth:   width * itemsInEndReg,
 	}
 }
-- 
2.43.0


From b90b5ffd851fcdc84e1d0a0135c2ede50d2e4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 43/82] fix: silent overflow of integer arithmetic

---
 internal/prs/expr.go | 70 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 4 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 04e7937..dec9f06 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -84,17 +84,38 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Add:
 			switch y := y.(type) {
 			case val.Int:
-				v = x + y
+				r, ok := arithInt(op, int64(x), int64(y))
+				if !ok {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of addition %d + %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v = val.Int(r)
 			}
 		case tok.Sub:
 			switch y := y.(type) {
 			case val.Int:
-				v = x - y
+				r, ok := arithInt(op, int64(x), int64(y))
+				if !ok {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of subtraction %d - %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v = val.Int(r)
 			}
 		case tok.Mul:
 			switch y := y.(type) {
 			case val.Int:
-				v = x * y
+				r, ok := arithInt(op, int64(x), int64(y))
+				if !ok {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of multiplication %d * %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v = val.Int(r)
 			}
 		case tok.Div:
 			switch y := y.(type) {
@@ -105,6 +126,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
+				if x == math.MinInt64 && y == -1 {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of division %d / %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -147,7 +174,14 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
-				v = x << y
+				r, ok := arithInt(op, int64(x), int64(y))
+				if !ok {
+					return nil, tok.Error{
+						Msg:  fmt.Sprintf("result of left shift %d << %d overflows", x, y),
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
+				v = val.Int(r)
 			default:
 				return nil, tok.Error{
 					Msg:  fmt.Sprintf("right operand of left shift must be of type integer, current type %s", y.Type()),
@@ -204,6 +238,31 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
+// arithInt returns result of addition, subtraction, multiplication or left shift of x and y.
+// The second return is false if the result does not fit int64.
+func arithInt(op tok.Operator, x, y int64) (int64, bool) {
+	r := new(big.Int)
+
+	switch op.(type) {
+	case tok.Add:
+		r.Add(big.NewInt(x), big.NewInt(y))
+	case tok.Sub:
+		r.Sub(big.NewInt(x), big.NewInt(y))
+	case tok.Mul:
+		r.Mul(big.NewInt(x), big.NewInt(y))
+	case tok.LShift:
+		// Any non-zero value shifted left by more than 63 bits overflows.
+		if x != 0 && y > 63 {
+			return 0, false
+		}
+		r.Lsh(big.NewInt(x), uint(y%64))
+	default:
+		panic("should never happen")
+	}
+
+	return r.Int64(), r.IsInt64()
+}
+
 // powInt returns x raised to the power of non-negative y.
 // The second return is false if the result does not fit int64.
 func powInt(x, y int64) (int64, bool) {
@@ -552,6 +611,9 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
+			if x == math.MinInt64 {
+				return nil, fmt.Errorf("unary expression, result of negation of %d overflows", x)
+			}
 			return -x, nil
 		default:
 			panic("operator not yet supported")
-- 
2.43.0


From b8a0c3385747c1bbad57e588251e897c66f4c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 44/82] fix: integer raised to negative power evaluated to zero

---
 internal/prs/expr.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index dec9f06..1e800bc 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -153,7 +153,19 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 			switch y := y.(type) {
 			case val.Int:
 				if y < 0 {
-					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+					switch x {
+					case 0:
+						return nil, tok.Error{
+							Msg:  "division by zero",
+							Toks: []tok.Token{be.ast.X.Tok()},
+						}
+					case 1:
+						v = x
+					case -1:
+						v = 1 + 2*(y%2)
+					default:
+						v = val.Float(math.Pow(float64(x), float64(y)))
+					}
 					break
 				}
 				p, ok := powInt(int64(x), int64(y))
-- 
2.43.0


From b49f62a8f340ab6b455c4ebff3f91c9da32d6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 45/82] fix: silent overflow of ceil and floor functions

---
 internal/prs/call.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index d3f8745..b76d206 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -67,7 +67,12 @@ func evalCeil(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate ceil for argument of %s type", arg.Type())
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	f = math.Ceil(f)
+	if f < math.MinInt64 || math.MaxInt64 <= f {
+		return nil, fmt.Errorf("result of ceil overflows")
+	}
+
+	return val.Int(int64(f)), nil
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -87,7 +92,12 @@ func evalFloor(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate floor for argument of %s type", arg.Type())
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	f = math.Floor(f)
+	if f < math.MinInt64 || math.MaxInt64 <= f {
+		return nil, fmt.Errorf("result of floor overflows")
+	}
+
+	return val.Int(int64(f)), nil
 }
 
 func evalLog2(c Call) (val.Value, error) {
-- 
2.43.0


From 21a91f9a0ac1efa31188a3f85ffeb30167d4db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 46/82] fix: comments separated with blank line joined into one
 documentation comment

---
 internal/ast/doc.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index e71582b..78f4922 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -44,19 +44,17 @@ func buildDoc(ctx *context) Doc {
 	doc := Doc{}
 	doc.Lines = append(doc.Lines, ctx.tok().(tok.Comment))
 
-	prevNewline := false
 	for {
 		ctx.idx++
 		switch t := ctx.tok().(type) {
 		case tok.Newline:
-			if prevNewline {
-				break
-			} else {
-				prevNewline = true
-			}
+			continue
 		case tok.Comment:
+			// Comments separated with a blank line are separate comments.
+			if t.Line() != doc.endLine()+1 {
+				return doc
+			}
 			doc.Lines = append(doc.Lines, t)
-			prevNewline = false
 		default:
 			return doc
 		}
-- 
2.43.0


From cc9df898b867f54df6eb9576c2152ae2befa3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 47/82] fix: type instantiated within body of its descendant
 reported as recursion

---
 internal/ins/ins.go        | 4 +---
 internal/ins/type_chain.go | 4 ++++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 659b664..07def6f 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -115,7 +115,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
-// underInstantiation contains types and instantiations which are currently being instantiated.
+// underInstantiation contains types and instantiations which bodies are currently being instantiated.
 var underInstantiation = make(map[prs.Functionality]bool)
 
 func insFunctionality(pf prs.Functionality) fn.Functionality {
@@ -130,8 +130,6 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 				t.File().Path, t.Line(), t.Col(), t.Name(),
 			)
 		}
-		underInstantiation[t] = true
-		defer delete(underInstantiation, t)
 	}
 
 	err := bindArgs(typeChain)
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index 199805f..300e184 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -7,10 +7,14 @@ import (
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	i := 0
 	return func() (prs.Functionality, bool) {
+		if i > 0 {
+			delete(underInstantiation, typeChain[i-1])
+		}
 		if i == len(typeChain) {
 			return nil, false
 		}
 		typ := typeChain[i]
+		underInstantiation[typ] = true
 		i += 1
 		return typ, true
 	}
-- 
2.43.0


From ea707ab6ff166827e285a754b3866df47ed4680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 48/82] fix: inner functionalities of leaf functionalities
 ignored

---
 internal/ins/ins.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 07def6f..8419e34 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -138,6 +138,16 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	}
 
 	typ := typeChain[0].Type()
+
+	switch typ {
+	case "blackbox", "config", "irq", "mask", "param", "return", "static", "status":
+		// Functionalities that cannot have inner functionalities.
+		err = checkNoInnerFunctionalities(typeChain)
+		if err != nil {
+			log.Fatalf("%v", err)
+		}
+	}
+
 	switch typ {
 	case "blackbox":
 		f, err = insBlackbox(typeChain)
@@ -174,6 +184,26 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
+// checkNoInnerFunctionalities returns an error if any type in the type chain has inner functionality.
+func checkNoInnerFunctionalities(typeChain []prs.Functionality) error {
+	for _, t := range typeChain {
+		for _, s := range t.Symbols() {
+			inst, ok := s.(*prs.Inst)
+			if !ok {
+				continue
+			}
+
+			return fmt.Errorf(
+				"%s:%d:%d: "+invalidInnerTypeMsg,
+				inst.File().Path, inst.Line(), inst.Col(),
+				inst.Name(), resolveToBaseType(inst)[0].Type(), typeChain[0].Type(),
+			)
+		}
+	}
+
+	return nil
+}
+
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 	return resolveToBaseTypeRec(f, make(map[prs.Functionality]bool))
 }
-- 
2.43.0


From 5cc7f616f0bcfe36dc556c979bbbda593d63b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 49/82] fix: indent in the first line of a file ignored

---
 internal/ast/build.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ast/build.go b/internal/ast/build.go
index a110f87..fd2b1a3 100644
--- a/internal/ast/build.go
+++ b/internal/ast/build.go
@@ -23,6 +23,14 @@ func Build(src []byte, path string) (File, error) {
 	}
 	ctx.toks = toks
 
+	// The tokenizer does not report indent before the first token.
+	if t := ctx.tok(); t.Column() > 1 {
+		return File{}, tok.Error{
+			Msg:  "unexpected indent in the first line",
+			Toks: []tok.Token{t},
+		}
+	}
+
 	for {
 		if _, ok := ctx.tok().(tok.Eof); ok {
 			break
-- 
2.43.0


From 70b3e27f94071a627324bccb1debb724214c46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 50/82] fix: diagnostic depending on the iteration order of
 packages

---
 internal/ins/args.go   |  4 ++--
 internal/ins/const.go  |  3 ++-
 internal/ins/ins.go    |  4 ++--
 internal/prs/import.go |  4 ++--
 internal/prs/pkg.go    | 14 ++++++++++++++
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 3b6c675..349bbef 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -10,8 +10,8 @@ import (
 
 // resolveArgLists checks argument lists of all symbols within packages.
 func resolveArgLists(packages prs.Packages) error {
-	for _, pkgs := range packages {
-		for _, pkg := range pkgs {
+	for _, name := range packages.Names() {
+		for _, pkg := range packages[name] {
 			err := resolveArgListsInSymbols(pkg.Symbols())
 			if err != nil {
 				return err
diff --git a/internal/ins/const.go b/internal/ins/const.go
index df3a3bf..88b84d1 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -12,7 +12,8 @@ func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
 	// TODO: Resolve name conflicts.
-	for name, pkgs := range packages {
+	for _, name := range packages.Names() {
+		pkgs := packages[name]
 		if len(pkgs) > 1 {
 			panic("not yet implemented")
 		}
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 8419e34..5970e5a 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -74,8 +74,8 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 
 	var mainBus *fn.Block
 
-	for pkgName, pkgs := range packages {
-		for _, pkg := range pkgs {
+	for _, pkgName := range packages.Names() {
+		for _, pkg := range packages[pkgName] {
 			for _, symbol := range pkg.Symbols() {
 				name := symbol.Name()
 				prsFn, ok := symbol.(prs.Functionality)
diff --git a/internal/prs/import.go b/internal/prs/import.go
index 3f4ee41..e004ff4 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -46,8 +46,8 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 }
 
 func bindImports(packages Packages) {
-	for pkgName, pkgs := range packages {
-		for _, pkg := range pkgs {
+	for _, pkgName := range packages.Names() {
+		for _, pkg := range packages[pkgName] {
 			err := bindPkgImports(pkg, packages)
 			if err != nil {
 				log.Fatalf("package %s: %v", pkgName, err)
diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 3cc262a..66824fa 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -2,6 +2,7 @@ package prs
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 	"sync"
 
@@ -10,6 +11,19 @@ import (
 
 type Packages map[string][]*Package
 
+// Names returns sorted names of packages.
+// It must be used whenever the order of packages affects the result or reported error.
+func (packages Packages) Names() []string {
+	names := make([]string, 0, len(packages))
+
+	for name := range packages {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	return names
+}
+
 // GetMatching returns list of pointers to packages which Path contains path suffix.
 func (packages Packages) GetMatching(path string) []*Package {
 	ret := []*Package{}
-- 
2.43.0


From 64e93ba1047c801ed0d3db3a94ae1d525e6ba8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 51/82] fix: diagnostic depending on the iteration order of
 arguments

---
 internal/ins/args.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 349bbef..6799946 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -137,12 +137,16 @@ func bindArgs(typeChain []prs.Functionality) error {
 		}
 
 		values := make(map[string]prs.Expr)
-		for name, expr := range args {
+		for _, p := range typ.Params() {
+			expr, ok := args[p.Name]
+			if !ok {
+				continue
+			}
 			v, err := expr.Eval()
 			if err != nil {
 				return err
 			}
-			values[name] = argValue{v}
+			values[p.Name] = argValue{v}
 		}
 
 		typ.SetResolvedArgs(bindDefaults(typ, values))
-- 
2.43.0


From ba640cc7f3e919319cc2cbc7ac129d4d27d7b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 52/82] fix: width property accepted for blocks instantiated
 from user types

---
 internal/ins/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..756136d 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,9 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From 407fe051bb0e42c89a7addeee49434b7f315dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 53/82] fix: bus accepted as inner functionality of block

---
 internal/ins/block.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 756136d..4774f06 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -108,9 +108,11 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 
 		f := insFunctionality(s.(prs.Functionality))
 
-		if !util.IsValidInnerType(f.Type(), "block") {
+		// Type of the functionality can't be used, as it is the same for block and bus.
+		innerBaseType := resolveToBaseType(s.(prs.Functionality))[0].Type()
+		if !util.IsValidInnerType(innerBaseType, "block") {
 			return fmt.Errorf(
-				invalidInnerTypeMsg, f.GetName(), f.Type(), "block",
+				invalidInnerTypeMsg, f.GetName(), innerBaseType, "block",
 			)
 		}
 
-- 
2.43.0


From c696f3f41de4c5db788528671f3501974d5cd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 54/82] fix: main bus of block base type accepted

---
 internal/ins/ins.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 5970e5a..702855a 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -95,13 +95,15 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-					mainBus, ok = f.(*fn.Block)
-					if !ok {
+					// Type of the functionality can't be used, as it is the same for block and bus.
+					baseType := resolveToBaseType(prsFn)[0].Type()
+					if baseType != "bus" {
 						return nil, nil, fmt.Errorf(
 							"%s:%d:%d: main bus '%s' must be of base type bus, current base type %s",
-							symbol.File().Path, symbol.Line(), symbol.Col(), mainName, f.Type(),
+							symbol.File().Path, symbol.Line(), symbol.Col(), mainName, baseType,
 						)
 					}
+					mainBus = f.(*fn.Block)
 				}
 			}
 		}
-- 
2.43.0


From 7cc57637a5cd80d90f8178b397ba2ab66e771dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 55/82] fix: type with the name of the main bus instantiated as
 the main bus

---
 internal/ins/ins.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 702855a..c81f585 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,13 +77,15 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	for _, pkgName := range packages.Names() {
 		for _, pkg := range packages[pkgName] {
 			for _, symbol := range pkg.Symbols() {
-				name := symbol.Name()
 				prsFn, ok := symbol.(prs.Functionality)
 				if !ok {
 					continue
 				}
 
-				if name != mainName && util.IsBaseType(prsFn.Type()) {
+				// Other symbols, for example types, might have the same name.
+				isMain := symbol == prs.Symbol(main)
+
+				if !isMain && util.IsBaseType(prsFn.Type()) {
 					continue
 				}
 
@@ -94,7 +96,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 
 				f := insFunctionality(prsFn)
 
-				if pkgName == "main" && name == mainName {
+				if isMain {
 					// Type of the functionality can't be used, as it is the same for block and bus.
 					baseType := resolveToBaseType(prsFn)[0].Type()
 					if baseType != "bus" {
-- 
2.43.0


From 04b2ceed76765767904fcb8b9b8935fec495a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 56/82] fix: functionality of user type silently dropped at
 package level

---
 internal/ins/ins.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index c81f585..7650603 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -89,6 +89,13 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				if !isMain {
+					err := checkPackageLevelInst(prsFn, pkgName)
+					if err != nil {
+						return nil, nil, err
+					}
+				}
+
 				// Type with required parameters can't be instantiated without arguments.
 				if hasRequiredParams(prsFn) {
 					continue
@@ -119,6 +126,31 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// checkPackageLevelInst returns an error if functionality instantiated at the package level
+// is not a bus in the main package.
+// Direct instantiations of base types are checked during the parsing.
+func checkPackageLevelInst(f prs.Functionality, pkgName string) error {
+	if f.Kind() != prs.FuncInst {
+		return nil
+	}
+
+	baseType := resolveToBaseType(f)[0].Type()
+	if baseType != "bus" {
+		return fmt.Errorf(
+			"%s:%d:%d: functionality '%s' of type %s cannot be instantiated at package level",
+			f.File().Path, f.Line(), f.Col(), f.Name(), baseType,
+		)
+	}
+	if pkgName != "main" {
+		return fmt.Errorf(
+			"%s:%d:%d: bus instantiation must be placed within 'main' package",
+			f.File().Path, f.Line(), f.Col(),
+		)
+	}
+
+	return nil
+}
+
 // underInstantiation contains types and instantiations which bodies are currently being instantiated.
 var underInstantiation = make(map[prs.Functionality]bool)
 
-- 
2.43.0


From e5c78dbba021813866f7b27c0ebf15f3f276285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:23 +0000
Subject: [PATCH 57/82] fix: several statements in one line accepted after
 constant and import

---
 internal/ast/const.go      |  9 +++++++++
 internal/ast/import.go     | 16 +++++++++++++++-
 internal/ast/unexpected.go | 10 ++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 3b9624c..870bb58 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -37,6 +37,11 @@ func buildSingleConst(ctx *context) ([]Const, error) {
 	}
 	con.Value = expr
 
+	err = checkLineEnd(ctx)
+	if err != nil {
+		return nil, err
+	}
+
 	return []Const{con}, nil
 }
 
@@ -97,6 +102,10 @@ tokenLoop:
 			con.Value = expr
 			consts = append(consts, con)
 			con = Const{}
+			err = checkLineEnd(ctx)
+			if err != nil {
+				return nil, err
+			}
 			ctx.idx--
 			state = Id
 		case Id:
diff --git a/internal/ast/import.go b/internal/ast/import.go
index 59e4321..53a6053 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -41,6 +41,11 @@ func buildSingleImport(ctx *context) ([]Import, error) {
 		ctx.idx++
 	}
 
+	err := checkLineEnd(ctx)
+	if err != nil {
+		return nil, err
+	}
+
 	return []Import{i}, nil
 }
 
@@ -57,6 +62,7 @@ func buildMultiImport(ctx *context) ([]Import, error) {
 	const (
 		Name State = iota
 		Path
+		LineEnd
 	)
 	state := Name
 
@@ -73,6 +79,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
+				state = LineEnd
 			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
@@ -89,10 +96,17 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-				state = Name
+				state = LineEnd
 			default:
 				return nil, unexpected(t, "string")
 			}
+		case LineEnd:
+			err := checkLineEnd(ctx)
+			if err != nil {
+				return nil, err
+			}
+			ctx.idx--
+			state = Name
 		}
 	}
 
diff --git a/internal/ast/unexpected.go b/internal/ast/unexpected.go
index ffbc0e5..1fd9fc9 100644
--- a/internal/ast/unexpected.go
+++ b/internal/ast/unexpected.go
@@ -11,3 +11,13 @@ func unexpected(t tok.Token, expected string) error {
 		Toks: []tok.Token{t},
 	}
 }
+
+// checkLineEnd returns an error if the current token does not end the line.
+func checkLineEnd(ctx *context) error {
+	switch t := ctx.tok().(type) {
+	case tok.Newline, tok.Eof:
+		return nil
+	default:
+		return unexpected(t, "newline")
+	}
+}
-- 
2.43.0


From ee981ab77eb67cc77a8454b4ff2bd26751846566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 58/82] fix: virtual property accepted after inner elements of
 group

---
 internal/ins/group.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..0a65e28 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -162,6 +162,22 @@ func addGroupInnerElement(grp *fn.Group, f any) error {
 }
 
 func checkGroup(grp fn.Group) error {
+	// Inner functionalities might have been added before the virtual property
+	// was set by one of the descendant types.
+	if grp.Virtual {
+		msg := "cannot add %[1]s '%[2]s' to virtual group '%[3]s', virtual %[1]s group makes no sense"
+
+		if len(grp.Irqs) > 0 {
+			return fmt.Errorf(msg, "irq", grp.Irqs[0].Name, grp.Name)
+		}
+		if len(grp.Params) > 0 {
+			return fmt.Errorf(msg, "param", grp.Params[0].Name, grp.Name)
+		}
+		if len(grp.Returns) > 0 {
+			return fmt.Errorf(msg, "return", grp.Returns[0].Name, grp.Name)
+		}
+	}
+
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
-- 
2.43.0


From 6523aaaa51ff214ba92affad8bcbb1977dbe2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 59/82] fix: wrong property name in the diagnostic of blackbox
 size reassignment

---
 internal/ins/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..dbd2e9f 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -65,7 +65,7 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 		switch p.Name {
 		case "size":
 			if bb.Size != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
 		default:
-- 
2.43.0


From 97967b7ddf589819795ae9c1303b4cbe7d4d6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:55 +0000
Subject: [PATCH 60/82] fix: position of property without file in diagnostics

---
 internal/ins/ins.go  | 8 ++++----
 internal/prs/prop.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 7650603..0a0fedb 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -35,8 +35,8 @@ func setBusWidth(main *prs.Inst) error {
 		v, err := prop.Value.Eval()
 		if err != nil {
 			return fmt.Errorf(
-				"%s:%s: cannot evaluate main bus 'width' property",
-				f.File().Path, prop.Loc(),
+				"%s: cannot evaluate main bus 'width' property",
+				prop.Loc(),
 			)
 		}
 
@@ -44,8 +44,8 @@ func setBusWidth(main *prs.Inst) error {
 			busWidth = int64(vi)
 		} else {
 			return fmt.Errorf(
-				"%s:%s: main bus 'width' property must be of integer type, current type %s",
-				f.File().Path, prop.Loc(), v.Type(),
+				"%s: main bus 'width' property must be of integer type, current type %s",
+				prop.Loc(), v.Type(),
 			)
 		}
 	}
diff --git a/internal/prs/prop.go b/internal/prs/prop.go
index e39316e..d6a9442 100644
--- a/internal/prs/prop.go
+++ b/internal/prs/prop.go
@@ -18,7 +18,7 @@ func (p Prop) Line() int { return p.NameTok.Line() }
 func (p Prop) Col() int  { return p.NameTok.Column() }
 
 func (p Prop) Loc() string {
-	return fmt.Sprintf("%d:%d", p.Line(), p.Col())
+	return fmt.Sprintf("%s:%d:%d", p.NameTok.Path(), p.Line(), p.Col())
 }
 
 // PropContainer represents a list of properties.
-- 
2.43.0


From 03ce0ba9c7b07db3bfd65045ff47459d77bebdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 61/82] fix: integer values of very wide functionalities
 converted to malformed bit strings

---
 internal/val/bit_str.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index b48a111..997c875 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -4,8 +4,12 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strings"
 )
 
+// Maximum width of bit string converted from integer.
+const maxBitStrWidth = 1 << 24
+
 // BitStr represents FBDL bit string type.
 type BitStr string
 
@@ -133,20 +137,28 @@ func makeHexBitStr(s string) (BitStr, error) {
 func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	i := int64(v)
 
-	max := int64(math.Pow(float64(2), float64(width))) - int64(1)
-	min := -int64(math.Pow(float64(2), float64(width-1)))
+	if width > maxBitStrWidth {
+		return BitStr(""),
+			fmt.Errorf(
+				"value %d cannot be converted to bit string of width %d, max width = %d",
+				i, width, maxBitStrWidth,
+			)
+	}
+
+	maxVal := int64(math.Pow(float64(2), float64(width))) - int64(1)
+	minVal := -int64(math.Pow(float64(2), float64(width-1)))
 
-	if i > max {
+	if i > maxVal {
 		return BitStr(""),
 			fmt.Errorf(
 				"value %d is too large to be converted to bit string of width %d, max = %d",
-				i, width, max,
+				i, width, maxVal,
 			)
-	} else if i < min {
+	} else if i < minVal {
 		return BitStr(""),
 			fmt.Errorf(
 				"value %d is too small to be converted to bit string of width %d, min = %d",
-				i, width, min,
+				i, width, minVal,
 			)
 	}
 
@@ -156,14 +168,16 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 		u.Add(u, new(big.Int).Lsh(big.NewInt(1), uint(width)))
 	}
 
-	var s string
+	format, base, digitWidth := "b", 2, int64(1)
 	if width%4 == 0 {
-		s = fmt.Sprintf("x\"%0*x\"", width/4, u)
+		format, base, digitWidth = "x", 16, 4
 	} else if width%3 == 0 {
-		s = fmt.Sprintf("o\"%0*o\"", width/3, u)
-	} else {
-		s = fmt.Sprintf("b\"%0*b\"", width, u)
+		format, base, digitWidth = "o", 8, 3
 	}
 
-	return BitStr(s), nil
+	// The width verb of the fmt package must not be used here, as it is limited.
+	digits := u.Text(base)
+	padding := strings.Repeat("0", max(0, int(width/digitWidth)-len(digits)))
+
+	return BitStr(format + "\"" + padding + digits + "\""), nil
 }
-- 
2.43.0


From 32ef6ee30ab9b61a71d7b4217093a5a3253f37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 62/82] fix: expressions containing strings with newlines crash

---
 internal/tok/join.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/tok/join.go b/internal/tok/join.go
index f3372e0..09fac33 100644
--- a/internal/tok/join.go
+++ b/internal/tok/join.go
@@ -5,16 +5,14 @@ package tok
 //
 // It panics if:
 //   - tokens are from different source,
-//   - tokens are not in the same line,
 //   - tok1 is after tok2.
+//
+// Tokens might be in different lines, as strings might contain newlines.
 func Join(tok1, tok2 Token) Token {
-	if tok1.Line() != tok2.Line() {
+	if tok1.Path() != tok2.Path() {
 		panic("cannot join tokens from different files")
 	}
-	if tok1.Line() != tok2.Line() {
-		panic("cannot join tokens placed in different lines")
-	}
-	if tok1.Column() > tok2.Column() {
+	if tok1.Start() > tok2.Start() {
 		panic("cannot join tokens, tok1 starts after tok2")
 	}
 
-- 
2.43.0


From 2ec26095d38a1b461470c133d6ec7a38622b930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 63/82] fix: symlinks to directories and broken symlinks parsed
 as package files

---
 internal/prs/prs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 2d1150d..078a16b 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -60,6 +60,13 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		}
 
 		filePath := path.Join(pkg.Path, file.Name())
+
+		// Ignore symlinks that are broken or point to directories, the package discovery ignores them too.
+		fileInfo, err := os.Stat(filePath)
+		if err != nil || fileInfo.IsDir() {
+			continue
+		}
+
 		filePath = strings.TrimPrefix(filePath, cwd)
 
 		filesWG.Add(1)
-- 
2.43.0


From 91b5b308002ccdf539aa246d10b1614db06f68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 64/82] fix: package listed in FBDPATH with trailing slash
 can't be imported

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index b8005ba..b20e456 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -77,7 +77,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 	}
 
 	base := filepath.Base(dirPath)
-	pkgPath := dirPath
+	pkgPath := filepath.Clean(dirPath)
 	hasPkgPrefix := strings.HasPrefix(base, "fbd-")
 	isPkgDir := false
 
-- 
2.43.0


From 36414bf82353898ad985c7dc6e7bd2c93126dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 65/82] fix: panic when the working directory does not exist

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index b20e456..99aeddc 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -15,7 +15,7 @@ func DiscoverPackages(main string) Packages {
 
 	cwd, err := os.Getwd()
 	if err != nil {
-		panic(err)
+		log.Fatalf("cannot get working directory: %v", err)
 	}
 	pathsToLook = append(pathsToLook, cwd)
 
-- 
2.43.0


From 282200d767415c6613b2c39c36c79f2c29bfd7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:35 +0000
Subject: [PATCH 66/82] fix: error messages for files with 'debug' prefix in
 the name not printed

---
 cmd/fbdl/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index 0efe801..3318c1c 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/args"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ins"
@@ -19,7 +20,8 @@ type Logger struct{}
 func (l Logger) Write(p []byte) (int, error) {
 	print := true
 
-	if len(p) > 4 && string(p)[:5] == "debug" {
+	// Error messages might start with the path to a file with name starting with "debug".
+	if strings.HasPrefix(string(p), "debug: ") {
 		print = printDebug
 	}
 
-- 
2.43.0


From c9f365958d28e23e48d9d723da4fc93c66f14d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 67/82] fix: main file imported when its path has suffix equal
 to import path

---
 internal/prs/pkg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 66824fa..bc9835c 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -28,7 +28,11 @@ func (packages Packages) Names() []string {
 func (packages Packages) GetMatching(path string) []*Package {
 	ret := []*Package{}
 
-	for _, pkgs := range packages {
+	for name, pkgs := range packages {
+		// Main package can't be imported, its path is the path to the main file.
+		if name == "main" {
+			continue
+		}
 		for _, pkg := range pkgs {
 			if strings.HasSuffix(pkg.Path, path) {
 				ret = append(ret, pkg)
-- 
2.43.0


From da35d980e08f85b1afa54200bc9e7921f249110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 68/82] fix: package files silently ignored when they cannot be
 accessed

---
 internal/prs/prs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 078a16b..db99a8f 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -62,9 +62,11 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		filePath := path.Join(pkg.Path, file.Name())
 
 		// Ignore symlinks that are broken or point to directories, the package discovery ignores them too.
-		fileInfo, err := os.Stat(filePath)
-		if err != nil || fileInfo.IsDir() {
-			continue
+		if file.Type()&os.ModeSymlink != 0 {
+			fileInfo, err := os.Stat(filePath)
+			if err != nil || fileInfo.IsDir() {
+				continue
+			}
 		}
 
 		filePath = strings.TrimPrefix(filePath, cwd)
-- 
2.43.0


From 9204fc13ff9f2bedf657cb83499190a49b65cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 69/82] fix: empty values of parameters silently ignored

---
 internal/args/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/args/parse.go b/internal/args/parse.go
index 6aa1d95..98204df 100644
--- a/internal/args/parse.go
+++ b/internal/args/parse.go
@@ -66,6 +66,10 @@ func Parse() {
 		if val {
 			val = false
 
+			if arg == "" {
+				log.Fatalf("empty value of parameter '%s'", param)
+			}
+
 			switch param {
 			case "-main":
 				MainBus = arg
@@ -83,6 +87,10 @@ func Parse() {
 				continue
 			}
 
+			if arg == "" {
+				log.Fatalf("empty value of parameter '%s'", param)
+			}
+
 			switch param {
 			case "-r":
 				DumpReg = arg
-- 
2.43.0


From a011b31dfecd78c5bfecf80494d7f1020ec65433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:04 +0000
Subject: [PATCH 70/82] fix: time literals in milliseconds and microseconds
 overflow

---
 internal/prs/expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 1e800bc..89ee892 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -589,9 +589,9 @@ func (tim Time) Eval() (val.Value, error) {
 	case "s":
 		t = val.Time{S: int64(v.(val.Int)), Ns: 0}
 	case "ms":
-		t = val.Time{S: 0, Ns: 1000000 * int64(v.(val.Int))}
+		t = val.Time{S: int64(v.(val.Int)) / 1000, Ns: 1000000 * (int64(v.(val.Int)) % 1000)}
 	case "us":
-		t = val.Time{S: 0, Ns: 1000 * int64(v.(val.Int))}
+		t = val.Time{S: int64(v.(val.Int)) / 1000000, Ns: 1000 * (int64(v.(val.Int)) % 1000000)}
 	case "ns":
 		t = val.Time{S: 0, Ns: int64(v.(val.Int))}
 	}
-- 
2.43.0


From be6e0414240fc4662871e2e0d67b332eafa64fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:06 +0000
Subject: [PATCH 71/82] fix: irq enable bit placed outside of the register on
 one-bit wide bus

---
 internal/reg/irq.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..e8cba6e 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,7 +32,13 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			// There is no place for the enable bit in the register with irq.
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From 69ca3cbf049a942bd020513bbf1cc88411dc2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:28 +0000
Subject: [PATCH 72/82] fix: documentation comments of inner functionalities
 dropped

---
 internal/ast/body.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..de6bb4b 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
-- 
2.43.0


From 7bf18decc3fff1b1105af78dd217c695e61d95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:58 +0000
Subject: [PATCH 73/82] fix: silent overflow of addresses and sizes of too
 large blocks

---
 internal/reg/reg.go | 53 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index dd20b79..3b3a98a 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -39,6 +39,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 
 	for _, sb := range bus.Subblocks {
 		sbSizes := regBlock(sb)
+		checkSize(bus, float64(sizes.Cumulated)+float64(sizes.Aligned)+float64(sb.Count)*float64(sbSizes.Aligned))
 		sizes.Cumulated += sb.Count * sbSizes.Cumulated
 		sizes.Aligned += sb.Count * sbSizes.Aligned
 	}
@@ -72,7 +73,58 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 	}
 }
 
+// checkSize terminates if the size of the block is too large for the integer arithmetic.
+// There must be a reserve, as the size is later rounded up to the power of 2.
+func checkSize(blk *fn.Block, size float64) {
+	if size > 1<<60 {
+		log.Fatalf("block '%s' is too large", blk.Name)
+	}
+}
+
+// bitsCount returns the upper limit on the number of bits occupied by the functionalities of the block.
+func bitsCount(blk *fn.Block) float64 {
+	count := 0.0
+	add := func(items, width int64) {
+		count += float64(items) * (float64(width) + 2*float64(busWidth))
+	}
+	addParams := func(params []*fn.Param) {
+		for _, p := range params {
+			add(p.Count, p.Width)
+		}
+	}
+	addReturns := func(returns []*fn.Return) {
+		for _, r := range returns {
+			add(r.Count, r.Width)
+		}
+	}
+
+	for _, c := range blk.Configs {
+		add(c.Count, c.Width)
+	}
+	for _, m := range blk.Masks {
+		add(m.Count, m.Width)
+	}
+	for _, p := range blk.Procs {
+		addParams(p.Params)
+		addReturns(p.Returns)
+	}
+	for _, s := range blk.Statics {
+		add(s.Count, s.Width)
+	}
+	for _, s := range blk.Statuses {
+		add(s.Count, s.Width)
+	}
+	for _, s := range blk.Streams {
+		addParams(s.Params)
+		addReturns(s.Returns)
+	}
+
+	return count
+}
+
 func regFunctionalities(blk *fn.Block, addr int64) int64 {
+	checkSize(blk, bitsCount(blk))
+
 	gp := gap.Pool{}
 
 	addr = regProcs(blk, addr)
@@ -258,6 +310,7 @@ func regBlock(blk *fn.Block) types.Sizes {
 
 	for _, sb := range blk.Subblocks {
 		b := regBlock(sb)
+		checkSize(blk, float64(sizes.Cumulated)+float64(sizes.Aligned)+float64(sb.Count)*float64(b.Aligned))
 		sizes.Cumulated += sb.Count * b.Cumulated
 		sizes.Aligned += sb.Count * b.Aligned
 	}
-- 
2.43.0


From 7de86156dcfae6ab7b67e1643818277bd32bbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:31 +0000
Subject: [PATCH 74/82] fix: unary operators absorb the following
 multiplications, divisions, remainders and shifts

---
 internal/ast/expr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index e3e384b..d877671 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -343,7 +343,8 @@ func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
 	op := ctx.tok().(tok.Operator)
 	un := UnaryExpr{Op: op}
 	ctx.idx++
-	x, err := buildExpr(ctx, op)
+	// Unary operators bind stronger than all binary operators except the exponentiation.
+	x, err := buildExpr(ctx, tok.Mul{})
 	if err != nil {
 		return un, err
 	}
-- 
2.43.0


From 97d997eb10175f00309ba97aeee1eff3ccfab231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:33 +0000
Subject: [PATCH 75/82] fix: unary operators not applicable to floats

---
 internal/prs/expr.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 89ee892..6b5e550 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -632,6 +632,17 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		}
 	}
 
+	if x, ok := x.(val.Float); ok {
+		switch ue.op {
+		case UnaryPlus:
+			return x, nil
+		case UnaryMinus:
+			return -x, nil
+		default:
+			panic("operator not yet supported")
+		}
+	}
+
 	return val.Int(0), fmt.Errorf("unary expression, unknown operand type '%s'", x.Type())
 }
 
-- 
2.43.0


From 84f12b5e1a16ebb0be5f7451fe6be9909d9d9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:39 +0000
Subject: [PATCH 76/82] fix: integer literals with leading zeros evaluated as
 octal

---
 internal/prs/expr.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 6b5e550..e9533fd 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -378,7 +378,7 @@ func (i Int) Eval() (val.Value, error) {
 }
 
 func MakeInt(e ast.Int, src []byte) (Int, error) {
-	x, err := strconv.ParseInt(tok.Text(e.X, src), 0, 64)
+	x, err := parseInt(tok.Text(e.X, src))
 	if err != nil {
 		return Int{}, fmt.Errorf("make int: %v", err)
 	}
@@ -386,6 +386,18 @@ func MakeInt(e ast.Int, src []byte) (Int, error) {
 	return Int{x: x}, nil
 }
 
+// parseInt returns value of the integer literal.
+func parseInt(text string) (int64, error) {
+	base := 10
+	if len(text) > 1 && text[0] == '0' && !('0' <= text[1] && text[1] <= '9') {
+		// The base is determined by the prefix.
+		// Base 0 must not be used for decimal literals, as leading zeros would denote octal literals.
+		base = 0
+	}
+
+	return strconv.ParseInt(text, base, 64)
+}
+
 type List struct {
 	exprs []Expr
 }
-- 
2.43.0


From 3cba0e47bcd5ac0c849ebf6ca27add66e5f9a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:44 +0000
Subject: [PATCH 77/82] fix: time literals with binary, octal and hexadecimal
 numbers rejected

---
 internal/prs/expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index e9533fd..044bbd7 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -584,7 +584,7 @@ func MakeTime(e ast.Time, src []byte, s Scope) (Time, error) {
 	intLiteral := aux[0]
 	unit := aux[1]
 
-	x, err := strconv.ParseInt(intLiteral, 10, 64)
+	x, err := parseInt(intLiteral)
 	if err != nil {
 		return Time{}, fmt.Errorf("make time literal: integer literal: %v", err)
 	}
-- 
2.43.0


From a8512ff35524acd55fb68f2b0d9a038abfe9b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 78/82] fix: number of registers of large arrays not exact

---
 pkg/fbdl/types/access.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index d2d1579..cc3ec82 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -2,7 +2,6 @@ package types
 
 import (
 	"fmt"
-	"math"
 )
 
 // Access struct represents information required to access a given functionality.
@@ -36,6 +35,17 @@ type Access struct {
 	EndRegWidth   int64 // Width occupied in the last register.
 }
 
+// ceilDiv returns n divided by positive d, rounded up.
+// Floating point division must not be used, as it is not exact for large numbers.
+func ceilDiv(n, d int64) int64 {
+	q := n / d
+	if n%d > 0 {
+		q++
+	}
+
+	return q
+}
+
 func (acs Access) AddrRange() SingleRange {
 	return SingleRange{Start: acs.StartAddr, End: acs.EndAddr}
 }
@@ -200,7 +210,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	totalWidth := itemCount * width
 	firstRegWidth := busWidth - startBit
 
-	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
+	regCount := ceilDiv(totalWidth-firstRegWidth, busWidth) + 1
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
@@ -290,7 +300,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		panic("itemsInEndReg = 0, use ArrayNInReg")
 	}
 
-	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
+	regCount := ceilDiv(itemCount, itemsInReg)
 
 	startRegWidth := width * itemsInReg
 	if regCount == 1 {
-- 
2.43.0


From 50e4ff2b06e056846f2c0c6512a9587cac0c0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:48 +0000
Subject: [PATCH 79/82] fix: include reset and read values and reset in the bus
 ID

---
 internal/util/hash/block.go  |  3 +++
 internal/util/hash/config.go |  6 ++++++
 internal/util/hash/hash.go   | 10 ++++++++++
 internal/util/hash/irq.go    |  2 +-
 internal/util/hash/mask.go   |  6 ++++++
 internal/util/hash/static.go |  6 ++++++
 internal/util/hash/status.go |  3 +++
 7 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/util/hash/block.go b/internal/util/hash/block.go
index 1430b53..8e0bf82 100644
--- a/internal/util/hash/block.go
+++ b/internal/util/hash/block.go
@@ -16,6 +16,9 @@ func hashBlock(b *fn.Block) uint32 {
 	// Masters
 	write(&buf, b.Masters)
 
+	// Reset
+	writeValue(&buf, "reset", b.Reset)
+
 	// Width
 	write(&buf, b.Width)
 
diff --git a/internal/util/hash/config.go b/internal/util/hash/config.go
index deb830c..af748c8 100644
--- a/internal/util/hash/config.go
+++ b/internal/util/hash/config.go
@@ -19,6 +19,12 @@ func hashConfig(c *fn.Config) uint32 {
 	// InitValue
 	buf.Write([]byte(c.InitValue))
 
+	// ReadValue
+	writeValue(&buf, "read-value", string(c.ReadValue))
+
+	// ResetValue
+	writeValue(&buf, "reset-value", string(c.ResetValue))
+
 	// Width
 	write(&buf, c.Width)
 
diff --git a/internal/util/hash/hash.go b/internal/util/hash/hash.go
index 8358fef..109b4b0 100644
--- a/internal/util/hash/hash.go
+++ b/internal/util/hash/hash.go
@@ -26,6 +26,16 @@ func write(buf io.Writer, data any) {
 	}
 }
 
+// writeValue writes value of an optional property.
+// The name of the property distinguishes the same values of different properties.
+// Nothing is written if the property is not set.
+func writeValue(buf io.Writer, name string, value string) {
+	if value != "" {
+		write(buf, name)
+		write(buf, value)
+	}
+}
+
 func Hash(data any) uint32 {
 	switch d := data.(type) {
 	case types.Range:
diff --git a/internal/util/hash/irq.go b/internal/util/hash/irq.go
index cc0b9b5..b97de7a 100644
--- a/internal/util/hash/irq.go
+++ b/internal/util/hash/irq.go
@@ -23,7 +23,7 @@ func hashIrq(i *fn.Irq) uint32 {
 	buf.Write([]byte(i.EnableInitValue))
 
 	// EnableResetValue
-	buf.Write([]byte(i.EnableResetValue))
+	writeValue(&buf, "enable-reset-value", string(i.EnableResetValue))
 
 	// InTrigger
 	buf.Write([]byte(i.InTrigger))
diff --git a/internal/util/hash/mask.go b/internal/util/hash/mask.go
index 53b848a..05e43cb 100644
--- a/internal/util/hash/mask.go
+++ b/internal/util/hash/mask.go
@@ -19,6 +19,12 @@ func hashMask(m *fn.Mask) uint32 {
 	// InitValue
 	buf.Write([]byte(m.InitValue))
 
+	// ReadValue
+	writeValue(&buf, "read-value", string(m.ReadValue))
+
+	// ResetValue
+	writeValue(&buf, "reset-value", string(m.ResetValue))
+
 	// Width
 	write(&buf, m.Width)
 
diff --git a/internal/util/hash/static.go b/internal/util/hash/static.go
index 2fe6ea9..bb725e0 100644
--- a/internal/util/hash/static.go
+++ b/internal/util/hash/static.go
@@ -16,6 +16,12 @@ func hashStatic(s *fn.Static) uint32 {
 	// InitValue
 	buf.Write([]byte(s.InitValue))
 
+	// ReadValue
+	writeValue(&buf, "read-value", string(s.ReadValue))
+
+	// ResetValue
+	writeValue(&buf, "reset-value", string(s.ResetValue))
+
 	// Width
 	write(&buf, s.Width)
 
diff --git a/internal/util/hash/status.go b/internal/util/hash/status.go
index 08eb5fd..dcdcfa8 100644
--- a/internal/util/hash/status.go
+++ b/internal/util/hash/status.go
@@ -16,6 +16,9 @@ func hashStatus(s *fn.Status) uint32 {
 	// Atomic
 	write(&buf, s.Atomic)
 
+	// ReadValue
+	writeValue(&buf, "read-value", string(s.ReadValue))
+
 	// Width
 	write(&buf, s.Width)
 
-- 
2.43.0


From 9dcf5e5ae410e0a44e9175ea6ffb8bea040083f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:10 +0000
Subject: [PATCH 80/82] fix: distinguish lists and adjacent strings in the bus
 ID

---
 internal/util/hash/constContainer.go | 3 +++
 internal/util/hash/hash.go           | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/internal/util/hash/constContainer.go b/internal/util/hash/constContainer.go
index cad4121..45ee32c 100644
--- a/internal/util/hash/constContainer.go
+++ b/internal/util/hash/constContainer.go
@@ -24,6 +24,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	sort.Strings(keys)
 	for _, key := range keys {
 		list := c.BoolLists[key]
+		writeLen(&buf, len(list))
 		for _, val := range list {
 			write(&buf, val)
 		}
@@ -48,6 +49,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	sort.Strings(keys)
 	for _, key := range keys {
 		list := c.IntLists[key]
+		writeLen(&buf, len(list))
 		for _, val := range list {
 			write(&buf, val)
 		}
@@ -57,6 +59,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Strings)
 	sort.Strings(keys)
 	for _, key := range keys {
+		writeLen(&buf, len(c.Strings[key]))
 		buf.Write([]byte(c.Strings[key]))
 	}
 
diff --git a/internal/util/hash/hash.go b/internal/util/hash/hash.go
index 109b4b0..34ca199 100644
--- a/internal/util/hash/hash.go
+++ b/internal/util/hash/hash.go
@@ -26,6 +26,12 @@ func write(buf io.Writer, data any) {
 	}
 }
 
+// writeLen writes length of a list or a string.
+// Without it, items moved between adjacent lists or strings would not change the hash.
+func writeLen(buf io.Writer, n int) {
+	write(buf, int64(n))
+}
+
 // writeValue writes value of an optional property.
 // The name of the property distinguishes the same values of different properties.
 // Nothing is written if the property is not set.
-- 
2.43.0


From 1b9174f3e40d59ac5da912ec289a159cd1f81c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:42 +0000
Subject: [PATCH 81/82] fix: include ranges of configs and delays of streams in
 the bus ID

---
 internal/util/hash/config.go | 5 +++++
 internal/util/hash/range.go  | 6 +++++-
 internal/util/hash/stream.go | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/util/hash/config.go b/internal/util/hash/config.go
index af748c8..f8240f3 100644
--- a/internal/util/hash/config.go
+++ b/internal/util/hash/config.go
@@ -25,6 +25,11 @@ func hashConfig(c *fn.Config) uint32 {
 	// ResetValue
 	writeValue(&buf, "reset-value", string(c.ResetValue))
 
+	// Range
+	if c.Range != nil {
+		write(&buf, Hash(c.Range))
+	}
+
 	// Width
 	write(&buf, c.Width)
 
diff --git a/internal/util/hash/range.go b/internal/util/hash/range.go
index 45026eb..b117fb3 100644
--- a/internal/util/hash/range.go
+++ b/internal/util/hash/range.go
@@ -12,7 +12,11 @@ func hashRange(ran types.Range) uint32 {
 	case types.SingleRange:
 		return hashSingleRange(r)
 	case types.ArrayRange:
-		panic("unimplemented")
+		buf := bytes.Buffer{}
+		for _, sr := range r {
+			write(&buf, hashSingleRange(sr))
+		}
+		return adler32.Checksum(buf.Bytes())
 	default:
 		panic("unimplemented")
 	}
diff --git a/internal/util/hash/stream.go b/internal/util/hash/stream.go
index 6552b54..677848d 100644
--- a/internal/util/hash/stream.go
+++ b/internal/util/hash/stream.go
@@ -13,6 +13,11 @@ func hashStream(s *fn.Stream) uint32 {
 	// Func
 	write(&buf, Hash(&s.Func))
 
+	// Delay
+	if s.Delay != nil {
+		write(&buf, *s.Delay)
+	}
+
 	// Params
 	for _, p := range s.Params {
 		write(&buf, Hash(p))
-- 
2.43.0


From 4b6be6a134a1e3907b38abbb1a1b2251d502978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:45 +0000
Subject: [PATCH 82/82] fix: exponential time of evaluation of constants
 referring to each other

---
 internal/prs/const.go | 37 ++++++++++++++++++++++++++++++++++++-
 internal/prs/func.go  |  1 -
 internal/prs/inst.go  |  9 ++++-----
 internal/prs/type.go  |  9 ++++-----
 4 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index b503876..624dd52 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -14,17 +14,52 @@ type Const struct {
 	Value Expr
 
 	evaluating bool
+
+	// The last evaluated value and the binding it was evaluated for.
+	value   val.Value
+	binding uint64
+}
+
+// currentBinding identifies the current binding of arguments to parameters.
+// The value of a constant may depend on the arguments,
+// so it must not be reused after any arguments have been bound.
+var currentBinding uint64 = 1
+
+// bindArgs returns constants for the arguments bound to the parameters.
+func bindArgs(args map[string]Expr) map[string]*Const {
+	currentBinding++
+
+	consts := make(map[string]*Const, len(args))
+	for name, expr := range args {
+		consts[name] = &Const{Value: expr}
+	}
+
+	return consts
 }
 
 // eval evaluates constant value.
 // It returns an error if the constant value depends on itself.
+//
+// The value is evaluated once per binding of arguments. Evaluating it on every reference
+// takes time exponential in the length of the chain of constants referring to each other.
 func (c *Const) eval() (val.Value, error) {
+	if c.binding == currentBinding {
+		return c.value, nil
+	}
+
 	if c.evaluating {
 		return nil, fmt.Errorf("value depends on itself")
 	}
 	c.evaluating = true
 	defer func() { c.evaluating = false }()
-	return c.Value.Eval()
+
+	v, err := c.Value.Eval()
+	if err != nil {
+		return nil, err
+	}
+	c.value, c.binding = v, currentBinding
+
+	return v, nil
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/func.go b/internal/prs/func.go
index 23a4042..d4f3854 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -11,7 +11,6 @@ type Functionality interface {
 	Args() []Arg
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
-	ResolvedArgs() map[string]Expr
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..5c55c2c 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -16,7 +16,7 @@ type Inst struct {
 	count Expr
 
 	argList      ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]*Const
 
 	props PropContainer
 	symbolContainer
@@ -33,8 +33,8 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := i.resolvedArgs[name]; ok {
+		return c, nil
 	}
 
 	return i.scope.GetConst(name)
@@ -59,8 +59,7 @@ func (i *Inst) GetType(name string) (*Type, error) {
 }
 
 func (i Inst) Args() []Arg                         { return i.argList.Args }
-func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = ra }
-func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
+func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = bindArgs(ra) }
 func (i Inst) Props() PropContainer                { return i.props }
 func (i Inst) Symbols() []Symbol                   { return i.symbolContainer.Symbols() }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index fb2c8c4..c3d19e6 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,7 +17,7 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]*Const
 
 	props PropContainer
 	symbolContainer
@@ -29,8 +29,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.resolvedArgs[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -58,8 +58,7 @@ func (t Type) Kind() SymbolKind                    { return TypeDef }
 func (t Type) Type() string                        { return t.typ }
 func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
-func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
-func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
+func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = bindArgs(ra) }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
-- 
2.43.0

