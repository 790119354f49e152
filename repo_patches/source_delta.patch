From 97d10bbaf4b6bd4e00a15dad9ac58f9238ac8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/26] fix: keep DEFAULT values and OID references when parser
 stack slots are reused

---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From a362d7bcdec9205c825ee5742860fd9c8d662f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 02/26] fix: consume comment openers whole and nest block
 comments without recursion

---
 lexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 235197c..cfa99c7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1)
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
@@ -317,6 +319,7 @@ func (lex *MyLexer) skipLineComment() {
 func (lex *MyLexer) skipBlockComment() {
 	lastIsOpeningSlash := false
 	lastIsClosingStar := false
+	depth := 1
 	for {
 		r, _, err := lex.readRune()
 		if err == io.EOF {
@@ -324,14 +327,17 @@ func (lex *MyLexer) skipBlockComment() {
 		}
 		if r == '/' {
 			if lastIsClosingStar {
-				return
+				depth--
+				if depth == 0 {
+					return
+				}
 			} else {
 				lastIsOpeningSlash = true
 				continue
 			}
 		} else if r == '*' {
 			if lastIsOpeningSlash {
-				lex.skipBlockComment()
+				depth++
 			} else {
 				lastIsClosingStar = true
 				continue
-- 
2.43.0


From 8ea96fe4e2b49b40aa76e01fea7dd65aaa29ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/26] fix: report block comments that are never closed

---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index cfa99c7..a0188e3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -323,6 +323,7 @@ func (lex *MyLexer) skipBlockComment() {
 	for {
 		r, _, err := lex.readRune()
 		if err == io.EOF {
+			lex.Error("unexpected end of file in block comment")
 			return
 		}
 		if r == '/' {
-- 
2.43.0


From c748c9536c0da2a1702aea4fe87cb542fab6575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 04/26] fix: keep the first lexer or parser error

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index a0188e3..1341695 100644
--- a/lexer.go
+++ b/lexer.go
@@ -414,7 +414,11 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 }
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
+// Only the first error is kept, as later ones are its consequences.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From 3dfee98a47847a5b1dd1fdc39e2778d8de9cce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 05/26] fix: count CR LF as one line break and report a
 trailing hyphen on its own line

---
 lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 1341695..8c3dd7a 100644
--- a/lexer.go
+++ b/lexer.go
@@ -108,6 +108,8 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+	// lastWasCR is set after carriage return, as CR LF is a single line break.
+	lastWasCR bool
 }
 
 // Lex implements yyLexer.
@@ -248,15 +250,17 @@ func (lex *MyLexer) unreadRune() error {
 	}
 	if isNewline(lex.peekRune()) {
 		lex.lineNo -= 1
+		lex.lastWasCR = false
 	}
 	return r
 }
 
 func (lex *MyLexer) readRune() (rune, int, error) {
 	r, n, err := lex.bufReader.ReadRune()
-	if isNewline(r) {
+	if isNewline(r) && !(r == '\n' && lex.lastWasCR) {
 		lex.lineNo += 1
 	}
+	lex.lastWasCR = r == '\r'
 	return r, n, err
 }
 
@@ -358,12 +362,12 @@ func (lex *MyLexer) consumeWord() (string, error) {
 		r, _, err := lex.readRune()
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
 			label := acc.String()
-			if label[len(label)-1] == '-' {
-				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
-			}
 			if err == nil {
 				lex.unreadRune()
 			}
+			if label[len(label)-1] == '-' {
+				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
+			}
 			return label, nil
 		}
 		if err != nil {
-- 
2.43.0


From 12bbb105e2c2de189b196bb79bbc5963985c8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 06/26] fix: report reader failures instead of looping or
 ignoring them

---
 parser.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 47b1bc6..e93471a 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -20,14 +21,44 @@ func ParseString(str string) (*ModuleDefinition, error) {
 // ParseStream reads text of ASN.1 definitions from provided reader and parses it into ASN.1 AST.
 func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	lex := &MyLexer{}
-	lex.bufReader = bufio.NewReader(reader)
+	source := &errorKeepingReader{reader: reader}
+	lex.bufReader = bufio.NewReader(source)
 	yyParse(lex)
+	if source.err != nil && source.err != io.EOF {
+		return nil, fmt.Errorf("failed to read: %w", source.err)
+	}
 	if lex.err != nil {
 		return nil, lex.err
 	}
 	return lex.result, nil
 }
 
+// errorKeepingReader remembers the first error of the underlying reader.
+// The lexer sees any error as end of input, so that it stops wherever it is,
+// and the error is not lost if it happens in the middle of a token or a comment.
+type errorKeepingReader struct {
+	reader io.Reader
+	err    error
+}
+
+// maxEmptyReads is how many consecutive reads may return neither data nor error.
+const maxEmptyReads = 100
+
+// Read implements io.Reader.
+func (r *errorKeepingReader) Read(p []byte) (int, error) {
+	for i := 0; i < maxEmptyReads && r.err == nil; i++ {
+		n, err := r.reader.Read(p)
+		r.err = err
+		if n > 0 {
+			return n, nil
+		}
+	}
+	if r.err == nil {
+		r.err = io.ErrNoProgress
+	}
+	return 0, io.EOF
+}
+
 // ParseFile parses ASN.1 definition file into ASN.1 AST.
 func ParseFile(name string) (*ModuleDefinition, error) {
 	file, err := os.Open(name)
-- 
2.43.0


From adeda80f52100c72fafd5a198bda2c837340d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 07/26] fix: parse real literals to the nearest floating point
 number

---
 asn1.y    |  8 ++++----
 parser.go | 12 ++++++++++++
 y.go      |  8 ++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..e41fceb 100644
--- a/asn1.y
+++ b/asn1.y
@@ -647,10 +647,10 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 ;
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
-realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+realnumber : NUMBER  { $$ = parseRealRepr(yylex, $<numberRepr>1, "0", 0) }
+           | NUMBER DOT NUMBER  { $$ = parseRealRepr(yylex, $<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealRepr(yylex, $<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseRealRepr(yylex, $<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index e93471a..ae93f7d 100644
--- a/parser.go
+++ b/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -69,6 +70,17 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 	return ParseStream(file)
 }
 
+// parseRealRepr returns the floating point number nearest to the literal, which is given as digits.
+// Literals out of range are reported to the lexer.
+func parseRealRepr(lex yyLexer, integer string, fraction string, exponent Number) Real {
+	repr := fmt.Sprintf("%v.%ve%v", integer, fraction, exponent.IntValue())
+	value, err := strconv.ParseFloat(repr, 64)
+	if err != nil {
+		lex.Error(fmt.Sprintf("Failed to parse real number: %v", err.Error()))
+	}
+	return Real(value)
+}
+
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
 	value := float64(integer)
 	if fraction != 0 {
diff --git a/y.go b/y.go
index 7a09dd6..0381f2e 100644
--- a/y.go
+++ b/y.go
@@ -1496,25 +1496,25 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:650
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
+			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From 30af87a02b28523a524c808f699c7e19ce962f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 08/26] fix: resolve UTCTime like the other useful type

---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From 4ffce07d826e419194d8fc0877fa571f55a41ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 09/26] fix: import encoding/asn1 for CHOICE types generated as
 RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 29024cef431b8b9a70a149dd0b4652adaaef45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 10/26] fix: generate infinite REAL values as math.Inf

---
 codegen.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codegen.go b/codegen.go
index e25b6a2..3e639fc 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -203,6 +204,13 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 		}
 	case Real:
 		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if math.IsInf(float64(val), 0) {
+			ctx.requireModule("math")
+			valExpr = goast.NewIdent("math.Inf(1)")
+			if val < 0 {
+				valExpr = goast.NewIdent("math.Inf(-1)")
+			}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
-- 
2.43.0


From b3a09fb90e36c963fe157204055d6790b72a16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 11/26] fix: generate whole REAL values as plain literals with
 big.Int integers

---
 codegen.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 3e639fc..98ddd6f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -195,7 +195,11 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		intRepr := ctx.params.IntegerRepr
+		if ctx.isRealType(t) {
+			intRepr = IntegerReprInt64 // plain literal
+		}
+		valExpr = numberToExpr(val, intRepr)
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -227,6 +231,16 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	}
 }
 
+// isRealType tells if type is REAL, directly or through references, tags and constraints.
+func (ctx *moduleContext) isRealType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	_, ok := t.(RealType)
+	return ok
+}
+
 func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Expr {
 	switch t := typeDescr.(type) {
 	case BooleanType:
-- 
2.43.0


From aa452035e0d6fb51a0cb270185c4c77a1358ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 12/26] fix: report named numbers that refer to undefined or
 non-literal values

---
 codegen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codegen.go b/codegen.go
index 98ddd6f..3dcf81a 100644
--- a/codegen.go
+++ b/codegen.go
@@ -326,6 +326,11 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
 				}
 				valueExpr = valueRefToIdent(v.ValueName)
+				if assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name()); assignment == nil {
+					ctx.appendError(fmt.Errorf("%v: can not resolve value reference %v", namedNumber.Name, v.ValueName))
+				} else if _, ok := assignment.Value.(Number); !ok {
+					ctx.appendError(fmt.Errorf("%v: value of %v is not a literal integer", namedNumber.Name, v.ValueName))
+				}
 			}
 			typeName := goifyName(string(reference))
 			specs = append(specs, &goast.ValueSpec{
-- 
2.43.0


From f9940820fd088b2188a427e3a084195e1e1e636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 13/26] fix: report circular type references instead of
 recursing forever

---
 codegen.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 3dcf81a..607b8f3 100644
--- a/codegen.go
+++ b/codegen.go
@@ -572,11 +572,18 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// circular references are not resolved
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
+	visited := make(map[TypeReference]bool)
+	for !visited[reference] {
+		visited[reference] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
 		t := assignment.Type
 		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
+			reference = tt
 		} else {
 			return *assignment
 		}
-- 
2.43.0


From c33bed602edacd890a2ef3ac093361e49f6d66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 14/26] fix: see tags of CHOICE alternatives through chains of
 references

---
 codegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.go b/codegen.go
index 607b8f3..24fb69b 100644
--- a/codegen.go
+++ b/codegen.go
@@ -393,6 +393,10 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if realType == nil {
 			return false
 		}
+		// tags may be added anywhere on the way to the resolved type
+		if direct := ctx.lookupContext.AssignmentList.GetType(t.Name()); direct != nil {
+			realType = direct
+		}
 		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
-- 
2.43.0


From 56ab3789ed8c7fbdd7cdf79386526bf059ed74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 15/26] fix: do not name SEQUENCE OF types as sets because of
 their elements

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 24fb69b..0eadd4c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -269,7 +269,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var stubIsSet bool // elements do not make a set of the list
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &stubIsSet)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From 99e73e758f5a721660ccedf2afb251154f44a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 16/26] fix: mark fields of SET and restricted string types
 given by reference

---
 codegen.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/codegen.go b/codegen.go
index 0eadd4c..782e665 100644
--- a/codegen.go
+++ b/codegen.go
@@ -510,6 +510,8 @@ unwrap:
 			components = append(components, "generalized")
 		case UTCTimeName:
 			components = append(components, "utc")
+		default:
+			components = append(components, ctx.asn1KindFromReference(tt)...)
 		}
 		// TODO omitempty    causes empty slices to be skipped\
 	}
@@ -523,6 +525,24 @@ unwrap:
 	}
 }
 
+// asn1KindFromReference lists what encoding/asn1 can not derive from the go type that a reference is generated as.
+func (ctx *moduleContext) asn1KindFromReference(reference TypeReference) []string {
+	switch t := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type).(type) {
+	case RestrictedStringType:
+		switch t.LexType {
+		case IA5String:
+			return []string{"ia5"}
+		case UTF8String:
+			return []string{"utf8"}
+		case NumericString:
+			return []string{"numeric"}
+		}
+	case SetType:
+		return []string{"set"}
+	}
+	return nil
+}
+
 func (ctx *moduleContext) generateSpecialCase(resolved TypeAssignment) goast.Expr {
 	if resolved.TypeReference.Name() == GeneralizedTimeName || resolved.TypeReference.Name() == UTCTimeName {
 		// time types in encoding/asn1go don't support wrapping of time.Time
-- 
2.43.0


From 2a38c91025e67675b88cd1e23e93035276a97fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 17/26] fix: refuse signed numbers in hex dumps

---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From eac3fdf4b4ee23a87f284b0f3a75cbd0f81330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 18/26] fix: print error messages of asn1go verbatim

---
 cmd/asn1go/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..fffbee6 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%s", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%s", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From 8d1453e081a510bcf728c4ff15e818c35eb0de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 19/26] fix: do not take the offset of an indented hex dump
 line for a byte

---
 internal/utils/dump.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index 959f6ef..ab5c86f 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -13,7 +13,10 @@ const WS_TIME_FORMAT = "2006-01-02 15:04:05"
 func ParseWiresharkHex(str string) []byte {
 	buf := bytes.NewBuffer([]byte{})
 	for _, line := range strings.Split(str, "\n") {
-		elems := strings.Split(line, " ")
+		elems := strings.Fields(line)
+		if len(elems) == 0 {
+			continue
+		}
 		for _, byteRepr := range elems[1:] {
 			if len(byteRepr) == 0 {
 				continue
-- 
2.43.0


From 8e9c17563e40725c25749d746d15c5e61fec4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 20/26] fix: accept IMPORTS from several modules without
 assigned identifiers

---
 asn1.y |   19 +-
 y.go   | 1326 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 668 insertions(+), 677 deletions(-)

diff --git a/asn1.y b/asn1.y
index e41fceb..eb38622 100644
--- a/asn1.y
+++ b/asn1.y
@@ -295,13 +295,11 @@ import (
 %type <NamedBit> NamedBit
 %type <Imports> Imports
 %type <Imports> SymbolsImported
-%type <Imports> SymbolsFromModuleList
-%type <SymbolsFromModule> SymbolsFromModule
+%type <Imports> SymbolsFromModuleList SymbolsFromModuleRest
 %type <SymbolList> SymbolList
 %type <Symbol> Symbol
 %type <Symbol> Reference  // quite questionable
 %type <Value> AssignedIdentifier
-%type <GlobalModuleReference> GlobalModuleReference
 %type <Type> ChoiceType
 %type <ChoiceType> AlternativeTypeLists
 %type <AlternativeTypeList> AlternativeTypeList RootAlternativeTypeList
@@ -414,19 +412,20 @@ SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsFromModuleList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
-                      | SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }
+// Edited from the doc - SymbolsFromModule, GlobalModuleReference and AssignedIdentifier are inlined and the list is
+// right recursive, because a reference after the module is either AssignedIdentifier or the first symbol of the next list.
+SymbolsFromModuleList : SymbolList FROM modulereference SymbolsFromModuleRest
+                          { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, nil}}}, $4...) }
+                      | SymbolList FROM modulereference AssignedIdentifier SymbolsFromModuleRest
+                          { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, $4}}}, $5...) }
 ;
 
-SymbolsFromModule : SymbolList FROM GlobalModuleReference  { $$ = SymbolsFromModule{$1, $3} }
-;
-
-GlobalModuleReference : modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
+SymbolsFromModuleRest : SymbolsFromModuleList
+                      | /*empty*/  { $$ = nil }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
                    | DefinedValue  { $$ = $1 }
-                   | /*empty*/  { $$ = nil }
 ;
 
 SymbolList : Symbol  { $$ = append(make([]Symbol, 0), $1) }
diff --git a/y.go b/y.go
index 0381f2e..ce3ae6d 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1071
+//line asn1.y:1070
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -348,355 +348,359 @@ var yyExca = [...]int16{
 	-1, 47,
 	31, 3,
 	-2, 2,
-	-1, 178,
-	44, 239,
-	94, 239,
-	-2, 235,
-	-1, 180,
-	46, 242,
-	53, 242,
-	-2, 237,
-	-1, 184,
-	60, 245,
-	-2, 243,
-	-1, 193,
-	16, 264,
-	28, 264,
-	-2, 258,
-	-1, 252,
+	-1, 175,
+	44, 238,
+	94, 238,
+	-2, 234,
+	-1, 177,
+	46, 241,
+	53, 241,
+	-2, 236,
+	-1, 181,
+	60, 244,
+	-2, 242,
+	-1, 190,
+	16, 263,
+	28, 263,
+	-2, 257,
+	-1, 246,
+	30, 45,
+	84, 45,
+	-2, 52,
+	-1, 253,
 	32, 6,
 	-2, 4,
-	-1, 329,
-	46, 242,
-	53, 242,
-	-2, 238,
-	-1, 421,
-	30, 138,
-	-2, 132,
+	-1, 331,
+	46, 241,
+	53, 241,
+	-2, 237,
+	-1, 423,
+	30, 137,
+	-2, 131,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 912
+const yyLast = 914
 
 var yyAct = [...]int16{
-	219, 205, 408, 218, 374, 208, 350, 220, 127, 17,
-	193, 177, 259, 317, 313, 17, 281, 277, 238, 291,
-	333, 242, 250, 210, 202, 262, 163, 184, 182, 180,
-	246, 159, 170, 217, 241, 3, 144, 151, 5, 19,
-	168, 38, 29, 295, 19, 416, 11, 9, 19, 168,
-	265, 19, 133, 19, 168, 19, 19, 46, 165, 54,
-	46, 296, 411, 297, 233, 204, 204, 165, 169, 334,
-	45, 54, 165, 45, 273, 227, 215, 169, 274, 46,
-	150, 232, 169, 190, 46, 225, 19, 224, 62, 24,
-	234, 10, 45, 336, 23, 417, 204, 45, 22, 152,
-	266, 172, 336, 21, 35, 31, 148, 42, 137, 142,
-	172, 415, 162, 134, 263, 172, 195, 129, 161, 58,
-	36, 162, 50, 140, 121, 135, 162, 161, 164, 128,
-	164, 128, 161, 211, 214, 61, 268, 155, 203, 260,
-	221, 171, 123, 269, 223, 47, 48, 221, 226, 231,
-	171, 221, 221, 60, 429, 171, 213, 103, 154, 139,
-	216, 139, 59, 128, 239, 228, 400, 253, 370, 245,
-	124, 65, 63, 309, 229, 318, 399, 122, 388, 385,
-	247, 125, 221, 138, 143, 384, 244, 331, 320, 164,
-	141, 126, 136, 44, 40, 53, 44, 32, 41, 271,
-	128, 278, 258, 319, 4, 48, 325, 53, 128, 345,
-	256, 270, 315, 288, 27, 44, 255, 283, 431, 145,
-	44, 343, 310, 289, 344, 430, 290, 422, 342, 430,
-	420, 406, 299, 301, 326, 403, 308, 292, 395, 394,
-	305, 307, 387, 382, 282, 372, 294, 287, 302, 253,
-	253, 286, 280, 222, 261, 62, 275, 15, 230, 425,
-	4, 48, 393, 235, 236, 164, 164, 365, 363, 164,
-	357, 311, 303, 293, 164, 323, 285, 279, 312, 314,
-	165, 199, 338, 335, 25, 30, 132, 322, 347, 211,
-	351, 328, 214, 353, 329, 360, 330, 131, 164, 130,
-	7, 348, 368, 355, 421, 346, 19, 361, 19, 358,
-	352, 327, 272, 64, 356, 354, 375, 28, 204, 359,
-	249, 12, 284, 4, 48, 240, 19, 18, 14, 424,
-	367, 371, 364, 369, 14, 26, 164, 316, 366, 257,
-	18, 298, 300, 19, 377, 335, 278, 47, 48, 304,
-	306, 4, 48, 254, 48, 373, 4, 252, 254, 4,
-	380, 321, 378, 381, 379, 383, 55, 48, 414, 397,
-	396, 376, 164, 341, 164, 340, 339, 324, 337, 267,
-	264, 390, 389, 423, 392, 410, 398, 405, 409, 402,
-	351, 55, 19, 168, 39, 34, 377, 377, 1, 412,
-	413, 401, 209, 418, 207, 211, 404, 206, 212, 419,
-	407, 165, 386, 349, 362, 201, 200, 187, 72, 120,
-	153, 169, 243, 409, 426, 427, 43, 428, 57, 56,
-	37, 360, 276, 69, 94, 77, 86, 149, 237, 99,
-	179, 93, 110, 100, 102, 84, 82, 139, 81, 80,
-	198, 79, 67, 85, 172, 91, 88, 90, 95, 114,
-	106, 71, 111, 197, 89, 162, 96, 113, 332, 194,
-	192, 161, 119, 104, 97, 191, 92, 107, 55, 19,
-	168, 108, 186, 189, 188, 109, 185, 183, 181, 178,
-	391, 115, 176, 175, 171, 105, 174, 173, 165, 116,
-	87, 68, 112, 117, 187, 33, 120, 118, 169, 49,
-	98, 196, 101, 51, 52, 167, 166, 157, 160, 78,
-	158, 94, 156, 248, 251, 83, 99, 73, 93, 110,
-	100, 75, 66, 70, 139, 74, 76, 198, 6, 16,
-	13, 172, 2, 88, 8, 95, 114, 106, 20, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 325, 108, 0,
-	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 326, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
+	216, 202, 410, 215, 376, 205, 352, 217, 125, 17,
+	190, 174, 260, 319, 315, 17, 282, 278, 235, 292,
+	335, 239, 251, 207, 199, 192, 160, 181, 179, 177,
+	247, 102, 240, 263, 167, 156, 214, 142, 5, 238,
+	3, 149, 38, 19, 165, 296, 29, 11, 9, 418,
+	131, 274, 19, 298, 19, 275, 19, 46, 230, 54,
+	46, 266, 162, 297, 336, 413, 201, 44, 229, 53,
+	44, 54, 166, 222, 221, 45, 224, 231, 45, 187,
+	64, 53, 24, 46, 148, 61, 23, 22, 19, 123,
+	21, 35, 10, 44, 31, 19, 165, 338, 201, 419,
+	146, 45, 264, 150, 132, 169, 127, 135, 140, 19,
+	42, 267, 36, 269, 162, 417, 159, 50, 261, 201,
+	270, 120, 158, 431, 166, 60, 161, 143, 161, 212,
+	310, 208, 211, 59, 402, 152, 200, 401, 390, 121,
+	19, 165, 220, 47, 48, 168, 223, 228, 218, 338,
+	218, 126, 218, 320, 210, 242, 372, 169, 213, 162,
+	219, 151, 236, 225, 254, 227, 244, 62, 159, 166,
+	232, 233, 122, 246, 158, 226, 138, 248, 136, 141,
+	387, 321, 126, 44, 218, 58, 161, 243, 4, 48,
+	327, 245, 40, 386, 57, 333, 272, 168, 279, 322,
+	124, 259, 169, 32, 133, 218, 126, 347, 317, 257,
+	126, 289, 137, 159, 284, 256, 271, 126, 328, 158,
+	27, 41, 345, 433, 311, 346, 432, 424, 285, 300,
+	302, 422, 290, 309, 432, 291, 408, 306, 308, 405,
+	137, 293, 168, 139, 397, 303, 396, 299, 301, 389,
+	254, 254, 384, 283, 374, 305, 307, 295, 288, 287,
+	281, 262, 61, 46, 276, 427, 161, 161, 395, 367,
+	161, 134, 15, 44, 312, 161, 325, 365, 359, 314,
+	316, 45, 313, 340, 337, 47, 48, 326, 324, 349,
+	208, 353, 330, 211, 355, 331, 362, 332, 304, 161,
+	30, 294, 350, 286, 357, 162, 348, 280, 363, 25,
+	344, 196, 130, 129, 128, 358, 356, 7, 370, 19,
+	361, 19, 423, 360, 364, 354, 329, 273, 63, 377,
+	28, 201, 369, 366, 426, 250, 12, 373, 161, 371,
+	368, 19, 18, 14, 318, 258, 379, 337, 279, 14,
+	26, 4, 48, 237, 4, 48, 255, 375, 4, 253,
+	255, 18, 382, 19, 380, 383, 381, 385, 47, 48,
+	55, 48, 48, 4, 161, 323, 161, 416, 399, 398,
+	378, 343, 342, 392, 391, 341, 394, 339, 400, 268,
+	411, 404, 353, 55, 19, 165, 265, 425, 379, 379,
+	412, 414, 415, 403, 407, 39, 34, 208, 406, 1,
+	206, 421, 420, 162, 204, 203, 209, 409, 388, 184,
+	351, 119, 198, 166, 197, 411, 428, 429, 71, 430,
+	241, 43, 56, 362, 37, 277, 93, 68, 76, 85,
+	147, 98, 176, 92, 109, 99, 234, 101, 83, 137,
+	81, 80, 195, 79, 78, 66, 169, 84, 87, 90,
+	94, 113, 105, 89, 110, 70, 88, 159, 95, 112,
+	194, 334, 191, 158, 118, 103, 96, 189, 91, 106,
+	55, 19, 165, 107, 188, 183, 186, 108, 185, 182,
+	180, 178, 175, 114, 393, 173, 168, 104, 172, 171,
+	162, 115, 170, 86, 111, 116, 184, 67, 119, 117,
+	166, 33, 97, 193, 100, 49, 51, 52, 164, 163,
+	154, 157, 77, 93, 155, 153, 249, 252, 98, 82,
+	92, 109, 99, 72, 74, 65, 137, 69, 73, 195,
+	75, 6, 16, 169, 13, 87, 2, 94, 113, 105,
+	8, 110, 20, 88, 159, 95, 112, 0, 0, 0,
+	158, 118, 103, 96, 0, 91, 106, 47, 48, 327,
+	107, 0, 0, 0, 108, 0, 0, 0, 0, 0,
+	114, 0, 0, 168, 104, 0, 0, 0, 115, 0,
+	0, 111, 116, 0, 0, 119, 117, 328, 0, 97,
+	193, 100, 0, 0, 0, 0, 0, 0, 0, 0,
+	93, 0, 0, 0, 0, 98, 0, 92, 109, 99,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
-	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
-	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
-	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
+	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
+	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
+	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
+	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
+	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
+	0, 92, 109, 99, 0, 0, 0, 0, 0, 145,
+	0, 0, 0, 0, 0, 0, 87, 0, 94, 113,
+	105, 0, 110, 0, 88, 0, 95, 112, 55, 19,
+	0, 0, 118, 103, 96, 0, 91, 106, 0, 0,
+	0, 107, 0, 0, 0, 108, 0, 0, 0, 0,
+	0, 114, 0, 144, 0, 104, 119, 0, 0, 115,
+	0, 0, 111, 116, 0, 0, 0, 117, 0, 0,
+	97, 93, 100, 0, 0, 0, 98, 0, 92, 109,
+	99, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 94, 113, 105, 0, 110,
+	0, 88, 55, 95, 112, 0, 0, 0, 0, 118,
+	103, 96, 0, 91, 106, 0, 0, 0, 107, 0,
+	0, 0, 108, 0, 0, 0, 0, 0, 114, 0,
+	119, 0, 104, 0, 0, 0, 115, 0, 0, 111,
+	116, 0, 0, 0, 117, 93, 0, 97, 0, 100,
+	98, 0, 92, 109, 99, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 87, 0, 94,
+	113, 105, 0, 110, 0, 88, 0, 95, 112, 0,
+	0, 0, 0, 118, 103, 96, 0, 91, 106, 0,
+	0, 0, 107, 0, 0, 0, 108, 0, 0, 0,
+	0, 0, 114, 0, 0, 0, 104, 0, 0, 0,
+	115, 0, 0, 111, 116, 0, 0, 0, 117, 0,
+	0, 97, 0, 100,
 }
 
 var yyPact = [...]int16{
-	353, -1000, -81, 274, -1000, -17, -1000, 319, 31, 20,
-	16, 11, 257, 319, -1000, -1000, -1000, 182, -1000, -1000,
-	302, -70, -1000, -1000, -1000, -1000, -1000, 332, 38, -1000,
-	164, 36, -1000, 68, -75, 139, -1000, 360, 341, 111,
-	93, 225, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 360,
-	-1000, -1000, -1000, 298, 784, -1000, 82, 341, -1000, 58,
-	-1000, -1000, 341, -1000, 784, 176, -1000, -1000, -1000, -1000,
+	367, -1000, -81, 291, -1000, -16, -1000, 334, 18, 9,
+	8, 4, 282, 334, -1000, -1000, -1000, 188, -1000, -1000,
+	315, -66, -1000, -1000, -1000, -1000, -1000, 353, 27, -1000,
+	170, 23, -1000, 60, -74, 137, -1000, 364, 362, 91,
+	83, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 364,
+	-1000, -1000, -1000, 313, 786, -1000, 79, -1000, 55, -1000,
+	-1000, 362, -1000, 786, 185, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000,
-	-1000, -1000, 273, 271, 260, -1000, -52, 47, -1000, 99,
-	97, -92, 633, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40,
-	-22, -1000, -1000, 353, -1000, 168, 46, -1000, 385, 255,
-	301, 336, 336, -1000, -1000, 49, 710, -6, -8, 168,
-	48, 710, -12, -29, 7, 168, 784, 784, -1000, 317,
-	-1000, -1000, -1000, -1000, 254, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 350, -1000, -1000, 185, 331,
-	-1000, -1000, -1000, 94, -1000, -1000, 224, -1000, -1000, 54,
-	-1000, 6, -1000, 90, -1000, 54, -1000, 385, -1000, -1000,
-	-1000, -1000, -1000, -1000, 296, 168, -25, 228, -1000, 336,
-	250, 222, 214, -1000, 94, 784, 249, 221, -1000, 217,
-	-1000, 181, 196, -1000, 181, -1000, 207, 246, 216, -1000,
-	-54, -30, 168, -1000, 710, 710, -1000, -1000, 207, 245,
-	168, -1000, 710, 710, 336, 168, 168, 138, -1000, -1000,
-	-1000, 191, -1000, -1000, -1000, -1000, 244, 350, 350, -1000,
-	-1000, -1000, -1000, 180, -1000, 329, 167, 185, -1000, 155,
-	559, 294, -1000, 472, 472, -1000, -1000, 472, -1000, -1000,
-	-1000, 154, 41, 168, 202, -1000, 194, -1000, 177, -1000,
-	301, 207, 336, -1000, 168, -1000, 293, 336, 198, -1000,
-	336, 243, 292, -1000, 79, -1000, 46, 784, 168, -1000,
-	168, -1000, 241, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	347, -1000, 240, -1000, -1000, 345, 277, -1000, -1000, 325,
-	-1000, -1000, -1000, -1000, 131, -1000, 323, 215, -1000, -1000,
-	-1000, -1000, -1000, -1000, 32, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 299, -1000, 336, 317, 214, -1000, -1000, 213,
-	-1000, -1000, 94, -1000, 152, 146, -1000, -1000, -1000, 212,
-	-1000, -1000, 168, -1000, -1000, -1000, 145, -1000, 167, -1000,
-	46, -1000, 385, -1000, 235, 209, 208, 168, -1000, 143,
-	133, 207, 336, 205, -1000, -1000, 201, 44, -1000, -1000,
-	-1000, -1000, -1000, -1000, 336, 336, -1000, -2, -1000, -1000,
-	-1000, -1000, -1000, 336, -1000, 200, 287, 197, -1000, -1000,
-	-1000, 321, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	37, -1000, 44, 37, 117, -1000, 195, -1000, 199, -1000,
-	37, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 40, -1000, -1000,
+	-1000, 288, 287, 286, -1000, -54, 38, -1000, 178, 150,
+	-91, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 34, -18,
+	-1000, 367, -1000, 174, 133, -1000, 387, 285, 314, 356,
+	356, -1000, -1000, 102, 712, -19, -20, 174, 49, 712,
+	-25, -35, -6, 174, 786, 786, -1000, 345, -1000, -1000,
+	-1000, 279, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 352, -1000, -1000, 184, 337, -1000, -1000, -1000,
+	73, -1000, -1000, 231, -1000, -1000, 42, -1000, 17, -1000,
+	67, -1000, 42, -1000, 387, -1000, -1000, -1000, -1000, -1000,
+	-1000, 311, 174, -48, 236, -1000, 356, 280, 230, 223,
+	-1000, 73, 786, 276, 229, -1000, 228, -1000, 179, 205,
+	-1000, 179, -1000, 211, 274, 227, -1000, -52, -40, 174,
+	-1000, 712, 712, -1000, -1000, 211, 271, 174, -1000, 712,
+	712, 356, 174, 174, 95, -1000, -1000, -1000, 193, -1000,
+	-1000, 362, -1000, -1000, -1000, 193, -1000, 255, 352, 352,
+	-1000, -1000, -1000, -1000, 176, -1000, 336, 145, 184, -1000,
+	166, 561, 309, -1000, 474, 474, -1000, -1000, 474, -1000,
+	-1000, -1000, 162, 36, 174, 284, -1000, 195, -1000, 175,
+	-1000, 314, 211, 356, -1000, 174, -1000, 308, 356, 182,
+	-1000, 356, 251, 306, -1000, 81, -1000, 133, 786, 174,
+	-1000, 174, -1000, 250, -1000, 174, -1000, 174, -1000, -1000,
+	-1000, 365, -1000, -1000, 242, -1000, -1000, 348, 293, -1000,
+	-1000, 331, -1000, -1000, -1000, -1000, 119, -1000, 329, 224,
+	-1000, -1000, -1000, -1000, -1000, -1000, 88, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 312, -1000, 356, 345, 223, -1000,
+	-1000, 222, -1000, -1000, 73, -1000, 160, 147, -1000, -1000,
+	-1000, 219, -1000, -1000, 174, -1000, -1000, -1000, 105, -1000,
+	145, -1000, 133, -1000, 387, -1000, 241, 216, 214, 174,
+	-1000, 104, 101, 211, 356, 209, -1000, -1000, 206, 47,
+	-1000, -1000, -1000, -1000, -1000, -1000, 356, 356, -1000, 2,
+	-1000, -1000, -1000, -1000, -1000, 356, -1000, 201, 305, 197,
+	-1000, -1000, -1000, 326, 238, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 45, -1000, 47, 45, 86, -1000, 196, -1000,
+	204, -1000, 45, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 34, 157, 1, 548, 544, 542, 540,
-	257, 321, 539, 538, 320, 14, 536, 535, 533, 532,
-	116, 531, 527, 525, 7, 22, 524, 523, 30, 31,
-	522, 10, 520, 519, 518, 517, 516, 515, 26, 18,
-	122, 514, 513, 509, 505, 21, 501, 500, 8, 497,
-	496, 493, 492, 490, 11, 489, 488, 29, 487, 28,
-	25, 27, 486, 484, 483, 482, 475, 470, 83, 469,
-	468, 463, 20, 461, 457, 455, 453, 452, 451, 449,
-	448, 446, 0, 3, 446, 33, 445, 444, 438, 437,
-	436, 435, 433, 432, 17, 430, 429, 428, 119, 162,
-	107, 426, 422, 420, 418, 416, 415, 415, 6, 16,
-	413, 412, 410, 2, 23, 408, 407, 5, 404, 403,
-	402, 398, 395, 394, 12, 24, 19, 387, 385, 383,
-	383, 380, 379, 378, 376, 375, 373, 4, 371, 370,
-	369, 368, 361,
+	0, 34, 13, 39, 31, 1, 552, 550, 546, 544,
+	272, 336, 542, 541, 335, 14, 540, 538, 537, 535,
+	25, 534, 533, 529, 7, 22, 527, 526, 30, 35,
+	525, 10, 524, 522, 521, 520, 519, 518, 26, 18,
+	117, 517, 516, 515, 511, 21, 507, 503, 8, 502,
+	499, 498, 495, 494, 11, 492, 491, 29, 490, 28,
+	33, 27, 489, 488, 486, 485, 484, 477, 79, 472,
+	471, 470, 20, 465, 463, 459, 457, 455, 454, 453,
+	451, 450, 0, 3, 450, 36, 448, 447, 446, 440,
+	439, 438, 437, 435, 17, 434, 432, 155, 32, 185,
+	110, 431, 430, 428, 424, 422, 422, 6, 16, 420,
+	418, 417, 2, 23, 416, 415, 5, 414, 412, 410,
+	409, 406, 405, 12, 24, 19, 404, 400, 397, 397,
+	396, 389, 387, 385, 382, 381, 4, 380, 379, 378,
+	377, 375,
 }
 
 var yyR1 = [...]uint8{
-	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
-	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
-	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
-	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
+	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
+	95, 95, 96, 96, 97, 97, 98, 98, 102, 102,
+	99, 99, 100, 101, 101, 101, 43, 43, 40, 40,
+	76, 15, 15, 42, 41, 20, 20, 20, 19, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
-	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
-	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
-	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 111,
-	111, 112, 112, 113, 113, 128, 129, 129, 83, 83,
-	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 104, 105, 105, 105, 107, 109, 109, 110, 110,
-	108, 130, 106, 106, 86, 86, 86, 87, 88, 88,
-	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
-	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
-	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
-	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
-	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 131, 131, 132,
-	132, 61, 61, 65, 65, 65, 65, 65, 63, 64,
-	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 133, 134, 134, 135, 136, 137, 137, 138,
-	139, 140, 140, 141, 141, 141, 141, 124, 124, 142,
-	142, 142,
+	19, 19, 19, 19, 77, 77, 24, 31, 30, 30,
+	30, 30, 18, 35, 35, 17, 17, 114, 114, 113,
+	113, 38, 38, 32, 32, 22, 115, 115, 115, 117,
+	118, 116, 116, 119, 119, 33, 34, 34, 36, 36,
+	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 124,
+	124, 125, 125, 85, 85, 85, 84, 126, 110, 110,
+	111, 111, 112, 112, 127, 128, 128, 83, 83, 82,
+	82, 82, 82, 80, 80, 80, 81, 81, 23, 23,
+	103, 104, 104, 104, 106, 108, 108, 109, 109, 107,
+	129, 105, 105, 86, 86, 86, 87, 88, 88, 89,
+	89, 89, 89, 79, 79, 16, 29, 29, 28, 28,
+	27, 27, 27, 27, 25, 25, 26, 14, 73, 73,
+	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
+	74, 74, 74, 75, 90, 90, 46, 46, 47, 47,
+	47, 47, 47, 47, 47, 47, 48, 49, 50, 51,
+	51, 51, 52, 53, 54, 54, 55, 55, 56, 57,
+	57, 58, 59, 59, 62, 60, 130, 130, 131, 131,
+	61, 61, 65, 65, 65, 65, 65, 63, 64, 69,
+	69, 70, 70, 71, 71, 72, 72, 68, 66, 67,
+	67, 132, 133, 133, 134, 135, 136, 136, 137, 138,
+	139, 139, 140, 140, 140, 140, 123, 123, 141, 141,
+	141,
 }
 
 var yyR2 = [...]int8{
 	0, 8, 1, 1, 1, 1, 1, 2, 3, 0,
 	1, 2, 1, 1, 1, 1, 4, 2, 2, 2,
 	0, 2, 0, 3, 0, 3, 3, 0, 1, 0,
-	3, 0, 1, 0, 1, 2, 3, 2, 1, 1,
-	0, 1, 3, 1, 1, 1, 1, 1, 2, 1,
-	1, 1, 3, 1, 3, 4, 1, 1, 1, 1,
+	3, 0, 1, 0, 4, 5, 1, 0, 1, 1,
+	1, 3, 1, 1, 1, 1, 1, 2, 1, 1,
+	1, 3, 1, 3, 4, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 4, 1, 3,
-	4, 4, 1, 2, 1, 1, 4, 1, 4, 6,
-	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
-	2, 1, 1, 1, 3, 5, 3, 1, 2, 2,
-	5, 1, 3, 4, 4, 2, 1, 3, 5, 4,
-	1, 2, 2, 0, 1, 5, 7, 1, 2, 2,
-	0, 1, 3, 1, 1, 4, 0, 2, 1, 3,
-	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
-	4, 4, 5, 1, 3, 1, 2, 0, 1, 3,
-	1, 4, 1, 3, 2, 3, 3, 4, 1, 1,
-	1, 1, 1, 0, 3, 3, 2, 3, 4, 1,
-	2, 1, 1, 1, 1, 1, 1, 4, 1, 1,
+	1, 1, 1, 1, 1, 1, 2, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 4, 1, 3, 4,
+	4, 1, 2, 1, 1, 4, 1, 4, 6, 1,
+	1, 1, 3, 1, 1, 1, 1, 1, 1, 2,
+	1, 1, 1, 3, 5, 3, 1, 2, 2, 5,
+	1, 3, 4, 4, 2, 1, 3, 5, 4, 1,
+	2, 2, 0, 1, 5, 7, 1, 2, 2, 0,
+	1, 3, 1, 1, 4, 0, 2, 1, 3, 1,
+	2, 3, 3, 3, 5, 4, 3, 3, 1, 4,
+	4, 5, 1, 3, 1, 2, 0, 1, 3, 1,
+	4, 1, 3, 2, 3, 3, 4, 1, 1, 1,
+	1, 1, 0, 3, 3, 2, 3, 4, 1, 2,
+	1, 1, 1, 1, 1, 1, 4, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 2, 1, 1, 2, 1, 4,
-	4, 4, 4, 4, 4, 4, 4, 4, 1, 1,
-	1, 3, 5, 1, 1, 1, 2, 1, 3, 1,
-	1, 3, 1, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 3,
-	1, 2, 1, 2, 1, 1, 1, 1, 2, 1,
-	3, 3, 1, 1, 1, 3, 5, 1, 3, 2,
-	2, 1, 0, 1, 1, 1, 0, 2, 0, 1,
-	1, 3,
+	1, 1, 1, 2, 1, 1, 2, 1, 4, 4,
+	4, 4, 4, 4, 4, 4, 4, 1, 1, 1,
+	3, 5, 1, 1, 1, 2, 1, 3, 1, 1,
+	3, 1, 1, 2, 1, 2, 1, 1, 1, 1,
+	1, 3, 1, 1, 1, 1, 1, 1, 3, 1,
+	2, 1, 2, 1, 1, 1, 1, 2, 1, 3,
+	3, 1, 1, 1, 3, 5, 1, 3, 2, 2,
+	1, 0, 1, 1, 1, 0, 2, 0, 1, 1,
+	3,
 }
 
 var yyChk = [...]int16{
-	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
+	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
-	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
-	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
-	-18, -73, -104, -22, -17, -21, -16, -91, -33, -78,
-	-79, -80, -81, -23, -86, -76, -90, -47, 71, 79,
-	-74, -75, 91, 56, 49, 73, 81, 89, 125, 54,
-	58, 127, -87, -4, 88, 110, 75, 92, 96, 100,
-	57, 77, 117, 82, 74, 106, 114, 118, 122, 87,
-	34, 42, -98, 84, -100, -20, 15, -48, 32, 66,
-	26, 26, 26, 104, 66, 26, 93, -48, -68, 62,
-	26, 93, -48, -68, 128, -20, 108, 64, 66, -89,
-	102, 59, 121, -103, -3, -31, -30, -35, -32, -29,
-	-34, 86, 80, -38, -5, 26, -36, -37, 8, 36,
-	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
-	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
-	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -125, -24, 17, -5, -116, -118, -117, -120,
-	-114, -5, -115, -114, -5, 27, -125, -85, -83, -82,
-	-24, 103, -20, -24, 93, 93, -48, 27, -125, -85,
-	-20, -24, 93, 93, 83, -20, -20, -88, -39, -15,
-	8, -3, -45, -102, -29, -15, -28, -15, -27, -14,
-	-25, -26, 7, -5, 8, 31, 25, 8, -1, -124,
-	45, 30, -60, 60, -131, 44, 94, -132, 46, 53,
-	-60, -54, 16, 99, 103, 28, -93, -94, -5, 27,
-	30, -109, 30, -124, -20, 27, 30, 30, 32, 27,
-	30, -126, 30, 27, 30, 97, 115, 93, -20, -24,
-	-20, -24, -126, 27, -20, -24, -20, -24, -5, 35,
-	31, 27, -28, -15, -28, 32, 8, -2, 8, 36,
-	33, -142, -38, -15, -20, 8, 36, 17, -61, -57,
-	-59, 33, -70, -72, 28, -31, 61, -133, -48, -134,
-	-135, -136, 26, 27, 30, 32, -125, -24, -126, -110,
-	-108, -24, 17, -117, -38, -15, -114, 27, 17, -125,
-	-82, -31, -20, 27, -45, 27, -25, -15, 25, 8,
-	37, 8, 30, -72, -137, 17, -138, -5, -94, -39,
-	-15, -109, 30, -124, 33, 33, -111, 30, 33, -2,
-	-31, -53, -54, 27, 30, 30, -139, -140, -48, 33,
-	33, -126, -108, 30, -126, -127, 30, -112, -113, -82,
-	-128, 18, -137, -137, -141, 113, 47, 97, -119, -117,
-	30, 17, 30, -129, 8, 27, -83, -113, -83, 37,
-	30, 19,
+	-40, -42, -41, -4, -45, 6, -96, -97, -99, 42,
+	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
+	-73, -103, -22, -17, -21, -16, -91, -33, -78, -79,
+	-80, -81, -23, -86, -76, -90, -47, 71, 79, -74,
+	-75, 91, 56, 49, 73, 81, 89, 125, 54, 58,
+	127, -87, -4, 88, 110, 75, 92, 96, 100, 57,
+	77, 117, 82, 74, 106, 114, 118, 122, 87, 34,
+	42, 84, -100, -20, 15, -48, 32, 66, 26, 26,
+	26, 104, 66, 26, 93, -48, -68, 62, 26, 93,
+	-48, -68, 128, -20, 108, 64, 66, -89, 102, 59,
+	121, -3, -31, -30, -35, -32, -29, -34, 86, 80,
+	-38, -5, 26, -36, -37, 8, 36, -1, 109, 69,
+	-49, -50, -51, -52, -54, -55, 55, -57, -56, -59,
+	-58, -61, -62, -65, 32, -63, -64, -68, -66, -67,
+	-31, -69, -20, 126, -71, 65, 26, -104, -105, -124,
+	-24, 17, -5, -115, -117, -116, -119, -113, -5, -114,
+	-113, -5, 27, -124, -85, -83, -82, -24, 103, -20,
+	-24, 93, 93, -48, 27, -124, -85, -20, -24, 93,
+	93, 83, -20, -20, -88, -39, -15, 8, -3, -45,
+	-98, -102, -97, -29, -15, -3, -45, -28, -15, -27,
+	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
+	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
+	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
+	27, 30, -108, 30, -123, -20, 27, 30, 30, 32,
+	27, 30, -125, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -125, 27, -20, -24, -20, -24, -5,
+	35, 31, -98, 27, -28, -15, -28, 32, 8, -2,
+	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
+	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
+	-48, -133, -134, -135, 26, 27, 30, 32, -124, -24,
+	-125, -109, -107, -24, 17, -116, -38, -15, -113, 27,
+	17, -124, -82, -31, -20, 27, -45, 27, -25, -15,
+	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
+	-94, -39, -15, -108, 30, -123, 33, 33, -110, 30,
+	33, -2, -31, -53, -54, 27, 30, 30, -138, -139,
+	-48, 33, 33, -125, -107, 30, -125, -126, 30, -111,
+	-112, -82, -127, 18, -136, -136, -140, 113, 47, 97,
+	-118, -116, 30, 17, 30, -128, 8, 27, -83, -112,
+	-83, 37, 30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 198, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 197, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
-	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
-	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
-	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
+	0, 28, 40, 42, 43, 44, 45, -2, 4, 23,
+	46, 48, 49, 0, 0, 2, 0, 32, 0, 25,
+	26, 0, 47, 0, 0, 55, 56, 57, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 218, 0, 83,
-	199, 200, 0, 0, 86, 126, 0, 0, 106, 0,
-	0, 159, 0, 51, 215, 216, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 0,
-	183, 30, 35, 0, 42, 54, 0, 217, 0, 119,
-	0, 0, 0, 186, 125, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 174, 0, 0, 214, 0,
-	180, 181, 182, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 107, 108, 92, 0,
-	109, 111, 112, 288, 228, 229, 230, 233, -2, 0,
-	-2, 0, 240, 0, -2, 0, 251, 0, 253, 254,
-	255, 256, 257, -2, 0, 269, 0, 260, 265, 0,
-	0, 163, 167, 172, 130, 0, 0, 97, 100, 102,
-	104, 105, 0, 88, 0, 127, 133, 0, 134, 148,
-	150, 0, 184, 185, 0, 0, 268, 154, 133, 0,
-	157, 158, 0, 0, 0, 175, 176, 0, 178, 179,
-	5, 0, 53, 37, 38, 39, 0, 194, 189, 191,
-	192, 193, -2, 198, 195, 0, 0, 93, 110, 0,
-	0, 0, 236, 0, 0, 247, 248, 0, 249, 250,
-	244, 0, 0, 0, 0, 261, 0, 121, 0, 161,
-	0, 133, 0, 131, 77, 96, 0, 0, 0, 87,
-	0, 0, 0, 129, 0, 151, 0, 0, 221, 225,
-	222, 226, 0, 156, 219, 223, 220, 224, 160, 177,
-	0, 187, 0, 194, 190, 0, 114, 116, 117, 0,
-	227, 287, 289, 290, 0, 92, 0, 231, 246, -2,
-	241, 252, 259, 262, 0, 266, 267, 270, 272, 271,
-	273, 274, 0, 120, 0, 0, 167, 173, 164, 166,
-	168, 170, 288, 103, 0, 0, 89, 128, 132, 140,
-	149, 152, 153, 155, 52, 188, 0, 196, 0, 118,
-	0, 93, 0, 263, 0, 0, 277, 282, 122, 0,
-	0, 133, 0, 98, 90, 91, 133, 0, 197, 115,
-	291, 232, 234, 275, 0, 0, 279, 286, 281, 123,
-	124, 162, 169, 0, 135, 0, 0, 139, 141, 143,
-	144, 146, 0, 278, 280, 283, 284, 285, 99, 101,
-	0, -2, 0, 0, 0, 276, 136, 142, 0, 147,
-	0, 145,
+	70, 71, 72, 73, 74, 75, 217, 0, 82, 198,
+	199, 0, 0, 85, 125, 0, 0, 105, 0, 0,
+	158, 0, 50, 214, 215, 200, 201, 202, 203, 204,
+	205, 206, 207, 208, 209, 210, 211, 212, 0, 182,
+	30, 0, 41, 53, 0, 216, 0, 118, 0, 0,
+	0, 185, 124, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 173, 0, 0, 213, 0, 179, 180,
+	181, 37, 54, 77, 78, 79, 80, 81, 83, 84,
+	93, 94, 0, 106, 107, 91, 0, 108, 110, 111,
+	287, 227, 228, 229, 232, -2, 0, -2, 0, 239,
+	0, -2, 0, 250, 0, 252, 253, 254, 255, 256,
+	-2, 0, 268, 0, 259, 264, 0, 0, 162, 166,
+	171, 129, 0, 0, 96, 99, 101, 103, 104, 0,
+	87, 0, 126, 132, 0, 133, 147, 149, 0, 183,
+	184, 0, 0, 267, 153, 132, 0, 156, 157, 0,
+	0, 0, 174, 175, 0, 177, 178, 5, 0, 52,
+	34, 37, 36, 38, 39, 44, -2, 0, 193, 188,
+	190, 191, 192, -2, 197, 194, 0, 0, 92, 109,
+	0, 0, 0, 235, 0, 0, 246, 247, 0, 248,
+	249, 243, 0, 0, 0, 0, 260, 0, 120, 0,
+	160, 0, 132, 0, 130, 76, 95, 0, 0, 0,
+	86, 0, 0, 0, 128, 0, 150, 0, 0, 220,
+	224, 221, 225, 0, 155, 218, 222, 219, 223, 159,
+	176, 0, 35, 186, 0, 193, 189, 0, 113, 115,
+	116, 0, 226, 286, 288, 289, 0, 91, 0, 230,
+	245, -2, 240, 251, 258, 261, 0, 265, 266, 269,
+	271, 270, 272, 273, 0, 119, 0, 0, 166, 172,
+	163, 165, 167, 169, 287, 102, 0, 0, 88, 127,
+	131, 139, 148, 151, 152, 154, 51, 187, 0, 195,
+	0, 117, 0, 92, 0, 262, 0, 0, 276, 281,
+	121, 0, 0, 132, 0, 97, 89, 90, 132, 0,
+	196, 114, 290, 231, 233, 274, 0, 0, 278, 285,
+	280, 122, 123, 161, 168, 0, 134, 0, 0, 138,
+	140, 142, 143, 145, 0, 277, 279, 282, 283, 284,
+	98, 100, 0, -2, 0, 0, 0, 275, 135, 141,
+	0, 146, 0, 144,
 }
 
 var yyTok1 = [...]int8{
@@ -1062,177 +1066,171 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:343
+//line asn1.y:341
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:346
+//line asn1.y:344
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:351
+//line asn1.y:349
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:362
+//line asn1.y:360
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:365
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:366
+//line asn1.y:364
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:369
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:370
+//line asn1.y:368
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:374
+//line asn1.y:372
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:375
+//line asn1.y:373
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:378
+//line asn1.y:376
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:382
+//line asn1.y:380
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:387
+//line asn1.y:385
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:388
+//line asn1.y:386
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:391
+//line asn1.y:389
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:392
+//line asn1.y:390
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:395
+//line asn1.y:393
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:396
+//line asn1.y:394
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:409
+//line asn1.y:407
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:410
+//line asn1.y:408
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:413
+//line asn1.y:411
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:414
+//line asn1.y:412
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:417
-		{
-			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
-		}
-	case 35:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:418
 		{
-			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, nil}}}, yyDollar[4].Imports...)
 		}
-	case 36:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:421
+	case 35:
+		yyDollar = yyS[yypt-5 : yypt+1]
+//line asn1.y:420
 		{
-			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, yyDollar[4].Value}}}, yyDollar[5].Imports...)
 		}
 	case 37:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-0 : yypt+1]
 //line asn1.y:424
 		{
-			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
+			yyVAL.Imports = nil
 		}
 	case 38:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1247,996 +1245,990 @@ yydefault:
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 40:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:429
-		{
-			yyVAL.Value = nil
-		}
-	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:431
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
-	case 42:
+	case 41:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:432
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
-	case 44:
+	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:439
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
-	case 45:
+	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:440
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
-	case 46:
+	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:441
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
-	case 47:
+	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:447
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
-	case 48:
+	case 47:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:448
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
-	case 51:
+	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:464
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
-	case 52:
+	case 51:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:472
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
-	case 53:
+	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:473
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
-	case 54:
+	case 53:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:488
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
-	case 55:
+	case 54:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:491
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
-	case 77:
+	case 76:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:538
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
-	case 81:
+	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:561
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
-	case 83:
+	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:574
 		{
 			yyVAL.Type = BooleanType{}
 		}
-	case 84:
+	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:577
 		{
 			yyVAL.Value = Boolean(true)
 		}
-	case 85:
+	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:578
 		{
 			yyVAL.Value = Boolean(false)
 		}
-	case 86:
+	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:583
 		{
 			yyVAL.Type = IntegerType{}
 		}
-	case 87:
+	case 86:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:584
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
-	case 88:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:587
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
-	case 89:
+	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:588
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
-	case 90:
+	case 89:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:591
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
-	case 91:
+	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:592
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
-	case 92:
+	case 91:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:595
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
-	case 93:
+	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:596
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
-	case 94:
+	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:601
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 95:
+	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:602
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
-	case 96:
+	case 95:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:607
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
-	case 97:
+	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 98:
+	case 97:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 99:
+	case 98:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:612
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
-	case 102:
+	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:620
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
-	case 103:
+	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:621
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
-	case 104:
+	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:624
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
-	case 105:
+	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:625
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
-	case 106:
+	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:630
 		{
 			yyVAL.Type = RealType{}
 		}
-	case 109:
+	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:639
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
-	case 110:
+	case 109:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:640
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
-	case 111:
+	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:644
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
-	case 112:
+	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:645
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
-	case 113:
+	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", 0)
 		}
-	case 114:
+	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
-	case 115:
+	case 114:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
-	case 116:
+	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:652
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
-	case 118:
+	case 117:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:656
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
-	case 119:
+	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:661
 		{
 			yyVAL.Type = BitStringType{}
 		}
-	case 120:
+	case 119:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:662
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
-	case 121:
+	case 120:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:665
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
-	case 122:
+	case 121:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:666
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
-	case 123:
+	case 122:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:669
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
-	case 124:
+	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:670
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
-	case 125:
+	case 124:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:675
 		{
 			yyVAL.Type = OctetStringType{}
 		}
-	case 126:
+	case 125:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:680
 		{
 			yyVAL.Type = NullType{}
 		}
-	case 127:
+	case 126:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 128:
+	case 127:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 129:
+	case 128:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:687
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 134:
+	case 133:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:699
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 135:
+	case 134:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:700
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
-	case 136:
+	case 135:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
+//line asn1.y:701
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
-	case 139:
+	case 138:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:714
+//line asn1.y:713
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
-	case 140:
+	case 139:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:715
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 141:
+	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 142:
+	case 141:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 143:
+	case 142:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:721
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 144:
+	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:723
+//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 148:
+	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:732
+//line asn1.y:731
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 149:
+	case 148:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:732
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 150:
+	case 149:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:735
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 151:
+	case 150:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:737
+//line asn1.y:736
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 152:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:737
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 153:
+	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:738
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 154:
+	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:744
+//line asn1.y:743
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 154:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:745
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 156:
+	case 155:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:746
+//line asn1.y:745
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 157:
+	case 156:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:750
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 158:
+	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:751
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 159:
+	case 158:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:756
+//line asn1.y:755
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 160:
+	case 159:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:756
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 161:
+	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:762
+//line asn1.y:761
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 162:
+	case 161:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:765
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 162:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:766
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 164:
+	case 163:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:767
+//line asn1.y:766
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 166:
+	case 165:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:774
+//line asn1.y:773
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
-	case 167:
+	case 166:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:775
+//line asn1.y:774
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 168:
+	case 167:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:778
+//line asn1.y:777
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 168:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:779
+//line asn1.y:778
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 170:
+	case 169:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:782
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 172:
+	case 171:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:790
+//line asn1.y:789
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 173:
+	case 172:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:790
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 174:
+	case 173:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:796
+//line asn1.y:795
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 175:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:796
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:797
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 177:
+	case 176:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:801
+//line asn1.y:800
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 178:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:803
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 179:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:804
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 180:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:807
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 181:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:808
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 182:
+	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:809
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 183:
+	case 182:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:811
+//line asn1.y:810
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 184:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:815
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 185:
+	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:816
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 186:
+	case 185:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:822
+//line asn1.y:821
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 187:
+	case 186:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:827
+//line asn1.y:826
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 188:
+	case 187:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:828
+//line asn1.y:827
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:830
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 190:
+	case 189:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:832
+//line asn1.y:831
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 191:
+	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:834
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 194:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:837
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:840
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 196:
+	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:841
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 196:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:846
+//line asn1.y:845
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
+	case 200:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:857
+		{
+			yyVAL.Type = RestrictedStringType{LexType: BMPString}
+		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:858
 		{
-			yyVAL.Type = RestrictedStringType{LexType: BMPString}
+			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:859
 		{
-			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
+			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:860
 		{
-			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
+			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:861
 		{
-			yyVAL.Type = RestrictedStringType{LexType: IA5String}
+			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:862
 		{
-			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
+			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:863
 		{
-			yyVAL.Type = RestrictedStringType{LexType: NumericString}
+			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:864
 		{
-			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
+			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:865
 		{
-			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
+			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:866
 		{
-			yyVAL.Type = RestrictedStringType{LexType: T61String}
+			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:867
 		{
-			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
+			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:868
 		{
-			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
+			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:869
-		{
-			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
-		}
-	case 213:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 214:
+	case 213:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:875
+//line asn1.y:874
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 215:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:879
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 216:
+	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:880
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 217:
+	case 216:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:886
+//line asn1.y:885
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
+	case 218:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:891
+		{
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:892
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:893
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:894
 		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:895
 		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:896
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
+			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:897
 		{
-			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
+			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:898
-		{
-			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
-		}
-	case 226:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:904
+//line asn1.y:903
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 228:
+	case 227:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:907
+//line asn1.y:906
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 230:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:917
+//line asn1.y:916
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 232:
+	case 231:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:918
+//line asn1.y:917
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 233:
+	case 232:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:921
+//line asn1.y:920
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 235:
+	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:926
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 236:
+	case 235:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:928
+//line asn1.y:927
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 237:
+	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:930
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 238:
+	case 237:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:931
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 240:
+	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:937
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 241:
+	case 240:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:939
+//line asn1.y:938
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 243:
+	case 242:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:945
+//line asn1.y:944
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 244:
+	case 243:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:946
+//line asn1.y:945
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 246:
+	case 245:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:952
+//line asn1.y:951
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 251:
+	case 250:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:961
+//line asn1.y:960
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 252:
+	case 251:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:963
+//line asn1.y:962
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 258:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:978
+//line asn1.y:977
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 259:
+	case 258:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:983
+//line asn1.y:982
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 260:
+	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:985
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 260:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:986
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 262:
+	case 261:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:989
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 262:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:990
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 265:
+	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:994
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 266:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:998
 		{
 			yyVAL.Value = nil
 		}
-	case 268:
+	case 267:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1004
+//line asn1.y:1003
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 269:
+	case 268:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1009
+//line asn1.y:1008
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 270:
+	case 269:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1013
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 271:
+	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1014
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From 93156804e9328bb2d96001fd2697afefd214907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 21/26] fix: accept the closing extension marker in SEQUENCE,
 SET and CHOICE

---
 asn1.y |   34 +-
 y.go   | 1144 +++++++++++++++++++++++++++-----------------------------
 2 files changed, 574 insertions(+), 604 deletions(-)

diff --git a/asn1.y b/asn1.y
index eb38622..5e0b02a 100644
--- a/asn1.y
+++ b/asn1.y
@@ -306,9 +306,7 @@ import (
 %type <NamedType> NamedType
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternatives
-%type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternativesList
-%type <ExtensionAdditions> ExtensionAdditions
-%type <ExtensionAdditions> ExtensionAdditionList
+%type <ComponentTypeLists> ExtensionAdditions
 %type <ExtensionAdditions> ExtensionAddition
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
@@ -697,8 +695,7 @@ OptionalExtensionMarker : COMMA ELLIPSIS | /*empty*/
 // TODO Extensions are not fully supported, extension information will be ignored.
 // Edited from the doc - ComponentTypeList used directly instead of RootComponentTypeList to avoid ambiguity around COMMA.
 ComponentTypeLists : ComponentTypeList  { $$ = ComponentTypeLists{Components: $1} }
-                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions OptionalExtensionMarker  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4} }
-                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions ExtensionEndMarker COMMA ComponentTypeList  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4, TrailingComponents: $7} }
+                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4.ExtensionAdditions, TrailingComponents: $4.TrailingComponents} }
 //                   | ExtensionAndException ExtensionAdditions ExtensionEndMarker "," RootComponentTypeList
 //                   | ExtensionAndException ExtensionAdditions OptionalExtensionMarker
 ;
@@ -707,15 +704,12 @@ ComponentTypeLists : ComponentTypeList  { $$ = ComponentTypeLists{Components: $1
 RootComponentTypeList : ComponentTypeList
 ;
 
-ExtensionEndMarker : COMMA ELLIPSIS
-;
-
-ExtensionAdditions : COMMA ExtensionAdditionList  { $$ = $2 }
-                   | /*empty*/  { $$ = nil }
-;
-
-ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{}, $1...) }
-                      | ExtensionAdditionList COMMA ExtensionAddition  { $$ = append($1, $3...) }
+// Edited from the doc - the list is right recursive and includes OptionalExtensionMarker or ExtensionEndMarker with
+// the second ComponentTypeList, to avoid ambiguity around COMMA.
+ExtensionAdditions : COMMA ExtensionAddition ExtensionAdditions  { $$ = ComponentTypeLists{ExtensionAdditions: append($2, $3.ExtensionAdditions...), TrailingComponents: $3.TrailingComponents} }
+                   | COMMA ELLIPSIS  { $$ = ComponentTypeLists{} }
+                   | COMMA ELLIPSIS COMMA ComponentTypeList  { $$ = ComponentTypeLists{TrailingComponents: $4} }
+                   | /*empty*/  { $$ = ComponentTypeLists{} }
 ;
 
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
@@ -761,23 +755,21 @@ AnyType : ANY  { $$ = AnyType{} }
 ChoiceType : CHOICE OPEN_CURLY AlternativeTypeLists CLOSE_CURLY  { $$ = $3 }
 ;
 
-AlternativeTypeLists : AlternativeTypeList COMMA ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{$1,$4} }
+AlternativeTypeLists : AlternativeTypeList COMMA ExtensionAndException ExtensionAdditionAlternatives { $$ = ChoiceType{$1,$4} }
                      | AlternativeTypeList  { $$ = ChoiceType{AlternativeTypeList: $1} }
-                     | ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{nil, $2} }
+                     | ExtensionAndException ExtensionAdditionAlternatives { $$ = ChoiceType{nil, $2} }
 ;
 
 // defined in grammar, but screws up ExtensionAndException parsing
 RootAlternativeTypeList : AlternativeTypeList
 ;
 
-ExtensionAdditionAlternatives : COMMA ExtensionAdditionAlternativesList { $$ = $2 }
+// Edited from the doc - the list is right recursive and includes OptionalExtensionMarker, to avoid ambiguity around COMMA.
+ExtensionAdditionAlternatives : COMMA ExtensionAdditionAlternative ExtensionAdditionAlternatives { $$ = append([]ChoiceExtension{$2}, $3...) }
+                              | COMMA ELLIPSIS { $$ = make([]ChoiceExtension, 0) }
                               | /*empty*/ { $$ = make([]ChoiceExtension, 0) }
 ;
 
-ExtensionAdditionAlternativesList : ExtensionAdditionAlternative  { $$ = append(make([]ChoiceExtension, 0), $1) }
-                                  | ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }
-;
-
 ExtensionAdditionAlternative : /*ExtensionAdditionAlternativesGroup
                              | */NamedType  { $$ = $1 }
 ;
diff --git a/y.go b/y.go
index ce3ae6d..ab5e6af 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1070
+//line asn1.y:1062
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -349,20 +349,20 @@ var yyExca = [...]int16{
 	31, 3,
 	-2, 2,
 	-1, 175,
-	44, 238,
-	94, 238,
-	-2, 234,
+	44, 235,
+	94, 235,
+	-2, 231,
 	-1, 177,
-	46, 241,
-	53, 241,
-	-2, 236,
+	46, 238,
+	53, 238,
+	-2, 233,
 	-1, 181,
-	60, 244,
-	-2, 242,
+	60, 241,
+	-2, 239,
 	-1, 190,
-	16, 263,
-	28, 263,
-	-2, 257,
+	16, 260,
+	28, 260,
+	-2, 254,
 	-1, 246,
 	30, 45,
 	84, 45,
@@ -371,209 +371,202 @@ var yyExca = [...]int16{
 	32, 6,
 	-2, 4,
 	-1, 331,
-	46, 241,
-	53, 241,
-	-2, 237,
-	-1, 423,
-	30, 137,
-	-2, 131,
+	46, 238,
+	53, 238,
+	-2, 234,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 914
+const yyLast = 907
 
 var yyAct = [...]int16{
-	216, 202, 410, 215, 376, 205, 352, 217, 125, 17,
-	190, 174, 260, 319, 315, 17, 282, 278, 235, 292,
-	335, 239, 251, 207, 199, 192, 160, 181, 179, 177,
-	247, 102, 240, 263, 167, 156, 214, 142, 5, 238,
-	3, 149, 38, 19, 165, 296, 29, 11, 9, 418,
-	131, 274, 19, 298, 19, 275, 19, 46, 230, 54,
-	46, 266, 162, 297, 336, 413, 201, 44, 229, 53,
-	44, 54, 166, 222, 221, 45, 224, 231, 45, 187,
-	64, 53, 24, 46, 148, 61, 23, 22, 19, 123,
-	21, 35, 10, 44, 31, 19, 165, 338, 201, 419,
-	146, 45, 264, 150, 132, 169, 127, 135, 140, 19,
-	42, 267, 36, 269, 162, 417, 159, 50, 261, 201,
-	270, 120, 158, 431, 166, 60, 161, 143, 161, 212,
-	310, 208, 211, 59, 402, 152, 200, 401, 390, 121,
-	19, 165, 220, 47, 48, 168, 223, 228, 218, 338,
-	218, 126, 218, 320, 210, 242, 372, 169, 213, 162,
-	219, 151, 236, 225, 254, 227, 244, 62, 159, 166,
-	232, 233, 122, 246, 158, 226, 138, 248, 136, 141,
-	387, 321, 126, 44, 218, 58, 161, 243, 4, 48,
-	327, 245, 40, 386, 57, 333, 272, 168, 279, 322,
-	124, 259, 169, 32, 133, 218, 126, 347, 317, 257,
-	126, 289, 137, 159, 284, 256, 271, 126, 328, 158,
-	27, 41, 345, 433, 311, 346, 432, 424, 285, 300,
-	302, 422, 290, 309, 432, 291, 408, 306, 308, 405,
-	137, 293, 168, 139, 397, 303, 396, 299, 301, 389,
-	254, 254, 384, 283, 374, 305, 307, 295, 288, 287,
-	281, 262, 61, 46, 276, 427, 161, 161, 395, 367,
-	161, 134, 15, 44, 312, 161, 325, 365, 359, 314,
-	316, 45, 313, 340, 337, 47, 48, 326, 324, 349,
-	208, 353, 330, 211, 355, 331, 362, 332, 304, 161,
-	30, 294, 350, 286, 357, 162, 348, 280, 363, 25,
-	344, 196, 130, 129, 128, 358, 356, 7, 370, 19,
-	361, 19, 423, 360, 364, 354, 329, 273, 63, 377,
-	28, 201, 369, 366, 426, 250, 12, 373, 161, 371,
-	368, 19, 18, 14, 318, 258, 379, 337, 279, 14,
-	26, 4, 48, 237, 4, 48, 255, 375, 4, 253,
-	255, 18, 382, 19, 380, 383, 381, 385, 47, 48,
-	55, 48, 48, 4, 161, 323, 161, 416, 399, 398,
-	378, 343, 342, 392, 391, 341, 394, 339, 400, 268,
-	411, 404, 353, 55, 19, 165, 265, 425, 379, 379,
-	412, 414, 415, 403, 407, 39, 34, 208, 406, 1,
-	206, 421, 420, 162, 204, 203, 209, 409, 388, 184,
-	351, 119, 198, 166, 197, 411, 428, 429, 71, 430,
-	241, 43, 56, 362, 37, 277, 93, 68, 76, 85,
-	147, 98, 176, 92, 109, 99, 234, 101, 83, 137,
-	81, 80, 195, 79, 78, 66, 169, 84, 87, 90,
-	94, 113, 105, 89, 110, 70, 88, 159, 95, 112,
-	194, 334, 191, 158, 118, 103, 96, 189, 91, 106,
-	55, 19, 165, 107, 188, 183, 186, 108, 185, 182,
-	180, 178, 175, 114, 393, 173, 168, 104, 172, 171,
-	162, 115, 170, 86, 111, 116, 184, 67, 119, 117,
-	166, 33, 97, 193, 100, 49, 51, 52, 164, 163,
-	154, 157, 77, 93, 155, 153, 249, 252, 98, 82,
-	92, 109, 99, 72, 74, 65, 137, 69, 73, 195,
-	75, 6, 16, 169, 13, 87, 2, 94, 113, 105,
-	8, 110, 20, 88, 159, 95, 112, 0, 0, 0,
-	158, 118, 103, 96, 0, 91, 106, 47, 48, 327,
+	202, 216, 215, 375, 205, 387, 125, 319, 17, 190,
+	174, 260, 235, 315, 17, 282, 278, 335, 239, 199,
+	251, 207, 192, 181, 160, 179, 102, 247, 292, 177,
+	240, 263, 167, 214, 156, 142, 149, 5, 38, 29,
+	217, 296, 412, 19, 11, 9, 19, 274, 298, 131,
+	187, 275, 230, 201, 46, 229, 54, 46, 222, 297,
+	238, 3, 44, 19, 53, 44, 266, 221, 54, 231,
+	24, 23, 61, 404, 407, 22, 53, 64, 138, 148,
+	46, 19, 165, 21, 126, 35, 123, 31, 44, 10,
+	146, 19, 413, 19, 132, 127, 45, 264, 150, 45,
+	162, 201, 336, 201, 42, 135, 140, 36, 411, 261,
+	166, 224, 120, 212, 137, 60, 267, 19, 165, 19,
+	165, 269, 45, 50, 143, 161, 121, 161, 270, 59,
+	208, 211, 126, 423, 152, 338, 162, 371, 162, 218,
+	310, 133, 218, 169, 223, 139, 166, 126, 166, 136,
+	141, 401, 210, 213, 159, 47, 48, 219, 225, 218,
+	158, 236, 227, 254, 242, 244, 122, 232, 233, 200,
+	246, 338, 226, 62, 58, 220, 248, 137, 44, 169,
+	228, 169, 151, 168, 400, 161, 243, 218, 320, 218,
+	159, 389, 159, 386, 385, 272, 158, 279, 158, 259,
+	4, 48, 327, 57, 40, 333, 322, 124, 134, 32,
+	41, 126, 245, 284, 271, 347, 321, 317, 289, 168,
+	257, 168, 27, 425, 126, 285, 256, 311, 345, 424,
+	328, 346, 309, 290, 424, 417, 291, 388, 402, 396,
+	395, 283, 373, 293, 299, 301, 295, 288, 287, 254,
+	254, 281, 305, 307, 303, 262, 61, 276, 47, 48,
+	46, 420, 300, 302, 394, 161, 161, 366, 44, 161,
+	306, 308, 312, 364, 161, 325, 314, 316, 162, 344,
+	15, 340, 358, 337, 326, 313, 324, 304, 330, 208,
+	294, 286, 211, 354, 332, 331, 280, 361, 161, 25,
+	196, 348, 45, 356, 130, 129, 128, 362, 30, 7,
+	369, 359, 353, 357, 355, 360, 19, 19, 19, 329,
+	273, 363, 349, 63, 352, 250, 376, 351, 201, 28,
+	365, 368, 419, 14, 12, 19, 18, 161, 367, 14,
+	4, 48, 237, 372, 370, 378, 337, 279, 26, 4,
+	48, 255, 318, 258, 374, 4, 253, 255, 47, 48,
+	380, 381, 18, 379, 382, 384, 383, 55, 48, 19,
+	48, 4, 161, 323, 161, 410, 398, 390, 397, 377,
+	343, 391, 342, 341, 393, 399, 55, 19, 165, 339,
+	405, 268, 265, 418, 406, 39, 378, 378, 34, 408,
+	409, 1, 206, 208, 414, 204, 162, 415, 203, 416,
+	209, 403, 184, 350, 119, 198, 166, 197, 71, 241,
+	421, 422, 43, 56, 37, 277, 361, 68, 76, 93,
+	85, 147, 234, 101, 98, 176, 92, 109, 99, 83,
+	81, 80, 137, 79, 78, 195, 66, 84, 90, 169,
+	89, 87, 70, 94, 113, 105, 194, 110, 334, 88,
+	159, 95, 112, 191, 189, 188, 158, 118, 103, 96,
+	183, 91, 106, 55, 19, 165, 107, 186, 185, 182,
+	108, 180, 178, 175, 392, 173, 114, 172, 171, 168,
+	104, 170, 86, 162, 115, 67, 33, 111, 116, 184,
+	49, 119, 117, 166, 51, 97, 193, 100, 52, 164,
+	163, 154, 157, 77, 155, 153, 93, 249, 252, 82,
+	72, 98, 74, 92, 109, 99, 65, 69, 73, 137,
+	75, 6, 195, 16, 13, 2, 169, 8, 87, 20,
+	94, 113, 105, 0, 110, 0, 88, 159, 95, 112,
+	0, 0, 0, 158, 118, 103, 96, 0, 91, 106,
+	47, 48, 327, 107, 0, 0, 0, 108, 0, 0,
+	0, 0, 0, 114, 0, 0, 168, 104, 0, 0,
+	0, 115, 0, 0, 111, 116, 0, 0, 119, 117,
+	328, 0, 97, 193, 100, 0, 0, 0, 0, 0,
+	0, 0, 0, 93, 0, 0, 0, 0, 98, 0,
+	92, 109, 99, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 87, 0, 94, 113, 105,
+	0, 110, 0, 88, 55, 95, 112, 0, 0, 0,
+	0, 118, 103, 96, 0, 91, 106, 0, 0, 0,
 	107, 0, 0, 0, 108, 0, 0, 0, 0, 0,
-	114, 0, 0, 168, 104, 0, 0, 0, 115, 0,
-	0, 111, 116, 0, 0, 119, 117, 328, 0, 97,
-	193, 100, 0, 0, 0, 0, 0, 0, 0, 0,
-	93, 0, 0, 0, 0, 98, 0, 92, 109, 99,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
-	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
-	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
-	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
-	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
-	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
-	0, 92, 109, 99, 0, 0, 0, 0, 0, 145,
+	114, 0, 119, 0, 104, 0, 0, 0, 115, 0,
+	0, 111, 116, 0, 0, 0, 117, 93, 0, 97,
+	0, 100, 98, 0, 92, 109, 99, 0, 0, 0,
+	0, 0, 145, 0, 0, 0, 0, 0, 0, 87,
+	0, 94, 113, 105, 0, 110, 0, 88, 0, 95,
+	112, 55, 19, 0, 0, 118, 103, 96, 0, 91,
+	106, 0, 0, 0, 107, 0, 0, 0, 108, 0,
+	0, 0, 0, 0, 114, 0, 144, 0, 104, 119,
+	0, 0, 115, 0, 0, 111, 116, 0, 0, 0,
+	117, 0, 0, 97, 93, 100, 0, 0, 0, 98,
+	0, 92, 109, 99, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 87, 0, 94, 113,
-	105, 0, 110, 0, 88, 0, 95, 112, 55, 19,
+	105, 0, 110, 0, 88, 55, 95, 112, 0, 0,
 	0, 0, 118, 103, 96, 0, 91, 106, 0, 0,
 	0, 107, 0, 0, 0, 108, 0, 0, 0, 0,
-	0, 114, 0, 144, 0, 104, 119, 0, 0, 115,
-	0, 0, 111, 116, 0, 0, 0, 117, 0, 0,
-	97, 93, 100, 0, 0, 0, 98, 0, 92, 109,
-	99, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 94, 113, 105, 0, 110,
-	0, 88, 55, 95, 112, 0, 0, 0, 0, 118,
-	103, 96, 0, 91, 106, 0, 0, 0, 107, 0,
-	0, 0, 108, 0, 0, 0, 0, 0, 114, 0,
-	119, 0, 104, 0, 0, 0, 115, 0, 0, 111,
-	116, 0, 0, 0, 117, 93, 0, 97, 0, 100,
-	98, 0, 92, 109, 99, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 87, 0, 94,
-	113, 105, 0, 110, 0, 88, 0, 95, 112, 0,
-	0, 0, 0, 118, 103, 96, 0, 91, 106, 0,
-	0, 0, 107, 0, 0, 0, 108, 0, 0, 0,
-	0, 0, 114, 0, 0, 0, 104, 0, 0, 0,
-	115, 0, 0, 111, 116, 0, 0, 0, 117, 0,
-	0, 97, 0, 100,
+	0, 114, 0, 119, 0, 104, 0, 0, 0, 115,
+	0, 0, 111, 116, 0, 0, 0, 117, 93, 0,
+	97, 0, 100, 98, 0, 92, 109, 99, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 94, 113, 105, 0, 110, 0, 88, 0,
+	95, 112, 0, 0, 0, 0, 118, 103, 96, 0,
+	91, 106, 0, 0, 0, 107, 0, 0, 0, 108,
+	0, 0, 0, 0, 0, 114, 0, 0, 0, 104,
+	0, 0, 0, 115, 0, 0, 111, 116, 0, 0,
+	0, 117, 0, 0, 97, 0, 100,
 }
 
 var yyPact = [...]int16{
-	367, -1000, -81, 291, -1000, -16, -1000, 334, 18, 9,
-	8, 4, 282, 334, -1000, -1000, -1000, 188, -1000, -1000,
-	315, -66, -1000, -1000, -1000, -1000, -1000, 353, 27, -1000,
-	170, 23, -1000, 60, -74, 137, -1000, 364, 362, 91,
-	83, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 364,
-	-1000, -1000, -1000, 313, 786, -1000, 79, -1000, 55, -1000,
-	-1000, 362, -1000, 786, 185, -1000, -1000, -1000, -1000, -1000,
+	365, -1000, -82, 283, -1000, -19, -1000, 328, 11, -3,
+	-7, -8, 272, 328, -1000, -1000, -1000, 190, -1000, -1000,
+	314, -73, -1000, -1000, -1000, -1000, -1000, 354, 20, -1000,
+	176, 17, -1000, 55, -78, 149, -1000, 361, 352, 87,
+	73, 226, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 361,
+	-1000, -1000, -1000, 308, 779, -1000, 70, -1000, 42, -1000,
+	-1000, 352, -1000, 779, 192, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 40, -1000, -1000,
-	-1000, 288, 287, 286, -1000, -54, 38, -1000, 178, 150,
-	-91, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 34, -18,
-	-1000, 367, -1000, 174, 133, -1000, 387, 285, 314, 356,
-	356, -1000, -1000, 102, 712, -19, -20, 174, 49, 712,
-	-25, -35, -6, 174, 786, 786, -1000, 345, -1000, -1000,
-	-1000, 279, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 352, -1000, -1000, 184, 337, -1000, -1000, -1000,
-	73, -1000, -1000, 231, -1000, -1000, 42, -1000, 17, -1000,
-	67, -1000, 42, -1000, 387, -1000, -1000, -1000, -1000, -1000,
-	-1000, 311, 174, -48, 236, -1000, 356, 280, 230, 223,
-	-1000, 73, 786, 276, 229, -1000, 228, -1000, 179, 205,
-	-1000, 179, -1000, 211, 274, 227, -1000, -52, -40, 174,
-	-1000, 712, 712, -1000, -1000, 211, 271, 174, -1000, 712,
-	712, 356, 174, 174, 95, -1000, -1000, -1000, 193, -1000,
-	-1000, 362, -1000, -1000, -1000, 193, -1000, 255, 352, 352,
-	-1000, -1000, -1000, -1000, 176, -1000, 336, 145, 184, -1000,
-	166, 561, 309, -1000, 474, 474, -1000, -1000, 474, -1000,
-	-1000, -1000, 162, 36, 174, 284, -1000, 195, -1000, 175,
-	-1000, 314, 211, 356, -1000, 174, -1000, 308, 356, 182,
-	-1000, 356, 251, 306, -1000, 81, -1000, 133, 786, 174,
-	-1000, 174, -1000, 250, -1000, 174, -1000, 174, -1000, -1000,
-	-1000, 365, -1000, -1000, 242, -1000, -1000, 348, 293, -1000,
-	-1000, 331, -1000, -1000, -1000, -1000, 119, -1000, 329, 224,
-	-1000, -1000, -1000, -1000, -1000, -1000, 88, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 312, -1000, 356, 345, 223, -1000,
-	-1000, 222, -1000, -1000, 73, -1000, 160, 147, -1000, -1000,
-	-1000, 219, -1000, -1000, 174, -1000, -1000, -1000, 105, -1000,
-	145, -1000, 133, -1000, 387, -1000, 241, 216, 214, 174,
-	-1000, 104, 101, 211, 356, 209, -1000, -1000, 206, 47,
-	-1000, -1000, -1000, -1000, -1000, -1000, 356, 356, -1000, 2,
-	-1000, -1000, -1000, -1000, -1000, 356, -1000, 201, 305, 197,
-	-1000, -1000, -1000, 326, 238, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 45, -1000, 47, 45, 86, -1000, 196, -1000,
-	204, -1000, 45, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 29, -1000, -1000,
+	-1000, 280, 279, 278, -1000, -55, 28, -1000, 115, 52,
+	-93, 628, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 24, -23,
+	-1000, 365, -1000, 179, 112, -1000, 380, 274, 311, 362,
+	362, -1000, -1000, 86, 705, -26, -35, 179, 84, 705,
+	-38, -41, -14, 179, 779, 779, -1000, 334, -1000, -1000,
+	-1000, 252, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 349, -1000, -1000, 195, 345, -1000, -1000, -1000,
+	64, -1000, -1000, 225, -1000, -1000, 37, -1000, 22, -1000,
+	75, -1000, 37, -1000, 380, -1000, -1000, -1000, -1000, -1000,
+	-1000, 304, 179, -52, 229, -1000, 362, 269, 221, 211,
+	-1000, 64, 779, 264, 218, -1000, 217, -1000, 186, 206,
+	-1000, 186, -1000, 213, 263, 216, -1000, -56, -45, 179,
+	-1000, 705, 705, -1000, -1000, 213, 260, 179, -1000, 705,
+	705, 362, 179, 179, 105, -1000, -1000, -1000, 196, -1000,
+	-1000, 352, -1000, -1000, -1000, 196, -1000, 258, 349, 349,
+	-1000, -1000, -1000, -1000, 185, -1000, 344, 180, 195, -1000,
+	173, 554, 302, -1000, 467, 467, -1000, -1000, 467, -1000,
+	-1000, -1000, 172, 74, 179, 253, -1000, 201, -1000, 183,
+	-1000, 311, -1000, 310, -1000, 179, -1000, 295, 362, 194,
+	-1000, 362, 255, 294, -1000, 36, -1000, 112, 779, 179,
+	-1000, 179, -1000, 246, -1000, 179, -1000, 179, -1000, -1000,
+	-1000, 363, -1000, -1000, 240, -1000, -1000, 343, 285, -1000,
+	-1000, 336, -1000, -1000, -1000, -1000, 100, -1000, 335, 212,
+	-1000, -1000, -1000, -1000, -1000, -1000, 110, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 309, -1000, 362, 334, 211, -1000,
+	211, -1000, -1000, 64, -1000, 161, 160, -1000, -1000, -1000,
+	207, -1000, -1000, 179, -1000, -1000, -1000, 158, -1000, 180,
+	-1000, 112, -1000, 380, -1000, 237, 210, 209, 179, -1000,
+	151, 118, -1000, -1000, 208, -1000, -1000, -1000, 56, -1000,
+	-1000, -1000, -1000, -1000, -1000, 362, 362, -1000, -5, -1000,
+	-1000, -1000, 362, 207, 205, -1000, -1000, 324, 234, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 39, 39, 96,
+	-1000, 199, 204, -1000, 39, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 34, 13, 39, 31, 1, 552, 550, 546, 544,
-	272, 336, 542, 541, 335, 14, 540, 538, 537, 535,
-	25, 534, 533, 529, 7, 22, 527, 526, 30, 35,
-	525, 10, 524, 522, 521, 520, 519, 518, 26, 18,
-	117, 517, 516, 515, 511, 21, 507, 503, 8, 502,
-	499, 498, 495, 494, 11, 492, 491, 29, 490, 28,
-	33, 27, 489, 488, 486, 485, 484, 477, 79, 472,
-	471, 470, 20, 465, 463, 459, 457, 455, 454, 453,
-	451, 450, 0, 3, 450, 36, 448, 447, 446, 440,
-	439, 438, 437, 435, 17, 434, 432, 155, 32, 185,
-	110, 431, 430, 428, 424, 422, 422, 6, 16, 420,
-	418, 417, 2, 23, 416, 415, 5, 414, 412, 410,
-	409, 406, 405, 12, 24, 19, 404, 400, 397, 397,
-	396, 389, 387, 385, 382, 381, 4, 380, 379, 378,
-	377, 375,
+	0, 32, 7, 60, 26, 0, 539, 537, 535, 534,
+	280, 334, 533, 531, 325, 13, 530, 528, 527, 526,
+	22, 522, 520, 519, 40, 20, 518, 517, 27, 34,
+	515, 9, 514, 513, 512, 511, 510, 509, 24, 12,
+	123, 508, 504, 500, 496, 18, 495, 492, 6, 491,
+	488, 487, 485, 484, 10, 483, 482, 29, 481, 25,
+	31, 23, 479, 478, 477, 470, 465, 464, 50, 463,
+	458, 456, 17, 452, 450, 448, 447, 446, 444, 443,
+	441, 440, 1, 2, 440, 33, 439, 433, 432, 431,
+	430, 428, 427, 425, 16, 424, 423, 164, 30, 174,
+	104, 422, 419, 418, 417, 415, 415, 413, 15, 5,
+	411, 21, 410, 408, 4, 405, 404, 402, 401, 398,
+	395, 11, 19, 28, 394, 393, 393, 392, 391, 389,
+	383, 382, 380, 3, 379, 378, 376, 375, 373,
 }
 
 var yyR1 = [...]uint8{
-	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 118, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
+	7, 6, 6, 44, 44, 119, 119, 119, 120, 120,
 	95, 95, 96, 96, 97, 97, 98, 98, 102, 102,
 	99, 99, 100, 101, 101, 101, 43, 43, 40, 40,
 	76, 15, 15, 42, 41, 20, 20, 20, 19, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 77, 77, 24, 31, 30, 30,
-	30, 30, 18, 35, 35, 17, 17, 114, 114, 113,
-	113, 38, 38, 32, 32, 22, 115, 115, 115, 117,
-	118, 116, 116, 119, 119, 33, 34, 34, 36, 36,
+	30, 30, 18, 35, 35, 17, 17, 112, 112, 111,
+	111, 38, 38, 32, 32, 22, 113, 113, 113, 115,
+	116, 114, 114, 117, 117, 33, 34, 34, 36, 36,
 	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
-	93, 93, 94, 94, 91, 21, 78, 78, 78, 124,
-	124, 125, 125, 85, 85, 85, 84, 126, 110, 110,
-	111, 111, 112, 112, 127, 128, 128, 83, 83, 82,
-	82, 82, 82, 80, 80, 80, 81, 81, 23, 23,
-	103, 104, 104, 104, 106, 108, 108, 109, 109, 107,
-	129, 105, 105, 86, 86, 86, 87, 88, 88, 89,
-	89, 89, 89, 79, 79, 16, 29, 29, 28, 28,
-	27, 27, 27, 27, 25, 25, 26, 14, 73, 73,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 122,
+	122, 123, 123, 85, 85, 84, 109, 109, 109, 109,
+	110, 110, 124, 125, 125, 83, 83, 82, 82, 82,
+	82, 80, 80, 80, 81, 81, 23, 23, 103, 104,
+	104, 104, 106, 108, 108, 108, 107, 126, 105, 105,
+	86, 86, 86, 87, 88, 88, 89, 89, 89, 89,
+	79, 79, 16, 29, 29, 28, 28, 27, 27, 27,
+	27, 25, 25, 26, 14, 73, 73, 74, 74, 74,
 	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 75, 90, 90, 46, 46, 47, 47,
-	47, 47, 47, 47, 47, 47, 48, 49, 50, 51,
-	51, 51, 52, 53, 54, 54, 55, 55, 56, 57,
-	57, 58, 59, 59, 62, 60, 130, 130, 131, 131,
-	61, 61, 65, 65, 65, 65, 65, 63, 64, 69,
-	69, 70, 70, 71, 71, 72, 72, 68, 66, 67,
-	67, 132, 133, 133, 134, 135, 136, 136, 137, 138,
-	139, 139, 140, 140, 140, 140, 123, 123, 141, 141,
-	141,
+	75, 90, 90, 46, 46, 47, 47, 47, 47, 47,
+	47, 47, 47, 48, 49, 50, 51, 51, 51, 52,
+	53, 54, 54, 55, 55, 56, 57, 57, 58, 59,
+	59, 62, 60, 127, 127, 128, 128, 61, 61, 65,
+	65, 65, 65, 65, 63, 64, 69, 69, 70, 70,
+	71, 71, 72, 72, 68, 66, 67, 67, 129, 130,
+	130, 131, 132, 133, 133, 134, 135, 136, 136, 137,
+	137, 137, 137, 121, 121, 138, 138, 138,
 }
 
 var yyR2 = [...]int8{
@@ -590,30 +583,29 @@ var yyR2 = [...]int8{
 	1, 1, 3, 1, 1, 1, 1, 1, 1, 2,
 	1, 1, 1, 3, 5, 3, 1, 2, 2, 5,
 	1, 3, 4, 4, 2, 1, 3, 5, 4, 1,
-	2, 2, 0, 1, 5, 7, 1, 2, 2, 0,
-	1, 3, 1, 1, 4, 0, 2, 1, 3, 1,
-	2, 3, 3, 3, 5, 4, 3, 3, 1, 4,
-	4, 5, 1, 3, 1, 2, 0, 1, 3, 1,
-	4, 1, 3, 2, 3, 3, 4, 1, 1, 1,
-	1, 1, 0, 3, 3, 2, 3, 4, 1, 2,
-	1, 1, 1, 1, 1, 1, 4, 1, 1, 1,
+	2, 2, 0, 1, 4, 1, 3, 2, 4, 0,
+	1, 1, 4, 0, 2, 1, 3, 1, 2, 3,
+	3, 3, 5, 4, 3, 3, 1, 4, 4, 4,
+	1, 2, 1, 3, 2, 0, 1, 4, 1, 3,
+	2, 3, 3, 4, 1, 1, 1, 1, 1, 0,
+	3, 3, 2, 3, 4, 1, 2, 1, 1, 1,
+	1, 1, 1, 4, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 2, 1, 1, 2, 1, 4, 4,
-	4, 4, 4, 4, 4, 4, 4, 1, 1, 1,
-	3, 5, 1, 1, 1, 2, 1, 3, 1, 1,
-	3, 1, 1, 2, 1, 2, 1, 1, 1, 1,
-	1, 3, 1, 1, 1, 1, 1, 1, 3, 1,
-	2, 1, 2, 1, 1, 1, 1, 2, 1, 3,
-	3, 1, 1, 1, 3, 5, 1, 3, 2, 2,
-	1, 0, 1, 1, 1, 0, 2, 0, 1, 1,
-	3,
+	2, 1, 1, 2, 1, 4, 4, 4, 4, 4,
+	4, 4, 4, 4, 1, 1, 1, 3, 5, 1,
+	1, 1, 2, 1, 3, 1, 1, 3, 1, 1,
+	2, 1, 2, 1, 1, 1, 1, 1, 3, 1,
+	1, 1, 1, 1, 1, 3, 1, 2, 1, 2,
+	1, 1, 1, 1, 2, 1, 3, 3, 1, 1,
+	1, 3, 5, 1, 3, 2, 2, 1, 0, 1,
+	1, 1, 0, 2, 0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -118, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
+	-10, 67, 33, -44, -119, 68, 52, -95, 116, -120,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -99, 42,
 	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
@@ -629,78 +621,76 @@ var yyChk = [...]int16{
 	-38, -5, 26, -36, -37, 8, 36, -1, 109, 69,
 	-49, -50, -51, -52, -54, -55, 55, -57, -56, -59,
 	-58, -61, -62, -65, 32, -63, -64, -68, -66, -67,
-	-31, -69, -20, 126, -71, 65, 26, -104, -105, -124,
-	-24, 17, -5, -115, -117, -116, -119, -113, -5, -114,
-	-113, -5, 27, -124, -85, -83, -82, -24, 103, -20,
-	-24, 93, 93, -48, 27, -124, -85, -20, -24, 93,
+	-31, -69, -20, 126, -71, 65, 26, -104, -105, -122,
+	-24, 17, -5, -113, -115, -114, -117, -111, -5, -112,
+	-111, -5, 27, -122, -85, -83, -82, -24, 103, -20,
+	-24, 93, 93, -48, 27, -122, -85, -20, -24, 93,
 	93, 83, -20, -20, -88, -39, -15, 8, -3, -45,
 	-98, -102, -97, -29, -15, -3, -45, -28, -15, -27,
 	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
-	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
+	-121, 45, 30, -60, 60, -127, 44, 94, -128, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
-	27, 30, -108, 30, -123, -20, 27, 30, 30, 32,
-	27, 30, -125, 30, 27, 30, 97, 115, 93, -20,
-	-24, -20, -24, -125, 27, -20, -24, -20, -24, -5,
+	27, 30, -108, 30, -121, -20, 27, 30, 30, 32,
+	27, 30, -123, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -123, 27, -20, -24, -20, -24, -5,
 	35, 31, -98, 27, -28, -15, -28, 32, 8, -2,
-	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
-	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
-	-48, -133, -134, -135, 26, 27, 30, 32, -124, -24,
-	-125, -109, -107, -24, 17, -116, -38, -15, -113, 27,
-	17, -124, -82, -31, -20, 27, -45, 27, -25, -15,
-	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
-	-94, -39, -15, -108, 30, -123, 33, 33, -110, 30,
-	33, -2, -31, -53, -54, 27, 30, 30, -138, -139,
-	-48, 33, 33, -125, -107, 30, -125, -126, 30, -111,
-	-112, -82, -127, 18, -136, -136, -140, 113, 47, 97,
-	-118, -116, 30, 17, 30, -128, 8, 27, -83, -112,
-	-83, 37, 30, 19,
+	8, 36, 33, -138, -38, -15, -20, 8, 36, 17,
+	-61, -57, -59, 33, -70, -72, 28, -31, 61, -129,
+	-48, -130, -131, -132, 26, 27, 30, 32, -122, -24,
+	-107, 17, -24, 17, -114, -38, -15, -111, 27, 17,
+	-122, -82, -31, -20, 27, -45, 27, -25, -15, 25,
+	8, 37, 8, 30, -72, -133, 17, -134, -5, -94,
+	-39, -15, -108, -108, -121, 33, 33, -109, 30, 33,
+	-2, -31, -53, -54, 27, 30, 30, -135, -136, -48,
+	33, 33, 30, -110, 17, -82, -124, 18, -133, -133,
+	-137, 113, 47, 97, -116, -114, -109, 30, -125, 8,
+	27, -83, -83, 37, 30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 197, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 194, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 40, 42, 43, 44, 45, -2, 4, 23,
 	46, 48, 49, 0, 0, 2, 0, 32, 0, 25,
 	26, 0, 47, 0, 0, 55, 56, 57, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 217, 0, 82, 198,
-	199, 0, 0, 85, 125, 0, 0, 105, 0, 0,
-	158, 0, 50, 214, 215, 200, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 0, 182,
-	30, 0, 41, 53, 0, 216, 0, 118, 0, 0,
-	0, 185, 124, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 173, 0, 0, 213, 0, 179, 180,
-	181, 37, 54, 77, 78, 79, 80, 81, 83, 84,
+	70, 71, 72, 73, 74, 75, 214, 0, 82, 195,
+	196, 0, 0, 85, 125, 0, 0, 105, 0, 0,
+	156, 0, 50, 211, 212, 197, 198, 199, 200, 201,
+	202, 203, 204, 205, 206, 207, 208, 209, 0, 179,
+	30, 0, 41, 53, 0, 213, 0, 118, 0, 0,
+	0, 182, 124, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 170, 0, 0, 210, 0, 176, 177,
+	178, 37, 54, 77, 78, 79, 80, 81, 83, 84,
 	93, 94, 0, 106, 107, 91, 0, 108, 110, 111,
-	287, 227, 228, 229, 232, -2, 0, -2, 0, 239,
-	0, -2, 0, 250, 0, 252, 253, 254, 255, 256,
-	-2, 0, 268, 0, 259, 264, 0, 0, 162, 166,
-	171, 129, 0, 0, 96, 99, 101, 103, 104, 0,
-	87, 0, 126, 132, 0, 133, 147, 149, 0, 183,
-	184, 0, 0, 267, 153, 132, 0, 156, 157, 0,
-	0, 0, 174, 175, 0, 177, 178, 5, 0, 52,
-	34, 37, 36, 38, 39, 44, -2, 0, 193, 188,
-	190, 191, 192, -2, 197, 194, 0, 0, 92, 109,
-	0, 0, 0, 235, 0, 0, 246, 247, 0, 248,
-	249, 243, 0, 0, 0, 0, 260, 0, 120, 0,
-	160, 0, 132, 0, 130, 76, 95, 0, 0, 0,
-	86, 0, 0, 0, 128, 0, 150, 0, 0, 220,
-	224, 221, 225, 0, 155, 218, 222, 219, 223, 159,
-	176, 0, 35, 186, 0, 193, 189, 0, 113, 115,
-	116, 0, 226, 286, 288, 289, 0, 91, 0, 230,
-	245, -2, 240, 251, 258, 261, 0, 265, 266, 269,
-	271, 270, 272, 273, 0, 119, 0, 0, 166, 172,
-	163, 165, 167, 169, 287, 102, 0, 0, 88, 127,
-	131, 139, 148, 151, 152, 154, 51, 187, 0, 195,
-	0, 117, 0, 92, 0, 262, 0, 0, 276, 281,
-	121, 0, 0, 132, 0, 97, 89, 90, 132, 0,
-	196, 114, 290, 231, 233, 274, 0, 0, 278, 285,
-	280, 122, 123, 161, 168, 0, 134, 0, 0, 138,
-	140, 142, 143, 145, 0, 277, 279, 282, 283, 284,
-	98, 100, 0, -2, 0, 0, 0, 275, 135, 141,
-	0, 146, 0, 144,
+	284, 224, 225, 226, 229, -2, 0, -2, 0, 236,
+	0, -2, 0, 247, 0, 249, 250, 251, 252, 253,
+	-2, 0, 265, 0, 256, 261, 0, 0, 160, 165,
+	168, 129, 0, 0, 96, 99, 101, 103, 104, 0,
+	87, 0, 126, 132, 0, 133, 145, 147, 0, 180,
+	181, 0, 0, 264, 151, 132, 0, 154, 155, 0,
+	0, 0, 171, 172, 0, 174, 175, 5, 0, 52,
+	34, 37, 36, 38, 39, 44, -2, 0, 190, 185,
+	187, 188, 189, -2, 194, 191, 0, 0, 92, 109,
+	0, 0, 0, 232, 0, 0, 243, 244, 0, 245,
+	246, 240, 0, 0, 0, 0, 257, 0, 120, 0,
+	158, 0, 161, 0, 130, 76, 95, 0, 0, 0,
+	86, 0, 0, 0, 128, 0, 148, 0, 0, 217,
+	221, 218, 222, 0, 153, 215, 219, 216, 220, 157,
+	173, 0, 35, 183, 0, 190, 186, 0, 113, 115,
+	116, 0, 223, 283, 285, 286, 0, 91, 0, 227,
+	242, -2, 237, 248, 255, 258, 0, 262, 263, 266,
+	268, 267, 269, 270, 0, 119, 0, 0, 165, 169,
+	165, 164, 166, 284, 102, 0, 0, 88, 127, 131,
+	139, 146, 149, 150, 152, 51, 184, 0, 192, 0,
+	117, 0, 92, 0, 259, 0, 0, 273, 278, 121,
+	0, 0, 159, 163, 97, 89, 90, 134, 0, 193,
+	114, 287, 228, 230, 271, 0, 0, 275, 282, 277,
+	122, 123, 0, 139, 137, 140, 141, 143, 0, 274,
+	276, 279, 280, 281, 98, 100, 136, 0, 0, 0,
+	272, 138, 0, 144, 0, 142,
 }
 
 var yyTok1 = [...]int8{
@@ -1066,1169 +1056,1157 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:341
+//line asn1.y:339
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:344
+//line asn1.y:342
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:349
+//line asn1.y:347
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:360
+//line asn1.y:358
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:363
+//line asn1.y:361
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:364
+//line asn1.y:362
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:367
+//line asn1.y:365
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:368
+//line asn1.y:366
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:371
+//line asn1.y:369
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:372
+//line asn1.y:370
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:376
+//line asn1.y:374
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:380
+//line asn1.y:378
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:383
+//line asn1.y:381
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:384
+//line asn1.y:382
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:389
+//line asn1.y:387
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:390
+//line asn1.y:388
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:393
+//line asn1.y:391
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:394
+//line asn1.y:392
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:407
+//line asn1.y:405
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:408
+//line asn1.y:406
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:411
+//line asn1.y:409
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:412
+//line asn1.y:410
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:418
+//line asn1.y:416
 		{
 			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, nil}}}, yyDollar[4].Imports...)
 		}
 	case 35:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:420
+//line asn1.y:418
 		{
 			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, yyDollar[4].Value}}}, yyDollar[5].Imports...)
 		}
 	case 37:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:424
+//line asn1.y:422
 		{
 			yyVAL.Imports = nil
 		}
 	case 38:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+//line asn1.y:425
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:426
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:431
+//line asn1.y:429
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 41:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:432
+//line asn1.y:430
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:439
+//line asn1.y:437
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:438
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:439
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:447
+//line asn1.y:445
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 47:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:448
+//line asn1.y:446
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:464
+//line asn1.y:462
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 51:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:472
+//line asn1.y:470
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:473
+//line asn1.y:471
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:488
+//line asn1.y:486
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 54:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:491
+//line asn1.y:489
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 76:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:538
+//line asn1.y:536
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:561
+//line asn1.y:559
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:574
+//line asn1.y:572
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:577
+//line asn1.y:575
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:576
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:583
+//line asn1.y:581
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 86:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:584
+//line asn1.y:582
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:587
+//line asn1.y:585
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 88:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:588
+//line asn1.y:586
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 89:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:591
+//line asn1.y:589
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:590
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 91:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:595
+//line asn1.y:593
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:596
+//line asn1.y:594
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:601
+//line asn1.y:599
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:600
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 95:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:607
+//line asn1.y:605
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:610
+//line asn1.y:608
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 97:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:611
+//line asn1.y:609
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:612
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:620
+//line asn1.y:618
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:621
+//line asn1.y:619
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
 	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:624
+//line asn1.y:622
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:623
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:630
+//line asn1.y:628
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:639
+//line asn1.y:637
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 109:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:640
+//line asn1.y:638
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:644
+//line asn1.y:642
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:643
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:649
+//line asn1.y:647
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", 0)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:650
+//line asn1.y:648
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:651
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:652
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealRepr(yylex, yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 117:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:656
+//line asn1.y:654
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:661
+//line asn1.y:659
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 119:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:662
+//line asn1.y:660
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 120:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:665
+//line asn1.y:663
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 121:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:666
+//line asn1.y:664
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:669
+//line asn1.y:667
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:668
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 124:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:675
+//line asn1.y:673
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 125:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:680
+//line asn1.y:678
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:685
+//line asn1.y:683
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:686
+//line asn1.y:684
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:687
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 133:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:699
+//line asn1.y:697
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 134:
-		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:700
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:698
 		{
-			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
+			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ComponentTypeLists.ExtensionAdditions, TrailingComponents: yyDollar[4].ComponentTypeLists.TrailingComponents}
 		}
-	case 135:
-		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:701
+	case 136:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:709
 		{
-			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
+			yyVAL.ComponentTypeLists = ComponentTypeLists{ExtensionAdditions: append(yyDollar[2].ExtensionAdditions, yyDollar[3].ComponentTypeLists.ExtensionAdditions...), TrailingComponents: yyDollar[3].ComponentTypeLists.TrailingComponents}
 		}
-	case 138:
+	case 137:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:713
+//line asn1.y:710
 		{
-			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
+			yyVAL.ComponentTypeLists = ComponentTypeLists{}
+		}
+	case 138:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:711
+		{
+			yyVAL.ComponentTypeLists = ComponentTypeLists{TrailingComponents: yyDollar[4].ComponentTypeList}
 		}
 	case 139:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:714
+//line asn1.y:712
 		{
-			yyVAL.ExtensionAdditions = nil
+			yyVAL.ComponentTypeLists = ComponentTypeLists{}
 		}
 	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:717
-		{
-			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
-		}
-	case 141:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:718
-		{
-			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
-		}
-	case 142:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:721
+//line asn1.y:715
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 143:
+	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:716
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 147:
+	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:731
+//line asn1.y:725
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 148:
+	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:732
+//line asn1.y:726
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 149:
+	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:735
+//line asn1.y:729
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 150:
+	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:736
+//line asn1.y:730
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 151:
+	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:737
+//line asn1.y:731
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 152:
+	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:732
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 153:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:743
+//line asn1.y:737
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 154:
+	case 152:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:744
+//line asn1.y:738
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 153:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:745
+//line asn1.y:739
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 156:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:750
+//line asn1.y:744
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 157:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:745
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 158:
+	case 156:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:755
+//line asn1.y:749
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 159:
+	case 157:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:756
+//line asn1.y:750
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 160:
+	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:761
+//line asn1.y:755
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 161:
-		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:764
+	case 159:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:758
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 162:
+	case 160:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:765
+//line asn1.y:759
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
+	case 161:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line asn1.y:760
+		{
+			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
+		}
 	case 163:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:766
+//line asn1.y:768
 		{
-			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
+			yyVAL.ExtensionAdditionAlternativesList = append([]ChoiceExtension{yyDollar[2].ExtensionAdditionAlternative}, yyDollar[3].ExtensionAdditionAlternativesList...)
 		}
-	case 165:
+	case 164:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:773
+//line asn1.y:769
 		{
-			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
+			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 166:
+	case 165:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:774
+//line asn1.y:770
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 167:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:777
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
-		}
-	case 168:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:778
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
-		}
-	case 169:
+	case 166:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:782
+//line asn1.y:774
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 171:
+	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:789
+//line asn1.y:781
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 172:
+	case 169:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:790
+//line asn1.y:782
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 173:
+	case 170:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:795
+//line asn1.y:787
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 174:
+	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:796
+//line asn1.y:788
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 175:
+	case 172:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:789
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 173:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:800
+//line asn1.y:792
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 177:
+	case 174:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:803
+//line asn1.y:795
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 178:
+	case 175:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:796
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 179:
+	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:807
+//line asn1.y:799
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 180:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:800
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 181:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:801
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 182:
+	case 179:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:810
+//line asn1.y:802
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 183:
+	case 180:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:815
+//line asn1.y:807
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 184:
+	case 181:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:808
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 185:
+	case 182:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:821
+//line asn1.y:813
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 186:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:826
+//line asn1.y:818
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 187:
+	case 184:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:827
+//line asn1.y:819
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 188:
+	case 185:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:830
+//line asn1.y:822
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 189:
+	case 186:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:831
+//line asn1.y:823
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 190:
+	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:834
+//line asn1.y:826
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 193:
+	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:837
+//line asn1.y:829
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 194:
+	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:840
+//line asn1.y:832
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 195:
+	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:833
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 196:
+	case 193:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:845
+//line asn1.y:837
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 200:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:857
+//line asn1.y:849
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 201:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:850
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 202:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:851
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 203:
+	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:852
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 204:
+	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:853
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 205:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:854
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 206:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 207:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 208:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 209:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 210:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 211:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 212:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 213:
+	case 210:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:874
+//line asn1.y:866
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 214:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:879
+//line asn1.y:871
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 215:
+	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:872
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 216:
+	case 213:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:885
+//line asn1.y:877
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 218:
+	case 215:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:891
+//line asn1.y:883
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 219:
+	case 216:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:884
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 220:
+	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:885
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 221:
+	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:886
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 222:
+	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:887
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 223:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 224:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 225:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 226:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:903
+//line asn1.y:895
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 227:
+	case 224:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:906
+//line asn1.y:898
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 230:
+	case 227:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:916
+//line asn1.y:908
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 228:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:917
+//line asn1.y:909
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 232:
+	case 229:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:920
+//line asn1.y:912
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 234:
+	case 231:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:926
+//line asn1.y:918
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 235:
+	case 232:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:927
+//line asn1.y:919
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 236:
+	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:930
+//line asn1.y:922
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 237:
+	case 234:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:931
+//line asn1.y:923
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 239:
+	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:937
+//line asn1.y:929
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 240:
+	case 237:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:938
+//line asn1.y:930
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 242:
+	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:944
+//line asn1.y:936
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 243:
+	case 240:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:945
+//line asn1.y:937
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 245:
+	case 242:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:951
+//line asn1.y:943
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 250:
+	case 247:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:960
+//line asn1.y:952
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 251:
+	case 248:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:962
+//line asn1.y:954
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 257:
+	case 254:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:977
+//line asn1.y:969
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 258:
+	case 255:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:982
+//line asn1.y:974
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 259:
+	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:985
+//line asn1.y:977
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 260:
+	case 257:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:986
+//line asn1.y:978
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 261:
+	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:989
+//line asn1.y:981
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 262:
+	case 259:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:990
+//line asn1.y:982
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 264:
+	case 261:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:994
+//line asn1.y:986
 		{
 			yyVAL.Value = nil
 		}
-	case 266:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:998
+//line asn1.y:990
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 264:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1003
+//line asn1.y:995
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 268:
+	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1008
+//line asn1.y:1000
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 269:
+	case 266:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1013
+//line asn1.y:1005
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 270:
+	case 267:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1006
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From 02d5c6dc7202b8b254f512019f4c8adcd0ad85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 22/26] fix: tag CHOICE and ANY components explicitly in
 IMPLICIT TAGS modules

---
 codegen.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/codegen.go b/codegen.go
index 782e665..9ffc731 100644
--- a/codegen.go
+++ b/codegen.go
@@ -466,6 +466,8 @@ unwrap:
 			tagType := ctx.tagDefault
 			if tt.HasTagType {
 				tagType = tt.TagType
+			} else if tagType == TAGS_IMPLICIT && ctx.isChoiceOrAny(tt.Type) {
+				tagType = TAGS_EXPLICIT // see x.680, section 31.2.7
 			}
 			switch tagType {
 			case TAGS_EXPLICIT:
@@ -525,6 +527,28 @@ unwrap:
 	}
 }
 
+// isChoiceOrAny tells if type is an untagged CHOICE or ANY, directly or through references and constraints.
+func (ctx *moduleContext) isChoiceOrAny(t Type) bool {
+	visited := make(map[TypeReference]bool)
+	for {
+		switch tt := t.(type) {
+		case ChoiceType, AnyType:
+			return true
+		case ConstraintedType:
+			t = tt.Type
+		case TypeReference:
+			assignment := ctx.lookupContext.AssignmentList.GetType(tt.Name())
+			if assignment == nil || visited[tt] {
+				return false
+			}
+			visited[tt] = true
+			t = assignment.Type
+		default:
+			return false
+		}
+	}
+}
+
 // asn1KindFromReference lists what encoding/asn1 can not derive from the go type that a reference is generated as.
 func (ctx *moduleContext) asn1KindFromReference(reference TypeReference) []string {
 	switch t := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type).(type) {
-- 
2.43.0


From 187b6dbe070689192418115d91c1d5fa84139d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 23/26] fix: mark the kind of fields that are a CHOICE of one
 alternative

---
 codegen.go | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/codegen.go b/codegen.go
index 9ffc731..1b84488 100644
--- a/codegen.go
+++ b/codegen.go
@@ -490,6 +490,7 @@ unwrap:
 		}
 	}
 	// add type-specific tags
+	t = ctx.unwrapSingleChoice(t)
 	switch tt := t.(type) {
 	case RestrictedStringType:
 		switch tt.LexType {
@@ -551,22 +552,47 @@ func (ctx *moduleContext) isChoiceOrAny(t Type) bool {
 
 // asn1KindFromReference lists what encoding/asn1 can not derive from the go type that a reference is generated as.
 func (ctx *moduleContext) asn1KindFromReference(reference TypeReference) []string {
-	switch t := ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type).(type) {
-	case RestrictedStringType:
-		switch t.LexType {
-		case IA5String:
-			return []string{"ia5"}
-		case UTF8String:
-			return []string{"utf8"}
-		case NumericString:
-			return []string{"numeric"}
+	visited := make(map[TypeReference]bool)
+	for !visited[reference] {
+		visited[reference] = true
+		leaf := ctx.unwrapToLeafType(reference)
+		switch leaf.TypeReference.Name() {
+		case GeneralizedTimeName:
+			return []string{"generalized"}
+		case UTCTimeName:
+			return []string{"utc"}
+		}
+		switch t := ctx.unwrapSingleChoice(leaf.Type).(type) {
+		case RestrictedStringType:
+			switch t.LexType {
+			case IA5String:
+				return []string{"ia5"}
+			case UTF8String:
+				return []string{"utf8"}
+			case NumericString:
+				return []string{"numeric"}
+			}
+		case SetType:
+			return []string{"set"}
+		case TypeReference:
+			reference = t
 		}
-	case SetType:
-		return []string{"set"}
 	}
 	return nil
 }
 
+// unwrapSingleChoice removes constraints, tags and every CHOICE that is generated as its only alternative.
+func (ctx *moduleContext) unwrapSingleChoice(t Type) Type {
+	for {
+		t = ctx.removeWrapperTypes(t)
+		choice, ok := t.(ChoiceType)
+		if !ok || len(choice.AlternativeTypeList) != 1 || ctx.hasTaggedAlternatives(choice) {
+			return t
+		}
+		t = choice.AlternativeTypeList[0].Type
+	}
+}
+
 func (ctx *moduleContext) generateSpecialCase(resolved TypeAssignment) goast.Expr {
 	if resolved.TypeReference.Name() == GeneralizedTimeName || resolved.TypeReference.Name() == UTCTimeName {
 		// time types in encoding/asn1go don't support wrapping of time.Time
-- 
2.43.0


From a758932b9013fdcd7984a1482815593dcd94afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 24/26] fix: name the output file in asn1go's message about it

---
 cmd/asn1go/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index fffbee6..45d8f40 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
-- 
2.43.0


From 6fb19315b54e2012cedf0bb6d8b902e2cf8ae824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 25/26] fix: report write failures of ws2bin

---
 cmd/ws2bin/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ws2bin/main.go b/cmd/ws2bin/main.go
index 87664b3..eaae87d 100644
--- a/cmd/ws2bin/main.go
+++ b/cmd/ws2bin/main.go
@@ -14,7 +14,10 @@ func main() {
 		os.Exit(1)
 	}
 	outputBytes := utils.ParseWiresharkHex(string(inputBytes))
-	os.Stdout.Write(outputBytes)
+	if _, err := os.Stdout.Write(outputBytes); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to write: %v", err.Error())
+		os.Exit(1)
+	}
 	os.Stdout.Sync()
 	os.Stdout.Close()
 }
-- 
2.43.0


From 612e0c3a12bc8862b6a88eae4f4edd6c103db3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 26/26] fix: keep components of extension addition groups

---
 asn1.y |  6 +++---
 ast.go |  9 ++++++++
 y.go   | 68 ++++++++++++++++++++++++++++++++--------------------------
 3 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/asn1.y b/asn1.y
index 5e0b02a..7a469af 100644
--- a/asn1.y
+++ b/asn1.y
@@ -307,7 +307,7 @@ import (
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternatives
 %type <ComponentTypeLists> ExtensionAdditions
-%type <ExtensionAdditions> ExtensionAddition
+%type <ExtensionAdditions> ExtensionAddition ExtensionAdditionGroup
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
 %type <EnumeratedType> Enumerations
@@ -713,9 +713,9 @@ ExtensionAdditions : COMMA ExtensionAddition ExtensionAdditions  { $$ = Componen
 ;
 
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
-                  | ExtensionAdditionGroup  { $$ = nil }
+                  | ExtensionAdditionGroup  { $$ = $1 }
 
-ExtensionAdditionGroup : LEFT_VERSION_BRACKETS VersionNumber ComponentTypeList RIGHT_VERSION_BRACKETS
+ExtensionAdditionGroup : LEFT_VERSION_BRACKETS VersionNumber ComponentTypeList RIGHT_VERSION_BRACKETS  { $$ = $3.asExtensionAdditions() }
 ;
 
 VersionNumber : /*empty*/
diff --git a/ast.go b/ast.go
index 5ac5cb1..4030ca6 100644
--- a/ast.go
+++ b/ast.go
@@ -401,6 +401,15 @@ type ComponentTypeLists struct {
 // ComponentTypeList is a list of ComponentType.
 type ComponentTypeList []ComponentType
 
+// asExtensionAdditions converts content of an extension addition group, as grouping itself is not preserved in AST.
+func (l ComponentTypeList) asExtensionAdditions() []ExtensionAddition {
+	additions := make([]ExtensionAddition, 0, len(l))
+	for _, component := range l {
+		additions = append(additions, component)
+	}
+	return additions
+}
+
 // ComponentType is a component type of SEQUENCE or SET.
 // It can be used in ExtensionAddition context, so types implementing it must implement both.
 type ComponentType interface {
diff --git a/y.go b/y.go
index ab5e6af..8bdbc60 100644
--- a/y.go
+++ b/y.go
@@ -420,9 +420,9 @@ var yyAct = [...]int16{
 	380, 381, 18, 379, 382, 384, 383, 55, 48, 19,
 	48, 4, 161, 323, 161, 410, 398, 390, 397, 377,
 	343, 391, 342, 341, 393, 399, 55, 19, 165, 339,
-	405, 268, 265, 418, 406, 39, 378, 378, 34, 408,
-	409, 1, 206, 208, 414, 204, 162, 415, 203, 416,
-	209, 403, 184, 350, 119, 198, 166, 197, 71, 241,
+	405, 268, 265, 418, 39, 34, 378, 378, 1, 408,
+	409, 206, 414, 208, 204, 203, 162, 415, 209, 416,
+	406, 403, 184, 350, 119, 198, 166, 197, 71, 241,
 	421, 422, 43, 56, 37, 277, 361, 68, 76, 93,
 	85, 147, 234, 101, 98, 176, 92, 109, 99, 83,
 	81, 80, 137, 79, 78, 195, 66, 84, 90, 169,
@@ -532,27 +532,27 @@ var yyPgo = [...]int16{
 	441, 440, 1, 2, 440, 33, 439, 433, 432, 431,
 	430, 428, 427, 425, 16, 424, 423, 164, 30, 174,
 	104, 422, 419, 418, 417, 415, 415, 413, 15, 5,
-	411, 21, 410, 408, 4, 405, 404, 402, 401, 398,
-	395, 11, 19, 28, 394, 393, 393, 392, 391, 389,
+	411, 410, 21, 408, 405, 4, 404, 402, 401, 398,
+	395, 394, 11, 19, 28, 393, 393, 392, 391, 389,
 	383, 382, 380, 3, 379, 378, 376, 375, 373,
 }
 
 var yyR1 = [...]uint8{
-	0, 118, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 119, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 119, 119, 119, 120, 120,
+	7, 6, 6, 44, 44, 120, 120, 120, 121, 121,
 	95, 95, 96, 96, 97, 97, 98, 98, 102, 102,
 	99, 99, 100, 101, 101, 101, 43, 43, 40, 40,
 	76, 15, 15, 42, 41, 20, 20, 20, 19, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 77, 77, 24, 31, 30, 30,
-	30, 30, 18, 35, 35, 17, 17, 112, 112, 111,
-	111, 38, 38, 32, 32, 22, 113, 113, 113, 115,
-	116, 114, 114, 117, 117, 33, 34, 34, 36, 36,
+	30, 30, 18, 35, 35, 17, 17, 113, 113, 112,
+	112, 38, 38, 32, 32, 22, 114, 114, 114, 116,
+	117, 115, 115, 118, 118, 33, 34, 34, 36, 36,
 	37, 37, 1, 1, 1, 1, 2, 2, 92, 92,
-	93, 93, 94, 94, 91, 21, 78, 78, 78, 122,
-	122, 123, 123, 85, 85, 84, 109, 109, 109, 109,
-	110, 110, 124, 125, 125, 83, 83, 82, 82, 82,
+	93, 93, 94, 94, 91, 21, 78, 78, 78, 123,
+	123, 124, 124, 85, 85, 84, 109, 109, 109, 109,
+	110, 110, 111, 125, 125, 83, 83, 82, 82, 82,
 	82, 80, 80, 80, 81, 81, 23, 23, 103, 104,
 	104, 104, 106, 108, 108, 108, 107, 126, 105, 105,
 	86, 86, 86, 87, 88, 88, 89, 89, 89, 89,
@@ -566,7 +566,7 @@ var yyR1 = [...]uint8{
 	65, 65, 65, 65, 63, 64, 69, 69, 70, 70,
 	71, 71, 72, 72, 68, 66, 67, 67, 129, 130,
 	130, 131, 132, 133, 133, 134, 135, 136, 136, 137,
-	137, 137, 137, 121, 121, 138, 138, 138,
+	137, 137, 137, 122, 122, 138, 138, 138,
 }
 
 var yyR2 = [...]int8{
@@ -602,10 +602,10 @@ var yyR2 = [...]int8{
 }
 
 var yyChk = [...]int16{
-	-1000, -118, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -119, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -119, 68, 52, -95, 116, -120,
+	-10, 67, 33, -44, -120, 68, 52, -95, 116, -121,
 	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -99, 42,
 	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
@@ -621,29 +621,29 @@ var yyChk = [...]int16{
 	-38, -5, 26, -36, -37, 8, 36, -1, 109, 69,
 	-49, -50, -51, -52, -54, -55, 55, -57, -56, -59,
 	-58, -61, -62, -65, 32, -63, -64, -68, -66, -67,
-	-31, -69, -20, 126, -71, 65, 26, -104, -105, -122,
-	-24, 17, -5, -113, -115, -114, -117, -111, -5, -112,
-	-111, -5, 27, -122, -85, -83, -82, -24, 103, -20,
-	-24, 93, 93, -48, 27, -122, -85, -20, -24, 93,
+	-31, -69, -20, 126, -71, 65, 26, -104, -105, -123,
+	-24, 17, -5, -114, -116, -115, -118, -112, -5, -113,
+	-112, -5, 27, -123, -85, -83, -82, -24, 103, -20,
+	-24, 93, 93, -48, 27, -123, -85, -20, -24, 93,
 	93, 83, -20, -20, -88, -39, -15, 8, -3, -45,
 	-98, -102, -97, -29, -15, -3, -45, -28, -15, -27,
 	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
-	-121, 45, 30, -60, 60, -127, 44, 94, -128, 46,
+	-122, 45, 30, -60, 60, -127, 44, 94, -128, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
-	27, 30, -108, 30, -121, -20, 27, 30, 30, 32,
-	27, 30, -123, 30, 27, 30, 97, 115, 93, -20,
-	-24, -20, -24, -123, 27, -20, -24, -20, -24, -5,
+	27, 30, -108, 30, -122, -20, 27, 30, 30, 32,
+	27, 30, -124, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -124, 27, -20, -24, -20, -24, -5,
 	35, 31, -98, 27, -28, -15, -28, 32, 8, -2,
 	8, 36, 33, -138, -38, -15, -20, 8, 36, 17,
 	-61, -57, -59, 33, -70, -72, 28, -31, 61, -129,
-	-48, -130, -131, -132, 26, 27, 30, 32, -122, -24,
-	-107, 17, -24, 17, -114, -38, -15, -111, 27, 17,
-	-122, -82, -31, -20, 27, -45, 27, -25, -15, 25,
+	-48, -130, -131, -132, 26, 27, 30, 32, -123, -24,
+	-107, 17, -24, 17, -115, -38, -15, -112, 27, 17,
+	-123, -82, -31, -20, 27, -45, 27, -25, -15, 25,
 	8, 37, 8, 30, -72, -133, 17, -134, -5, -94,
-	-39, -15, -108, -108, -121, 33, 33, -109, 30, 33,
+	-39, -15, -108, -108, -122, 33, 33, -109, 30, 33,
 	-2, -31, -53, -54, 27, 30, 30, -135, -136, -48,
-	33, 33, 30, -110, 17, -82, -124, 18, -133, -133,
-	-137, 113, 47, 97, -116, -114, -109, 30, -125, 8,
+	33, 33, 30, -110, 17, -82, -111, 18, -133, -133,
+	-137, 113, 47, 97, -117, -115, -109, 30, -125, 8,
 	27, -83, -83, 37, 30, 19,
 }
 
@@ -1616,7 +1616,13 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:716
 		{
-			yyVAL.ExtensionAdditions = nil
+			yyVAL.ExtensionAdditions = yyDollar[1].ExtensionAdditions
+		}
+	case 142:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:718
+		{
+			yyVAL.ExtensionAdditions = yyDollar[3].ComponentTypeList.asExtensionAdditions()
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0

