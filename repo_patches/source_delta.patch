From 75d529c40aec5f18afa7fe264731fee22cc1492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 01/63] fix: lexer must not write its padding byte into the
 caller's buffer

---
 lexer/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..1a4f291 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,9 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	// Hack:: trailing byte ignored without adding an ignorable byte. The capacity is capped so that
+	// the padding is always added to a copy and never to the caller's backing array
+	src = append(src[:len(src):len(src)], 32)
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From ffcd248f9d1b5312589aad31addd4703bbb6c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 02/63] fix: lexer hangs on bytes that are not valid UTF-8

---
 lexer/lexer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1a4f291..76ddbf9 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -183,6 +183,8 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 		case EOF:
 			tok = token.EOF
 			lit = ""
+		case utf8.RuneError:
+			lit = string(l.src[startOffset:l.offset]) // keep the undecodable bytes as they are
 		}
 	}
 	lenLines := len(l.lineOffsets)
@@ -203,9 +205,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From d7b517b92c998ce1397f37ec310b5e2964e7ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 03/63] fix: unterminated text literal panics the lexer or
 loses its last byte

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 76ddbf9..a21887f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -323,7 +323,7 @@ func (l *Lexer) scanString() string {
 	for {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
 			l.next()
-- 
2.43.0


From e9838886b1116c01c77c814d7ac074fe118a13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 04/63] fix: parser silently accepts sources with lexical
 errors

---
 lexer/lexer.go   |  8 +++++++-
 parser/parser.go | 14 +++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a21887f..3e6e47f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -385,7 +385,13 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	lenLines := len(l.lineOffsets)
+	pos := token.Position{
+		Offset: offset,
+		Line:   lenLines,
+		Column: offset - l.lineOffsets[lenLines-1],
+	}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..b223e32 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -95,6 +90,15 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		p.next()
 	}
 
+	// a source with lexical errors is never valid, no matter what could be parsed
+	for _, lexErr := range p.lexer.Errors {
+		p.errorHandler(&Error{
+			Prefix: "lexer",
+			Range:  token.PositionRange{Start: lexErr.Pos, End: lexErr.Pos},
+			Msg:    lexErr.Msg,
+		})
+	}
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
-- 
2.43.0


From 792a6008abed3e0f0a5a2fe09f6214f9bf080eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 05/63] fix: identifiers named like internal tokens are lexed
 as those tokens

---
 token/token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..a6a6a80 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,9 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		if i == TEXT_LITERAL || i == numeric_end {
+			continue // display names only, not words of the language
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From e4c1658394b4ca51c6bb04aa834982b9986cf3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 06/63] fix: integers followed by a period are lexed as floats,
 non-ASCII digits as part of numbers

---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3e6e47f..06b85f2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,9 +284,9 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 	tok = token.INT
 
 	// TODO : Add support for all number types, int, floats
-	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
+	for isDigit(l.chr) || l.chr == '.' && isDigit(rune(l.peek())) {
 		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+		if l.chr == '.' && isDigit(rune(l.peek())) { // check that its not part of a bound .., ... or a control operator
 			tok = token.FLOAT
 		}
 	}
-- 
2.43.0


From b99f038d463cd55a4dcd30b30190a0971ec51933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 07/63] fix: unknown control operators are lexed as identifiers

---
 lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 06b85f2..ad1518f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -168,12 +168,15 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				l.next()
 				tok = token.INCLUSIVE_BOUND
 				lit = ".."
-			} else if unicode.IsLetter(l.chr) {
+			} else if isLetter(l.chr) {
 				// Scan for control operators
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
 
 				tok = token.Lookup(lit)
+				if tok == token.IDENT {
+					tok = token.ILLEGAL // not a known control operator
+				}
 			} else {
 				tok = token.PERIOD
 			}
-- 
2.43.0


From ade16d98ef33eeaec1c85dea016622c4fb6eeee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 08/63] fix: the token after a rule's trailing comment is
 skipped

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b223e32..5d6c930 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -177,7 +177,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From 48424ea83f467b41cb265cb704c9f286e6c0c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 09/63] fix: the upper bound of an occurrence is parsed again
 as its item

---
 parser/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5d6c930..4f65528 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -804,10 +804,9 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	// advance to the item. An absent upper bound means that there is no upper limit
+	p.next()
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From 9f9e450e3f975efa4159576e9264f2550f2771aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 10/63] fix: .regexp on anything but a text type panics the
 parser

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4f65528..a76f728 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -570,7 +570,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
-- 
2.43.0


From a97beb71ba6330d1075d4d0a934ddef16561d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 11/63] fix: an invalid .bits constraint panics the parser

---
 parser/parser.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a76f728..cafb4e3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -599,7 +599,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -653,14 +652,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From aa8c415c1155dbe4415ffaae548ea40e1dc35e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 12/63] fix: comparator operators lose their left operand

---
 parser/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cafb4e3..f2ffa34 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -720,8 +720,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -731,7 +729,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -741,7 +739,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 6b93cf73249a609675b29ca62dedad4f0b7585de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 13/63] fix: an unclosed tag is silently accepted

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f2ffa34..82a14fe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -112,11 +112,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 func (p *Parser) expectPeek(tok token.Token) bool {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
 		return false
 	}
 	p.next()
-	return false
+	return true
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -451,7 +450,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if !p.expectPeek(token.RPAREN) {
+			return tagBase, p.errorTokenExpected(p.peekPos, token.RPAREN)
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 93afe9ab1c3cbfa1739ad5dda053d90a4f109247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 14/63] fix: range bounds of unsupported types are silently
 dropped

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 82a14fe..07c44ae 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -757,6 +757,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -879,6 +881,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.INT, token.IDENT)
 	}
 
 	return b, nil
@@ -924,6 +928,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.FLOAT, token.IDENT)
 	}
 
 	return b, nil
-- 
2.43.0


From ba6ae46ce1e7e321640add5691f45649c9f9a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 15/63] fix: operands are parsed with the precedence of their
 first token, not their operator's

---
 parser/parser.go | 40 +++++++++++++++++++++-------------------
 token/token.go   |  2 +-
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 07c44ae..3b48279 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -148,7 +148,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -355,7 +355,8 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	// the value ends at a group choice, the comma that terminates the entry is still part of it
+	val, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return val, err
 	}
@@ -379,7 +380,8 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	// a chain of choices nests to the right, hence its own operator is part of the second operand
+	sec, err := p.parseEntry(tc.Token.Precedence() - 1) // TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -394,7 +396,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(gc.Token.Precedence() - 1) // TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -410,7 +412,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(un.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -445,7 +447,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.LOWEST)
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -465,7 +467,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(enum.Token.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -509,7 +511,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(tc.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -555,7 +557,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence())
 	if err != nil {
 		return sop, err
 	}
@@ -582,7 +584,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence())
 	if err != nil {
 		return r, err
 	}
@@ -598,7 +600,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -631,7 +633,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -659,7 +661,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -677,7 +679,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -738,7 +740,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -802,7 +804,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(occ.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -818,7 +820,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -849,7 +851,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -896,7 +898,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
diff --git a/token/token.go b/token/token.go
index a6a6a80..1eb40e4 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From ecd8a079c949dbf8f31e57a26db78fd43693c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 16/63] fix: arrays and groups silently drop entries that are
 not named

---
 ast/group.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ast/group.go b/ast/group.go
index 54d6d41..21920ed 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -24,3 +24,30 @@ func (g *Group) End() token.Position {
 }
 
 func (g *Group) groupEntry() {}
+
+// Every type is also a group entry on its own i.e. without a name, as in [int, tstr]
+
+func (*Array) groupEntry()               {}
+func (*Bits) groupEntry()                {}
+func (*BooleanLiteral) groupEntry()      {}
+func (*BooleanType) groupEntry()         {}
+func (*BstrType) groupEntry()            {}
+func (*BytesType) groupEntry()           {}
+func (*ComparatorOpControl) groupEntry() {}
+func (*FloatLiteral) groupEntry()        {}
+func (*FloatType) groupEntry()           {}
+func (*GroupChoice) groupEntry()         {}
+func (*IntegerLiteral) groupEntry()      {}
+func (*IntegerType) groupEntry()         {}
+func (*Map) groupEntry()                 {}
+func (*NegativeIntegerType) groupEntry() {}
+func (*NullType) groupEntry()            {}
+func (*Regexp) groupEntry()              {}
+func (*SizeOperatorControl) groupEntry() {}
+func (*Tag) groupEntry()                 {}
+func (*TextLiteral) groupEntry()         {}
+func (*TstrType) groupEntry()            {}
+func (*TypeChoice) groupEntry()          {}
+func (*UintLiteral) groupEntry()         {}
+func (*UintType) groupEntry()            {}
+func (*Unwrap) groupEntry()              {}
-- 
2.43.0


From 79368437eeb56ef71c210f7e57065215a03468d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 17/63] fix: comments before a closing bracket are rejected

---
 parser/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3b48279..1a0ee6b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -633,6 +633,11 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
+		if p.currToken == token.COMMENT {
+			_, _ = p.parseComment()
+			p.next()
+			continue
+		}
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -661,6 +666,11 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
+		if p.currToken == token.COMMENT {
+			_, _ = p.parseComment()
+			p.next()
+			continue
+		}
 		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -679,6 +689,11 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
+		if p.currToken == token.COMMENT {
+			_, _ = p.parseComment()
+			p.next()
+			continue
+		}
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
-- 
2.43.0


From b2cda46f3348ec0a7f6c3edab6217e1dd1ffd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 18/63] fix: an occurrence after an entry's trailing comment is
 taken as the entry's operator

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1a0ee6b..f407b6b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -209,6 +209,10 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	}
 
 	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
+		if _, ok := exp.(*ast.Entry); ok && (p.peekToken == token.ZERO_OR_MORE || p.peekToken == token.ONE_OR_MORE) {
+			// an entry is never a lower bound. The operator starts the next entry
+			return exp, nil
+		}
 		ledFn := p.leds[p.peekToken]
 		if ledFn == nil {
 			return exp, nil
-- 
2.43.0


From 9b8b111c6957285787fc99f03028add145115964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 19/63] fix: names only declared with /= or //= are reported as
 non-existent

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f407b6b..8ff7010 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -169,6 +169,12 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		// extending a name also declares it, if nothing else does. Declare before any of the
+		// references, which may come earlier in the source, is checked
+		p.tasks = append([]taskFn{func() errors.Diagnostic {
+			_ = p.environment.Add(rule.Name.Name, entry)
+			return nil
+		}}, p.tasks...)
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From 6632c2e1e487514ebf75ee4b369dee2041261a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 20/63] fix: integer keys are positioned at the colon

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8ff7010..7945d6d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -352,7 +352,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  p.pos,
+			Pos:  val.Pos,
 			Name: fmt.Sprintf("%d", val.Literal),
 		}
 	default:
-- 
2.43.0


From fddac59c65d5ccad57d8e8070872b46d4e61a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 21/63] fix: the major type of a tag has no position

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7945d6d..94c7205 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -444,7 +444,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
-- 
2.43.0


From 84e92932bb2df0f90045e91797ff634753feb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 22/63] fix: End panics on nodes without their optional parts

---
 ast/occurrence.go |  2 +-
 ast/rule.go       |  3 +++
 ast/tag.go        | 16 ++++++++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/rule.go b/ast/rule.go
index 285334c..5d024f9 100644
--- a/ast/rule.go
+++ b/ast/rule.go
@@ -15,6 +15,9 @@ func (r *Rule) Start() token.Position {
 	return r.Name.Start()
 }
 func (r *Rule) End() token.Position {
+	if r.Value == nil { // the value could not be parsed
+		return r.Name.End()
+	}
 	return r.Value.End()
 }
 
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..0c21bf5 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -1,6 +1,10 @@
 package ast
 
-import "github.com/HannesKimara/cddlc/token"
+import (
+	"fmt"
+
+	"github.com/HannesKimara/cddlc/token"
+)
 
 type Tag struct {
 	Pos              token.Position
@@ -14,5 +18,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.Major.End().To(1 + len(fmt.Sprintf("%d", t.TagNumber.Literal))) // add . and the tag number
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1) // length of `#`
 }
-- 
2.43.0


From 070682af2b7641b92c2cead162adc723725f0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 23/63] fix: Walk panics on uint, boolean literals, .bits,
 enumerations and comment groups

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..4512fd3 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,6 +22,22 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BooleanType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +95,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -176,6 +202,9 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.UintLiteral:
 		// pass
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.Unwrap:
 		if n.Item != nil {
 			Walk(v, n.Item)
-- 
2.43.0


From c998cef453c02d621a209bb29d1aea40019671e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 24/63] fix: LoadConfig leaks its file

---
 config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..10bf609 100644
--- a/config/config.go
+++ b/config/config.go
@@ -98,6 +98,8 @@ func LoadConfig(path string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer fh.Close()
+
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-- 
2.43.0


From 2ab2ea16b0141ed9bf39f30f6854185c2b0574ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 25/63] fix: the default configuration generates code without a
 package name

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 10bf609..556ab94 100644
--- a/config/config.go
+++ b/config/config.go
@@ -87,6 +87,7 @@ func NewDefaultConfig() *Config {
 
 func newDefaultBuildConfig() *BuildConfig {
 	return &BuildConfig{
+		Package:   "dist",
 		SourceDir: ".",
 		OutDir:    "dist/",
 	}
-- 
2.43.0


From 9df85038b7a7bcc072a902983b63dfcb2490b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 26/63] fix: concurrent inits both write to the same
 configuration

---
 cmd/cddlc/commands/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..71c96b8 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -26,7 +26,7 @@ func getFileHandle(name string) (io.Writer, error) {
 		// file exists
 		return nil, errors.New("existing configuration for project found in " + fp)
 	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
+		return os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
 	default:
 		return nil, err
 	}
-- 
2.43.0


From b88ab7656dfbfe2a6a7adc05993cde7290c2284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 27/63] fix: generate misses its configuration next to other
 cddlc.* files and in directories named like a glob

---
 cmd/cddlc/commands/generate.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..3bc170e 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -97,16 +97,15 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
-
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		conf, err := config.LoadConfig(filepath.Join(dir, name))
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		}
+		return conf, err
 	}
 
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
-- 
2.43.0


From b29783abfb6a153939d1bbfb0a91e608debfb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 28/63] fix: generate ignores errors in writing the generated
 code

---
 cmd/cddlc/commands/generate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 3bc170e..4edffa4 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -141,8 +141,7 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	return gen.String(out)
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From ad62a1a3d71db0ffe624eab3161f768922fb12c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 29/63] fix: a failing generate destroys the output of an
 earlier run

---
 cmd/cddlc/commands/generate.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 4edffa4..b539df9 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -115,13 +115,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -137,11 +130,16 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 
 	gen.Visit(cddl)
 
+	// only touch the output file once everything is generated. A failure keeps an earlier output
+	out := &bytes.Buffer{}
 	err = addBuildHeader(out)
 	if err != nil {
 		return err
 	}
-	return gen.String(out)
+	if err := gen.String(out); err != nil {
+		return err
+	}
+	return ioutil.WriteFile(outPath, out.Bytes(), 0666)
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From 032e875b95e2aa9bf156f3451dc6a08e9725c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 30/63] fix: generate crashes on constructs the generator does
 not support

---
 cmd/cddlc/commands/generate.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index b539df9..b921f22 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -128,7 +129,9 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return errors.New("parser failed with errors above")
 	}
 
-	gen.Visit(cddl)
+	if err := visit(gen, cddl); err != nil {
+		return err
+	}
 
 	// only touch the output file once everything is generated. A failure keeps an earlier output
 	out := &bytes.Buffer{}
@@ -142,6 +145,18 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	return ioutil.WriteFile(outPath, out.Bytes(), 0666)
 }
 
+// visit generates the code and reports constructs that the generator does not support as an error
+func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("code generation failed: %v", r)
+		}
+	}()
+
+	gen.Visit(cddl)
+	return nil
+}
+
 func addBuildHeader(f io.Writer) error {
 	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
 
-- 
2.43.0


From 534574b064b889a8b632cae241910b5dca30499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 31/63] fix: arguments can break out of the header of generated
 files

---
 cmd/cddlc/commands/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index b921f22..c9a05da 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -158,7 +158,9 @@ func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
 }
 
 func addBuildHeader(f io.Writer) error {
-	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
+	command := filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ")
+	command = strings.ReplaceAll(command, "*/", "* /") // must not end the comment
+	header := "/*\n  File generated using `" + command + "`. DO NOT EDIT\n*/\n\n"
 
 	_, err := f.Write([]byte(header))
 	if err != nil {
-- 
2.43.0


From 6371cf73b163c4d79a6c8f32c29d49b077a5db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 32/63] fix: text literals are generated without quotes

---
 transforms/codegen/golang/gen_literals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..f2f1267 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -11,7 +11,7 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
-- 
2.43.0


From bfdd83f59192218c739a46de50c5ab438e6ac109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 33/63] fix: generated methods have receivers that are not go
 identifiers

---
 transforms/codegen/golang/gen_grouped.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..a26e04d 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent("self") // the rule's name is not always a go identifier
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From 586cd94c5cda69596c5318219a1d2b376c61351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 34/63] fix: methods are generated on variables

---
 transforms/codegen/golang/gen_grouped.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index a26e04d..8bfbfcc 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -61,6 +61,9 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
+		if declToken != token.TYPE {
+			return g // only types have methods
+		}
 		valDecl := g.bundleValidators(stct.validators, val)
 		g.file.Decls = append(g.file.Decls, valDecl)
 	case *ast.CDDL:
-- 
2.43.0


From cf908eabdc23ce94226e2ce237d102eefa4da077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 35/63] fix: no valid code is generated for the float, bstr,
 nint and null primitives

---
 transforms/codegen/golang/gen_base_types.go | 34 +++++++++++++++++++--
 transforms/codegen/golang/gen_grouped.go    |  6 ++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..7153987 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -20,9 +21,32 @@ func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 	}
 }
 
-func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
+// transpileNullType returns the unit type. nil is not a type, and types that can be nil i.e. pointers
+// and interfaces, can not have methods
+func (g *Generator) transpileNullType(nt *ast.NullType) *gast.StructType {
+	return &gast.StructType{
+		Fields: &gast.FieldList{},
+	}
+}
+
+// transpileFloatType returns the smallest type that holds all values of the float type
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32:
+		return &gast.Ident{
+			Name: "float32",
+		}
+	}
 	return &gast.Ident{
-		Name: "nil",
+		Name: "float64",
 	}
 }
 
@@ -32,6 +56,12 @@ func (g *Generator) transpileIntegerType(it *ast.IntegerType) *gast.Ident {
 	}
 }
 
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
 func (g *Generator) transpileUintType(it *ast.UintType) *gast.Ident {
 	return &gast.Ident{
 		Name: "uint",
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 8bfbfcc..3fce578 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -245,6 +245,12 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileTstrType(val)), nil
 	case *ast.BytesType:
 		return newStructure(g.transpileBytesType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
 	case *ast.Comment:
 		return newStructure(g.transpileComment(val)), nil
 	case *ast.NullType:
-- 
2.43.0


From f0575af96dbd23112861c28cdb14e2f353f46873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 36/63] fix: float literals without a fraction are generated as
 integers

---
 transforms/codegen/golang/gen_literals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index f2f1267..7fae0ab 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 	"go/token"
 	"strconv"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -16,9 +17,13 @@ func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 }
 
 func (g *Generator) transpileFloatLiteral(fl *ast.FloatLiteral) *gast.BasicLit {
+	value := strconv.FormatFloat(fl.Literal, 'f', -1, 64)
+	if !strings.Contains(value, ".") {
+		value += ".0" // without a fraction it would be an integer
+	}
 	return &gast.BasicLit{
 		Kind:  token.FLOAT,
-		Value: strconv.FormatFloat(fl.Literal, 'f', -1, 64),
+		Value: value,
 	}
 }
 
-- 
2.43.0


From fb85b8fcf0e06bb6de2c7f8e6327dc530940481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 37/63] fix: literal values of named entries are generated as
 field types

---
 transforms/codegen/golang/gen_grouped.go  |  3 +++
 transforms/codegen/golang/gen_literals.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 3fce578..9dee7b6 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -217,6 +217,9 @@ func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
 		Names: []*gast.Ident{ident},
 		Type:  stct.node.(gast.Expr),
 	}
+	if litType := literalType(entry.Value); litType != nil {
+		field.Type = litType // a value is not a type
+	}
 
 	stctRet := newStructure(field)
 
diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 7fae0ab..cab6068 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -45,3 +45,18 @@ func (g *Generator) transpileBoolLiteral(bl *ast.BooleanLiteral) *gast.Ident {
 		Name: strconv.FormatBool(bl.Bool),
 	}
 }
+
+// literalType returns the go type of a literal node, nil for all other nodes
+func literalType(node ast.Node) *gast.Ident {
+	switch node.(type) {
+	case *ast.TextLiteral:
+		return gast.NewIdent("string")
+	case *ast.IntegerLiteral:
+		return gast.NewIdent("int")
+	case *ast.FloatLiteral:
+		return gast.NewIdent("float64")
+	case *ast.BooleanLiteral:
+		return gast.NewIdent("bool")
+	}
+	return nil
+}
-- 
2.43.0


From 013f1d65889a4bd309ae0a14c3ebe0a9998f3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 38/63] fix: the generator reports success for output that is
 not go code

---
 transforms/codegen/golang/gen.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..220d343 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -3,9 +3,11 @@
 package gogen
 
 import (
+	"bytes"
 	"fmt"
 	gast "go/ast"
 	"go/format"
+	"go/parser"
 	"go/token"
 	"io"
 )
@@ -81,7 +83,17 @@ func (g *Generator) String(output io.Writer) (err error) {
 		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
-	return format.Node(output, g.fset, g.file)
+	out := &bytes.Buffer{}
+	if err := format.Node(out, g.fset, g.file); err != nil {
+		return err
+	}
+	// the printer prints any tree, even those that are not go
+	if _, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.AllErrors); err != nil {
+		return fmt.Errorf("generated code is not valid: %w", err)
+	}
+
+	_, err = output.Write(out.Bytes())
+	return err
 }
 
 // Package returns the name of the generated golang package
-- 
2.43.0


From 34d12c95bde49ce28b54a89811434ab2c37ee1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 39/63] fix: comments contain the carriage return of their
 line's ending

---
 lexer/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index ad1518f..4e5e72f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -4,6 +4,7 @@ package lexer
 
 import (
 	"fmt"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -233,11 +234,11 @@ func (l *Lexer) scanComment() string {
 	offsetPre := l.offset
 
 	// scan to end of line
-	// TODO: account for carriage returns
 	for l.chr >= 0 && l.chr != '\n' {
 		l.next()
 	}
-	return string(l.src[offsetPre:l.offset])
+	// a carriage return is part of the line ending
+	return strings.TrimSuffix(string(l.src[offsetPre:l.offset]), "\r")
 }
 
 func (l *Lexer) scanIdentifier() string {
-- 
2.43.0


From 8a02007da37f5fdea22cc90dce711e2ca87c56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 40/63] fix: the upper bound of a range that starts at an
 identifier is only checked if it is an identifier too

---
 parser/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 94c7205..68beb99 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -851,6 +851,12 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 	b.To = to
 
+	switch to.(type) {
+	case *ast.Identifier, *ast.IntegerLiteral, *ast.FloatLiteral:
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.INT, token.FLOAT, token.IDENT)
+	}
+
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
 		valLeft := p.environment.Get(left.Name)
 		to := b.To
@@ -862,6 +868,14 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
 					left.Pos, val.Pos)
 			}
+		case *ast.IntegerLiteral:
+			if _, ok := valLeft.(*ast.FloatLiteral); ok {
+				return p.error("cannot use integer literal as upper bound to float range", val.Start(), val.End())
+			}
+		case *ast.FloatLiteral:
+			if _, ok := valLeft.(*ast.IntegerLiteral); ok {
+				return p.error("cannot use float literal as upper bound to int range", val.Start(), val.End())
+			}
 		}
 		return nil
 	})
-- 
2.43.0


From 73afed15c8e864abc443cbcc69a1be8cd4aa81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 41/63] fix: an occurrence after an entry without a comma is
 taken as the entry's operator

---
 parser/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 68beb99..b041384 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -215,9 +215,11 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	}
 
 	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
-		if _, ok := exp.(*ast.Entry); ok && (p.peekToken == token.ZERO_OR_MORE || p.peekToken == token.ONE_OR_MORE) {
-			// an entry is never a lower bound. The operator starts the next entry
-			return exp, nil
+		if p.peekToken == token.ZERO_OR_MORE || p.peekToken == token.ONE_OR_MORE {
+			if _, ok := exp.(*ast.IntegerLiteral); !ok {
+				// not a lower bound. The operator starts the next entry
+				return exp, nil
+			}
 		}
 		ledFn := p.leds[p.peekToken]
 		if ledFn == nil {
-- 
2.43.0


From c3086d6410f576f2f8b94bf884bf74f559d71233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 42/63] fix: declaring extended names takes time quadratic in
 their number

---
 parser/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b041384..38c5bc4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -72,6 +72,9 @@ type Parser struct {
 	// hold tasks to be run after the completed ast build.
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
+
+	// declare the names that are extended by /= and //=. Run ahead of the tasks
+	extensions []func()
 }
 
 // Parses the current file and build the AST from the top. Returns an instance reference of ast.CDDL.
@@ -99,6 +102,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		})
 	}
 
+	for _, declare := range p.extensions {
+		declare()
+	}
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
@@ -171,10 +178,9 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		}
 		// extending a name also declares it, if nothing else does. Declare before any of the
 		// references, which may come earlier in the source, is checked
-		p.tasks = append([]taskFn{func() errors.Diagnostic {
+		p.extensions = append(p.extensions, func() {
 			_ = p.environment.Add(rule.Name.Name, entry)
-			return nil
-		}}, p.tasks...)
+		})
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From 24d5360691428170a3417829310a9df0c616be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 43/63] fix: deeply nested sources exhaust the stack

---
 parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 38c5bc4..fbd90c1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -15,6 +15,9 @@ import (
 	env "github.com/HannesKimara/cddlc/environment"
 )
 
+// maxDepth limits the nesting of entries, so that a source can not exhaust the stack
+const maxDepth = 100000
+
 type taskFn func() errors.Diagnostic
 
 type nudParseFn func() (ast.Node, errors.Diagnostic)
@@ -73,6 +76,9 @@ type Parser struct {
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
 
+	// nesting depth of the current entry
+	depth int
+
 	// declare the names that are extended by /= and //=. Run ahead of the tasks
 	extensions []func()
 }
@@ -198,6 +204,12 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, p.error("exceeded the maximum nesting depth", p.pos, p.pos)
+	}
+
 	var exp ast.Node
 	if p.currToken == token.COMMENT { // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
 		_, _ = p.parseComment()
-- 
2.43.0


From 7ac3867c5a677d4eafd8fed7f5e6aee23fc1116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 44/63] fix: a field named valid collides with the generated
 method

---
 transforms/codegen/golang/gen_grouped.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 9dee7b6..123abe5 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -10,6 +10,9 @@ import (
 	"github.com/HannesKimara/cddlc/ast"
 )
 
+// validMethod is the name of the method that evaluates the constraints of a type
+const validMethod = "Valid"
+
 func (g *Generator) Visit(node ast.Node) *Generator {
 	switch val := node.(type) {
 	case *ast.Rule:
@@ -96,7 +99,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 				},
 			}},
 		},
-		Name: gast.NewIdent("Valid"),
+		Name: gast.NewIdent(validMethod),
 		Type: &gast.FuncType{
 			Results: &gast.FieldList{
 				List: []*gast.Field{{
@@ -207,6 +210,9 @@ func (g *Generator) transpileArray(arr *ast.Array) (*structure, error) {
 
 func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
 	ident := g.transpileIdentifier(entry.Name)
+	if ident.Name == validMethod { // a type can not have a field and a method of the same name
+		ident.Name += "_"
+	}
 	stct, err := g.transpileNode(entry.Value)
 
 	if err != nil {
-- 
2.43.0


From 92a0ad5d8eb9df7df81ec4301b102e0fddf2ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 45/63] fix: rendering a list of diagnostics takes time
 quadratic in their number

---
 parser/diagnostic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/diagnostic.go b/parser/diagnostic.go
index 2676301..01903fc 100644
--- a/parser/diagnostic.go
+++ b/parser/diagnostic.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/errors"
 	"github.com/HannesKimara/cddlc/token"
@@ -62,12 +63,13 @@ type ErrorList []errors.Diagnostic
 
 // String returns the concatenated individual errors.
 func (er ErrorList) String() string {
-	out := ""
+	var out strings.Builder
 	for _, err := range er {
-		out += err.Error() + "\n"
+		out.WriteString(err.Error())
+		out.WriteByte('\n')
 	}
 
-	return out
+	return out.String()
 }
 
 func (er ErrorList) Error() string {
-- 
2.43.0


From 9d000a28e19fa3444c32420d8bfd84c9aed05bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 46/63] fix: a type keyword after the any type # is taken as a
 tag number

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fbd90c1..89a3c3e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -457,15 +457,16 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 	}
 
-	switch p.peekToken {
-	case token.INT: // tag like #6
+	switch {
+	case !p.peekToken.IsLiteral(p.peekLiteral): // any value, whatever follows
+	case p.peekToken == token.INT: // tag like #6
 		p.next()
 		major, err := strconv.ParseUint(p.currliteral, 0, 64)
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
 		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
-	case token.FLOAT:
+	case p.peekToken == token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
 		if err != nil {
-- 
2.43.0


From e7ca3c9669362f284200f50337417e7178d7a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 47/63] fix: an integer value before an occurrence without a
 comma is taken as its lower bound

---
 parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 89a3c3e..3e8399d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -385,12 +385,15 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	// the value ends at a group choice, the comma that terminates the entry is still part of it
-	val, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
+	// the value ends at a group choice or an occurrence, the comma that terminates the entry is still part of it
+	val, err := p.parseEntry(token.ZERO_OR_MORE.Precedence())
 	if err != nil {
 		return val, err
 	}
 	rule.Value = val
+	if p.currToken != token.COMMA && p.peekToken == token.COMMA {
+		p.next()
+	}
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-- 
2.43.0


From 59cc896b67f3a8af13cf4bb35e593a1b7f70bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 48/63] fix: a JSON configuration followed by other content is
 accepted

---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 556ab94..754730c 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -104,7 +105,13 @@ func LoadConfig(path string) (*Config, error) {
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-		err = json.NewDecoder(fh).Decode(config)
+		dec := json.NewDecoder(fh)
+		err = dec.Decode(config)
+		if err == nil {
+			if _, end := dec.Token(); end != io.EOF {
+				err = errors.New("unexpected content after the configuration in " + base)
+			}
+		}
 	case cDDLC_YAML:
 		err = yaml.NewDecoder(fh).Decode(config)
 	default:
-- 
2.43.0


From 821e688ae320e468fabc1f44da3d1bfe8e6b11e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 49/63] fix: a null build or plugin in a configuration crashes
 its users

---
 config/config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/config/config.go b/config/config.go
index 754730c..254e253 100644
--- a/config/config.go
+++ b/config/config.go
@@ -122,5 +122,16 @@ func LoadConfig(path string) (*Config, error) {
 		return nil, err
 	}
 
+	for _, build := range config.Builds {
+		if build == nil {
+			return nil, errors.New("empty build in config file " + base)
+		}
+	}
+	for _, plugin := range config.Plugins {
+		if plugin == nil {
+			return nil, errors.New("empty plugin in config file " + base)
+		}
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 935542a2b757f9aaaa952a85727402523fc08b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 50/63] fix: a long line ends the repl

---
 cmd/cddlc/commands/repl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/repl.go b/cmd/cddlc/commands/repl.go
index e8e4644..3bc77c2 100644
--- a/cmd/cddlc/commands/repl.go
+++ b/cmd/cddlc/commands/repl.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -21,6 +22,7 @@ const PROMPT string = ">>>"
 
 func Repl(cCtx *cli.Context) error {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt) // a line of any length
 	parseVerbose := false
 
 	fmt.Println("Welcome to the cddlc quick repl.")
-- 
2.43.0


From 29dce5d48cbbe700ff9c6da92f4a6c2a4bbde19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 51/63] fix: every case conversion is rejected as unknown

---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..104ae11 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -37,7 +37,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 }
 
 func init() {
-	converters := make(map[string]stringConverter)
+	converters = make(map[string]stringConverter)
 
 	converters["camelcase"] = strcase.ToCamel
 	converters["snakecase"] = strcase.ToSnake
-- 
2.43.0


From c48b99808b8ea47a8a1b81c851342ee6c24adcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 52/63] fix: a YAML configuration followed by another document
 is accepted

Only the first document was read, whatever came behind it was ignored even
if it is not YAML at all.
---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 254e253..f1a6c74 100644
--- a/config/config.go
+++ b/config/config.go
@@ -113,7 +113,14 @@ func LoadConfig(path string) (*Config, error) {
 			}
 		}
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(fh).Decode(config)
+		dec := yaml.NewDecoder(fh)
+		err = dec.Decode(config)
+		if err == nil {
+			var rest interface{}
+			if end := dec.Decode(&rest); end != io.EOF {
+				err = errors.New("unexpected content after the configuration in " + base)
+			}
+		}
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
-- 
2.43.0


From 9e516060f308aece02d9b1546e0271aaa6e85c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 53/63] fix: init leaves an incomplete configuration behind
 when writing fails

The next init refused to run because of it and generate could not load it.
---
 cmd/cddlc/commands/init.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 71c96b8..c089ae9 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -3,7 +3,6 @@ package commands
 import (
 	"encoding/json"
 	"errors"
-	"io"
 	"os"
 	"path/filepath"
 
@@ -13,7 +12,7 @@ import (
 
 const configFile string = "cddlc.json"
 
-func getFileHandle(name string) (io.Writer, error) {
+func getFileHandle(name string) (*os.File, error) {
 	root, err := os.Getwd()
 	if err != nil {
 		return nil, err
@@ -41,8 +40,13 @@ func InitCmd(cCtx *cli.Context) error {
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "	")
 
-	if err := enc.Encode(conf); err != nil {
-		return err
+	err = enc.Encode(conf)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		// do not leave an incomplete configuration behind
+		os.Remove(f.Name())
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 5ee7ae182054844229474445861e7f2461af0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 54/63] fix: messages contain memory addresses

The message about range bounds of different types and the one about an
unsupported group entry printed nodes with their pointers, so the same
source never gave the same message twice.
---
 parser/parser.go                         | 2 +-
 transforms/codegen/golang/gen_grouped.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3e8399d..d8808e1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -889,7 +889,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 			valRight := p.environment.Get(val.Name)
 			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
 				return p.error(
-					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
+					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %T and %T", b.Token, left.Name, val.Name, valLeft, valRight),
 					left.Pos, val.Pos)
 			}
 		case *ast.IntegerLiteral:
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 123abe5..e67bc88 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -166,7 +166,7 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 				Type: g.transpileNMOccurence(val),
 			}
 		default:
-			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
+			panic(fmt.Sprintf("What was that? %T at %s", val, val.Start()))
 		}
 
 		fl.List = append(fl.List, field)
-- 
2.43.0


From 69c1e9a33344c44f795f4972bb31bccd0ff33da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 55/63] fix: allow comments before the pattern of .regexp like
 before every other operand

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d8808e1..63880bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -614,8 +614,11 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 		Base:  base,
 	}
+	for p.peekToken == token.COMMENT {
+		p.next()
+	}
 	if p.peekToken != token.TEXT_LITERAL && p.peekToken != token.IDENT {
-		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
+		return r, p.errorTokenExpected(r.Pos, token.TEXT_LITERAL)
 	}
 	p.next()
 	regex, err := p.parseEntry(r.Token.Precedence())
-- 
2.43.0


From 571a0aabde8bebc18407f20c806a191328c47ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 56/63] fix: bytes takes .size like bstr, which it is another
 name of

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 63880bd..1a5fd98 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -583,7 +583,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 
 	switch val := left.(type) {
-	case *ast.BstrType, *ast.UintType, *ast.TstrType:
+	case *ast.BstrType, *ast.BytesType, *ast.UintType, *ast.TstrType:
 		sop.Type = val
 	default:
 		err := p.errorUnsupportedTypes(sop.Pos, p.currliteral, token.TSTR, token.BSTR, token.UINT)
-- 
2.43.0


From aa1a5a922e0a62527235800635d1fcab5a2aa4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 57/63] fix: do not report an undeclared socket or plug as a
 bound of a range

---
 parser/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1a5fd98..bfd16a0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -864,6 +864,12 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 	return occ, nil
 }
 
+// isOpenSocket tells whether a name is a socket or plug without declaration. It need not have one, hence
+// nothing is known about its type.
+func (p *Parser) isOpenSocket(ident *ast.Identifier) bool {
+	return (ident.IsSocket() || ident.IsPlug()) && !p.environment.Exists(ident.Name)
+}
+
 func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagnostic) {
 	b := &ast.Range{
 		Pos:   p.pos,
@@ -890,6 +896,9 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 		switch val := to.(type) {
 		case *ast.Identifier:
 			valRight := p.environment.Get(val.Name)
+			if p.isOpenSocket(left) || p.isOpenSocket(val) {
+				return nil
+			}
 			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
 				return p.error(
 					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %T and %T", b.Token, left.Name, val.Name, valLeft, valRight),
@@ -935,6 +944,9 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			if p.isOpenSocket(right) {
+				return nil
+			}
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
@@ -982,6 +994,9 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			if p.isOpenSocket(right) {
+				return nil
+			}
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
-- 
2.43.0


From 9fdf1d06f0c779628ab68b5ab4bddebefe1d3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 58/63] fix: show all digits of a float literal

---
 ast/astutils/print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/astutils/print.go b/ast/astutils/print.go
index a0d2856..a9af5f8 100644
--- a/ast/astutils/print.go
+++ b/ast/astutils/print.go
@@ -2,6 +2,7 @@ package astutils
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
@@ -58,7 +59,11 @@ func (p *printer) formatIntegerLiteral(il *ast.IntegerLiteral) string {
 }
 
 func (p *printer) formatFloatLiteral(fl *ast.FloatLiteral) string {
-	return fmt.Sprintf("FloatLiteral ( Literal: '%f' ) %s", fl.Literal, p.formatPosition(fl.Start()))
+	lit := strconv.FormatFloat(fl.Literal, 'f', -1, 64) // all digits, %f has six
+	if !strings.Contains(lit, ".") {
+		lit += ".0"
+	}
+	return fmt.Sprintf("FloatLiteral ( Literal: '%s' ) %s", lit, p.formatPosition(fl.Start()))
 }
 
 func (p *printer) formatIntType(it *ast.IntegerType) string {
-- 
2.43.0


From d0168c0060948dd99454d4b86776de5d12c6f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 59/63] fix: report an output of lex, parse and doctor that can
 not be written

---
 cmd/cddlc/commands.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index ec2dc4e..655586e 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -49,7 +49,9 @@ func LexerCmd(cCtx *cli.Context) error {
 	illegals := 0
 	for {
 		tok, pos, lit := lex.Scan()
-		fmt.Printf("%s: %s -> %s\n", pos, tok, lit)
+		if _, err := fmt.Printf("%s: %s -> %s\n", pos, tok, lit); err != nil {
+			return err
+		}
 		if tok == token.EOF {
 			break
 		}
@@ -91,8 +93,8 @@ func ParseCmd(cCtx *cli.Context) error {
 		fmt.Printf("%+v", ast)
 		return err
 	}
-	fmt.Println(string(b))
-	return nil
+	_, err = fmt.Println(string(b))
+	return err
 }
 
 func DoctorCmd(cCtx *cli.Context) error {
@@ -102,9 +104,8 @@ func DoctorCmd(cCtx *cli.Context) error {
 	arch := runtime.GOARCH
 
 	out += fmt.Sprintf("\nVersion\t\t: %s\nCommit\t\t: %s\nBuild Date\t: %s\nRuntime\t\t: %s\nArch\t\t: %s\n", version, commit, date, rt, arch)
-	fmt.Println(out)
-
-	return nil
+	_, err := fmt.Println(out)
+	return err
 }
 
 func errorStringer(src []byte, errs parser.ErrorList) []string {
-- 
2.43.0


From e9c1f187275a093b693a21a8a389a2050e484ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 60/63] fix: a name without an assignment operator takes the
 next rule with it

---
 parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bfd16a0..0815c70 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -153,7 +153,14 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	}
 
 	rule.Name = &ast.Identifier{Pos: p.pos, Name: p.currliteral}
-	p.next()
+
+	switch p.peekToken {
+	case token.ASSIGN, token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN:
+		p.next()
+	default:
+		// leave the token alone, it may be the name of the next rule
+		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
+	}
 
 	var entry ast.Node
 
@@ -187,8 +194,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		p.extensions = append(p.extensions, func() {
 			_ = p.environment.Add(rule.Name.Name, entry)
 		})
-	default:
-		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
 	rule.Value = entry
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
-- 
2.43.0


From ad326bc6b5e648d905555d4b2e9fac93374ed1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 61/63] fix: a name does not end in a period or dash

---
 lexer/lexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4e5e72f..ec62c90 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -248,7 +248,12 @@ func (l *Lexer) scanIdentifier() string {
 		l.next()
 	}
 
-	return string(l.src[offsetPre:l.offset])
+	// periods and dashes join the parts of an identifier, they do not end it. As in `min.. 10`
+	lit := strings.TrimRight(string(l.src[offsetPre:l.offset]), "-.")
+	l.rdOffset = offsetPre + len(lit)
+	l.next()
+
+	return lit
 }
 
 func (l *Lexer) scanControlOp() string {
-- 
2.43.0


From 73804207633fd182166b6f151cfa13e2e2e531f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:05 +0000
Subject: [PATCH 62/63] fix: code with repeated names or with values for types
 is generated without an error

---
 transforms/codegen/golang/gen.go | 53 +++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 220d343..c9ab9c9 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -9,6 +9,7 @@ import (
 	"go/format"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 )
 
@@ -88,7 +89,11 @@ func (g *Generator) String(output io.Writer) (err error) {
 		return err
 	}
 	// the printer prints any tree, even those that are not go
-	if _, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.AllErrors); err != nil {
+	file, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.AllErrors|parser.DeclarationErrors)
+	if err == nil {
+		err = checkTypes(file)
+	}
+	if err != nil {
 		return fmt.Errorf("generated code is not valid: %w", err)
 	}
 
@@ -96,6 +101,52 @@ func (g *Generator) String(output io.Writer) (err error) {
 	return err
 }
 
+// checkTypes reports names of values, i.e. rules that are a literal, that are used as types and types
+// that are embedded more than once
+func checkTypes(file *gast.File) (err error) {
+	check := func(expr gast.Expr) {
+		ident, ok := expr.(*gast.Ident)
+		if !ok {
+			return
+		}
+		isType := true
+		if ident.Obj != nil {
+			isType = ident.Obj.Kind == gast.Typ
+		} else if obj := types.Universe.Lookup(ident.Name); obj != nil {
+			_, isType = obj.(*types.TypeName)
+		}
+		if !isType {
+			err = fmt.Errorf("%s is a value and not a type", ident.Name)
+		}
+	}
+	gast.Inspect(file, func(node gast.Node) bool {
+		switch val := node.(type) {
+		case *gast.TypeSpec:
+			check(val.Type)
+		case *gast.Field:
+			check(val.Type)
+		case *gast.ArrayType:
+			check(val.Elt)
+		case *gast.StructType:
+			names := map[string]bool{}
+			for _, field := range val.Fields.List {
+				idents := field.Names
+				if ident, ok := field.Type.(*gast.Ident); ok && len(idents) == 0 {
+					idents = []*gast.Ident{ident}
+				}
+				for _, ident := range idents {
+					if names[ident.Name] && ident.Name != "_" {
+						err = fmt.Errorf("%s is more than one field of a struct", ident.Name)
+					}
+					names[ident.Name] = true
+				}
+			}
+		}
+		return true
+	})
+	return err
+}
+
 // Package returns the name of the generated golang package
 func (g *Generator) Package() string {
 	return g.pkg
-- 
2.43.0


From 891223627c05d5aeeb655e06d000d69a7a89c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:48 +0000
Subject: [PATCH 63/63] fix: arguments that are not valid UTF-8 make the
 generated code invalid

---
 cmd/cddlc/commands/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index c9a05da..15d7b26 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -159,6 +159,8 @@ func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
 
 func addBuildHeader(f io.Writer) error {
 	command := filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ")
+	// text that Go source cannot hold
+	command = strings.ReplaceAll(strings.ToValidUTF8(command, "\ufffd"), "\ufeff", "")
 	command = strings.ReplaceAll(command, "*/", "* /") // must not end the comment
 	header := "/*\n  File generated using `" + command + "`. DO NOT EDIT\n*/\n\n"
 
-- 
2.43.0

