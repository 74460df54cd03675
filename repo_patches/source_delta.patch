From 970cb2c1f4f4e0992980441f1fb2eb4ed29d5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 01/46] fix: scan on demand so that no lexer goroutine outlives
 a failed parse

The lexer goroutine blocked forever on its token channel whenever the parser
stopped early (any syntax or read error), and a truncated dispatch macro made
it close the channel without an EOF token, giving an error without a position.
---
 parse/lex.go | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..817478d 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -126,20 +126,19 @@ type lexer struct {
 	pos     *Pos // the current position in the input
 	start   *Pos // the start position of the token being scanned
 	lastPos *Pos // the position before the most recent next() call
-	tokens  chan token
-	val     []rune // the literal contents of the token
+	state   stateFn // the next state; nil once the input is exhausted
+	tokens  []token // scanned tokens that have not been consumed yet
+	val     []rune  // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
-	l := &lexer{
-		name:   name,
-		input:  input,
-		pos:    &Pos{Name: name, Line: 1, Col: 1},
-		start:  &Pos{Name: name, Line: 1, Col: 1},
-		tokens: make(chan token),
+	return &lexer{
+		name:  name,
+		input: input,
+		pos:   &Pos{Name: name, Line: 1, Col: 1},
+		start: &Pos{Name: name, Line: 1, Col: 1},
+		state: lexOuter,
 	}
-	go l.run()
-	return l
 }
 
 type inputReadErr struct {
@@ -211,7 +210,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.tokens = append(l.tokens, token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,20 +220,30 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.tokens = append(l.tokens, token{typ, l.start, val})
 }
 
+// nextToken scans as much of the input as it takes to produce a token.
+// After the end of the input it keeps returning EOF tokens.
 func (l *lexer) nextToken() token {
-	return <-l.tokens
+	for len(l.tokens) == 0 {
+		if l.state == nil {
+			return token{tokEOF, l.start, ""}
+		}
+		l.step()
+	}
+	tok := l.tokens[0]
+	l.tokens = l.tokens[1:]
+	return tok
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
+	l.tokens = append(l.tokens, token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)})
 	return nil
 }
 
@@ -246,20 +255,18 @@ func (l *lexer) eof() stateFn {
 // stateFn represents a single state in the scanner.
 type stateFn func(*lexer) stateFn
 
-func (l *lexer) run() {
+// step runs the current state and moves on to the next.
+func (l *lexer) step() {
 	defer func() {
 		if e := recover(); e != nil {
 			if e2, ok := e.(inputReadErr); ok {
-				l.scanError(e2.err)
+				l.state = l.scanError(e2.err)
 				return
 			}
 			panic(e)
 		}
 	}()
-
-	for state := lexOuter; state != nil; state = state(l) {
-	}
-	close(l.tokens)
+	l.state = l.state(l)
 }
 
 func lexOuter(l *lexer) stateFn {
-- 
2.43.0


From ba6d529b55e922657fa60a583914f77ba727ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 02/46] fix: read a whole form after ^, #_ and #=

A line break or comment after one of these prefixes was taken for its form:
the printer then panicked on the line break, and a comment swallowed the code
that followed it.
---
 parse/parse.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..b427bc8 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -431,30 +431,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From e990e8c5406e04500da323afb86c187b02eab9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 03/46] fix: keep comments between a reader prefix and its form

They were dropped by the parser and so lost by the formatter.
---
 format/format.go | 36 ++++++++++++++++++++----------------
 parse/node.go    | 40 ++++++++++++++++++++++++----------------
 parse/parse.go   | 33 +++++++++++++++++++++++----------
 3 files changed, 67 insertions(+), 42 deletions(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..e2abd40 100644
--- a/format/format.go
+++ b/format/format.go
@@ -117,8 +117,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.CommentNode:
 		return w + p.writeString(node.Text)
 	case *parse.DerefNode:
-		w += p.writeByte('@')
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("@", node.Comments, node.Node, w)
 	case *parse.FnLiteralNode:
 		w += p.writeString("#(")
 		w = p.printSequence(node.Nodes, w, p.chooseIndent(node.Nodes))
@@ -132,11 +131,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w = p.printSequence(node.Nodes, w, indentBindings)
 		return w + p.writeString(")")
 	case *parse.ReaderDiscardNode:
-		w += p.writeString("#_")
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("#_", node.Comments, node.Node, w)
 	case *parse.ReaderEvalNode:
-		w += p.writeString("#=")
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("#=", node.Comments, node.Node, w)
 	case *parse.KeywordNode:
 		return w + p.writeString(node.Val)
 	case *parse.ListNode:
@@ -163,8 +160,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w = p.printSequence(node.Nodes, w, indentBindings)
 		return w + p.writeString("}")
 	case *parse.MetadataNode:
-		w += p.writeByte('^')
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("^", node.Comments, node.Node, w)
 	case *parse.NewlineNode:
 		panic("should not happen")
 	case *parse.NilNode:
@@ -172,8 +168,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.NumberNode:
 		return w + p.writeString(node.Val)
 	case *parse.QuoteNode:
-		w += p.writeByte('\'')
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("'", node.Comments, node.Node, w)
 	case *parse.RegexNode:
 		return w + p.writeString(`#"`+node.Val+`"`)
 	case *parse.SetNode:
@@ -190,16 +185,13 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.SymbolNode:
 		return w + p.writeString(node.Val)
 	case *parse.SyntaxQuoteNode:
-		w += p.writeByte('`')
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("`", node.Comments, node.Node, w)
 	case *parse.TagNode:
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
-		w += p.writeByte('~')
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("~", node.Comments, node.Node, w)
 	case *parse.UnquoteSpliceNode:
-		w += p.writeString("~@")
-		return p.printNode(node.Node, w)
+		return p.printPrefixed("~@", node.Comments, node.Node, w)
 	case *parse.VarQuoteNode:
 		return w + p.writeString("#'"+node.Val)
 	case *parse.VectorNode:
@@ -218,6 +210,18 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	return 0
 }
 
+// printPrefixed prints a reader prefix and the node it applies to, with any
+// comments in between on lines of their own.
+func (p *Printer) printPrefixed(prefix string, comments []*parse.CommentNode, node parse.Node, w int) int {
+	w += p.writeString(prefix)
+	for _, c := range comments {
+		p.writeString(c.Text)
+		p.writeByte('\n')
+		p.writeString(strings.Repeat(string(p.IndentChar), w))
+	}
+	return p.printNode(node, w)
+}
+
 // TODO: Create a simple rules interface or something to easily specify the
 // special rules below.
 
diff --git a/parse/node.go b/parse/node.go
index 6fc7c34..5ffa32c 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -59,8 +59,9 @@ func (n *CommentNode) SetChildren([]Node) { panic("SetChildren called on Comment
 
 type DerefNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *DerefNode) String() string   { return "deref" }
@@ -140,8 +141,9 @@ func (n *MapNode) SetChildren(nodes []Node) {
 
 type MetadataNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *MetadataNode) String() string   { return "metadata" }
@@ -205,8 +207,9 @@ func (n *SymbolNode) SetChildren([]Node) { panic("SetChildren called on SymbolNo
 
 type QuoteNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *QuoteNode) String() string   { return "quote" }
@@ -236,8 +239,9 @@ func (n *StringNode) SetChildren([]Node) { panic("SetChildren called on StringNo
 
 type SyntaxQuoteNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *SyntaxQuoteNode) String() string   { return "syntax quote" }
@@ -255,8 +259,9 @@ func (n *SyntaxQuoteNode) SetChildren(nodes []Node) {
 
 type UnquoteNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *UnquoteNode) String() string   { return "unquote" }
@@ -274,8 +279,9 @@ func (n *UnquoteNode) SetChildren(nodes []Node) {
 
 type UnquoteSpliceNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *UnquoteSpliceNode) String() string   { return "unquote splice" }
@@ -381,8 +387,9 @@ func (n *ReaderCondSpliceNode) SetChildren(nodes []Node) {
 
 type ReaderDiscardNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *ReaderDiscardNode) String() string   { return "discard" }
@@ -400,8 +407,9 @@ func (n *ReaderDiscardNode) SetChildren(nodes []Node) {
 
 type ReaderEvalNode struct {
 	*Pos
-	parent Node
-	Node   Node
+	parent   Node
+	Node     Node
+	Comments []*CommentNode // any comments between the prefix and Node
 }
 
 func (n *ReaderEvalNode) String() string   { return "eval" }
diff --git a/parse/parse.go b/parse/parse.go
index b427bc8..438a8e3 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -165,7 +165,8 @@ func (t *Tree) parseNext() Node {
 		case tokComment:
 			return &CommentNode{Pos: tok.pos, Text: tok.val}
 		case tokAtSign:
-			return &DerefNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+			node, comments := t.parseNextSemantic()
+			return &DerefNode{Pos: tok.pos, Node: node, Comments: comments}
 		case tokKeyword:
 			return &KeywordNode{Pos: tok.pos, Val: tok.val}
 		case tokLeftParen:
@@ -180,21 +181,25 @@ func (t *Tree) parseNext() Node {
 			// TODO: need to parse the number here; a number token may not be valid.
 			return &NumberNode{Pos: tok.pos, Val: tok.val}
 		case tokApostrophe:
-			return &QuoteNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+			node, comments := t.parseNextSemantic()
+			return &QuoteNode{Pos: tok.pos, Node: node, Comments: comments}
 		case tokString:
 			return &StringNode{Pos: tok.pos, Val: tok.val[1 : len(tok.val)-1]}
 		case tokBacktick:
-			return &SyntaxQuoteNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+			node, comments := t.parseNextSemantic()
+			return &SyntaxQuoteNode{Pos: tok.pos, Node: node, Comments: comments}
 		case tokTilde:
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
-				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				node, comments := t.parseNextSemantic()
+				return &UnquoteSpliceNode{Pos: tok.pos, Node: node, Comments: comments}
 			case tokEOF:
 				t.unexpectedEOF(next)
 			}
 			t.backup()
-			return &UnquoteNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+			node, comments := t.parseNextSemantic()
+			return &UnquoteNode{Pos: tok.pos, Node: node, Comments: comments}
 		case tokLeftBracket:
 			return t.parseVector(tok)
 		case tokDispatch:
@@ -213,7 +218,9 @@ func (t *Tree) parseNext() Node {
 // parseNextSemantic parses the next top-level semantically meaningful item from
 // the token stream. It expects that such an item exists; if it reaches EOF
 // before such an item is found, it gives an unexpected EOF error.
-func (t *Tree) parseNextSemantic() Node {
+// It also returns the comments before the item if the tree includes comments.
+func (t *Tree) parseNextSemantic() (Node, []*CommentNode) {
+	var comments []*CommentNode
 	for {
 		if next := t.next(); next.typ == tokEOF {
 			t.unexpectedEOF(next)
@@ -221,7 +228,10 @@ func (t *Tree) parseNextSemantic() Node {
 		t.backup()
 		n := t.parseNext()
 		if isSemantic(n) {
-			return n
+			return n, comments
+		}
+		if c, ok := n.(*CommentNode); ok && t.includeNonSemantic {
+			comments = append(comments, c)
 		}
 	}
 }
@@ -431,15 +441,18 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
+	node, comments := t.parseNextSemantic()
+	return &MetadataNode{Pos: start.pos, Node: node, Comments: comments}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
+	node, comments := t.parseNextSemantic()
+	return &ReaderDiscardNode{Pos: start.pos, Node: node, Comments: comments}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
+	node, comments := t.parseNextSemantic()
+	return &ReaderEvalNode{Pos: start.pos, Node: node, Comments: comments}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From eb1dae36ada506bdf610e4fdde7eb7a8fc626bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 04/46] fix: do not turn the unquote of a deref into an
 unquote-splice

"~ @x" was read as "~@x", and an unquoted deref printed as one.
---
 format/format.go | 6 +++++-
 parse/parse.go   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index e2abd40..8075203 100644
--- a/format/format.go
+++ b/format/format.go
@@ -189,7 +189,11 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.TagNode:
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
-		return p.printPrefixed("~", node.Comments, node.Node, w)
+		prefix := "~"
+		if _, ok := node.Node.(*parse.DerefNode); ok && len(node.Comments) == 0 {
+			prefix = "~ " // "~@" would be an unquote-splice
+		}
+		return p.printPrefixed(prefix, node.Comments, node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		return p.printPrefixed("~@", node.Comments, node.Node, w)
 	case *parse.VarQuoteNode:
diff --git a/parse/parse.go b/parse/parse.go
index 438a8e3..ab65c6a 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -192,6 +192,9 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
+				if next.pos.Offset != tok.pos.Offset+1 {
+					break // "~ @x" is the unquote of a deref
+				}
 				node, comments := t.parseNextSemantic()
 				return &UnquoteSpliceNode{Pos: tok.pos, Node: node, Comments: comments}
 			case tokEOF:
-- 
2.43.0


From d57443fb6aa42538dcb55537c843d720eb106562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 05/46] fix: keep the space in tags that would otherwise read
 as dispatch macros

"# _foo x" is x tagged _foo, but it was printed as the discard "#_foo x".
---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 8075203..b792981 100644
--- a/format/format.go
+++ b/format/format.go
@@ -187,7 +187,11 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.SyntaxQuoteNode:
 		return p.printPrefixed("`", node.Comments, node.Node, w)
 	case *parse.TagNode:
-		return w + p.writeString("#"+node.Val)
+		prefix := "#"
+		if strings.IndexByte("_=?!<", node.Val[0]) >= 0 {
+			prefix = "# " // otherwise it would be a dispatch macro
+		}
+		return w + p.writeString(prefix+node.Val)
 	case *parse.UnquoteNode:
 		prefix := "~"
 		if _, ok := node.Node.(*parse.DerefNode); ok && len(node.Comments) == 0 {
-- 
2.43.0


From 4d47388cfb07f2a1a2d10def9fe426f020b5c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 06/46] fix: report the start of tags and reader conditionals
 as their position

It was the position after the # or #?.
---
 parse/lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 817478d..ee8a5c6 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -446,8 +446,8 @@ func lexDispatch(l *lexer) stateFn {
 			l.back()
 		}
 		val = string(l.val)
-		l.skip()
 		l.synth(tokDispatch, val)
+		l.skip()
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -467,7 +467,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
-- 
2.43.0


From 89093b80121c55d92c89c4ac96a6753944651d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 07/46] fix: read octal and unicode character literals as
 Clojure does

Octal literals have one to three digits and stop at \o377, a sign is no digit
(\u+123 was accepted), and \backspace is U+0008.
---
 parse/parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index ab65c6a..868822c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -259,20 +259,20 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 8)
+				if len(val) > 4 || err != nil {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 16)
+				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From 5da77d5bdbe14ef5ed83ba2a9381175e2f254870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 08/46] fix: reject invalid UTF-8 instead of replacing it

The formatter silently rewrote every invalid byte, in strings and comments as
well, to U+FFFD.
---
 parse/lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/lex.go b/parse/lex.go
index ee8a5c6..582d665 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -2,6 +2,7 @@ package parse
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 	"unicode"
@@ -153,6 +154,9 @@ func (l *lexer) next() (r rune, eof bool) {
 		}
 		panic(inputReadErr{err})
 	}
+	if r == unicode.ReplacementChar && w == 1 {
+		panic(inputReadErr{errors.New("invalid UTF-8")})
+	}
 	l.lastPos = l.pos.Copy()
 	l.pos.Offset += w
 	l.pos.Col += w
-- 
2.43.0


From e04ac4d7725bd50c9d4f57d4a2e92bdf230cb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 09/46] fix: recognise comment forms whose head is on a line of
 its own

With IncludeNonSemantic, IgnoreCommentForm kept a comment form that has a line
break or comment before its head.
---
 parse/parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 868822c..9d0e90b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -501,13 +501,16 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 
 func (t *Tree) includeNode(node Node) bool {
 	if list, ok := node.(*ListNode); ok {
-		children := list.Children()
-		if len(children) > 0 {
-			if sym, ok := children[0].(*SymbolNode); ok {
+		for _, child := range list.Children() {
+			if !isSemantic(child) {
+				continue
+			}
+			if sym, ok := child.(*SymbolNode); ok {
 				if sym.Val == "comment" && t.ignoreCommentForm {
 					return false
 				}
 			}
+			break
 		}
 	}
 	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
-- 
2.43.0


From d09576d4a4672a7c8627cf16a8dd84df5e81a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 10/46] fix: report the start of namespaced maps as their
 position

It was the position of the opening brace.
---
 parse/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/parse.go b/parse/parse.go
index 9d0e90b..f64038c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -439,6 +439,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From 9be1b199da3f13052583376f392be856f6c9c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 11/46] fix: end comments that a lone carriage return ended in
 the source

The parser ends a comment at a carriage return, as Clojure does, but the
printer wrote whatever followed on the same line, into the comment.
---
 format/transform.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..ead8ca6 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -125,6 +125,7 @@ var DefaultTransforms = map[Transform]bool{
 }
 
 func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
+	t.Roots = endComments(t.Roots, false)
 	var syms *symbolCache
 	if transforms[TransformRemoveUnusedRequires] {
 		syms = findSymbols(t.Roots)
@@ -167,6 +168,28 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	}
 }
 
+// endComments ensures that comments are followed by a newline even if they
+// ended with a lone carriage return in the source.
+// closed indicates that nodes are followed by a closing delimiter.
+func endComments(nodes []parse.Node, closed bool) []parse.Node {
+	ended := make([]parse.Node, 0, len(nodes))
+	for i, n := range nodes {
+		if children := n.Children(); len(children) > 0 {
+			if c := endComments(children, true); len(c) > len(children) {
+				n.SetChildren(c)
+			}
+		}
+		ended = append(ended, n)
+		if !goclj.Comment(n) {
+			continue
+		}
+		if i < len(nodes)-1 && !goclj.Newline(nodes[i+1]) || i == len(nodes)-1 && closed {
+			ended = append(ended, &parse.NewlineNode{})
+		}
+	}
+	return ended
+}
+
 func useToRequire(ns parse.Node) {
 	rl := newRequireList()
 	insertIndex := -1
-- 
2.43.0


From 9df90d14d94790c3afaebaeabb9ccb0b5462754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 12/46] fix: do not take a string for a docstring because a
 comment follows it

---
 format/docstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..d047a2a 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -20,7 +20,7 @@ func (p *Printer) markDocstrings(n parse.Node) {
 	}
 	var docstring *parse.StringNode
 	for _, node := range nodes[2:] {
-		if goclj.Newline(node) {
+		if goclj.Newline(node) || goclj.Comment(node) {
 			continue
 		}
 		// Once we've found what looks like a docstring, we need to keep
-- 
2.43.0


From fe342492cb20eb73da0578172120e46ec3a93165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 13/46] fix: do not move an arglist or dispatch value into a
 comment

---
 format/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index ead8ca6..42326ac 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -463,7 +463,7 @@ func fixDefnArglist(defn parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
+	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
 	if !goclj.Vector(nodes[3]) {
@@ -479,7 +479,7 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
-	if !goclj.Newline(nodes[2]) {
+	if goclj.Comment(nodes[1]) || !goclj.Newline(nodes[2]) {
 		return
 	}
 	if !goclj.Keyword(nodes[3]) {
-- 
2.43.0


From 6467db93f7447c767eda4e57c1137ce23b05ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 14/46] fix: do not split an import at a leading or trailing
 dot

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 42326ac..46d3b1d 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -358,7 +358,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
+			if j <= 0 || j == len(n.Val)-1 {
 				break
 			}
 			nodes[i] = &parse.ListNode{
-- 
2.43.0


From fd68fdb3ab4870377e5367d51c67dc555f80d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 15/46] fix: keep metadata and tags with their entry when
 sorting imports and requires

---
 format/transform.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 46d3b1d..bb936d6 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -384,10 +384,21 @@ func sortImportRequire(n *parse.ListNode) {
 		nodes             = n.Children()
 		sorted            = make(importRequireList, 0, len(nodes)/2)
 		lineComments      []*parse.CommentNode
+		prefix            []parse.Node // metadata and tags of the next entry
 		initialNewline    = false
 		afterSemanticNode = false
 	)
 	for i, node := range nodes[1:] {
+		switch node.(type) {
+		case *parse.MetadataNode, *parse.TagNode:
+			prefix = append(prefix, node)
+			continue
+		case *parse.CommentNode, *parse.NewlineNode:
+			if len(prefix) > 0 {
+				prefix = append(prefix, node)
+				continue
+			}
+		}
 		switch node := node.(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
@@ -403,13 +414,24 @@ func sortImportRequire(n *parse.ListNode) {
 		default:
 			ir := &importRequire{
 				commentsAbove: lineComments,
+				prefix:        prefix,
 				node:          node,
 			}
 			sorted = append(sorted, ir)
 			lineComments = nil
+			prefix = nil
 			afterSemanticNode = true
 		}
 	}
+	if len(prefix) > 0 {
+		// There is nothing for these to apply to; keep them last.
+		sorted = append(sorted, &importRequire{
+			commentsAbove: lineComments,
+			prefix:        prefix[:len(prefix)-1],
+			node:          prefix[len(prefix)-1],
+		})
+		lineComments = nil
+	}
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
@@ -419,6 +441,7 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline)
 		}
+		newNodes = append(newNodes, ir.prefix...)
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
@@ -592,6 +615,7 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
 	commentBeside *parse.CommentNode
+	prefix        []parse.Node
 	node          parse.Node
 }
 
-- 
2.43.0


From e5e60033a5ed589facc6fbb943a0a46d993d51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 16/46] fix: put the line break after a clause keyword whatever
 follows it

With metadata, a tag or a comment right after :require the break was left
out, but sorting could put a plain entry there, so that a second run
changed the file again.
---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index bb936d6..201fa7a 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -307,7 +307,7 @@ func enforceNSStyle(ns parse.Node) {
 		if isSym {
 			clauseChildren[0] = &parse.KeywordNode{Val: ":" + clause}
 		}
-		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		if multipleArgs && len(clauseChildren) >= 2 && !goclj.Newline(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline},
 				clauseChildren[1:]...,
-- 
2.43.0


From c36a69240eb57cb0ccfa7b50504eeed1f5b3f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 17/46] fix: write rewritten requires in their original order

They were written in random map order; without sorting, two runs gave
different output.
---
 format/require.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..25e28a0 100644
--- a/format/require.go
+++ b/format/require.go
@@ -176,7 +176,8 @@ type nodeWithComments struct {
 }
 
 type requireList struct {
-	m map[string]*require
+	m     map[string]*require
+	names []string // the keys of m in order of first appearance
 	// macros is true if this represents a :require-macros list.
 	macros bool
 
@@ -195,6 +196,7 @@ func (rl *requireList) merge(r *require) *require {
 	r2, ok := rl.m[r.name]
 	if !ok {
 		rl.m[r.name] = r
+		rl.names = append(rl.names, r.name)
 		return r
 	}
 	if r.as != nil {
@@ -262,7 +264,11 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	for _, name := range rl.names {
+		r, ok := rl.m[name]
+		if !ok {
+			continue // removed as unused
+		}
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-- 
2.43.0


From 9761824d985459d223502988cc7877913e8ea0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 18/46] fix: keep :refer-macros when a namespace is also used
 as a whole

---
 format/require.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/format/require.go b/format/require.go
index 25e28a0..e593ba2 100644
--- a/format/require.go
+++ b/format/require.go
@@ -296,13 +296,11 @@ func (rl *requireList) render() []parse.Node {
 			parts = append(parts,
 				&parse.KeywordNode{Val: ":refer"},
 				&parse.KeywordNode{Val: ":all"})
-		} else {
-			if n := r.refer.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
-			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		} else if n := r.refer.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 4ac94325c6ff11a940f74dff1aa9c4683bbb8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 19/46] fix: keep metadata and tags with their entry when
 rewriting requires

---
 format/require.go   | 28 +++++++++++++++++++++++++++-
 format/transform.go | 10 +++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/format/require.go b/format/require.go
index e593ba2..178eef3 100644
--- a/format/require.go
+++ b/format/require.go
@@ -171,6 +171,7 @@ func (nc *nodeComments) attachCommentBeside(c *parse.CommentNode) {
 }
 
 type nodeWithComments struct {
+	prefix   []parse.Node // metadata and tags
 	n        parse.Node
 	comments nodeComments
 }
@@ -219,6 +220,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		extra             = &rl.extraRequire
 		prevComments      *nodeComments
 		lineComments      []*parse.CommentNode
+		prefix            []parse.Node
 		afterSemanticNode = false
 	)
 	if use {
@@ -229,7 +231,29 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	case ":require-macros", ":use-macros":
 		rl.macros = true
 	}
-	for _, node := range nodes[1:] {
+	for i, node := range nodes[1:] {
+		// An entry with metadata or a tag is not recognized.
+		switch node.(type) {
+		case *parse.MetadataNode, *parse.TagNode:
+			if i < len(nodes)-2 {
+				prefix = append(prefix, node)
+				continue
+			}
+		case *parse.CommentNode, *parse.NewlineNode:
+			if len(prefix) > 0 && i < len(nodes)-2 {
+				prefix = append(prefix, node)
+				continue
+			}
+		}
+		if len(prefix) > 0 {
+			nc := &nodeWithComments{prefix: prefix, n: node}
+			*extra = append(*extra, nc)
+			prevComments = &nc.comments
+			prevComments.attachCommentsAbove(lineComments)
+			afterSemanticNode = true
+			prefix, lineComments = nil, nil
+			continue
+		}
 		switch node := node.(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
@@ -312,6 +336,7 @@ func (rl *requireList) render() []parse.Node {
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
+		nodes = append(nodes, r.prefix...)
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
@@ -334,6 +359,7 @@ func (rl *requireList) render() []parse.Node {
 			for _, c := range n.comments.commentsAbove {
 				extra = append(extra, c, newline)
 			}
+			extra = append(extra, n.prefix...)
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
diff --git a/format/transform.go b/format/transform.go
index 201fa7a..f43db59 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -235,16 +235,24 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		// because they may be needed for their side-effects.
 		var keep []parse.Node
 		var requires []parse.Node
+		prefixed := false
 		for i, child := range n.Children() {
 			if i == 0 {
 				requires = append(requires, child)
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
+			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 && !prefixed {
 				keep = append(keep, child)
 			} else {
 				requires = append(requires, child)
 			}
+			switch child.(type) {
+			case *parse.MetadataNode, *parse.TagNode:
+				prefixed = true
+			case *parse.CommentNode, *parse.NewlineNode:
+			default:
+				prefixed = false
+			}
 		}
 
 		rl := newRequireList()
-- 
2.43.0


From 0adfc0b6f7ba6f9e39ea2e46d8dc9bb24761fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 20/46] fix: do not carry state from one printed tree to the
 next

The aliases of an earlier tree influenced the indentation of a later one,
and the maps given as settings were written to or shared with the package
defaults.
---
 format/format.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/format/format.go b/format/format.go
index b792981..606a301 100644
--- a/format/format.go
+++ b/format/format.go
@@ -71,15 +71,19 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
+	// Forget what was learned about trees printed before.
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	defer func() {
 		if e := recover(); e != nil {
 			switch e := e.(type) {
@@ -92,7 +96,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
-- 
2.43.0


From 2c3dcf47d9cecd4f58ff644a22661ad30a2e26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 21/46] fix: report a failure to write to standard output

---
 cljfmt/cljfmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..f5948b0 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -224,7 +224,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From d22eb0e4f1ee244adacfcba170d76fbd85da91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 22/46] fix: ignore discarded forms in the configuration file

---
 cljfmt/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..cbe7bb5 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -20,7 +20,7 @@ func (e unexpectedNodeError) Error() string {
 func (c *config) parseDotConfig(r io.Reader, name string) error {
 	// We don't ask the parser for non-semantic nodes, so we don't need to
 	// prune out comments.
-	tree, err := parse.Reader(r, name, 0)
+	tree, err := parse.Reader(r, name, parse.IgnoreReaderDiscard)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cb4a32e67e9ca7147246a3498726fbfeabff4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 23/46] fix: do not share one newline node between all trees

Formatting two trees concurrently wrote to its parent link without
synchronization.
---
 format/require.go   | 24 ++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 178eef3..795a38b 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,7 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+func newNewline() *parse.NewlineNode { return &parse.NewlineNode{} }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -287,14 +287,14 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newNewline())
 	for _, name := range rl.names {
 		r, ok := rl.m[name]
 		if !ok {
 			continue // removed as unused
 		}
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newNewline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -308,7 +308,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newNewline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -330,26 +330,26 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newNewline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newNewline())
 		}
 		nodes = append(nodes, r.prefix...)
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newNewline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newNewline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newNewline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -357,18 +357,18 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newNewline())
 			}
 			extra = append(extra, n.prefix...)
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newNewline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newNewline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index f43db59..3825db8 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -317,7 +317,7 @@ func enforceNSStyle(ns parse.Node) {
 		}
 		if multipleArgs && len(clauseChildren) >= 2 && !goclj.Newline(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newNewline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -443,22 +443,22 @@ func sortImportRequire(n *parse.ListNode) {
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newNewline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newNewline())
 		}
 		newNodes = append(newNodes, ir.prefix...)
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newNewline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newNewline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 3aa515749aea87cc01b8ff26dbc05053334dc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 24/46] fix: align after non-ASCII text by characters, not
 bytes

---
 format/format.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 606a301..bbba2a8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -745,12 +746,12 @@ type bufWriter struct {
 
 type bufErr struct{ error }
 
+// writeString returns the number of characters (not bytes) in s.
 func (bw *bufWriter) writeString(s string) int {
-	n, err := bw.bw.WriteString(s)
-	if err != nil {
+	if _, err := bw.bw.WriteString(s); err != nil {
 		panic(bufErr{err})
 	}
-	return n
+	return utf8.RuneCountInString(s)
 }
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
-- 
2.43.0


From e37cf7102d2918c2e2fca55b0da2b17dd18137a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 25/46] fix: track the column after multi-line strings

---
 format/format.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index bbba2a8..d0c14f1 100644
--- a/format/format.go
+++ b/format/format.go
@@ -175,7 +175,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.QuoteNode:
 		return p.printPrefixed("'", node.Comments, node.Node, w)
 	case *parse.RegexNode:
-		return w + p.writeString(`#"`+node.Val+`"`)
+		return p.writeLines(`#"`+node.Val+`"`, w)
 	case *parse.SetNode:
 		w += p.writeString("#{")
 		w = p.printSequence(node.Nodes, w, IndentNormal)
@@ -186,7 +186,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
 		}
-		return w + p.writeString(`"`+val+`"`)
+		return p.writeLines(`"`+val+`"`, w)
 	case *parse.SymbolNode:
 		return w + p.writeString(node.Val)
 	case *parse.SyntaxQuoteNode:
@@ -223,6 +223,16 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	return 0
 }
 
+// writeLines prints s, which may span several lines, and returns the column
+// after it.
+func (p *Printer) writeLines(s string, w int) int {
+	n := p.writeString(s)
+	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
+		return utf8.RuneCountInString(s[i+1:])
+	}
+	return w + n
+}
+
 // printPrefixed prints a reader prefix and the node it applies to, with any
 // comments in between on lines of their own.
 func (p *Printer) printPrefixed(prefix string, comments []*parse.CommentNode, node parse.Node, w int) int {
-- 
2.43.0


From fa89cd9570d66cf35bb5428467d0025b71fb0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 26/46] fix: do not indent twice for a blank line inside a pair

---
 format/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index d0c14f1..395b245 100644
--- a/format/format.go
+++ b/format/format.go
@@ -673,7 +673,9 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
+					if !extraIndent {
+						w += 2
+					}
 					extraIndent = true
 				} else if i == 1 && semanticIdx == 1 {
 					w++
-- 
2.43.0


From adb91b0222f4c620044392bcd57f5cf81f2d6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 27/46] fix: indent bindings in function literals that consist
 of one binding form

---
 format/format.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/format/format.go b/format/format.go
index 395b245..85db567 100644
--- a/format/format.go
+++ b/format/format.go
@@ -124,6 +124,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.DerefNode:
 		return p.printPrefixed("@", node.Comments, node.Node, w)
 	case *parse.FnLiteralNode:
+		p.applySpecialIndentRules(node.Nodes)
 		w += p.writeString("#(")
 		w = p.printSequence(node.Nodes, w, p.chooseIndent(node.Nodes))
 		return w + p.writeString(")")
@@ -142,7 +143,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 	case *parse.KeywordNode:
 		return w + p.writeString(node.Val)
 	case *parse.ListNode:
-		p.applySpecialIndentRules(node)
+		p.applySpecialIndentRules(node.Nodes)
 		var style IndentStyle
 		var ok bool
 		if style, ok = p.specialIndent[node]; ok {
@@ -248,24 +249,24 @@ func (p *Printer) printPrefixed(prefix string, comments []*parse.CommentNode, no
 // TODO: Create a simple rules interface or something to easily specify the
 // special rules below.
 
-func (p *Printer) applySpecialIndentRules(node *parse.ListNode) {
-	if len(node.Nodes) == 0 {
+func (p *Printer) applySpecialIndentRules(nodes []parse.Node) {
+	if len(nodes) == 0 {
 		return
 	}
-	s, ok := node.Nodes[0].(*parse.SymbolNode)
+	s, ok := nodes[0].(*parse.SymbolNode)
 	if !ok {
 		return
 	}
 	if style, ok := p.indentStyleForSymbol(s.Val); ok {
 		switch style {
 		case IndentLet:
-			p.applySpecialLet(node.Nodes)
+			p.applySpecialLet(nodes)
 		case IndentLetfn:
-			p.applySpecialLetfn(node.Nodes)
+			p.applySpecialLetfn(nodes)
 		case IndentFor:
-			p.applySpecialFor(node.Nodes)
+			p.applySpecialFor(nodes)
 		case IndentDeftype:
-			p.applySpecialDeftype(node.Nodes)
+			p.applySpecialDeftype(nodes)
 		}
 	}
 }
-- 
2.43.0


From cc6568a2f8783ec50e7559c3b12b00398939a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 28/46] fix: do not count metadata and tags as arguments of
 thread-first forms

---
 format/threadfirst.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/threadfirst.go b/format/threadfirst.go
index 88b1884..718503c 100644
--- a/format/threadfirst.go
+++ b/format/threadfirst.go
@@ -1,6 +1,9 @@
 package format
 
-import "github.com/cespare/goclj/parse"
+import (
+	"github.com/cespare/goclj"
+	"github.com/cespare/goclj/parse"
+)
 
 func (p *Printer) markThreadFirsts(n parse.Node) {
 	var nodes []parse.Node
@@ -29,9 +32,10 @@ func (p *Printer) markThreadFirstStyle(form parse.Node, style ThreadFirstStyle)
 	}
 	idxSemantic := 0
 	for _, node := range form.Children() {
-		switch n := node.(type) {
-		case *parse.CommentNode, *parse.NewlineNode:
+		if !goclj.Semantic(node) {
 			continue
+		}
+		switch n := node.(type) {
 		case *parse.ListNode:
 			if idxSemantic >= begin {
 				switch style {
-- 
2.43.0


From f8adfde32dd297fc2cf43e4086ddfe6d3924a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 29/46] fix: shift the pairs of cond4 style forms that are
 threaded first

---
 format/format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 85db567..613c993 100644
--- a/format/format.go
+++ b/format/format.go
@@ -509,6 +509,8 @@ const (
 	// IndentCond4 is like IndentCond0 except that it ignores 4 body
 	// parameters.
 	IndentCond4
+	// indentCond3 is IndentCond4 for a list that is threaded first.
+	indentCond3
 )
 
 var defaultIndents = map[string]IndentStyle{
@@ -584,6 +586,7 @@ var indentExtraOffsets = [...]int{
 	IndentCond1:    2,
 	IndentCond2:    3,
 	IndentCond4:    5,
+	indentCond3:    4,
 }
 
 func (style IndentStyle) threadFirstTransform() IndentStyle {
@@ -592,6 +595,8 @@ func (style IndentStyle) threadFirstTransform() IndentStyle {
 		return IndentCond0
 	case IndentCond2:
 		return IndentCond1
+	case IndentCond4:
+		return indentCond3
 	}
 	return style
 }
@@ -672,7 +677,8 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond0,
 				IndentCond1,
 				IndentCond2,
-				IndentCond4:
+				IndentCond4,
+				indentCond3:
 				if pairIdx > 0 {
 					if !extraIndent {
 						w += 2
-- 
2.43.0


From 9a00cd72afffb1191b1a0b547e9cbcedca0dc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 30/46] fix: keep the extra indentation of docstring lines when
 indenting with tabs

---
 format/docstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index d047a2a..66ba470 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -50,7 +50,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	)
 	for _, line := range lines[1:] {
 		prefix := indent
-		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' })
+		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' && r != p.IndentChar })
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-- 
2.43.0


From 244740aec17a8a31c54221b308e92bf0c724fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 31/46] fix: keep an escaped blank at the end of a docstring
 line

---
 format/docstring.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 66ba470..22fbe6c 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -2,6 +2,8 @@ package format
 
 import (
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -54,7 +56,13 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-		line = strings.TrimSpace(line)
+		trimmed := strings.TrimRightFunc(line, unicode.IsSpace)
+		if s := strings.TrimRight(trimmed, `\`); (len(trimmed)-len(s))%2 == 1 && len(trimmed) < len(line) {
+			// Keep the blank that is escaped by the last backslash.
+			_, n := utf8.DecodeRuneInString(line[len(trimmed):])
+			trimmed = line[:len(trimmed)+n]
+		}
+		line = strings.TrimLeftFunc(trimmed, unicode.IsSpace)
 		if line != "" {
 			line = prefix + line
 		}
-- 
2.43.0


From 14cbbc5d15b5958457e2151b893caa0298a9e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 32/46] fix: track the column of the first element when a body
 list begins with a line break

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 613c993..9a7fffd 100644
--- a/format/format.go
+++ b/format/format.go
@@ -714,6 +714,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		}
 		if needIndent {
 			p.writeString(strings.Repeat(string(p.IndentChar), w))
+			w2 = w
 		}
 		if needSpace {
 			w2 += p.writeByte(' ')
-- 
2.43.0


From a1886eef6b5812d9c55894eec5e75b64ce67f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 33/46] fix: ignore line breaks before the test when deciding
 where the arms of an if go

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 3825db8..a347a4b 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -573,7 +573,7 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 	for ; i < len(nodes); i++ {
 		n := nodes[i]
 		if !goclj.Semantic(n) {
-			if goclj.Newline(n) {
+			if foundTest && goclj.Newline(n) {
 				newlineBeforeArm0 = true
 			}
 			continue
-- 
2.43.0


From b5d6e86ae2f1088b8ffcc86ab2d14f0c5045f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 34/46] fix: prefer the indent override for a qualified name
 over one for the bare name

---
 format/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/format.go b/format/format.go
index 9a7fffd..f52fba9 100644
--- a/format/format.go
+++ b/format/format.go
@@ -377,6 +377,9 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 				return style, true
 			}
 		}
+		if style, ok := p.indentStyles[name]; ok {
+			return style, true
+		}
 		if style, ok := p.indentStyles[unqualified]; ok {
 			return style, true
 		}
-- 
2.43.0


From 2df2ad4a5db70b7bc29f97a68694e4733f6a0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 35/46] fix: apply indent overrides through requires that have
 further options

---
 format/require.go | 52 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/format/require.go b/format/require.go
index 795a38b..3e72921 100644
--- a/format/require.go
+++ b/format/require.go
@@ -16,22 +16,43 @@ func (p *Printer) markRequires(n parse.Node) {
 			continue
 		}
 		for _, n := range n.Children()[1:] {
-			r := parseRequire(n)
-			if r == nil {
-				continue
+			switch n.(type) {
+			case *parse.ListNode, *parse.VectorNode:
+				p.markRequire(n.Children())
 			}
-			for as := range r.as {
-				p.requires[as] = r.name
+		}
+	}
+}
+
+// markRequire records the aliases and referred names of a single require.
+// In contrast to parseRequire, it skips any options that it doesn't know.
+func (p *Printer) markRequire(nodes []parse.Node) {
+	semNodes := semanticNodes(nodes)
+	if len(semNodes) == 0 {
+		return
+	}
+	name, ok := semNodes[0].(*parse.SymbolNode)
+	if !ok {
+		return
+	}
+	for i := 1; i+1 < len(semNodes); i += 2 {
+		kw, ok := semNodes[i].(*parse.KeywordNode)
+		if !ok {
+			return
+		}
+		switch v := semNodes[i+1]; kw.Val {
+		case ":as":
+			if as, ok := v.(*parse.SymbolNode); ok {
+				p.requires[as.Val] = name.Val
 			}
-			for _, ref := range []*referList{&r.refer, &r.referMacros} {
-				for _, n := range ref.origRefer {
-					if n, ok := n.(*parse.SymbolNode); ok {
-						p.refers[n.Val] = r.name
+		case ":refer", ":refer-macros":
+			switch v.(type) {
+			case *parse.ListNode, *parse.VectorNode:
+				for _, n := range v.Children() {
+					if ref, ok := n.(*parse.SymbolNode); ok {
+						p.refers[ref.Val] = name.Val
 					}
 				}
-				for ref := range ref.refer {
-					p.refers[ref] = r.name
-				}
 			}
 		}
 	}
@@ -394,13 +415,18 @@ func parseRequire(n parse.Node) *require {
 	}
 }
 
-func parseRequireSeq(nodes []parse.Node) *require {
+func semanticNodes(nodes []parse.Node) []parse.Node {
 	semNodes := make([]parse.Node, 0, len(nodes))
 	for _, n := range nodes {
 		if goclj.Semantic(n) {
 			semNodes = append(semNodes, n)
 		}
 	}
+	return semNodes
+}
+
+func parseRequireSeq(nodes []parse.Node) *require {
+	semNodes := semanticNodes(nodes)
 	if len(semNodes) == 0 || !goclj.Symbol(semNodes[0]) {
 		return nil
 	}
-- 
2.43.0


From 13d94af059c6faeb26bbda6fb5b9774757ff2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 36/46] fix: track the column after a character literal that is
 a line break

---
 format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index f52fba9..5e2c649 100644
--- a/format/format.go
+++ b/format/format.go
@@ -118,7 +118,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			return w + p.writeString("false")
 		}
 	case *parse.CharacterNode:
-		return w + p.writeString(node.Text)
+		return p.writeLines(node.Text, w)
 	case *parse.CommentNode:
 		return w + p.writeString(node.Text)
 	case *parse.DerefNode:
-- 
2.43.0


From 4f65df3d8a80d56c7a99a0674f4670b210c3f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 37/46] fix: keep unused requires of the form [foo] that
 contain comments or line breaks

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index a347a4b..1c90cae 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -241,7 +241,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 				requires = append(requires, child)
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 && !prefixed {
+			if vec, ok := child.(*parse.VectorNode); ok && len(semanticNodes(vec.Children())) == 1 && !prefixed {
 				keep = append(keep, child)
 			} else {
 				requires = append(requires, child)
-- 
2.43.0


From c1041b5dc0986aeb36c8181c6853bc46cc71812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 38/46] fix: do not split imports into parts that do not read
 as symbols

---
 format/transform.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 1c90cae..5805845 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -366,7 +366,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j <= 0 || j == len(n.Val)-1 {
+			if j <= 0 || j == len(n.Val)-1 || !startsSymbol(n.Val[j+1:]) {
 				break
 			}
 			nodes[i] = &parse.ListNode{
@@ -379,6 +379,18 @@ func enforceImportStyle(nodes []parse.Node) {
 	}
 }
 
+// startsSymbol reports whether s, the end of a symbol, is still a symbol
+// when it stands by itself.
+func startsSymbol(s string) bool {
+	switch s[0] {
+	case '\'', '`', '#', ':':
+		return false
+	case '+', '-':
+		s = s[1:]
+	}
+	return s == "" || s[0] < '0' || s[0] > '9'
+}
+
 func sortNS(ns parse.Node) {
 	for _, n := range ns.Children()[1:] {
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
-- 
2.43.0


From 7cc2a55d7eed56d69c73a450ccb6fc7b2cb08390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:22 +0000
Subject: [PATCH 39/46] fix: enforce the ns style before the transforms that
 rely on it

---
 format/require.go   |  1 +
 format/transform.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index 3e72921..01c5206 100644
--- a/format/require.go
+++ b/format/require.go
@@ -375,6 +375,7 @@ func (rl *requireList) render() []parse.Node {
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
 			&parse.KeywordNode{Val: ":use"},
+			newNewline(),
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
diff --git a/format/transform.go b/format/transform.go
index 5805845..1e95243 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -126,6 +126,14 @@ var DefaultTransforms = map[Transform]bool{
 
 func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 	t.Roots = endComments(t.Roots, false)
+	// The other transforms of ns forms only recognize the enforced style.
+	if transforms[TransformEnforceNSStyle] {
+		for _, root := range t.Roots {
+			if goclj.FnFormSymbol(root, "ns") {
+				enforceNSStyle(root)
+			}
+		}
+	}
 	var syms *symbolCache
 	if transforms[TransformRemoveUnusedRequires] {
 		syms = findSymbols(t.Roots)
@@ -138,9 +146,6 @@ func applyTransforms(t *parse.Tree, transforms map[Transform]bool) {
 			if transforms[TransformRemoveUnusedRequires] {
 				removeUnusedRequires(root, syms)
 			}
-			if transforms[TransformEnforceNSStyle] {
-				enforceNSStyle(root)
-			}
 			if transforms[TransformSortImportRequire] {
 				sortNS(root)
 			}
-- 
2.43.0


From 7ae4c101dd9bb2d751de0fdb023acf1ef75ea64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 40/46] fix: keep comments next to the bare requires they
 belong to

---
 format/require.go   | 11 ++++++++++-
 format/transform.go | 28 +++-------------------------
 2 files changed, 13 insertions(+), 26 deletions(-)

diff --git a/format/require.go b/format/require.go
index 01c5206..25275b2 100644
--- a/format/require.go
+++ b/format/require.go
@@ -202,6 +202,9 @@ type requireList struct {
 	names []string // the keys of m in order of first appearance
 	// macros is true if this represents a :require-macros list.
 	macros bool
+	// keepBare is true if requires of the form [foo] are treated as
+	// unrecognized.
+	keepBare bool
 
 	// unrecognized semantic nodes
 	extraRequire []*nodeWithComments
@@ -285,7 +288,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			if r := parseFn(node); r != nil && !(rl.keepBare && bareRequire(node)) {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
@@ -301,6 +304,12 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
+// bareRequire reports whether n has the form [foo].
+func bareRequire(n parse.Node) bool {
+	_, ok := n.(*parse.VectorNode)
+	return ok && len(semanticNodes(n.Children())) == 1
+}
+
 func (rl *requireList) render() []parse.Node {
 	var nodes []parse.Node
 	if rl.macros {
diff --git a/format/transform.go b/format/transform.go
index 1e95243..c5c3b96 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -236,39 +236,17 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 			nodes = append(nodes, n)
 			continue
 		}
+		rl := newRequireList()
 		// As a special case, never remove requires of the form [foo]
 		// because they may be needed for their side-effects.
-		var keep []parse.Node
-		var requires []parse.Node
-		prefixed := false
-		for i, child := range n.Children() {
-			if i == 0 {
-				requires = append(requires, child)
-				continue
-			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(semanticNodes(vec.Children())) == 1 && !prefixed {
-				keep = append(keep, child)
-			} else {
-				requires = append(requires, child)
-			}
-			switch child.(type) {
-			case *parse.MetadataNode, *parse.TagNode:
-				prefixed = true
-			case *parse.CommentNode, *parse.NewlineNode:
-			default:
-				prefixed = false
-			}
-		}
-
-		rl := newRequireList()
-		rl.parseRequireUse(requires, false)
+		rl.keepBare = true
+		rl.parseRequireUse(n.Children(), false)
 		for name, r := range rl.m {
 			if syms.unused(r) {
 				delete(rl.m, name)
 			}
 		}
 		require := rl.render()[0].(*parse.ListNode)
-		require.Nodes = append(require.Nodes, keep...)
 		if len(require.Nodes) <= 2 {
 			// If all that's left is (:require), drop it.
 			// If there's a newline afterwards, drop that too.
-- 
2.43.0


From e86976b4ead21d6d2e672205f02a7a083ed7647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 41/46] fix: report a failure to print the name of a file

---
 cljfmt/cljfmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index f5948b0..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
-- 
2.43.0


From 8fb3942427901f1896896886ca505b023d5f15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 42/46] fix: walk directories that are given through symbolic
 links

---
 cljfmt/cljfmt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..4d1245a 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -250,7 +250,10 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
-	if err := filepath.Walk(path, walk); err != nil {
+	// Walk does not follow symbolic links, but the root may be one;
+	// the trailing separator makes it name the directory that it refers to.
+	root := path + string(filepath.Separator)
+	if err := filepath.Walk(root, walk); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From d4e64562af13b06927adb98ffc20789319da29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 43/46] fix: do not count comments and line breaks as elements
 of reader conditionals

---
 parse/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 5ffa32c..76ba6df 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -348,7 +348,7 @@ type ReaderCondNode struct {
 }
 
 func (n *ReaderCondNode) String() string {
-	return fmt.Sprintf("reader-cond(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondNode) Parent() Node     { return n.parent }
 func (n *ReaderCondNode) setParent(p Node) { n.parent = p }
@@ -370,7 +370,7 @@ type ReaderCondSpliceNode struct {
 }
 
 func (n *ReaderCondSpliceNode) String() string {
-	return fmt.Sprintf("reader-cond-splice(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond-splice(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondSpliceNode) Parent() Node     { return n.parent }
 func (n *ReaderCondSpliceNode) setParent(p Node) { n.parent = p }
-- 
2.43.0


From a65e12d801f098ad2c79a0496ede80ee9d910280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 44/46] fix: keep a referred symbol named / that is used

---
 format/unused.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 7e0512d..c546616 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,8 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			// The symbol / has no namespace.
+			if i := strings.IndexRune(name, '/'); i <= 0 {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From 97ea74046d55c0b3caa8b9eff9f65087a40def92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 45/46] fix: resolve indentation overrides for symbols named /

---
 format/format.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index 5e2c649..e9d5fdb 100644
--- a/format/format.go
+++ b/format/format.go
@@ -369,7 +369,7 @@ func (p *Printer) chooseListIndent(name string) IndentStyle {
 }
 
 func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
-	if i := strings.LastIndex(name, "/"); i >= 0 {
+	if i := lastSlash(name); i >= 0 {
 		ns := name[:i]
 		unqualified := name[i+1:]
 		if req, ok := p.requires[ns]; ok {
@@ -396,12 +396,24 @@ func (p *Printer) indentStyleForSymbol(name string) (IndentStyle, bool) {
 }
 
 func symbolName(sym string) string {
-	if i := strings.LastIndex(sym, "/"); i >= 0 {
+	if i := lastSlash(sym); i >= 0 {
 		return sym[i+1:]
 	}
 	return sym
 }
 
+// lastSlash returns the index of the slash that ends the namespace of sym,
+// or -1 if there is none. The name after it may be a slash itself.
+func lastSlash(sym string) int {
+	if sym == "/" {
+		return -1
+	}
+	if strings.HasSuffix(sym, "//") {
+		return len(sym) - 2
+	}
+	return strings.LastIndex(sym, "/")
+}
+
 // A ThreadFirst style represents a variety of thread-first macro.
 type ThreadFirstStyle int
 
-- 
2.43.0


From 8699084ac4a013ae11241f21027d740c24195b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 46/46] fix: the value :>> of a map or binding does not shift
 the pairs after it

---
 format/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/format.go b/format/format.go
index e9d5fdb..e72ddc2 100644
--- a/format/format.go
+++ b/format/format.go
@@ -754,6 +754,9 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 			pairIdx++
 		}
 
+		if style == indentBindings && pairIdx == 2 {
+			pairIdx = 0 // only the clauses of condp-like forms are triples
+		}
 		if semanticIdx == pairStartIdx ||
 			(pairIdx == 2 && !isKeywordNode(n, ":>>")) || pairIdx > 2 {
 			pairIdx = 0
-- 
2.43.0

