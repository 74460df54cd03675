package main

import (
	"unicode"
	"unicode/utf8"
)

// The reference reader. It is written from the lexical rules of Clojure as goclj documents them and
// shares no code with package parse. It keeps comments and line breaks as nodes of their own.

// Kinds of reference nodes.
const (
	kSym     = 'S'
	kKey     = 'K'
	kNum     = 'N'
	kStr     = 'T'
	kRegex   = 'R'
	kChar    = 'C'
	kList    = '('
	kVec     = '['
	kMap     = '{'
	kSet     = 'h'
	kFn      = 'f'
	kQuote   = '\''
	kSyntax  = '`'
	kUnquote = '~'
	kSplice  = 'u'
	kDeref   = '@'
	kMeta    = '^'
	kDiscard = '_'
	kEval    = '='
	kVar     = 'v'
	kTag     = 't'
	kCond    = '?'
	kCondSpl = 'p'
	kComment = ';'
	kNL      = 'n'
)

type rnode struct {
	kind     byte
	text     string // literal text of atoms, comments; namespace of maps
	kids     []*rnode
	off, end int // byte offsets of the node's text
	line     int
	col      int
	open     int // offset after the opening delimiter or prefix
	close    int // offset of the closing delimiter of collections
	parent   *rnode
}

type refReader struct {
	s    string
	i    int
	line int
	bol  int // offset of the beginning of the current line
	fn   bool
	bad  bool
	why  string
}

func isBlank(r rune) bool { return r == ',' || unicode.IsSpace(r) }

func isTerm(r rune) bool {
	switch r {
	case '"', ';', '@', '^', '~', '(', ')', '[', ']', '{', '}', '\\':
		return true
	}
	return isBlank(r)
}

func (p *refReader) fail(why string) *rnode {
	if !p.bad {
		p.why = why
	}
	p.bad = true
	return nil
}

// peek decodes the character at the current offset; n is 0 at the end.
func (p *refReader) peek() (r rune, n int) {
	if p.i >= len(p.s) {
		return 0, 0
	}
	c := p.s[p.i]
	if c < utf8.RuneSelf {
		return rune(c), 1
	}
	r, n = utf8.DecodeRuneInString(p.s[p.i:])
	if r == utf8.RuneError && n == 1 {
		p.fail("invalid UTF-8")
		return 0, 0
	}
	return r, n
}

func (p *refReader) adv(r rune, n int) {
	p.i += n
	if r == '\n' {
		p.line++
		p.bol = p.i
	}
}

// token skips to the end of a run of symbol characters.
func (p *refReader) token() {
	for {
		r, n := p.peek()
		if n == 0 || isTerm(r) {
			return
		}
		p.i += n
	}
}

func (p *refReader) lineEnd() {
	for {
		r, n := p.peek()
		if n == 0 || r == '\n' || r == '\r' {
			return
		}
		p.i += n
	}
}

// str skips the rest of a string whose opening quote has been read.
func (p *refReader) str() bool {
	for {
		r, n := p.peek()
		if n == 0 {
			p.fail("unterminated string")
			return false
		}
		p.adv(r, n)
		if r == '"' {
			return true
		}
		if r == '\\' {
			r, n = p.peek()
			if n == 0 {
				p.fail("unterminated string")
				return false
			}
			p.adv(r, n)
		}
	}
}

func (p *refReader) blanks() {
	for {
		r, n := p.peek()
		if n == 0 || r == '\n' || !isBlank(r) {
			return
		}
		p.i += n
	}
}

// read reads the next node; closer is set instead when a closing delimiter follows.
func (p *refReader) read() (nd *rnode, closer byte) {
	p.blanks()
	r, n := p.peek()
	if n == 0 {
		return nil, 0
	}
	nd = &rnode{off: p.i, line: p.line, col: p.i - p.bol + 1}
	start := p.i
	p.adv(r, n)
	atom := func(kind byte) {
		nd.kind, nd.text, nd.end = kind, p.s[start:p.i], p.i
	}
	switch r {
	case '\n':
		atom(kNL)
	case ';':
		p.lineEnd()
		atom(kComment)
	case '"':
		if !p.str() {
			return nil, 0
		}
		nd.kind, nd.text, nd.end = kStr, p.s[start+1:p.i-1], p.i
	case '\\':
		r, n := p.peek()
		if n == 0 {
			return p.fail("character"), 0
		}
		p.adv(r, n)
		one := p.i
		p.token()
		if p.i != one && !charName(p.s[start+1:p.i]) {
			return p.fail("character"), 0
		}
		atom(kChar)
	case ':':
		p.token()
		atom(kKey)
	case '(':
		p.seq(nd, kList, ')')
	case '[':
		p.seq(nd, kVec, ']')
	case '{':
		p.seq(nd, kMap, '}')
	case ')', ']', '}':
		return nil, byte(r)
	case '\'':
		p.prefix(nd, kQuote)
	case '`':
		p.prefix(nd, kSyntax)
	case '@':
		p.prefix(nd, kDeref)
	case '^':
		p.prefix(nd, kMeta)
	case '~':
		if r, _ := p.peek(); r == '@' {
			p.i++
			p.prefix(nd, kSplice)
		} else {
			p.prefix(nd, kUnquote)
		}
	case '#':
		p.dispatch(nd, start)
	case '+', '-':
		d, _ := p.peek()
		p.token()
		if d >= '0' && d <= '9' {
			atom(kNum)
		} else {
			atom(kSym)
		}
	default:
		p.token()
		if r >= '0' && r <= '9' {
			atom(kNum)
		} else {
			atom(kSym)
		}
	}
	if p.bad {
		return nil, 0
	}
	return nd, 0
}

func charName(s string) bool {
	switch s {
	case "newline", "space", "tab", "formfeed", "backspace", "return":
		return true
	}
	switch s[0] {
	case 'o':
		if len(s) < 2 || len(s) > 4 {
			return false
		}
		for i := 1; i < len(s); i++ {
			if s[i] < '0' || s[i] > '7' {
				return false
			}
		}
		return len(s) < 4 || s[1] <= '3'
	case 'u':
		if len(s) != 5 {
			return false
		}
		for i := 1; i < 5; i++ {
			c := s[i]
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
				return false
			}
		}
		return true
	}
	return false
}

func (p *refReader) seq(nd *rnode, kind byte, closer byte) {
	nd.kind = kind
	nd.open = p.i
	for !p.bad {
		k, c := p.read()
		if k != nil {
			k.parent = nd
			nd.kids = append(nd.kids, k)
			continue
		}
		if c == closer {
			nd.end = p.i
			nd.close = p.i - 1
			return
		}
		p.fail("unbalanced delimiter")
	}
}

// prefix reads the form of a prefix. Comments and line breaks in between are kept as children before it.
func (p *refReader) prefix(nd *rnode, kind byte) {
	nd.kind = kind
	nd.open = p.i
	for !p.bad {
		k, _ := p.read()
		if k == nil {
			p.fail("prefix without a form")
			return
		}
		k.parent = nd
		nd.kids = append(nd.kids, k)
		if k.kind != kComment && k.kind != kNL {
			nd.end = p.i
			return
		}
	}
}

func (p *refReader) dispatch(nd *rnode, start int) {
	r, n := p.peek()
	if n == 0 {
		p.fail("dispatch")
		return
	}
	switch r {
	case '(':
		if p.fn {
			p.fail("nested function literal")
			return
		}
		p.fn = true
		p.i++
		p.seq(nd, kFn, ')')
		p.fn = false
	case '{':
		p.i++
		p.seq(nd, kSet, '}')
	case '"':
		p.i++
		if p.str() {
			nd.kind, nd.text, nd.end = kRegex, p.s[start+2:p.i-1], p.i
		}
	case '?':
		p.i++
		kind := byte(kCond)
		if r, _ := p.peek(); r == '@' {
			p.i++
			kind = kCondSpl
		}
		p.blanks()
		if r, _ := p.peek(); r != '(' {
			p.fail("reader conditional")
			return
		}
		p.i++
		p.seq(nd, kind, ')')
	case ':':
		p.i++
		at := p.i - 1
		p.token()
		ns := p.s[at:p.i]
		p.blanks()
		if r, _ := p.peek(); r != '{' {
			p.fail("namespaced map")
			return
		}
		p.i++
		p.seq(nd, kMap, '}')
		nd.text = ns
	case '\'':
		p.i++
		p.symbolAfter(nd, kVar)
	case '_':
		p.i++
		p.prefix(nd, kDiscard)
	case '=':
		p.i++
		p.prefix(nd, kEval)
	case '^':
		p.i++
		p.prefix(nd, kMeta)
	case '!':
		p.lineEnd()
		nd.kind, nd.text, nd.end = kComment, p.s[start:p.i], p.i
	case '<':
		p.fail("unreadable")
	default:
		p.symbolAfter(nd, kTag)
	}
}

// symbolAfter reads the symbol of a tag or var quote, which blanks may precede.
func (p *refReader) symbolAfter(nd *rnode, kind byte) {
	p.blanks()
	r, n := p.peek()
	if n == 0 || isTerm(r) || r == '\'' || r == '`' || r == ':' || r == '#' || r >= '0' && r <= '9' {
		p.fail("symbol expected")
		return
	}
	at := p.i
	p.i += n
	if r == '+' || r == '-' {
		if d, _ := p.peek(); d >= '0' && d <= '9' {
			p.fail("symbol expected")
			return
		}
	}
	p.token()
	nd.kind, nd.text, nd.end = kind, p.s[at:p.i], p.i
}

// refRead reads a whole text; ok is false when it is not a sequence of complete forms.
func refRead(s string) (roots []*rnode, ok bool) {
	p := &refReader{s: s, line: 1}
	for {
		nd, c := p.read()
		if c != 0 {
			p.fail("unbalanced delimiter")
		}
		if p.bad {
			return nil, false
		}
		if nd == nil {
			return roots, true
		}
		roots = append(roots, nd)
	}
}

func layoutKind(k byte) bool { return k == kComment || k == kNL }

func isPrefixKind(k byte) bool {
	switch k {
	case kQuote, kSyntax, kUnquote, kSplice, kDeref, kMeta, kDiscard, kEval:
		return true
	}
	return false
}

func opener(n *rnode) string {
	switch n.kind {
	case kList:
		return "("
	case kVec:
		return "["
	case kMap:
		if n.text != "" {
			return "#" + n.text + "{"
		}
		return "{"
	case kSet:
		return "#{"
	case kFn:
		return "#("
	case kCond:
		return "#?("
	case kCondSpl:
		return "#?@("
	case kQuote:
		return "'"
	case kSyntax:
		return "`"
	case kUnquote:
		return "~"
	case kSplice:
		return "~@"
	case kDeref:
		return "@"
	case kMeta:
		return "^"
	case kDiscard:
		return "#_"
	case kEval:
		return "#="
	}
	return ""
}

func closer(n *rnode) string {
	switch n.kind {
	case kList, kFn, kCond, kCondSpl:
		return ")"
	case kVec:
		return "]"
	case kMap, kSet:
		return "}"
	}
	return ""
}

func isColl(n *rnode) bool { return closer(n) != "" }

// An rtok is one element of the flattened tree.
type rtok struct {
	kind byte // node kind of atoms and comments; 'o' opener or prefix, 'c' closer, 'x' namespace clause, 0 end of text
	text string
	n    *rnode
	off  int
	end  int
	pre  bool // begins an element between a reader prefix and the end of its form
	gap  int  // line breaks before it
}

// flatten lists the tokens of a text in source order. Namespace clauses are single tokens if clauses is set.
func flatten(s string, roots []*rnode, clauses bool) []rtok {
	f := &flattener{s: s}
	for _, n := range roots {
		if clauses && isNS(n) {
			f.add(rtok{kind: 'o', text: "(", n: n, off: n.off, end: n.open})
			for i, k := range n.kids {
				if i > 0 && rewrittenClause(k) {
					f.add(rtok{kind: 'x', n: k, off: k.off, end: k.end})
				} else {
					f.node(k, false)
				}
			}
			f.add(rtok{kind: 'c', text: ")", n: n, off: n.close, end: n.end})
			continue
		}
		f.node(n, false)
	}
	f.add(rtok{off: len(s), end: len(s)})
	return f.out
}

type flattener struct {
	s   string
	out []rtok
	end int
}

func (f *flattener) add(t rtok) {
	for i := f.end; i < t.off; i++ {
		if f.s[i] == '\n' {
			t.gap++
		}
	}
	if t.gap == 0 && t.kind != 0 && len(f.out) > 0 && f.out[len(f.out)-1].kind == kComment {
		t.gap = 1 // the comment ended with a carriage return
	}
	f.end = t.end
	f.out = append(f.out, t)
}

func (f *flattener) node(n *rnode, pre bool) {
	switch {
	case n.kind == kNL:
	case isPrefixKind(n.kind):
		f.add(rtok{kind: 'o', text: opener(n), n: n, off: n.off, end: n.open, pre: pre})
		for _, k := range n.kids {
			f.node(k, true)
		}
	case isColl(n):
		f.add(rtok{kind: 'o', text: opener(n), n: n, off: n.off, end: n.open, pre: pre})
		for _, k := range n.kids {
			f.node(k, false)
		}
		f.add(rtok{kind: 'c', text: closer(n), n: n, off: n.close, end: n.end})
	default:
		f.add(rtok{kind: n.kind, text: n.text, n: n, off: n.off, end: n.end, pre: pre})
	}
}

func isSymbol(n *rnode) bool {
	return n.kind == kSym && n.text != "nil" && n.text != "true" && n.text != "false"
}

func symNamed(n *rnode, names ...string) bool {
	if !isSymbol(n) {
		return false
	}
	for _, s := range names {
		if n.text == s {
			return true
		}
	}
	return false
}

// isForm reports whether n is a list with one of the given symbols as its first child.
func isForm(n *rnode, heads ...string) bool {
	return n.kind == kList && len(n.kids) > 0 && symNamed(n.kids[0], heads...)
}

func isNS(n *rnode) bool { return isForm(n, "ns") }

// clauseName is the name of a namespace clause, without the colon of a keyword.
func clauseName(n *rnode) string {
	if n.kind != kList && n.kind != kVec || len(n.kids) == 0 {
		return ""
	}
	switch h := n.kids[0]; {
	case h.kind == kKey:
		return h.text[1:]
	case isSymbol(h):
		return h.text
	}
	return ""
}

// rewrittenClause reports whether the default transforms may rewrite a child of an ns form.
func rewrittenClause(n *rnode) bool {
	switch clauseName(n) {
	case "refer-clojure", "require", "require-macros", "use", "import", "load", "gen-class":
		return true
	}
	return false
}

// forms drops comments and line breaks.
func forms(ns []*rnode) []*rnode {
	var out []*rnode
	for _, n := range ns {
		if !layoutKind(n.kind) {
			out = append(out, n)
		}
	}
	return out
}

func atomText(n *rnode) string {
	switch n.kind {
	case kStr:
		return "\"" + n.text + "\""
	case kRegex:
		return "#\"" + n.text + "\""
	case kVar:
		return "#'" + n.text
	case kTag:
		return "#tag " + n.text
	}
	return n.text
}

// canon is a canonical text of the trees without layout.
func canon(ns []*rnode) string {
	s := ""
	for _, n := range ns {
		if layoutKind(n.kind) {
			continue
		}
		s += canon1(n)
	}
	return s
}

func canon1(n *rnode) string {
	if isColl(n) || isPrefixKind(n.kind) {
		return opener(n) + canon(n.kids) + closer(n) + " "
	}
	return atomText(n) + " "
}
