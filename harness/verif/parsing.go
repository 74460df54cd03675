package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/parse"
	vos "github.com/cespare/goclj/zz_os"
	vrt "github.com/cespare/goclj/zz_vrt"
)

func parseOpts(o int) parse.ParseOpts {
	var p parse.ParseOpts
	if o&1 != 0 {
		p |= parse.IncludeNonSemantic
	}
	if o&2 != 0 {
		p |= parse.IgnoreCommentForm
	}
	if o&4 != 0 {
		p |= parse.IgnoreReaderDiscard
	}
	return p
}

func parseText(s string, o parse.ParseOpts) (*parse.Tree, error) {
	return parse.Reader(strings.NewReader(s), srcName, o)
}

// kindOf maps a node to the reference's kind and literal text.
func kindOf(n parse.Node) (kind byte, text string) {
	switch n := n.(type) {
	case *parse.BoolNode:
		if n.Val {
			return kSym, "true"
		}
		return kSym, "false"
	case *parse.NilNode:
		return kSym, "nil"
	case *parse.SymbolNode:
		switch n.Val {
		case "nil", "true", "false":
			return kSym, n.Val + " as a symbol"
		}
		return kSym, n.Val
	case *parse.CharacterNode:
		return kChar, n.Text
	case *parse.CommentNode:
		return kComment, n.Text
	case *parse.NewlineNode:
		return kNL, "\n"
	case *parse.KeywordNode:
		return kKey, n.Val
	case *parse.NumberNode:
		return kNum, n.Val
	case *parse.StringNode:
		return kStr, n.Val
	case *parse.RegexNode:
		return kRegex, n.Val
	case *parse.TagNode:
		return kTag, n.Val
	case *parse.VarQuoteNode:
		return kVar, n.Val
	case *parse.ListNode:
		return kList, ""
	case *parse.VectorNode:
		return kVec, ""
	case *parse.MapNode:
		return kMap, n.Namespace
	case *parse.SetNode:
		return kSet, ""
	case *parse.FnLiteralNode:
		return kFn, ""
	case *parse.ReaderCondNode:
		return kCond, ""
	case *parse.ReaderCondSpliceNode:
		return kCondSpl, ""
	case *parse.QuoteNode:
		return kQuote, ""
	case *parse.SyntaxQuoteNode:
		return kSyntax, ""
	case *parse.UnquoteNode:
		return kUnquote, ""
	case *parse.UnquoteSpliceNode:
		return kSplice, ""
	case *parse.DerefNode:
		return kDeref, ""
	case *parse.MetadataNode:
		return kMeta, ""
	case *parse.ReaderDiscardNode:
		return kDiscard, ""
	case *parse.ReaderEvalNode:
		return kEval, ""
	}
	vrt.Fail("unknown node type")
	return 0, ""
}

// visible drops the layout nodes before the form of a prefix, which the tree has no place for.
func visible(n *rnode) []*rnode {
	if isPrefixKind(n.kind) {
		return n.kids[len(n.kids)-1:]
	}
	return n.kids
}

func sameNodes(ref []*rnode, nodes []parse.Node) {
	vrt.Assert(len(ref) == len(nodes), "number of forms: "+itoa(len(ref))+" in the text, "+itoa(len(nodes))+" in the tree")
	for i, r := range ref {
		k, t := kindOf(nodes[i])
		vrt.Assert(k == r.kind, "kind of form: "+string(rune(r.kind))+" in the text, "+string(rune(k))+" in the tree")
		want := r.text
		if isColl(r) && r.kind != kMap || isPrefixKind(r.kind) {
			want = ""
		}
		vrt.Assert(t == want, "literal text of a form")
		if c, ok := nodes[i].(*parse.CharacterNode); ok {
			vrt.Assert(c.Val == charValue(r.text), "value of a character literal")
		}
		sameNodes(visible(r), nodes[i].Children())
	}
}

// charValue is the character a legal literal stands for.
func charValue(t string) rune {
	rs := []rune(t[1:])
	if len(rs) == 1 {
		return rs[0]
	}
	switch t[1:] {
	case "newline":
		return '\n'
	case "space":
		return ' '
	case "tab":
		return '\t'
	case "formfeed":
		return '\f'
	case "backspace":
		return '\b'
	case "return":
		return '\r'
	}
	v := rune(0)
	base := rune(16)
	if t[1] == 'o' {
		base = 8
	}
	for _, c := range rs[1:] {
		switch {
		case c >= '0' && c <= '9':
			v = v*base + c - '0'
		case c >= 'a' && c <= 'f':
			v = v*base + c - 'a' + 10
		default:
			v = v*base + c - 'A' + 10
		}
	}
	return v
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// ParseTotal is C01.
func ParseTotal() {
	s := text()
	o := vrt.Param("opts", -1)
	if o < 0 {
		o = vrt.Choice(8)
	}
	t, err := parseText(s, parseOpts(o))
	vrt.Assert((t == nil) == (err != nil), "a tree together with an error, or neither")
	if err != nil {
		vrt.Reach("error")
		vrt.Assert(err.Error() != "", "empty error message")
	} else {
		vrt.Reach("tree")
		vrt.Observe("roots", itoa(len(t.Roots)))
	}
}

// ParseMirror is C02.
func ParseMirror() {
	s := text()
	t, err := parseText(s, parse.IncludeNonSemantic)
	ref, ok := refRead(s)
	if err != nil {
		vrt.Reach("error")
		vrt.Assert(!ok, "legal text rejected")
		return
	}
	vrt.Reach("tree")
	vrt.Assert(ok, "illegal text accepted")
	sameNodes(ref, t.Roots)
	vrt.Observe("tree", treeCanon(t.Roots))
}

func treeCanon(ns []parse.Node) string {
	s := ""
	for _, n := range ns {
		k, t := kindOf(n)
		s += string(rune(k)) + t
		if c := n.Children(); len(c) > 0 {
			s += "<" + treeCanon(c) + ">"
		}
		s += " "
	}
	return s
}

// ParsePositions is C03.
func ParsePositions() {
	s := text()
	t, err := parseText(s, parse.IncludeNonSemantic)
	if err != nil {
		vrt.Reach("error")
		errorPosition(s, err.Error())
		return
	}
	vrt.Reach("tree")
	ref, ok := refRead(s)
	if !ok {
		return // C02's business
	}
	samePositions(ref, t.Roots)
}

func samePositions(ref []*rnode, nodes []parse.Node) {
	if len(ref) != len(nodes) {
		return
	}
	for i, r := range ref {
		p := nodes[i].Position()
		vrt.Assert(p != nil, "node without a position")
		k := string(rune(r.kind))
		vrt.Assert(p.Name == srcName, "file name of a node")
		vrt.Assert(p.Offset == r.off, "offset of a node: kind "+k+" at "+itoa(r.off)+", reported "+itoa(p.Offset))
		vrt.Assert(p.Line == r.line, "line of a node: kind "+k+" at "+itoa(r.line)+", reported "+itoa(p.Line))
		vrt.Assert(p.Col == r.col, "column of a node: kind "+k+" at "+itoa(r.col)+", reported "+itoa(p.Col))
		samePositions(visible(r), nodes[i].Children())
	}
}

// errorPosition checks that an error names the file and a place that exists in the text.
func errorPosition(s, msg string) {
	i := strings.Index(msg, " at "+srcName+":")
	vrt.Assert(i >= 0, "error without a position: "+msg)
	j := i + len(" at "+srcName+":")
	line, j, ok := number(msg, j)
	vrt.Assert(ok && j < len(msg) && msg[j] == ':', "error without a line number")
	col, _, ok := number(msg, j+1)
	vrt.Assert(ok, "error without a column")
	// the line and column must lie in the text (one past the end of a line is allowed)
	l, c := 1, 1
	for k := 0; ; k++ {
		if l == line && c == col {
			return
		}
		if k >= len(s) {
			break
		}
		if s[k] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	vrt.Fail("error position outside the text: " + msg)
}

func number(s string, i int) (n, j int, ok bool) {
	for j = i; j < len(s) && s[j] >= '0' && s[j] <= '9'; j++ {
		n = n*10 + int(s[j]-'0')
	}
	return n, j, j > i
}

// ParseOptions is C04.
func ParseOptions() {
	s := text()
	o := vrt.Param("opts", -1)
	if o < 0 {
		o = vrt.Choice(8)
	}
	full, ferr := parseText(s, parse.IncludeNonSemantic)
	t, err := parseText(s, parseOpts(o))
	vrt.Assert((err == nil) == (ferr == nil), "options decide whether a text parses")
	if err != nil {
		vrt.Reach("error")
		return
	}
	vrt.Reach("tree")
	filtered(full.Roots, t.Roots, o, "")
}

// filtered checks that got is the full tree without what the options drop.
func filtered(full, got []parse.Node, o int, under string) {
	var want []parse.Node
	for _, n := range full {
		if under == "" && dropped(n, o) {
			continue
		}
		want = append(want, n)
	}
	vrt.Assert(len(want) == len(got), "number of forms after filtering: "+itoa(len(want))+" expected, "+itoa(len(got))+" found")
	for i, n := range want {
		k, t := kindOf(n)
		k1, t1 := kindOf(got[i])
		vrt.Assert(k == k1 && t == t1, "form changed by options")
		u := ""
		if isPrefixKind(k) {
			u = "prefix"
		}
		filtered(n.Children(), got[i].Children(), o, u)
	}
}

func dropped(n parse.Node, o int) bool {
	switch n := n.(type) {
	case *parse.CommentNode, *parse.NewlineNode:
		return o&1 == 0
	case *parse.ReaderDiscardNode:
		return o&4 != 0
	case *parse.ListNode:
		if o&2 == 0 {
			return false
		}
		for _, c := range n.Nodes {
			switch c := c.(type) {
			case *parse.CommentNode, *parse.NewlineNode:
				continue
			case *parse.ReaderDiscardNode:
				if o&4 != 0 {
					continue
				}
				return false
			case *parse.SymbolNode:
				return c.Val == "comment"
			}
			return false
		}
	}
	return false
}

// ParseLinks is C05.
func ParseLinks() {
	s := text()
	t, err := parseText(s, parseOpts(vrt.Param("opts", 1)))
	if err != nil {
		return
	}
	for _, n := range t.Roots {
		vrt.Assert(n.Parent() == nil, "root with a parent")
		links(n)
	}
	vrt.Reach("linked")
	if vrt.Param("set", 0) == 0 {
		return
	}
	// replace the children of one node of the tree by an arbitrary selection
	var all []parse.Node
	for _, n := range t.Roots {
		all = collect(all, n)
	}
	if len(all) == 0 {
		return
	}
	n := all[vrt.Choice(len(all))]
	k, _ := kindOf(n)
	if !isPrefixKind(k) && !isContainer(k) {
		return
	}
	old := append([]parse.Node(nil), n.Children()...)
	donor, err := parseText("x (y) [z]", 0)
	if err != nil {
		vrt.Fail("donor text does not parse")
	}
	pool := append([]parse.Node(nil), old...)
	pool = append(pool, donor.Roots...)
	m := 1
	if isContainer(k) {
		m = vrt.Choice(3)
	}
	var next []parse.Node
	used := make([]bool, len(pool))
	for i := 0; i < m; i++ {
		c := vrt.Choice(len(pool))
		if used[c] {
			vrt.Stop()
		}
		used[c] = true
		next = append(next, pool[c])
	}
	given := append([]parse.Node(nil), next...)
	n.SetChildren(next)
	vrt.Reach("set")
	now := n.Children()
	vrt.Assert(len(now) == len(given), "children given to SetChildren do not read back")
	for i := range now {
		vrt.Assert(now[i] == given[i], "children given to SetChildren do not read back")
		vrt.Assert(next[i] == given[i], "SetChildren changes the slice it is given")
		vrt.Assert(now[i].Parent() == n, "new child reports another parent")
	}
	for i, c := range pool {
		if !used[i] {
			vrt.Assert(c.Parent() == nil, "removed child still reports a parent")
		}
	}
}

func isContainer(k byte) bool {
	switch k {
	case kList, kVec, kMap, kSet, kFn, kCond, kCondSpl:
		return true
	}
	return false
}

func collect(out []parse.Node, n parse.Node) []parse.Node {
	out = append(out, n)
	for _, c := range n.Children() {
		out = collect(out, c)
	}
	return out
}

func links(n parse.Node) {
	for _, c := range n.Children() {
		vrt.Assert(c.Parent() == n, "child does not report its parent")
		links(c)
	}
}

// chunkReader delivers a text in arbitrary pieces and may fail.
type chunkReader struct {
	s      string
	fail   int // offset at which reading fails, or -1
	err    error
	after  error // what it returned last, to be repeated
	calls  int
	splits int
	once   bool // fail only once and then go on
	stuck  bool // deliver nothing rather than fail
}

func (r *chunkReader) Read(b []byte) (int, error) {
	if r.after != nil {
		return 0, r.after
	}
	r.calls++
	rest := len(r.s)
	if r.fail >= 0 && r.fail < rest {
		rest = r.fail
	}
	n := rest
	if r.splits > 0 && rest > 0 {
		if rest > 50 {
			n = rest - vrt.Choice(8)
		} else {
			n = vrt.Choice(rest + 1)
		}
		if n < rest {
			r.splits--
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.fail >= 0 {
		r.fail -= n
	}
	if n < rest {
		return n, nil
	}
	end := io.EOF
	if r.fail == 0 {
		if r.stuck {
			return n, nil
		}
		end = r.err
		if r.once {
			r.fail = -1
			return n, end
		}
	}
	if n > 0 && vrt.Choice(2) == 0 {
		return n, nil // the end is reported by the next call
	}
	r.after = end
	return n, end
}

var errRead = errors.New("device on fire")

// An early end of the input that is not the end of the text, as io.Reader asks
// for io.EOF itself at the end.
type errCut struct{}

func (errCut) Error() string { return "connection closed" }
func (errCut) Unwrap() error { return io.EOF }

// An error that says of itself that it may go away.
type errLater struct{}

func (errLater) Error() string   { return "not now" }
func (errLater) Timeout() bool   { return true }
func (errLater) Temporary() bool { return true }

// ParseReader is C06.
func ParseReader() {
	s := text()
	want, werr := parseText(s, parse.IncludeNonSemantic)
	fail := -1
	switch vrt.Param("fail", 1) {
	case 1:
		fail = vrt.Choice(len(s)+2) - 1
	case 2: // around the end of a long text
		if k := vrt.Choice(6); k < 5 && len(s) >= k {
			fail = len(s) - k
		}
	}
	r := &chunkReader{s: s, fail: fail, err: errRead, splits: vrt.Param("splits", 1)}
	if fail >= 0 {
		switch vrt.Choice(7) {
		case 1:
			r.err = io.ErrUnexpectedEOF
		case 2:
			r.once = true
		case 3:
			r.err = errCut{}
		case 4: // the library gives up at some point
			r.stuck, r.err = true, io.ErrNoProgress
		case 5:
			r.err = io.ErrClosedPipe
		case 6:
			r.err = errLater{}
		}
	}
	t, err := parse.Reader(r, srcName, parse.IncludeNonSemantic)
	if fail >= 0 {
		vrt.Reach("failure")
		vrt.Assert(err != nil, "read error swallowed")
		vrt.Assert(t == nil, "tree in spite of a read error")
		// a character cut in half may be reported instead
		if werr == nil && (fail == len(s) || s[fail] < 0x80 || s[fail] >= 0xc0) {
			vrt.Assert(strings.Contains(err.Error(), r.err.Error()), "read error not named: "+err.Error())
		}
		return
	}
	vrt.Assert((err == nil) == (werr == nil), "chunking decides whether a text parses")
	if err != nil {
		vrt.Reach("error")
		vrt.Assert(err.Error() == werr.Error(), "chunking changes the error")
		return
	}
	vrt.Reach("tree")
	vrt.Assert(treeCanon(t.Roots) == treeCanon(want.Roots), "chunking changes the tree")
}

// ParseLeak is C07.
func ParseLeak() {
	s := text()
	vrt.Race(true)
	var err error
	var t *parse.Tree
	switch vrt.Param("reader", 0) {
	case 1:
		r := &chunkReader{s: s, fail: vrt.Choice(len(s) + 1), err: errRead}
		t, err = parse.Reader(r, srcName, parse.IncludeNonSemantic)
	case 2:
		r := &chunkReader{s: s, fail: -1, splits: vrt.Param("splits", 2)}
		t, err = parse.Reader(r, srcName, parse.IncludeNonSemantic)
	default:
		t, err = parseText(s, parse.IncludeNonSemantic)
	}
	vrt.Race(false)
	if err != nil {
		vrt.Reach("error")
	} else {
		vrt.Reach("tree")
		vrt.Observe("roots", itoa(len(t.Roots)))
	}
	vrt.Assert(vrt.Settle() == 0, "goroutine left behind after parsing")
}

// ParseTogether is the part of C07 about parses that run at the same time.
func ParseTogether() {
	s := text()
	s2 := s
	if vrt.Param("two", 0) == 1 {
		s2 = core()
	}
	want, werr := parseText(s, parse.IncludeNonSemantic)
	done := make(chan bool)
	var t1, t2 *parse.Tree
	var err1, err2 error
	vrt.Race(true)
	go func() {
		t2, err2 = parseText(s2, parse.IncludeNonSemantic)
		done <- true
	}()
	t1, err1 = parseText(s, parse.IncludeNonSemantic)
	<-done
	vrt.Race(false)
	same := func(t *parse.Tree, err error) {
		vrt.Assert((err == nil) == (werr == nil), "a parse at the same time decides whether a text parses")
		if err != nil {
			vrt.Reach("error")
			vrt.Assert(err.Error() == werr.Error(), "a parse at the same time changes the error")
			return
		}
		vrt.Reach("tree")
		vrt.Assert(treeCanon(t.Roots) == treeCanon(want.Roots), "a parse at the same time changes the tree")
	}
	same(t1, err1)
	if s2 == s {
		same(t2, err2)
	}
	vrt.Assert(vrt.Settle() == 0, "goroutine left behind after parsing")
}

// ParseFile is the part of C06 and C07 about files read by name.
func ParseFile() {
	s := text()
	o := vrt.Param("opts", -1)
	if o < 0 {
		o = vrt.Choice(8)
	}
	w := &vos.World{Faults: vrt.Param("faults", 0), Entries: []*vos.Entry{
		{Path: "d", Mode: vos.ModeDir | 0755},
		{Path: "d/f.clj", Mode: 0644, Data: s},
		{Path: "l.clj", Mode: vos.ModeSymlink | 0777, Target: "d/f.clj"},
	}}
	names := []string{"d/f.clj", "l.clj", "d/../d/f.clj", "./d/f.clj", "d/none.clj", "d/none.edn", "none", "d/.cljfmt", "d"}
	k := vrt.Choice(len(names))
	name := names[k]
	want, werr := parse.Reader(strings.NewReader(s), name, parseOpts(o))
	vos.Reset(w, []string{"x"})
	var t *parse.Tree
	var err error
	vrt.Assert(vos.Run(func() { t, err = parse.File(name, parseOpts(o)) }) == 0, "exit status")
	vrt.Assert(!w.Exited, "parsing ended the process")
	vrt.Assert(vrt.Settle() == 0, "goroutine left behind after parsing")
	vrt.Assert(w.Open == 0, "a file stays open")
	vrt.Assert(len(w.Changes) == 0, "parsing changed a file")
	if len(w.Failed) > 0 || k > 3 {
		vrt.Reach("failure")
		vrt.Assert(err != nil, "failure to read a file swallowed")
		vrt.Assert(t == nil, "tree in spite of a failure")
		return
	}
	vrt.Assert((err == nil) == (werr == nil), "reading by name decides whether a text parses")
	if err != nil {
		vrt.Reach("error")
		vrt.Assert(t == nil, "tree in spite of an error")
		vrt.Assert(err.Error() == werr.Error(), "reading by name changes the error")
		return
	}
	vrt.Reach("tree")
	vrt.Assert(t != nil, "no tree and no error")
	vrt.Assert(treeCanon(t.Roots) == treeCanon(want.Roots), "reading by name changes the tree")
	for i := range t.Roots {
		a, b := collect(nil, t.Roots[i]), collect(nil, want.Roots[i])
		for j := range a {
			vrt.Assert(*a[j].Position() == *b[j].Position(), "reading by name changes a position")
		}
	}
}

// Inspect is C32.
func Inspect() {
	s := text()
	o := vrt.Param("opts", -1)
	if o < 0 {
		o = vrt.Choice(8)
	}
	t, err := parseText(s, parseOpts(o))
	if err != nil {
		vrt.Stop()
	}
	vrt.Reach("tree")
	before := treeCanon(t.Roots)
	got := t.String()
	want := outline(t.Roots, "")
	vrt.Assert(got == want, "outline of a tree: "+got+"instead of: "+want)
	var all []parse.Node
	for _, n := range t.Roots {
		all = collect(all, n)
	}
	for _, n := range all {
		asked(n)
	}
	vrt.Assert(treeCanon(t.Roots) == before, "asking about a tree changes it")
	for _, n := range t.Roots {
		vrt.Assert(n.Parent() == nil, "asking about a tree changes a parent")
		links(n)
	}
}

func outline(ns []parse.Node, in string) string {
	s := ""
	for _, n := range ns {
		s += in + selfDescription(n) + "\n" + outline(n.Children(), in+"  ")
	}
	return s
}

func elements(n parse.Node) int {
	k := 0
	for _, c := range n.Children() {
		if q, _ := kindOf(c); q != kComment && q != kNL {
			k++
		}
	}
	return k
}

// describe is what a node says about itself.
func selfDescription(n parse.Node) string {
	size := "(length=" + itoa(elements(n)) + ")"
	switch n := n.(type) {
	case *parse.BoolNode:
		if n.Val {
			return "true"
		}
		return "false"
	case *parse.NilNode:
		return "nil"
	case *parse.SymbolNode:
		return "sym(" + n.Val + ")"
	case *parse.CharacterNode:
		return "char(" + fmt.Sprintf("%q", n.Val) + ")"
	case *parse.CommentNode:
		return "comment(" + fmt.Sprintf("%q", n.Text) + ")"
	case *parse.NewlineNode:
		return "newline"
	case *parse.KeywordNode:
		return "keyword(" + n.Val + ")"
	case *parse.NumberNode:
		return "num(" + n.Val + ")"
	case *parse.StringNode:
		return "string(" + fmt.Sprintf("%q", n.Val) + ")"
	case *parse.RegexNode:
		return "regex(" + fmt.Sprintf("%q", n.Val) + ")"
	case *parse.TagNode:
		return "tag(" + n.Val + ")"
	case *parse.VarQuoteNode:
		return "varquote(" + n.Val + ")"
	case *parse.ListNode:
		return "list" + size
	case *parse.VectorNode:
		return "vector" + size
	case *parse.MapNode:
		ns := ""
		if n.Namespace != "" {
			ns = "ns=" + n.Namespace + ", "
		}
		return "map(" + ns + "length=" + itoa(elements(n)/2) + ")"
	case *parse.SetNode:
		return "set" + size
	case *parse.FnLiteralNode:
		return "lambda" + size
	case *parse.ReaderCondNode:
		return "reader-cond" + size
	case *parse.ReaderCondSpliceNode:
		return "reader-cond-splice" + size
	case *parse.QuoteNode:
		return "quote"
	case *parse.SyntaxQuoteNode:
		return "syntax quote"
	case *parse.UnquoteNode:
		return "unquote"
	case *parse.UnquoteSpliceNode:
		return "unquote splice"
	case *parse.DerefNode:
		return "deref"
	case *parse.MetadataNode:
		return "metadata"
	case *parse.ReaderDiscardNode:
		return "discard"
	case *parse.ReaderEvalNode:
		return "eval"
	}
	vrt.Fail("unknown node type")
	return ""
}

// asked checks the predicates on a node.
func asked(n parse.Node) {
	k, text := kindOf(n)
	word := k == kSym && text != "nil" && text != "true" && text != "false"
	vrt.Assert(goclj.Symbol(n) == word, "Symbol: "+selfDescription(n))
	vrt.Assert(goclj.Keyword(n) == (k == kKey), "Keyword: "+selfDescription(n))
	vrt.Assert(goclj.Vector(n) == (k == kVec), "Vector: "+selfDescription(n))
	vrt.Assert(goclj.Newline(n) == (k == kNL), "Newline: "+selfDescription(n))
	vrt.Assert(goclj.Comment(n) == (k == kComment), "Comment: "+selfDescription(n))
	vrt.Assert(goclj.Semantic(n) == (k != kNL && k != kComment && k != kMeta && k != kTag), "Semantic: "+selfDescription(n))
	sym, key, head := false, false, ""
	if c := n.Children(); k == kList && len(c) > 0 {
		var q byte
		q, head = kindOf(c[0])
		sym = q == kSym && head != "nil" && head != "true" && head != "false"
		key = q == kKey
	}
	vrt.Assert(goclj.FnFormSymbol(n) == sym, "FnFormSymbol without names: "+selfDescription(n))
	vrt.Assert(goclj.FnFormKeyword(n) == key, "FnFormKeyword without names: "+selfDescription(n))
	asked := [][]string{{"a"}, {"b", "a"}, {":a"}, {":b", ":a"}, {"a", "b", "c"}}
	if head != "" {
		asked = append(asked, []string{head}, []string{head + "a"}, []string{head[:len(head)-1], ":" + head, head[1:]}, []string{"a" + head, head})
	}
	for _, names := range asked {
		in := false
		for _, x := range names {
			in = in || x == head
		}
		vrt.Assert(goclj.FnFormSymbol(n, names...) == (sym && in), "FnFormSymbol: "+selfDescription(n)+" "+head)
		vrt.Assert(goclj.FnFormKeyword(n, names...) == (key && in), "FnFormKeyword: "+selfDescription(n)+" "+head)
	}
}
