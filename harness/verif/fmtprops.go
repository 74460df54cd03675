package main

import (
	"strings"

	"github.com/cespare/goclj/parse"
	vrt "github.com/cespare/goclj/zz_vrt"
)

func (c *settings) indentByte() byte {
	if c.tab {
		return '\t'
	}
	return ' '
}

func tokName(t rtok) string {
	switch t.kind {
	case 0:
		return "end of text"
	case 'x':
		return "namespace clause"
	case 'c':
		return "closing " + t.text
	case 'o':
		return "opening " + t.text
	}
	return string(rune(t.kind)) + " " + t.text
}

// FmtCode is C08.
func FmtCode() {
	c := config()
	in, out := pair(c)
	a, b := dropComments(in.toks(true)), dropComments(out.toks(true))
	vrt.Assert(len(a) == len(b), "number of tokens changed: "+out.s)
	docs := docstrings(in.roots)
	for i := range a {
		vrt.Assert(a[i].kind == b[i].kind, "token changed: "+tokName(a[i])+" into "+tokName(b[i]))
		if a[i].kind == kStr && docs[a[i].n] {
			vrt.Reach("docstring")
			sameDocstring(a[i].text, b[i].text, out.col(b[i].off), c.indentByte())
			continue
		}
		vrt.Assert(a[i].text == b[i].text, "token changed: "+tokName(a[i])+" into "+tokName(b[i]))
	}
}

// FmtComments is C09.
func FmtComments() {
	c := config()
	in, out := pair(c)
	a, b := in.toks(true), out.toks(true)
	vrt.Assert(len(a) == len(b), "number of tokens and comments changed: "+out.s)
	for i := range a {
		vrt.Assert((a[i].kind == kComment) == (b[i].kind == kComment), "comment moved, lost or duplicated: "+out.s)
		if a[i].kind == kComment {
			vrt.Reach("comment")
			vrt.Assert(a[i].text == b[i].text, "text of a comment: "+a[i].text+" became "+b[i].text)
		} else if a[i].kind == 'x' {
			x, y := comments(nil, a[i].n), comments(nil, b[i].n)
			vrt.Assert(len(x) == len(y), "number of comments in a namespace clause: "+out.s)
			for _, t := range x {
				k := 0
				for k < len(y) && y[k] != t {
					k++
				}
				vrt.Assert(k < len(y), "comment lost in a namespace clause: "+t)
				y[k] = y[len(y)-1]
				y = y[:len(y)-1]
			}
		}
	}
}

func comments(out []string, n *rnode) []string {
	if n.kind == kComment {
		out = append(out, n.text)
	}
	for _, k := range n.kids {
		out = comments(out, k)
	}
	return out
}

// FmtIdempotent is C10.
func FmtIdempotent() {
	c := config()
	s := text()
	o, ok, err := formatText(s, c)
	if !ok || err != nil {
		vrt.Stop()
	}
	vrt.Reach("formatted")
	o2, ok, err := formatText(o, c)
	vrt.Assert(ok && err == nil, "formatted text cannot be formatted again: "+o)
	vrt.Assert(o == o2, "formatting twice: "+o+" became "+o2)
}

// FmtTotal is C11.
func FmtTotal() {
	c := config()
	s := text()
	_, ok, err := formatText(s, c)
	if !ok {
		vrt.Stop()
	}
	vrt.Reach("formatted")
	if err != nil {
		vrt.Fail("printing failed: " + err.Error())
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// prefixGap is the number of line breaks before a token inside a reader prefix.
func prefixGap(ts []rtok, i int) int {
	if ts[i-1].kind == kComment {
		return 1
	}
	return 0
}

// FmtBreaks is C12.
func FmtBreaks() {
	c := config()
	in, out := pair(c)
	a, b := in.toks(true), out.toks(true)
	if len(a) != len(b) {
		vrt.Stop() // FmtCode's and FmtComments' business
	}
	var moved []int
	if c.transforms == nil {
		for i := range a {
			moved = append(moved, mayMove(in, a[i]))
		}
	}
	for i := range a {
		where := itoa(a[i].gap) + " line breaks before " + tokName(a[i]) + " became " + itoa(b[i].gap) + ": " + out.s
		if a[i].pre {
			vrt.Assert(b[i].gap == prefixGap(b, i), where)
			continue
		}
		if c.transforms != nil { // all off
			vrt.Assert(a[i].gap == b[i].gap, where)
			continue
		}
		want := min(a[i].gap, 2)
		if a[i].kind == 'c' && trimmedKind(a[i].n.kind) {
			want = min(a[i].gap, 1)
			if a[i-1].kind != kComment {
				want = 0
			}
		}
		ok := b[i].gap == want
		switch moved[i] {
		case 1: // may move up
			ok = ok || b[i].gap == want-1 && b[i+size(a[i:])].gap > 0
		case 2: // an arm may move down
			ok = ok || want == 0 && b[i].gap == 1
		case 3: // follows what may move up
			ok = ok || want == 0 && b[i].gap == 1
		}
		vrt.Assert(ok, where)
	}
}

func trimmedKind(k byte) bool {
	switch k {
	case kList, kVec, kMap, kSet, kFn:
		return true
	}
	return false
}

// size is the number of tokens of the form that begins with ts[0].
func size(ts []rtok) int {
	n := 1
	for n < len(ts) && ts[n].off < ts[0].n.end {
		n++
	}
	return n
}

// mayMove tells whether a line break before a token may be moved: 1 up past the form, 2 an if arm, 3 after the moved form.
func mayMove(d *doc, t rtok) int {
	if t.kind == 0 || t.kind == 'c' {
		return 0
	}
	for _, r := range d.roots {
		defn, defm := isForm(r, "defn"), isForm(r, "defmethod")
		if !defn && !defm || len(r.kids) < 5 || r.kids[1].kind == kComment || r.kids[2].kind != kNL {
			continue
		}
		if defn && r.kids[3].kind != kVec || defm && r.kids[3].kind != kKey {
			continue
		}
		switch t.n {
		case r.kids[3]:
			return 1
		case r.kids[4]:
			return 3
		}
	}
	if k := t.n; k.parent != nil && isForm(k.parent, "if", "if-not", "if-some", "if-let") {
		arms, lines := armsOfIf(k.parent)
		if len(arms) == 2 && (k == arms[0] && !lines[0] && lines[1] || k == arms[1] && !lines[1] && lines[0]) {
			return 2
		}
	}
	return 0
}

// armsOfIf are the arms of an if form, and whether there is a line break before each.
func armsOfIf(n *rnode) (arms []*rnode, lines []bool) {
	forms, line := 0, false
	for _, k := range n.kids[1:] {
		switch k.kind {
		case kComment, kMeta, kTag:
			continue
		case kNL:
			line = true
			continue
		}
		if forms++; forms == 2 || forms == 3 {
			arms = append(arms, k)
			lines = append(lines, line)
		}
		line = false
	}
	return arms, lines
}

// FmtSpaces is C13.
func FmtSpaces() {
	c := config()
	in, out := pair(c)
	_ = in
	ts := out.toks(false)
	end := 0
	for i, t := range ts {
		between := out.s[end:t.off]
		end = t.end
		at := " before " + tokName(t) + ": " + out.s
		if k := strings.LastIndexByte(between, '\n'); k >= 0 {
			for j := 0; j < k; j++ {
				vrt.Assert(between[j] == '\n', "blanks at the end of a line"+at)
			}
			for j := k + 1; j < len(between); j++ {
				vrt.Assert(between[j] == c.indentByte(), "indentation character"+at)
			}
			if t.kind == 0 {
				vrt.Assert(k == len(between)-1, "blanks at the end of the text")
			}
			continue
		}
		want := " "
		switch {
		case i == 0 || t.kind == 0 || t.kind == 'c' || t.pre || ts[i-1].kind == 'o':
			want = ""
		}
		if t.pre && ts[i-1].text == "~" && t.kind == 'o' && t.text == "@" {
			want = " "
		}
		vrt.Assert(between == want, "spacing"+at)
		// inside the token
		switch t.kind {
		case 'o':
			vrt.Assert(t.end-t.off == len(t.text), "blanks inside an opening delimiter"+at)
		case kVar:
			vrt.Assert(t.end-t.off == len(t.text)+2, "blanks after #'"+at)
		case kTag:
			n := t.end - t.off - len(t.text) - 1
			vrt.Assert(n == 0 || n == 1 && strings.IndexByte("_=?!<", t.text[0]) >= 0, "blanks after #"+at)
		}
	}
}

// FmtStrings is C17.
func FmtStrings() {
	c := config()
	in, out := pair(c)
	a, b := literals(in), literals(out)
	if len(a) != len(b) {
		vrt.Stop()
	}
	docs := docstrings(in.roots)
	for i := range a {
		if a[i].kind == kStr && docs[a[i]] {
			vrt.Reach("docstring")
			sameDocstring(a[i].text, b[i].text, out.col(b[i].off), c.indentByte())
			continue
		}
		vrt.Reach("string")
		vrt.Assert(a[i].text == b[i].text, "string changed: "+a[i].text+" became "+b[i].text)
	}
}

func literals(d *doc) []*rnode {
	var out []*rnode
	for _, t := range d.toks(true) {
		if t.kind == kStr || t.kind == kRegex || t.kind == kChar {
			out = append(out, t.n)
		}
	}
	return out
}

// FmtEstablished is C22.
func FmtEstablished() {
	c := config()
	in, out := pair(c)
	_ = in
	ts := out.toks(false)
	for i, t := range ts {
		vrt.Assert(t.gap <= 2, "two blank lines before "+tokName(t)+": "+out.s)
		if t.kind == 'c' && trimmedKind(t.n.kind) && ts[i-1].kind != kComment {
			vrt.Assert(t.gap == 0, "line break before a closing delimiter: "+out.s)
		}
	}
	for _, n := range out.roots {
		ifArms(out, n)
		k := n.kids
		if len(k) < 5 || k[1].kind == kComment || k[1].kind == kNL || k[2].kind != kNL {
			continue
		}
		if isForm(n, "defn") && k[3].kind == kVec {
			vrt.Reach("defn")
			vrt.Assert(k[4].kind == kNL, "defn argument vector not moved up: "+out.s)
		}
		if isForm(n, "defmethod") {
			vrt.Reach("defmethod")
			vrt.Assert(k[3].kind != kKey, "defmethod dispatch value not moved up: "+out.s)
		}
	}
}

func ifArms(d *doc, n *rnode) {
	for _, k := range n.kids {
		ifArms(d, k)
	}
	if !isForm(n, "if", "if-not", "if-some", "if-let") {
		return
	}
	at := 0 // number of counted elements
	var nl [4]bool
	for _, k := range n.kids {
		switch k.kind {
		case kNL:
			if at < 4 {
				nl[at] = true
			}
		case kComment, kMeta, kTag:
		default:
			at++
		}
	}
	if at >= 4 {
		vrt.Reach("if")
		vrt.Assert(nl[2] == nl[3], "one arm of an if on a line of its own, the other not: "+d.s)
	}
}

// reparse parses a text for printing.
func reparse(s string) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(s), srcName, parse.IncludeNonSemantic)
	if err != nil {
		vrt.Stop()
	}
	return t
}
