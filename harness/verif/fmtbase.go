package main

import (
	"bytes"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	vrt "github.com/cespare/goclj/zz_vrt"
)

const srcName = "src.clj"

// settings of a printer.
type settings struct {
	transforms map[format.Transform]bool
	indent     map[string]format.IndentStyle
	thread     map[string]format.ThreadFirstStyle
	tab        bool
	char       []rune // the indentation character, if it is not a space or tab
}

var allTransforms = []format.Transform{
	format.TransformSortImportRequire,
	format.TransformEnforceNSStyle,
	format.TransformRemoveTrailingNewlines,
	format.TransformFixDefnArglistNewline,
	format.TransformFixDefmethodDispatchValNewline,
	format.TransformRemoveExtraBlankLines,
	format.TransformFixIfNewlineConsistency,
	format.TransformUseToRequire,
	format.TransformRemoveUnusedRequires,
}

func allOff() map[format.Transform]bool {
	m := make(map[format.Transform]bool)
	for _, t := range allTransforms {
		m[t] = false
	}
	return m
}

// config is the printer configuration selected by the job.
func config() *settings {
	c := new(settings)
	switch vrt.Param("cfg", 0) {
	case 1:
		c.transforms = allOff()
	case 2: // any set of transforms
		c.transforms = make(map[format.Transform]bool)
		for _, t := range allTransforms {
			c.transforms[t] = vrt.Bool()
		}
	case 11: // any set of transforms without the ones that are off by default
		c.transforms = make(map[format.Transform]bool)
		for _, t := range allTransforms {
			if t != format.TransformUseToRequire && t != format.TransformRemoveUnusedRequires {
				c.transforms[t] = vrt.Bool()
			}
		}
	case 12: // any set of transforms that act outside ns forms
		c.transforms = make(map[format.Transform]bool)
		for _, t := range allTransforms[4:] {
			c.transforms[t] = vrt.Bool()
		}
		c.transforms[format.TransformUseToRequire] = vrt.Bool()
		c.transforms[format.TransformRemoveUnusedRequires] = vrt.Bool()
	case 3:
		c.transforms = map[format.Transform]bool{
			format.TransformUseToRequire: true, format.TransformRemoveUnusedRequires: true,
		}
	case 4:
		c.tab = true
	case 5:
		c.indent = map[string]format.IndentStyle{
			"a": format.IndentCond1, "b": format.IndentLet, "c": format.IndentDeftype, "d": format.IndentNormal,
			"e": format.IndentCond4, "f": format.IndentLetfn, "g": format.IndentFor, "h": format.IndentCond2, "x.y/z": format.IndentCond0,
		}
		c.thread = map[string]format.ThreadFirstStyle{"t": format.ThreadFirstNormal, "u": format.ThreadFirstCondArrow}
	case 8:
		c.indent = map[string]format.IndentStyle{"x.a/f": format.IndentCond0, "x.a//": format.IndentCond0}
	case 9:
		c.indent = map[string]format.IndentStyle{"f": format.IndentCond0, "x.b/g": format.IndentCond1}
	case 10:
		c.indent = map[string]format.IndentStyle{
			"x.a/f": format.IndentCond0, "f": format.IndentListBody, "let": format.IndentNormal, "x.a/let": format.IndentCond1, "c/f": format.IndentDeftype,
			"/": format.IndentListBody, "x.a//": format.IndentCond1,
		}
	case 13: // any style for one of some names
		c.indent = map[string]format.IndentStyle{overrideNames[vrt.Choice(len(overrideNames))]: anyStyle()}
	case 14: // any thread-first style for one of some names
		st := format.ThreadFirstNormal
		if vrt.Bool() {
			st = format.ThreadFirstCondArrow
		}
		c.thread = map[string]format.ThreadFirstStyle{overrideNames[vrt.Choice(len(overrideNames))]: st}
	case 15: // any styles for two names
		i := vrt.Choice(len(overrideNames))
		c.indent = map[string]format.IndentStyle{overrideNames[i]: anyStyle()}
		c.indent[overrideNames[(i+1+vrt.Choice(len(overrideNames)-1))%len(overrideNames)]] = anyStyle()
	case 16: // any indentation character
		chars := []rune{0, '.', ',', ';', '\n', 'é', 0x1F600, -1}
		c.char = []rune{chars[vrt.Choice(len(chars))]}
	case 6:
		c.transforms = map[format.Transform]bool{format.TransformUseToRequire: true}
	case 7:
		c.transforms = map[format.Transform]bool{format.TransformRemoveUnusedRequires: true}
	}
	return c
}

// anyStyle is any style that a configuration can name.
func anyStyle() format.IndentStyle {
	st := format.IndentStyle(vrt.Int(int(format.IndentNormal), int(format.IndentCond4)))
	vrt.Assume(st == format.IndentNormal || st == format.IndentList || st == format.IndentListBody || st == format.IndentLet || st == format.IndentLetfn ||
		st == format.IndentFor || st == format.IndentDeftype || st == format.IndentCond0 || st == format.IndentCond1 || st == format.IndentCond2 || st == format.IndentCond4)
	return st
}

// others is a printer configuration in which everything is set.
func others() *settings {
	c := &settings{tab: true, transforms: allOff()}
	c.transforms[format.TransformUseToRequire] = true
	c.indent = map[string]format.IndentStyle{
		"f": format.IndentListBody, "let": format.IndentList, "x.a/f": format.IndentCond1, "x.b/f": format.IndentDeftype, "a": format.IndentLet,
		"foo": format.IndentCond0, "case": format.IndentNormal, "if": format.IndentCond2, "b": format.IndentCond4, "defn": format.IndentNormal,
	}
	c.thread = map[string]format.ThreadFirstStyle{"t": format.ThreadFirstNormal, "u": format.ThreadFirstCondArrow, "->": format.ThreadFirstCondArrow, "f": format.ThreadFirstNormal}
	return c
}

func printer(w io.Writer, c *settings) *format.Printer {
	p := format.NewPrinter(w)
	p.IndentOverrides = c.indent
	p.ThreadFirstStyleOverrides = c.thread
	p.Transforms = c.transforms
	if c.tab {
		p.IndentChar = '\t'
	}
	if c.char != nil {
		p.IndentChar = c.char[0]
	}
	return p
}

// formatText parses and prints a text; ok is false when it does not parse.
func formatText(s string, c *settings) (out string, ok bool, err error) {
	t, err := parse.Reader(strings.NewReader(s), srcName, parse.IncludeNonSemantic)
	if err != nil {
		return "", false, nil
	}
	var buf bytes.Buffer
	if err := printer(&buf, c).PrintTree(t); err != nil {
		return "", true, err
	}
	return buf.String(), true, nil
}

// A doc is a text together with what the reference reader finds in it.
type doc struct {
	s     string
	roots []*rnode
}

func readDoc(s string) (*doc, bool) {
	roots, ok := refRead(s)
	return &doc{s, roots}, ok
}

func (d *doc) toks(clauses bool) []rtok { return flatten(d.s, d.roots, clauses) }

// col is the number of characters before an offset on its line.
func (d *doc) col(off int) int {
	i := off
	for i > 0 && d.s[i-1] != '\n' {
		i--
	}
	return utf8.RuneCountInString(d.s[i:off])
}

// pair formats a text and reads the result; it ends the path when the text does not parse.
func pair(c *settings) (in, out *doc) {
	s := text()
	if vrt.Param("warm", 0) == 1 { // the same text has been formatted with other settings
		w := others()
		w.tab = !c.tab
		formatText(s, w)
	}
	o, ok, err := formatText(s, c)
	if !ok {
		vrt.Reach("error")
		vrt.Stop()
	}
	if err != nil {
		vrt.Stop() // FmtTotal's business
	}
	in, ok = readDoc(s)
	if !ok {
		vrt.Stop() // ParseMirror's business
	}
	out, ok = readDoc(o)
	if !ok {
		vrt.Assert(vrt.Param("strict", 0) != 1, "the formatted text does not read: "+o)
		vrt.Assert(vrt.Param("strict", 0) != 2 || len(dropComments(in.toks(true))) == len(in.toks(true)), "the formatted text of one with comments does not read: "+o)
		vrt.Stop()
	}
	vrt.Reach("formatted")
	vrt.Observe("out", o)
	return in, out
}

// docstrings finds the strings that may be realigned.
func docstrings(roots []*rnode) map[*rnode]bool {
	m := make(map[*rnode]bool)
	for _, n := range roots {
		if !isForm(n, "ns", "def", "defn", "defmacro", "defmulti") || len(n.kids) < 2 || !isSymbol(n.kids[1]) {
			continue
		}
		f := forms(n.kids[2:])
		if len(f) >= 2 && f[0].kind == kStr {
			m[f[0]] = true
		}
	}
	return m
}

func trimEnd(l string) string {
	t := strings.TrimRightFunc(l, unicode.IsSpace)
	n := 0
	for n < len(t) && t[len(t)-1-n] == '\\' {
		n++
	}
	if n%2 == 1 && len(t) < len(l) {
		_, k := utf8.DecodeRuneInString(l[len(t):])
		t = l[:len(t)+k]
	}
	return t
}

// sameDocstring checks a realigned docstring at column w.
func sameDocstring(in, out string, w int, indent byte) {
	a, b := strings.Split(in, "\n"), strings.Split(out, "\n")
	vrt.Assert(len(a) == len(b), "number of lines of a docstring")
	vrt.Assert(a[0] == b[0], "first line of a docstring")
	for i := 1; i < len(a); i++ {
		l, m := trimEnd(a[i]), trimEnd(b[i])
		vrt.Assert(strings.TrimLeftFunc(l, unicode.IsSpace) == strings.TrimLeftFunc(m, unicode.IsSpace), "words of a docstring line")
		vrt.Assert(m == b[i], "docstring line ends in blanks")
		if m == "" {
			continue
		}
		ok := len(m) >= w
		for k := 0; ok && k < w; k++ {
			ok = m[k] == indent
		}
		vrt.Assert(ok, "docstring line indented less than the docstring")
		n := leading(a[i], indent)
		if n < w {
			n = w
		}
		vrt.Assert(leading(m, indent) == n, "extra indentation of a docstring line")
	}
}

// leading counts the blanks at the start of a line.
func leading(s string, indent byte) int {
	n := 0
	for n < len(s) && (s[n] == ' ' || s[n] == indent) {
		n++
	}
	return n
}

func dropComments(ts []rtok) []rtok {
	var out []rtok
	for _, t := range ts {
		if t.kind != kComment {
			out = append(out, t)
		}
	}
	return out
}
