package main

import (
	"strings"

	vrt "github.com/cespare/goclj/zz_vrt"
)

// rawText is an arbitrary text of n bytes.
func rawText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte(0, 255)
	}
	return string(b)
}

// alphabets for longer texts.
var alphabets = []string{
	"()[]{}#\"\\;'`~@^:_?= \nn1", // 0: everything with a role in the syntax
	"()[]{} \n,;a",               // 1: delimiters and comments
	"(a) \n;\"",                  // 2
	"'`~@^#_= \n;a)(",            // 3: prefixes
	"#?@(:{}'\"\\ \na_",          // 4: dispatch
	"\\ou17fnwe \n\"'",           // 5: characters and strings
	"a1+-.:/%&*!<>=#' \n(",       // 6: symbols and numbers
	";#!ab \r\n()",               // 7: comments and carriage returns
	"\"\\\na b",                  // 8: strings
}

// alphaText is an arbitrary text of n bytes over an alphabet.
func alphaText(n, a int) string {
	al := alphabets[a]
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte(0, 127)
		vrt.Assume(strings.IndexByte(al, b[i]) >= 0)
	}
	return string(b)
}

// text is the input selected by the job: raw, over an alphabet, or a template with holes.
func text() string {
	a, b := around()
	return padding() + a + core() + b
}

// around is a concrete text on both sides of the arbitrary one: nest levels of containers and prefixes, or wide elements before it and after it.
func around() (string, string) {
	var a, b string
	if n := vrt.Param("wide", 0); n > 0 {
		a = "(f" + strings.Repeat(" g \"s\"\n:k ;c\n", n)
		b = strings.Repeat("\n#_x @y z ", n) + "\n)"
	}
	if n := vrt.Param("nest", 0); n > 0 {
		heads := []string{"if a", "->", "let", "cond-> a b", "letfn", "defrecord", "case", "defn"}
		outer := ""
		for i := 0; i < n; i++ {
			outer += "(" + heads[i%len(heads)] + " [a\n{k #{j '"
		}
		a = outer + a
		b += strings.Repeat("} v\n}] b)", n)
	}
	return a, b
}

// padding is a long concrete text in front of the arbitrary one: pad bytes of one token, or nested brackets.
func padding() string {
	s := ""
	if n := vrt.Param("pad", 0); n > 0 {
		k := vrt.Param("kind", 0)
		if k < 0 {
			k = vrt.Choice(8)
		}
		switch k {
		case 0:
			s = strings.Repeat("a", n-1) + " "
		case 1:
			s = "\"" + strings.Repeat("a", n-2) + "\""
		case 2:
			s = ";" + strings.Repeat("a", n-2) + "\n"
		case 3:
			s = strings.Repeat("é", n/2) + " "
		case 4:
			s = strings.Repeat(" ", n-2) + "a "
		case 5:
			s = "#\"" + strings.Repeat("a", n-3) + "\""
		case 6:
			s = "1" + strings.Repeat("0", n-2) + " "
		case 7:
			s = "\"" + strings.Repeat("é\n", n/3) + "\" "
		}
	}
	if n := vrt.Param("deep", 0); n > 0 {
		s += strings.Repeat("([{#{'", n)
	}
	return s
}

func core() string {
	n := vrt.Param("n", 0)
	if t := vrt.Param("tmpl", -1); t >= 0 {
		return fill(pick(t))
	}
	if n := vrt.Param("pieces", 0); n > 0 {
		return fill(strings.Repeat("\xfd", n))
	}
	if a := vrt.Param("alpha", -1); a >= 0 {
		return alphaText(n, a)
	}
	return rawText(n)
}

// pick chooses a template of a group.
func pick(group int) string {
	ts := templates[group]
	if k := vrt.Param("one", -1); k >= 0 {
		return ts[k]
	}
	return ts[vrt.Choice(len(ts))]
}

// fill replaces the holes of a template:
//
//	\x01  a symbol character (lower-case letter)
//	\x02  a separator: space, newline, comma or tab
//	\x03  an optional separator: nothing, space, newline
//	\x04  a line break or a space
//	\x05  any printable ASCII character
//	\x06  any character of a string or comment (printable, blank, tab)
//	\x07  a gap: space, newline, two newlines, comment and newline
//	\x08  a gap that may be empty: nothing, or as \x07
//	\x0b  a character of two, three or four bytes, all but the first arbitrary
//	\x0c  a character that numbers are made of
//	\x0e  any byte
//	\x10  a letter a, b or c
//	\x11  a head: a symbol of every style, or a keyword
//	\x13  a thread-first symbol or one that resembles it
//	\x14  the head of a namespace clause
//	\x12  a line break, a space, or a comment and a line break
//	\x15  the name of a style, or one that resembles it
//	\x16  the opening of any container or prefix, which the next \x17 closes
//	\x19  a letter a to h, each of which cfg=5 gives a style
//	\x1a  a letter a, b, A or B
//	\x1b  an entry of a require clause
//	\x1c  an entry of a use clause
//	\x1d  a use of a name or alias
//	\x1e  an entry of an import clause
//	\x1f  the name of a symbol that differs in one place from another one
//	\x18  an element of for bindings, or nothing
//	\x7f  a name that overrides may apply to (see nameTexts)
//	\xff  a name of the default table, or one that begins like it (see tableTexts)
//	\xfe  such a name, or one that resembles it
//	\xfd  a piece of syntax (see pieceTexts)
//	\xfb  a form of any kind, or a comment (see wholeTexts)
//	\xfc  blanks of every kind, or their names (see breakTexts)
//	\x0f  a form: a, :k, "s", (c), [v], #_d, ^m o, or with a comment before it
func fill(t string) string {
	var b []byte
	var open []string
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case 22:
			k := vrt.Choice(len(wrapTexts))
			b = append(b, wrapTexts[k][0]...)
			open = append(open, wrapTexts[k][1])
		case 23:
			b = append(b, open[len(open)-1]...)
			open = open[:len(open)-1]
		case 1:
			b = append(b, vrt.Byte('a', 'z'))
		case 2:
			c := vrt.Byte(0, 127)
			vrt.Assume(c == ' ' || c == '\n' || c == ',' || c == '\t')
			b = append(b, c)
		case 3:
			switch vrt.Choice(3) {
			case 1:
				b = append(b, ' ')
			case 2:
				b = append(b, '\n')
			}
		case 4:
			c := vrt.Byte(0, 127)
			vrt.Assume(c == ' ' || c == '\n')
			b = append(b, c)
		case 5:
			b = append(b, vrt.Byte(33, 126))
		case 6:
			c := vrt.Byte(9, 126)
			vrt.Assume(c == '\t' || c >= ' ')
			b = append(b, c)
		case 7, 8:
			k := 0
			if t[i] == 8 {
				k = vrt.Choice(6)
			} else {
				k = 1 + vrt.Choice(5)
			}
			switch k {
			case 1:
				b = append(b, ' ')
			case 2:
				b = append(b, '\n')
			case 3:
				b = append(b, "\n\n"...)
			case 4:
				b = append(b, " ;"...)
				b = append(b, vrt.Byte('a', 'z'), '\n')
			case 5:
				b = append(b, "\n;"...)
				b = append(b, vrt.Byte('a', 'z'), '\n')
			}
		case 11:
			n := 1
			switch vrt.Choice(4) {
			case 0:
				b = append(b, 0xC2)
			case 1:
				b = append(b, 0xE2)
				n = 2
			case 2:
				b = append(b, 0xEF)
				n = 2
			case 3:
				b = append(b, 0xF0, 0x9F)
				n = 2
			}
			for ; n > 0; n-- {
				b = append(b, vrt.Byte(0x80, 0xBF))
			}
		case 12:
			c := vrt.Byte('+', 'x')
			vrt.Assume(c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == 'M' || c == 'N' || c == 'r' || c == 'x' || c == '/' || c == '+' || c == '-')
			b = append(b, c)
		case 14:
			b = append(b, vrt.Byte(0, 255))
		case 16:
			b = append(b, vrt.Byte('a', 'c'))
		case 17:
			b = append(b, headTexts[vrt.Choice(len(headTexts))]...)
		case 19:
			b = append(b, threadTexts[vrt.Choice(len(threadTexts))]...)
		case 25:
			b = append(b, vrt.Byte('a', 'h'))
		case 26:
			c := vrt.Byte('A', 'b')
			vrt.Assume(c <= 'B' || c >= 'a')
			b = append(b, c)
		case 27, 28, 29, 30, 31:
			ts := grammar[t[i]-27]
			b = append(b, fill(ts[vrt.Choice(len(ts))])...)
		case 24:
			b = append(b, bindTexts[vrt.Choice(len(bindTexts))]...)
		case 20:
			b = append(b, clauseTexts[vrt.Choice(len(clauseTexts))]...)
		case 21:
			b = append(b, styleTexts[vrt.Choice(len(styleTexts))]...)
		case 18:
			if vrt.Choice(2) == 0 {
				c := vrt.Byte(0, 127)
				vrt.Assume(c == ' ' || c == '\n')
				b = append(b, c)
			} else {
				b = append(b, " ;"...)
				b = append(b, vrt.Byte('a', 'z'), '\n')
			}
		case 254, 255:
			if t[i] == 254 && vrt.Choice(2) == 0 {
				b = append(b, "x/"...)
			}
			b = append(b, tableTexts[vrt.Choice(len(tableTexts))]...)
			if t[i] == 254 && vrt.Choice(2) == 0 { // another name, or a longer one
				b = append(b, vrt.Byte(33, 126))
			}
		case 251:
			b = append(b, wholeTexts[vrt.Choice(len(wholeTexts))]...)
		case 252:
			b = append(b, breakTexts[vrt.Choice(len(breakTexts))]...)
		case 253:
			b = append(b, pieceTexts[vrt.Choice(len(pieceTexts))]...)
		case 127:
			b = append(b, nameTexts[vrt.Choice(len(nameTexts))]...)
		case 15:
			b = append(b, formTexts[vrt.Choice(len(formTexts))]...)
		default:
			b = append(b, t[i])
		}
	}
	return string(b)
}

var wholeTexts = []string{
	"()", "[]", "(a b)", "[a b]", "{a b}", "#{a b}", "#(a)", "#?(:a b)", "#:a{b c}", "'a", "#_a", "^a b", "^{a b}", "#'a", "#a b", "\"a\n  b\"", "#\"a\"", "a", ":a", "1", "nil", ";a\n", "@a", "\\a", "",
}

var breakTexts = []string{"\r\n", "\r", "\n", "\t", "\f", "\v", " ", "\\n", "\\r", "\\\\\n", "\u2028", "\u00a0", "\u0085", "\x00"}

// pieceTexts are forms and parts of forms of every kind.
var pieceTexts = []string{
	"()", "[]", "{}", "#{}", "#()", "(a\n)", "[a b]", "{:a \"b\"}", "#{a ;b\n}", "#(a %1)", "#?(:a b)", "#?@(:a [b])", "#:a{:b c}", "#::{}", "#::a{b 1}",
	"#_", "'", "`", "~", "~@", "@", "^", "#^", "#=", "#'a", "#'a/b", "#a", "# a", "\\a", "\\(", "\\newline", "\\u00e9", "\"\"", "\"a\\\"\n b\"", "#\"\"", "#\"a\\d\"",
	";a\n", "#!a\n", ";\r", "\r\n", "\n", " ", ",", "a", "a/b", ":a", "::a/b", ":", "1", "-1.5e3", "+", "-", "nil", "true", "%", "%&", "é", "/", "(", ")", "]", "}",
}

// tableTexts are the names of the default table, and names that begin like some of them.
var tableTexts = strings.Fields("as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest- doto extend fn if if-not " +
	"locking ns send-off set-test testing update update-in when when-not while with-bindings with-in-str with-precision with-redefs-fn with-test " +
	"binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs doseq for letfn " +
	"definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify cond assoc case cond-> cond->> condp defproject " +
	"do try finally and or go go-loop comment defx letx with-x when-x -> ->> some-> require import are is fact delay future quote")

var wrapTexts = [][2]string{
	{"(", ")"}, {"[", "]"}, {"{", "}"}, {"#(", ")"}, {"#{", "}"}, {"#?(", ")"}, {"#?@(", ")"}, {"#:a{", "}"},
	{"'", ""}, {"`", ""}, {"~", ""}, {"~@", ""}, {"@", ""}, {"^", ""}, {"#_", ""}, {"#=", ""},
}

// grammar has what \x1b to \x1f stand for.
var grammar = [][]string{
	{
		"\x10", "[\x10]", "[\x10 :as \x10]", "[\x10 :refer [\x10]]", "[\x10 :refer (\x10 d)]", "[\x10 :refer-macros [\x10]]", "(\x10 :as \x10)", "[\x10 :as \x10 :refer [\x10]]",
		"^m [\x10 :as \x10]", "3", "[\x10 [b :as \x10]]", "#_\x10", "[\x10 :refer :all]", "[\x10 :as \x10 :x y]", "[\x10 :refer [\x10] :refer-macros [\x10]]", "[\x10 :refer []]",
		"[\x10\n:as\n\x10]", "[\x10 ;d\n:as \x10]", "[\x10 :refer [\x10 \x10] :as \x10]", "[x.\x10 :as \x10]", "[\x10-d :as \x10]", "\"\x10\"", "[\x10 :as \x10 :as \x10]", "[\"\x10\" :as \x10]",
		";d\n[\x10 :as \x10]", "[\x10 :refer [\x10 ;d\n\x10]]", "[\x10 :include-macros true]", "[\x10 :as]", "[\x10 :refer-macros [\x10 \x10] :as \x10]", "#?(:clj \x10)", "[]", "()",
		"[\x10 :refer (:\x10)]", "[\x10 (:\x10 1)]", "[\x10 :refer (\"\x10\")]", "[(\x10) :as \x10]",
	},
	{
		"\x10", "[\x10]", "(\x10)", "[\x10 :only [\x10]]", "(\x10 :only (\x10 d))", "[\x10 :as \x10]", "[\x10 :only []]", "3", "^m \x10", "[\x10 :exclude [\x10]]", "[\x10 :only [\x10 ;d\n\x10]]", "#_\x10",
		"[\x10 :only \x10]", "[\x10 :refer [\x10]]", "[\x10 :only [\x10] :as \x10]", "[\x10 [b :only [\x10]]]", ";d\n\x10", "[\x10 :rename {\x10 d}]", "[\x10\n:only\n[\x10\n]]", "[\x10 :only [\x10 1]]", ":\x10", "[\x10 :as \x10 :only [\x10]]", "()",
	},
	{
		"\x10/x", "#'\x10/x", "\x10", "#'\x10", "::\x10/k", "#::\x10{}", "#::\x10{:a 1}", "(\x10/f ;c\n1)", "'\x10/f", "(f \x10)", "^{:a \x10} b", "^\x10 x", "@\x10", "#\x10/x y", ":\x10/x", "\"\x10\"", "#_\x10/x", "(def \x10)",
		"~@\x10/x", "`(\x10/x)", "#(\x10/x %)", "#?(:clj \x10/x)", "{\x10/x 1}", "#{\x10}", "x.\x10/y", "x/\x10", "\x10.x", "\\\x10", "#:\x10{:a 1}", ";\x10/x\n", "(comment \x10/x)", "\x10/x/y", "(x ;\x10/x\n)", "#=(\x10)", "::\x10", "/", "#'x.\x10/y",
		"(ns \x10)", "#t \x10/x", "(let [\x10 1])", "#::\x10{:a \x10/b}", "\x10\x10/x", "\x10\x10", "#'\x10-d/x", "#:x{\x10 1}", "#_ #_ \x10 \x10/x", "-\x10", "nil/\x10", "#\"\x10/x\"",
	},
	{
		"\x10", "\x10.B", "(\x10 C)", "[\x10 D]", "[\x10]", "x.\x10.B", "(x.\x10 C ;d\nE)", "^m \x10.B", "3", "#_\x10", "\"\x10\"", "(x_y.\x10 C)", "\x10_d.B", "(\x10_d)", ";d\n\x10.B", "[x.\x10\nC]", "()", "(\"\x10\" B)", "\x10$B", "(\x10.B C)", ":\x10",
	},
	{
		"\x10", "\x10\x10", "x.\x10", "x-\x10", "x_\x10", "x\x05", "X", "\x1a", "x.\x10.\x10", "x/\x10", "\x10*", "*\x10", "-\x10", "x.\x10-\x10", "nil", "true", "x1", "x10", "x2", ".\x10", "\x10.", "é\x10",
	},
}

var bindTexts = []string{"", "a", ":let", "[b\nc]", "#_d", ":let ;e\n"}

var formTexts = []string{"a", ":k", "\"s\"", "(c)", "[v]", "#_d", "^m o", ";x\ne"}

var headTexts = []string{
	"foo", "abcdefghijklm", "let", "for", "letfn", "deftype", "cond", "case", "condp", "fn", ":k", "def-x", "a/when-x", "if", "[]",
}

var threadTexts = []string{"->", "some->", "cond->", "->>", "t", "u", "x/->"}

var clauseTexts = []string{"require", ":require", "require-macros", ":import", "import", ":use", "use", "load", "refer-clojure", ":refer-clojure", "gen-class", ":x"}

var styleTexts = []string{":normal", ":list", ":list-body", ":let", ":letfn", ":for", ":deftype", ":cond0", ":cond1", ":cond2", ":cond4", ":cond->", ":cond3", ":"}

var nameTexts = []string{
	"f", "a/f", "x.a/f", "b/f", "x.b/f", "let", "a/let", "x.a/let", "defz", "a/defz", "->", "a/->", "x/y/f", "F", "f/f", "when-f", "case", "c/case", "if", "fz", "x.a.f", ":f", "cond", "letfn",
}

// overrideNames are the names one of which cfg=13 and cfg=14 give any style.
var overrideNames = []string{"f", "x.a/f", "a/f", "let", "x.a/let", "defz", "x.a/defz", "->", "case", "when-f", "x.b/f", "x.a", ":f", "if", "c/case", "cond", "letfn"}
