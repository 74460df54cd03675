package main

import (
	"strings"
	"unicode/utf8"

	"github.com/cespare/goclj/format"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// The layout model restates the indentation rules of the README and checks them on a formatted text.

type style int

const (
	stNormal style = iota
	stList
	stBody
	stLet
	stFor
	stLetfn
	stDeftype
	stCond0
	stCond1
	stCond2
	stCond3
	stCond4
	stPairs
)

func styleOf(st format.IndentStyle) style {
	switch st {
	case format.IndentList:
		return stList
	case format.IndentListBody:
		return stBody
	case format.IndentLet:
		return stLet
	case format.IndentFor:
		return stFor
	case format.IndentLetfn:
		return stLetfn
	case format.IndentDeftype:
		return stDeftype
	case format.IndentCond0:
		return stCond0
	case format.IndentCond1:
		return stCond1
	case format.IndentCond2:
		return stCond2
	case format.IndentCond4:
		return stCond4
	}
	return stNormal
}

// builtin is the documented default table.
var builtin = map[style]string{
	stBody: "as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest- doto extend fn if if-not " +
		"locking ns send-off set-test testing update update-in when when-not while with-bindings with-in-str with-precision with-redefs-fn with-test",
	stLet: "binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs",
	stFor: "doseq for", stLetfn: "letfn",
	stDeftype: "definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify",
	stCond0:   "cond", stCond1: "assoc case cond-> cond->>", stCond2: "condp defproject",
}

var builtinStyles = func() map[string]style {
	m := make(map[string]style)
	for st := stNormal; st <= stPairs; st++ {
		for _, n := range strings.Fields(builtin[st]) {
			m[n] = st
		}
	}
	return m
}()

type layout struct {
	*doc
	c        *settings
	aliases  map[string]string
	refers   map[string]string
	threaded map[*rnode]bool
	special  map[*rnode]style
	begins   map[int]bool // offsets of the first tokens of lines
}

func newLayout(d *doc, c *settings) *layout {
	l := &layout{
		doc: d, c: c, aliases: make(map[string]string), refers: make(map[string]string),
		threaded: make(map[*rnode]bool), special: make(map[*rnode]style), begins: make(map[int]bool),
	}
	for _, t := range d.toks(false) {
		if t.gap > 0 {
			l.begins[t.off] = true
		}
	}
	for _, n := range d.roots {
		if isNS(n) {
			for _, k := range n.kids {
				if len(k.kids) > 0 && k.kind == kList && k.kids[0].kind == kKey && (k.kids[0].text == ":require" || k.kids[0].text == ":require-macros") {
					for _, e := range k.kids[1:] {
						l.require(e)
					}
				}
			}
		}
	}
	for _, n := range d.roots {
		l.thread(n)
	}
	return l
}

// counted drops comments, line breaks, metadata and tags.
func counted(ns []*rnode) []*rnode {
	var out []*rnode
	for _, n := range ns {
		if isCounted(n) {
			out = append(out, n)
		}
	}
	return out
}

func isCounted(n *rnode) bool {
	switch n.kind {
	case kComment, kNL, kMeta, kTag:
		return false
	}
	return true
}

// require records the aliases and referred names of an entry.
func (l *layout) require(e *rnode) {
	if e.kind != kList && e.kind != kVec {
		return
	}
	k := counted(e.kids)
	if len(k) == 0 || !isSymbol(k[0]) {
		return
	}
	for i := 1; i+1 < len(k) && k[i].kind == kKey; i += 2 {
		switch v := k[i+1]; k[i].text {
		case ":as":
			if isSymbol(v) {
				l.aliases[v.text] = k[0].text
			}
		case ":refer", ":refer-macros":
			if v.kind == kList || v.kind == kVec {
				for _, r := range v.kids {
					if isSymbol(r) {
						l.refers[r.text] = k[0].text
					}
				}
			}
		}
	}
}

// rule looks a name up in the overrides and the defaults.
func (l *layout) rule(name string) (style, bool) {
	if st, ok := l.c.indent[name]; ok {
		return styleOf(st), true
	}
	st, ok := builtinStyles[name]
	return st, ok
}

// nameAfter returns where the name begins after the namespace of a symbol.
// The name may be / itself.
func nameAfter(sym string) int {
	if sym == "/" {
		return 0
	}
	if strings.HasSuffix(sym, "//") {
		return len(sym) - 1
	}
	return strings.LastIndex(sym, "/") + 1
}

func (l *layout) nameStyle(name string) (style, bool) {
	bare, full := name, ""
	if i := nameAfter(name) - 1; i >= 0 {
		bare = name[i+1:]
		if ns, ok := l.aliases[name[:i]]; ok {
			full = ns + "/" + bare
		}
	} else if ns, ok := l.refers[name]; ok {
		full = ns + "/" + bare
	}
	if full != "" {
		if st, ok := l.rule(full); ok {
			return st, true
		}
	}
	if st, ok := l.rule(name); ok {
		return st, true
	}
	if bare != name {
		return l.rule(bare)
	}
	return 0, false
}

func (l *layout) headStyle(kids []*rnode) style {
	if len(kids) == 0 {
		return stNormal
	}
	h := kids[0]
	if h.kind == kKey {
		return stList
	}
	if !isSymbol(h) {
		return stNormal
	}
	if st, ok := l.nameStyle(h.text); ok {
		return st
	}
	bare := h.text[nameAfter(h.text):]
	for _, p := range []string{"def", "let", "with-", "when-"} {
		if strings.HasPrefix(bare, p) {
			return stBody
		}
	}
	return stList
}

// thread marks the lists whose first argument is threaded in.
func (l *layout) thread(n *rnode) {
	if (n.kind == kList || n.kind == kFn) && len(n.kids) > 0 && isSymbol(n.kids[0]) {
		name := n.kids[0].text
		normal, cond := name == "->" || name == "some->", name == "cond->"
		if st, ok := l.c.thread[name]; ok {
			normal, cond = st == format.ThreadFirstNormal, st == format.ThreadFirstCondArrow
		}
		args := counted(n.kids)[1:]
		if !l.threaded[n] && len(args) > 0 {
			args = args[1:]
		}
		for i, a := range args {
			if a.kind == kList && (normal || cond && i%2 == 1) {
				l.threaded[a] = true
			}
		}
	}
	for _, k := range n.kids {
		l.thread(k)
	}
}

func (l *layout) style(n *rnode) style {
	st, ok := l.special[n]
	switch n.kind {
	case kMap, kCond, kCondSpl:
		return stPairs
	case kVec:
		if ok {
			return st
		}
		return stNormal
	case kFn:
		return l.headStyle(n.kids)
	case kList:
		if !ok {
			st = l.headStyle(n.kids)
		}
		if l.threaded[n] {
			switch st {
			case stCond1:
				st = stCond0
			case stCond2:
				st = stCond1
			case stCond4:
				st = stCond3
			}
		}
		return st
	}
	return stNormal
}

// children gives children of binding and definition forms their styles.
func (l *layout) children(n *rnode) {
	if (n.kind != kList && n.kind != kFn) || len(n.kids) == 0 || !isSymbol(n.kids[0]) {
		return
	}
	st, ok := l.nameStyle(n.kids[0].text)
	if !ok {
		return
	}
	args := counted(n.kids)[1:]
	switch st {
	case stDeftype:
		for _, k := range n.kids {
			if k.kind == kList {
				l.special[k] = stBody
			}
		}
	case stLet, stFor, stLetfn:
		if len(args) == 0 || args[0].kind != kVec {
			return
		}
		v := args[0]
		if st == stLetfn {
			for _, k := range v.kids {
				if k.kind == kList {
					l.special[k] = stBody
				}
			}
			return
		}
		l.special[v] = stPairs
		if st == stFor {
			b := counted(v.kids)
			for i := 0; i+1 < len(b); i += 2 {
				if b[i].kind == kKey && b[i].text == ":let" && b[i+1].kind == kVec {
					l.special[b[i+1]] = stPairs
				}
			}
		}
	}
}

// longHead is the length of a head beyond which a comment beside it is not aligned with.
const longHead = 12

// seq checks the children of a form whose contents begin at column base.
func (l *layout) seq(kids []*rnode, base int, st style, closer int) {
	skip := -1 // elements before the pairs
	switch st {
	case stPairs:
		skip = 0
	case stCond0, stCond1, stCond2, stCond3, stCond4:
		skip = 1 + int(st-stCond0)
	}
	cur := base
	switch st {
	case stNormal, stPairs:
	case stList, stCond0:
		cur = base + 1
		if len(kids) > 1 && kids[1].kind != kNL {
			if isCounted(kids[1]) || utf8.RuneCountInString(kids[0].text) <= longHead {
				cur = l.col(kids[1].off)
			}
		}
	default:
		cur = base + 1
	}
	n, pos := 0, 0 // elements so far, place in the pair
	want := func() int {
		if skip >= 0 && n >= skip && pos > 0 {
			return cur + 2
		}
		return cur
	}
	for _, k := range kids {
		if k.kind == kNL {
			continue
		}
		if l.begins[k.off] {
			vrt.Reach("line")
			vrt.Assert(l.col(k.off) == want(), "column "+itoa(l.col(k.off))+" instead of "+itoa(want())+" for "+nodeName(k)+": "+l.s)
		}
		l.node(k)
		if !isCounted(k) {
			continue
		}
		n++
		if skip >= 0 && n > skip {
			pos++
			if pos == 2 && !(st != stPairs && k.kind == kKey && k.text == ":>>") || pos > 2 {
				pos = 0
			}
		}
	}
	if closer >= 0 && l.begins[closer] {
		vrt.Assert(l.col(closer) == want(), "column "+itoa(l.col(closer))+" instead of "+itoa(want())+" for a closing delimiter: "+l.s)
	}
}

func nodeName(n *rnode) string {
	if isColl(n) || isPrefixKind(n.kind) {
		return opener(n)
	}
	return n.text
}

func (l *layout) node(n *rnode) {
	switch {
	case isPrefixKind(n.kind):
		c := l.col(n.open)
		for _, k := range n.kids {
			if k.kind == kNL {
				continue
			}
			if l.begins[k.off] {
				vrt.Assert(l.col(k.off) == c, "column of "+nodeName(k)+" after a prefix and a comment: "+l.s)
			}
			l.node(k)
		}
	case isColl(n):
		l.children(n)
		l.seq(n.kids, l.col(n.open), l.style(n), n.close)
	}
}

// FmtLayout is C14, and with other settings and texts C15 and C16.
func FmtLayout() {
	c := config()
	_, out := pair(c)
	l := newLayout(out, c)
	l.seq(out.roots, 0, stNormal, -1)
}
