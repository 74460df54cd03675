package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/cespare/goclj/format"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// The layout transforms restated on the reference tree.

func nl(parent *rnode) *rnode { return &rnode{kind: kNL, text: "\n", parent: parent} }

// endComments gives comments that ended with a carriage return a line break.
func endComments(kids []*rnode, parent *rnode, closed bool) []*rnode {
	var out []*rnode
	for i, k := range kids {
		if !isPrefixKind(k.kind) {
			k.kids = endComments(k.kids, k, true)
		} else {
			f := k.kids[len(k.kids)-1:]
			if c := endComments(f[0].kids, f[0], isColl(f[0])); isColl(f[0]) {
				f[0].kids = c
			} else if isPrefixKind(f[0].kind) {
				endComments(f, k, false)
			}
		}
		out = append(out, k)
		if k.kind == kComment && (i+1 < len(kids) && kids[i+1].kind != kNL || i+1 == len(kids) && closed) {
			out = append(out, nl(parent))
		}
	}
	return out
}

func eachList(kids []*rnode, f func(n *rnode)) {
	for _, k := range kids {
		f(k)
		eachList(k.kids, f)
	}
}

func refTrailing(n *rnode) {
	if !trimmedKind(n.kind) {
		return
	}
	k := n.kids
	for len(k) > 0 && k[len(k)-1].kind == kNL && !(len(k) >= 2 && k[len(k)-2].kind == kComment) {
		k = k[:len(k)-1]
	}
	n.kids = k
}

func refBlank(kids []*rnode) []*rnode {
	var out []*rnode
	run := 0
	for _, k := range kids {
		if k.kind != kNL {
			run = 0
		} else if run++; run > 2 {
			continue
		}
		out = append(out, k)
	}
	return out
}

func refMove(n *rnode, head string, kind byte) {
	k := n.kids
	if !isForm(n, head) || len(k) < 5 || k[1].kind == kComment || k[2].kind != kNL || k[3].kind != kind {
		return
	}
	if k[4].kind == kNL {
		if head == "defmethod" {
			n.kids = append(append([]*rnode(nil), k[:2]...), k[3:]...)
		}
		return
	}
	k[2], k[3] = k[3], k[2]
}

func refIf(n *rnode) {
	if !isForm(n, "if", "if-not", "if-some", "if-let") {
		return
	}
	at := 0
	var broken [4]bool
	var pos [4]int
	for i, k := range n.kids {
		if k.kind == kNL && at < 4 {
			broken[at] = true
		}
		if isCounted(k) {
			if at < 4 {
				pos[at] = i
			}
			at++
		}
	}
	if at < 4 || broken[2] == broken[3] {
		return
	}
	p := pos[2]
	if broken[2] {
		p = pos[3]
	}
	out := append([]*rnode(nil), n.kids[:p]...)
	out = append(out, nl(n))
	n.kids = append(out, n.kids[p:]...)
}

func refTransform(roots []*rnode, on func(t format.Transform) bool) []*rnode {
	roots = endComments(roots, nil, false)
	if on(format.TransformRemoveTrailingNewlines) {
		eachList(roots, refTrailing)
	}
	for _, n := range roots {
		if on(format.TransformFixDefnArglistNewline) {
			refMove(n, "defn", kVec)
		}
		if on(format.TransformFixDefmethodDispatchValNewline) {
			refMove(n, "defmethod", kKey)
		}
	}
	if on(format.TransformRemoveExtraBlankLines) {
		eachList(roots, func(n *rnode) { n.kids = refBlank(n.kids) })
		roots = refBlank(roots)
	}
	if on(format.TransformFixIfNewlineConsistency) {
		eachList(roots, refIf)
	}
	return roots
}

// treeToks flattens a tree, with the line breaks it holds as gaps.
func treeToks(roots []*rnode) []rtok {
	var out []rtok
	gap := 0
	var walk func(n *rnode, pre bool)
	add := func(t rtok) {
		t.gap = gap
		if t.pre {
			t.gap = 0
			if out[len(out)-1].kind == kComment {
				t.gap = 1
			}
		}
		gap = 0
		out = append(out, t)
	}
	walk = func(n *rnode, pre bool) {
		switch {
		case n.kind == kNL:
			gap++
		case isPrefixKind(n.kind):
			add(rtok{kind: 'o', text: opener(n), pre: pre})
			for _, k := range n.kids {
				walk(k, true)
			}
		case isColl(n):
			add(rtok{kind: 'o', text: opener(n), pre: pre})
			for _, k := range n.kids {
				walk(k, false)
			}
			add(rtok{kind: 'c', text: closer(n)})
		default:
			add(rtok{kind: n.kind, text: n.text, pre: pre})
		}
	}
	for _, n := range roots {
		walk(n, false)
	}
	add(rtok{})
	return out
}

func defaultOn(t format.Transform) bool {
	return t != format.TransformUseToRequire && t != format.TransformRemoveUnusedRequires
}

// FmtSwitch is C23: any selection of the layout transforms does what the selected ones do.
func FmtSwitch() {
	c := &settings{transforms: make(map[format.Transform]bool)}
	on := make(map[format.Transform]bool)
	for i, t := range allTransforms {
		switch {
		case i >= 2 && i < 7:
			on[t] = vrt.Bool()
			c.transforms[t] = on[t]
		case vrt.Param("ns", 0) != 0:
			c.transforms[t] = false
		default: // without an ns form these do nothing
			c.transforms[t] = vrt.Bool()
		}
	}
	in, out := pair(c)
	if vrt.Param("ns", 0) == 0 {
		for _, n := range in.roots {
			if isNS(n) {
				vrt.Stop()
			}
		}
	}
	want := treeToks(refTransform(in.roots, func(t format.Transform) bool { return on[t] }))
	got := out.toks(false)
	vrt.Assert(len(want) == len(got), "forms added or removed: "+out.s)
	for i, w := range want {
		g := got[i]
		vrt.Assert(w.kind == g.kind && (w.text == g.text || w.kind == kStr), tokName(w)+" became "+tokName(g)+": "+out.s)
		vrt.Assert(w.gap == g.gap, itoa(g.gap)+" line breaks instead of "+itoa(w.gap)+" before "+tokName(g)+": "+out.s)
	}
}

// passes is the order in which transforms act.
var passes = []int{1, 7, 8, 0, 2, 3, 4, 5, 6}

// FmtCompose is C23: any selection of transforms does what they do one after the other.
func FmtCompose() {
	c := &settings{transforms: allOff()}
	on := 0
	for _, t := range allTransforms {
		c.transforms[t] = vrt.Bool()
		if c.transforms[t] {
			on++
		}
	}
	if on < 2 {
		vrt.Stop()
	}
	s := text()
	a, ok, err := formatText(s, c)
	if !ok || err != nil {
		vrt.Stop()
	}
	vrt.Reach("formatted")
	for _, k := range passes {
		if !c.transforms[allTransforms[k]] {
			continue
		}
		one := &settings{transforms: allOff()}
		one.transforms[allTransforms[k]] = true
		if s, ok, err = formatText(s, one); !ok || err != nil {
			vrt.Stop()
		}
	}
	vrt.Assert(a == s, "together the transforms make "+a+", one after the other "+s)
}

// FmtDefaults is C23: transforms that are not mentioned use the defaults.
func FmtDefaults() {
	t := allTransforms[vrt.Choice(len(allTransforms))]
	v := vrt.Bool()
	one := map[format.Transform]bool{t: v}
	all := make(map[format.Transform]bool)
	for _, u := range allTransforms {
		all[u] = defaultOn(u)
	}
	all[t] = v
	s := text()
	a, ok, err := formatText(s, &settings{transforms: one})
	if !ok || err != nil {
		vrt.Stop()
	}
	vrt.Reach("formatted")
	b, _, err := formatText(s, &settings{transforms: all})
	vrt.Assert(err == nil && a == b, "a setting for one transform differs from the defaults with that one changed: "+a+" and "+b)
	if v == defaultOn(t) {
		d, _, err := formatText(s, new(settings))
		vrt.Assert(err == nil && d == a, "naming a default changes the output: "+d+" and "+a)
	}
}

// FmtStable is C18.
func FmtStable() {
	s := text()
	c := config()
	switch vrt.Param("mode", 0) {
	case 0: // map iteration order
		a, ok, err := formatText(s, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		vrt.Reach("formatted")
		vrt.MapOrder(true)
		b, _, err := formatText(s, c)
		vrt.MapOrder(false)
		vrt.Assert(err == nil && a == b, "two runs differ: "+a+" and "+b)
	case 1: // what was printed before
		a, ok, err := formatText(s, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		vrt.Reach("formatted")
		first := earlier[vrt.Choice(len(earlier))]
		var buf bytes.Buffer
		p := printer(&buf, c)
		t0, t1 := reparse(first), reparse(s)
		if err := p.PrintTree(t0); err != nil {
			vrt.Stop()
		}
		n := buf.Len()
		err = p.PrintTree(t1)
		vrt.Assert(err == nil, "printing again fails")
		b := string(buf.Bytes()[n:])
		vrt.Assert(a == b, "what was printed before matters: "+a+" and "+b)
		d, _, err := formatText(s, c)
		vrt.Assert(err == nil && a == d, "what was formatted before matters: "+a+" and "+d)
	case 2: // settings are only read
		before := make(map[format.Transform]bool)
		for k, v := range format.DefaultTransforms {
			before[k] = v
		}
		given := make(map[format.Transform]bool)
		for k, v := range c.transforms {
			given[k] = v
		}
		ni, nt := len(c.indent), len(c.thread)
		_, ok, err := formatText(s, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		vrt.Reach("formatted")
		vrt.Assert(len(before) == len(format.DefaultTransforms), "default transforms changed")
		for k, v := range before {
			vrt.Assert(format.DefaultTransforms[k] == v, "default transforms changed")
		}
		vrt.Assert(len(given) == len(c.transforms) && len(c.indent) == ni && len(c.thread) == nt, "the caller's settings changed")
		for k, v := range given {
			vrt.Assert(c.transforms[k] == v, "the caller's settings changed")
		}
	case 4: // what was printed before with other settings
		a, ok, err := formatText(s, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		vrt.Reach("formatted")
		var buf bytes.Buffer
		p := printer(&buf, others())
		if err := p.PrintTree(reparse(earlier[vrt.Choice(len(earlier))])); err != nil {
			vrt.Stop()
		}
		n := buf.Len()
		p.IndentOverrides, p.ThreadFirstStyleOverrides, p.Transforms, p.IndentChar = c.indent, c.thread, c.transforms, rune(c.indentByte())
		err = p.PrintTree(reparse(s))
		vrt.Assert(err == nil, "printing again fails")
		b := string(buf.Bytes()[n:])
		vrt.Assert(a == b, "former settings matter: "+a+" and "+b)
		d, _, err := formatText(s, c)
		vrt.Assert(err == nil && a == d, "settings of another printer matter: "+a+" and "+d)
	case 5: // a namespace form that was printed before
		in, ok := readDoc(s)
		if !ok || len(in.roots) < 2 {
			vrt.Stop()
		}
		k := 0
		for k < len(in.roots) && in.roots[k].kind != kList {
			k++
		}
		if k == len(in.roots) {
			vrt.Stop()
		}
		rest := s[in.roots[k].end:]
		a, ok, err := formatText(rest, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		vrt.Reach("formatted")
		var buf bytes.Buffer
		p := printer(&buf, c)
		if err := p.PrintTree(reparse(s)); err != nil {
			vrt.Stop()
		}
		n := buf.Len()
		err = p.PrintTree(reparse(rest))
		vrt.Assert(err == nil, "printing again fails")
		b := string(buf.Bytes()[n:])
		vrt.Assert(a == b, "a namespace form printed before matters: "+a+" and "+b)
		d, _, err := formatText(rest, c)
		vrt.Assert(err == nil && a == d, "a namespace form formatted before matters: "+a+" and "+d)
	case 3: // two at a time
		other := earlier[vrt.Choice(len(earlier))]
		a, ok, err := formatText(s, c)
		if !ok || err != nil {
			vrt.Stop()
		}
		want, _, _ := formatText(other, c)
		t0, t1 := reparse(other), reparse(s)
		vrt.Reach("formatted")
		vrt.Race(true)
		done := make(chan string)
		go func() {
			var buf bytes.Buffer
			printer(&buf, c).PrintTree(t0)
			done <- buf.String()
		}()
		var buf bytes.Buffer
		err = printer(&buf, c).PrintTree(t1)
		o := <-done
		vrt.Race(false)
		vrt.Assert(err == nil && buf.String() == a && o == want, "formatting at the same time changes the output")
	}
}

// earlier are texts formatted before or beside the one under test.
var earlier = []string{
	"(ns n \"d\n  e\" (:use b [c :only [d]]) (:require [x.y :as q :refer [f g]] [x.y :as r] a) (:import a.B))\n(q/z a\nb)",
	"(-> x (case a\nb\nc))\n(let [a\nb] c)\n(for [a b :let [c\nd]] e)\n(if a\nb c)\n(defn f\n[x] y)\n(defmethod f\n:a b)",
	"(letfn [(f [x]\ny)] z)\n(deftype T [] (m [x]\ny))\n'(a ;c\n)\n\n\n\n",
}

var errWrite = errors.New("disk on fire")

// limitWriter accepts a number of bytes.
type limitWriter struct {
	err    error
	left   int
	mode   int
	got    []byte
	failed bool
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if len(b) < w.left || len(b) == w.left && w.mode != 3 {
		w.left -= len(b)
		w.got = append(w.got, b...)
		return len(b), nil
	}
	w.failed = true
	n := w.left
	switch w.mode {
	case 0:
		n = 0
	case 3:
		n = len(b) // an error although everything was taken
	case 2:
		w.got = append(w.got, b[:n]...)
		w.left = 0
		return n, nil // a short write without an error
	}
	w.got = append(w.got, b[:n]...)
	w.left = 0
	return n, w.err
}

// FmtWriter is C19.
func FmtWriter() {
	s := text()
	c := config()
	want, ok, err := formatText(s, c)
	if !ok || err != nil {
		vrt.Stop()
	}
	vrt.Reach("formatted")
	w := &limitWriter{mode: vrt.Choice(4), err: errWrite}
	if w.mode == 1 {
		w.err = []error{errWrite, io.EOF, io.ErrClosedPipe, io.ErrShortWrite, errLater{}, errCut{}}[vrt.Choice(6)]
	}
	if vrt.Param("near", 0) != 0 { // around the size of the buffer and the end of the text
		marks := []int{0, 1, 2, 4094, 4095, 4096, 4097, 4098, len(want) - 1, len(want)}
		w.left = marks[vrt.Choice(len(marks))]
	} else {
		w.left = vrt.Choice(len(want) + 2)
	}
	t := reparse(s)
	err = printer(w, c).PrintTree(t)
	if w.failed || len(w.got) < len(want) {
		vrt.Reach("failure")
		vrt.Assert(err != nil, "a failed write is not reported")
		if w.mode == 2 {
			vrt.Assert(err.Error() == io.ErrShortWrite.Error(), "a short write is reported as "+err.Error())
		} else {
			vrt.Assert(err.Error() == w.err.Error(), "a failed write is reported as "+err.Error())
		}
		vrt.Assert(len(w.got) <= len(want) && string(w.got) == want[:len(w.got)], "the writer received something else")
		return
	}
	vrt.Reach("complete")
	vrt.Assert(err == nil, "an error although everything was written")
	vrt.Assert(string(w.got) == want, "the writer received something else")
}
