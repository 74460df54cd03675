package main

import (
	"strings"

	"github.com/cespare/goclj/format"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// nsForm finds the only ns form of a text.
func nsForm(d *doc) *rnode {
	var ns *rnode
	for _, n := range d.roots {
		if isNS(n) {
			if ns != nil {
				vrt.Stop()
			}
			ns = n
		}
	}
	if ns == nil {
		vrt.Stop()
	}
	return ns
}

// An entry of a namespace clause with what belongs to it.
type entry struct {
	node   *rnode
	canon  string // with the metadata and tags before it
	key    string
	known  bool // has a name to sort by
	above  []string
	beside string
}

// entries splits a clause; below are the comments after the last entry.
func entries(clause *rnode) (es []*entry, below []string) {
	var prefix string
	var open bool // an entry ends on the current line
	for _, k := range clause.kids[1:] {
		switch {
		case k.kind == kMeta || k.kind == kTag:
			prefix += canon1(k)
		case prefix != "" && layoutKind(k.kind):
			if k.kind == kComment {
				prefix += k.text + "\n"
			}
		case k.kind == kNL:
			open = false
		case k.kind == kComment:
			if open {
				es[len(es)-1].beside += k.text
			} else {
				below = append(below, k.text)
			}
		default:
			e := &entry{node: k, canon: prefix + canonC(k), above: below}
			below = nil
			prefix = ""
			open = true
			switch {
			case isSymbol(k):
				e.key, e.known = k.text, true
			case (k.kind == kList || k.kind == kVec) && len(k.kids) > 0 && isSymbol(k.kids[0]):
				e.key, e.known = k.kids[0].text, true
			}
			es = append(es, e)
		}
	}
	if prefix != "" {
		es = append(es, &entry{canon: prefix, above: below})
		below = nil
	}
	return es, below
}

// canonC is the canonical text of a form with its comments.
func canonC(n *rnode) string {
	if n.kind == kComment {
		return n.text + "\n"
	}
	if isColl(n) || isPrefixKind(n.kind) {
		s := opener(n)
		for _, k := range n.kids {
			if k.kind != kNL {
				s += canonC(k)
			}
		}
		return s + closer(n) + " "
	}
	return atomText(n) + " "
}

func (e *entry) String() string {
	return strings.Join(e.above, "\n") + "|" + e.canon + "|" + e.beside
}

func clausesNamed(ns *rnode, names ...string) []*rnode {
	var out []*rnode
	for i, k := range ns.kids {
		if i > 0 && k.kind == kList && len(k.kids) > 0 && k.kids[0].kind == kKey {
			for _, n := range names {
				if k.kids[0].text == n {
					out = append(out, k)
				}
			}
		}
	}
	return out
}

// NsSort is C20.
func NsSort() {
	c := config()
	if vrt.Param("style", 0) == 0 {
		c.transforms = map[format.Transform]bool{format.TransformEnforceNSStyle: false}
	}
	in, out := pair(c)
	x, y := nsForm(in), nsForm(out)
	if vrt.Param("style", 0) != 0 {
		refStyle(x)
	}
	a, b := clausesNamed(x, ":require", ":require-macros", ":import"), clausesNamed(y, ":require", ":require-macros", ":import")
	vrt.Assert(len(a) == len(b), "number of clauses: "+out.s)
	for i := range a {
		vrt.Reach("clause")
		es, below := entries(a[i])
		got, gotBelow := entries(b[i])
		// insertion sort, stable
		for j := 1; j < len(es); j++ {
			for k := j; k > 0 && before(es[k], es[k-1]); k-- {
				es[k], es[k-1] = es[k-1], es[k]
			}
		}
		if vrt.Param("lines", 0) != 0 { // the line break after the keyword is another transform's business
			vrt.Assert(newline(a[i], 1) == newline(b[i], 1), "line break after the keyword of a clause: "+out.s)
			continue
		}
		vrt.Assert(a[i].kids[0].text == b[i].kids[0].text, "keyword of a clause: "+out.s)
		vrt.Assert(len(es) == len(got), "number of entries: "+out.s)
		for j := range es {
			vrt.Assert(es[j].String() == got[j].String(), "entry "+es[j].String()+" expected, "+got[j].String()+" found: "+out.s)
		}
		vrt.Assert(strings.Join(below, "\n") == strings.Join(gotBelow, "\n"), "comments at the end of a clause: "+out.s)
	}
}

// newline reports whether a clause continues on the next line after its i first elements.
func newline(n *rnode, i int) bool { return len(n.kids) > i && n.kids[i].kind == kNL }

func before(a, b *entry) bool {
	if a.known && b.known {
		return a.key < b.key
	}
	return a.known && !b.known
}

// refStyle applies the documented style rules to an ns form.
func refStyle(ns *rnode) {
	for i, k := range ns.kids {
		if i == 0 || !rewrittenClause(k) {
			continue
		}
		name := clauseName(k)
		k.kids[0] = &rnode{kind: kKey, text: ":" + name}
		k.kind = kList
		for j, e := range k.kids {
			switch name {
			case "require", "require-macros":
				if isSymbol(e) {
					k.kids[j] = &rnode{kind: kVec, kids: []*rnode{e}}
				}
				if e.kind == kList {
					e.kind = kVec
				}
				if e.kind == kVec {
					for _, f := range e.kids {
						if f.kind == kList {
							f.kind = kVec
						}
					}
				}
			case "import":
				if e.kind == kVec {
					e.kind = kList
				}
				dot := strings.LastIndex(e.text, ".")
				if isSymbol(e) && dot > 0 && dot < len(e.text)-1 && readsAsSymbol(e.text[dot+1:]) {
					k.kids[j] = &rnode{kind: kList, kids: []*rnode{
						{kind: kSym, text: e.text[:dot]}, {kind: kSym, text: e.text[dot+1:]},
					}}
				}
			}
		}
	}
}

// readsAsSymbol reports whether a text of symbol characters is one symbol.
func readsAsSymbol(s string) bool {
	roots, ok := refRead(s)
	return ok && len(roots) == 1 && roots[0].kind == kSym
}

// NsStyle is C21.
func NsStyle() {
	c := config()
	if vrt.Param("sort", 0) == 0 {
		c.transforms = map[format.Transform]bool{format.TransformSortImportRequire: false}
	}
	in, out := pair(c)
	x, y := nsForm(in), nsForm(out)
	refStyle(x)
	a, b := forms(x.kids), forms(y.kids)
	vrt.Assert(len(a) == len(b), "number of parts of the ns form: "+out.s)
	for i := range a {
		vrt.Reach("part")
		p, q := canonC(a[i]), canonC(b[i])
		if a[i].kind == kList && vrt.Param("sort", 0) != 0 {
			vrt.Assert(sameMultiset(a[i], b[i]), p+" became "+q)
		} else if a[i].kind != kStr {
			vrt.Assert(p == q, p+" became "+q)
		}
		if i == 0 || !rewrittenClause(b[i]) {
			continue
		}
		vrt.Reach("clause")
		vrt.Assert(b[i].kind == kList && b[i].kids[0].kind == kKey, "clause is not a list with a keyword: "+q)
		if clauseName(b[i]) != "refer-clojure" && len(b[i].kids) > 1 {
			vrt.Assert(b[i].kids[1].kind == kNL, "no line break after the keyword of a clause: "+out.s)
		}
	}
	if vrt.Param("sort", 0) != 0 {
		return
	}
	sameOutside(in, out, x, y)
}

func sameMultiset(a, b *rnode) bool {
	var x, y []string
	for _, k := range a.kids {
		if k.kind != kNL {
			x = append(x, canonC(k))
		}
	}
	for _, k := range b.kids {
		if k.kind != kNL {
			y = append(y, canonC(k))
		}
	}
	return sameStrings(x, y)
}

func sameStrings(x, y []string) bool {
	if len(x) != len(y) {
		return false
	}
	y = append([]string(nil), y...)
	for _, s := range x {
		k := 0
		for k < len(y) && y[k] != s {
			k++
		}
		if k == len(y) {
			return false
		}
		y[k] = y[len(y)-1]
		y = y[:len(y)-1]
	}
	return true
}

// A lib is what a namespace declaration loads of one namespace.
type lib struct {
	name   string
	as     []string
	refer  []string
	macros []string
	all    bool
	bare   bool // required as [name]
	n      int  // recognised entries, apart from those with only an alias
}

func addTo(set []string, s string) []string {
	for _, t := range set {
		if t == s {
			return set
		}
	}
	return append(set, s)
}

// A loads is the meaning of some clauses.
type loads struct {
	libs    []*lib
	other   []string // unrecognised entries
	readAll bool     // :refer :all is recognised
	sawAll  bool
}

func (l *loads) lib(name string) *lib {
	for _, b := range l.libs {
		if b.name == name {
			return b
		}
	}
	b := &lib{name: name}
	l.libs = append(l.libs, b)
	return b
}

// symbols returns the names in a list or vector of symbols.
func symbols(n *rnode) ([]string, bool) {
	if n.kind != kList && n.kind != kVec {
		return nil, false
	}
	var out []string
	for _, k := range counted(n.kids) {
		if !isSymbol(k) {
			return nil, false
		}
		out = addTo(out, k.text)
	}
	return out, true
}

// read adds the entries of a clause.
func (l *loads) read(clause *rnode, use bool) {
	prefixed := false
	for _, e := range clause.kids[1:] {
		if layoutKind(e.kind) {
			continue
		}
		if e.kind == kMeta || e.kind == kTag {
			prefixed = true
			l.other = append(l.other, canon1(e))
			continue
		}
		if prefixed || !l.entry(e, use) {
			l.other = append(l.other, canon1(e))
		}
		prefixed = false
	}
}

func (l *loads) entry(e *rnode, use bool) bool {
	if isSymbol(e) {
		b := l.lib(e.text)
		b.n++
		b.all = b.all || use
		return true
	}
	if e.kind != kList && e.kind != kVec {
		return false
	}
	k := counted(e.kids)
	if len(k) == 0 || !isSymbol(k[0]) || len(k)%2 == 0 {
		return false
	}
	var as string
	var refer, macros []string
	all := false
	for i := 1; i < len(k); i += 2 {
		if k[i].kind != kKey {
			return false
		}
		ok := false
		switch {
		case k[i].text == ":as":
			as, ok = k[i+1].text, isSymbol(k[i+1])
		case k[i].text == ":refer" && !use && k[i+1].kind == kKey && k[i+1].text == ":all" && l.readAll:
			all, ok, l.sawAll = true, true, true
		case k[i].text == ":only" && use && len(k) == 3, k[i].text == ":refer" && !use:
			refer, ok = symbols(k[i+1])
		case k[i].text == ":refer-macros" && !use:
			macros, ok = symbols(k[i+1])
		}
		if use && len(k) > 3 || !ok {
			return false
		}
	}
	b := l.lib(k[0].text)
	if as != "" {
		b.as = addTo(b.as, as)
	}
	for _, s := range refer {
		b.refer = addTo(b.refer, s)
	}
	for _, s := range macros {
		b.macros = addTo(b.macros, s)
	}
	b.all = b.all || all || len(k) == 1 && use
	if len(k) == 1 && !use && e.kind == kVec {
		b.bare = true
	}
	if as == "" || len(k) > 3 {
		b.n++
	}
	return true
}

func describe(l *loads) string {
	s := ""
	for _, b := range l.libs {
		s += b.name + " as " + strings.Join(b.as, ",") + " refer " + strings.Join(b.refer, ",") + " macros " + strings.Join(b.macros, ",")
		if b.all {
			s += " all"
		}
		s += "; "
	}
	return s + strings.Join(l.other, "")
}

func sameLoads(a, b *loads, what string) {
	msg := what + ": " + describe(a) + " became " + describe(b)
	vrt.Assert(len(a.libs) == len(b.libs), msg)
	for _, x := range a.libs {
		y := b.lib(x.name)
		if x.all && y.all {
			x.refer, y.refer = nil, nil
		}
		vrt.Assert(sameStrings(x.as, y.as) && sameStrings(x.refer, y.refer) && sameStrings(x.macros, y.macros) && x.all == y.all, msg)
	}
	vrt.Assert(len(a.libs) == len(b.libs), msg)
	vrt.Assert(sameStrings(a.other, b.other), msg)
}

// NsUse is C24.
func NsUse() {
	c := &settings{transforms: allOff()}
	c.transforms[format.TransformUseToRequire] = true
	in, out := pair(c)
	x, y := nsForm(in), nsForm(out)
	a, b, r := loads{readAll: true}, loads{readAll: true}, loads{readAll: true}
	for _, k := range clausesNamed(x, ":require") {
		a.read(k, false)
	}
	for _, k := range clausesNamed(x, ":use") {
		a.read(k, true)
	}
	sawAll := a.sawAll
	for _, k := range clausesNamed(y, ":require") {
		b.read(k, false)
		r.read(k, false)
	}
	for _, k := range clausesNamed(y, ":use") {
		b.read(k, true)
	}
	vrt.Reach("use")
	sameLoads(&a, &b, "use to require")
	for _, l := range r.libs {
		vrt.Assert(sawAll || l.n <= 1, "namespace "+l.name+" required twice: "+out.s)
	}
	vrt.Assert(otherParts(x) == otherParts(y), "other parts of the ns form: "+otherParts(x)+" became "+otherParts(y))
	kept := direct(nil, x)
	for _, k := range x.kids {
		switch clauseName(k) {
		case "require", "use":
			kept = direct(kept, k)
		}
	}
	keepsComments(kept, y)
	sameOutside(in, out, x, y)
}

// direct lists the comments among the elements of a form.
func direct(out []string, n *rnode) []string {
	for _, k := range n.kids {
		if k.kind == kComment {
			out = append(out, k.text)
		}
	}
	return out
}

// keepsComments asserts that comments are still there after a clause has been
// put together anew.
func keepsComments(want []string, n *rnode) {
	got := comments(nil, n)
	for _, t := range want {
		k := 0
		for k < len(got) && got[k] != t {
			k++
		}
		vrt.Assert(k < len(got), "comment lost: "+t)
		got[k] = got[len(got)-1]
		got = got[:len(got)-1]
	}
}

func sameOutside(in, out *doc, x, y *rnode) {
	p, q := "", ""
	for _, n := range in.roots {
		if n != x && n.kind != kNL {
			p += canonC(n)
		}
	}
	for _, n := range out.roots {
		if n != y && n.kind != kNL {
			q += canonC(n)
		}
	}
	vrt.Assert(p == q, "forms outside the ns form: "+p+" became "+q)
}

func otherParts(ns *rnode) string {
	s := ""
	for _, k := range forms(ns.kids) {
		switch clauseName(k) {
		case "require", "use":
		default:
			s += canon1(k)
		}
	}
	return s
}

// uses collects the names a file uses outside its ns form.
type uses struct {
	symbols, spaces []string
}

func (u *uses) add(n *rnode) {
	name := ""
	switch n.kind {
	case kSym:
		if isSymbol(n) {
			name = n.text
		}
	case kVar:
		name = n.text
	case kKey:
		if i := strings.Index(n.text, "/"); i >= 0 && strings.HasPrefix(n.text, "::") {
			u.spaces = addTo(u.spaces, n.text[2:i])
		}
	case kMap:
		if strings.HasPrefix(n.text, "::") && n.text != "::" {
			u.spaces = addTo(u.spaces, n.text[2:])
		}
	}
	if i := strings.Index(name, "/"); i > 0 { // / is a name itself
		u.spaces = addTo(u.spaces, name[:i])
	} else if name != "" {
		u.symbols = addTo(u.symbols, name)
	}
	for _, k := range n.kids {
		u.add(k)
	}
}

func has(set []string, s string) bool {
	for _, t := range set {
		if t == s {
			return true
		}
	}
	return false
}

func only(set, used []string) []string {
	var out []string
	for _, s := range set {
		if has(used, s) {
			out = append(out, s)
		}
	}
	return out
}

// imports lists the packages a file imports classes from.
func imports(ns *rnode) []string {
	var out []string
	for _, k := range clausesNamed(ns, ":import") {
		for _, e := range k.kids[1:] {
			if (e.kind == kList || e.kind == kVec) && len(e.kids) > 0 && isSymbol(e.kids[0]) {
				out = append(out, e.kids[0].text)
			}
			if i := strings.LastIndex(e.text, "."); isSymbol(e) && i >= 0 {
				out = append(out, e.text[:i])
			}
		}
	}
	return out
}

// NsUnused is C25.
func NsUnused() {
	c := &settings{transforms: allOff()}
	c.transforms[format.TransformRemoveUnusedRequires] = true
	in, out := pair(c)
	x, y := nsForm(in), nsForm(out)
	var u uses
	for _, n := range in.roots {
		if n != x {
			u.add(n)
		}
	}
	imps := imports(x)
	for _, name := range []string{":require", ":require-macros"} {
		a, b := clausesNamed(x, name), clausesNamed(y, name)
		j := 0
		for _, k := range a {
			var l, want, got loads
			l.read(k, false)
			for _, b := range l.libs {
				k := &lib{name: b.name, as: only(b.as, u.spaces), refer: only(b.refer, u.symbols), macros: only(b.macros, u.symbols), bare: b.bare}
				if len(k.as)+len(k.refer)+len(k.macros) > 0 || k.bare || has(u.spaces, b.name) || has(imps, strings.Replace(b.name, "-", "_", -1)) {
					want.libs = append(want.libs, k)
				}
			}
			want.other = l.other
			if len(want.libs)+len(want.other) == 0 {
				vrt.Reach("dropped") // perhaps but for comments
				if j < len(b) && len(forms(b[j].kids)) == 1 {
					j++
				}
				continue
			}
			vrt.Reach("kept")
			vrt.Assert(j < len(b), "clause removed: "+out.s)
			got.read(b[j], false)
			whole := len(want.libs) == len(l.libs)
			for _, b := range l.libs {
				if b.bare && (b.n > 1 || len(b.as)+len(b.refer)+len(b.macros) > 0) {
					whole = false // the bare entry is kept, the others may go
				}
			}
			if whole {
				keepsComments(direct(nil, k), b[j])
			}
			j++
			sameLoads(&want, &got, "unused requires")
			for _, w := range want.libs {
				if w.bare && len(w.as)+len(w.refer)+len(w.macros) == 0 {
					vrt.Assert(got.lib(w.name).bare, "bare require lost: "+out.s)
				}
			}
		}
		vrt.Assert(j == len(b), "clause added: "+out.s)
	}
	keepsComments(direct(nil, x), y)
	sameOutside(in, out, x, y)
}
