package main

import (
	"github.com/cespare/goclj/format"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// A configuration is what the reference interpreter of configuration files makes of one.
type configuration struct {
	exts     []string
	settings settings
}

var defaultExts = []string{".clj", ".cljs", ".cljc", ".edn"}

// items drops comments, line breaks and discarded forms.
func items(ns []*rnode) []*rnode {
	var out []*rnode
	for _, n := range ns {
		if !layoutKind(n.kind) && n.kind != kDiscard {
			out = append(out, n)
		}
	}
	return out
}

// readConfig interprets a configuration file; ok is false when it has to be rejected.
func readConfig(s string) (c *configuration, ok bool) {
	c = &configuration{exts: defaultExts}
	roots, ok := refRead(s)
	if !ok {
		return nil, false
	}
	roots = items(roots)
	if len(roots) == 0 {
		return c, true
	}
	if len(roots) > 1 || roots[0].kind != kMap {
		return nil, false
	}
	kv := items(roots[0].kids)
	if len(kv)%2 != 0 {
		return nil, false
	}
	for i := 0; i < len(kv); i += 2 {
		if kv[i].kind != kKey {
			continue
		}
		v := kv[i+1]
		switch kv[i].text {
		case ":extensions":
			vs, ok := texts(v)
			if !ok {
				return nil, false
			}
			c.exts = vs
		case ":indent-overrides":
			c.settings.indent = make(map[string]format.IndentStyle)
			ok := overrides(v, func(name, style string) bool {
				st, ok := indentNames[style]
				c.settings.indent[name] = st
				return ok
			})
			if !ok {
				return nil, false
			}
		case ":thread-first-overrides":
			c.settings.thread = make(map[string]format.ThreadFirstStyle)
			ok := overrides(v, func(name, style string) bool {
				st, ok := threadNames[style]
				c.settings.thread[name] = st
				return ok
			})
			if !ok {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return c, true
}

// texts is the strings of a list or vector of strings.
func texts(n *rnode) (ss []string, ok bool) {
	if n.kind != kList && n.kind != kVec {
		return nil, false
	}
	for _, k := range items(n.kids) {
		if k.kind != kStr {
			return nil, false
		}
		ss = append(ss, k.text)
	}
	return ss, true
}

// overrides goes through the pairs of names and styles. A name that is given twice has the later style, and the
// earlier one is not looked at.
func overrides(n *rnode, set func(name, style string) bool) bool {
	if n.kind != kList && n.kind != kVec {
		return false
	}
	kids := items(n.kids)
	if len(kids)%2 != 0 {
		return false
	}
	type pair struct{ name, style string }
	var ps []pair
	for i := 0; i < len(kids); i += 2 {
		var ns []string
		if kids[i].kind == kStr {
			ns = []string{kids[i].text}
		} else {
			var ok bool
			if ns, ok = texts(kids[i]); !ok {
				return false
			}
		}
		if kids[i+1].kind != kKey {
			return false
		}
		for _, s := range ns {
			ps = append(ps, pair{s, kids[i+1].text})
		}
	}
	ok := true
	for i, p := range ps {
		last := true
		for _, q := range ps[i+1:] {
			if q.name == p.name {
				last = false
			}
		}
		if last && !set(p.name, p.style) {
			ok = false
		}
		if !last {
			if _, k := indentNames[p.style]; !k {
				if _, k := threadNames[p.style]; !k {
					vrt.Stop() // an unknown style that is overridden: not specified
				}
			}
		}
	}
	return ok
}

var indentNames = map[string]format.IndentStyle{
	":normal": format.IndentNormal, ":list": format.IndentList, ":list-body": format.IndentListBody, ":let": format.IndentLet,
	":letfn": format.IndentLetfn, ":for": format.IndentFor, ":deftype": format.IndentDeftype, ":cond0": format.IndentCond0,
	":cond1": format.IndentCond1, ":cond2": format.IndentCond2, ":cond4": format.IndentCond4,
}

var threadNames = map[string]format.ThreadFirstStyle{":normal": format.ThreadFirstNormal, ":cond->": format.ThreadFirstCondArrow}

// configProbe shows the styles of a and b.
const configProbe = "(a [(x\n[y]\nz)\n:let\n[p\nq]]\nb\n:k\n:l\nm\nn)\n(b x\n(let [c\nd]\ne)\n(case p\nq\nr))\n(a (let p q\nr))\n(b p\nq\nr\ns)\n(x/a\nb\nc)\n"

var configTexts = [][]string{
	// 0: shapes
	{
		"{:extensions [\".\x10\"]}", "{:extensions (\".\x10\" \".a\x05\")}", "{:indent-overrides [\"\x10\" \x15]}", "{:indent-overrides (\"a\" \x15 [\"\x10\" \"b\"] :cond0)}",
		"{:thread-first-overrides [\"\x10\" \x15]}", "{:thread-first-overrides ((\"\x10\" \"\x10\") \x15)}", "{:indent-overrides [(\"a\") \x15 \"\x10\" :let]\n:thread-first-overrides [\"b\" :cond->]}",
		"{\x0f \x0f}", "{:extensions \x0f}", "{:indent-overrides \x0f}", "{:thread-first-overrides \x0f}", "{:extensions [\x0f]}", "{:indent-overrides [\x0f :let]}",
		"{:indent-overrides [\"a\" \x0f]}", "{:indent-overrides [[\x0f] :let]}", "{:thread-first-overrides [\x0f :normal]}", "{:thread-first-overrides [\"a\" \x0f \"b\" :normal]}",
		"\x0f", "\x0f {:extensions [\".a\"]} \x0f", "{:extensions\x08[\x08\".a\"\x08]\x08}\x08", "{:indent-overrides [\"a\"\x08:let\x08\"b\" :cond0\x08]}",
	},
	// 1: unusual texts
	{
		"{:extension\x0e\x0e[\".a\"]}", "{:indent-override\x0e [\"a\" :let]}", "{:thread-first-override\x0e [\"a\" :normal]}", "{:indent-overrides [\"a\" :\x0e\x0et]}", "{:indent-overrides [\"a\" :cond\x0e]}",
		"{:indent-overrides [\"\x0e\" :let]}", "{:indent-overrides [\"\x0e/a\" :let]}", "{:extensions [\"\x0e\x0e\"]}", "{:extensions [\".a\" \x0e\x0e]}", "\x0e\x0e\x0e", "{\x0e\x0e}", "{:extensions [\".a\"]\x0e\x0e",
		"{:extensions \x0e\".a\"\x0e}", "{:indent-overrides {\"a\"\x0e:let}}", "[:extensions [\".a\"]]", "#{:extensions [\".a\"]}", "{:extensions [] :extensions [\".\x10\"]}", "{:extensions nil}", "{:indent-overrides nil}",
		"{:indent-overrides [\"a\" :let \"a\" \x15]}", "{:indent-overrides [\"a\" :let] :indent-overrides [\"b\" :cond0]}", "{:indent-overrides [[] \x15]}", "{:indent-overrides [[] \x15 [\"\x10\"] :let () :cond0 \"a\" \x15]}", "{:thread-first-overrides [() :normal \"\x10\" \x15 [] :cond->]}", "{:thread-first-overrides [\"a\" :cond->] :thread-first-overrides []}",
		"{\"x\" 1 :extensions [\".\x10\"] y 2}", "{x :extensions :extensions [\".a\"]}", "{:a 1}", "{::extensions [\".a\"]}", "'{:extensions [\".a\"]}", "{:extensions '[\".a\"]}", "{:extensions [\".a\" ; \x06\n]}",
		"{#_:extensions #_[\".b\"] :extensions #_\x08[\".c\"] [\".a\" #_\x08\".b\"]}", "#_{:extensions [\".b\"]}", "{:extensions [\".a\"] :indent-overrides [\"a\" :let] :x 1}", "{:indent-overrides [\"a\" :let] :extensions [1]}",
		"{:extensions [\".a\"]} {}", "{:indent-overrides [\"a\" let]}", "{:indent-overrides [a :let]}", "{:indent-overrides [:a :let]}", "{:indent-overrides [[\"a\" [\"b\"]] :let]}", "{:extensions [[\".a\"]]}", "{:indent-overrides [\"a\"]}",
		"{:indent-overrides [\"a\" :let \x0f]}", "{:indent-overrides [\"a\" :let [\"\x10\"]]}", "{:indent-overrides [[\"\x10\"]]}", "{:indent-overrides ([\"a\"] :let ())}", "{:thread-first-overrides [\"a\" :normal [\"\x10\"]]}",
		"{:thread-first-overrides [\x0f]}", "{:extensions [\".a\" [\".b\"]]}", "{:extensions [\".a\"] :indent-overrides}", "{:extensions [\".\x10\"] [\"x\"]}", "{:extensions [\".a\"] \x0f}", "{:indent-overrides [\"a\" :let :cond0]}", "{:indent-overrides [[\"a\" \"b\"] :let [\"a\"] \x15 \"a\"]}",
		"{: 1}", "{: [] :extensions [\".\x10\"]}", "{:\x0e \x0f}", "{:\x0e\x0e \"x\"}", "{:extensions\x0e [\".\x10\"]}", "{:\x0eextensions [\".\x10\"]}", "{:x/extensions [\".\x10\"]}", "{:indent-overrides\x0e [\"a\" :let]}",
		"{:extensions \x16\".a\"\x17}", "{:indent-overrides \x16\"a\" :let\x17}", "{:thread-first-overrides \x16\"a\" :normal\x17}", "{:indent-overrides [\x16\"a\"\x17 :let]}", "{:thread-first-overrides [\x16\"a\" \"b\"\x17 :normal]}", "\x16:extensions [\".a\"]\x17", "{:extensions [\x16\".a\"\x17]}",
	},
	// 2: forms of every kind in every place
	{
		"{:indent-overrides [[] \xfb]}", "{:indent-overrides [() \xfb \"\x10\" \x15]}", "{:thread-first-overrides [[] \xfb]}", "{:indent-overrides [[\"a\" \xfb] :let]}", "{:indent-overrides [[\"a\"] \xfb]}", "{:indent-overrides [(\xfb) \xfb]}", "{:thread-first-overrides (\xfb \xfb)}",
		"{:extensions \xfb}", "{:extensions [\xfb \xfb]}", "{:indent-overrides [\xfb \xfb]}", "{\xfb \xfb}", "{:extensions [\".\x10\"] \xfb \xfb}", "\xfb\xfb", "{:indent-overrides \xfb :thread-first-overrides \xfb}", "{\xfb :extensions [\".\x10\"]}", "{:extensions (\xfb \".\x10\")}", "\xfb {:extensions [\".\x10\"]} \xfb",
	},
}

var names = []string{"p.a", "p.b", "p.c", "p.clj", "p", "p.edn", "a", ".a", "p.aa", "p.cljs", "p.cljc", "p.ab"}

// CliConfig is C26: configuration files.
func CliConfig() {
	w := new(world)
	var s string
	if t := vrt.Param("conf", -1); t >= 0 {
		ts := configTexts[t]
		s = fill(ts[vrt.Choice(len(ts))])
	} else {
		s = text()
	}
	c, ok := readConfig(s)
	w.file("conf", s)
	w.args = append(w.args, "-c", "conf")
	w.dir("d")
	w.file("f.clj", configProbe)
	mode := 0
	switch {
	case vrt.Param("modes", 0) != 0:
		mode = vrt.Choice(3)
	case ok && c.settings.indent == nil && c.settings.thread == nil:
		mode = 1
	case !ok:
		mode = 2
	}
	switch mode {
	case 0:
		w.args = append(w.args, "f.clj")
	case 1:
		for _, n := range names {
			w.file("d/"+n, ugly)
		}
		w.args = append(w.args, "-l", "d")
	case 2:
		w.args = append(w.args, "-w", "f.clj")
	}
	r := w.run()
	if !ok {
		vrt.Reach("rejected")
		vrt.Assert(r.status != 0, "an invalid configuration is accepted: "+s)
		vrt.Assert(r.message, "an invalid configuration is rejected without a message: "+s)
		vrt.Assert(r.out == "", "output although the configuration is invalid: "+s)
		w.onlyChanged(r)
		return
	}
	vrt.Reach("applied")
	vrt.Assert(r.status == 0, "a valid configuration is rejected: "+s)
	vrt.Assert(!r.message, "a message although the configuration is valid: "+s)
	if mode == 1 {
		var want []string
		for _, n := range names {
			if n != ".a" && contains(c.exts, extension(n)) {
				want = append(want, "d/"+n)
			}
		}
		got := lines(r.out)
		vrt.Assert(sameSet(got, want), "extensions of "+s+" not applied")
		w.onlyChanged(r)
		return
	}
	want, ok, err := formatText(configProbe, &c.settings)
	vrt.Assert(ok && err == nil, "the probe does not format")
	if mode == 0 {
		vrt.Assert(r.out == want, "overrides of "+s+" not applied: "+r.out)
		w.onlyChanged(r)
		return
	}
	g := r.get("f.clj")
	vrt.Assert(g != nil && g.Data == want, "overrides of "+s+" not applied")
	w.onlyChanged(r, "f.clj")
}
