package main

import (
	"strings"

	"github.com/cespare/goclj/format"
	vos "github.com/cespare/goclj/zz_os"
	vrt "github.com/cespare/goclj/zz_vrt"
)

const ugly = "( a )"

// fileName is an arbitrary name of n bytes.
func fileName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte(1, 255)
		vrt.Assume(b[i] != '/')
	}
	s := string(b)
	vrt.Assume(s != "." && s != "..")
	return s
}

func extension(name string) string {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		return name[i:]
	}
	return ""
}

// names of files in a directory to walk; \x01 is an arbitrary byte.
var walkNames = []string{
	"a.clj", "b.cljs", "c.cljc", "d.edn", ".clj", ".x.clj", "clj", "e.clj.txt", "f.CLJ", "g.clj\x01", "h\x01clj", "\x01.edn", "i.cl\x01", "j..clj", "k.", "a b.clj", "l.clj.edn", "é.cljc", "m.cljx", "n.ed\x01", "\x01x.clj",
	"deps.edn", "build.boot", "project.clj", "shadow-cljs.edn", "bb.edn", "data_readers.clj", "user.cljs.hl", "a.bb", "README.md", "a.clj~", "#a.clj#", "a.clj.orig",
}

// names of directories
var walkDirs = []string{
	"target", "node_modules", "vendor", "build", "out", "resources", ".git", ".cpcache", ".clj-kondo", "checkouts", "test", "x.clj", "_", "d", "tmp", "classes", "dist", "a b",
}

func nameHoles(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == 1 {
			b[i] = vrt.Byte(1, 255)
			vrt.Assume(b[i] != '/')
		}
	}
	return string(b)
}

// CliWalk is C29: which files of a directory are processed.
func CliWalk() {
	w := new(world)
	exts := []string{".clj", ".cljs", ".cljc", ".edn"}
	if vrt.Param("exts", 0) != 0 {
		switch vrt.Choice(4) {
		case 0:
			w.file("conf", "{:extensions [\".cl\" \".x\"]}")
			exts = []string{".cl", ".x"}
		case 1:
			w.file("conf", "{:extensions ()}")
			exts = nil
		case 2:
			w.file("conf", "{:extensions (\"\" \".clj\")}")
			exts = []string{"", ".clj"}
		case 3:
			w.file("conf", "{:indent-overrides [\"a\" :let]}")
		}
		w.args = append(w.args, "-c", "conf")
	}
	w.args = append(w.args, "-l")
	var name string
	if n := vrt.Param("n", 0); n > 0 {
		name = fileName(n)
	} else {
		name = nameHoles(walkNames[vrt.Choice(len(walkNames))])
		if vrt.Param("layout", -1) == 3 {
			name = walkDirs[vrt.Choice(len(walkDirs))]
		}
	}
	var want []string
	add := func(path, base string) {
		if strings.HasPrefix(base, ".") || !contains(exts, extension(base)) {
			return
		}
		want = append(want, path)
	}
	w.dir("d")
	w.file("z.clj", ugly)
	root := "d"
	layout := vrt.Param("layout", -1)
	if layout < 0 {
		layout = vrt.Choice(12)
	}
	switch layout {
	case 0:
		w.file("d/"+name, ugly)
		add("d/"+name, name)
	case 1: // several files
		w.file("d/aa.clj", ugly)
		w.file("d/"+name, ugly)
		w.file("d/zz.edn", ugly)
		vrt.Assume(name != "aa.clj" && name != "zz.edn")
		add("d/aa.clj", "aa.clj")
		add("d/"+name, name)
		add("d/zz.edn", "zz.edn")
	case 2: // nested directories, hidden ones too
		w.dir("d/.e")
		w.dir("d/.e/f.clj")
		w.file("d/.e/f.clj/"+name, ugly)
		w.file("d/.e/x.txt", ugly)
		w.dir("d/g")
		w.file("d/g/"+name, ugly)
		add("d/.e/f.clj/"+name, name)
		add("d/g/"+name, name)
	case 3: // a directory with the arbitrary name
		w.dir("d/" + name)
		w.dir("d/" + name + "/y")
		w.file("d/"+name+"/x.clj", ugly)
		w.file("d/"+name+"/y/y.clj", ugly)
		w.file("d/zz.clj", ugly)
		vrt.Assume(name != "zz.clj")
		add("d/"+name+"/x.clj", "x.clj")
		add("d/"+name+"/y/y.clj", "y.clj")
		add("d/zz.clj", "zz.clj")
	case 4: // a link to a file
		w.file("t", ugly)
		w.link("d/"+name, "../t")
		add("d/"+name, name)
	case 5: // the directory is given with a trailing separator, or through a link
		w.file("d/"+name, ugly)
		add("d/"+name, name)
		root = []string{"d/", "./d", "d/.", "k", "k/"}[vrt.Choice(5)]
		w.link("k", "d")
		if root == "k" || root == "k/" {
			for i := range want {
				want[i] = "k" + want[i][1:]
			}
		}
	case 6: // a file given directly
		w.file("d/"+name, ugly)
		root = "d/" + name
		want = append(want, root)
	case 7: // two arguments
		w.file("d/"+name, ugly)
		add("d/"+name, name)
		w.args = append(w.args, "z.clj")
		want = append(want, "z.clj")
	case 8: // everything below the working directory
		root = "."
		w.file("d/"+name, ugly)
		add("d/"+name, name)
		add("z.clj", "z.clj")
		add("conf", "conf")
		if vrt.Param("exts", 0) == 0 || want == nil || !contains(want, "conf") {
			break
		}
		for _, f := range w.files {
			if f.Path == "conf" && !newJob("", f.Data, new(settings)).differs() {
				want = want[:len(want)-1]
			}
		}
	case 9: // a hidden directory given directly
		w.dir(".h")
		w.dir(".h/.i")
		w.file(".h/"+name, ugly)
		w.file(".h/.i/"+name, ugly)
		w.file(".h/.i/z.edn", ugly)
		vrt.Assume(name != ".i" && name != "z.edn")
		root = []string{".h", "./.h", ".h/.i"}[vrt.Choice(3)]
		if root != ".h/.i" {
			add(".h/"+name, name)
		}
		add(".h/.i/"+name, name)
		want = append(want, ".h/.i/z.edn")
		if !contains(exts, ".edn") {
			want = want[:len(want)-1]
		}
	case 10: // several arguments in any order
		w.dir("e")
		w.dir("e/f")
		w.file("e/f/"+name, ugly)
		w.file("d/y.cljc", ugly)
		w.file("e/q", ugly)
		roots := []string{"d", "e/f", "e/q", "z.clj"}
		i := vrt.Choice(len(roots))
		j := (i + 1 + vrt.Choice(len(roots)-1)) % len(roots)
		w.args = append(w.args, roots[i], roots[j])
		k := (j + 1) % len(roots)
		if k == i {
			k = (k + 1) % len(roots)
		}
		root = roots[k]
		for _, r := range []string{roots[i], roots[j], root} {
			switch r {
			case "d":
				add("d/y.cljc", "y.cljc")
			case "e/f":
				add("e/f/"+name, name)
			default:
				want = append(want, r)
			}
		}
	case 11: // the working directory beside others
		w.dir("e")
		w.file("d/"+name, ugly)
		w.file("e/y.edn", ugly)
		w.file("q", ugly)
		dots := []string{".", "./", "./.", "d/.."}
		w.args = append(w.args, dots[vrt.Choice(len(dots))])
		if vrt.Choice(2) == 0 {
			w.args = append(w.args, "e")
			root = "q"
		} else {
			w.args = append(w.args, "q")
			root = "e"
		}
		want = append(want, "z.clj", "e/y.edn", "q")
		add("d/"+name, name)
		if vrt.Param("exts", 0) != 0 || strings.Contains(name, "\n") {
			vrt.Stop()
		}
	}
	w.args = append(w.args, root)
	r := w.run()
	vrt.Assert(r.status == 0, "failure of a walk")
	if len(want) > 0 {
		vrt.Reach("processed")
	} else {
		vrt.Reach("none")
	}
	if strings.Contains(strings.Join(want, "\n"), name) && strings.Contains(name, "\n") { // lines do not tell the names apart
		for i := range want {
			want[i] += "\n"
		}
		vrt.Assert(pieces(r.out, want), "processed "+r.out+" instead of "+strings.Join(want, " "))
	} else {
		got := lines(r.out)
		if layout == 11 { // how often files given twice are processed is not specified
			got = once(got)
		}
		vrt.Assert(sameSet(got, want), "processed "+strings.Join(got, " ")+" instead of "+strings.Join(want, " "))
	}
	vrt.Assert(len(r.changes) == 0, "changes of files without -w")
	w.onlyChanged(r)
}

// once drops repetitions.
func once(ss []string) (out []string) {
	for _, s := range ss {
		if !contains(out, s) {
			out = append(out, s)
		}
	}
	return out
}

var flagNames = []string{
	"sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline", "fix-defmethod-dispatch-val-newline",
	"remove-extra-blank-lines", "fix-if-newline-consistency", "use-to-require", "remove-unused-requires",
}

// probe shows the effect of every transform.
const probe = "(ns n (require [b :as x] [a :as y]) (:use [c :only [z]]))\n(defn f\n[x] y/a\n)\n\n\n(defmethod f\n:k z)\n(if a b\nc)\n"

// nearName is a name that looks like the given one.
func nearName(s string) string {
	switch vrt.Choice(9) {
	case 0: // one other byte
		i := vrt.Choice(len(s))
		return s[:i] + string([]byte{vrt.Byte(1, 255)}) + s[i+1:]
	case 1:
		return s[:vrt.Choice(len(s))]
	case 2:
		return s[1+vrt.Choice(len(s)-1):]
	case 3:
		return s + string([]byte{vrt.Byte(1, 255)})
	case 4:
		return string([]byte{vrt.Byte(1, 255)}) + s
	case 5: // another separator throughout
		return strings.Replace(s, "-", string([]byte{vrt.Byte(1, 255)}), -1)
	case 6:
		return strings.Replace(s, "-", "", -1)
	case 7:
		return strings.ToUpper(s)
	}
	return strings.Title(s)
}

// CliFlags is C30: the transform flags.
func CliFlags() {
	w := new(world)
	c := &settings{transforms: make(map[format.Transform]bool)}
	unknown := false
	n := vrt.Param("flags", 2)
	for i := 0; i < n; i++ {
		on := vrt.Choice(2) == 1
		arg := "-disable-transform"
		if on {
			arg = "-enable-transform"
		}
		k := vrt.Choice(len(flagNames) + 3)
		var name string
		switch {
		case k < len(flagNames):
			name = flagNames[k]
			if !unknown {
				c.transforms[allTransforms[k]] = on
			}
		case k == len(flagNames):
			name, unknown = "none", true
		case k == len(flagNames)+1: // nearly a name
			unknown = true
			if name = nearName(flagNames[vrt.Choice(len(flagNames))]); contains(flagNames, name) {
				vrt.Stop()
			}
		default:
			name, unknown = nameHoles("use-to-requir\x01"), true
			vrt.Assume(name != "use-to-require")
		}
		if vrt.Choice(2) == 1 {
			w.args = append(w.args, arg+"="+name)
		} else {
			w.args = append(w.args, "-"+arg, name)
		}
	}
	if vrt.Choice(2) == 1 {
		w.file("f.clj", probe)
		w.args = append(w.args, "f.clj")
	} else {
		w.in = probe
	}
	r := w.run()
	if unknown {
		vrt.Reach("unknown")
		vrt.Assert(r.status != 0 && r.message, "unknown transform accepted")
		vrt.Assert(r.out == "", "output although a transform is unknown")
		return
	}
	vrt.Reach("known")
	want, _, _ := formatText(probe, c)
	vrt.Assert(r.status == 0, "transform refused")
	vrt.Assert(r.out == want, "transforms not applied: "+r.out)
}

// CliWhere is C30: which configuration file is used.
func CliWhere() {
	w := new(world)
	probe := "(f a\nb)\n(f a b\nc)\n"
	styles := []struct {
		conf string
		c    *settings
	}{
		{"", new(settings)},
		{"{:indent-overrides [\"f\" :cond0]}", &settings{indent: map[string]format.IndentStyle{"f": format.IndentCond0}}},
		{"{:indent-overrides [\"f\" :deftype]}", &settings{indent: map[string]format.IndentStyle{"f": format.IndentDeftype}}},
		{"{:indent-overrides [\"f\" :normal]}", &settings{indent: map[string]format.IndentStyle{"f": format.IndentNormal}}},
		{"{:indent-overrides [\"f\" :cond1]}", &settings{indent: map[string]format.IndentStyle{"f": format.IndentCond1}}},
	}
	for i := range styles {
		for j := range styles[:i] {
			a, _, _ := formatText(probe, styles[i].c)
			b, _, _ := formatText(probe, styles[j].c)
			if a == b {
				panic("the styles look the same")
			}
		}
	}
	use := 0 // the configuration in force
	missing := false
	place := func(path string, k int) bool {
		if vrt.Choice(2) == 0 {
			return false
		}
		w.file(path, styles[k].conf)
		return true
	}
	w.dir("h")
	if vrt.Choice(2) == 1 { // files that play no part, in force in other tools
		w.dir("x")
		w.dir("x/cljfmt")
		for _, f := range []string{"x/.cljfmt", "x/cljfmt/config", "x/cljfmt/.cljfmt", "x/cljfmt.edn", "x/cljfmt/cljfmt.edn", "h/cljfmt", "h/.cljfmt.edn", ".cljfmt", "cljfmt.edn"} {
			w.file(f, styles[4].conf)
		}
		for _, v := range []string{"XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "USERPROFILE", "HOMEPATH", "PWD", "OLDPWD", "HOMEDRIVE"} {
			w.env = append(w.env, [2]string{v, "x"})
		}
		for _, v := range []string{"CLJFMT_CONFIG", "CLJFMT", "CLJFMTRC", "CLJFMT_PATH", "GOCLJ_CONFIG", "GOCLJ_CONFIG_PATH", "CONFIG_PATH"} {
			w.env = append(w.env, [2]string{v, "x/.cljfmt"})
		}
	}
	home := place("h/.cljfmt", 3)
	var named, given bool
	namedEnv := vrt.Choice(4)
	switch vrt.Choice(3) {
	case 0:
	case 1:
		w.env = append(w.env, [2]string{"HOME", "h"})
		if home {
			use = 3
		}
	case 2:
		w.env = append(w.env, [2]string{"HOME", "h/"})
		if home {
			use = 3
		}
	}
	switch namedEnv {
	case 1:
		w.env = append(w.env, [2]string{"CLJFMT_CONFIG_PATH", "c1"})
		named = place("c1", 2)
		use = 0
		if named {
			use = 2
		}
	case 3: // a directory
		w.env = append(w.env, [2]string{"CLJFMT_CONFIG_PATH", "h"})
		use = -1
	case 2: // set but empty: no configuration
		w.env = append(w.env, [2]string{"CLJFMT_CONFIG_PATH", ""})
		use = 0
	}
	switch vrt.Choice(6) {
	case 5: // an empty name: no configuration
		w.args = append(w.args, "-c", "")
		use = 0
	case 1:
		w.args = append(w.args, "-c", "c2")
		given = place("c2", 1)
		use = 0
		if given {
			use = 1
		}
		missing = !given
	case 2: // the files that are used by default
		w.args = append(w.args, "-c", "h/.cljfmt")
		use = 0
		if home {
			use = 3
		}
		missing = !home
	case 3:
		w.args = append(w.args, "-c=c1")
		if namedEnv != 1 {
			named = place("c1", 2)
		}
		use = 0
		if named {
			use = 2
		}
		missing = !named
	case 4: // the last one counts
		w.args = append(w.args, "-c", "c3", "-c", "c2")
		given = place("c2", 1)
		use = 0
		if given {
			use = 1
		}
		missing = !given
	}
	w.file("f.clj", probe)
	w.args = append(w.args, "f.clj")
	r := w.run()
	if use < 0 {
		vrt.Reach("unreadable")
		vrt.Assert(r.status != 0 && r.message, "a directory is used as a configuration file")
		return
	}
	want, _, _ := formatText(probe, styles[use].c)
	if missing {
		vrt.Reach("missing")
		vrt.Assert(r.message, "no message although the file given with -c is missing")
		if r.status != 0 {
			return
		}
	}
	vrt.Reach("found")
	vrt.Assert(r.status == 0, "failure because of a configuration file")
	vrt.Assert(r.out == want, "wrong configuration file: "+r.out)
	if !missing {
		vrt.Assert(!r.message, "message although nothing is wrong")
	}
}

// CliCrash is C31: the process stops right before any change of a file.
func CliCrash() {
	w := &world{crash: true}
	w.args = append(w.args, "-w")
	s := text()
	j := newJob("f.clj", s, new(settings))
	if !j.ok {
		vrt.Stop()
	}
	w.file("other.clj", ugly)
	if vrt.Choice(2) == 0 {
		w.files = append(w.files, vos.Entry{Path: "f.clj", Mode: modes[vrt.Choice(len(modes))], Data: s})
		w.args = append(w.args, "f.clj")
	} else {
		w.dir("d")
		j.path = "d/f.clj"
		w.file("d/f.clj", s)
		w.args = append(w.args, "d")
	}
	r := w.run()
	g := r.get(j.path)
	if !r.crashed {
		vrt.Reach("complete")
		vrt.Assert(r.status == 0 && g != nil && g.Data == j.want, "an undisturbed run does not write the file")
		return
	}
	vrt.Reach("crash")
	vrt.Assert(g != nil, "the file is gone after a crash")
	if g.Data != j.text && g.Data != j.want && strings.HasPrefix(j.want, g.Data) {
		vrt.Known("truncate")
	}
	vrt.Assert(g.Data == j.text || g.Data == j.want, "after a crash the file holds neither its old nor its new contents: "+g.Data)
	for _, e := range w.files {
		if e.Path != j.path {
			f := r.get(e.Path)
			vrt.Assert(f != nil && f.Data == e.Data, "another file changed: "+e.Path)
		}
	}
}

var _ = vos.ModeDir
