package main

import (
	"strings"

	"github.com/cespare/goclj/format"
	vos "github.com/cespare/goclj/zz_os"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// A job is one file (or standard input) that the command was asked to process.
type job struct {
	path string
	text string
	want string
	ok   bool
}

func newJob(path, text string, c *settings) *job {
	want, ok, err := formatText(text, c)
	return &job{path: path, text: text, want: want, ok: ok && err == nil}
}

func (j *job) differs() bool { return j.want != j.text }

// check compares a run without failures of the system with what the jobs ask for. It stops being exact
// after the first job that does not parse.
func check(w *world, r *result, jobs []*job, list, write, stdin bool) {
	var bad *job
	var before, all []*job // the jobs before the first bad one, and all good ones
	for _, j := range jobs {
		if !j.ok {
			if bad == nil {
				bad = j
			}
			continue
		}
		all = append(all, j)
		if bad == nil {
			before = append(before, j)
		}
	}
	if bad != nil {
		vrt.Reach("rejected")
		vrt.Assert(r.status != 0, "status 0 although "+bad.path+" does not parse")
		vrt.Assert(r.message, "no message although "+bad.path+" does not parse")
	} else {
		vrt.Assert(r.status == 0, "failure although everything parses")
	}
	var listed, text []string
	for k, js := range [][]*job{before, all} {
		listed, text = nil, nil
		for _, j := range js {
			if list && j.differs() {
				listed = append(listed, j.path)
			}
			if !list && !write {
				text = append(text, j.want)
			}
		}
		var ok bool
		if list {
			ok = sameSet(lines(r.out), listed)
		} else {
			ok = pieces(r.out, text)
		}
		if ok {
			break
		}
		vrt.Assert(k == 0 && bad != nil, "standard output: "+r.out)
	}
	if !write {
		vrt.Assert(len(r.changes) == 0, "changes of files without -w: "+strings.Join(r.changes, ", "))
		w.onlyChanged(r)
		return
	}
	var may []string
	for _, j := range all {
		if !j.differs() {
			continue
		}
		vrt.Reach("written")
		may = append(may, j.path)
		g := r.get(j.path)
		vrt.Assert(g != nil, "file is gone: "+j.path)
		done := g.Data == j.want
		if !done && bad != nil && !has2(before, j) {
			done = g.Data == j.text
		}
		vrt.Assert(done, "contents of "+j.path+": "+g.Data)
		for _, e := range w.files {
			if e.Path == j.path {
				vrt.Assert(g.Mode == e.Mode, "permissions of "+j.path)
			}
		}
	}
	if len(may) == 0 {
		vrt.Assert(len(r.changes) == 0, "changes of files that are formatted: "+strings.Join(r.changes, ", "))
	}
	w.onlyChanged(r, may...)
}

func has2(js []*job, j *job) bool {
	for _, k := range js {
		if k == j {
			return true
		}
	}
	return false
}

// flags adds -l and -w.
func (w *world) flags() (list, write bool) {
	if list = vrt.Choice(2) == 1; list {
		w.args = append(w.args, "-l")
	}
	if write = vrt.Choice(2) == 1; write {
		w.args = append(w.args, "-w")
	}
	return list, write
}

// modes are permissions of files; the command runs as a user whom they do not keep from writing.
var modes = []vos.FileMode{0644, 0444, 0, 0777, 0620}

var extras = []string{"(a b)\n", "( c d)", "(e", ""}

// names of files given as arguments
var argNames = []string{"f.clj", "-", "x y.clj", "a\"b", "%s.clj", "'q'", "f\\g.clj", "*.clj", "a,b", "é.clj", "--x", "f.clj ", "$HOME", "~", "a=b", "f:1"}

// CliFiles is C27: files and standard input with every combination of -l and -w.
func CliFiles() {
	w := new(world)
	list, write := w.flags()
	s := text()
	w.file("other.clj", " ( x )")
	var jobs []*job
	c := new(settings)
	way := 1
	if vrt.Param("names", 0) == 0 {
		way = vrt.Choice(4)
	}
	switch way {
	case 0:
		w.in = s
		if write {
			r := w.run()
			vrt.Reach("refused")
			vrt.Assert(r.status != 0 && r.message, "-w with standard input is not refused")
			vrt.Assert(r.out == "", "output although refused")
			w.onlyChanged(r)
			return
		}
		r := w.run()
		check(w, r, []*job{newJob("<stdin>", s, c)}, false, false, true)
		return
	case 1:
		name := argNames[0]
		if vrt.Param("names", 0) != 0 {
			name = argNames[vrt.Choice(len(argNames))]
		}
		w.files = append(w.files, vos.Entry{Path: name, Mode: modes[vrt.Choice(len(modes))], Data: s})
		if name[0] == '-' && name != "-" {
			w.args = append(w.args, "--")
		}
		w.args = append(w.args, name)
		jobs = append(jobs, newJob(name, s, c))
	case 2:
		e := extras[vrt.Choice(len(extras))]
		w.file("f.clj", e)
		w.file("g", s)
		w.args = append(w.args, "f.clj", "g")
		jobs = append(jobs, newJob("f.clj", e, c), newJob("g", s, c))
	case 3:
		e := extras[vrt.Choice(len(extras))]
		w.dir("d")
		w.files = append(w.files, vos.Entry{Path: "d/f.clj", Mode: 0600, Data: s}, vos.Entry{Path: "d/g.edn", Mode: 0755, Data: e})
		w.args = append(w.args, "d")
		jobs = append(jobs, newJob("d/f.clj", s, c), newJob("d/g.edn", e, c))
	}
	r := w.run()
	check(w, r, jobs, list, write, false)
}

// CliFaults is C28: one operation fails.
func CliFaults() {
	w := &world{faults: vrt.Param("faults", 1)}
	list, write := w.flags()
	s := text()
	var jobs []*job
	c := new(settings)
	stdin := false
	switch vrt.Choice(4) {
	case 0:
		if write {
			vrt.Stop()
		}
		w.in = s
		list, stdin = false, true
		jobs = append(jobs, newJob("<stdin>", s, c))
	case 1:
		w.file("f.clj", s)
		w.args = append(w.args, "f.clj")
		jobs = append(jobs, newJob("f.clj", s, c))
	case 2:
		w.file("f.clj", "( c d)")
		w.file("g", s)
		w.args = append(w.args, "f.clj", "g")
		jobs = append(jobs, newJob("f.clj", "( c d)", c), newJob("g", s, c))
	case 3:
		w.dir("d")
		w.dir("d/e")
		w.file("d/e/f.clj", s)
		w.file("d/g.edn", "( c d)")
		w.args = append(w.args, "d")
		jobs = append(jobs, newJob("d/e/f.clj", s, c), newJob("d/g.edn", "( c d)", c))
	}
	conf := vrt.Choice(3)
	switch conf {
	case 1:
		w.env = append(w.env, [2]string{"CLJFMT_CONFIG_PATH", "conf"})
	case 2:
		w.args = append([]string{"-c", "conf"}, w.args...)
	}
	w.file("conf", "{:indent-overrides [\"a\" :cond0]}")
	if conf != 0 {
		c.indent = map[string]format.IndentStyle{"a": format.IndentCond0}
		for _, j := range jobs {
			*j = *newJob(j.path, j.text, c)
		}
	}
	r := w.run()
	if len(r.failed) > 0 && conf != 0 && strings.HasPrefix(r.failed[0], "open conf") { // the run goes on without it
		vrt.Reach("no configuration")
		vrt.Assert(conf == 1 && r.failed[0] == "open conf (missing)" || r.message, "no message although the configuration cannot be opened")
		if r.status != 0 {
			return
		}
		r.failed = r.failed[1:]
		for _, j := range jobs {
			*j = *newJob(j.path, j.text, new(settings))
		}
	}
	if len(r.failed) == 0 {
		vrt.Reach("no failure")
		check(w, r, jobs, list, write, stdin)
		return
	}
	vrt.Reach("failure")
	what := strings.Join(r.failed, ", ")
	vrt.Assert(r.status != 0, "status 0 although this failed: "+what)
	vrt.Assert(r.message, "no message although this failed: "+what)
	if !write {
		vrt.Assert(len(r.changes) == 0, "changes of files without -w: "+strings.Join(r.changes, ", "))
	}
}

// CliBroken is C28: something that was asked for cannot be processed.
func CliBroken() {
	w := new(world)
	list, write := w.flags()
	s := text()
	c := new(settings)
	w.file("a.clj", s)
	good := []*job{newJob("a.clj", s, c)}
	what := ""
	where := vrt.Choice(3) // among the arguments, in a directory, deep in a directory
	dir := []string{"", "d/", "d/e/"}[where]
	if where > 0 {
		w.dir("d")
		w.dir("d/e")
		w.file("d/k.edn", "( c d)")
		w.file("d/e/b.clj", s)
		good = append(good, newJob("d/k.edn", "( c d)", c), newJob("d/e/b.clj", s, c))
	}
	names := []string{"x.clj", "a.cljs", "z.cljc", "m.edn"}
	name := dir + names[vrt.Choice(len(names))]
	switch vrt.Choice(5) {
	case 0:
		what = "a link to nothing"
		w.link(name, "missing")
	case 1:
		what = "a link to itself"
		w.link(name, name[len(dir):])
	case 2:
		what = "a file that does not parse"
		w.file(name, "(a b")
	case 3:
		if where > 0 {
			vrt.Stop()
		}
		what = "a missing file"
	case 4:
		what = "a link below a file"
		w.link(name, map[int]string{0: "", 1: "../", 2: "../../"}[where]+"a.clj/x")
	}
	if where == 0 {
		if vrt.Choice(2) == 0 {
			w.args = append(w.args, name, "a.clj")
		} else {
			w.args = append(w.args, "a.clj", name)
		}
	} else if vrt.Choice(2) == 0 {
		w.args = append(w.args, "a.clj", "d")
	} else {
		w.args = append(w.args, "d/", "a.clj")
	}
	r := w.run()
	vrt.Reach("broken")
	vrt.Assert(r.status != 0, "status 0 although there is "+what)
	vrt.Assert(r.message, "no message although there is "+what)
	if !write {
		vrt.Assert(len(r.changes) == 0, "changes of files without -w: "+strings.Join(r.changes, ", "))
	}
	for _, j := range good {
		g := r.get(j.path)
		vrt.Assert(g != nil && (g.Data == j.text || write && j.ok && g.Data == j.want), "contents of "+j.path)
	}
	_ = list
}
