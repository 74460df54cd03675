package main

import (
	"path/filepath"
	"strings"

	cli "github.com/cespare/goclj/zz_cli"
	vflag "github.com/cespare/goclj/zz_flag"
	vlog "github.com/cespare/goclj/zz_log"
	vos "github.com/cespare/goclj/zz_os"
	vrt "github.com/cespare/goclj/zz_vrt"
)

// A world is what surrounds a run of the command; paths are relative to its working directory.
type world struct {
	files  []vos.Entry
	env    [][2]string
	args   []string
	in     string
	faults int
	crash  bool
}

// A result is what can be observed of a run.
type result struct {
	status  int
	out     string
	message bool // something on standard error
	files   []vos.Entry
	failed  []string
	crashed bool
	changes []string
}

func (w *world) file(path, data string) {
	w.files = append(w.files, vos.Entry{Path: path, Mode: 0644, Data: data})
}

func (w *world) dir(path string) {
	w.files = append(w.files, vos.Entry{Path: path, Mode: vos.ModeDir | 0755})
}

func (w *world) link(path, target string) {
	w.files = append(w.files, vos.Entry{Path: path, Mode: vos.ModeSymlink | 0777, Target: target})
}

// run executes the command.
func (w *world) run() *result {
	m := &vos.World{Env: w.env, In: w.in, Faults: w.faults, Crash: w.crash}
	for i := range w.files {
		e := w.files[i]
		m.Entries = append(m.Entries, &e)
	}
	vos.Reset(m, append([]string{"cljfmt"}, w.args...))
	vflag.Reset()
	vlog.Reset()
	status := vos.Run(cli.Main)
	r := &result{status: status, out: m.Out, message: m.Err != "", failed: m.Failed, crashed: m.Crashed, changes: m.Changes}
	for _, e := range m.Entries {
		r.files = append(r.files, *e)
	}
	if len(m.Failed) == 0 && !w.crash {
		if s := real(w); s != nil { // natively, the same run of the real binary on the real system
			s.changes = r.changes
			r = s
		}
	}
	vrt.Observe("out", ascii(r.out))
	if r.status != 0 {
		vrt.Reach("status")
	}
	return r
}

func (r *result) get(path string) *vos.Entry {
	for i := range r.files {
		if r.files[i].Path == path {
			return &r.files[i]
		}
	}
	return nil
}

// onlyChanged asserts that no file but those named differs from before.
func (w *world) onlyChanged(r *result, paths ...string) {
	for _, e := range w.files {
		if !contains(paths, e.Path) {
			g := r.get(e.Path)
			vrt.Assert(g != nil && g.Data == e.Data && g.Mode == e.Mode && g.Target == e.Target, "file changed: "+e.Path)
		}
	}
	vrt.Assert(len(r.files) <= len(w.files), "file created")
}

func contains(set []string, s string) bool {
	for _, t := range set {
		if t == s {
			return true
		}
	}
	return false
}

// lines splits what -l prints.
func lines(out string) []string {
	var ls []string
	for out != "" {
		i := strings.IndexByte(out, '\n')
		if i < 0 {
			vrt.Fail("unfinished line on standard output: " + out)
		}
		ls = append(ls, filepath.Clean(out[:i]))
		out = out[i+1:]
	}
	return ls
}

// pieces reports whether out is made of the given pieces in any order.
func pieces(out string, ps []string) bool {
	if len(ps) == 0 {
		return out == ""
	}
	for i, p := range ps {
		if strings.HasPrefix(out, p) {
			rest := append(append([]string(nil), ps[:i]...), ps[i+1:]...)
			if pieces(out[len(p):], rest) {
				return true
			}
		}
	}
	return false
}

func sameSet(x, y []string) bool {
	if len(x) != len(y) {
		return false
	}
	y = append([]string(nil), y...)
	for _, s := range x {
		k := 0
		for k < len(y) && y[k] != s {
			k++
		}
		if k == len(y) {
			return false
		}
		y[k] = y[len(y)-1]
		y = y[:len(y)-1]
	}
	return true
}

// ascii replaces the bytes that need not be valid UTF-8.
func ascii(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 0x80 {
			b[i] = '?'
		}
	}
	return string(b)
}
