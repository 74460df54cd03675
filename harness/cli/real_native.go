package main

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	vos "github.com/cespare/goclj/zz_os"
)

// real runs the real binary in a scratch directory; it is nil when there is none.
func real(w *world) *result {
	bin, err := filepath.Abs(filepath.Join(filepath.Dir(os.Args[0]), "cljfmt_real"))
	if err != nil {
		return nil
	}
	if _, err := os.Stat(bin); err != nil {
		return nil
	}
	dir, err := ioutil.TempDir("", "verif-cli-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	for _, e := range w.files {
		p := filepath.Join(dir, e.Path)
		switch {
		case strings.ContainsAny(e.Path, "\x00"):
			return nil
		case e.Mode&vos.ModeDir != 0:
			err = os.Mkdir(p, 0755)
		case e.Mode&vos.ModeSymlink != 0:
			err = os.Symlink(e.Target, p)
		default:
			err = ioutil.WriteFile(p, []byte(e.Data), e.Mode&0777)
			os.Chmod(p, e.Mode&0777)
			if f, err := os.OpenFile(p, os.O_RDWR, 0); err == nil {
				f.Close()
			} else {
				return nil // permissions bind this user
			}
		}
		if err != nil {
			return nil
		}
	}
	c := exec.Command(bin, w.args...)
	c.Dir = dir
	c.Env = []string{}
	for _, e := range w.env {
		c.Env = append(c.Env, e[0]+"="+e[1])
	}
	c.Stdin = strings.NewReader(w.in)
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	timer := time.AfterFunc(8*time.Second, func() { c.Process.Kill() })
	c.Run()
	timer.Stop()
	r := &result{status: c.ProcessState.ExitCode(), out: out.String(), message: errs.Len() > 0}
	filepath.Walk(dir, func(path string, f os.FileInfo, err error) error {
		if err != nil || path == dir {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		e := vos.Entry{Path: rel, Mode: f.Mode() & (os.ModeType | 0777)}
		switch {
		case f.Mode()&os.ModeSymlink != 0:
			e.Target, _ = os.Readlink(path)
		case f.Mode().IsRegular():
			b, _ := ioutil.ReadFile(path)
			e.Data = string(b)
		}
		r.files = append(r.files, e)
		return nil
	})
	return r
}
