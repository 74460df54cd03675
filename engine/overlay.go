package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// models are the packages that stand in for library packages in the command.
var models = map[string]string{
	"os": "zz_os", "io/ioutil": "zz_ioutil", "path/filepath": "zz_filepath", "log": "zz_log", "flag": "zz_flag", "fmt": "zz_fmt",
}

// shared are the harness files that both harness packages use.
var shared = []string{"ref.go", "gen.go", "templates.go", "fmtbase.go"}

// overlayMap returns the map of virtual file to real file for a harness package ("verif" or "cli").
func overlayMap(verif, repo, dir, pkg string, native bool) (map[string]string, error) {
	out := map[string]string{}
	add := func(from, to string) {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", from))
		for _, f := range fs {
			if strings.HasSuffix(f, "_native.go") && !native || strings.HasSuffix(f, "_engine.go") && native {
				continue
			}
			out[filepath.Join(repo, to, filepath.Base(f))] = f
		}
	}
	add("vrt/*.go", "zz_vrt")
	for _, m := range models {
		add("model/"+m+"/*.go", m)
	}
	if err := rewriteLibrary(repo, dir, out); err != nil {
		return nil, err
	}
	switch pkg {
	case "verif":
		add("verif/*.go", "zz_verif")
	case "cli":
		add("cli/*.go", "zz_clih")
		for _, f := range shared {
			add("verif/"+f, "zz_clih")
		}
		if err := rewriteCommand(repo, dir, out); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("no harness package %s", pkg)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no harness files under %s", verif)
	}
	return out, nil
}

// rewriteLibrary has the files of the library packages that open files use the models of the packages they open them
// with; nothing else changes.
func rewriteLibrary(repo, dir string, out map[string]string) error {
	set := map[string]string{}
	for _, p := range []string{"os", "io/ioutil", "path/filepath"} {
		set[p] = models[p]
	}
	for _, pkg := range []string{".", "parse", "format"} {
		fs, _ := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			to, err := rewriteFile(f, src, set, "")
			if err != nil {
				return err
			}
			if bytes.Equal(to, src) {
				continue
			}
			name := filepath.Join(dir, "zz_lib", pkg, filepath.Base(f))
			os.MkdirAll(filepath.Dir(name), 0o755)
			if err := os.WriteFile(name, to, 0o644); err != nil {
				return err
			}
			out[filepath.Join(repo, pkg, filepath.Base(f))] = name
		}
	}
	return nil
}

// rewriteCommand copies the files of package main in /repo/cljfmt to a package cli whose library packages are the
// models and whose entry point is Main; nothing else changes.
func rewriteCommand(repo, dir string, out map[string]string) error {
	fs, _ := filepath.Glob(filepath.Join(repo, "cljfmt", "*.go"))
	os.MkdirAll(filepath.Join(dir, "zz_cli"), 0o755)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		src, err = rewriteFile(f, src, models, "cli")
		if err != nil {
			return err
		}
		to := filepath.Join(dir, "zz_cli", filepath.Base(f))
		if err := os.WriteFile(to, src, 0o644); err != nil {
			return err
		}
		out[filepath.Join(repo, "zz_cli", filepath.Base(f))] = to
	}
	return nil
}

// rewriteFile changes the imports in models, and with pkg the package name and that of main.
func rewriteFile(name string, src []byte, models map[string]string, pkg string) ([]byte, error) {
	set := token.NewFileSet()
	f, err := parser.ParseFile(set, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, n int
		text   string
	}
	var eds []edit
	put := func(n ast.Node, text string) {
		off := set.Position(n.Pos()).Offset
		eds = append(eds, edit{off, set.Position(n.End()).Offset - off, text})
	}
	if pkg != "" {
		put(f.Name, pkg)
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		m, ok := models[p]
		if !ok {
			continue
		}
		q := strconv.Quote(modPath + "/" + m)
		if im.Name == nil {
			q = p[strings.LastIndex(p, "/")+1:] + " " + q
		}
		put(im.Path, q)
	}
	for _, d := range f.Decls {
		if pkg == "" {
			break
		}
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			put(fd.Name, "Main")
		}
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var b bytes.Buffer
	at := 0
	for _, e := range eds {
		b.Write(src[at:e.off])
		b.WriteString(e.text)
		at = e.off + e.n
	}
	b.Write(src[at:])
	return b.Bytes(), nil
}

func writeOverlay(verif, repo, dir, pkg, file string) error {
	ov, err := overlayMap(verif, repo, dir, pkg, true)
	if err != nil {
		return err
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	return os.WriteFile(file, b, 0o644)
}
