// Command instr copies the packages a harness needs, with every channel,
// goroutine, synchronisation and memory operation redirected to the model
// checker (package gomc). It works on types, not on names: any Go source that
// compiles is accepted.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":        "verif/mc/vsync",
	"sync/atomic": "verif/mc/vatomic",
	"crypto/rand": "verif/mc/vcrand",
	"net":         "verif/mc/vnet",
	"time":        "verif/mc/vtime",
	"context":     "verif/mc/vcontext",
	"maps":        "verif/mc/vmaps",

	"math/rand":    "verif/mc/vmrand",
	"math/rand/v2": "verif/mc/vmrand2",
}

type pkg struct {
	path    string
	dir     string
	files   []*ast.File
	names   []string
	srcs    [][]byte
	types   *types.Package
	info    *types.Info
	imports []string
	harness bool
}

type loader struct {
	repo, module string
	stub         string
	mc           string
	harnessDir   string
	harnessPath  string
	harnessMem   bool
	fset         *token.FileSet
	pkgs         map[string]*pkg
	order        []*pkg
	std          map[string]bool
	imp          types.Importer
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func (l *loader) dirOf(path string) (string, bool) {
	switch {
	case path == l.harnessPath:
		return l.harnessDir, true
	case path == l.module:
		return l.repo, true
	case strings.HasPrefix(path, l.module+"/"):
		return filepath.Join(l.repo, strings.TrimPrefix(path, l.module+"/")), true
	case path == "github.com/WatchBeam/amf0":
		return l.stub, true
	case strings.HasPrefix(path, "github.com/WatchBeam/amf0/"):
		return filepath.Join(l.stub, strings.TrimPrefix(path, "github.com/WatchBeam/amf0/")), true
	}
	return "", false
}

// parse loads path and, recursively, the packages of ours that it imports.
func (l *loader) parse(path string) {
	if l.pkgs[path] != nil {
		return
	}
	dir, ok := l.dirOf(path)
	if !ok {
		l.std[path] = true
		return
	}
	p := &pkg{path: path, dir: dir, harness: path == l.harnessPath}
	l.pkgs[path] = p
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	ctx := build.Default
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if m, err := ctx.MatchFile(dir, n); err != nil || !m {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			fatal("%v", err)
		}
		rel := filepath.Join(dir, n)
		if r, err := filepath.Rel(l.repo, rel); err == nil && !strings.HasPrefix(r, "..") {
			rel = r
		} else {
			rel = filepath.Base(dir) + "/" + n
		}
		f, err := parser.ParseFile(l.fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.srcs = append(p.srcs, src)
	}
	if len(p.files) == 0 {
		fatal("no Go files in %s", dir)
	}
	for _, f := range p.files {
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			p.imports = append(p.imports, s)
			if s != "unsafe" {
				l.parse(s)
			}
		}
	}
	l.order = append(l.order, p)
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := l.pkgs[path]; p != nil {
		if p.types == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return p.types, nil
	}
	return l.imp.Import(path)
}

func (l *loader) check() {
	var list []string
	for s := range l.std {
		list = append(list, s)
	}
	sort.Strings(list)
	exports := map[string]string{}
	if len(list) > 0 {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, list...)...)
		cmd.Dir = l.mc
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			fatal("go list: %v\n%s", err, eb.String())
		}
		for _, ln := range strings.Split(string(out), "\n") {
			if a, b, ok := strings.Cut(ln, "\t"); ok {
				exports[a] = b
			}
		}
	}
	l.imp = importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	for _, p := range l.order {
		p.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Instances:  map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: l, GoVersion: "go1.27"}
		tp, err := conf.Check(p.path, l.fset, p.files, p.info)
		if err != nil {
			fatal("%v", err)
		}
		p.types = tp
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	module := flag.String("module", "github.com/WatchBeam/rtmp", "")
	mc := flag.String("mc", "/verif/mc", "")
	harness := flag.String("harness", "", "directory of the harness package")
	out := flag.String("out", "", "")
	harnessMem := flag.Bool("harnessmem", false, "track memory in the harness too")
	flag.Parse()
	l := &loader{
		repo: *repo, module: *module, stub: filepath.Join(*mc, "stubs/amf0"), mc: *mc,
		harnessDir: *harness, harnessPath: *module + "/verifharness/" + filepath.Base(*harness),
		harnessMem: *harnessMem, fset: token.NewFileSet(), pkgs: map[string]*pkg{}, std: map[string]bool{},
	}
	l.parse(l.harnessPath)
	l.check()
	for _, p := range l.order {
		if strings.HasPrefix(p.path, "github.com/WatchBeam/amf0") {
			continue // used as it is, through a replace directive
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.path, *module), "/")
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%v", err)
		}
		instrument(l, p, dir)
	}
	gomod := fmt.Sprintf("module %s\n\ngo 1.27\n\nrequire (\n\tverif/mc v0.0.0\n\tgithub.com/WatchBeam/amf0 v0.0.0\n)\n\nreplace verif/mc => %s\n\nreplace github.com/WatchBeam/amf0 => %s\n", *module, *mc, l.stub)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gomod), 0o644); err != nil {
		fatal("%v", err)
	}
	var names []string
	for _, p := range l.order {
		names = append(names, p.path)
	}
	json.NewEncoder(os.Stdout).Encode(names)
}
