package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type writer struct {
	l      *loader
	p      *pkg
	src    []byte
	base   int // offset of the file in the file set
	file   *ast.File
	mem    bool
	shared map[types.Object]bool // local variables that other goroutines may reach
	inline int                   // > 0: in a simple statement of an if, for or switch
	n      int
	inits  int
}

func instrument(l *loader, p *pkg, dir string) {
	shared := sharedLocals(p)
	type initPart struct {
		name string
	}
	fileOf := map[*ast.File]int{}
	for i, f := range p.files {
		fileOf[f] = i
	}
	ws := make([]*writer, len(p.files))
	tails := make([]strings.Builder, len(p.files))
	for i, f := range p.files {
		ws[i] = &writer{l: l, p: p, src: p.srcs[i], base: int(l.fset.File(f.Pos()).Base()), file: f, mem: !p.harness || l.harnessMem, shared: shared, n: i * 100000}
	}
	// package variables: what resets them
	var order []string
	specOf := map[types.Object]*ast.ValueSpec{}
	specFile := map[types.Object]int{}
	for i, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if o := p.info.Defs[n]; o != nil {
						specOf[o] = vs
						specFile[o] = i
					}
				}
				if len(vs.Values) == 0 && vs.Type != nil {
					fn := fmt.Sprintf("gomcZero%d_%d", i, len(order))
					var b strings.Builder
					fmt.Fprintf(&b, "\nfunc %s() {\n", fn)
					for _, n := range vs.Names {
						if n.Name != "_" {
							fmt.Fprintf(&b, "\t%s = *new(%s)\n", n.Name, ws[i].raw(vs.Type))
						}
					}
					b.WriteString("}\n")
					tails[i].WriteString(b.String())
					order = append(order, fn)
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		var names []string
		blank := true
		fi := -1
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
			if i, ok := specFile[v]; ok {
				fi = i
			}
		}
		if blank {
			continue
		}
		if fi < 0 {
			continue
		}
		fn := fmt.Sprintf("gomcInit%d_%d", fi, len(order))
		fmt.Fprintf(&tails[fi], "\nfunc %s() {\n\t%s = %s\n}\n", fn, strings.Join(names, ", "), ws[fi].s(in.Rhs))
		order = append(order, fn)
	}
	var initFns []string
	for i, f := range p.files {
		w := ws[i]
		text, fns := w.render()
		initFns = append(initFns, fns...)
		text += tails[i].String()
		_ = f
		if err := os.WriteFile(filepath.Join(dir, p.names[i]), []byte(text), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport gomcrt \"verif/mc/gomc\"\n\nfunc init() {\n", p.types.Name())
	for _, f := range initFns {
		fmt.Fprintf(&b, "\t%s()\n", f)
	}
	fmt.Fprintf(&b, "\tgomcrt.OnReset(gomcReset)\n}\n\nfunc gomcReset() {\n")
	for _, f := range order {
		fmt.Fprintf(&b, "\t%s()\n", f)
	}
	for _, f := range initFns {
		if !p.harness {
			fmt.Fprintf(&b, "\t%s()\n", f)
		}
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "gomc_reset.go"), []byte(b.String()), 0o644); err != nil {
		fatal("%v", err)
	}
}

// sharedLocals finds local variables that a closure captures or whose address
// is taken.
func sharedLocals(p *pkg) map[types.Object]bool {
	out := map[types.Object]bool{}
	local := func(o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && v.Parent() != p.types.Scope() && v.Pkg() == p.types
	}
	for _, f := range p.files {
		var lits []*ast.FuncLit
		ast.Inspect(f, func(n ast.Node) bool {
			if lit, ok := n.(*ast.FuncLit); ok {
				lits = append(lits, lit)
			}
			return true
		})
		for _, lit := range lits {
			ast.Inspect(lit.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o := p.info.Uses[id]; o != nil && local(o) && (o.Pos() < lit.Pos() || o.Pos() >= lit.End()) {
						out[o] = true
					}
				}
				return true
			})
		}
		root := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.SelectorExpr:
					if t, ok := p.info.Types[x.X]; ok {
						if _, ptr := t.Type.Underlying().(*types.Pointer); !ptr {
							e = x.X
							continue
						}
					}
				case *ast.IndexExpr:
					if t, ok := p.info.Types[x.X]; ok {
						if _, arr := t.Type.Underlying().(*types.Array); arr {
							e = x.X
							continue
						}
					}
				case *ast.Ident:
					if o := p.info.Uses[x]; o != nil && local(o) {
						out[o] = true
					}
				}
				return
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					root(x.X)
				}
			case *ast.SliceExpr:
				if t, ok := p.info.Types[x.X]; ok {
					if _, arr := t.Type.Underlying().(*types.Array); arr {
						root(x.X)
					}
				}
			}
			return true
		})
	}
	return out
}

func (w *writer) off(p token.Pos) int { return int(p) - w.base }

func (w *writer) raw(n ast.Node) string { return string(w.src[w.off(n.Pos()):w.off(n.End())]) }

func (w *writer) site(n ast.Node) string {
	p := w.l.fset.Position(n.Pos())
	dir := ""
	if w.p.harness {
		dir = "harness/" // see gomc.Go
	}
	return strconv.Quote(fmt.Sprintf("%s%s:%d", dir, p.Filename, p.Line))
}

func (w *writer) tmp() string {
	w.n++
	return fmt.Sprintf("gomc_%d", w.n)
}

// render rewrites the whole file.
func (w *writer) render() (string, []string) {
	var b strings.Builder
	pos := 0
	var inits []string
	cut := func(to int) {
		b.Write(w.src[pos:to])
		pos = to
	}
	cut(w.off(w.file.Name.End()))
	b.WriteString("; import gomcrt \"verif/mc/gomc\"; var _ = gomcrt.InExec")
	// imports must precede other declarations: put the blank use at the end
	s := b.String()
	b.Reset()
	b.WriteString(strings.TrimSuffix(s, "; var _ = gomcrt.InExec"))
	for _, d := range w.file.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, sp := range d.Specs {
					im := sp.(*ast.ImportSpec)
					path, _ := strconv.Unquote(im.Path.Value)
					if shim, ok := shims[path]; ok && !(w.p.harness && im.Name != nil && im.Name.Name == "std"+filepath.Base(path)) {
						cut(w.off(im.Pos()))
						name := filepath.Base(path)
						if im.Name != nil {
							name = im.Name.Name
						}
						fmt.Fprintf(&b, "%s %q", name, shim)
						pos = w.off(im.End())
					}
				}
				continue
			}
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, v := range vs.Values {
					cut(w.off(v.Pos()))
					b.WriteString(w.s(v))
					pos = w.off(v.End())
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				cut(w.off(d.Name.Pos()))
				n := "gomcUserInit" + strings.TrimPrefix(w.tmp(), "gomc")
				b.WriteString(n)
				inits = append(inits, n)
				pos = w.off(d.Name.End())
			}
			if d.Body != nil {
				cut(w.off(d.Body.Pos()))
				b.WriteString(w.s(d.Body))
				pos = w.off(d.Body.End())
			}
		}
	}
	cut(len(w.src))
	b.WriteString("\nvar _ = gomcrt.InExec\n")
	return b.String(), inits
}

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		out = append(out, c)
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// splice is the source of n with its children rewritten.
func (w *writer) splice(n ast.Node) string {
	var b strings.Builder
	pos := w.off(n.Pos())
	for _, c := range children(n) {
		if w.off(c.Pos()) < pos {
			continue
		}
		b.Write(w.src[pos:w.off(c.Pos())])
		b.WriteString(w.s(c))
		pos = w.off(c.End())
	}
	b.Write(w.src[pos:w.off(n.End())])
	return b.String()
}

func (w *writer) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (w *writer) isType(e ast.Expr) bool {
	tv, ok := w.p.info.Types[e]
	return ok && tv.IsType()
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return tp.Underlying()
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isPtr(t types.Type) bool  { _, ok := under(t).(*types.Pointer); return ok }
func isSlice(t types.Type) bool {
	_, ok := under(t).(*types.Slice)
	return ok
}
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }
func isPtrArray(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && isArray(p.Elem())
}

// syncLike: types whose accesses are synchronisation, not data.
func syncLike(t types.Type) bool {
	switch x := t.(type) {
	case *types.Named:
		if o := x.Obj(); o.Pkg() != nil {
			switch o.Pkg().Path() {
			case "sync", "sync/atomic", "verif/mc/gomc", "verif/mc/vsync", "verif/mc/vatomic":
				return true
			}
		}
		return syncLike(x.Underlying())
	case *types.Alias:
		return syncLike(types.Unalias(x))
	case *types.Array:
		return syncLike(x.Elem())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if syncLike(x.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (w *writer) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := w.p.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// trackable: e denotes memory that other goroutines may reach.
func (w *writer) trackable(e ast.Expr) bool {
	if !w.mem {
		return false
	}
	t := w.typeOf(e)
	if t == nil || syncLike(t) {
		return false
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	return w.sharedMem(e)
}

func (w *writer) sharedMem(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.sharedMem(x.X)
	case *ast.Ident:
		v, ok := w.p.info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Parent() == w.p.types.Scope() {
			return true
		}
		return w.shared[v]
	case *ast.SelectorExpr:
		sel := w.p.info.Selections[x]
		if sel == nil { // pkg.Var
			v, ok := w.p.info.Uses[x.Sel].(*types.Var)
			return ok && !v.IsField() && v.Pkg() != nil && w.l.pkgs[v.Pkg().Path()] != nil
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() {
			return true
		}
		return w.sharedMem(x.X)
	case *ast.IndexExpr:
		t := w.typeOf(x.X)
		switch {
		case isSlice(t), isPtrArray(t):
			return true
		case isArray(t):
			return w.sharedMem(x.X)
		}
		return false
	case *ast.StarExpr:
		return !w.isType(x)
	}
	return false
}

// lval renders e as a place: what leads to it is read, e itself is not.
func (w *writer) lval(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + w.lval(x.X) + ")"
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		if w.p.info.Selections[x] == nil {
			return w.raw(x)
		}
		if isPtr(w.typeOf(x.X)) {
			return w.s(x.X) + "." + x.Sel.Name
		}
		return w.lval(x.X) + "." + x.Sel.Name
	case *ast.IndexExpr:
		t := w.typeOf(x.X)
		if isArray(t) {
			return w.lval(x.X) + "[" + w.s(x.Index) + "]"
		}
		return w.s(x.X) + "[" + w.s(x.Index) + "]"
	case *ast.StarExpr:
		return "(*" + w.s(x.X) + ")"
	}
	return w.s(e)
}

// hasCall: evaluating n may run other code or block.
func (w *writer) hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if w.isType(c.Fun) {
				return true
			}
			switch w.builtin(c.Fun) {
			case "len", "cap", "append", "make", "new", "min", "max", "copy":
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvExpr(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var mutators = map[string]bool{
	"Write": true, "WriteByte": true, "WriteRune": true, "WriteString": true, "WriteTo": true,
	"Read": true, "ReadByte": true, "ReadRune": true, "ReadString": true, "ReadBytes": true,
	"ReadFrom": true, "ReadSlice": true, "ReadLine": true, "Reset": true, "Truncate": true, "Grow": true,
	"Next": true, "UnreadByte": true, "UnreadRune": true, "Peek": true, "Discard": true, "Flush": true, "Seek": true,
}

// stdObject: a standard type with internal state whose methods the
// instrumentation does not see.
func stdObject(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.Reader", "bufio.Writer":
		return true
	}
	return false
}

// s rewrites any node.
func (w *writer) s(n ast.Node) string {
	switch x := n.(type) {
	case nil:
		return ""
	case *ast.FuncType, *ast.ArrayType, *ast.ChanType, *ast.InterfaceType, *ast.MapType, *ast.StructType, *ast.BasicLit:
		return w.raw(n)
	case *ast.FuncLit:
		old := w.inline
		w.inline = 0
		body := w.s(x.Body)
		w.inline = old
		return string(w.src[w.off(x.Pos()):w.off(x.Body.Pos())]) + body
	case *ast.GenDecl:
		if x.Tok != token.VAR {
			return w.raw(n)
		}
		return w.splice(n)
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := recvExpr(x.Values[0]); u != nil {
				return string(w.src[w.off(x.Pos()):w.off(x.Values[0].Pos())]) + w.recv2(u)
			}
		}
		var b strings.Builder
		pos := w.off(x.Pos())
		for _, v := range x.Values {
			b.Write(w.src[pos:w.off(v.Pos())])
			b.WriteString(w.s(v))
			pos = w.off(v.End())
		}
		b.Write(w.src[pos:w.off(x.End())])
		return b.String()
	case *ast.CompositeLit:
		var b strings.Builder
		pos := w.off(x.Pos())
		if x.Type != nil {
			b.WriteString(w.raw(x.Type))
			pos = w.off(x.Type.End())
		}
		isStruct := false
		t := w.typeOf(x)
		if t != nil {
			u := under(t)
			if p, ok := u.(*types.Pointer); ok {
				u = under(p.Elem())
			}
			_, isStruct = u.(*types.Struct)
		}
		for _, el := range x.Elts {
			b.Write(w.src[pos:w.off(el.Pos())])
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isStruct {
					b.WriteString(w.raw(kv.Key))
				} else {
					b.WriteString(w.mapKey(kv.Key, t))
				}
				b.Write(w.src[w.off(kv.Key.End()):w.off(kv.Value.Pos())])
				b.WriteString(w.s(kv.Value))
			} else {
				b.WriteString(w.s(el))
			}
			pos = w.off(el.End())
		}
		b.Write(w.src[pos:w.off(x.End())])
		return b.String()
	case *ast.Ident:
		if w.trackable(x) {
			return fmt.Sprintf("(*gomcrt.R(%s, &%s))", w.site(x), x.Name)
		}
		return x.Name
	case *ast.SelectorExpr:
		return w.selector(x)
	case *ast.IndexExpr:
		t := w.typeOf(x.X)
		if tv, ok := w.p.info.Types[x.X]; ok && (tv.IsType() || isFunc(tv.Type)) {
			return w.raw(x)
		}
		if isMap(t) {
			if !w.mem {
				return w.s(x.X) + "[" + w.s(x.Index) + "]"
			}
			return fmt.Sprintf("gomcrt.MR(%s, %s)[%s]", w.site(x), w.s(x.X), w.s(x.Index))
		}
		if w.trackable(x) {
			return fmt.Sprintf("(*gomcrt.R(%s, &%s))", w.site(x), w.lval(x))
		}
		return w.s(x.X) + "[" + w.s(x.Index) + "]"
	case *ast.IndexListExpr:
		return w.raw(x)
	case *ast.StarExpr:
		if w.isType(x) {
			return w.raw(x)
		}
		if w.trackable(x) {
			return fmt.Sprintf("(*gomcrt.R(%s, %s))", w.site(x), w.s(x.X))
		}
		return "*" + w.s(x.X)
	case *ast.SliceExpr:
		if isArray(w.typeOf(x.X)) {
			base := w.lval(x.X)
			return base + w.spliceFrom(x, x.X)
		}
		return w.splice(x)
	case *ast.TypeAssertExpr:
		if x.Type == nil {
			return w.s(x.X) + ".(type)"
		}
		return w.s(x.X) + ".(" + w.raw(x.Type) + ")"
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return fmt.Sprintf("gomcrt.Recv(%s, %s)", w.site(x), w.s(x.X))
		case token.AND:
			if _, lit := unparen(x.X).(*ast.CompositeLit); lit {
				return "&" + w.s(x.X)
			}
			return "&" + w.lval(x.X)
		}
		return w.splice(x)
	case *ast.CallExpr:
		return w.call(x)
	case *ast.SendStmt:
		return fmt.Sprintf("gomcrt.SendTo(%s, %s)(%s)", w.site(x), w.s(x.Chan), w.s(x.Value))
	case *ast.AssignStmt:
		return w.assign(x)
	case *ast.IncDecStmt:
		if ix, ok := unparen(x.X).(*ast.IndexExpr); ok && isMap(w.typeOf(ix.X)) {
			return w.mapPlace(ix) + x.Tok.String()
		}
		if w.trackable(x.X) {
			if !w.hasCall(x.X) {
				lv := w.lval(x.X)
				return fmt.Sprintf("gomcrt.Set(%s, &%s)(*gomcrt.R(%s, &%s) %s 1)", w.site(x), lv, w.site(x), lv, x.Tok.String()[:1])
			}
			return fmt.Sprintf("*gomcrt.W(%s, &%s)%s", w.site(x), w.lval(x.X), x.Tok)
		}
		return w.lval(x.X) + x.Tok.String()
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.SelectStmt:
		return w.selectStmt(x)
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.IfStmt:
		w.inline++
		init, cond := w.s2(x.Init), w.s(x.Cond)
		w.inline--
		body := w.block(x.Body)
		var b strings.Builder
		b.WriteString("if ")
		if x.Init != nil {
			b.WriteString(init + "; ")
		}
		b.WriteString(cond + " " + body)
		if x.Else != nil {
			b.WriteString(string(w.src[w.off(x.Body.End()):w.off(x.Else.Pos())]))
			b.WriteString(w.s(x.Else))
		}
		return w.keepLines(x, b.String())
	case *ast.ForStmt:
		w.inline++
		init, post := w.s2(x.Init), w.s2(x.Post)
		cond := ""
		if x.Cond != nil {
			cond = w.s(x.Cond)
		}
		w.inline--
		body := w.block(x.Body)
		if x.Init == nil && x.Post == nil {
			return w.keepLines(x, "for "+cond+" "+body)
		}
		return w.keepLines(x, "for "+init+"; "+cond+"; "+post+" "+body)
	case *ast.SwitchStmt:
		w.inline++
		init := w.s2(x.Init)
		tag := ""
		if x.Tag != nil {
			tag = w.s(x.Tag)
		}
		w.inline--
		if x.Init != nil {
			init += "; "
		}
		return w.keepLines(x, "switch "+init+tag+" "+w.block(x.Body))
	case *ast.TypeSwitchStmt:
		w.inline++
		init := w.s2(x.Init)
		as := w.s2(x.Assign)
		w.inline--
		if x.Init != nil {
			init += "; "
		}
		return w.keepLines(x, "switch "+init+as+" "+w.block(x.Body))
	case *ast.CaseClause:
		var b strings.Builder
		pos := w.off(x.Pos())
		for _, e := range x.List {
			b.Write(w.src[pos:w.off(e.Pos())])
			if w.isType(e) {
				b.WriteString(w.raw(e))
			} else {
				b.WriteString(w.s(e))
			}
			pos = w.off(e.End())
		}
		for _, st := range x.Body {
			b.Write(w.src[pos:w.off(st.Pos())])
			b.WriteString(w.s(st))
			pos = w.off(st.End())
		}
		b.Write(w.src[pos:w.off(x.End())])
		return b.String()
	case *ast.LabeledStmt:
		return x.Label.Name + ":" + string(w.src[w.off(x.Colon)+1:w.off(x.Stmt.Pos())]) + w.s(x.Stmt)
	case *ast.BranchStmt:
		return w.raw(x)
	case *ast.BlockStmt:
		return w.block(x)
	}
	return w.splice(n)
}

func (w *writer) keepLines(n ast.Node, s string) string { return s }

func isFunc(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Signature)
	return ok
}

func (w *writer) s2(st ast.Stmt) string {
	if st == nil {
		return ""
	}
	return w.s(st)
}

// block renders a block statement with statement-level notes allowed.
func (w *writer) block(b *ast.BlockStmt) string {
	old := w.inline
	w.inline = 0
	s := w.splice(b)
	w.inline = old
	return s
}

// spliceFrom renders what follows child c in n.
func (w *writer) spliceFrom(n ast.Node, c ast.Node) string {
	var b strings.Builder
	pos := w.off(c.End())
	for _, k := range children(n) {
		if w.off(k.Pos()) < pos {
			continue
		}
		b.Write(w.src[pos:w.off(k.Pos())])
		b.WriteString(w.s(k))
		pos = w.off(k.End())
	}
	b.Write(w.src[pos:w.off(n.End())])
	return b.String()
}

func (w *writer) selector(x *ast.SelectorExpr) string {
	sel := w.p.info.Selections[x]
	if sel == nil { // qualified identifier
		if w.trackable(x) {
			return fmt.Sprintf("(*gomcrt.R(%s, &%s))", w.site(x), w.raw(x))
		}
		return w.raw(x)
	}
	switch sel.Kind() {
	case types.FieldVal:
		if w.trackable(x) {
			return fmt.Sprintf("(*gomcrt.R(%s, &%s))", w.site(x), w.lval(x))
		}
		if isPtr(w.typeOf(x.X)) {
			return w.s(x.X) + "." + x.Sel.Name
		}
		if w.addressable(x.X) {
			return w.lval(x.X) + "." + x.Sel.Name
		}
		return w.s(x.X) + "." + x.Sel.Name
	case types.MethodVal:
		recvT := w.typeOf(x.X)
		fn := sel.Obj().(*types.Func)
		sig := fn.Type().(*types.Signature)
		ptrRecv := sig.Recv() != nil && isPtr(sig.Recv().Type())
		if !isPtr(recvT) && ptrRecv && w.addressable(x.X) {
			// x.f.M() takes the address of x.f
			if w.mem && stdObject(recvT) && w.sharedMem(x.X) {
				return fmt.Sprintf("gomcrt.%s(%s, &%s).%s", rw(x.Sel.Name), w.site(x), w.lval(x.X), x.Sel.Name)
			}
			return w.lval(x.X) + "." + x.Sel.Name
		}
		if w.mem && isPtr(recvT) && stdObject(recvT) {
			return fmt.Sprintf("gomcrt.%s(%s, %s).%s", rw(x.Sel.Name), w.site(x), w.s(x.X), x.Sel.Name)
		}
		if syncLike(recvT) && w.addressable(x.X) {
			return w.lval(x.X) + "." + x.Sel.Name
		}
		if w.mem && mutators[x.Sel.Name] && types.IsInterface(recvT) {
			return fmt.Sprintf("gomcrt.IO(%s, %s).%s", w.site(x), w.s(x.X), x.Sel.Name)
		}
		return w.s(x.X) + "." + x.Sel.Name
	}
	return w.raw(x) // method expression
}

func rw(method string) string {
	if mutators[method] {
		return "W"
	}
	return "R"
}

func (w *writer) addressable(e ast.Expr) bool {
	tv, ok := w.p.info.Types[e]
	if ok {
		return tv.Addressable()
	}
	if id, ok := e.(*ast.Ident); ok {
		_, v := w.p.info.ObjectOf(id).(*types.Var)
		return v
	}
	return false
}

func (w *writer) recv2(u *ast.UnaryExpr) string {
	return fmt.Sprintf("gomcrt.Recv2(%s, %s)", w.site(u), w.s(u.X))
}

func (w *writer) call(x *ast.CallExpr) string {
	if w.isType(x.Fun) { // conversion
		return w.raw(x.Fun) + w.spliceFrom(x, x.Fun)
	}
	b := w.builtin(x.Fun)
	switch b {
	case "close":
		return fmt.Sprintf("gomcrt.Close(%s, %s)", w.site(x), w.s(x.Args[0]))
	case "len":
		t := w.typeOf(x.Args[0])
		if isChan(t) {
			return fmt.Sprintf("gomcrt.Len(%s, %s)", w.site(x), w.s(x.Args[0]))
		}
		if isMap(t) && w.mem {
			return fmt.Sprintf("len(gomcrt.MR(%s, %s))", w.site(x), w.s(x.Args[0]))
		}
		if isArray(t) || isPtrArray(t) {
			return w.raw(x)
		}
	case "cap":
		if isArray(w.typeOf(x.Args[0])) {
			return w.raw(x)
		}
	case "copy":
		if w.mem {
			d, s := w.s(x.Args[0]), w.s(x.Args[1])
			d = fmt.Sprintf("gomcrt.WS(%s, %s)", w.site(x), d)
			if isSlice(w.typeOf(x.Args[1])) {
				s = fmt.Sprintf("gomcrt.RS(%s, %s)", w.site(x), s)
			}
			return "copy(" + d + ", " + s + ")"
		}
	case "delete":
		if w.mem {
			return fmt.Sprintf("delete(gomcrt.MW(%s, %s), %s)", w.site(x), w.s(x.Args[0]), w.s(x.Args[1]))
		}
	case "clear":
		if w.mem && isMap(w.typeOf(x.Args[0])) {
			return fmt.Sprintf("clear(gomcrt.MW(%s, %s))", w.site(x), w.s(x.Args[0]))
		}
	case "append":
		if w.mem && isSlice(w.typeOf(x.Args[0])) && len(x.Args) > 1 {
			if t, ok := under(w.typeOf(x)).(*types.Slice); ok && !x.Ellipsis.IsValid() {
				_ = t
				first := w.s(x.Args[0])
				return fmt.Sprintf("append(gomcrt.AP(%s, %s, %d)", w.site(x), first, len(x.Args)-1) + w.spliceFrom(x, x.Args[0])
			}
			if x.Ellipsis.IsValid() && isSlice(w.typeOf(x.Args[1])) {
				return fmt.Sprintf("gomcrt.APS(%s, %s, %s)", w.site(x), w.s(x.Args[0]), w.s(x.Args[1]))
			}
		}
	case "make", "new":
		return b + "(" + w.raw(x.Args[0]) + w.spliceFrom(x, x.Args[0])
	}
	if b == "" && w.mem {
		if f := w.callee(x); f != nil && f.Pkg() != nil {
			_, ours := w.l.pkgs[f.Pkg().Path()]
			iface := false
			if r := f.Signature().Recv(); r != nil {
				iface = types.IsInterface(r.Type())
			}
			if (!ours || iface) && shims[f.Pkg().Path()] == "" && !strings.HasPrefix(f.Pkg().Path(), "verif/mc") {
				return w.foreign(x, f)
			}
		}
	}
	return w.splice(x)
}

// callee is the function or method called, if it is known.
func (w *writer) callee(x *ast.CallExpr) *types.Func {
	switch f := unparen(x.Fun).(type) {
	case *ast.Ident:
		fn, _ := w.p.info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := w.p.info.Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

// foreign renders a call of code that is not instrumented: what it does to the
// memory it is given is noted here.
func (w *writer) foreign(x *ast.CallExpr, f *types.Func) string {
	var b strings.Builder
	b.WriteString(w.s(x.Fun))
	pos := w.off(x.Fun.End())
	for i, a := range x.Args {
		b.Write(w.src[pos:w.off(a.Pos())])
		t := w.typeOf(a)
		tv := w.p.info.Types[a]
		s := w.s(a)
		switch {
		case t == nil || tv.Value != nil || tv.IsNil() || !tv.IsValue():
		case x.Ellipsis.IsValid() && i == len(x.Args)-1:
		case isSlice(t):
			if writesArg(f.Name()) {
				s = fmt.Sprintf("gomcrt.WS(%s, %s)", w.site(a), s)
			} else {
				s = fmt.Sprintf("gomcrt.RS(%s, %s)", w.site(a), s)
			}
		case isPtr(t) && stdObject(t):
			s = fmt.Sprintf("gomcrt.W(%s, %s)", w.site(a), s)
		case types.IsInterface(t):
			if it, ok := under(t).(*types.Interface); ok && it.NumMethods() > 0 {
				s = fmt.Sprintf("gomcrt.IO(%s, %s)", w.site(a), s)
			}
		}
		b.WriteString(s)
		pos = w.off(a.End())
	}
	b.Write(w.src[pos:w.off(x.End())])
	return b.String()
}

// writesArg: a function of that name writes to the slice it is given.
func writesArg(name string) bool {
	return strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "Put") || name == "Encode" || name == "Decode" ||
		strings.HasPrefix(name, "Sort") || name == "Reverse"
}

func (w *writer) mapPlace(ix *ast.IndexExpr) string {
	key := w.mapKey(ix.Index, w.typeOf(ix.X))
	if !w.mem {
		return w.s(ix.X) + "[" + key + "]"
	}
	return fmt.Sprintf("gomcrt.MW(%s, %s)[%s]", w.site(ix), w.s(ix.X), key)
}

// mapKey notes the order in which keys enter maps, for keys without a value of
// their own (pointers, channels) by which to order them.
func (w *writer) mapKey(e ast.Expr, m types.Type) string {
	mt, ok := under(m).(*types.Map)
	if !ok {
		return w.s(e)
	}
	if _, basic := under(mt.Key()).(*types.Basic); basic {
		return w.s(e)
	}
	if tv, ok := w.p.info.Types[e]; ok && tv.IsNil() {
		return w.s(e)
	}
	if lit, ok := unparen(e).(*ast.CompositeLit); ok && lit.Type == nil {
		return w.s(e)
	}
	return "gomcrt.K(" + w.s(e) + ")"
}

func (w *writer) assign(x *ast.AssignStmt) string {
	rhs := make([]string, len(x.Rhs))
	for i, e := range x.Rhs {
		rhs[i] = w.s(e)
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u := recvExpr(x.Rhs[0]); u != nil {
			rhs[0] = w.recv2(u)
		}
	}
	if x.Tok == token.DEFINE {
		var l []string
		for _, e := range x.Lhs {
			l = append(l, w.raw(e))
		}
		return strings.Join(l, ", ") + " := " + strings.Join(rhs, ", ")
	}
	calls := false
	for _, e := range x.Rhs {
		if w.hasCall(e) {
			calls = true
		}
	}
	if e := x.Lhs[0]; len(x.Lhs) == 1 && !isBlank(e) && !calls && !w.hasCall(e) && w.trackable(e) {
		if ix, ok := unparen(e).(*ast.IndexExpr); !ok || !isMap(w.typeOf(ix.X)) {
			// the value is computed first; the write is a step of its own
			lv, v := w.lval(e), rhs[0]
			if op := strings.TrimSuffix(x.Tok.String(), "="); op != "" {
				v = fmt.Sprintf("*gomcrt.R(%s, &%s) %s (%s)", w.site(x), lv, op, v)
			}
			return fmt.Sprintf("gomcrt.Set(%s, &%s)(%s)", w.site(x), lv, v)
		}
	}
	var l, post []string
	for _, e := range x.Lhs {
		if isBlank(e) {
			l = append(l, "_")
			continue
		}
		if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(w.typeOf(ix.X)) {
			l = append(l, w.mapPlace(ix))
			continue
		}
		if w.trackable(e) {
			if !calls {
				l = append(l, fmt.Sprintf("*gomcrt.W(%s, &%s)", w.site(e), w.lval(e)))
				continue
			}
			if w.inline == 0 && !w.hasCall(e) {
				post = append(post, fmt.Sprintf("; gomcrt.WA(%s, &%s)", w.site(e), w.lval(e)))
			}
		}
		l = append(l, w.lval(e))
	}
	return strings.Join(l, ", ") + " " + x.Tok.String() + " " + strings.Join(rhs, ", ") + strings.Join(post, "")
}

func (w *writer) goStmt(x *ast.GoStmt) string {
	c := x.Call
	site := w.site(x)
	if w.builtin(c.Fun) != "" {
		return fmt.Sprintf("gomcrt.Go(%s, func() { %s })", site, w.s(c))
	}
	var pre, args []string
	fun := ""
	if lit, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		fun = w.s(lit)
	} else {
		v := w.tmp()
		pre = append(pre, fmt.Sprintf("%s := %s", v, w.s(c.Fun)))
		fun = v
	}
	sig, _ := under(w.typeOf(c.Fun)).(*types.Signature)
	for i, a := range c.Args {
		tv := w.p.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, w.raw(a))
			continue
		}
		v := w.tmp()
		pre = append(pre, fmt.Sprintf("%s := %s", v, w.s(a)))
		if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
			args = append(args, v+"...")
		} else {
			args = append(args, v)
		}
	}
	_ = sig
	if len(c.Args) == 0 && len(pre) == 0 {
		return fmt.Sprintf("gomcrt.Go(%s, %s)", site, fun)
	}
	s := strings.Join(pre, "; ")
	if s != "" {
		s += "; "
	}
	return fmt.Sprintf("{ %sgomcrt.Go(%s, func() { %s(%s) }) }", s, site, fun, strings.Join(args, ", "))
}

func (w *writer) selectStmt(x *ast.SelectStmt) string {
	if len(x.Body.List) == 0 {
		return fmt.Sprintf("gomcrt.SelfBlock(%s)", w.site(x))
	}
	var names, inits []string
	hasDef := false
	var b strings.Builder
	pos := w.off(x.Body.Lbrace) + 1
	i := 0
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		b.Write(w.src[pos:w.off(cc.Pos())])
		head := ""
		if cc.Comm == nil {
			hasDef = true
			head = "default:"
		} else {
			v := w.tmp()
			names = append(names, v)
			head = fmt.Sprintf("case %d:", i)
			i++
			w.inline++
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				inits = append(inits, fmt.Sprintf("gomcrt.SendCase(%s)(%s)", w.s(s.Chan), w.s(s.Value)))
			case *ast.ExprStmt:
				u := recvExpr(s.X)
				inits = append(inits, fmt.Sprintf("gomcrt.RecvCase(%s)", w.s(u.X)))
			case *ast.AssignStmt:
				u := recvExpr(s.Rhs[0])
				inits = append(inits, fmt.Sprintf("gomcrt.RecvCase(%s)", w.s(u.X)))
				var l []string
				for _, e := range s.Lhs {
					if s.Tok == token.DEFINE || isBlank(e) {
						l = append(l, w.raw(e))
					} else if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(w.typeOf(ix.X)) {
						l = append(l, w.mapPlace(ix))
					} else if w.trackable(e) {
						l = append(l, fmt.Sprintf("*gomcrt.W(%s, &%s)", w.site(e), w.lval(e)))
					} else {
						l = append(l, w.lval(e))
					}
				}
				allBlank := s.Tok == token.DEFINE
				for _, e := range s.Lhs {
					if !isBlank(e) {
						allBlank = false
					}
				}
				tok := s.Tok.String()
				if allBlank {
					tok = "="
				}
				r := v + ".Val()"
				if len(s.Lhs) == 2 {
					r += ", " + v + ".OK()"
				}
				head += " " + strings.Join(l, ", ") + " " + tok + " " + r + ";"
			}
			w.inline--
		}
		b.WriteString(head)
		pos = w.off(cc.Colon) + 1
		old := w.inline
		w.inline = 0
		for _, s := range cc.Body {
			b.Write(w.src[pos:w.off(s.Pos())])
			b.WriteString(w.s(s))
			pos = w.off(s.End())
		}
		w.inline = old
	}
	b.Write(w.src[pos:w.off(x.Body.Rbrace)])
	if !hasDef {
		b.WriteString("\n;default: panic(\"gomc: unreachable\")\n")
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	args := ""
	if len(names) > 0 {
		args = ", " + strings.Join(names, ", ")
	}
	return fmt.Sprintf("switch %sgomcrt.Select(%s, %v%s) {%s}", init, w.site(x), hasDef, args, b.String())
}

func (w *writer) rangeStmt(x *ast.RangeStmt) string {
	t := w.typeOf(x.X)
	body := w.block(x.Body)
	inner := body[1:] // after {
	bind := func(e ast.Expr) (string, bool) {
		if e == nil || isBlank(e) {
			return "", false
		}
		if x.Tok == token.DEFINE {
			return w.raw(e), true
		}
		return w.lval(e), true
	}
	tok := x.Tok.String()
	switch {
	case isChan(t):
		c, ok := w.tmp(), w.tmp()
		v, has := bind(x.Key)
		site := w.site(x)
		val := w.tmp()
		s := fmt.Sprintf("for %s := %s; ; { %s, %s := gomcrt.Recv2(%s, %s); if !%s { break }; ", c, w.s(x.X), val, ok, site, c, ok)
		if has {
			s += fmt.Sprintf("%s %s %s; ", v, tok, val)
		} else {
			s += fmt.Sprintf("_ = %s; ", val)
		}
		return s + inner
	case isMap(t):
		it := w.tmp()
		s := fmt.Sprintf("for %s := gomcrt.RangeMap(%s, %s); %s.Next(); { ", it, w.site(x), w.s(x.X), it)
		if k, has := bind(x.Key); has {
			s += fmt.Sprintf("%s %s %s.Key(); ", k, tok, it)
		}
		if v, has := bind(x.Value); has {
			s += fmt.Sprintf("%s %s %s.Value(); ", v, tok, it)
		}
		return s + inner
	}
	head := "for "
	if x.Key != nil {
		k, _ := bind(x.Key)
		if k == "" {
			k = "_"
		}
		head += k
		if x.Value != nil {
			v, _ := bind(x.Value)
			if v == "" {
				v = "_"
			}
			head += ", " + v
		}
		head += " " + tok + " "
	}
	xs := w.s(x.X)
	if isArray(t) {
		xs = w.lval(x.X)
	}
	return head + "range " + xs + " " + body
}
