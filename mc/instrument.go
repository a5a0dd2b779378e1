package main

// The instrumenter: copies the module under test, statement by statement
// unchanged, with a call of zzsched.P before every statement.

import (
	"bytes"
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed inst
var instFS embed.FS

const modPath = "github.com/suapapa/go_hangul"

// instrumented describes the copy.
type instrumented struct {
	Dir    string
	Bin    string // mc built against it
	Coarse string // why statements are no scheduling points
	Points int
	Files  int
	Vars   int
}

type insertion struct {
	at   int
	text string
	del  int // bytes to leave out at at
	seq  int
}

// instrument copies repo to dir.
func instrument(repo, dir string, coarse bool) (in instrumented, err error) {
	in.Dir = dir
	pos := []string{"(synchronisation)"}
	regs := map[string][]string{}
	pkgName := map[string]string{}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dir, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasSuffix(base, ".go") {
			fset := token.NewFileSet()
			f, perr := parser.ParseFile(fset, p, src, parser.ParseComments)
			if perr != nil {
				return perr
			}
			if f.Name.Name != "main" {
				why := ""
				src, why = instrumentFile(fset, f, src, rel, &pos, coarse, func(v string) {
					d := filepath.Dir(rel)
					pkgName[d] = f.Name.Name
					// platform files may not be part of this build
					if !constrained(f, base) {
						regs[d] = append(regs[d], v)
					}
				})
				if why != "" && in.Coarse == "" {
					in.Coarse = rel + ": " + why
				}
				in.Files++
			}
		}
		return os.WriteFile(filepath.Join(dir, rel), src, 0o644)
	})
	if err != nil {
		return in, err
	}
	for d, vs := range regs {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport zzsched \"%s/zzsched\"\n\nfunc init() {\n", pkgName[d], modPath)
		for _, v := range vs {
			fmt.Fprintf(&b, "\tzzsched.Reg(%q, &%s)\n", pkgName[d]+"."+v, v)
			in.Vars++
		}
		b.WriteString("}\n")
		if err := os.WriteFile(filepath.Join(dir, d, "zz_reg.go"), b.Bytes(), 0o644); err != nil {
			return in, err
		}
	}
	for _, f := range []string{"zzsched/sched.go", "zzsched/work.go", "zzsched/zsync/sync.go"} {
		b, err := instFS.ReadFile("inst/" + f)
		if err != nil {
			return in, err
		}
		os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return in, err
		}
	}
	var b bytes.Buffer
	b.WriteString("package zzsched\n\n// Pos is where each point stands.\nvar Pos = []string{\n")
	for _, p := range pos {
		fmt.Fprintf(&b, "\t%q,\n", p)
	}
	b.WriteString("}\n")
	in.Points = len(pos)
	return in, os.WriteFile(filepath.Join(dir, "zzsched/pos.go"), b.Bytes(), 0o644)
}

// constrained files depend on the platform or on build tags.
func constrained(f *ast.File, base string) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") || strings.HasPrefix(c.Text, "//+build") {
				return true
			}
		}
	}
	return strings.Count(strings.TrimSuffix(base, ".go"), "_") > 0 && knownSuffix(base)
}

func knownSuffix(base string) bool {
	n := strings.TrimSuffix(base, ".go")
	l := strings.Split(n, "_")
	switch l[len(l)-1] {
	case "linux", "windows", "darwin", "freebsd", "amd64", "arm64", "386", "arm", "js", "wasm", "unix":
		return true
	}
	return false
}

// pure expressions may be evaluated twice.
func pure(x ast.Expr) bool {
	switch x := x.(type) {
	case nil:
		return true
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.BinaryExpr:
		return pure(x.X) && pure(x.Y)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && (id.Name == "len" || id.Name == "cap") && id.Obj == nil && len(x.Args) == 1 && pure(x.Args[0])
	case *ast.SliceExpr:
		return pure(x.X) && (x.Low == nil || pure(x.Low)) && (x.High == nil || pure(x.High)) && (x.Max == nil || pure(x.Max))
	}
	return false
}

// worksOn are the packages of which zzsched/work.go counts the work.
var worksOn = map[string]string{"bytes": "Bytes", "strings": "Strings", "unicode/utf8": "Utf8"}

// workers are the functions it has.
var workers = func() map[string]bool {
	m := map[string]bool{}
	b, err := instFS.ReadFile("inst/zzsched/work.go")
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimPrefix(l, "func "); strings.Contains(l, "_") && strings.Contains(l, "(") {
			m[l[:strings.Index(l, "(")]] = true
		}
	}
	return m
}()

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, rel string, pos *[]string, coarse bool, reg func(string)) (out []byte, why string) {
	var ins []insertion
	add := func(at token.Pos, text string, del int) {
		ins = append(ins, insertion{fset.Position(at).Offset, text, del, len(ins)})
	}
	point := func(at token.Pos) {
		if coarse {
			return
		}
		p := fset.Position(at)
		*pos = append(*pos, fmt.Sprintf("%s:%d", rel, p.Line))
		add(at, fmt.Sprintf("zzsched.P(%d);", len(*pos)-1), 0)
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			point(s.Pos())
		}
	}
	used := false
	library := map[string]string{} // the names some packages are imported by
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		base := p[strings.LastIndex(p, "/")+1:]
		if worksOn[p] != "" {
			name := base
			if im.Name != nil {
				name = im.Name.Name
			}
			library[name] = base
		}
	}
	replaced := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// the blocks of switch and select hold clauses
			clauses := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if clauses {
				return true
			}
			if len(n.List) == 0 {
				point(n.Lbrace + 1)
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.CallExpr:
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && !coarse {
				if id, ok := sel.X.(*ast.Ident); ok && id.Obj == nil && library[id.Name] != "" {
					base := library[id.Name]
					name := strings.ToUpper(base[:1]) + base[1:] + "_" + sel.Sel.Name
					if workers[name] {
						add(sel.Pos(), "zzsched."+name, int(sel.End()-sel.Pos()))
						replaced[id.Name] = base
					}
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "copy" && id.Obj == nil && len(n.Args) == 2 && !coarse {
				add(n.Pos(), "zzsched.W(", 0)
				add(n.End(), ")", 0)
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && id.Obj == nil && n.Ellipsis.IsValid() && len(n.Args) == 2 && !coarse && pure(n.Args[1]) {
				// append(a, b...) moves len(b): append(a, (b)[zzsched.Z(len(b)):]...)
				x := n.Args[1]
				text := string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
				add(x.End(), "[zzsched.Z(len("+text+")):]", 0)
			}
		case *ast.GoStmt:
			why = "starts goroutines"
		case *ast.ChanType, *ast.SelectStmt:
			why = "uses channels"
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					reg(n.Name)
				}
			}
		}
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && !coarse {
			t := `"` + modPath + `/zzsched/zsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			add(im.Path.Pos(), t, len(im.Path.Value))
		}
	}
	for _, i := range ins {
		used = used || strings.Contains(i.text, "zzsched.")
	}
	if used {
		add(f.Name.End(), fmt.Sprintf(";import zzsched %q", modPath+"/zzsched"), 0)
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	// At one place, what closes comes before what opens.
	var b bytes.Buffer
	last := 0
	for i := 0; i < len(ins); {
		j := i
		for j < len(ins) && ins[j].at == ins[i].at {
			j++
		}
		grp := ins[i:j]
		b.Write(src[last:grp[0].at])
		last = grp[0].at
		for _, closing := range []bool{true, false} {
			for _, x := range grp {
				if (x.text == ")") == closing {
					b.WriteString(x.text)
					if x.del > 0 {
						last = x.at + x.del
					}
				}
			}
		}
		i = j
	}
	b.Write(src[last:])
	for name, base := range replaced {
		fmt.Fprintf(&b, "\nvar _ = %s.%s\n", name, map[string]string{"bytes": "Equal", "strings": "Index", "utf8": "ValidRune"}[base])
	}
	return b.Bytes(), why
}

// buildInst makes the instrumented copy and this program against it.
func buildInst() instrumented {
	tmp, mc := os.Getenv("VERIF_TMP"), os.Getenv("VERIF_MC")
	if tmp == "" || mc == "" {
		fmt.Println("VERIF_TMP and VERIF_MC are not set: run check.sh")
		os.Exit(2)
	}
	var log string
	for _, coarse := range []bool{false, true} {
		dir := filepath.Join(tmp, "inst")
		os.RemoveAll(dir)
		in, err := instrument(repoDir(), dir, coarse)
		if err == nil && in.Coarse != "" && !coarse {
			continue
		}
		if err == nil {
			in.Bin = filepath.Join(tmp, "mcinst")
			err = goBuild(mc, tmp, "inst.mod", dir, in.Bin, "-tags", "inst")
		}
		if err == nil {
			if coarse && in.Coarse == "" {
				in.Coarse = "the finely instrumented copy does not build: " + clip(log)
			}
			return in
		}
		log = err.Error()
	}
	fmt.Println("cannot build the instrumented copy:", log)
	os.Exit(2)
	return instrumented{}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// goBuild builds this program against the module in dir.
func goBuild(mc, tmp, modName, dir, bin string, flags ...string) error {
	mod, err := os.ReadFile(filepath.Join(mc, "go.mod"))
	if err != nil {
		return err
	}
	s := strings.Replace(string(mod), "=> /repo", "=> "+dir, 1)
	if err := os.WriteFile(filepath.Join(tmp, modName), []byte(s), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(mc, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(tmp, strings.TrimSuffix(modName, ".mod")+".sum"), sum, 0o644); err != nil {
		return err
	}
	args := append([]string{"build", "-modfile=" + filepath.Join(tmp, modName), "-o", bin}, flags...)
	c := exec.Command("go", append(args, ".")...)
	c.Dir = mc
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func init() {
	// -instrument DIR, for looking at the copy
	modes["-instrument"] = func(a []string) {
		in, err := instrument(repoDir(), a[0], false)
		fmt.Printf("%+v %v\n", in, err)
	}
}
