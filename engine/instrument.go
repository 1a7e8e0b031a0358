package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrumented are the calls of the operating system in the program itself that harnesses may let fail
// or end the process at: "os.X(" becomes "zzverifrt.OsX(", which calls the hook of the harness (if any)
// and then os.X. The same text is used for the symbolic execution and for the native replay.
var instrumented = map[string]string{
	"os.Rename": "OsRename", "os.Remove": "OsRemove", "os.Create": "OsCreate", "os.CreateTemp": "OsCreateTemp",
	"os.WriteFile": "OsWriteFile", "os.ReadFile": "OsReadFile", "os.Open": "OsOpen", "os.OpenFile": "OsOpenFile",
	"os.Stat": "OsStat", "os.MkdirAll": "OsMkdirAll", "os.Mkdir": "OsMkdir", "os.Chtimes": "OsChtimes", "os.Link": "OsLink",
	"io.Copy": "IoCopy",
}

// instrument rewrites the calls in one source file. Lines stay where they are.
func instrument(path string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return nil
	}
	names := map[string]string{} // name in this file -> package
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, `"`)
		if p != "os" && p != "io" {
			continue
		}
		if i.Name != nil {
			return nil
		}
		names[p] = p
	}
	if len(names) == 0 {
		return nil
	}
	shadowed := false
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && names[id.Name] != "" {
					if t := instrumented[id.Name+"."+s.Sel.Name]; t != "" {
						edits = append(edits, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, "zzverifrt." + t})
						used[id.Name] = true
					}
				}
			}
		case *ast.Field:
			for _, id := range x.Names {
				shadowed = shadowed || names[id.Name] != ""
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					shadowed = shadowed || names[id.Name] != ""
				}
			}
		case *ast.ValueSpec:
			for _, id := range x.Names {
				shadowed = shadowed || names[id.Name] != ""
			}
		}
		return true
	})
	if shadowed || len(edits) == 0 {
		return nil
	}
	at := fset.Position(f.Name.End()).Offset
	edits = append(edits, edit{at, at, "; import zzverifrt \"wiki2book/verifrt\""})
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.from])
		out.WriteString(e.text)
		last = e.to
	}
	out.Write(src[last:])
	if used["os"] {
		out.WriteString("\nvar _ os.FileMode\n")
	}
	if used["io"] {
		out.WriteString("\nvar _ io.Reader\n")
	}
	return out.Bytes()
}

// instrumentedSources returns the rewritten source files of the program.
func instrumentedSources() map[string][]byte {
	m := map[string][]byte{}
	for _, d := range []string{".", "cache", "config", "generator", "http", "image", "util", "wikipedia"} {
		files, _ := filepath.Glob(filepath.Join(srcDir(), d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatalf("%v", err)
			}
			if b := instrument(f, src); b != nil {
				m[f] = b
			}
		}
	}
	return m
}

// writeInstrumented stores the rewritten files for the native build.
func writeInstrumented(dir string, repl map[string]string) error {
	n := 0
	for f, b := range curInstrumented {
		n++
		p := filepath.Join(dir, fmt.Sprintf("instrumented%d.go", n))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return err
		}
		repl[f] = p
	}
	return nil
}

var curInstrumented map[string][]byte
