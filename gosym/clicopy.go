package main

import (
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// cliCopy turns the command line tool into a package the harness can call:
// its source with another package name, its main reachable as Main, and its
// exits turned into panics that Main catches. It is made from the current
// source on every run and used by both the engine and the replay.
func cliCopy(repo string) map[string][]byte {
	dst := filepath.Join(repo, "zzverif", "climain")
	out := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(repo, "cli", "*.go"))
	hasMain := false
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil || af.Name.Name != "main" {
			continue
		}
		af.Name.Name = "climain"
		osName := ""
		for _, im := range af.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == "os" {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		if osName != "" {
			ast.Inspect(af, func(n ast.Node) bool {
				se, ok := n.(*ast.SelectorExpr)
				if ok && se.Sel.Name == "Exit" {
					if id, ok := se.X.(*ast.Ident); ok && id.Name == osName {
						id.Name, se.Sel.Name = "zzexit", "Exit"
					}
				}
				return true
			})
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				hasMain = true
			}
		}
		var sb strings.Builder
		if format.Node(&sb, fset, af) != nil {
			return map[string][]byte{filepath.Join(dst, "main.go"): []byte(cliStub)}
		}
		text := sb.String()
		if osName != "" && osName != "_" && osName != "." {
			text += "\nvar _ = " + osName + ".Args\n"
		}
		out[filepath.Join(dst, filepath.Base(f))] = []byte(text)
	}
	if !hasMain {
		return map[string][]byte{filepath.Join(dst, "zz_main.go"): []byte(cliStub)}
	}
	out[filepath.Join(dst, "zz_main.go")] = []byte(cliMain)
	return out
}

const cliStub = `package climain

type Exit struct{ Code int }

func Main(args []string) (code int, ok bool) { return 0, false }
`

const cliMain = `package climain

import (
	"flag"
	"io"
	"os"
	"strings"
)

type Exit struct{ Code int }

type zzexits struct{}

func (zzexits) Exit(code int) { panic(Exit{code}) }

var zzexit zzexits

// Main runs the tool and returns its exit code.
func Main(args []string) (code int, ok bool) {
	ok = true
	os.Args = append([]string{"go-chaff"}, args...)
	flag.CommandLine = flag.NewFlagSet("go-chaff", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(Exit); is {
				code = e.Code
				return
			}
			if err, is := r.(error); is {
				// what the flag package does with wrong flags
				if err == flag.ErrHelp {
					return
				}
				for _, p := range []string{"flag provided but not defined", "invalid value", "invalid boolean", "bad flag syntax", "flag needs an argument"} {
					if strings.HasPrefix(err.Error(), p) {
						code = 2
						return
					}
				}
			}
			panic(r)
		}
	}()
	main()
	return
}
`

// writeCliCopy puts the copy into dir and returns the overlay entries.
func writeCliCopy(repo, dir string) map[string]string {
	out := map[string]string{}
	for dst, b := range cliCopy(repo) {
		f := filepath.Join(dir, "climain_"+filepath.Base(dst))
		if os.WriteFile(f, b, 0o644) == nil {
			out[dst] = f
		}
	}
	return out
}
