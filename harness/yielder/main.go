// Command yielder REPO OUT writes copies of non-test Go files of REPO where
// every statement is preceded by a point where the scheduler may switch, and
// OUT/overlay.json for go build -overlay. What the program does is not changed,
// interleavings of its goroutines are explored at the level of statements.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const yield = `package verif_yield

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var one, nap = 4, 200

func init() {
	if n, e := strconv.Atoi(os.Getenv("VERIF_YIELD")); e == nil && n > 0 {
		nap = n
	}
}

// Y is a point where another goroutine may go on.
func Y() {
	n := rand.Uint32()
	if n%uint32(nap) == 0 {
		time.Sleep(time.Duration(1+(n>>16)%100) * time.Microsecond)
	} else if (n>>8)%uint32(one) == 0 {
		runtime.Gosched()
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	check(os.MkdirAll(out, 0o777))
	y := filepath.Join(out, "yield.go")
	check(os.WriteFile(y, []byte(yield), 0o666))
	replace[filepath.Join(repo, "verif_yield", "yield.go")] = y
	n := 0
	check(filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		check(err)
		if info.IsDir() && strings.HasPrefix(info.Name(), ".") && path != repo {
			return filepath.SkipDir
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		check(err)
		text, ok := instrument(src)
		if !ok {
			return nil
		}
		n++
		dst := filepath.Join(out, strconv.Itoa(n)+"_"+info.Name())
		check(os.WriteFile(dst, text, 0o666))
		replace[path] = dst
		return nil
	}))
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o666))
}

func instrument(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	at := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			at[fset.PositionFor(s.Pos(), false).Offset] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			clauses(x.Body, list)
		case *ast.TypeSwitchStmt:
			clauses(x.Body, list)
		case *ast.SelectStmt:
			clauses(x.Body, list)
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	offs := make([]int, 0, len(at))
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var b strings.Builder
	name := fset.PositionFor(f.Name.End(), false).Offset
	b.Write(src[:name])
	b.WriteString("; import verif_yield \"github.com/maxnikulin/burl/verif_yield\"")
	last := name
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("verif_yield.Y(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

func clauses(b *ast.BlockStmt, list func([]ast.Stmt)) {
	for _, s := range b.List {
		switch c := s.(type) {
		case *ast.CaseClause:
			list(c.Body)
		case *ast.CommClause:
			list(c.Body)
		}
	}
}

func check(err error) {
	if err != nil {
		log.Fatal(err)
	}
}
