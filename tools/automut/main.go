// automut lists single-point mutations of Go files as JSON lines: file, offset, end, replacement, line, what.
// With -cover PROFILE only those on covered lines.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File      string `json:"file"`
	Off       int    `json:"off"`
	End       int    `json:"end"`
	New       string `json:"new"`
	Line      int    `json:"line"`
	What      string `json:"what"`
	Statement string `json:"text"`
}

var covered map[string]map[int]bool

func load(p string) {
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	covered = map[string]map[int]bool{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		i := strings.LastIndex(l, ":")
		if strings.HasPrefix(l, "mode:") || i < 0 || strings.HasSuffix(l, " 0") {
			continue
		}
		var a, b, c, d int
		if n, _ := fmt.Sscanf(l[i+1:], "%d.%d,%d.%d", &a, &b, &c, &d); n != 4 {
			continue
		}
		m := covered[l[:i]]
		if m == nil {
			m = map[int]bool{}
			covered[l[:i]] = m
		}
		for ; a <= c; a++ {
			m[a] = true
		}
	}
}

func main() {
	prof := flag.String("cover", "", "")
	root := flag.String("root", "/repo", "")
	flag.Parse()
	if *prof != "" {
		load(*prof)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range flag.Args() {
		src, err := os.ReadFile(*root + "/" + f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, nw, what string) {
			ln := fs.Position(a).Line
			if covered != nil && !covered["github.com/gostor/gotgt/"+f][ln] {
				return
			}
			lines := strings.Split(string(src), "\n")
			enc.Encode(mut{f, pos(a), pos(b), nw, ln, what, strings.TrimSpace(lines[ln-1])})
		}
		isLog := func(c *ast.CallExpr) bool {
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			x, ok := s.X.(*ast.Ident)
			return ok && (x.Name == "log" || x.Name == "fmt" && s.Sel.Name != "Sprintf")
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND_NOT: {"&"}}
		for _, dcl := range af.Decls {
			fd, ok := dcl.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "String" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if isLog(x) {
						return false
					}
				case *ast.BinaryExpr:
					for _, nw := range swap[x.Op] {
						if x.Op == token.ADD {
							if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
								continue
							}
							if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
								continue
							}
						}
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), nw, x.Op.String()+" -> "+nw)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" +1")
							if v > 1 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[pos(x.Cond.Pos()):pos(x.Cond.End())])+")", "if never")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[pos(x.Cond.Pos()):pos(x.Cond.End())])+")", "if always")
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok && !isLog(c) {
						emit(x.Pos(), x.End(), "", "call removed")
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "defer removed")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "_ = 0", "assignment removed")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "incdec removed")
				case *ast.BranchStmt:
					if x.Tok != token.GOTO && x.Tok != token.FALLTHROUGH {
						emit(x.Pos(), x.End(), "", x.Tok.String()+" removed")
					}
				case *ast.SliceExpr:
					if x.High != nil && !x.Slice3 {
						emit(x.High.Pos(), x.High.End(), string(src[pos(x.High.Pos()):pos(x.High.End())])+"-1", "high -1")
					}
				}
				return true
			})
		}
	}
}
