package main

// Contract files: parsing, and generation of one Go function per clause.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	goprinter "go/printer"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type ClauseParam struct {
	Name  string // name in the code
	Kind  string // param, old, result, local, K, POS, OUT
	Index int
	Local bool
}

type Clause struct {
	Kind       string
	Text       string
	Fn         *ssa.Function
	Params     []ClauseParam
	bareParam  int
	derefParam int // the clause is *param
	name       string
	decl       string
	Bad        string
	res        int
	loop       int
}

type LoopSpec struct {
	Num       int
	Invs      []*Clause
	Unfolds   []*Clause // applications whose definition is given at the loop head
	Decreases []*Clause
}

type Contract struct {
	Name, Pkg, FnName string
	Fn                *ssa.Function
	ParamNames        []string
	ResultNames       []string
	Requires          []*Clause
	Ensures           []*Clause
	Panics            *Clause
	PanicsAny         bool
	OnPanic           []*Clause // holds when the function panics
	MayPanic          bool      // the panics clause is only an upper bound
	Returns           []*Clause
	Modifies          []*Clause
	Output            bool
	OutputC           *Clause
	Event             *Clause // what a call adds to the caller's output, in place of what is printed
	FreshResult       bool
	Every             []string // types all of whose objects may change
	AnyEffect         bool
	NoTerm            bool
	Loops             []*LoopSpec
	Inline            bool
	Trusted           string
	Bounded           int
	Props             []string
	nilOK             map[string]bool
	File              string
	Line              int
	Missing           string
	MaxPaths          int
	Folded            bool            // opaque functions stay folded, but for
	Open              map[string]bool // these
	dropped           []string
	raw               []*Clause
}

func (c *Contract) clauses() []*Clause {
	var out []*Clause
	out = append(out, c.Requires...)
	out = append(out, c.Ensures...)
	if c.Panics != nil {
		out = append(out, c.Panics)
	}
	for _, r := range c.Returns {
		if r != nil {
			out = append(out, r)
		}
	}
	out = append(out, c.Modifies...)
	out = append(out, c.OnPanic...)
	if c.OutputC != nil {
		out = append(out, c.OutputC)
	}
	if c.Event != nil {
		out = append(out, c.Event)
	}
	for _, l := range c.Loops {
		out = append(out, l.Invs...)
		out = append(out, l.Decreases...)
		out = append(out, l.Unfolds...)
	}
	return out
}

// dropBad removes loop clauses that do not compile against the current code (proof hints only);
// any other clause that does not compile makes the contract undecided.
func (c *Contract) dropBad(w *World) {
	for _, l := range c.Loops {
		f := func(cs []*Clause) []*Clause {
			var out []*Clause
			for _, cl := range cs {
				if cl.Bad != "" {
					c.dropped = append(c.dropped, fmt.Sprintf("loop %d %s %q: %s", l.Num, cl.Kind, cl.Text, cl.Bad))
					continue
				}
				out = append(out, cl)
			}
			return out
		}
		l.Invs, l.Decreases, l.Unfolds = f(l.Invs), f(l.Decreases), f(l.Unfolds)
	}
	for _, cl := range c.clauses() {
		if cl.Bad != "" && c.Missing == "" {
			c.Missing = fmt.Sprintf("clause %q of %s does not fit the code: %s", cl.Text, c.Name, cl.Bad)
			w.problems = append(w.problems, c.Missing)
		}
	}
}

// onlyProp: the property being checked; clauses marked for others are left out, from what is
// proved and from what is used alike.
var onlyProp string

// opaqueFns are specification functions that are unfolded only where a proof needs their definition.
var opaqueFns = map[string]bool{}

var clauseWords = map[string]bool{"func": true, "opaque": true, "package": true, "prop": true, "requires": true, "ensures": true, "returns": true,
	"modifies": true, "output": true, "panics": true, "loop": true, "inline": true, "trusted": true, "nilok": true, "fresh": true,
	"anyeffect": true, "folded": true, "onpanic": true, "maypanic": true, "noterm": true, "event": true, "bounded": true, "maxpaths": true, "define": true}

func firstWord(s string) string {
	for i, r := range s {
		if !unicode.IsLetter(r) {
			return s[:i]
		}
	}
	return s
}

func parseContracts(file, src, want string) ([]*Contract, error) {
	var out []*Contract
	var cur *Contract
	pkg := ""
	type ln struct {
		s string
		n int
	}
	var lines []ln
	for i, s := range strings.Split(src, "\n") {
		t := strings.TrimSpace(s)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		if t[0] == '@' {
			lines = append(lines, ln{t, i + 1})
			continue
		}
		if !clauseWords[firstWord(t)] && len(lines) > 0 {
			lines[len(lines)-1].s += " " + t
			continue
		}
		lines = append(lines, ln{t, i + 1})
	}
	defs := map[string]string{}
	for _, l := range lines {
		skip := false
		if l.s[0] == '@' {
			// a clause that only some properties need
			k := strings.Index(l.s, " ")
			if l.s[1] == '!' { // all properties but these
				for _, p := range strings.Split(l.s[2:k], ",") {
					skip = skip || p == onlyProp
				}
			} else {
				skip = onlyProp != ""
				for _, p := range strings.Split(l.s[1:k], ",") {
					skip = skip && p != onlyProp
				}
			}
			l.s = strings.TrimSpace(l.s[k:])
		}
		wd := firstWord(l.s)
		if skip {
			if wd == "panics" || wd == "maypanic" {
				cur.PanicsAny = cur.Panics == nil
			}
			continue
		}
		rest := strings.TrimSpace(l.s[len(wd):])
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s", file, l.n, fmt.Sprintf(f, a...))
		}
		for k, v := range defs {
			rest = strings.ReplaceAll(rest, k, v)
		}
		switch wd {
		case "package":
			pkg = rest
			continue
		case "opaque":
			for _, n := range splitNames(rest) {
				opaqueFns[pkg+"."+n] = true
			}
			continue
		case "define":
			k := strings.Index(rest, " ")
			defs[rest[:k]] = strings.TrimSpace(rest[k:])
			continue
		case "func":
			a := strings.Index(rest, "(")
			b := strings.Index(rest, ")")
			if a < 0 || b < a {
				return nil, bad("bad header")
			}
			cur = &Contract{Pkg: pkg, FnName: strings.TrimSpace(rest[:a]), File: file, Line: l.n, nilOK: map[string]bool{}}
			cur.Name = pkg + "." + cur.FnName
			cur.ParamNames = splitNames(rest[a+1 : b])
			r := strings.TrimSpace(rest[b+1:])
			cur.ResultNames = splitNames(strings.Trim(r, "()"))
			if pkg == want {
				out = append(out, cur)
			}
			continue
		}
		if cur == nil {
			return nil, bad("clause outside a function")
		}
		add := func(kind, text string) *Clause {
			c := &Clause{Kind: kind, Text: strings.TrimSpace(text), bareParam: -1, derefParam: -1}
			cur.raw = append(cur.raw, c)
			return c
		}
		switch wd {
		case "prop":
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "requires":
			cur.Requires = append(cur.Requires, add(wd, rest))
		case "ensures":
			cur.Ensures = append(cur.Ensures, add(wd, rest))
		case "panics":
			if rest == "any" {
				cur.PanicsAny = true
			} else {
				cur.Panics, cur.PanicsAny = add(wd, rest), false
			}
		case "onpanic":
			cur.OnPanic = append(cur.OnPanic, add(wd, rest))
		case "maypanic":
			cur.Panics, cur.PanicsAny = add("panics", rest), false
			cur.MayPanic = true
		case "returns":
			k := 0
			if len(rest) > 2 && rest[1] == ':' && unicode.IsDigit(rune(rest[0])) {
				k = int(rest[0] - '0')
				rest = rest[2:]
			}
			for len(cur.Returns) <= k {
				cur.Returns = append(cur.Returns, nil)
			}
			c := add(wd, rest)
			c.res = k
			cur.Returns[k] = c
		case "modifies":
			if rest == "anything" {
				cur.AnyEffect = true
				break
			}
			for _, m := range splitTop(rest) {
				if t := strings.TrimPrefix(m, "every "); t != m {
					cur.Every = append(cur.Every, strings.TrimSpace(t))
					continue
				}
				cur.Modifies = append(cur.Modifies, add(wd, m))
			}
		case "output":
			if rest == "any" {
				cur.Output = true
			} else {
				cur.Output = true
				cur.OutputC = add(wd, rest)
			}
		case "event":
			cur.Event = add(wd, rest)
		case "loop":
			f := strings.Fields(rest)
			if len(f) < 3 {
				return nil, bad("loop clause")
			}
			n, err := strconv.Atoi(f[0])
			if err != nil {
				return nil, bad("loop number")
			}
			var ls *LoopSpec
			for _, q := range cur.Loops {
				if q.Num == n {
					ls = q
				}
			}
			if ls == nil {
				ls = &LoopSpec{Num: n}
				cur.Loops = append(cur.Loops, ls)
			}
			body := strings.TrimSpace(rest[strings.Index(rest, f[1])+len(f[1]):])
			switch f[1] {
			case "invariant":
				c := add("invariant", body)
				c.loop = n
				ls.Invs = append(ls.Invs, c)
			case "decreases":
				for _, m := range splitTop(body) {
					c := add("decreases", m)
					c.loop = n
					ls.Decreases = append(ls.Decreases, c)
				}
			case "unfold":
				for _, m := range splitTop(body) {
					c := add("unfold", m)
					c.loop = n
					ls.Unfolds = append(ls.Unfolds, c)
				}
			default:
				return nil, bad("loop clause %q", f[1])
			}
		case "inline":
			cur.Inline = true
		case "trusted":
			cur.Trusted = rest
			if rest == "" {
				cur.Trusted = "trusted"
			}
		case "nilok":
			for _, n := range splitNames(rest) {
				cur.nilOK[n] = true
			}
		case "folded":
			cur.Folded, cur.Open = true, map[string]bool{}
			for _, n := range splitNames(rest) {
				if !strings.Contains(n, ".") {
					n = pkg + "." + n
				}
				cur.Open["spec/"+n] = true
			}
		case "fresh":
			cur.FreshResult = true
		case "anyeffect":
			cur.AnyEffect = true
		case "noterm":
			cur.NoTerm = true
		case "bounded":
			cur.Bounded, _ = strconv.Atoi(rest)
		case "maxpaths":
			cur.MaxPaths, _ = strconv.Atoi(rest)
		}
	}
	return out, nil
}

func splitNames(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

// splitTop splits at commas outside parentheses.
func splitTop(s string) []string {
	var out []string
	d, last := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

// ---- generation ----

type clauseFile struct {
	pkg     string
	tp      *packages.Package
	imports map[string]string // path -> name
	cl      []*Clause
	lines   map[int]*Clause
	n       int
}

func newClauseFile(name string, tp *packages.Package) *clauseFile {
	return &clauseFile{pkg: name, tp: tp, imports: map[string]string{}}
}

func (g *clauseFile) qual(p *types.Package) string {
	if p.Path() == g.tp.PkgPath {
		return ""
	}
	g.imports[p.Path()] = p.Name()
	return p.Name()
}

func (g *clauseFile) typeStr(t types.Type) string { return types.TypeString(t, g.qual) }

// findDecl finds the declaration of a function or method.
func findDecl(tp *packages.Package, name string) (*ast.FuncDecl, *types.Func) {
	recv := ""
	fn := name
	if k := strings.Index(name, "."); k >= 0 {
		recv, fn = name[:k], name[k+1:]
	}
	for _, f := range tp.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != fn || fd.Body == nil {
				continue
			}
			r := ""
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					r = id.Name
				}
			}
			if r != recv {
				continue
			}
			o, _ := tp.TypesInfo.Defs[fd.Name].(*types.Func)
			return fd, o
		}
	}
	return nil, nil
}

type nameInfo struct {
	code string
	kind string
	idx  int
	typ  types.Type
}

func (g *clauseFile) add(c *Contract) error {
	fd, fo := findDecl(g.tp, c.FnName)
	if fo == nil {
		return fmt.Errorf("%s: no such function in the code", c.Name)
	}
	sig := fo.Type().(*types.Signature)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(ps) != len(c.ParamNames) {
		return fmt.Errorf("%s: the code has %d parameters, the contract %d", c.Name, len(ps), len(c.ParamNames))
	}
	if len(c.ResultNames) != 0 && sig.Results().Len() != len(c.ResultNames) {
		return fmt.Errorf("%s: the code has %d results, the contract %d", c.Name, sig.Results().Len(), len(c.ResultNames))
	}
	names := map[string]nameInfo{}
	for i, n := range c.ParamNames {
		names[n] = nameInfo{ps[i].Name(), "param", i, ps[i].Type()}
		names["old_"+n] = nameInfo{ps[i].Name(), "old", i, ps[i].Type()}
	}
	for i, n := range c.ResultNames {
		names[n] = nameInfo{n, "result", i, sig.Results().At(i).Type()}
	}
	// parameters that the contract says may be nil, by code name
	ok := map[string]bool{}
	for n := range c.nilOK {
		if ni, is := names[n]; is {
			ok[ni.code] = true
		}
	}
	c.nilOK = ok
	loops := astLoops(fd)
	for _, cl := range c.raw {
		nm := names
		if cl.loop > 0 {
			nm = map[string]nameInfo{}
			for k, v := range names {
				if v.kind != "result" {
					nm[k] = v
				}
			}
			if cl.loop > len(loops) {
				cl.Bad = "the code has no such loop"
				cl.name = "none"
				continue
			}
		}
		if err := g.clause(c, cl, nm, sig, fd, loops); err != nil {
			cl.Bad = err.Error()
			if cl.loop == 0 {
				return fmt.Errorf("%s: %s", c.Name, err)
			}
		}
	}
	return nil
}

func astLoops(fd *ast.FuncDecl) []ast.Node {
	var out []ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt:
			out = append(out, n)
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func loopBodyPos(n ast.Node) token.Pos {
	switch l := n.(type) {
	case *ast.ForStmt:
		return l.Body.Lbrace + 1
	case *ast.RangeStmt:
		return l.Body.Lbrace + 1
	}
	return n.Pos()
}

var goPredeclared = map[string]bool{}

func init() {
	for _, n := range types.Universe.Names() {
		goPredeclared[n] = true
	}
}

func (g *clauseFile) clause(c *Contract, cl *Clause, names map[string]nameInfo, sig *types.Signature, fd *ast.FuncDecl, loops []ast.Node) error {
	e, err := parser.ParseExpr(cl.Text)
	if err != nil {
		return fmt.Errorf("clause %q: %v", cl.Text, err)
	}
	e = expandMacros(e, names, false)
	if id, ok := e.(*ast.Ident); ok {
		if ni, ok := names[id.Name]; ok && ni.kind == "param" {
			cl.bareParam = ni.idx
		}
	}
	if st, ok := e.(*ast.StarExpr); ok {
		if id, ok := st.X.(*ast.Ident); ok {
			if ni, ok := names[id.Name]; ok && ni.kind == "param" {
				cl.derefParam = ni.idx
			}
		}
	}
	// free identifiers
	used := map[string]bool{}
	var order []string
	bound := map[string]int{}
	var walk func(n ast.Node)
	note := func(n string) {
		if bound[n] > 0 || used[n] || n == "_" {
			return
		}
		used[n] = true
		order = append(order, n)
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				walk(x.X)
				return false
			case *ast.KeyValueExpr:
				walk(x.Value)
				return false
			case *ast.FuncLit:
				for _, f := range x.Type.Params.List {
					for _, id := range f.Names {
						bound[id.Name]++
					}
				}
				walk(x.Body)
				for _, f := range x.Type.Params.List {
					for _, id := range f.Names {
						bound[id.Name]--
					}
				}
				return false
			case *ast.Ident:
				note(x.Name)
			}
			return true
		})
	}
	walk(e)
	var params []string
	typOf := map[string]types.Type{}
	for _, n := range order {
		switch n {
		case "K":
			cl.Params = append(cl.Params, ClauseParam{Name: n, Kind: "K"})
			params = append(params, "K int")
			continue
		case "K1", "K2", "K3", "K4":
			if _, taken := names[n]; !taken {
				cl.Params = append(cl.Params, ClauseParam{Name: n, Kind: "Kn", Index: int(n[1] - '0')})
				params = append(params, n+" int")
				continue
			}
		case "POS":
			cl.Params = append(cl.Params, ClauseParam{Name: n, Kind: "POS"})
			params = append(params, "POS int")
			continue
		case "OUT":
			cl.Params = append(cl.Params, ClauseParam{Name: n, Kind: "OUT"})
			params = append(params, "OUT string")
			continue
		}
		if ni, ok := names[n]; ok {
			cl.Params = append(cl.Params, ClauseParam{Name: ni.code, Kind: ni.kind, Index: ni.idx, Local: ni.kind == "param"})
			params = append(params, n+" "+g.typeStr(ni.typ))
			typOf[n] = ni.typ
			continue
		}
		if cl.loop > 0 {
			pos := loopBodyPos(loops[cl.loop-1])
			sc := g.tp.Types.Scope().Innermost(pos)
			if sc != nil {
				_, o := sc.LookupParent(n, pos)
				if v, ok := o.(*types.Var); ok && v.Parent() != g.tp.Types.Scope() && v.Pkg() == g.tp.Types {
					cl.Params = append(cl.Params, ClauseParam{Name: n, Kind: "local"})
					params = append(params, n+" "+g.typeStr(v.Type()))
					continue
				}
			}
		}
		if goPredeclared[n] || g.tp.Types.Scope().Lookup(n) != nil {
			continue
		}
		// an imported package?
		if imp := g.importFor(n); imp != "" {
			g.imports[imp] = n
			continue
		}
		return fmt.Errorf("clause %q: unknown name %s", cl.Text, n)
	}
	rt := "bool"
	switch cl.Kind {
	case "returns":
		if cl.res >= sig.Results().Len() {
			return fmt.Errorf("clause %q: no result %d", cl.Text, cl.res)
		}
		rt = g.typeStr(sig.Results().At(cl.res).Type())
	case "output", "event":
		rt = "string"
	case "decreases":
		rt = "int"
	case "modifies":
		t, err := g.exprType(e, typOf)
		if err != nil {
			return err
		}
		rt = g.typeStr(t)
	}
	var buf bytes.Buffer
	if err := goprinter.Fprint(&buf, token.NewFileSet(), e); err != nil {
		return err
	}
	txt := strings.Join(strings.Fields(strings.ReplaceAll(buf.String(), "\n", " ")), " ")
	if strings.Contains(buf.String(), "`") || strings.Contains(buf.String(), "\"") {
		txt = strings.ReplaceAll(buf.String(), "\n", " ")
	}
	g.n++
	cl.name = fmt.Sprintf("govcC_%s_%d", g.pkg, g.n)
	cl.decl = fmt.Sprintf("func %s(%s) %s { return %s }", cl.name, strings.Join(params, ", "), rt, txt)
	g.cl = append(g.cl, cl)
	return nil
}

func (g *clauseFile) importFor(n string) string {
	for _, p := range []string{"strings", "fmt", "strconv", "time", "math", "bytes"} {
		if p == n {
			return p
		}
	}
	if n == "hex" {
		return "encoding/hex"
	}
	for _, d := range pkgDirs {
		if d.name == n {
			return repoMod + "/" + d.dir
		}
	}
	return ""
}

// exprType types the simple expressions allowed in modifies clauses: names, fields, & of a field.
func (g *clauseFile) exprType(e ast.Expr, typOf map[string]types.Type) (types.Type, error) {
	switch x := e.(type) {
	case *ast.Ident:
		if t := typOf[x.Name]; t != nil {
			return t, nil
		}
	case *ast.ParenExpr:
		return g.exprType(x.X, typOf)
	case *ast.UnaryExpr:
		t, err := g.exprType(x.X, typOf)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.StarExpr:
		t, err := g.exprType(x.X, typOf)
		if err != nil {
			return nil, err
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem(), nil
		}
	case *ast.IndexExpr:
		t, err := g.exprType(x.X, typOf)
		if err != nil {
			return nil, err
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem(), nil
		case *types.Map:
			return u.Elem(), nil
		}
	case *ast.SelectorExpr:
		t, err := g.exprType(x.X, typOf)
		if err != nil {
			return nil, err
		}
		o, _, _ := types.LookupFieldOrMethod(t, true, g.tp.Types, x.Sel.Name)
		if v, ok := o.(*types.Var); ok {
			return v.Type(), nil
		}
	}
	return nil, fmt.Errorf("modifies: cannot type expression")
}

func expandMacros(e ast.Expr, names map[string]nameInfo, old bool) ast.Expr {
	rec := func(x ast.Expr) ast.Expr { return expandMacros(x, names, old) }
	switch x := e.(type) {
	case *ast.Ident:
		if old {
			if ni, ok := names[x.Name]; ok && ni.kind == "param" {
				return ast.NewIdent("old_" + x.Name)
			}
		}
		return x
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "old":
				return &ast.ParenExpr{X: expandMacros(x.Args[0], names, true)}
			case "imp":
				return &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: rec(x.Args[0])}}, Op: token.LOR, Y: &ast.ParenExpr{X: rec(x.Args[1])}}}
			case "iff":
				return &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: rec(x.Args[0])}, Op: token.EQL, Y: &ast.ParenExpr{X: rec(x.Args[1])}}}
			case "Out":
				return ast.NewIdent("OUT")
			case "all", "ex":
				fn := "govcAll"
				if id.Name == "ex" {
					fn = "govcEx"
				}
				v := x.Args[0].(*ast.Ident)
				lit := &ast.FuncLit{
					Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{v}, Type: ast.NewIdent("int")}}},
						Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{rec(x.Args[3])}}}},
				}
				return &ast.CallExpr{Fun: ast.NewIdent(fn), Args: []ast.Expr{
					&ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{rec(x.Args[1])}},
					&ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{rec(x.Args[2])}}, lit}}
			}
		}
		n := &ast.CallExpr{Fun: rec(x.Fun)}
		for _, a := range x.Args {
			n.Args = append(n.Args, rec(a))
		}
		return n
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: rec(x.X), Op: x.Op, Y: rec(x.Y)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: rec(x.X)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: rec(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: rec(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: rec(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: rec(x.X), Index: rec(x.Index)}
	case *ast.SliceExpr:
		n := &ast.SliceExpr{X: rec(x.X)}
		if x.Low != nil {
			n.Low = rec(x.Low)
		}
		if x.High != nil {
			n.High = rec(x.High)
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: rec(x.X), Type: x.Type}
	}
	return e
}

// source prints the clause functions, one per line, leaving out the bad ones.
func (g *clauseFile) source(bad map[string]bool) string {
	var sb strings.Builder
	g.lines = map[int]*Clause{}
	var body strings.Builder
	var paths []string
	for p := range g.imports {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	fmt.Fprintf(&sb, "package %s\n", g.pkg)
	line := 2
	for _, p := range paths {
		fmt.Fprintf(&sb, "import %q\n", p)
		line++
	}
	for _, cl := range g.cl {
		if bad[cl.name] {
			continue
		}
		g.lines[line] = cl
		body.WriteString(cl.decl + "\n")
		line++
	}
	// imports are used even when the clauses that needed them are gone
	for _, p := range paths {
		n := g.imports[p]
		use := map[string]string{"strings": "strings.Count", "fmt": "fmt.Sprint", "strconv": "strconv.Itoa", "time": "time.Now", "math": "math.Abs", "os": "os.Getpid", "sync": "sync.NewCond", "utils": "utils.MatchReadFrom1", "ibdata": "ibdata.NewParse", "redo": "redo.NewParseRedo", "bytes": "bytes.Equal", "hex": "hex.Dump"}[n]
		if use != "" {
			body.WriteString("var _ = " + use + "\n")
		}
	}
	return sb.String() + body.String()
}

func (g *clauseFile) atLine(n int) *Clause { return g.lines[n] }
