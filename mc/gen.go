package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/go-andiamo/aitch"
	xhtml "golang.org/x/net/html"
)

// evaluating generated code

// evalCode parses generated code and evaluates the value of its (only) variable
func evalCode(code string) (node aitch.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			node, err = nil, fmt.Errorf("evaluating: %v", r)
		}
	}()
	src := code
	if !strings.HasPrefix(strings.TrimSpace(src), "package ") {
		src = "package p\n" + src
	}
	f, err := parser.ParseFile(token.NewFileSet(), "generated.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, fmt.Errorf("not valid Go: %w", err)
	}
	found := 0
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok {
			for _, s := range gd.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for _, e := range vs.Values {
						found++
						v := evalExpr(e)
						n, ok := v.(aitch.Node)
						if !ok {
							return nil, fmt.Errorf("evaluates to %T", v)
						}
						node = n
					}
				}
			}
		} else {
			return nil, fmt.Errorf("unexpected declaration %T", d)
		}
	}
	if found != 1 {
		return nil, fmt.Errorf("%d values", found)
	}
	return node, nil
}

func evalExpr(e ast.Expr) any {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return evalExpr(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.STRING:
			s, err := strconv.Unquote(t.Value)
			if err != nil {
				panic(err)
			}
			return s
		case token.INT:
			i, err := strconv.Atoi(t.Value)
			if err != nil {
				panic(err)
			}
			return i
		}
		panic("literal " + t.Value)
	case *ast.Ident:
		switch t.Name {
		case "true":
			return true
		case "false":
			return false
		case "nil":
			return nil
		}
		panic("identifier " + t.Name)
	case *ast.BinaryExpr:
		if t.Op == token.ADD {
			return evalExpr(t.X).(string) + evalExpr(t.Y).(string)
		}
		panic("operator " + t.Op.String())
	case *ast.SelectorExpr:
		pkg, ok := t.X.(*ast.Ident)
		if !ok {
			panic("selector")
		}
		if v, ok := tableValues[pkg.Name][t.Sel.Name]; ok {
			return v
		}
		if v, ok := table[pkg.Name][t.Sel.Name]; ok {
			return v
		}
		panic("undefined: " + pkg.Name + "." + t.Sel.Name)
	case *ast.CallExpr:
		if at, ok := t.Fun.(*ast.ArrayType); ok && at.Len == nil {
			if id, ok := at.Elt.(*ast.Ident); ok && id.Name == "byte" && len(t.Args) == 1 {
				return []byte(evalExpr(t.Args[0]).(string))
			}
			panic("conversion")
		}
		if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "string" && len(t.Args) == 1 {
			return fmt.Sprintf("%s", evalExpr(t.Args[0]))
		}
		fn := reflect.ValueOf(evalExpr(t.Fun))
		if fn.Kind() != reflect.Func {
			panic("call of something that is not a function")
		}
		ft := fn.Type()
		var args []reflect.Value
		for i, a := range t.Args {
			v := evalExpr(a)
			var pt reflect.Type
			switch {
			case ft.IsVariadic() && i >= ft.NumIn()-1:
				pt = ft.In(ft.NumIn() - 1).Elem()
			case i < ft.NumIn():
				pt = ft.In(i)
			default:
				panic("too many arguments")
			}
			if v == nil {
				args = append(args, reflect.Zero(pt))
				continue
			}
			rv := reflect.ValueOf(v)
			if !rv.Type().AssignableTo(pt) {
				panic(fmt.Sprintf("%v is not assignable to %v", rv.Type(), pt))
			}
			args = append(args, rv)
		}
		min := ft.NumIn()
		if ft.IsVariadic() {
			min--
		}
		if len(args) < min {
			panic("too few arguments")
		}
		return fn.Call(args)[0].Interface()
	}
	panic(fmt.Sprintf("expression %T", e))
}

// comparing markup as tokenised by x/net/html

type genTok struct {
	kind byte // s e t c d
	name string
	atts []Att
	data string
	raw  string // of a doctype: what it is without any decoding
}

func (t genTok) String() string {
	switch t.kind {
	case 's':
		var sb strings.Builder
		sb.WriteString("<" + t.name)
		for _, a := range t.atts {
			fmt.Fprintf(&sb, " %s=%q", a.Name, a.Val)
		}
		return sb.String() + ">"
	case 'e':
		return "</" + t.name + ">"
	case 't':
		return fmt.Sprintf("%q", t.data)
	case 'c':
		return fmt.Sprintf("comment %q", t.data)
	}
	return fmt.Sprintf("doctype %q", t.data)
}

type genOpt struct {
	svg bool
	// bools are the attributes for which the attribute's own name as value is the same as none
	bools map[string]bool
}

func isBlank(s string) bool { return strings.Trim(s, " \t\n\r\f") == "" }

func (o *genOpt) tokens(s string) (out []genTok) {
	z := xhtml.NewTokenizer(strings.NewReader(s))
	if o.svg {
		z.AllowCDATA(true)
	}
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			return out
		}
		if o.svg && (tt == xhtml.StartTagToken || tt == xhtml.SelfClosingTagToken) {
			z.NextIsNotRawText()
		}
		raw := string(z.Raw())
		t := z.Token()
		switch tt {
		case xhtml.TextToken:
			data := t.Data
			if o.svg && strings.HasPrefix(raw, "<![CDATA[") {
				data = strings.ReplaceAll(strings.TrimSuffix(strings.TrimPrefix(raw, "<![CDATA["), "]]>"), "\r\n", "\n")
			}
			if isBlank(data) {
				continue
			}
			if l := len(out); l > 0 && out[l-1].kind == 'd' {
				data = strings.TrimLeft(data, " \t\n\r") // a doctype is written as a line of its own
			}
			if l := len(out); l > 0 && out[l-1].kind == 't' {
				out[l-1].data += data
			} else {
				out = append(out, genTok{kind: 't', data: data})
			}
		case xhtml.StartTagToken, xhtml.SelfClosingTagToken:
			g := genTok{kind: 's', name: t.Data}
			for _, a := range t.Attr {
				v := a.Val
				if o.bools[a.Key] && strings.EqualFold(v, a.Key) {
					v = ""
				}
				g.atts = append(g.atts, Att{Name: a.Key, HasVal: true, Val: v})
			}
			sort.SliceStable(g.atts, func(i, j int) bool { return g.atts[i].Name < g.atts[j].Name })
			out = append(out, g)
			if tt == xhtml.SelfClosingTagToken && !htmlVoid[t.Data] {
				out = append(out, genTok{kind: 'e', name: t.Data})
			}
		case xhtml.EndTagToken:
			if !o.svg && htmlVoid[t.Data] {
				continue // such an end tag has no effect
			}
			out = append(out, genTok{kind: 'e', name: t.Data})
		case xhtml.CommentToken:
			out = append(out, genTok{kind: 'c', data: t.Data})
		case xhtml.DoctypeToken:
			if !o.svg {
				out = append(out, genTok{kind: 'd', data: t.Data, raw: doctypeText(raw)})
			}
		}
	}
}

// doctypeText is what comes after the word in <!DOCTYPE ...>
func doctypeText(raw string) string {
	raw = strings.TrimSuffix(strings.TrimPrefix(raw, "<!"), ">")
	if len(raw) > len("doctype") {
		raw = raw[len("doctype"):]
	}
	return strings.Trim(raw, " \t\n\r\f")
}

func (o *genOpt) same(in, out string) string {
	a, b := o.tokens(in), o.tokens(out)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%s was added", b[i])
		case i >= len(b):
			return fmt.Sprintf("%s was lost", a[i])
		case a[i].String() != b[i].String():
			return fmt.Sprintf("%s became %s", a[i], b[i])
		case a[i].raw != b[i].raw && !strings.ContainsAny(a[i].raw, "&<>\x00\r"):
			// (browsers do not decode doctypes)
			return fmt.Sprintf("doctype %q became %q", a[i].raw, b[i].raw)
		}
	}
	return ""
}

// roundTrip generates code for the input, evaluates it, renders it and compares
func (o *genOpt) roundTrip(x *X, generate func(in string) (string, error), in string) {
	x.Note(func() string { return fmt.Sprintf("%q", clip(in, 2000)) })
	code, err := generate(in)
	if err != nil {
		x.Failf("an error although nothing failed: %v", err)
	}
	n, err := evalCode(code)
	if err != nil {
		x.Failf("%v\ncode %s", err, clip(code, 2000))
	}
	got, err := render(n, &Env{})
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if d := o.same(in, got); d != "" {
		x.Failf("%s\nrendered %q\ncode %s", d, clip(got, 2000), clip(code, 2000))
	}
	x.Observe([]byte(got))
}

func generator(pkg string) func(in string) (string, error) {
	fn := table[pkg]["GenerateCode"].(func(r io.Reader, w io.Writer) error)
	return func(in string) (string, error) {
		var buf, buf2 bytes.Buffer
		err := fn(strings.NewReader(in), &buf)
		// the same from a reader that gives one byte at a time, after something else was generated
		if err2 := fn(iotest.OneByteReader(strings.NewReader(in)), &buf2); err2 != nil || buf2.String() != buf.String() {
			panic(failRun{fmt.Sprintf("read byte by byte the generated code differs: %q, %v", clip(buf2.String(), 1000), err2)})
		}
		return buf.String(), err
	}
}

// names in the vocabulary of a package, found by rendering what its functions build
type vocabulary struct {
	elements, attributes []string
	bools                map[string]bool
}

func vocab(pkg string) *vocabulary {
	v := &vocabulary{bools: map[string]bool{}}
	seenE, seenA := map[string]bool{}, map[string]bool{}
	var fns []string
	for name := range table[pkg] {
		fns = append(fns, name)
	}
	sort.Strings(fns)
	for _, name := range fns {
		var n aitch.Node
		switch fn := table[pkg][name].(type) {
		case func(...any) aitch.Node:
			n = fn("x")
		case func() aitch.Node:
			n = fn()
		default:
			continue
		}
		if n == nil {
			continue
		}
		switch n.Type() {
		case aitch.ElementNode:
			if !seenE[n.Name()] {
				seenE[n.Name()] = true
				v.elements = append(v.elements, n.Name())
			}
		case aitch.AttributeNode:
			if !seenA[n.Name()] {
				seenA[n.Name()] = true
				v.attributes = append(v.attributes, n.Name())
			}
			if s, _ := render(n, &Env{}); !strings.Contains(s, "=") {
				v.bools[n.Name()] = true
			}
		}
	}
	return v
}
