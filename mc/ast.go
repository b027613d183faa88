package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// ---- values

type VKind int

const (
	VStr VKind = iota
	VRaw
	VInt
	VBool
	VKey
	VCargo
	VFunc     // aitch.DynamicValueFunc
	VCtxFunc  // plain func(*context.Context) []byte
	VAnyFunc  // func() any returning Sub[0] (static kinds only)
	VStringer // fmt.Stringer
	VNil
	VValue    // aitch.NewValue(Sub[0])
	VConcat   // aitch.NewConcatValue(Sub...)
	VTextNode // aitch.Text(Sub...)
	VUnsupported
	VFloat
	VCollNode // aitch.Collection(aitch.Text(Sub...))
	VFail     // a function recording Err in the context
	VParent   // a function writing the parent context's cargo and data key S
)

// Val is a value given to a constructor
type Val struct {
	K   VKind
	S   string
	I   int64
	F   float64
	Sub []*Val
	Err error
}

type stringer struct{ s string }

func (s stringer) String() string {
	called()
	return s.s
}

// none of these is asked for

func (s stringer) HTML() string                 { called(); return "HTML" + s.s }
func (s stringer) SafeHTML() string             { called(); return "SafeHTML" + s.s }
func (s stringer) Raw() []byte                  { called(); return []byte("Raw" + s.s) }
func (s stringer) Bytes() []byte                { called(); return []byte("Bytes" + s.s) }
func (s stringer) Value() any                   { called(); return "Value" + s.s }
func (s stringer) Len() int                     { called(); return 0 }
func (s stringer) IsZero() bool                 { called(); return true }
func (s stringer) MarshalText() ([]byte, error) { called(); return []byte("MarshalText" + s.s), nil }
func (s stringer) MarshalJSON() ([]byte, error) { called(); return []byte(`"MarshalJSON"`), nil }
func (s stringer) MarshalBinary() ([]byte, error) {
	called()
	return []byte("MarshalBinary" + s.s), nil
}
func (s stringer) AppendText(b []byte) ([]byte, error) {
	called()
	return append(b, "AppendText"...), nil
}
func (s stringer) WriteTo(w io.Writer) (int64, error) {
	called()
	n, err := w.Write([]byte("WriteTo"))
	return int64(n), err
}

// onCall, when not nil, runs whenever the code under test calls back
var onCall func()

func called() {
	if onCall != nil {
		onCall()
	}
}

type unsupported struct{ A int }

func vs(s string) *Val   { return &Val{K: VStr, S: s} }
func vraw(s string) *Val { return &Val{K: VRaw, S: s} }
func vkey(s string) *Val { return &Val{K: VKey, S: s} }

func (v *Val) build() any {
	switch v.K {
	case VStr:
		return v.S
	case VRaw:
		return []byte(v.S)
	case VInt:
		return int(v.I)
	case VBool:
		return v.I != 0
	case VFloat:
		return v.F
	case VKey:
		return aitch.DynamicValueKey(v.S)
	case VCargo:
		return aitch.DynamicValueKey(".")
	case VFunc:
		s := v.S
		return aitch.DynamicValueFunc(func(*context.Context) []byte { called(); return []byte(s) })
	case VCtxFunc:
		s := v.S
		return func(*context.Context) []byte { called(); return []byte(s) }
	case VAnyFunc:
		sub := v.Sub[0]
		return func() any { called(); return sub.build() }
	case VStringer:
		return stringer{v.S}
	case VNil:
		return nil
	case VValue:
		return aitch.NewValue(v.Sub[0].build())
	case VConcat:
		return aitch.NewConcatValue(buildVals(v.Sub)...)
	case VTextNode:
		return aitch.Text(buildVals(v.Sub)...)
	case VCollNode:
		return aitch.Collection(aitch.Text(buildVals(v.Sub)...))
	case VUnsupported:
		return unsupported{1}
	case VFail:
		err := v.Err
		return func(ctx *context.Context) []byte { ctx.Error = err; return []byte("AFTER") }
	case VParent:
		key := v.S
		return func(ctx *context.Context) []byte {
			if ctx.Parent == nil {
				return []byte("noparent")
			}
			return []byte("parent:" + goText(ctx.Parent.Cargo) + ":" + goText(ctx.Parent.Data[key]))
		}
	}
	panic("val kind")
}

func buildVals(vals []*Val) []any {
	result := make([]any, len(vals))
	for i, v := range vals {
		result[i] = v.build()
	}
	return result
}

// text is the (canonically escaped) bytes the value renders as
func (v *Val) text(env *Env) string {
	switch v.K {
	case VStr, VStringer:
		return esc(v.S)
	case VRaw, VFunc, VCtxFunc:
		return v.S
	case VInt:
		return strconv.FormatInt(v.I, 10)
	case VBool:
		return strconv.FormatBool(v.I != 0)
	case VFloat:
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case VKey:
		return goText(env.Data[v.S])
	case VCargo:
		return goText(env.Cargo)
	case VAnyFunc, VValue, VConcat, VTextNode, VCollNode:
		return textOf(v.Sub, env)
	case VNil, VUnsupported:
		return ""
	case VFail:
		env.err = v.Err
		return ""
	case VParent:
		if env.Parent == nil {
			return "noparent"
		}
		return "parent:" + goText(env.Parent.Cargo) + ":" + goText(env.Parent.Data[v.S])
	}
	panic("val kind")
}

func textOf(vals []*Val, env *Env) string {
	var sb strings.Builder
	for _, v := range vals {
		if env.err == nil {
			sb.WriteString(v.text(env))
		}
	}
	return sb.String()
}

// goText is the canonical text of a Go value given as data or cargo
func goText(v any) string {
	switch t := v.(type) {
	case string:
		return esc(t)
	case []byte:
		return string(t)
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case float64:
		return strconv.FormatFloat(t, 'g', -1, 64)
	case stringer:
		return esc(t.s)
	case *ptrStringer:
		return esc(t.s)
	case func() any:
		return goText(t())
	}
	return ""
}

func (v *Val) String() string {
	sub := func() string {
		var p []string
		for _, s := range v.Sub {
			p = append(p, s.String())
		}
		return strings.Join(p, ",")
	}
	switch v.K {
	case VStr:
		return strconv.Quote(v.S)
	case VRaw:
		return "raw" + strconv.Quote(v.S)
	case VInt:
		return strconv.FormatInt(v.I, 10)
	case VBool:
		return strconv.FormatBool(v.I != 0)
	case VFloat:
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case VKey:
		return "key:" + v.S
	case VCargo:
		return "key:."
	case VFunc:
		return "func:" + strconv.Quote(v.S)
	case VCtxFunc:
		return "ctxfunc:" + strconv.Quote(v.S)
	case VAnyFunc:
		return "anyfunc(" + sub() + ")"
	case VStringer:
		return "stringer:" + strconv.Quote(v.S)
	case VNil:
		return "nil"
	case VValue:
		return "NewValue(" + sub() + ")"
	case VConcat:
		return "NewConcatValue(" + sub() + ")"
	case VTextNode:
		return "Text(" + sub() + ")"
	case VCollNode:
		return "Collection(Text(" + sub() + "))"
	case VFail:
		return "func recording " + v.Err.Error()
	case VParent:
		return "func reading the parent"
	}
	return "unsupported"
}

// ---- nodes

type Kind int

const (
	KEl      Kind = iota // element
	KVoid                // void element
	KRaw                 // a plain value among contents (Vals[0])
	KText                // Text(Vals...)
	KComment             // Comment(Vals...)
	KPI                  // PI(Name, Vals...)
	KFrag                // Fragment(Vals...)
	KColl                // Collection(Kids...)
	KCollect             // ContentCollect(func -> Kids)
	KCond                // Conditional(func reading condition Cond, Kids...)
	KWhen                // When("k<Cond>", Kids...), Form 1: "!k<Cond>"
	KNil                 // nil
	KAttr                // attribute Name=Vals
	KBool                // boolean attribute
	KDelim               // delimited attribute (delimiter by name)
	KIter                // Iterate(items, Kids...)  Form 0 Iterate 1 IterateKey 2 IterateYield
	KImp                 // Imperative writing Kids with WriteNodes
	KImpEl               // Imperative: Start(Name) WriteNodes(Kids) End; Form 1 with strings, raw data and other elements
	KCustom              // application defined node rendering Kids
	KDoc                 // html.Document(nil, nil, Kids)
	KSwitch              // ContentCollect or (Form 1) Imperative of the first or second child, as a condition holds; the slice is always the same one
	KMutate              // a callback that overwrites the cargo and data of its context
	KLate                // application code that renders Kids, and fails after them, or does something with their error (Form)
	KFail                // a failing callback: Form 0 imperative returning, 1 custom node, 2 value function recording in the context, 3 imperative recording in ctx
)

type Node struct {
	K     Kind
	Name  string
	Vals  []*Val
	Kids  []*Node
	Cond  int
	Form  int
	Items []any
	Err   error
}

// Env is the environment of a render: what callbacks answer
type Env struct {
	Data  map[string]any
	Cargo any
	Conds []bool
	// err is the first error: nothing is written after it
	err    error
	Parent *Env
}

func (e *Env) put(w *bytes.Buffer, parts ...string) {
	if e.err == nil {
		for _, p := range parts {
			w.WriteString(p)
		}
	}
}

// values writes values until one fails
func (e *Env) values(w *bytes.Buffer, vals []*Val) {
	for _, v := range vals {
		if e.err == nil {
			// what a value writes before a part of it fails is kept
			w.WriteString(v.text(e))
		}
	}
}

// conditions evaluates the conditions of the attributes of an element
func (e *Env) conditions(kids []*Node) {
	if e.err == nil {
		if f := failingCondition(kids, e); f != nil {
			e.err = f.Err
		}
	}
}

func (e *Env) child(item any) *Env {
	c := &Env{Cargo: item, Data: e.Data, Conds: e.Conds, Parent: e}
	if m, ok := item.(map[string]any); ok {
		c.Data = m
	}
	return c
}

// live answers the callbacks of built templates
type live struct {
	conds []bool
	// memo, when not nil, makes one description that occurs several times one node
	memo map[*Node]aitch.Node
}

func (n *Node) delim() string {
	switch n.Name {
	case "class", "hx-params":
		return " "
	case "style":
		return "; "
	}
	return "|"
}

type customNode struct {
	kids []aitch.Node
	typ  aitch.NodeType
	name string
}

func renderKids(ctx *context.Context, kids []aitch.Node) error {
	called()
	for _, k := range kids {
		if k != nil && k.Type() != aitch.AttributeNode {
			if err := k.Render(ctx); err != nil {
				return err
			}
		}
	}
	return nil
}

func (c *customNode) Render(ctx *context.Context) error { return renderKids(ctx, c.kids) }
func (c *customNode) Type() aitch.NodeType              { return c.typ }
func (c *customNode) Name() string                      { return c.name }

// nodes of types that cannot be compared, or that are more than nodes
type funcNode func(ctx *context.Context) error

func (f funcNode) Render(ctx *context.Context) error { return f(ctx) }
func (f funcNode) Type() aitch.NodeType              { return aitch.ElementNode }
func (f funcNode) Name() string                      { return "br" }

type sliceNode []aitch.Node

func (s sliceNode) Render(ctx *context.Context) error { return renderKids(ctx, s) }
func (s sliceNode) Type() aitch.NodeType              { return aitch.FragmentNode }
func (s sliceNode) Name() string                      { return "" }

type structNode struct {
	aitch.Node
	more map[string]any
}

type stringerNode struct{ customNode }

func (s *stringerNode) String() string { return "AS A STRING" }
func (s *stringerNode) Error() string  { return "AS AN ERROR" }

const customForms = 12

func (n *Node) custom(kids []aitch.Node) aitch.Node {
	switch n.Form {
	case 1:
		return &customNode{kids, aitch.ElementNode, "div"}
	case 2:
		return &customNode{kids, aitch.TextNode, "#text"}
	case 3:
		return &customNode{kids, aitch.CommentNode, "#comment"}
	case 4:
		return &customNode{kids, aitch.PINode, "!x"}
	case 5:
		return &customNode{kids, aitch.DocumentNode, "#document"}
	case 6:
		return &customNode{kids, aitch.NodeType(99), "id"}
	case 7:
		return funcNode(func(ctx *context.Context) error { return renderKids(ctx, kids) })
	case 8:
		return sliceNode(kids)
	case 9:
		return structNode{Node: aitch.Collection(kids...)}
	case 10:
		return structNode{Node: aitch.Iterate(func(*context.Context) []any { return []any{nil} }, sliceNode(kids))}
	case 11:
		return &stringerNode{customNode{kids, aitch.FragmentNode, "!s"}}
	}
	return &customNode{kids, aitch.FragmentNode, "#custom"}
}

// lateWrap is what the application wraps errors in
type lateWrap struct{ of error }

func (l *lateWrap) Error() string { return "wrapped: " + l.of.Error() }
func (l *lateWrap) Unwrap() error { return l.of }

// late builds application code that does something about errors
func (n *Node) late(kids []aitch.Node) aitch.Node {
	err := n.Err
	wrap := func(e error) error {
		if e != nil {
			return &lateWrap{e}
		}
		return nil
	}
	switch n.Form {
	case 0:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(kids...); return err })
	case 1:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(kids...); return wrap(ic.Context().Error) })
	case 2:
		return funcNode(func(ctx *context.Context) error {
			if e := renderKids(ctx, kids); e != nil && ctx.Error == nil {
				ctx.Error = e // as the library does
			}
			return err
		})
	case 3:
		return funcNode(func(ctx *context.Context) error { return wrap(renderKids(ctx, kids)) })
	case 4:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("q"), false)
			ic.WriteNodes(kids...)
			return err
		})
	case 5:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { return renderKids(ic.Context(), kids) })
	}
	return funcNode(func(ctx *context.Context) error {
		own := *ctx
		e := renderKids(&own, kids)
		if own.Error != nil {
			e = own.Error
		}
		if n.Form == 6 {
			return wrap(e)
		}
		return nil
	})
}

// customAttr is an application defined attribute
type customAttr struct{ of aitch.Node }

func (c *customAttr) Render(ctx *context.Context) error {
	called()
	return c.of.Render(ctx)
}
func (c *customAttr) Type() aitch.NodeType { return aitch.AttributeNode }
func (c *customAttr) Name() string         { return c.of.Name() }

type failNode struct{ err error }

func (c *failNode) Render(*context.Context) error { return c.err }
func (c *failNode) Type() aitch.NodeType          { return aitch.FragmentNode }
func (c *failNode) Name() string                  { return "#fail" }

func (n *Node) buildKids(l *live) []aitch.Node {
	result := make([]aitch.Node, len(n.Kids))
	for i, k := range n.Kids {
		result[i] = k.node(l)
	}
	return result
}

func (n *Node) buildContents(l *live) []any {
	result := make([]any, len(n.Kids))
	for i, k := range n.Kids {
		result[i] = k.content(l)
	}
	return result
}

// content is how the node is given among element contents
func (n *Node) content(l *live) any {
	switch n.K {
	case KRaw:
		return n.Vals[0].build()
	case KNil:
		return nil
	}
	return n.node(l)
}

func (n *Node) node(l *live) aitch.Node {
	if l.memo == nil {
		return n.fresh(l)
	}
	r, ok := l.memo[n]
	if !ok {
		r = n.fresh(l)
		l.memo[n] = r
	}
	return r
}

func (n *Node) fresh(l *live) aitch.Node {
	switch n.K {
	case KEl:
		switch n.Form {
		case 1:
			return aitch.NewElement([]byte(n.Name), n.buildContents(l)...)
		}
		return aitch.Element(n.Name, n.buildContents(l)...)
	case KVoid:
		switch n.Form {
		case 1:
			return aitch.NewVoidElement([]byte(n.Name), n.buildContents(l)...)
		case 2:
			return aitch.VoidElement(n.Name, n.buildContents(l)...)
		}
		return aitch.Element(n.Name, n.buildContents(l)...)
	case KRaw:
		return aitch.Text(n.Vals[0].build())
	case KText:
		return aitch.Text(buildVals(n.Vals)...)
	case KComment:
		return aitch.Comment(buildVals(n.Vals)...)
	case KPI:
		if n.Name == "DOCTYPE" {
			return aitch.DocType()
		}
		return aitch.PI(n.Name, buildVals(n.Vals)...)
	case KFrag:
		return aitch.Fragment(buildVals(n.Vals)...)
	case KColl:
		return aitch.Collection(n.buildKids(l)...)
	case KCollect:
		kids := n.buildKids(l)
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { called(); return kids })
	case KCond:
		c := n.Cond
		return aitch.Conditional(func(*context.Context) bool { called(); return l.conds[c] }, n.buildKids(l)...)
	case KWhen:
		return aitch.When(aitch.DynamicValueKey(n.whenKey()), n.buildKids(l)...)
	case KNil:
		return nil
	case KAttr:
		switch n.Form {
		case 1:
			return aitch.NewAttribute([]byte(n.Name), buildVals(n.Vals)...)
		case 2:
			return &customAttr{aitch.NewAttribute([]byte(n.Name), buildVals(n.Vals)...)}
		}
		return aitch.Attribute(n.Name, buildVals(n.Vals)...)
	case KBool:
		if n.Form == 1 {
			return aitch.NewBooleanAttribute([]byte(n.Name))
		}
		return aitch.BooleanAttribute(n.Name)
	case KDelim:
		if n.Form == 1 {
			return aitch.NewDelimitedAttribute([]byte(n.Name), []byte(n.delim()), buildVals(n.Vals)...)
		}
		return aitch.DelimitedAttribute(n.Name, n.delim(), buildVals(n.Vals)...)
	case KIter:
		items := n.Items
		switch n.Form {
		case 1:
			return aitch.IterateKey(n.Name, n.buildKids(l)...)
		case 2:
			return aitch.IterateYield(func(_ *context.Context, yield func(any)) {
				for _, it := range items {
					called()
					yield(it)
				}
			}, n.buildKids(l)...)
		}
		return aitch.Iterate(func(*context.Context) []any { called(); return items }, n.buildKids(l)...)
	case KImp:
		kids := n.buildKids(l)
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			called()
			ic.WriteNodes(kids...)
			called()
			return nil
		})
	case KImpEl:
		kids := n.buildKids(l)
		name := []byte(n.Name)
		if n.Form == 1 {
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.WriteString("plain")
				ic.Start(name, false, kids...)
				ic.WriteString("s<")
				called()
				ic.Start([]byte("u"), false)
				ic.Start([]byte("br"), true)
				ic.WriteRaw([]byte("R&"))
				ic.WriteNodes(kids...)
				called()
				ic.End()
				ic.WriteString("text")
				ic.EndAll()
				ic.End()
				return nil
			})
		}
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start(name, false, kids...)
			called()
			ic.WriteNodes(kids...)
			called()
			ic.End()
			return nil
		})
	case KCustom:
		return n.custom(n.buildKids(l))
	case KSwitch:
		kids, slice, c := n.buildKids(l), make([]aitch.Node, 1), n.Cond
		pick := func() []aitch.Node {
			called()
			slice[0] = kids[1]
			if l.conds[c] {
				slice[0] = kids[0]
			}
			return slice
		}
		if n.Form == 1 {
			return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(pick()...); return nil })
		} else if n.Form == 2 {
			name := []byte("p")
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				name[0] = "qp"[b2i(l.conds[c])]
				ic.Start(name, false)
				ic.WriteNodes(pick()...)
				ic.End()
				return nil
			})
		}
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return pick() })
	case KMutate:
		return aitch.Text(func(ctx *context.Context) []byte {
			if ctx.Parent != nil {
				ctx.Cargo, ctx.Data = "overwritten", map[string]any{"k": "overwritten"}
			}
			return nil
		})
	case KDoc:
		return html.Document(nil, nil, n.buildContents(l))
	case KLate:
		return n.late(n.buildKids(l))
	case KFail:
		err := n.Err
		switch n.Form {
		case 1:
			return &failNode{err}
		case 2:
			return aitch.Text(func(ctx *context.Context) []byte { ctx.Error = err; return []byte("AFTER") })
		case 3:
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Context().Error = err
				ic.WriteString("AFTER")
				return nil
			})
		case 4:
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("q"), false)
				ic.WriteString("before")
				return err
			})
		}
		if n.Form == 12 {
			return aitch.Conditional(func(ctx *context.Context) bool { ctx.Error = err; return true }, aitch.Text("AFTER"))
		} else if n.Form == 16 {
			return aitch.Conditional(func(ctx *context.Context) bool { ctx.Error = err; return true }, aitch.Attribute("zz", "AFTER"))
		} else if n.Form == 13 {
			return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { ctx.Error = err; return []aitch.Node{aitch.Text("AFTER")} })
		} else if n.Form == 14 {
			return aitch.Iterate(func(ctx *context.Context) []any { ctx.Error = err; return []any{1, 2} }, aitch.Text("AFTER"))
		} else if n.Form == 15 {
			return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
				yield("one")
				ctx.Error = err
				yield("two")
			}, aitch.Text(aitch.DynamicValueKey(".")))
		}
		if n.Form >= bareForms {
			return bareFailures[n.Form-bareForms].build(err)
		}
		return aitch.Imperative(func(aitch.ImperativeContext) error { return err })
	}
	panic("node kind")
}

func (n *Node) whenKey() string {
	k := "k" + strconv.Itoa(n.Cond)
	if n.Form == 1 {
		return "!" + k
	}
	return k
}

func (n *Node) holds(env *Env) bool {
	if n.K == KCond {
		return env.Conds[n.Cond]
	}
	v, ok := env.Data["k"+strconv.Itoa(n.Cond)]
	if b, isb := v.(bool); isb {
		ok = b
	}
	return ok != (n.Form == 1)
}

func (n *Node) isAttr() bool { return n.K == KAttr || n.K == KBool || n.K == KDelim }

type decl struct {
	n    *Node
	cond bool // declared inside a conditional
	on   bool // which holds
}

// failingCondition finds a condition of attributes that records an error
func failingCondition(kids []*Node, env *Env) *Node {
	for _, k := range kids {
		switch {
		case k.K == KFail && (k.Form == 16 || k.Form >= bareForms && bareFailures[k.Form-bareForms].attr):
			return k
		case k.K == KColl || (k.K == KCond || k.K == KWhen) && k.holds(env):
			if f := failingCondition(k.Kids, env); f != nil {
				return f
			}
		}
	}
	return nil
}

// declarations lists the attributes declared among contents, in order
func declarations(kids []*Node, env *Env, cond, on bool, out []decl) []decl {
	for _, k := range kids {
		switch {
		case k.isAttr():
			out = append(out, decl{k, cond, on})
		case k.K == KColl:
			out = declarations(k.Kids, env, cond, on, out)
		case k.K == KCond || k.K == KWhen:
			out = declarations(k.Kids, env, true, on && k.holds(env), out)
		}
	}
	return out
}

// modelAttrs renders the attributes a start tag has for these declarations
func modelAttrs(w *bytes.Buffer, ds []decl, env *Env) {
	var names []string
	at := map[string][]*Node{}
	for pass := 0; pass < 2; pass++ {
		for _, d := range ds {
			if d.cond != (pass == 1) {
				continue
			}
			if _, ok := at[d.n.Name]; !ok {
				at[d.n.Name] = nil
				names = append(names, d.n.Name)
			}
			if d.on {
				at[d.n.Name] = append(at[d.n.Name], d.n)
			}
		}
	}
	for _, name := range names {
		l := at[name]
		if len(l) == 0 {
			continue
		}
		last := l[len(l)-1]
		switch last.K {
		case KBool:
			env.put(w, " ", name)
		case KAttr:
			env.put(w, " ", name, `="`)
			env.values(w, last.Vals)
			env.put(w, `"`)
		case KDelim:
			env.put(w, " ", name, `="`)
			some := false
			for _, d := range l {
				for _, v := range d.Vals {
					if env.err != nil {
						return
					}
					if t := v.text(env); t != "" {
						if some {
							w.WriteString(last.delim())
						}
						w.WriteString(t)
						some = true
					}
				}
			}
			env.put(w, `"`)
		}
	}
}

// model writes what the node renders as, until an error occurs
func (n *Node) model(w *bytes.Buffer, env *Env) {
	if env.err != nil {
		return
	}
	kids := func(e *Env) {
		for _, k := range n.Kids {
			k.model(w, e)
		}
	}
	switch n.K {
	case KEl:
		env.put(w, "<", n.Name)
		env.conditions(n.Kids)
		modelAttrs(w, declarations(n.Kids, env, false, true, nil), env)
		env.put(w, ">")
		kids(env)
		env.put(w, "</", n.Name, ">")
	case KVoid:
		env.put(w, "<", n.Name)
		env.conditions(n.Kids)
		modelAttrs(w, declarations(n.Kids, env, false, true, nil), env)
		env.put(w, ">")
	case KRaw, KText, KFrag:
		env.values(w, n.Vals)
	case KComment:
		env.put(w, "<!--")
		env.values(w, n.Vals)
		env.put(w, "-->")
	case KPI:
		if n.Name == "DOCTYPE" {
			env.put(w, "<!DOCTYPE html>\n")
		} else {
			env.put(w, "<!", n.Name, " ")
			env.values(w, n.Vals)
			env.put(w, ">\n")
		}
	case KCustom:
		if n.Form == 10 { // an iteration over nil
			c := env.child(nil)
			kids(c)
			env.err = c.err
		} else {
			kids(env)
		}
	case KColl, KCollect, KImp:
		kids(env)
	case KCond, KWhen:
		if n.holds(env) {
			kids(env)
		}
	case KSwitch:
		i := 1 - b2i(env.Conds[n.Cond])
		if n.Form == 2 {
			env.put(w, "<", []string{"p", "q"}[i], ">")
		}
		n.Kids[i].model(w, env)
		if n.Form == 2 {
			env.put(w, "</", []string{"p", "q"}[i], ">")
		}
	case KMutate:
		if env.Parent != nil {
			env.Cargo, env.Data = "overwritten", map[string]any{"k": "overwritten"}
		}
	case KNil, KAttr, KBool, KDelim:
	case KIter:
		items := n.Items
		if n.Form == 1 {
			items, _ = env.Data[n.Name].([]any)
		}
		for _, it := range items {
			c := env.child(it)
			kids(c)
			if c.err != nil {
				env.err = c.err
				return
			}
		}
	case KImpEl:
		var ds []decl
		for _, k := range n.Kids {
			if k.isAttr() {
				ds = append(ds, decl{k, false, true})
			}
		}
		if n.Form == 1 {
			env.put(w, "plain")
		}
		env.put(w, "<", n.Name)
		modelAttrs(w, ds, env)
		env.put(w, ">")
		if n.Form == 1 {
			env.put(w, "s&lt;<u><br>R&")
		}
		kids(env)
		if n.Form == 1 {
			env.put(w, "</u>text")
		}
		env.put(w, "</", n.Name, ">")
	case KDoc:
		env.put(w, "<!DOCTYPE html>\n<html><body")
		env.conditions(n.Kids)
		modelAttrs(w, declarations(n.Kids, env, false, true, nil), env)
		env.put(w, ">")
		kids(env)
		env.put(w, "</body></html>")
	case KLate:
		switch n.Form {
		case 4:
			env.put(w, "<q>")
		case 6, 7: // in a context of its own
			c := *env
			kids(&c)
			if n.Form == 6 {
				env.err = c.err
			}
			return
		}
		kids(env)
		if env.err == nil && n.Form%2 == 0 {
			env.err = n.Err
		}
	case KFail:
		if n.Form == 4 {
			env.put(w, "<q>before")
		} else if n.Form == 15 {
			env.put(w, "one")
		}
		env.err = n.Err
	default:
		panic("node kind")
	}
}

func (n *Node) Model(env *Env) string {
	var w bytes.Buffer
	n.model(&w, env)
	return w.String()
}

func (n *Node) String() string {
	var sb strings.Builder
	n.str(&sb)
	return sb.String()
}

var kindNames = map[Kind]string{KEl: "Element", KVoid: "Void", KRaw: "value", KText: "Text", KComment: "Comment", KPI: "PI", KFrag: "Fragment", KColl: "Collection",
	KCollect: "ContentCollect", KCond: "Conditional", KWhen: "When", KNil: "nil", KAttr: "Attribute", KBool: "BooleanAttribute", KDelim: "DelimitedAttribute",
	KIter: "Iterate", KImp: "Imperative", KImpEl: "ImperativeElement", KCustom: "customNode", KDoc: "Document", KSwitch: "switch", KMutate: "overwriting callback", KFail: "failing", KLate: "late"}

func (n *Node) str(sb *strings.Builder) {
	sb.WriteString(kindNames[n.K])
	if n.K == KNil {
		return
	}
	sb.WriteByte('(')
	sep := ""
	add := func(s string) {
		sb.WriteString(sep + s)
		sep = ", "
	}
	switch n.K {
	case KCond:
		add("c" + strconv.Itoa(n.Cond))
	case KWhen:
		add(n.whenKey())
	}
	if n.Name != "" {
		add(n.Name)
	}
	if n.Form != 0 && n.K != KWhen {
		add(fmt.Sprintf("form%d", n.Form))
	}
	if n.Items != nil {
		add(fmt.Sprintf("%v", n.Items))
	}
	for _, v := range n.Vals {
		add(v.String())
	}
	for _, k := range n.Kids {
		var s strings.Builder
		k.str(&s)
		add(s.String())
	}
	if n.Err != nil {
		add(n.Err.Error())
	}
	sb.WriteByte(')')
}

var errApp1 = errors.New("application error 1")
var errApp2 = errors.New("application error 2")
var errApp3 = fmt.Errorf("application error 3: %w", errApp1)

// render renders a built node into a buffer
func render(n aitch.Node, env *Env) (string, error) {
	var buf bytes.Buffer
	before := dataOf(env.Data)
	err := n.Render(context.New(&buf, env.Data, env.Cargo))
	before.unchanged(env.Data)
	return buf.String(), err
}

// dataEntry is what a map had under a key, as far as it can be compared
type dataEntry struct {
	key string
	typ reflect.Type
	val any
}

type dataBefore []dataEntry

func dataOf(data map[string]any) dataBefore {
	if len(data) == 0 || len(data) > 12 {
		return nil
	}
	result := make(dataBefore, 0, len(data))
	for k, v := range data {
		e := dataEntry{key: k, typ: reflect.TypeOf(v)}
		switch v.(type) {
		case string, bool, int:
			e.val = v
		}
		result = append(result, e)
	}
	return result
}

// unchanged: rendering only reads the data, so that what is rendered next with it does not depend on it
func (b dataBefore) unchanged(data map[string]any) {
	if b == nil {
		return
	}
	if len(b) != len(data) {
		panic(failRun{fmt.Sprintf("rendering has changed the number of entries of the data from %d to %d", len(b), len(data))})
	}
	for _, e := range b {
		v, ok := data[e.key]
		if !ok || reflect.TypeOf(v) != e.typ || e.val != nil && v != e.val {
			panic(failRun{fmt.Sprintf("rendering has changed %q in the data from %v (%v) to %v (%T)", e.key, e.val, e.typ, v, v)})
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
