package main

import (
	"bytes"
	"fmt"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// Suites in which the application brings its own attributes: nodes of type AttributeNode that aitch did not make.

func customAttrNode(name string, vals ...*Val) *Node {
	return &Node{K: KAttr, Form: 2, Name: name, Vals: vals}
}

// customDecls are the declarations the sequences are drawn from
func customDecls(i int) []*Node {
	l := string(rune('a' + i))
	custom := customAttrNode("n", vs(l+"<"), vkey("k"))
	return []*Node{
		custom,
		customAttrNode("m", &Val{K: VCargo}),
		attrNode("n", vs("plain"+l)),
		{K: KBool, Name: "n"},
		{K: KDelim, Name: "class", Vals: []*Val{vs("c" + l)}},
		{K: KColl, Kids: []*Node{custom, textNode(l)}},
		{K: KCond, Cond: 0, Kids: []*Node{custom}},
		{K: KCond, Cond: 1, Kids: []*Node{custom}},
		{K: KCollect, Kids: []*Node{custom, textNode(l)}},
		{K: KCustom, Kids: []*Node{custom, textNode(l)}},
		elNode("b", custom),
		textNode(l),
	}
}

func customSeq(hs []string, quick, thorough int, o *CmpOpt) func(x *X) {
	return func(x *X) {
		h := hs[x.Choose(len(hs))]
		n := 1 + x.Choose(x.Q(quick, thorough))
		var kids []*Node
		for i := 0; i < n; i++ {
			ds := customDecls(i)
			kids = append(kids, ds[x.Choose(len(ds))])
		}
		top := hold(h, kids...)
		if h == "iterate" {
			top.Items = []any{"i", map[string]any{"k": "item"}}
		}
		x.Note(func() string { return top.String() })
		x.Ready()
		data := map[string]any{"k": "D&"}
		checkModel(x, o, top, &Env{Data: data, Cargo: "C<", Conds: []bool{true, false}}, &Env{Data: data, Cargo: "C<", Conds: []bool{false, true}})
	}
}

// failing attributes of the application
type failAttr struct {
	err    error
	record bool
}

func (c *failAttr) Render(ctx *context.Context) error {
	if c.record {
		ctx.Error = c.err
		ctx.Write([]byte("AFTER"))
		return nil
	}
	ctx.Write([]byte(` cut="`))
	return c.err
}
func (c *failAttr) Type() aitch.NodeType { return aitch.AttributeNode }
func (c *failAttr) Name() string         { return "fail" }

// c09Attrs: an attribute of the application that fails, at every position among the others, in every kind of tag
func c09Attrs(x *X) {
	record := x.Bool()
	tag := x.Choose(7)
	n := x.Choose(x.Q(4, 5))
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = x.Choose(4)
	}
	at := x.Choose(n + 1)
	place := x.Choose(3)
	deep := x.Choose(3)
	x.Note(func() string {
		return fmt.Sprintf("a failing attribute (recording %v) at %d among %v, placed %d, in tag %d within %d", record, at, kinds, place, tag, deep)
	})
	x.Ready()
	for _, k := range errKinds {
		err := k.mk("failed")
		var attrs []aitch.Node
		for i := 0; i <= n; i++ {
			if i == at {
				attrs = append(attrs, &failAttr{err, record})
			}
			if i == n {
				break
			}
			name := string(rune('p' + i))
			fn := func(*context.Context) []byte { return []byte("v") }
			switch kinds[i] {
			case 0:
				attrs = append(attrs, aitch.Attribute(name, fn))
			case 1:
				attrs = append(attrs, aitch.BooleanAttribute(name))
			case 2:
				attrs = append(attrs, aitch.DelimitedAttribute(name, " ", "v", fn))
			case 3:
				attrs = append(attrs, &customAttr{aitch.Attribute(name, fn)})
			}
		}
		contents := make([]any, 0, len(attrs)+1)
		for _, a := range attrs {
			if _, fails := a.(*failAttr); fails && tag != 2 {
				switch place {
				case 1:
					a = aitch.Collection(a)
				case 2:
					a = aitch.Collection(aitch.Collection(a))
				}
			}
			contents = append(contents, a)
		}
		contents = append(contents, "AFTER")
		var node aitch.Node
		switch tag {
		case 0:
			node = aitch.Element("div", contents...)
		case 1:
			node = aitch.VoidElement("img", contents...)
		case 2:
			node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("imp"), false, attrs...)
				ic.WriteString("AFTER")
				ic.EndAll()
				return nil
			})
		case 3:
			node = aitch.Element("div", aitch.Conditional(func(*context.Context) bool { return true }, aitch.Attribute("cond", "v")), aitch.Collection(contents2nodes(contents)...))
		case 4:
			node = aitch.Element("div", aitch.Conditional(func(*context.Context) bool { return true }, contents2nodes(contents)...))
		case 5:
			node = aitch.Element("div", append([]any{"AFTER", html.Class("c")}, contents...)...)
		case 6:
			node = aitch.NewElement([]byte("div"), append([]any{aitch.When("none", aitch.Attribute("cond", "v"))}, contents...)...)
		}
		switch deep {
		case 1:
			node = aitch.Collection(aitch.Text("before"), aitch.Element("p", node, "AFTER"), aitch.Text("AFTER"))
		case 2:
			node = aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, node, aitch.Text("AFTER"))
		}
		for round := 0; round < 2; round++ {
			var buf bytes.Buffer
			got := node.Render(context.New(&buf, nil, nil))
			out := buf.String()
			if !sameErr(got, err) {
				x.Failf("%s: returned %v instead of the error (output %q)", k.name, got, out)
			}
			if bytes.Contains(buf.Bytes(), []byte("AFTER")) || bytes.Contains(buf.Bytes(), []byte(">")) && deep != 1 || bytes.HasSuffix(buf.Bytes(), []byte(">")) {
				x.Failf("%s: written after the error: %q", k.name, out)
			}
			x.Observe(buf.Bytes())
		}
	}
}

func contents2nodes(contents []any) []aitch.Node {
	var result []aitch.Node
	for _, c := range contents {
		if n, ok := c.(aitch.Node); ok {
			result = append(result, n)
		} else {
			result = append(result, aitch.Text(c))
		}
	}
	return result
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: name, Bounds: bounds, Body: body})
	}
	tags := []string{"element", "void", "imperative element", "document", "collection in element", "conditional in element"}
	add("C01", "custom-attributes", "up to 3 (thorough 4) of 12 declarations, 8 of them with an attribute of the application's own, below 8 containers, under two environments", customSeq([]string{"collection", "collect", "conditional", "when", "imperative", "custom", "iterate", "element"}, 3, 4, stdOpt))
	add("C03", "custom-attributes", "up to 3 (thorough 4) of 12 declarations, 8 of them with an attribute of the application's own, on 6 kinds of tags, under two environments", customSeq(tags, 3, 4, stdOpt))
	add("C04", "custom-attributes", "up to 3 (thorough 4) of 12 declarations, 8 of them with an attribute of the application's own, below conditionals, under two environments", customSeq([]string{"conditional", "when", "conditional in element"}, 3, 4, stdOpt))
	add("C05", "custom-attributes", "up to 3 (thorough 4) of 12 declarations, 8 of them with an attribute of the application's own, on 6 kinds of tags, in order", customSeq(tags, 3, 4, ordOpt))
	add("C10", "custom-attributes", "up to 3 (thorough 4) of 12 declarations, 8 of them with an attribute of the application's own, in iterations of 2 kinds", customSeq([]string{"iterate", "yield"}, 3, 4, stdOpt))
	add("C12", "custom-attributes", "up to 4 (thorough 5) of 12 declarations, 8 of them with an attribute of the application's own, on imperative tags", customSeq([]string{"imperative element"}, 4, 5, stdOpt))
	add("C09", "failing-attributes", "an attribute of the application that fails in 2 ways at every position among up to 3 (thorough 4) attributes of 4 kinds, in 3 placements, 7 tags, 3 surroundings, 25 kinds of errors", c09Attrs)
}
