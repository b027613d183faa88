package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func c10Items() []any {
	return []any{
		"s<", 7, map[string]any{"k": "M", "k0": true, "inner": []any{"x", "y"}}, map[string]any{"other": 1, "k0": false}, nil,
		[]any{"p", map[string]any{"k": "deep"}}, map[string]string{"k": "typed"}, true,
	}
}

func c10Kinds(nested bool) []func(g *gen) *Node {
	iter := func(form int) func(g *gen) *Node {
		return func(g *gen) *Node {
			n := &Node{K: KIter, Form: form, Items: []any{"n1", map[string]any{"k": "n2"}}}
			if form == 1 {
				n.Name, n.Items = "inner", nil
			}
			n.Kids = g.kids()
			return n
		}
	}
	out := []func(g *gen) *Node{
		leaf(KText, func(g *gen) *Node { return &Node{Vals: []*Val{vs("["), {K: VCargo}, vs("|"), vkey("k"), vs("]")}} }),
		leaf(KText, func(g *gen) *Node { return &Node{Vals: []*Val{{K: VParent, S: "k"}}} }),
		leaf(KAttr, func(g *gen) *Node { return &Node{Name: "a" + g.next(), Vals: []*Val{{K: VCargo}}} }),
		leaf(KMutate, func(g *gen) *Node { return &Node{} }),
		container(KEl, "p", 0),
		container(KColl, "", 0),
		func(g *gen) *Node {
			n := &Node{K: KWhen, Cond: 0}
			n.Kids = g.kids()
			return n
		},
	}
	if nested {
		out = append(out, iter(0), iter(1), iter(2))
	}
	return out
}

func c10Env() *Env {
	return &Env{Data: map[string]any{"k": "outer", "inner": []any{"o1"}}, Cargo: "OC", Conds: []bool{true}}
}

// checkIter renders between two texts that read the enclosing context
func checkIter(x *X, it *Node, set func(data map[string]any)) {
	x.Note(func() string { return it.String() })
	x.Ready()
	probe := func() *Node {
		return &Node{K: KText, Vals: []*Val{vs("("), {K: VCargo}, vs("|"), vkey("k"), vs("|"), {K: VParent, S: "k"}, vs(")")}}
	}
	top := &Node{K: KEl, Name: "div", Kids: []*Node{probe(), it, probe()}}
	mk := func() *Env {
		e := c10Env()
		if set != nil {
			set(e.Data)
		}
		return e
	}
	l := &live{conds: []bool{true}}
	n := top.node(l)
	want := top.Model(mk())
	for round := 0; round < 2; round++ {
		env := mk()
		var buf bytes.Buffer
		ctx := context.New(&buf, env.Data, env.Cargo)
		before := *ctx
		dataBefore := mk().Data
		err := n.Render(ctx)
		got := buf.String()
		if err != nil {
			x.Failf("rendering returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s", d)
		}
		if ctx.Cargo != before.Cargo || ctx.Parent != before.Parent || ctx.Error != nil || ctx.Writer != before.Writer || !reflect.DeepEqual(ctx.Data, dataBefore) ||
			reflect.ValueOf(ctx.Data).Pointer() != reflect.ValueOf(before.Data).Pointer() {
			x.Failf("the enclosing context changed: %+v", ctx)
		}
		x.Observe([]byte(got))
	}
}

func c10Lists(maxQ, maxT, bodyQ, bodyT int, nested bool) func(x *X) {
	return func(x *X) {
		items := []any{}
		alpha := c10Items()
		n := x.Choose(x.Q(maxQ, maxT) + 1)
		for i := 0; i < n; i++ {
			items = append(items, alpha[x.Choose(len(alpha))])
		}
		it := &Node{K: KIter, Form: x.Choose(3), Items: items, Name: "items"}
		g := &gen{x: x, budget: x.Q(bodyQ, bodyT), alpha: c10Kinds(nested)}
		it.Kids = g.kids()
		checkIter(x, it, func(d map[string]any) { d["items"] = items })
	}
}

// any slice, and things that are not slices
func c10Typed(x *X) {
	type strs []string
	type named string
	cases := []struct {
		name  string
		v     any
		items []string
	}{
		{"absent", nil, nil},
		{"nil", nil, nil},
		{"[]any", []any{1, "a<", nil, true}, []string{"1", "a&lt;", "", "true"}},
		{"empty []any", []any{}, nil},
		{"nil []any", []any(nil), nil},
		{"[]string", []string{"x", "", "y&"}, []string{"x", "", "y&amp;"}},
		{"nil []string", []string(nil), nil},
		{"empty []int", []int{}, nil},
		{"[]int", []int{3, -1}, []string{"3", "-1"}},
		{"[]int8", []int8{-128, 127}, []string{"-128", "127"}},
		{"[]float64", []float64{0.5, 1e100}, []string{"0.5", "1e+100"}},
		{"[]bool", []bool{true, false}, []string{"true", "false"}},
		{"[]byte", []byte("ab"), []string{"97", "98"}},
		{"[][]byte", [][]byte{[]byte("<r>"), nil}, []string{"<r>", ""}},
		{"[]map[string]any", []map[string]any{{"k": "v1"}, {"k": "v2"}, nil}, []string{"", "", ""}},
		{"[]fmt.Stringer", []fmt.Stringer{stringer{"s<"}}, []string{"s&lt;"}},
		{"[]named string", []named{"n"}, []string{""}},
		{"named slice", strs{"p", "q"}, []string{"p", "q"}},
		{"[][]string", [][]string{{"a"}, {"b", "c"}}, []string{"", ""}},
		{"[]error", []error{errApp1, nil}, []string{"", ""}},
		{"[]func", []func() any{func() any { return "f" }}, []string{"f"}},
		{"[]*int", []*int{nil}, []string{""}},
		{"[]struct", []unsupported{{1}, {2}}, []string{"", ""}},
		{"array", [2]int{1, 2}, nil},
		{"pointer to slice", &[]int{1}, nil},
		{"pointer to array", &[2]int{1, 2}, nil},
		{"string", "abc", nil},
		{"map", map[string]any{"a": 1}, nil},
		{"int", 3, nil},
		{"func", func() []any { return []any{1} }, nil},
		{"struct", unsupported{1}, nil},
		{"chan", make(chan int), nil},
		{"long", make([]int, 1000), nil},
	}
	c := cases[x.Choose(len(cases))]
	place := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("IterateKey over %s, placement %d", c.name, place) })
	x.Ready()
	body := []aitch.Node{aitch.Attribute("no", 1), aitch.Element("b", aitch.DynamicValueKey("."), aitch.DynamicValueKey("k")), nil}
	n := aitch.IterateKey("items", body...)
	data := map[string]any{"k": "K", "other": []any{1}}
	if c.name != "absent" {
		data["items"] = c.v
	}
	if c.name == "long" {
		c.items = strings.Split(strings.Repeat("0,", 999)+"0", ",")
	}
	if place == 3 && c.name == "absent" {
		data = nil
	}
	want := ""
	for i, it := range c.items {
		k := "K"
		if m, ok := c.v.([]map[string]any); ok {
			k = goText(m[i]["k"])
		}
		want += "<b>" + it + k + "</b>"
	}
	switch place {
	case 1:
		n = aitch.Element("ul", n)
		want = "<ul>" + want + "</ul>"
	case 2:
		n = aitch.Collection(aitch.Text("a"), n, aitch.Text("z"))
		want = "a" + want + "z"
	}
	for i := 0; i < 2; i++ {
		got, err := render(n, &Env{Data: data, Cargo: "C"})
		if err != nil || got != want {
			x.Failf("error %v\ngot  %q\nwant %q", err, clip(got, 500), clip(want, 500))
		}
		x.Observe([]byte(got))
	}
}

// the context of the body: its parent is the enclosing context, and the writer is shared
func c10Context(x *X) {
	form := x.Choose(3)
	depth := 1 + x.Choose(3)
	items := [][]any{{"a"}, {"a", map[string]any{"list": []any{"i", "j"}, "items": []any{"i", "j"}, "m": 1}}, {map[string]any{"items": []any{"z"}}, "b"}}[x.Choose(3)]
	x.Note(func() string { return fmt.Sprintf("form %d depth %d items %v", form, depth, items) })
	x.Ready()
	var problems []string
	var enclosing []*context.Context
	var build func(d int) aitch.Node
	calls := 0
	build = func(d int) aitch.Node {
		enter := func(ctx *context.Context) { enclosing = append(enclosing, ctx) }
		var body []aitch.Node
		probe := func(ctx *context.Context) []byte {
			calls++
			if e := enclosing[len(enclosing)-1]; ctx.Parent != e {
				problems = append(problems, "the parent is not the enclosing context")
			} else if ctx.Writer != e.Writer {
				problems = append(problems, "another writer")
			} else if m, ok := ctx.Cargo.(map[string]any); ok && reflect.ValueOf(m).Pointer() != reflect.ValueOf(ctx.Data).Pointer() {
				problems = append(problems, "the item is not the data")
			} else if !ok && reflect.ValueOf(ctx.Data).Pointer() != reflect.ValueOf(e.Data).Pointer() {
				problems = append(problems, "the data is not that of the enclosing context")
			}
			return nil
		}
		body = append(body, aitch.Text(probe))
		if d > 1 {
			body = append(body, build(d-1), aitch.Text(probe))
		}
		leave := aitch.Text(func(ctx *context.Context) []byte { enclosing = enclosing[:len(enclosing)-1]; return nil })
		var it aitch.Node
		switch form {
		case 0:
			it = aitch.Iterate(func(ctx *context.Context) []any { return items }, body...)
		case 1:
			it = aitch.IterateKey("items", body...)
		case 2:
			it = aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
				for _, i := range items {
					yield(i)
				}
			}, body...)
		}
		return aitch.Collection(aitch.Text(func(ctx *context.Context) []byte { enter(ctx); return nil }), it, leave)
	}
	n := build(depth)
	data := map[string]any{"items": items}
	if _, err := render(n, &Env{Data: data, Cargo: "top"}); err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if len(problems) > 0 {
		x.Failf("%s", strings.Join(problems, "; "))
	}
	if calls < len(items) {
		x.Failf("the body was rendered %d times", calls)
	}
	x.Observe([]byte(fmt.Sprint(form, depth, calls)))
}

func init() {
	register(&Prop{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "A case is an iterator form, a list of items and a body, rendered twice and compared with the model; the enclosing context is compared before and after.",
		Suites: []*Suite{
			{Name: "lists", Bounds: "lists of up to 2 (thorough 3) items of 8 kinds x 3 iterator forms x every body of up to 3 nodes over 10 forms (values of item, data and parent, attributes, callbacks overwriting their context, elements, collections, conditions, nested iterators of each form)", Body: c10Lists(2, 3, 3, 3, true)},
			{Name: "long-lists", Bounds: "lists of up to 3 (thorough 4) items of 8 kinds x 3 iterator forms x every body of up to 2 nodes over 7 forms", Body: c10Lists(3, 4, 2, 2, false)},
			{Name: "typed", Bounds: "33 kinds of data under the key x 4 placements", Body: c10Typed},
			{Name: "context", Bounds: "3 iterator forms nested up to 3 deep over 3 item lists, with the identity of parent, writer and data checked in every body", Body: c10Context},
		},
	})
}
