package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// stdout is what f writes to the standard output
func stdout(f func() error) (string, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return "", err
	}
	old, done := os.Stdout, make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	os.Stdout = w
	err = func() error {
		defer func() { os.Stdout = old }()
		return f()
	}()
	_ = w.Close()
	s := <-done
	_ = r.Close()
	return s, err
}

// nodes given as values: those that have values stand for them, in order; others have no text

type valNode struct {
	v    any
	text func(env *Env) string
	node bool
	desc string
}

var valLeaves = []valNode{
	{"s<", func(*Env) string { return "s&lt;" }, false, "text"},
	{dk("k"), func(e *Env) string { return goText(e.Data["k"]) }, false, "key"},
	{dk("."), func(e *Env) string { return goText(e.Cargo) }, false, "cargo"},
	{[]byte("<raw>"), func(*Env) string { return "<raw>" }, false, "bytes"},
	{nil, func(*Env) string { return "" }, false, "nil"},
	{aitch.Element("b", "no"), func(*Env) string { return "" }, true, "element"},
	{aitch.BooleanAttribute("no"), func(*Env) string { return "" }, true, "boolean attribute"},
	{aitch.Conditional(func(*context.Context) bool { return true }, aitch.Text("no")), func(*Env) string { return "" }, true, "conditional"},
	{aitch.Iterate(func(*context.Context) []any { return []any{1} }, aitch.Text("no")), func(*Env) string { return "" }, true, "iteration"},
	{aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteString("no"); return nil }), func(*Env) string { return "" }, true, "imperative"},
}

var valWraps = []struct {
	name  string
	build func(vals []any) any
	node  bool
}{
	{"Text", func(v []any) any { return aitch.Text(v...) }, true},
	{"Fragment", func(v []any) any { return aitch.Fragment(v...) }, true},
	{"Comment", func(v []any) any { return aitch.Comment(v...) }, true},
	{"PI", func(v []any) any { return aitch.PI("X", v...) }, true},
	{"Attribute", func(v []any) any { return aitch.Attribute("x", v...) }, true},
	{"DelimitedAttribute", func(v []any) any { return aitch.DelimitedAttribute("x", "", v...) }, true},
	{"NewConcatValue", func(v []any) any { return aitch.NewConcatValue(v...) }, false},
	{"Collection", func(v []any) any {
		var l []aitch.Node
		for _, n := range v {
			if n == nil {
				l = append(l, nil)
			} else {
				l = append(l, n.(aitch.Node))
			}
		}
		return aitch.Collection(l...)
	}, true},
	{"NewValue", func(v []any) any {
		if len(v) == 0 {
			return aitch.NewValue(nil)
		}
		return aitch.NewValue(v[0])
	}, false},
}

// valTree is a value made of up to so many parts
func valTree(x *X, budget *int, nodesOnly bool) valNode {
	*budget--
	n := len(valLeaves)
	if *budget > 0 {
		n += len(valWraps)
	}
	i := x.Choose(n)
	if i < len(valLeaves) {
		l := valLeaves[i]
		if nodesOnly && !l.node && l.v != nil {
			panic(skipRun{})
		}
		return l
	}
	w := valWraps[i-len(valLeaves)]
	if nodesOnly && !w.node {
		panic(skipRun{})
	}
	var subs []valNode
	var vals []any
	limit := 9
	if w.name == "NewValue" {
		limit = 1
	}
	for len(subs) < limit && *budget > 0 && x.Bool() {
		s := valTree(x, budget, w.name == "Collection")
		subs = append(subs, s)
		vals = append(vals, s.v)
	}
	names := make([]string, len(subs))
	for i, s := range subs {
		names[i] = s.desc
	}
	return valNode{w.build(vals), func(e *Env) string {
		var sb strings.Builder
		for _, s := range subs {
			sb.WriteString(s.text(e))
		}
		return sb.String()
	}, w.node, w.name + "(" + strings.Join(names, ", ") + ")"}
}

func c11Nodes(x *X) {
	p := c11Positions[x.Choose(len(c11Positions))]
	switch p.name {
	case "element content", "element content between", "document body", "conditional content":
		panic(skipRun{}) // nodes are nodes there
	case "htmx header":
		panic(skipRun{}) // of one value
	}
	budget := x.Q(4, 5)
	v := valTree(x, &budget, false)
	x.Note(func() string { return v.desc + " as " + p.name })
	x.Ready()
	n := p.build(v.v)
	squeeze := strings.NewReplacer(" ", "", ";", "")
	for _, e := range []*Env{{Data: map[string]any{"k": "D&"}, Cargo: "C"}, {Data: map[string]any{"k": 5}}, {}} {
		got, err := render(n, e)
		if err != nil {
			x.Failf("%v", err)
		}
		want := p.pre + v.text(e) + p.post
		if squeeze.Replace(got) != squeeze.Replace(want) {
			x.Failf("%q instead of %q", got, want)
		}
		x.Observe([]byte(got))
	}
}

func init() {
	p := props["C11"]
	p.Suites = append(p.Suites, &Suite{Name: "nodes-as-values", Bounds: fmt.Sprintf("all values of up to 4 (thorough 5) parts made of %d kinds of leaves (also nodes without values) by %d kinds of nodes and values that hold values, in 19 positions x 3 environments", len(valLeaves), len(valWraps)), Body: c11Nodes})
}
