package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// impOp is one imperative operation: how it is called, and what it denotes given the open elements
type impOp struct {
	name string
	do   func(ic aitch.ImperativeContext)
	mod  func(w *strings.Builder, open *[]string)
}

func denoteEnd(w *strings.Builder, open *[]string) {
	if l := len(*open); l > 0 {
		w.WriteString("</" + (*open)[l-1] + ">")
		*open = (*open)[:l-1]
	}
}

func denoteEndAll(w *strings.Builder, open *[]string) {
	for len(*open) > 0 {
		denoteEnd(w, open)
	}
}

func opStart(name string, void bool, attrs []aitch.Node, tag string) impOp {
	return impOp{
		name: fmt.Sprintf("Start(%s, %v, %d attributes)", name, void, len(attrs)),
		do:   func(ic aitch.ImperativeContext) { ic.Start([]byte(name), void, attrs...) },
		mod: func(w *strings.Builder, open *[]string) {
			w.WriteString("<" + name + tag + ">")
			if !void {
				*open = append(*open, name)
			}
		},
	}
}

func opWrite(name, want string, do func(ic aitch.ImperativeContext)) impOp {
	return impOp{name: name, do: do, mod: func(w *strings.Builder, _ *[]string) { w.WriteString(want) }}
}

var opEnd = impOp{"End", func(ic aitch.ImperativeContext) { ic.End() }, denoteEnd}
var opEndAll = impOp{"EndAll", func(ic aitch.ImperativeContext) { ic.EndAll() }, denoteEndAll}

func someAttrs() []aitch.Node {
	return []aitch.Node{aitch.Attribute("x", "1"), html.Class("c"), nil, aitch.Text("no"), aitch.Attribute("x", dk("k")), html.Class("d"), aitch.BooleanAttribute("on"),
		aitch.Element("no"), aitch.Collection(aitch.Attribute("no", 1)), aitch.Conditional(always, aitch.Attribute("no", 1))}
}

// impOps are the operations sequences are made of; they are shared by all renders of a case
func impOps() []impOp {
	return []impOp{
		opStart("a", false, nil, ""),
		opStart("b-x", false, []aitch.Node{aitch.Attribute("t", "<", 1)}, ` t="&lt;1"`),
		opEnd,
		opEndAll,
		opStart("br", true, nil, ""),
		opWrite("WriteString", "s&lt;", func(ic aitch.ImperativeContext) { ic.WriteString("s<") }),
		opStart("c", false, someAttrs(), ` x="DV" class="c d" on`),
		opStart("hr", true, someAttrs(), ` x="DV" class="c d" on`),
		opWrite("WriteRaw", "<i>&amp;</i>", func(ic aitch.ImperativeContext) { ic.WriteRaw([]byte("<i>&amp;</i>")) }),
		opWrite("WriteNodes(nodes)", "<e>DV</e>t<w></w>", func(ic aitch.ImperativeContext) {
			ic.WriteNodes(aitch.Element("e", dk("k")), nil, aitch.Attribute("no", 1), aitch.Text("t"), aitch.Collection(html.Class("no"), aitch.Element("w")))
		}),
		{"WriteNodes(Imperative)", func(ic aitch.ImperativeContext) { ic.WriteNodes(leftOpen) }, func(w *strings.Builder, _ *[]string) { w.WriteString("<n>in</n><m>") }},
		{"WriteNodes(Element(Imperative))", func(ic aitch.ImperativeContext) {
			ic.WriteNodes(aitch.Element("o", leftOpen, endsAll), endsAll)
		}, func(w *strings.Builder, _ *[]string) { w.WriteString("<o><n>in</n><m>z</o>z") }},
	}
}

// leftOpen ends more than it starts, then leaves an element open
var leftOpen = aitch.Imperative(func(ic aitch.ImperativeContext) error {
	ic.End()
	ic.Start([]byte("n"), false)
	ic.WriteString("in")
	ic.End()
	ic.End()
	ic.Start([]byte("m"), false)
	return nil
})

var endsAll = aitch.Imperative(func(ic aitch.ImperativeContext) error {
	ic.EndAll()
	ic.WriteString("z")
	ic.EndAll()
	ic.End()
	return nil
})

var impOpList = impOps()

func impNames(ops []impOp, seq []int) string {
	var l []string
	for _, o := range seq {
		l = append(l, ops[o].name)
	}
	return strings.Join(l, "; ")
}

func denote(ops []impOp, seq []int) string {
	var w strings.Builder
	var open []string
	for _, o := range seq {
		ops[o].mod(&w, &open)
	}
	return w.String()
}

func impNode(ops []impOp, seq []int) aitch.Node {
	return aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for _, o := range seq {
			ops[o].do(ic)
		}
		return nil
	})
}

func chooseSeq(x *X, ops, max int) []int {
	n := x.Choose(max + 1)
	seq := make([]int, n)
	for i := range seq {
		seq[i] = x.Choose(ops)
	}
	return seq
}

func c12Check(x *X, n aitch.Node, want string) {
	env := &Env{Data: map[string]any{"k": "DV"}}
	for round := 0; round < 2; round++ {
		got, err := render(n, env)
		if err != nil {
			x.Failf("rendering returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("render %d: %s", round+1, d)
		}
		x.Observe([]byte(got))
	}
}

func c12Sequences(x *X) {
	ops := impOpList
	seq := chooseSeq(x, len(ops), x.Q(5, 6))
	x.Note(func() string { return impNames(ops, seq) })
	x.Ready()
	c12Check(x, impNode(ops, seq), denote(ops, seq))
}

// long sequences of the operations that change the stack
func c12Stack(x *X) {
	ops := []impOp{opStart("a", false, nil, ""), opStart("b", false, nil, ""), opEnd, opEndAll, opStart("br", true, nil, "")}
	seq := chooseSeq(x, len(ops), x.Q(8, 10))
	x.Note(func() string { return impNames(ops, seq) })
	x.Ready()
	c12Check(x, impNode(ops, seq), denote(ops, seq))
}

// an imperative node in every place a node can have
func c12Placed(x *X) {
	ops := impOpList
	seq := chooseSeq(x, len(ops), x.Q(3, 4))
	place := x.Choose(12)
	x.Note(func() string { return fmt.Sprintf("place %d: %s", place, impNames(ops, seq)) })
	x.Ready()
	n := impNode(ops, seq)
	d := denote(ops, seq)
	switch place {
	case 0:
		c12Check(x, aitch.Element("p", "x", n, aitch.Attribute("id", 1), n), `<p id="1">x`+d+d+"</p>")
	case 1:
		c12Check(x, aitch.Collection(n, aitch.Collection(n), n), d+d+d)
	case 2:
		c12Check(x, aitch.Conditional(always, n, aitch.Conditional(func(*context.Context) bool { return false }, n)), d)
	case 3:
		// once per item, each with nothing open
		c12Check(x, aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "DV"}, map[string]any{"k": "DV"}} }, n), d+d)
	case 4:
		c12Check(x, aitch.IterateYield(func(_ *context.Context, y func(any)) { y(1); y(2); y(3) }, n), d+d+d)
	case 5:
		c12Check(x, aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{n, n} }), d+d)
	case 6:
		c12Check(x, html.Document(nil, nil, []any{n}), "<!DOCTYPE html>\n<html><body>"+d+"</body></html>")
	case 7, 8, 9:
		// written by another imperative node which has elements open
		opens := place - 7
		c12Check(x, aitch.Imperative(func(ic aitch.ImperativeContext) error {
			for i := 0; i < opens; i++ {
				ic.Start([]byte{'o', byte('0' + i)}, false)
			}
			ic.WriteNodes(n, n)
			ic.End()
			ic.WriteNodes(n)
			ic.EndAll()
			return nil
		}), []string{"", "<o0>", "<o0><o1>"}[opens]+d+d+[]string{"", "</o0>", "</o1>"}[opens]+d+[]string{"", "", "</o0>"}[opens])
	case 10:
		// inside an element and an iteration written by another imperative node
		it := aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "DV"}, map[string]any{"k": "DV"}} }, aitch.Element("i", n))
		c12Check(x, aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("o"), false)
			ic.WriteNodes(it)
			ic.End()
			return nil
		}), "<o><i>"+d+"</i><i>"+d+"</i></o>")
	case 11:
		// the operations of one function spread over two contexts, used alternately
		want := func() string {
			var w strings.Builder
			var outer, inner []string
			w.WriteString("<o>")
			outer = append(outer, "o")
			for i, o := range seq {
				if i%2 == 0 {
					ops[o].mod(&w, &inner)
				} else {
					ops[o].mod(&w, &outer)
				}
			}
			denoteEnd(&w, &inner)
			denoteEndAll(&w, &outer)
			return w.String()
		}()
		c12Check(x, aitch.Imperative(func(outer aitch.ImperativeContext) error {
			outer.Start([]byte("o"), false)
			outer.WriteNodes(aitch.Imperative(func(inner aitch.ImperativeContext) error {
				for i, o := range seq {
					if i%2 == 0 {
						ops[o].do(inner)
					} else {
						ops[o].do(outer)
					}
				}
				inner.End()
				return nil
			}))
			outer.EndAll()
			return nil
		}), want)
	}
}

// sequences within sequences: an operation may be an imperative node with its own sequence
func c12Nested(x *X) {
	ops := []impOp{opStart("a", false, nil, ""), opEnd, opEndAll, opStart("br", true, nil, ""), opStart("b", false, nil, "")}
	var desc func(l [][]int) string
	desc = func(l [][]int) string { return fmt.Sprint(l) }
	levels := 1 + x.Choose(2)
	seqs := make([][]int, levels+1)
	at := make([]int, levels+1) // where the next level is written
	for i := range seqs {
		seqs[i] = chooseSeq(x, len(ops), x.Q(2, 3))
		if i < levels {
			at[i] = x.Choose(len(seqs[i]) + 1)
		}
	}
	x.Note(func() string { return desc(seqs) + fmt.Sprint(at) })
	x.Ready()
	var want func(level int) string
	want = func(level int) string {
		var w strings.Builder
		var open []string
		for i := 0; i <= len(seqs[level]); i++ {
			if i == at[level] && level < levels {
				w.WriteString(want(level + 1))
			}
			if i < len(seqs[level]) {
				ops[seqs[level][i]].mod(&w, &open)
			}
		}
		return w.String()
	}
	var node func(level int) aitch.Node
	node = func(level int) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			for i := 0; i <= len(seqs[level]); i++ {
				if i == at[level] && level < levels {
					ic.WriteNodes(node(level + 1))
				}
				if i < len(seqs[level]) {
					ops[seqs[level][i]].do(ic)
				}
			}
			return nil
		})
	}
	c12Check(x, node(0), want(0))
}

// deep stacks
func c12Deep(x *X) {
	max := x.Q(130, 300)
	n := x.Choose(max)
	m := x.Choose(max + 3)
	way := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("%d starts, %d ends, way %d", n, m, way) })
	x.Ready()
	var w strings.Builder
	var open []string
	name := func(i int) string { return fmt.Sprintf("e%d", i) }
	start := func(i int, void bool) {
		w.WriteString("<" + name(i) + ">")
		if !void {
			open = append(open, name(i))
		}
	}
	for i := 0; i < n; i++ {
		start(i, way == 1 && i%3 == 0)
	}
	for i := 0; i < m; i++ {
		denoteEnd(&w, &open)
	}
	if way == 2 {
		start(1000, false)
		start(1001, false)
	}
	denoteEndAll(&w, &open)
	c12Check(x, aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for i := 0; i < n; i++ {
			ic.Start([]byte(name(i)), way == 1 && i%3 == 0)
		}
		for i := 0; i < m; i++ {
			ic.End()
		}
		if way == 2 {
			ic.Start([]byte("e1000"), false)
			ic.Start([]byte("e1001"), false)
		}
		ic.EndAll()
		return nil
	}), w.String())
}

// every list of attributes and other nodes given to Start
func c12Attrs(x *X) {
	g := &gen{x: x}
	pool := []func() *Node{
		func() *Node { return &Node{K: KAttr, Name: "x", Vals: []*Val{vs("v" + g.next()), vkey("k")}} },
		func() *Node { return &Node{K: KAttr, Name: "y", Vals: []*Val{vs("w\"" + g.next())}} },
		func() *Node { return &Node{K: KBool, Name: "b"} },
		func() *Node { return &Node{K: KDelim, Name: "class", Vals: []*Val{vs("c" + g.next()), vkey("k")}} },
		func() *Node { return &Node{K: KDelim, Name: "style", Vals: []*Val{vs("s" + g.next())}} },
		func() *Node { return &Node{K: KDelim, Name: "class", Vals: []*Val{vkey("none")}} },
		func() *Node { return &Node{K: KText, Vals: []*Val{vs("no")}} },
		func() *Node { return &Node{K: KNil} },
		func() *Node { return &Node{K: KColl, Kids: []*Node{{K: KAttr, Name: "x", Vals: []*Val{vs("no")}}}} },
		func() *Node { return &Node{K: KDelim, Name: "class"} },
		func() *Node { return &Node{K: KAttr, Form: 2, Name: "x", Vals: []*Val{vs("u<" + g.next()), vkey("k")}} },
	}
	n := x.Choose(x.Q(4, 6))
	attrs := make([]*Node, n)
	for i := range attrs {
		attrs[i] = pool[x.Choose(len(pool))]()
	}
	void := x.Bool()
	x.Note(func() string { return fmt.Sprint(attrs, void) })
	x.Ready()
	l := &live{}
	var nodes []aitch.Node
	var ds []decl
	for _, a := range attrs {
		nodes = append(nodes, a.node(l))
		if a.isAttr() {
			ds = append(ds, decl{a, false, true})
		}
	}
	env := &Env{Data: map[string]any{"k": "DV"}}
	var w bytes.Buffer
	w.WriteString("<e")
	modelAttrs(&w, ds, env)
	w.WriteString(">t")
	if !void {
		w.WriteString("</e>")
	}
	c12Check(x, aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("e"), void, nodes...)
		ic.WriteString("t")
		ic.End()
		return nil
	}), w.String())
}

// strings and raw data
func c12Data(x *X) {
	pieces := []string{"", "<", ">", "&", "\"", "'", "a", "\x00", "\xff", "é", "&lt;", "-->", "\n", "]]>", "😀"}
	n := x.Choose(x.Q(4, 5))
	s := ""
	for i := 0; i < n; i++ {
		s += pieces[x.Choose(len(pieces))]
	}
	x.Note(func() string { return fmt.Sprintf("%q", s) })
	x.Ready()
	n1 := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("p"), false)
		ic.WriteString(s)
		ic.Start([]byte("q"), false)
		ic.WriteString(s)
		ic.EndAll()
		return nil
	})
	got, err := render(n1, &Env{})
	if err != nil {
		x.Failf("%v", err)
	}
	if want := "<p>" + esc(s) + "<q>" + esc(s) + "</q></p>"; stdOpt.Same(got, want) != "" {
		x.Failf("WriteString(%q): %s", s, stdOpt.Same(got, want))
	}
	n2 := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.WriteRaw([]byte(s))
		ic.WriteRaw(nil)
		ic.WriteRaw([]byte(s))
		return nil
	})
	got, err = render(n2, &Env{})
	if err != nil || got != s+s {
		x.Failf("WriteRaw(%q) twice wrote %q, %v", s, got, err)
	}
	x.Observe([]byte(got))
}

func init() {
	register(&Prop{
		ID:     "C12",
		Level:  "model_checking",
		Rule:   "A case is a sequence of imperative operations (or a nest of such sequences) and a place; the output must be the concatenation of what the operations denote on an open-element stack. Every case is rendered twice.",
		Assume: []string{"the name given to Start is not modified by the caller until the element is closed"},
		Suites: []*Suite{
			{Name: "sequences", Bounds: "all sequences of up to 5 (thorough 6) of 12 operations", Body: c12Sequences},
			{Name: "stack", Bounds: "all sequences of up to 8 (thorough 10) of Start (two names), void Start, End, EndAll", Body: c12Stack},
			{Name: "placed", Bounds: "sequences of up to 3 (thorough 4) operations in 12 places, among them within other imperative nodes with elements open and with two contexts used alternately", Body: c12Placed},
			{Name: "nested", Bounds: "up to 3 levels of sequences of up to 2 (thorough 3) operations written within each other at every position", Body: c12Nested},
			{Name: "deep", Bounds: "up to 130 (thorough 300) open elements, any number of them ended, then started again, then EndAll", Body: c12Deep},
			{Name: "attributes", Bounds: "Start with up to 3 (thorough 5) nodes of 11 kinds, void or not", Body: c12Attrs},
			{Name: "data", Bounds: "strings of up to 3 (thorough 4) of 15 pieces", Body: c12Data},
		},
	})
}
