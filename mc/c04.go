package main

import (
	"fmt"
	"strconv"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func c04Kinds(full bool) []func(g *gen) *Node {
	out := []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("t" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "a" + l, Vals: []*Val{vs("v")}} }),
		leaf(KDelim, func(g *gen) *Node { return &Node{Name: "class", Vals: []*Val{vs("c" + g.next())}} }),
		func(g *gen) *Node {
			n := &Node{K: KCond, Cond: g.cond()}
			n.Kids = g.kids()
			return n
		},
		container(KColl, "", 0),
	}
	if full {
		out = append(out,
			leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "id", Vals: []*Val{vs("i" + l)}} }),
			func(g *gen) *Node {
				n := &Node{K: KWhen, Cond: g.cond(), Form: 1}
				n.Kids = g.kids()
				return n
			},
			func(g *gen) *Node {
				n := &Node{K: KWhen, Cond: g.cond()}
				n.Kids = g.kids()
				return n
			},
			container(KEl, "p", 0),
		)
	}
	return out
}

func (g *gen) cond() int {
	g.conds++
	return g.conds - 1
}

func c04Trees(full bool, quick, thorough int) func(x *X) {
	return func(x *X) {
		g := &gen{x: x, budget: x.Q(quick, thorough), alpha: c04Kinds(full)}
		top := &Node{K: []Kind{KEl, KVoid}[x.Choose(2)], Name: "div"}
		if top.K == KVoid {
			top.Name = "img"
		}
		top.Kids = g.kids()
		x.Note(func() string { return top.String() })
		x.Ready()
		checkValuations(x, top, g.conds)
	}
}

// checkValuations renders one built tree under every valuation of its conditions
func checkValuations(x *X, top *Node, conds int) {
	l := &live{conds: make([]bool, conds)}
	n := top.node(l)
	for v := 0; v < 1<<conds; v++ {
		data := map[string]any{}
		for i := range l.conds {
			l.conds[i] = v>>i&1 == 1
			k := "k" + strconv.Itoa(i)
			// several forms of holding and not holding
			switch {
			case l.conds[i] && i%2 == 0:
				data[k] = true
			case l.conds[i]:
				data[k] = "x"
			case i%2 == 0:
				data[k] = false
			}
		}
		env := &Env{Data: data, Conds: l.conds}
		want := top.Model(env)
		got, err := render(n, env)
		if err != nil {
			x.Failf("rendering returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("conditions %v: %s", l.conds, d)
		}
		x.Observe([]byte(got))
	}
}

// conditionals nested to a depth, with attributes and content at each level, and sibling conditionals at each level
func c04Nested(x *X) {
	maxDepth := x.Q(6, 7)
	depth := 1 + x.Choose(maxDepth)
	conds := 0
	next := func() int { conds++; return conds - 1 }
	var kids []*Node
	branch := x.Choose(depth) // the level with a second (and third) sibling
	siblings := 1 + x.Choose(3)
	via := x.Choose(3)
	for lvl := depth - 1; lvl >= 0; lvl-- {
		mk := func(tag string) *Node {
			s := strconv.Itoa(lvl) + tag
			c := &Node{K: KCond, Cond: next()}
			c.Kids = []*Node{
				{K: KDelim, Name: "class", Vals: []*Val{vs("c" + s)}},
				{K: KAttr, Name: "a" + s, Vals: []*Val{vs("v")}},
				{K: KRaw, Vals: []*Val{vs("t" + s + ".")}},
			}
			return c
		}
		main := mk("")
		main.Kids = append(main.Kids, kids...)
		level := []*Node{main}
		if lvl == branch {
			for i := 1; i < siblings; i++ {
				level = append(level, mk("s"+strconv.Itoa(i)))
			}
		}
		switch via {
		case 1:
			level = []*Node{{K: KColl, Kids: level}}
		case 2:
			level = append([]*Node{{K: KAttr, Name: "a" + strconv.Itoa(lvl), Vals: []*Val{vs("outer")}}}, level...)
		}
		kids = level
	}
	top := &Node{K: KEl, Name: "div", Kids: kids}
	x.Note(func() string { return top.String() })
	x.Ready()
	checkValuations(x, top, conds)
}

// When: every state of the key
func c04When(x *X) {
	states := []struct {
		name string
		set  func(m map[string]any)
		hold bool
	}{
		{"absent", func(m map[string]any) {}, false},
		{"true", func(m map[string]any) { m["k"] = true }, true},
		{"false", func(m map[string]any) { m["k"] = false }, false},
		{"nil", func(m map[string]any) { m["k"] = nil }, true},
		{"zero", func(m map[string]any) { m["k"] = 0 }, true},
		{"empty string", func(m map[string]any) { m["k"] = "" }, true},
		{"\"false\"", func(m map[string]any) { m["k"] = "false" }, true},
		{"struct", func(m map[string]any) { m["k"] = struct{}{} }, true},
		{"pointer to false", func(m map[string]any) { f := false; m["k"] = &f }, true},
		{"other key", func(m map[string]any) { m["kk"] = true; m["!k"] = true }, false},
	}
	s := states[x.Choose(len(states))]
	s2 := states[x.Choose(len(states))]
	nilData := x.Bool()
	form := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("key %s then %s nilData %v form %d", s.name, s2.name, nilData, form) })
	x.Ready()
	pos := aitch.When("k", aitch.Attribute("yes", "1"), aitch.Text("Y"))
	neg := aitch.When("!k", aitch.Attribute("no", "1"), aitch.Text("N"))
	both := aitch.When("k", aitch.When("!k", aitch.Attribute("never", "1"), aitch.Text("X")))
	var n aitch.Node
	switch form {
	case 0:
		n = aitch.Element("div", pos, neg, both)
	case 1:
		n = aitch.Element("div", aitch.Collection(both, neg, aitch.Collection(pos)))
	case 2:
		n = aitch.VoidElement("div", pos, neg, both)
	case 3:
		n = aitch.Element("div", aitch.Conditional(func(*context.Context) bool { return true }, pos, neg, both))
	}
	for i, st := range []int{0, 1} {
		cur := s
		if st == 1 {
			cur = s2
		}
		m := map[string]any{}
		cur.set(m)
		hold := cur.hold
		if nilData && i == 0 {
			m, hold = nil, false
		}
		want := `<div no="1">N</div>`
		if hold {
			want = `<div yes="1">Y</div>`
		}
		if form == 2 {
			want = want[:len(want)-len("N</div>")]
		}
		got, err := render(n, &Env{Data: m})
		if err != nil {
			x.Failf("rendering returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("key %s: %s", cur.name, d)
		}
		x.Observe([]byte(got))
	}
}

// conditional and unconditional declarations of the same names, under every valuation
func c04Override(x *X) {
	kind := []Kind{KAttr, KDelim, KBool}[x.Choose(3)]
	n := 2 + x.Choose(x.Q(2, 3))
	conds := 0
	var kids []*Node
	for i := 0; i < n; i++ {
		name := "n"
		if x.Bool() {
			name = "m"
		}
		if kind == KDelim {
			name = map[string]string{"n": "class", "m": "dl"}[name]
		}
		a := &Node{K: kind, Name: name, Form: 1}
		if kind != KBool {
			a.Vals = []*Val{vs("v" + strconv.Itoa(i))}
		}
		switch x.Choose(4) {
		case 0:
			kids = append(kids, a)
		case 1:
			conds++
			kids = append(kids, &Node{K: KCond, Cond: conds - 1, Kids: []*Node{a}})
		case 2:
			conds += 2
			kids = append(kids, &Node{K: KCond, Cond: conds - 2, Kids: []*Node{{K: KColl, Kids: []*Node{{K: KWhen, Cond: conds - 1, Form: 1, Kids: []*Node{a}}}}}})
		case 3:
			kids = append(kids, &Node{K: KColl, Kids: []*Node{a}})
		}
	}
	top := &Node{K: KEl, Name: "div", Kids: kids}
	x.Note(func() string { return top.String() })
	x.Ready()
	checkValuations(x, top, conds)
}

func init() {
	register(&Prop{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "A case is a tree of conditionals built once and rendered under every valuation of its conditions; each rendering is one comparison.",
		Suites: []*Suite{
			{Name: "trees", Bounds: "every tree of up to 6 (thorough 7) nodes over 5 forms (text, attribute, class, conditional with its own condition, collection) x all valuations", Body: c04Trees(false, 6, 7)},
			{Name: "trees-all-forms", Bounds: "every tree of up to 5 (thorough 6) nodes over 9 forms (adds shared attribute, When, negated When, element) x all valuations", Body: c04Trees(true, 5, 6)},
			{Name: "nested", Bounds: "conditionals nested up to 6 (thorough 7) deep with up to 3 siblings at any one level, directly, through collections or beside unconditional attributes x all valuations", Body: c04Nested},
			{Name: "override", Bounds: "2 to 3 (thorough 4) declarations of 2 names, each unconditional, conditional, doubly conditional or in a collection, 3 attribute kinds x all valuations", Body: c04Override},
			{Name: "when", Bounds: "10 states of a key, rendered twice with different states x nil data x 4 placements", Body: c04When},
		},
	})
}
