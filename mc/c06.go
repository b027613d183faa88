package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// assemble builds a node from already built nodes
func (n *Node) assemble(l *live, kids []aitch.Node) aitch.Node {
	args := make([]any, 0, len(kids)+3)
	nodes := make([]aitch.Node, 0, len(kids)+3)
	nils := func(when int) {
		// nil arguments are no nodes
		if n.Form == when || n.Form == 3 {
			args, nodes = append(args, nil), append(nodes, nil)
		}
	}
	nils(1)
	for i, k := range kids {
		args, nodes = append(args, k), append(nodes, k)
		if i < len(kids)-1 {
			nils(3)
		}
	}
	nils(2)
	switch n.K {
	case KEl:
		return aitch.Element(n.Name, args...)
	case KVoid:
		return aitch.VoidElement(n.Name, args...)
	case KColl:
		return aitch.Collection(nodes...)
	case KCond:
		i := n.Cond
		return aitch.Conditional(func(*context.Context) bool { return l.conds[i] }, nodes...)
	case KIter:
		items := n.Items
		return aitch.Iterate(func(*context.Context) []any { return items }, nodes...)
	case KImpEl:
		name := []byte(n.Name)
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start(name, false, nodes...)
			ic.WriteNodes(nodes...)
			ic.End()
			return nil
		})
	case KCollect:
		return aitch.ContentCollect(func(*context.Context) []aitch.Node { return nodes })
	case KDoc:
		return html.Document(nil, nil, args)
	}
	panic("assemble")
}

type poolEntry struct {
	ast  *Node
	node aitch.Node
}

func c06Env(i int) *Env {
	d := []map[string]any{{"k": "A<", "k0": true}, {"k": "B"}}[i]
	return &Env{Data: d, Cargo: fmt.Sprint("cargo", i), Conds: []bool{i == 0, i == 1}}
}

func checkPool(x *X, pool []poolEntry, l *live, what string) {
	for i := 0; i < 2; i++ {
		e := c06Env(i)
		copy(l.conds, e.Conds)
		for k, p := range pool {
			want := p.ast.Model(c06Env(i))
			got, err := render(p.node, e)
			if err != nil {
				x.Failf("%s: rendering #%d: %v", what, k, err)
			}
			d := ""
			if p.ast.isAttr() {
				got, want = "<i"+got+">", "<i"+attrModel(p.ast, c06Env(i))+">"
			}
			if d = stdOpt.Same(got, want); d != "" {
				x.Failf("%s: #%d %s changed: %s", what, k, p.ast, d)
			}
			x.Observe([]byte(got))
		}
	}
}

func attrModel(n *Node, env *Env) string {
	var w bytes.Buffer
	modelAttrs(&w, []decl{{n, false, true}}, env)
	return w.String()
}

// pools of nodes to begin with
func c06Pool(which int) []*Node {
	a := []*Node{
		{K: KDelim, Name: "class", Vals: []*Val{vs("a"), vkey("k"), vs("b")}},
		{K: KDelim, Name: "class", Form: 1, Vals: []*Val{vs("c")}},
		{K: KAttr, Name: "id", Vals: []*Val{vs("i"), vkey("k")}},
		{K: KText, Vals: []*Val{vs("t"), {K: VCargo}}},
	}
	switch which {
	case 0:
		return a
	case 1:
		return []*Node{a[0], {K: KColl, Kids: []*Node{a[1], a[2], a[3]}}, {K: KEl, Name: "p", Kids: []*Node{a[0], a[3]}}}
	case 2:
		return []*Node{a[0], a[1], {K: KCond, Cond: 0, Kids: []*Node{a[1], a[2]}}, {K: KCond, Cond: 1, Kids: []*Node{a[0], {K: KBool, Name: "id"}, a[3]}}}
	}
	if which == 4 {
		return []*Node{
			{K: KDelim, Name: "class", Vals: []*Val{vs("a"), {K: VNil}, vkey("missing"), {K: VNil}}},
			{K: KDelim, Name: "class", Form: 1, Vals: []*Val{{K: VNil}, {K: VConcat, Sub: []*Val{vs("c"), {K: VNil}, vkey("k")}}}},
			{K: KColl, Kids: []*Node{a[3], {K: KNil}}},
		}
	}
	return []*Node{a[0], {K: KBool, Name: "hidden"}, {K: KIter, Items: []any{1, 2}, Kids: []*Node{a[3]}}, {K: KImpEl, Name: "q", Kids: []*Node{a[0], a[3]}}}
}

func c06Sequences(opsQ, opsT int, kinds []Node, nils bool) func(x *X) {
	return func(x *X) {
		pools := 5
		if nils {
			pools = 2
		}
		which := x.Choose(pools)
		if nils && which == 1 {
			which = 4
		}
		asts := append([]*Node(nil), c06Pool(which)...)
		initial := len(asts)
		n := 1 + x.Choose(x.Q(opsQ, opsT))
		type step struct {
			ast  *Node
			args []int
		}
		var steps []step
		for i := 0; i < n; i++ {
			k := kinds[x.Choose(len(kinds))]
			ast := &k
			if nils {
				// where nil arguments are given: nowhere, last, everywhere
				ast.Form = []int{2, 0, 3}[x.Choose(min(3, len(kinds)+1))]
			}
			args := []int{x.Choose(len(asts))}
			if second := x.Choose(len(asts) + 1); second < len(asts) {
				args = append(args, second)
			}
			for _, a := range args {
				ast.Kids = append(ast.Kids, asts[a])
			}
			asts = append(asts, ast)
			steps = append(steps, step{ast, args})
		}
		x.Note(func() string {
			s := fmt.Sprintf("pool %d", which)
			for i, st := range steps {
				s += fmt.Sprintf("; #%d = %s of %v", initial+i, kindNames[st.ast.K], st.args)
			}
			return s
		})
		x.Ready()
		l := &live{conds: []bool{true, false}}
		var pool []poolEntry
		for _, a := range asts[:initial] {
			pool = append(pool, poolEntry{a, a.node(l)})
		}
		// the nodes of the pool that contain others of it were built apart: now everything is shared
		for i, st := range steps {
			var kids []aitch.Node
			for _, a := range st.args {
				kids = append(kids, pool[a].node)
			}
			pool = append(pool, poolEntry{st.ast, st.ast.assemble(l, kids)})
			if i == len(steps)-1 {
				checkPool(x, pool, l, "after the constructions")
				checkPool(x, pool, l, "after everything was rendered")
			}
		}
	}
}

// renders of one template, one after another: with other data, failing writers and failing callbacks between
func c06Renders(x *X) {
	g := &gen{x: x, budget: x.Q(3, 4), alpha: c06Kinds()}
	top := &Node{K: []Kind{KEl, KColl, KImpEl}[x.Choose(3)], Name: "div"}
	top.Kids = g.kids()
	n := x.Q(3, 3)
	var seq []int
	for i := 0; i < n; i++ {
		seq = append(seq, x.Choose(4))
	}
	x.Note(func() string { return fmt.Sprintf("%s rendered %v", top, seq) })
	x.Ready()
	l := &live{conds: []bool{true, false}}
	node := top.node(l)
	good := func(i int, what string) {
		e := c06Env(i)
		copy(l.conds, e.Conds)
		want := top.Model(c06Env(i))
		got, err := render(node, e)
		if err != nil {
			x.Failf("%s: %v", what, err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s: %s", what, d)
		}
		x.Observe([]byte(got))
	}
	for i, s := range seq {
		switch s {
		case 0, 1:
			good(s, fmt.Sprintf("render %d", i))
		case 2:
			e := c06Env(0)
			w := &faultWriter{k: 2 + i, kind: faultPartial}
			_ = node.Render(context.New(w, e.Data, e.Cargo))
		case 3:
			e := c06Env(1)
			e.Data["k"] = func() any { panic("callback panics") }
			func() {
				defer func() { _ = recover() }()
				_ = node.Render(context.New(&bytes.Buffer{}, e.Data, e.Cargo))
			}()
		}
	}
	good(0, "at last")
	good(1, "at last")
}

func c06Kinds() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KText, func(g *gen) *Node { return &Node{Vals: []*Val{vkey("k"), {K: VCargo}}} }),
		leaf(KDelim, func(g *gen) *Node { return &Node{Name: "class", Vals: []*Val{vs("c" + g.next()), vkey("k")}} }),
		leaf(KAttr, func(g *gen) *Node { return &Node{Name: "id", Vals: []*Val{vs("i" + g.next()), vkey("k")}} }),
		container(KEl, "p", 0),
		container(KColl, "", 0),
		func(g *gen) *Node {
			n := &Node{K: KCond, Cond: g.x.Choose(2)}
			n.Kids = g.kids()
			return n
		},
		func(g *gen) *Node {
			n := &Node{K: KIter, Form: 2 * g.x.Choose(2), Items: []any{map[string]any{"k": "item"}, 2}}
			n.Kids = g.kids()
			return n
		},
		container(KImpEl, "q", 0),
		container(KImpEl, "q", 1),
	}
}

// constructors leave the slices and maps they are given alone
func c06Args(x *X) {
	type fn struct {
		name string
		v    reflect.Value
	}
	var fns []fn
	anySlice, nodeSlice := reflect.TypeOf([]any(nil)), reflect.TypeOf([]aitch.Node(nil))
	for pkg, t := range table {
		for name, f := range t {
			v := reflect.ValueOf(f)
			ty := v.Type()
			if ty.IsVariadic() && (ty.In(ty.NumIn()-1) == anySlice || ty.In(ty.NumIn()-1) == nodeSlice) && simpleParams(ty) {
				fns = append(fns, fn{pkg + "." + name, v})
			}
		}
	}
	fns = append(fns, fn{"html.Document head", reflect.ValueOf(func(l ...any) aitch.Node { return html.Document("en", l, nil) })},
		fn{"html.Document body", reflect.ValueOf(func(l ...any) aitch.Node { return html.Document(nil, nil, l) })},
		fn{"html.Document both", reflect.ValueOf(func(l ...any) aitch.Node { return html.Document(l[0], l, l) })})
	sort.Slice(fns, func(i, j int) bool { return fns[i].name < fns[j].name })
	f := fns[x.Choose(len(fns))]
	form := x.Choose(12)
	x.Note(func() string { return fmt.Sprintf("%s form %d", f.name, form) })
	x.Ready()
	ty := f.v.Type()
	sentinel := aitch.Text("sentinel")
	sep, other := html.Class("k", aitch.DynamicValueKey("k")), html.B("x")
	var full, slice reflect.Value
	if ty.In(ty.NumIn()-1) == anySlice {
		m := map[string]any{"z": 1}
		a := [][]any{
			{"a", aitch.DynamicValueKey("k"), 3}, {sep, "t", other}, {[]byte("raw")}, {nil, "x", nil}, {}, {other, sep, aitch.Text("y"), m},
			{nil, sep, "t"}, {nil, nil, other, "t", nil, sep}, {"", "a", "", "b"}, {"same", "same", other, other, "same"}, {sep, m, m, "z", "a"}, {aitch.Collection(sep, other), nil, aitch.Collection(), "t", aitch.NewValue("v")},
		}[form]
		s := append(make([]any, 0, len(a)+5), a...)
		s = s[:cap(s)]
		for i := len(a); i < len(s); i++ {
			s[i] = sentinel
		}
		full = reflect.ValueOf(s)
		slice = reflect.ValueOf(s[:len(a)])
	} else {
		a := [][]aitch.Node{{sep, other}, {sep, nil, other}, {nil}, {other, sep, sep}, {}, {aitch.Collection(sep), other},
			{nil, sep, other}, {nil, nil, other, sep, nil, sep}, {aitch.Text(""), other, aitch.Text(""), sep}, {other, other, sep, sep, other}, {sep, html.Id("i"), other, html.Id("j"), other}, {aitch.Collection(sep, other), nil, aitch.Collection(), sep}}[form]
		s := append(make([]aitch.Node, 0, len(a)+5), a...)
		s = s[:cap(s)]
		for i := len(a); i < len(s); i++ {
			s[i] = sentinel
		}
		full = reflect.ValueOf(s)
		slice = reflect.ValueOf(s[:len(a)])
	}
	before := make([]any, full.Len())
	for i := range before {
		before[i] = full.Index(i).Interface()
	}
	env := c06Env(0)
	sepBefore, _ := render(sep, env)
	otherBefore, _ := render(other, env)
	var first aitch.Node
	outs := []string{}
	for round := 0; round < 2; round++ {
		args := simpleArgs(ty)
		args = append(args, slice)
		var out []reflect.Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					out = nil
				}
			}()
			out = f.v.CallSlice(args)
		}()
		if out == nil || len(out) == 0 {
			break
		}
		n, isNode := out[0].Interface().(aitch.Node)
		if !isNode || n == nil {
			if v, isVal := out[0].Interface().(aitch.Value); isVal {
				n = aitch.Text(v)
			} else {
				break
			}
		}
		if first == nil {
			first = n
		}
		for i := 0; i < 2; i++ {
			s, err := render(aitch.Element("i", first, n, html.Class("more"), aitch.Conditional(func(*context.Context) bool { return true }, n, html.Class("c"))), env)
			if err != nil {
				x.Failf("rendering: %v", err)
			}
			outs = append(outs, s)
			x.Observe([]byte(s))
		}
	}
	for i := range outs {
		if outs[i] != outs[0] {
			x.Failf("output %d is %q, the first %q", i, outs[i], outs[0])
		}
	}
	for i := range before {
		if !reflect.DeepEqual(before[i], full.Index(i).Interface()) {
			x.Failf("argument %d of the caller's slice (length %d) is now %v", i, slice.Len(), full.Index(i).Interface())
		}
	}
	if s, _ := render(sep, env); s != sepBefore {
		x.Failf("an argument renders %q instead of %q", s, sepBefore)
	}
	if s, _ := render(other, env); s != otherBefore {
		x.Failf("an argument renders %q instead of %q", s, otherBefore)
	}
}

// simpleParams: the parameters before the variadic one can be made up
func simpleParams(ty reflect.Type) bool {
	for i := 0; i < ty.NumIn()-1; i++ {
		switch ty.In(i).Kind() {
		case reflect.String, reflect.Slice, reflect.Func, reflect.Interface, reflect.Bool:
		default:
			return false
		}
	}
	return ty.NumOut() > 0
}

func simpleArgs(ty reflect.Type) (args []reflect.Value) {
	for i := 0; i < ty.NumIn()-1; i++ {
		p := ty.In(i)
		switch {
		case p == reflect.TypeOf(aitch.ConditionalFunc(nil)):
			args = append(args, reflect.ValueOf(aitch.ConditionalFunc(func(*context.Context) bool { return true })))
		case p == reflect.TypeOf((func(*context.Context) []any)(nil)):
			args = append(args, reflect.ValueOf(func(*context.Context) []any { return []any{1, 2} }))
		case p == reflect.TypeOf((func(*context.Context, func(any)))(nil)):
			args = append(args, reflect.ValueOf(func(_ *context.Context, yield func(any)) { yield(1) }))
		case p.Kind() == reflect.String:
			args = append(args, reflect.ValueOf("data-k").Convert(p))
		case p == reflect.TypeOf([]byte(nil)):
			b := make([]byte, 6, 20)
			copy(b, "data-k")
			args = append(args, reflect.ValueOf(b))
		case p.Kind() == reflect.Interface:
			args = append(args, reflect.ValueOf("if").Convert(p))
		default:
			args = append(args, reflect.Zero(p))
		}
	}
	return
}

// byte slices given as values are not written to, not even beyond their length
func c06Bytes(x *X) {
	var names []string
	for pkg, t := range table {
		for name, f := range t {
			ty := reflect.TypeOf(f)
			if ty.NumIn() == 1 && !ty.IsVariadic() && ty.In(0) == reflect.TypeOf((*any)(nil)).Elem() && ty.NumOut() == 1 || ty.IsVariadic() && ty.NumIn() == 1 && ty.In(0) == reflect.TypeOf([]any(nil)) {
				names = append(names, pkg+"."+name)
			}
		}
	}
	sort.Strings(names)
	name := names[x.Choose(len(names))]
	form := x.Choose(2)
	x.Note(func() string { return fmt.Sprintf("%s given bytes, form %d", name, form) })
	x.Ready()
	pkg, fn, _ := strings.Cut(name, ".")
	f := reflect.ValueOf(table[pkg][fn])
	backing := []byte("0123456789abcdef0123456789abcdef")
	keep := string(backing)
	var arg any = backing[4:6]
	if form == 1 {
		b := backing[4:6]
		arg = func(*context.Context) []byte { return b }
	}
	func() {
		defer func() { _ = recover() }()
		for i := 0; i < 2; i++ {
			out := f.Call([]reflect.Value{reflect.ValueOf(arg)})
			n, isNode := out[0].Interface().(aitch.Node)
			if !isNode {
				v, isVal := out[0].Interface().(aitch.Value)
				if !isVal {
					return
				}
				n = html.Div(v, html.Class(v, "x"))
			}
			s, _ := render(aitch.Element("i", n, n, html.Class("a")), &Env{})
			x.Observe([]byte(s))
		}
	}()
	if string(backing) != keep {
		x.Failf("the caller's bytes became %q", backing)
	}
}

func init() {
	kinds := []Node{{K: KEl, Name: "div"}, {K: KVoid, Name: "img"}, {K: KColl}, {K: KCond}, {K: KIter, Items: []any{1, 2}}, {K: KImpEl, Name: "q"}, {K: KCollect}}
	register(&Prop{
		ID:     "C06",
		Level:  "model_checking",
		Rule:   "A case is a sequence of constructions from a pool of shared nodes after which every node is rendered under two environments, or a sequence of renders of one template, or a constructor call with slices that have room behind them.",
		Assume: []string{"application callbacks do not themselves keep state", "byte slices passed by the application are not modified by it afterwards"},
		Suites: []*Suite{
			{Name: "sequences", Bounds: "5 pools of 3 or 4 nodes, up to 2 (thorough 3) constructions of 7 kinds from one or two nodes of the pool, everything rendered twice under two environments", Body: c06Sequences(2, 3, kinds, false)},
			{Name: "long-sequences", Bounds: "the same with up to 3 (thorough 4) constructions of 2 kinds (element, conditional)", Body: c06Sequences(3, 4, []Node{kinds[0], kinds[3]}, false)},
			{Name: "nil-arguments", Bounds: "2 pools of 3 or 4 nodes with nil values, up to 3 constructions of 3 kinds (element, collection, conditional) from one or two nodes, without nil arguments, with a last one, or with nil before, between and after", Body: c06Sequences(2, 3, []Node{kinds[2], kinds[3], kinds[0]}, true)},
			{Name: "nil-collections", Bounds: "the same with up to 3 constructions of collections, without or with a last nil", Body: c06Sequences(3, 3, []Node{kinds[2]}, true)},
			{Name: "renders", Bounds: "every tree of up to 3 (thorough 4) nodes over 11 forms below 3 tops x every sequence of 3 renders, each with one of two environments, a failing writer or a panicking callback", Body: c06Renders},
			{Name: "arguments", Bounds: "every exported variadic constructor, and documents, x 12 argument lists, called twice with one slice that has room behind it, merged and rendered", Body: c06Args},
			{Name: "bytes", Bounds: "every exported function of one value or a list of values, given bytes with room behind them, statically and from a function", Body: c06Bytes},
		},
	})
}
