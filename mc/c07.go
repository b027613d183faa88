package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
	"verif.local/mc/hook"
)

// pointWriter lets the explorer switch threads before the bytes are taken
type pointWriter struct{ buf bytes.Buffer }

func (w *pointWriter) Write(p []byte) (int, error) {
	hook.P(-100)
	return w.buf.Write(p)
}

// shared is something that several threads use
type shared struct {
	node aitch.Node
	tmpl *aitch.Template
}

func (s *shared) render(id int) (string, error) {
	var w pointWriter
	data, cargo := threadData(id)
	if s.tmpl != nil {
		err := s.tmpl.Execute(&w, data, cargo)
		return w.buf.String(), err
	}
	err := s.node.Render(context.New(&w, data, cargo))
	return w.buf.String(), err
}

func threadData(id int) (map[string]any, any) {
	n := string(rune('A' + id))
	return map[string]any{
		"k": "key" + n + "<", "on": id%2 == 0, "off": id%2 == 1, "w": 10 + id,
		"list": []any{"i" + n, map[string]any{"k": "m" + n, "on": true}}, "strs": []string{"s" + n, "t" + n},
	}, "cargo" + n
}

func cond(key string) aitch.ConditionalFunc {
	return func(ctx *context.Context) bool { b, _ := ctx.Data[key].(bool); return b }
}

func dk(s string) aitch.DynamicValueKey { return aitch.DynamicValueKey(s) }

type c07Item struct {
	name  string
	build func() *shared
}

func nodeItem(name string, f func() aitch.Node) c07Item {
	return c07Item{name, func() *shared { return &shared{node: f()} }}
}

// spare makes argument slices with room for more, so that appending to them in place would be seen
func spare(v ...any) []any {
	return append(make([]any, 0, len(v)+4), v...)
}

func c07Items() []c07Item {
	return []c07Item{
		nodeItem("element", func() aitch.Node {
			return aitch.Element("p", aitch.Attribute("id", dk("k")), "text", dk("."))
		}),
		nodeItem("conditional attributes", func() aitch.Node {
			return aitch.Element("p", aitch.DelimitedAttribute("class", " ", "a", dk("k")), aitch.Conditional(cond("on"), aitch.DelimitedAttribute("class", " ", "b", dk("."))),
				aitch.When("off", aitch.Attribute("x", dk("k"))))
		}),
		nodeItem("conditional attributes only", func() aitch.Node {
			return aitch.VoidElement("p", aitch.Conditional(cond("on"), aitch.DelimitedAttribute("class", " ", "b", dk(".")), aitch.Conditional(cond("on"), aitch.DelimitedAttribute("class", " ", "c"))),
				aitch.When("!off", aitch.BooleanAttribute("y")))
		}),
		nodeItem("merged attributes", func() aitch.Node {
			return aitch.Element("p", html.Class(spare("a", "b")...), html.Class(dk("k"), "c"), html.Style(css.Width(css.Px(dk("w")))), css.Color("red"))
		}),
		nodeItem("collection", func() aitch.Node {
			return aitch.Collection(html.Id("x"), html.Class("a"), aitch.Text(dk("k")), html.P(dk(".")))
		}),
		nodeItem("iterate", func() aitch.Node {
			return aitch.Iterate(func(ctx *context.Context) []any { v, _ := ctx.Data["list"].([]any); return v }, html.B(html.Class(dk("k")), dk(".")))
		}),
		nodeItem("iterate key", func() aitch.Node { return html.Ul(aitch.IterateKey("strs", html.Li(dk("."), dk("k")))) }),
		nodeItem("iterate yield", func() aitch.Node {
			return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { yield(1); yield(ctx.Cargo) }, aitch.Text(dk(".")), aitch.Comment(dk("k")))
		}),
		nodeItem("imperative", func() aitch.Node {
			cls, id := html.Class("a", dk("k")), html.Id(dk("."))
			inner := html.B(dk("k"))
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("div"), false, cls, id, html.Class("own"))
				ic.WriteString("<&>")
				ic.Start([]byte("br"), true, cls)
				ic.WriteNodes(inner, id)
				ic.End()
				ic.EndAll()
				return nil
			})
		}),
		nodeItem("values", func() aitch.Node {
			v := aitch.NewConcatValue("a", dk("k"), aitch.NewValue(dk(".")))
			return aitch.Fragment(v, aitch.NewValue(12), 1.5, true, func() any { return "f" }, v)
		}),
		nodeItem("pi and comment", func() aitch.Node {
			return aitch.Collection(aitch.PI("x", dk("k"), "y"), aitch.Comment("c", dk(".")), aitch.DocType())
		}),
		nodeItem("content collector", func() aitch.Node {
			b := html.B(dk("k"))
			return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { return []aitch.Node{b, html.I(ctx.Cargo)} })
		}),
		nodeItem("document", func() aitch.Node {
			return html.Document([]byte("en"), []any{html.Title(dk("k"))}, []any{html.Class("b"), aitch.When("on", html.Class("c")), dk(".")})
		}),
		nodeItem("svg", func() aitch.Node {
			return svg.Svg(svg.Width(dk("w")), svg.Class("a", dk("k")), svg.Circle(svg.R(3)))
		}),
		nodeItem("htmx", func() aitch.Node {
			return html.Div(htmx.Headers(htmx.HeadersMap{"b": dk("k"), "a": "1"}), htmx.Vars(htmx.Var("n", dk("."))), htmx.Trigger("click"), htmx.Trigger(dk("k")), htmx.On("ev", "x"))
		}),
		nodeItem("attributes of mixed kinds", func() aitch.Node {
			// (the values of a node have room for more when some arguments are nil)
			plain, del := aitch.Attribute("class", nil, "p", nil, dk("k"), nil), aitch.DelimitedAttribute("class", " ", nil, "a", dk("."), nil)
			plain2 := aitch.NewAttribute([]byte("class"), nil, aitch.NewConcatValue("q", nil, nil), nil)
			return aitch.Collection(aitch.Element("p", plain, del, aitch.Conditional(cond("on"), del, plain2), aitch.When("off", plain2, del)), aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("i"), false, plain, del, html.Class(ic.Context().Cargo))
				ic.Start([]byte("br"), true, plain2, html.Class(ic.Context().Cargo), del)
				ic.EndAll()
				return nil
			}))
		}),
		nodeItem("nested conditions", func() aitch.Node {
			cl := func(s string) aitch.Node { return html.Class(spare(s, dk("k"))...) }
			return aitch.Element("p", cl("a"), aitch.Conditional(cond("on"), cl("b"), aitch.Conditional(cond("on"), cl("c"), aitch.Conditional(cond("on"), cl("d"), aitch.When("on", cl("e"), aitch.Text(dk(".")))),
				aitch.When("off", cl("f")))), aitch.When("!off", cl("g"), html.Id(dk("k"))), aitch.Conditional(cond("off"), cl("h"), aitch.Text("off")))
		}),
		nodeItem("iterate nested", func() aitch.Node {
			return aitch.IterateKey("list", html.Ul(html.Id(dk(".")), aitch.IterateKey("strs", html.Li(html.Class(dk(".")), aitch.When("on", html.Class("on"), aitch.Text(dk("."))), func(ctx *context.Context) []byte {
				return []byte(fmt.Sprint(ctx.Parent.Cargo))
			}))))
		}),
		nodeItem("imperative nested", func() aitch.Node {
			var inner aitch.Node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("u"), false, html.Style(css.Top(css.Em(ic.Context().Data["w"]))))
				ic.WriteString(fmt.Sprint(ic.Context().Cargo))
				return nil
			})
			return aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("a"), false)
				ic.WriteNodes(inner, html.B(inner))
				ic.Start([]byte("b"), false, html.Id(ic.Context().Cargo))
				ic.EndAll()
				return nil
			})
		}),
		nodeItem("shared values", func() aitch.Node {
			u := css.Px(spare(dk("w"))...)
			v := aitch.NewConcatValue(spare(u, dk("k"))...)
			c := css.Margin(spare(u, " ", v)...)
			return aitch.Element("p", c, css.Width(u, css.Important), aitch.When("on", c, css.Height(v)), aitch.Attribute("x", u, v), aitch.Text(v), html.Br(c))
		}),
		{"template", func() *shared {
			return &shared{tmpl: aitch.MustNewTemplate("t", `<i {{a .}}>{{b .}}</i>{{.Cargo}}{{b .}}`, aitch.NodeMap{
				"a": html.Class("a", dk("k")),
				"b": aitch.Element("p", html.Class("x"), aitch.When("on", html.Class("y", dk("."))), dk("k")),
			})}
		}},
	}
}

// what a thread does with the shared thing
type c07Op struct {
	name string
	run  func(s *shared, id int) (string, error)
}

var c07Ops = []c07Op{
	{"render", func(s *shared, id int) (string, error) { return s.render(id) }},
	{"render twice", func(s *shared, id int) (string, error) {
		a, err := s.render(id)
		b, err2 := s.render(id)
		if err == nil {
			err = err2
		}
		return a + "|" + b, err
	}},
	{"build with and render", func(s *shared, id int) (string, error) {
		if s.tmpl != nil {
			t := aitch.MustNewTemplate("o", "{{x .}}", aitch.NodeMap{"x": html.Q(id)})
			a, err := (&shared{tmpl: t}).render(id)
			b, err2 := s.render(id)
			if err == nil {
				err = err2
			}
			return a + b, err
		}
		n := aitch.Element("div", s.node, html.Class("mine", id), aitch.Conditional(cond("on"), s.node, html.Class("z", id)))
		return (&shared{node: n}).render(id)
	}},
	{"merge with and render", func(s *shared, id int) (string, error) {
		if s.tmpl != nil {
			return s.render(id)
		}
		c := aitch.Collection(html.Class("first", id), css.Width(id), s.node, css.Color("blue"))
		n := aitch.VoidElement("div", c, s.node, c)
		o := aitch.Iterate(func(*context.Context) []any { return []any{id} }, s.node, n)
		return (&shared{node: o}).render(id)
	}},
}

// c07MoreOps also belong to c07Ops, but are not paired with each other in the explored schedules
const c07PairOps = 4

func init() {
	c07Ops = append(c07Ops, []c07Op{
		{"bind in a template and execute", func(s *shared, id int) (string, error) {
			if s.tmpl != nil {
				return s.render(id)
			}
			t, err := aitch.NewTemplate("o", "<i>{{x .}}</i>{{if .Data}}{{x .}}{{end}}", aitch.NodeMap{"x": s.node, "y": html.B(s.node)})
			if err != nil {
				return "", err
			}
			return (&shared{tmpl: t}).render(id)
		}},
		{"use in an imperative node", func(s *shared, id int) (string, error) {
			if s.tmpl != nil {
				return s.render(id)
			}
			return (&shared{node: aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("p"), false, html.Class("mine"), s.node, html.Class(id))
				ic.WriteNodes(s.node)
				ic.EndAll()
				return nil
			})}).render(id)
		}},
		{"use as a value", func(s *shared, id int) (string, error) {
			if s.tmpl != nil {
				return s.render(id)
			}
			v := aitch.NewConcatValue(s.node, id, s.node)
			return (&shared{node: aitch.Element("p", aitch.Attribute("x", s.node, v), html.Class(s.node, v), css.Width(css.Px(v)), aitch.Text(v, s.node), aitch.When("on", aitch.Comment(s.node)))}).render(id)
		}},
	}...)
}

// alone is what an operation writes without any other thread, with its own copy of the shared thing
func alone(it c07Item, op, id int) (string, error) {
	return c07Ops[op].run(it.build(), id)
}

func c07Schedules(threads, quick, thorough, perQ, perT int, pairs, deep bool) func(x *X) {
	return func(x *X) {
		if x.Q(quick, thorough) > 1 {
			x.Manual()
		}
		items := c07Items()
		it := items[x.Choose(len(items))]
		ops := make([]int, threads)
		for i := range ops {
			n := len(c07Ops)
			switch {
			case pairs && i == 0 || !pairs && !x.Thorough():
				n = c07PairOps
			case pairs && ops[0] > 0:
				n = c07PairOps
			}
			if !pairs && i > 0 {
				n = 1
			}
			ops[i] = x.Choose(n)
			if deep && !x.Thorough() && ops[i]%2 != 0 {
				x.Ready()
				x.Observe(nil)
				return
			}
			if i > 0 && pairs && ops[i] < ops[i-1] {
				// the mirror image is another case
				x.Ready()
				x.Observe(nil)
				return
			}
		}
		x.Note(func() string { return fmt.Sprintf("%s: threads %s", it.name, opNames(ops)) })
		if !x.manual {
			x.Ready()
		}
		want := make([]string, threads)
		for i, op := range ops {
			w, err := alone(it, op, i)
			if err != nil {
				x.Failf("alone: %v", err)
			}
			want[i] = w
		}
		s := it.build()
		got := make([]string, threads)
		errs := make([]error, threads)
		var fns []func()
		for i := range ops {
			i := i
			fns = append(fns, func() { got[i], errs[i] = c07Ops[ops[i]].run(s, i) })
		}
		runThreads(x, x.Q(quick, thorough), x.Q(perQ, perT), fns...)
		for i := range ops {
			if errs[i] != nil || got[i] != want[i] {
				x.Failf("thread %d (%s) writes %q (error %v) instead of %q", i, c07Ops[ops[i]].name, got[i], errs[i], want[i])
			}
			x.Observe([]byte(got[i]))
		}
		// and afterwards, alone again
		for i := range ops {
			g, err := c07Ops[0].run(s, i)
			w, _ := alone(it, 0, i)
			if err != nil || g != w {
				x.Failf("afterwards the shared template writes %q (error %v) instead of %q", g, err, w)
			}
		}
	}
}

func opNames(ops []int) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += " | "
		}
		s += c07Ops[o].name
	}
	return s
}

// goroutines that nothing synchronises: the race detector reports conflicting accesses whatever their timing
func c07Race(x *X) {
	items := c07Items()
	it := items[x.Choose(len(items))]
	a, b := x.Choose(len(c07Ops)), x.Choose(len(c07Ops))
	swap := x.Bool()
	x.Note(func() string { return fmt.Sprintf("%s: goroutines %s", it.name, opNames([]int{a, b})) })
	x.Ready()
	for round := 0; round < x.Q(20, 200); round++ {
		raceRound(x, it.build(), swap, func(s *shared, i int) (string, error) { return c07Ops[[]int{a, b}[i]].run(s, i) },
			func(i int) (string, error) { return alone(it, []int{a, b}[i], i) })
	}
}

func raceRound(x *X, s *shared, swap bool, run func(s *shared, i int) (string, error), want func(i int) (string, error)) {
	var got [2]string
	var errs [2]error
	var wg sync.WaitGroup
	for j := 0; j < 2; j++ {
		i := j
		if swap {
			i = 1 - j
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			got[i], errs[i] = run(s, i)
		}()
	}
	wg.Wait()
	for i := 0; i < 2; i++ {
		w, err := want(i)
		if err != nil {
			x.Failf("alone: %v", err)
		}
		if errs[i] != nil || got[i] != w {
			x.Failf("goroutine %d writes %q (error %v) instead of %q", i, got[i], errs[i], w)
		}
		x.Observe([]byte(got[i]))
	}
}

// generated templates, rendered and built with by two goroutines
func c07RaceTrees(x *X) {
	g := &gen{x: x, budget: x.Q(3, 4), alpha: c07Kinds()}
	top := &Node{K: []Kind{KEl, KVoid, KColl, KImpEl}[x.Choose(4)], Name: "div"}
	if top.K == KVoid {
		top.Name = "img"
	}
	top.Kids = g.kids()
	op := x.Choose(2)
	x.Note(func() string { return top.String() + ": " + opNames([]int{0, op * 2}) })
	x.Ready()
	env := func(i int) *Env {
		d, c := threadData(i)
		return &Env{Data: d, Cargo: c, Conds: []bool{true, false}}
	}
	l := &live{conds: []bool{true, false}}
	n := top.node(l)
	raceRound(x, &shared{node: n}, false, func(s *shared, i int) (string, error) { return c07Ops[i*op*2].run(s, i) },
		func(i int) (string, error) {
			if i*op > 0 {
				return c07Ops[i*op*2].run(&shared{node: top.node(l)}, i)
			}
			return top.Model(env(i)), nil
		})
}

func c07Kinds() []func(g *gen) *Node {
	out := c08Kinds()
	return append(out, func(g *gen) *Node {
		n := &Node{K: KCond, Cond: 1}
		n.Kids = g.kids()
		return n
	}, leaf(KDelim, func(g *gen) *Node { return &Node{Name: "style", Vals: []*Val{vkey("k"), vs("z" + g.next())}} }))
}

func init() {
	register(&Prop{
		ID:     "C07",
		Level:  "model_checking",
		Rule:   "A case is a template shared by threads, what each thread does, and a schedule of their statements; or, in the build with the race detector, two goroutines with no synchronisation between them.",
		Assume: []string{"statements of the repository's own packages are atomic in the explored schedules (finer conflicts are left to the race detector)", "goroutines started by the code itself are not scheduled"},
		Suites: []*Suite{
			{Name: "schedules", Build: buildInstr, Bounds: "21 shared templates x all pairs of 4 operations (render, render twice, build with it and render, merge with it and render) and of a render with 3 more (bind it in a template, use it in an imperative node or as a value), 2 threads, every schedule of statements with up to 1 preemption (thorough 2, each before one of the first 4 executions of a statement by its thread)", Body: c07Schedules(2, 1, 2, 1000, 4, true, false)},
			{Name: "schedules-3", Build: buildInstr, Bounds: "21 shared templates x 7 (quick 4) operations against two renders, 3 threads, every schedule of statements with up to 1 preemption (thorough 2, each before one of the first 3 executions of a statement by its thread)", Body: c07Schedules(3, 1, 2, 1000, 3, false, false)},
			{Name: "schedules-deep", Build: buildInstr, Bounds: "21 shared templates x 7 (quick 2: render, build with it and render) operations against a render, 2 threads, every schedule of statements with up to 2 preemptions (quick: each before one of the first 2 executions of a statement by its thread)", Body: c07Schedules(2, 2, 2, 2, 1000, false, true)},
			{Name: "race", Build: buildRace, Bounds: "21 shared templates x all pairs of 7 operations in both orders, unsynchronised goroutines under the race detector, 20 (thorough 200) rounds", Body: c07Race},
			{Name: "race-trees", Build: buildRace, Bounds: "every tree of up to 3 (thorough 4) nodes over 21 forms below 4 tops, two renders or a render and a construction sharing it, unsynchronised goroutines under the race detector", Body: c07RaceTrees},
		},
	})
}
