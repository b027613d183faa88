package main

import (
	_ "embed"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

//go:embed vocab.txt
var vocabText string

// vocabFn is a vocabulary function: kind is e(lement), v(oid element), a(ttribute), b(oolean attribute), d(elimited attribute), u(nit) or (st)y(le property);
// p before it means that the name is a prefix given as first argument
type vocabFn struct {
	pkg, fn, kind, name, delim string
	prefix                     bool
	call                       func(args ...any) any
	generic                    func(args ...any) any
}

var c18Fns []*vocabFn

func vocabFns() (out []*vocabFn) {
	for _, line := range strings.Split(strings.TrimSpace(vocabText), "\n") {
		f := strings.Split(line, " ")
		v := &vocabFn{pkg: f[0], fn: f[1], kind: f[2], name: f[3]}
		if len(f) > 4 {
			v.delim = strings.ReplaceAll(f[4], "_", " ")
		}
		if strings.HasPrefix(v.kind, "p") {
			v.prefix, v.kind = true, v.kind[1:]
			v.name = strings.TrimSuffix(v.name, "NAME")
		}
		switch fn := table[v.pkg][v.fn].(type) {
		case func(...any) aitch.Node:
			v.call = func(args ...any) any { return fn(args...) }
		case func() aitch.Node:
			v.call = func(args ...any) any { return fn() }
		case func(string, ...any) aitch.Node:
			v.call = func(args ...any) any { return fn(args[0].(string), args[1:]...) }
		case func(...any) aitch.Value:
			v.call = func(args ...any) any { return fn(args...) }
		case nil:
			continue // no longer exported: nothing to check
		default:
			panic(fmt.Sprintf("%s.%s is a %T", v.pkg, v.fn, fn))
		}
		name, delim := v.name, v.delim
		bytes := func(args []any) []byte {
			if v.prefix {
				return []byte(name + args[0].(string))
			}
			return []byte(name)
		}
		rest := func(args []any) []any {
			if v.prefix {
				return args[1:]
			}
			return args
		}
		switch v.kind {
		case "e":
			v.generic = func(args ...any) any { return aitch.NewElement(bytes(args), rest(args)...) }
		case "v":
			v.generic = func(args ...any) any { return aitch.NewVoidElement(bytes(args), rest(args)...) }
		case "a":
			v.generic = func(args ...any) any { return aitch.NewAttribute(bytes(args), rest(args)...) }
		case "b":
			v.generic = func(args ...any) any { return aitch.NewBooleanAttribute(bytes(args)) }
		case "d":
			v.generic = func(args ...any) any {
				return aitch.NewDelimitedAttribute(bytes(args), []byte(delim), rest(args)...)
			}
		case "y":
			v.generic = func(args ...any) any {
				return aitch.NewDelimitedAttribute([]byte("style"), []byte("; "), aitch.NewConcatValue(append([]any{name + ":"}, args...)...))
			}
		case "u":
			v.generic = func(args ...any) any {
				return aitch.NewConcatValue(append(append([]any{}, args...), name)...)
			}
		default:
			panic(line)
		}
		out = append(out, v)
	}
	return
}

// c18Values are arguments of attributes
var c18Values = []struct {
	name  string
	build func() any
}{
	{"plain", func() any { return "plain" }},
	{"to escape", func() any { return "<\"&'>" }},
	{"int", func() any { return -12 }},
	{"key", func() any { return dk("k") }},
	{"cargo", func() any { return dk(".") }},
	{"bytes", func() any { return []byte("<raw>") }},
	{"nil", func() any { return nil }},
	{"func", func() any { return aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte("f") }) }},
	{"empty", func() any { return "" }},
	{"bool", func() any { return false }},
	{"missing", func() any { return dk("none") }},
	{"float", func() any { return 0.5 }},
	{"stringer", func() any { return stringer{"s<"} }},
	{"concat", func() any { return aitch.NewConcatValue("c", dk("k")) }},
	{"any func", func() any { return func() any { return uint8(3) } }},
}

// c18Contents are contents of elements
var c18Contents = []struct {
	name  string
	build func() any
}{
	{"text", func() any { return "t<" }},
	{"element", func() any { return aitch.Element("i", "x") }},
	{"attribute", func() any { return aitch.Attribute("id", dk("k")) }},
	{"other attribute", func() any { return aitch.Attribute("id", "2") }},
	{"class", func() any { return aitch.DelimitedAttribute("class", " ", "c", dk(".")) }},
	{"flag", func() any { return aitch.BooleanAttribute("flag") }},
	{"collection", func() any {
		return aitch.Collection(aitch.DelimitedAttribute("class", " ", "d"), aitch.Text("in"), aitch.Attribute("x", 1))
	}},
	{"condition", func() any {
		return aitch.When("c", aitch.Attribute("id", "cond"), aitch.DelimitedAttribute("class", " ", "e"), aitch.Text("yes"))
	}},
	{"key", func() any { return dk("k") }},
	{"nil", func() any { return nil }},
	{"bytes", func() any { return []byte("<b>") }},
	{"comment", func() any { return aitch.Comment("c") }},
	{"iteration", func() any { return aitch.IterateKey("list", aitch.Text(dk("."))) }},
	{"number", func() any { return 3 }},
}

var c18Envs = []*Env{
	{Data: map[string]any{"k": "D&", "c": true, "list": []int{1, 2}}, Cargo: "C<"},
	{Data: map[string]any{"k": 7}, Cargo: nil},
}

var c18AttrPlaces = []struct {
	name  string
	build func(a, b, c aitch.Node) aitch.Node
}{
	{"alone", func(a, b, c aitch.Node) aitch.Node { return a }},
	{"in an element", func(a, b, c aitch.Node) aitch.Node { return aitch.Element("p", "t", a, aitch.Attribute("zz", 1)) }},
	{"twice", func(a, b, c aitch.Node) aitch.Node {
		return aitch.Element("p", a, aitch.BooleanAttribute("q"), b, "t")
	}},
	{"after a generic one", func(a, b, c aitch.Node) aitch.Node { return aitch.Element("p", c, a) }},
	{"before a generic one", func(a, b, c aitch.Node) aitch.Node { return aitch.Element("p", a, c) }},
	{"in a void element", func(a, b, c aitch.Node) aitch.Node { return aitch.VoidElement("br", aitch.Collection(a, b)) }},
	{"conditional", func(a, b, c aitch.Node) aitch.Node {
		return aitch.Element("p", a, aitch.When("c", b), aitch.When("!c", c))
	}},
	{"only conditional", func(a, b, c aitch.Node) aitch.Node { return aitch.Element("p", aitch.When("c", a, b)) }},
	{"imperative", func(a, b, c aitch.Node) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, a, b)
			ic.WriteNodes(a)
			ic.Start([]byte("p"), true, a)
			ic.EndAll()
			return nil
		})
	}},
	{"shared and iterated", func(a, b, c aitch.Node) aitch.Node {
		return aitch.Collection(aitch.Element("p", a), aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "item"}, "i"} }, aitch.Element("q", a, b)))
	}},
	{"alone in contents", func(a, b, c aitch.Node) aitch.Node { return aitch.Collection(aitch.Text("t"), a) }},
}

var c18ElPlaces = []struct {
	name  string
	build func(e aitch.Node) aitch.Node
}{
	{"alone", func(e aitch.Node) aitch.Node { return e }},
	{"in an element", func(e aitch.Node) aitch.Node { return aitch.Element("div", "a", e, "b", aitch.Attribute("id", 9), e) }},
	{"in an iteration", func(e aitch.Node) aitch.Node {
		return aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "item", "c": 1}, "i"} }, e)
	}},
	{"in an imperative node", func(e aitch.Node) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("s"), false)
			ic.WriteNodes(e)
			ic.EndAll()
			return nil
		})
	}},
}

func c18Compare(x *X, a, b aitch.Node) {
	if (a == nil) != (b == nil) {
		x.Failf("nil: %v, generic: %v", a == nil, b == nil)
	}
	for _, e := range c18Envs {
		got, err := render(a, e)
		want, err2 := render(b, e)
		if err != nil || err2 != nil {
			x.Failf("error %v, generic %v", err, err2)
		}
		if got != want && stdOpt.Same(got, want) != "" {
			x.Failf("renders %q, the generic node %q", got, want)
		}
		x.Observe([]byte(got))
	}
}

func (v *vocabFn) String() string { return v.pkg + "." + v.fn }

func c18Functions(x *X) {
	v := c18Fns[x.Choose(len(c18Fns))]
	max := x.Q(2, 3)
	isElement := v.kind == "e" || v.kind == "v"
	pool := len(c18Values)
	if isElement {
		pool = len(c18Contents)
	}
	n := 0
	if v.kind != "b" {
		n = x.Choose(max + 1)
	}
	var idx []int
	for i := 0; i < n; i++ {
		idx = append(idx, x.Choose(pool))
	}
	prefix := ""
	if v.prefix {
		prefix = []string{"x", "long-name.with_many:parts", "", "A1"}[x.Choose(4)]
	}
	x.Note(func() string {
		s := v.String() + "("
		if v.prefix {
			s += fmt.Sprintf("%q ", prefix)
		}
		for _, i := range idx {
			if isElement {
				s += c18Contents[i].name + " "
			} else {
				s += c18Values[i].name + " "
			}
		}
		return s + ")"
	})
	x.Ready()
	args := func() (l []any) {
		if v.prefix {
			l = append(l, prefix)
		}
		for _, i := range idx {
			if isElement {
				l = append(l, c18Contents[i].build())
			} else {
				l = append(l, c18Values[i].build())
			}
		}
		return
	}
	a, b := v.call(args()...), v.generic(args()...)
	if v.kind == "u" {
		for _, p := range []func(v any) aitch.Node{
			func(v any) aitch.Node { return aitch.Text(v) },
			func(v any) aitch.Node { return aitch.Element("p", aitch.Attribute("x", "a", v, "b")) },
			func(v any) aitch.Node {
				return aitch.Element("p", aitch.DelimitedAttribute("class", " ", v, "b"), aitch.Comment(v))
			},
			func(v any) aitch.Node { return aitch.Text(aitch.NewConcatValue(v, v)) },
		} {
			c18Compare(x, p(a), p(b))
		}
		return
	}
	an, bn := a.(aitch.Node), b.(aitch.Node)
	if an.Name() != bn.Name() {
		x.Failf("is named %q instead of %q", an.Name(), bn.Name())
	}
	if an.Type() != bn.Type() {
		x.Failf("has type %v instead of %v", an.Type(), bn.Type())
	}
	if isElement {
		for _, p := range c18ElPlaces {
			c18Compare(x, p.build(an), p.build(bn))
		}
		return
	}
	// others of the same kind, to be merged with
	other := func() []any {
		if v.prefix {
			return []any{prefix, "second"}
		}
		return []any{"second"}
	}
	a2, b2 := v.call(other()...).(aitch.Node), v.generic(other()...).(aitch.Node)
	g := v.generic(append(other(), "third")...).(aitch.Node)
	for _, p := range c18AttrPlaces {
		c18Compare(x, p.build(an, a2, g), p.build(bn, b2, g))
	}
}

// c18Pairs uses every attribute function in every element function
func c18Pairs(x *X) {
	var els, attrs []*vocabFn
	for _, v := range c18Fns {
		switch v.kind {
		case "e", "v":
			els = append(els, v)
		case "a", "b", "d", "y":
			attrs = append(attrs, v)
		}
	}
	e := els[x.Choose(len(els))]
	x.Note(func() string { return e.String() + " with each attribute function" })
	x.Ready()
	for _, a := range attrs {
		args := []any{"v1", dk("k")}
		if a.prefix {
			args = append([]any{"px"}, args...)
		}
		a := a
		x.note = func() string { return e.String() + " with " + a.String() }
		c18Compare(x, e.call("t", a.call(args...), "u").(aitch.Node), e.generic("t", a.generic(args...), "u").(aitch.Node))
	}
}

// c18Prefixed makes sequences of prefixed attributes: none of the calls affects another
func c18Prefixed(x *X) {
	var fns []*vocabFn
	for _, v := range c18Fns {
		if v.prefix {
			fns = append(fns, v)
		}
	}
	names := []string{"a", "bb", "click", "x", "longer-name-than-the-others", "z.y"}
	n := 1 + x.Choose(x.Q(4, 5))
	var seq []int
	for i := 0; i < n; i++ {
		seq = append(seq, x.Choose(len(fns)*len(names)))
	}
	x.Note(func() string { return fmt.Sprint(seq) })
	x.Ready()
	var nodes []aitch.Node
	var anys []any
	for i, s := range seq {
		nodes = append(nodes, fns[s%len(fns)].call(names[s/len(fns)], i).(aitch.Node))
		anys = append(anys, nodes[i])
	}
	want, seen := "", map[string]int{}
	var order []string
	for i, s := range seq {
		name := fns[s%len(fns)].name + names[s/len(fns)]
		if nodes[i].Name() != name {
			x.Failf("call %d is named %q instead of %q", i, nodes[i].Name(), name)
		}
		got, err := render(nodes[i], &Env{})
		if w := fmt.Sprintf(` %s="%d"`, name, i); err != nil || got != w {
			x.Failf("call %d renders %q instead of %q", i, got, w)
		}
		if _, ok := seen[name]; !ok {
			order = append(order, name)
		}
		seen[name] = i
	}
	for _, name := range order {
		want += fmt.Sprintf(` %s="%d"`, name, seen[name])
	}
	got, err := render(aitch.Element("p", anys...), &Env{})
	if err != nil || got != "<p"+want+"></p>" {
		x.Failf("renders %q instead of %q, %v", got, "<p"+want+"></p>", err)
	}
	x.Observe([]byte(got))
}

// c18Text compares the text, comment and instruction functions of html and svg with the generic ones
func c18Text(x *X) {
	type pair struct {
		name string
		fn   any
		gen  func(args ...any) aitch.Node
	}
	pairs := []pair{
		{"html.Text", table["html"]["Text"], aitch.Text},
		{"html.Comment", table["html"]["Comment"], aitch.Comment},
		{"svg.Text", table["svg"]["Text"], aitch.Text},
		{"svg.Comment", table["svg"]["Comment"], aitch.Comment},
		{"html.PI", func(args ...any) aitch.Node {
			return table["html"]["PI"].(func(string, ...any) aitch.Node)("pi", args...)
		}, func(args ...any) aitch.Node { return aitch.PI("pi", args...) }},
		{"htmx.Headers", table["htmx"]["Headers"], func(args ...any) aitch.Node { return aitch.NewAttribute([]byte("hx-headers"), args...) }},
	}
	p := pairs[x.Choose(len(pairs))]
	n := x.Choose(x.Q(4, 5))
	var idx []int
	for i := 0; i < n; i++ {
		idx = append(idx, x.Choose(len(c18Values)))
	}
	x.Note(func() string { return fmt.Sprint(p.name, idx) })
	x.Ready()
	args := func() (l []any) {
		for _, i := range idx {
			l = append(l, c18Values[i].build())
		}
		return
	}
	fn := p.fn.(func(...any) aitch.Node)
	c18Compare(x, fn(args()...), p.gen(args()...))
	c18Compare(x, aitch.Element("p", fn(args()...), "x"), aitch.Element("p", p.gen(args()...), "x"))
}

func init() {
	setup := func() { c18Fns = vocabFns() }
	register(&Prop{
		ID:     "C18",
		Level:  "model_checking",
		Rule:   "A case is a vocabulary function with a list of arguments, in each place; it must render as the generic node of the name, kind and delimiter listed in mc/vocab.txt does.",
		Assume: []string{"mc/vocab.txt has the names, kinds and delimiters (reviewed: each name is that of its function)", "what generic nodes render is decided by C01-C11 and C14"},
		Suites: []*Suite{
			{Name: "functions", Setup: setup, Bounds: "each of 716 functions with every list of up to 2 (thorough 3) of 14 contents or 15 values, in 4 (elements) or 11 (attributes) places, with 2 environments", Body: c18Functions},
			{Name: "pairs", Setup: setup, Bounds: "every attribute function in every element function", Body: c18Pairs},
			{Name: "prefixed", Setup: setup, Bounds: "all sequences of up to 4 (thorough 5) of 3 prefixed attribute functions x 6 names", Body: c18Prefixed},
			{Name: "text", Setup: setup, Bounds: "6 functions with every list of up to 3 (thorough 4) of 15 values", Body: c18Text},
		},
	})
}
