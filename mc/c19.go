package main

import (
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
)

var c19Props, c19Units []*vocabFn

func c19Setup() {
	c19Props, c19Units = nil, nil
	for _, v := range vocabFns() {
		switch v.kind {
		case "y":
			c19Props = append(c19Props, v)
		case "u":
			c19Units = append(c19Units, v)
		}
	}
}

var c19Envs = []*Env{
	{Data: map[string]any{"k": "D&\"x", "n": 7, "f": 1.5, "c": true}, Cargo: "C<"},
	{Data: map[string]any{"k": 7}, Cargo: 3},
	{Data: nil, Cargo: nil},
}

// c19Vals are the values of declarations
func c19Vals() []*Val {
	return []*Val{
		vs("red"), vs(css.Important), {K: VInt, I: -12}, vkey("k"), vkey("n"), {K: VCargo}, {K: VFloat, F: 0.25}, vraw("url('a&amp;b')"), {K: VNil},
		{K: VFunc, S: "fn"}, vs(`"q" <>&'`), vs(" "), {K: VConcat, Sub: []*Val{vs("1"), vkey("n")}}, {K: VStringer, S: "S<"}, {K: VCtxFunc, S: "cf"},
		{K: VAnyFunc, Sub: []*Val{vs("af")}}, {K: VBool, I: 1}, vs(""), vkey("none"), {K: VValue, Sub: []*Val{vkey("f")}}, vs("; "), vs("a:b"), vs("%"),
		{K: VConcat, Sub: []*Val{vkey("n"), {K: VConcat, Sub: []*Val{vs("x"), vkey("k")}}}},
	}
}

// c19Sheet is what is on one element: the unconditional declarations, then those of holding conditions
type c19Item struct {
	name  string
	build func() any
	// decls of the environment (escaped), cond: under a condition
	decls func(env *Env) []string
	cond  bool
	// other contents
	attr, text string
}

func c19Decl(name string, build func() any, text func(env *Env) string) c19Item {
	return c19Item{name: name, build: build, decls: func(env *Env) []string { return []string{text(env)} }}
}

var c19K = func(key string) func(env *Env) string {
	return func(env *Env) string { return textOf([]*Val{vkey(key)}, env) }
}

var c19Items = []c19Item{
	c19Decl("Color(red, Important)", func() any { return css.Color("red", css.Important) }, func(*Env) string { return "color:red !important" }),
	c19Decl("Width(Px(10))", func() any { return css.Width(css.Px(10)) }, func(*Env) string { return "width:10px" }),
	c19Decl("Margin(Px(n),' ',Em(f),Important)", func() any { return css.Margin(css.Px(dk("n")), " ", css.Em(dk("f")), css.Important) }, func(e *Env) string {
		return "margin:" + c19K("n")(e) + "px " + c19K("f")(e) + "em !important"
	}),
	c19Decl("Width(Percent(.))", func() any { return css.Width(css.Percent(dk("."))) }, func(e *Env) string { return "width:" + textOf([]*Val{{K: VCargo}}, e) + "%" }),
	c19Decl("Display(k)", func() any { return css.Display(dk("k")) }, func(e *Env) string { return "display:" + c19K("k")(e) }),
	c19Decl("Padding()", func() any { return css.Padding() }, func(*Env) string { return "padding:" }),
	c19Decl("Color(func)", func() any {
		return css.Color(func(c *context.Context) []byte { return []byte(fmt.Sprint(c.Data["n"])) })
	}, func(e *Env) string {
		return "color:" + fmt.Sprint(e.Data["n"])
	}),
	{name: "html.Style(a:b, c:<k>)", build: func() any { return html.Style("a:b", aitch.NewConcatValue("c:", dk("k"))) }, decls: func(e *Env) []string { return []string{"a:b", "c:" + c19K("k")(e)} }},
	{name: "svg.Style(k)", build: func() any { return svg.Style(dk("k")) }, decls: func(e *Env) []string { return []string{c19K("k")(e)} }},
	{name: "html.Style()", build: func() any { return html.Style() }, decls: func(e *Env) []string { return []string{""} }},
	{name: "DelimitedAttribute(style)", build: func() any { return aitch.DelimitedAttribute("style", "; ", "z:1", css.Rem(2)) }, decls: func(e *Env) []string { return []string{"z:1", "2rem"} }},
	{name: "Collection(Top, Left)", build: func() any { return aitch.Collection(css.Top(css.Vh(1)), aitch.Collection(css.Left(css.Vw(2)))) }, decls: func(e *Env) []string { return []string{"top:1vh", "left:2vw"} }},
	{name: "When(c, Float, Clear)", cond: true, build: func() any { return aitch.When("c", css.Float("left"), css.Clear(dk("k"))) }, decls: func(e *Env) []string {
		if e.Data["c"] == nil {
			return nil
		}
		return []string{"float:left", "clear:" + c19K("k")(e)}
	}},
	{name: "When(!c, Style)", cond: true, build: func() any { return aitch.When("!c", html.Style("not:c", "x:y")) }, decls: func(e *Env) []string {
		if e.Data["c"] != nil {
			return nil
		}
		return []string{"not:c", "x:y"}
	}},
	{name: "Conditional(Cargo)", cond: true, build: func() any {
		return aitch.Conditional(func(c *context.Context) bool { return c.Cargo != nil }, css.Opacity(.5), aitch.When("c", css.ZIndex(css.In(dk("n")))))
	}, decls: func(e *Env) []string {
		if e.Cargo == nil {
			return nil
		}
		if e.Data["c"] == nil {
			return []string{"opacity:0.5"}
		}
		return []string{"opacity:0.5", "z-index:" + c19K("n")(e) + "in"}
	}},
	{name: "id", build: func() any { return aitch.Attribute("id", 1) }, attr: `id="1"`, decls: func(*Env) []string { return nil }},
	{name: "text", build: func() any { return "text" }, text: "text", decls: func(*Env) []string { return nil }},
}

type c19Seq []int

func (s c19Seq) String() string {
	var l []string
	for _, i := range s {
		l = append(l, c19Items[i].name)
	}
	return strings.Join(l, ", ")
}

func (s c19Seq) style(e *Env) (string, bool) {
	var l []string
	has := false
	for _, cond := range []bool{false, true} {
		for _, i := range s {
			if it := c19Items[i]; it.cond == cond {
				d := it.decls(e)
				has = has || len(d) > 0
				for _, t := range d {
					if t != "" {
						l = append(l, t)
					}
				}
			}
		}
	}
	return strings.Join(l, "; "), has
}

func (s c19Seq) contents(tag string, e *Env) (start, text string) {
	st, has := s.style(e)
	id := ""
	for _, i := range s {
		text += c19Items[i].text
		if a := c19Items[i].attr; a != "" {
			id = " " + a
		}
	}
	start = "<" + tag + id
	if has {
		start += ` style="` + st + `"`
	}
	return start + ">", text
}

var c19Holders = []struct {
	name  string
	build func(c []any) aitch.Node
	want  func(s c19Seq, e *Env) string
}{
	{"Element", func(c []any) aitch.Node { return aitch.Element("p", c...) }, func(s c19Seq, e *Env) string {
		a, t := s.contents("p", e)
		return a + t + "</p>"
	}},
	{"html.Div in html.Body", func(c []any) aitch.Node { return html.Body("b", html.Div(c...), css.Top(1)) }, func(s c19Seq, e *Env) string {
		a, t := s.contents("div", e)
		return `<body style="top:1">b` + a + t + "</div></body>"
	}},
	{"svg.Rect", func(c []any) aitch.Node { return svg.Rect(c...) }, func(s c19Seq, e *Env) string {
		a, t := s.contents("rect", e)
		return a + t + "</rect>"
	}},
	{"html.Img", func(c []any) aitch.Node { return html.Img(c...) }, func(s c19Seq, e *Env) string {
		a, _ := s.contents("img", e)
		return a
	}},
	{"Collection in Element", func(c []any) aitch.Node {
		var nodes []aitch.Node
		for _, v := range c {
			if n, ok := v.(aitch.Node); ok {
				nodes = append(nodes, n)
			} else {
				nodes = append(nodes, aitch.Text(v))
			}
		}
		return aitch.Element("q", aitch.Collection(nodes...))
	}, func(s c19Seq, e *Env) string {
		a, t := s.contents("q", e)
		return a + t + "</q>"
	}},
	{"twice iterated", func(c []any) aitch.Node {
		return aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "item", "n": 0}, "I>"} }, aitch.Element("p", c...))
	}, func(s c19Seq, e *Env) string {
		out := ""
		for _, c := range []*Env{e.child(map[string]any{"k": "item", "n": 0}), e.child("I>")} {
			a, t := s.contents("p", c)
			out += a + t + "</p>"
		}
		return out
	}},
	{"after a fragment", func(c []any) aitch.Node {
		return aitch.Element("i", aitch.Fragment([]byte("<b>")), aitch.Element("p", c...))
	}, func(s c19Seq, e *Env) string {
		a, t := s.contents("p", e)
		return "<i><b>" + a + t + "</p></i>"
	}},
}

func c19Same(x *X, what, got string, err error, want string) {
	if err != nil {
		x.Failf("%s: %v", what, err)
	}
	if got != want {
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s: %s", what, d)
		}
	}
	x.Observe([]byte(got))
}

func c19Sequences(x *X) {
	n := 1 + x.Choose(x.Q(5, 6))
	h := 0
	if n < 4 {
		h = x.Choose(len(c19Holders))
	} else if n < 5 {
		h = x.Choose(2) * 3
	}
	var s c19Seq
	for i := 0; i < n; i++ {
		s = append(s, x.Choose(len(c19Items)))
	}
	x.Note(func() string { return c19Holders[h].name + ": " + s.String() })
	x.Ready()
	// items used several times are the same node
	nodes := map[int]any{}
	var contents []any
	for _, i := range s {
		if nodes[i] == nil {
			nodes[i] = c19Items[i].build()
		}
		contents = append(contents, nodes[i])
	}
	holder := c19Holders[h]
	el := holder.build(contents)
	for _, e := range c19Envs {
		got, err := render(el, e)
		c19Same(x, "rendered", got, err, holder.want(s, e))
	}
	for i := range s {
		if contents[i] != nil && nodes[s[i]] == nil {
			x.Failf("content %d changed", i)
		}
	}
}

// c19Shared puts the same nodes in two elements
func c19Shared(x *X) {
	pool := []int{0, 1, 2, 7, 11, 12, 13, 14}
	n := x.Q(2, 3)
	var a, b c19Seq
	for i := 0; i < n; i++ {
		a = append(a, pool[x.Choose(len(pool))])
	}
	m := 1 + x.Choose(n)
	for i := 0; i < m; i++ {
		b = append(b, pool[x.Choose(len(pool))])
	}
	h := x.Choose(len(c19Holders))
	x.Note(func() string { return fmt.Sprintf("%s: %s and %s", c19Holders[h].name, a, b) })
	x.Ready()
	nodes := map[int]any{}
	contents := func(s c19Seq) (l []any) {
		for _, i := range s {
			if nodes[i] == nil {
				nodes[i] = c19Items[i].build()
			}
			l = append(l, nodes[i])
		}
		return
	}
	holder := c19Holders[h]
	e1 := holder.build(contents(a))
	got, err := render(e1, c19Envs[0])
	c19Same(x, "first", got, err, holder.want(a, c19Envs[0]))
	e2 := holder.build(contents(b))
	for r := 0; r < 2; r++ {
		for _, e := range c19Envs {
			got, err := render(e2, e)
			c19Same(x, "second", got, err, holder.want(b, e))
			got, err = render(e1, e)
			c19Same(x, "first", got, err, holder.want(a, e))
		}
	}
}

// c19Functions calls every property function with every list of values
func c19Functions(x *X) {
	p := c19Props[x.Choose(len(c19Props))]
	vals := c19Vals()
	n := x.Choose(x.Q(3, 4))
	var list []*Val
	for i := 0; i < n; i++ {
		list = append(list, vals[x.Choose(len(vals))])
	}
	important := x.Bool()
	x.Note(func() string { return fmt.Sprint(p, list, " important ", important) })
	x.Ready()
	args := buildVals(list)
	if important {
		args = append(args, css.Important)
	}
	node := p.call(args...).(aitch.Node)
	if node.Name() != "style" {
		x.Failf("is named %q", node.Name())
	}
	el := aitch.Element("p", node)
	for _, e := range c19Envs {
		want := p.name + ":" + textOf(list, e)
		if important {
			want += css.Important
		}
		got, err := render(el, e)
		c19Same(x, "alone", got, err, `<p style="`+want+`"></p>`)
		got, err = render(aitch.VoidElement("br", css.Opacity(1), aitch.When("c", css.FlexGrow(2)), node), e)
		st := "opacity:1; " + want
		if e.Data["c"] != nil {
			st += "; flex-grow:2"
		}
		c19Same(x, "among others", got, err, `<br style="`+st+`">`)
	}
}

// c19UnitFns calls every unit function with every list of values, as a value of several properties and elsewhere
func c19UnitFns(x *X) {
	u := c19Units[x.Choose(len(c19Units))]
	u2 := c19Units[x.Choose(len(c19Units))]
	vals := c19Vals()
	n := x.Choose(x.Q(3, 4))
	var list []*Val
	for i := 0; i < n; i++ {
		list = append(list, vals[x.Choose(len(vals))])
	}
	x.Note(func() string { return fmt.Sprint(u, list, " ", u2) })
	x.Ready()
	v := u.call(buildVals(list)...)
	v2 := u2.call(v)
	el := aitch.Element("p", css.Width(v), css.Margin(v, " ", v2, " ", v), aitch.Attribute("width", v), html.Style(v2), aitch.Text(v2), aitch.Collection(css.Height(v2, css.Important)))
	for _, e := range c19Envs {
		t := textOf(list, e) + u.name
		t2 := t + u2.name
		got, err := render(el, e)
		c19Same(x, "rendered", got, err, `<p style="width:`+t+"; margin:"+t+" "+t2+" "+t+"; "+t2+"; height:"+t2+` !important" width="`+t+`">`+t2+`</p>`)
	}
}

// c19Pairs uses every unit in every property
func c19Pairs(x *X) {
	p := c19Props[x.Choose(len(c19Props))]
	p2 := c19Props[x.Choose(len(c19Props))]
	x.Note(func() string { return fmt.Sprint(p, " and ", p2) })
	x.Ready()
	for _, u := range c19Units {
		v := u.call(dk("n")).(aitch.Value)
		e := c19Envs[0]
		a := p.call(v, css.Important).(aitch.Node)
		got, err := render(aitch.Element("p", a, p2.call(v, "/", u.call(1.5)), a), e)
		w := p.name + ":7" + u.name + " !important"
		c19Same(x, u.String(), got, err, `<p style="`+w+"; "+p2.name+":7"+u.name+"/1.5"+u.name+"; "+w+`"></p>`)
	}
}

// c19Slices gives parts of one slice to several functions: each has its own values and the slice stays as it was
func c19Slices(x *X) {
	spare := x.Choose(3)
	base := make([]any, 3, 3+spare)
	copy(base, []any{1, dk("n"), "x"})
	rest := base[:cap(base)]
	for i := 3; i < len(rest); i++ {
		rest[i] = fmt.Sprint("spare", i)
	}
	fns := []*vocabFn{}
	for _, name := range []string{"Px", "Percent", "VMax"} {
		for _, u := range c19Units {
			if u.fn == name {
				fns = append(fns, u)
			}
		}
	}
	for _, name := range []string{"Width", "Color"} {
		for _, p := range c19Props {
			if p.fn == name {
				fns = append(fns, p)
			}
		}
	}
	fns = append(fns, nil) // html.Style
	type op struct{ fn, n int }
	var ops []op
	n := 1 + x.Choose(x.Q(3, 4))
	for i := 0; i < n; i++ {
		ops = append(ops, op{x.Choose(len(fns)), x.Choose(4)})
	}
	x.Note(func() string { return fmt.Sprint("spare capacity ", spare, ", (function, values): ", ops) })
	x.Ready()
	before := fmt.Sprint(rest)
	e := c19Envs[0]
	all := []string{"1", "7", "x"}
	var nodes []any
	var want []string
	for _, o := range ops {
		args := base[:o.n]
		t := strings.Join(all[:o.n], "")
		fn := fns[o.fn]
		switch {
		case fn == nil:
			nodes = append(nodes, html.Style(args...))
			for _, t := range all[:o.n] {
				want = append(want, t)
			}
		case fn.kind == "u":
			nodes = append(nodes, css.Top(fn.call(args...)))
			want = append(want, "top:"+t+fn.name)
		default:
			nodes = append(nodes, fn.call(args...))
			want = append(want, fn.name+":"+t)
		}
	}
	el := aitch.Element("p", nodes...)
	for r := 0; r < 2; r++ {
		got, err := render(el, e)
		c19Same(x, "rendered", got, err, `<p style="`+strings.Join(want, "; ")+`"></p>`)
		if after := fmt.Sprint(rest); after != before {
			x.Failf("the slice was %s and is %s", before, after)
		}
	}
}

// c19Constants: the values of the exported constants
func c19Constants(x *X) {
	x.Ready()
	for _, c := range []struct{ got, want string }{{css.Important, " !important"}, {css.DisplayBlock, "block"}, {css.DisplayInlineBlock, "inline-block"}, {css.DisplayNone, "none"},
		{css.PositionAbsolute, "absolute"}, {css.PositionSticky, "sticky"}, {css.TextJustify, "justify"}, {css.BorderNone, "none"}, {css.BorderOutset, "outset"}} {
		if c.got != c.want {
			x.Failf("%q instead of %q", c.got, c.want)
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C19",
		Level:  "model_checking",
		Rule:   "A case is a sequence of style declarations on an element (or calls of property and unit functions); what the element renders as is compared with its declarations, computed here from the sequence and the environment.",
		Assume: []string{"mc/vocab.txt has the name of each property and unit", "empty values add no declaration"},
		Suites: []*Suite{
			{Name: "sequences", Setup: c19Setup, Bounds: "all sequences of up to 5 (thorough 6) of 17 declarations (properties, units, style attributes, collections, conditions, other contents), in 7 kinds of element up to 3 and 2 for 4, the same node for repeated ones, rendered with 3 environments", Body: c19Sequences},
			{Name: "shared", Setup: c19Setup, Bounds: "all pairs of sequences of up to 2 (thorough 3) of 8 shared declarations in two elements rendered in turn", Body: c19Shared},
			{Name: "properties", Setup: c19Setup, Bounds: "each property function with all lists of up to 2 (thorough 3) of 24 values, important or not, alone and among others, with 3 environments", Body: c19Functions},
			{Name: "units", Setup: c19Setup, Bounds: "all pairs of units with all lists of up to 2 (thorough 3) of 24 values, as values of properties, attributes and text", Body: c19UnitFns},
			{Name: "pairs", Setup: c19Setup, Bounds: "all pairs of properties with all units", Body: c19Pairs},
			{Name: "slices", Setup: c19Setup, Bounds: "all sequences of up to 3 (thorough 4) calls of 6 functions with parts of one slice with spare capacity 0 to 2", Body: c19Slices},
			{Name: "constants", Bounds: "the constants", Body: c19Constants},
		},
	})
}
