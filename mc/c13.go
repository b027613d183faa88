package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
)

// tmplEnv is what a template is executed with
type tmplEnv struct {
	cond  bool
	items int
	k     string
	cargo any
	fail  string // the marker whose node fails
	from  int    // from which use on
}

func (e *tmplEnv) data(uses map[string]int) map[string]any {
	return map[string]any{"c": e.cond, "items": make([]int, e.items), "k": e.k, "w": "with", "fail": e.fail, "from": e.from, "uses": uses,
		"list": []any{"i<", 2}}
}

// failIf makes a callback that fails when the execution asks for it
func failIf(name string, ctx *context.Context) error {
	for c := ctx; c != nil; c = c.Parent {
		if uses, ok := c.Data["uses"].(map[string]int); ok {
			uses[name]++
			if c.Data["fail"] == name && uses[name] > c.Data["from"].(int) {
				return errApp1
			}
			return nil
		}
	}
	return nil
}

// tmplNode is a node bound to a marker
type tmplNode struct {
	name string
	attr bool
	node aitch.Node
	// what it renders in full, and what is written before it fails
	want func(e *tmplEnv) (full, before string)
}

func failer(name string) aitch.Node {
	return aitch.Imperative(func(ic aitch.ImperativeContext) error { return failIf(name, ic.Context()) })
}

func failValue(name string) any {
	return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
		if err := failIf(name, ctx); err != nil {
			ctx.Error = err
			return []byte("AFTER")
		}
		return nil
	})
}

func tmplNodes() []*tmplNode {
	return []*tmplNode{
		{name: "el", node: aitch.Element("p", aitch.Attribute("id", dk("k")), "t<", dk("k"), dk("."), failer("el"), "z"), want: func(e *tmplEnv) (string, string) {
			s := `<p id="` + esc(e.k) + `">t&lt;` + esc(e.k) + goText(e.cargo)
			return s + "z</p>", s
		}},
		{name: "txt", node: aitch.Text("a&", failValue("txt"), dk("k"), []byte("<i>&amp;</i>")), want: func(e *tmplEnv) (string, string) {
			return "a&amp;" + esc(e.k) + "<i>&amp;</i>", "a&amp;"
		}},
		{name: "cond", node: aitch.When("c", aitch.Element("b", "yes", failer("cond")), aitch.When("!c", aitch.Text("never"))), want: func(e *tmplEnv) (string, string) {
			if e.cond {
				return "<b>yes</b>", "<b>yes"
			}
			return "", ""
		}},
		{name: "iter", node: aitch.IterateKey("list", failer("iter"), aitch.Element("li", dk("."))), want: func(e *tmplEnv) (string, string) {
			return "<li>i&lt;</li><li>2</li>", ""
		}},
		{name: "imp", node: aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("u"), false)
			ic.WriteString("<")
			if err := failIf("imp", ic.Context()); err != nil {
				return err
			}
			ic.EndAll()
			return nil
		}), want: func(e *tmplEnv) (string, string) { return "<u>&lt;</u>", "<u>&lt;" }},
		{name: "coll", node: aitch.Collection(aitch.Text("1"), aitch.Comment("c"), aitch.Fragment("<", failValue("coll")), aitch.VoidElement("br")), want: func(e *tmplEnv) (string, string) {
			return "1<!--c-->&lt;<br>", "1<!--c-->&lt;"
		}},
		{name: "attr", attr: true, node: aitch.Attribute("lang", "e\"", dk("k"), failValue("attr"), "z"), want: func(e *tmplEnv) (string, string) {
			s := ` lang="e&quot;` + esc(e.k)
			return s + `z"`, s
		}},
		{name: "flag", attr: true, node: aitch.BooleanAttribute("flag"), want: func(e *tmplEnv) (string, string) { return " flag", " flag" }},
		{name: "class", attr: true, node: html.Class("c", dk("k"), failValue("class"), "d"), want: func(e *tmplEnv) (string, string) {
			s := ` class="c`
			if e.k != "" {
				s += " " + esc(e.k)
			}
			return s + ` d"`, s
		}},
		{name: "style", attr: true, node: html.Style(css.Color("red"), css.Width(css.Px(dk("k")))), want: func(e *tmplEnv) (string, string) {
			s := ` style="color:red; width:` + esc(e.k) + `px"`
			return s, s
		}},
	}
}

// tseg is a part of a template: its source, and what it writes
type tseg struct {
	src string
	run func(r *trun)
}

// trun models an execution
type trun struct {
	env  *tmplEnv
	out  strings.Builder
	uses map[string]int
	err  bool
}

func (r *trun) write(s string) {
	if !r.err {
		r.out.WriteString(s)
	}
}

func (r *trun) marker(n *tmplNode) {
	if r.err {
		return
	}
	full, before := n.want(r.env)
	if n.name != "flag" && n.name != "style" && !(n.name == "cond" && !r.env.cond) {
		times := 1
		if n.name == "iter" {
			times = 2
		}
		for i := 0; i < times; i++ {
			if r.uses[n.name]++; r.env.fail == n.name && r.uses[n.name] > r.env.from {
				if i == 1 {
					before = "<li>i&lt;</li>"
				}
				r.out.WriteString(before)
				r.err = true
				return
			}
		}
	}
	r.out.WriteString(full)
}

type tgen struct {
	x      *X
	nodes  []*tmplNode
	budget int
	used   []*tmplNode
	defs   []string
	label  int
}

func (g *tgen) pick(attr bool) *tmplNode {
	var l []*tmplNode
	for _, n := range g.nodes {
		if n.attr == attr {
			l = append(l, n)
		}
	}
	n := l[g.x.Choose(len(l))]
	g.used = append(g.used, n)
	return n
}

func (g *tgen) segs() []tseg {
	var out []tseg
	for g.budget > 0 {
		if g.x.Choose(2) == 0 {
			break
		}
		out = append(out, g.seg())
	}
	return out
}

func join(segs []tseg) (string, func(r *trun)) {
	var sb strings.Builder
	for _, s := range segs {
		sb.WriteString(s.src)
	}
	return sb.String(), func(r *trun) {
		for _, s := range segs {
			s.run(r)
		}
	}
}

func (g *tgen) seg() tseg {
	g.budget--
	g.label++
	lit := func(s string) func(r *trun) { return func(r *trun) { r.write(s) } }
	c := g.x.Choose(11)
	switch c {
	case 0: // a marker, and text around it
		n := g.pick(false)
		return tseg{fmt.Sprintf("(%d{{%s $}})\n", g.label, n.name), func(l int) func(r *trun) {
			return func(r *trun) { r.write(fmt.Sprintf("(%d", l)); r.marker(n); r.write(")\n") }
		}(g.label)}
	case 1: // a marker with nothing around it
		n := g.pick(false)
		return tseg{"{{" + n.name + " $}}", func(r *trun) { r.marker(n) }}
	case 2: // in a tag
		n := g.pick(true)
		return tseg{"<q {{" + n.name + " $}} b>t</q>", func(r *trun) { r.write("<q"); r.marker(n); r.write(" b>t</q>") }}
	case 3: // twice in a tag and in content
		n, m := g.pick(true), g.pick(false)
		return tseg{"<q {{" + n.name + " $}}>{{" + m.name + " $}}</q><i {{$ | " + n.name + "}}>{{$ | " + m.name + "}}</i>", func(r *trun) {
			r.write("<q")
			r.marker(n)
			r.write(">")
			r.marker(m)
			r.write("</q><i")
			r.marker(n)
			r.write(">")
			r.marker(m)
			r.write("</i>")
		}}
	case 4:
		src, run := join(g.segs())
		els, runElse := join(g.segs())
		return tseg{"{{if $.Data.c}}" + src + "{{else}}" + els + "{{end}}", func(r *trun) {
			if r.env.cond {
				run(r)
			} else {
				runElse(r)
			}
		}}
	case 5:
		src, run := join(g.segs())
		return tseg{"{{range $.Data.items}}r" + src + "{{else}}none{{end}}", func(r *trun) {
			for i := 0; i < r.env.items; i++ {
				r.write("r")
				run(r)
			}
			if r.env.items == 0 {
				r.write("none")
			}
		}}
	case 6:
		name := fmt.Sprintf("def%d", g.label)
		src, run := join(g.segs())
		g.defs = append(g.defs, `{{define "`+name+`"}}d`+src+"{{end}}")
		return tseg{`{{template "` + name + `" $}}`, func(r *trun) { r.write("d"); run(r) }}
	case 7: // the template's own dynamic output
		return tseg{"<s>{{$.Data.k}}</s>", func(r *trun) { r.write("<s>" + esc(r.env.k) + "</s>") }}
	case 8: // escaped text and attribute values
		n := g.nodes[1]
		g.used = append(g.used, n)
		return tseg{`<title>{{txt $}}</title><a title="{{txt $}}">`, func(r *trun) {
			r.write("<title>")
			r.marker(n)
			r.write(`</title><a title="`)
			r.marker(n)
			r.write(`">`)
		}}
	case 9:
		src, run := join(g.segs())
		n := g.pick(false)
		return tseg{"{{with $.Data.w}}{{.}}" + src + "{{end}} {{- " + n.name + " $ -}} \n", func(r *trun) { r.write("with"); run(r); r.marker(n) }}
	default:
		return tseg{"lit&amp;<hr>", lit("lit&amp;<hr>")}
	}
}

func (e *tmplEnv) String() string { return fmt.Sprintf("%+v", *e) }

// c13Run executes and compares
func c13Run(x *X, t *aitch.Template, run func(r *trun), e *tmplEnv, what string) {
	r := &trun{env: e, uses: map[string]int{}}
	run(r)
	var buf bytes.Buffer
	err := t.Execute(&buf, e.data(map[string]int{}), e.cargo)
	got, want := buf.String(), r.out.String()
	if r.err {
		if err == nil {
			x.Failf("%s %v: a node failed, but the execution did not (output %q)", what, e, got)
		}
		if !errors.Is(err, errApp1) {
			x.Failf("%s %v: returned %v instead of the node's error", what, e, err)
		}
		// the template's own blanks within tags may differ
		squeeze := func(s string) string {
			return strings.TrimRight(strings.ReplaceAll(strings.ReplaceAll(s, "  ", " "), " >", ">"), " ")
		}
		if squeeze(got) != squeeze(want) {
			x.Failf("%s %v: wrote %q before the error instead of %q", what, e, got, want)
		}
	} else {
		if err != nil {
			x.Failf("%s %v: %v", what, e, err)
		}
		if d := c13Same(got, want); d != "" {
			x.Failf("%s %v: %s", what, e, d)
		}
	}
	x.Observe([]byte(got))
}

func c13Same(got, want string) string {
	return stdOpt.Same(got, want)
}

func c13Envs(used []*tmplNode) []*tmplEnv {
	envs := []*tmplEnv{
		{cond: true, items: 2, k: "K<", cargo: "C&"},
		{cond: false, items: 0, k: "", cargo: nil},
		{cond: true, items: 1, k: "v", cargo: 7},
	}
	seen := map[string]bool{}
	for _, n := range used {
		if !seen[n.name] {
			seen[n.name] = true
			for from := 0; from < 3; from++ {
				envs = append(envs, &tmplEnv{cond: true, items: 2, k: "K", cargo: "C", fail: n.name, from: from})
			}
			envs = append(envs, &tmplEnv{cond: false, items: 1, k: "L", cargo: 3, fail: n.name})
		}
	}
	return append(envs, envs[1], envs[0])
}

var tmplNodeList = tmplNodes()

// c13Templates executes every template with every environment, one after the other
func c13Templates(x *X) {
	g := &tgen{x: x, nodes: tmplNodeList, budget: x.Q(3, 3)}
	if !x.Thorough() {
		// fewer nodes, so that larger templates can be covered
		g.nodes = []*tmplNode{tmplNodeList[0], tmplNodeList[1], tmplNodeList[3], tmplNodeList[6], tmplNodeList[8]}
	}
	segs := g.segs()
	src, run := join(segs)
	for _, d := range g.defs {
		src += d
	}
	x.Note(func() string { return fmt.Sprintf("%q", src) })
	x.Ready()
	nm := aitch.NodeMap{}
	for _, n := range tmplNodeList {
		nm[n.name] = n.node
	}
	t, err := aitch.NewTemplate("t", src, nm)
	if err != nil {
		x.Failf("not parsed: %v", err)
	}
	for n := range nm {
		delete(nm, n)
	}
	for i, e := range c13Envs(g.used) {
		c13Run(x, t, run, e, fmt.Sprintf("execution %d", i))
	}
}

// c13Missing takes away the node of a marker
func c13Missing(x *X) {
	places := []string{"{{M $}}", "a{{M .}}b", "<p {{M .}}>", "{{if .Data.c}}{{M .}}{{end}}", "{{range .Data.items}}{{M $}}{{end}}", `{{define "d"}}{{M .}}{{end}}`, `{{block "d" .}}{{M .}}{{end}}`,
		"{{with .Cargo}}{{else}}{{M .}}{{end}}", "{{. | M}}", "{{el .}}{{M .}}", "{{M .}}{{el .}}", "{{if false}}{{M .}}{{end}}"}
	p := places[x.Choose(len(places))]
	n := tmplNodeList[x.Choose(len(tmplNodeList))]
	way := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("%q for %s, way %d", p, n.name, way) })
	x.Ready()
	nm := aitch.NodeMap{"other": n.node}
	if n.name != "el" {
		nm["el"] = tmplNodeList[0].node
	}
	switch way {
	case 1:
		nm[n.name] = nil
	case 2:
		nm[n.name] = aitch.Element("0bad")
	case 3:
		nm[n.name+"x"] = n.node
	}
	src := strings.ReplaceAll(p, "M", n.name)
	t, err := aitch.NewTemplate("t", src, nm)
	if err == nil {
		x.Failf("no error although %s has no node", n.name)
	}
	_ = t
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		aitch.MustNewTemplate("t", src, nm)
		return
	}()
	if !panicked {
		x.Failf("MustNewTemplate did not panic although %s has no node", n.name)
	}
	// the other markers do not need it
	nm[n.name] = nil
	if way == 0 {
		delete(nm, n.name)
	}
	if t, err := aitch.NewTemplate("t", "x{{/* "+n.name+" */}}y", nm); err != nil {
		x.Failf("a template without markers: %v", err)
	} else {
		var buf bytes.Buffer
		if err := t.Execute(&buf, nil, nil); err != nil || buf.String() != "xy" {
			x.Failf("a template without markers wrote %q, %v", buf.String(), err)
		}
	}
	x.Observe([]byte(src))
}

// c13Sharing builds two templates which share nodes, and executes them in every order
func c13Sharing(x *X) {
	a := tmplNodeList[x.Choose(len(tmplNodeList))]
	b := tmplNodeList[x.Choose(len(tmplNodeList))]
	orders := x.Q(3, 4)
	order := make([]int, orders)
	for i := range order {
		order[i] = x.Choose(6)
	}
	x.Note(func() string { return fmt.Sprintf("%s and %s, executions %v", a.name, b.name, order) })
	x.Ready()
	wrap := func(n *tmplNode, m string) (string, func(r *trun)) {
		if n.attr {
			return "<q {{" + m + " .}}>", func(r *trun) { r.write("<q"); r.marker(n); r.write(">") }
		}
		return "[{{" + m + " .}}]", func(r *trun) { r.write("["); r.marker(n); r.write("]") }
	}
	// m1 is one node in the first template and the other one in the second
	s1, r1 := wrap(a, "m1")
	s2, r2 := wrap(b, "m2")
	t1, err1 := aitch.NewTemplate("t", s1+s2+s1, aitch.NodeMap{"m1": a.node, "m2": b.node})
	s3, r3 := wrap(b, "m1")
	s4, r4 := wrap(a, "m2")
	t2, err2 := aitch.NewTemplate("t", s3+s4, aitch.NodeMap{"m1": b.node, "m2": a.node})
	if err1 != nil || err2 != nil {
		x.Failf("%v %v", err1, err2)
	}
	envs := []*tmplEnv{{cond: true, items: 2, k: "K<", cargo: "C&"}, {}, {cond: true, k: "f", cargo: 1.5, fail: b.name}}
	for i, o := range order {
		e := envs[o%3]
		if o < 3 {
			c13Run(x, t1, func(r *trun) { r1(r); r2(r); r1(r) }, e, fmt.Sprintf("execution %d of template 1", i))
		} else {
			c13Run(x, t2, func(r *trun) { r3(r); r4(r) }, e, fmt.Sprintf("execution %d of template 2", i))
		}
	}
}

// names html/template predefines, and identifiers of every kind
var c13Names = []string{"len", "index", "print", "printf", "println", "slice", "call", "and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge", "js",
	"_", "_x", "X", "x1", "él", "名", "Δx", "aVeryLongMarkerName" + strings.Repeat("0123456789", 30), "title", "class", "script", "Data", "Cargo", "Render", "t", "nodes", "context", "ctx", "err", "node"}

// c13MarkerNames binds nodes to markers of unusual names
func c13MarkerNames(x *X) {
	a := x.Choose(len(c13Names))
	b := x.Choose(len(c13Names))
	place := x.Choose(5)
	na, nb := c13Names[a], c13Names[b]
	if na == nb {
		nb = "other"
	}
	x.Note(func() string { return fmt.Sprintf("markers %s and %s, place %d", na, nb, place) })
	x.Ready()
	src := []string{
		"1{{" + na + " .}}2{{" + nb + " .}}3<p {{m .}}>",
		"{{" + nb + " $}}<p {{m $}}>{{. | " + na + "}}",
		"{{if .Data.c}}{{" + na + " .}}{{end}}{{range .Data.items}}{{" + nb + " $}}{{end}}<p {{m .}}>",
		`{{define "` + na + `"}}<p {{m .}}>{{` + nb + ` .}}{{end}}{{template "` + na + `" .}}{{` + na + ` .}}`,
		"{{with .Data.w}}{{" + na + " $}}{{end}}<p {{m .}} x>{{(" + nb + " .)}}",
	}[place]
	want := []string{
		`1<b>A K</b>2B&lt;Y3<p title="K">`, `B&lt;Y<p title="K"><b>A K</b>`, `<b>A K</b>B&lt;YB&lt;Y<p title="K">`, `<p title="K">B&lt;Y<b>A K</b>`, `<b>A K</b><p title="K" x>B&lt;Y`,
	}[place]
	if place == 3 && (na == "t" || na == "_") {
		src, want = "{{"+na+" .}}{{"+nb+" .}}", "<b>A K</b>B&lt;Y"
	}
	t, err := aitch.NewTemplate("t", src, aitch.NodeMap{
		na: aitch.Element("b", "A ", dk("k")), nb: aitch.Collection(aitch.Text("B<", dk("."))), "m": aitch.Attribute("title", dk("k")),
	})
	if err != nil {
		x.Failf("%q not parsed: %v", src, err)
	}
	for i := 0; i < 2; i++ {
		var buf bytes.Buffer
		if err := t.Execute(&buf, map[string]any{"k": "K", "c": true, "items": []int{1, 2}, "w": "w"}, "Y"); err != nil {
			x.Failf("%q: %v", src, err)
		}
		if d := c13Same(buf.String(), want); d != "" {
			x.Failf("%q: %s", src, d)
		}
		x.Observe(buf.Bytes())
	}
}

func init() {
	register(&Prop{
		ID:     "C13",
		Level:  "model_checking",
		Rule:   "A case is a template source made of segments; it is parsed once and executed with a sequence of environments (conditions, repetitions, data, cargo, each marker's node failing at its first, second or third use), each execution compared with the model.",
		Assume: []string{"markers are element content, quoted attribute values, title or textarea text (nodes) or within a tag (attribute nodes): html/template itself writes a failsafe for other combinations", "conditional nodes are not used as attribute markers (html/template writes its failsafe there)", "NodeMap keys are valid html/template function names"},
		Suites: []*Suite{
			{Name: "templates", Bounds: "all templates of up to 3 nested segments of 11 kinds with markers for 5 (thorough 10) nodes, executed 5 times plus 4 times for each node failing", Body: c13Templates},
			{Name: "missing", Bounds: "12 places x 10 markers x 4 ways to have no node", Body: c13Missing},
			{Name: "names", Bounds: "pairs of 37 marker names (17 predefined by html/template, other identifiers) x 5 templates, each executed twice", Body: c13MarkerNames},
			{Name: "sharing", Bounds: "pairs of 10 nodes in two templates, all sequences of 3 (thorough 4) executions of 2 templates x 3 environments", Body: c13Sharing},
		},
	})
}
