package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

// Suites with nodes that the application implements itself, of every node type and of types that cannot be compared.

// customKids are what such a node renders
func customKids(i int) []*Node {
	val := []*Val{{K: VCargo}, vkey("k")}
	return [][]*Node{
		{},
		{{K: KText, Vals: append(val, vs("<"))}},
		{attrNode("id", vs("lost"))},
		{elNode("b", attrNode("id", val...), textNode("t"))},
		{textNode("x"), {K: KNil}, attrNode("n", vs("lost")), {K: KVoid, Name: "br"}},
		{{K: KCond, Cond: 0, Kids: []*Node{textNode("y"), attrNode("n", vs("lost"))}}, {K: KColl, Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("lost")}}, textNode("z")}}},
		{{K: KIter, Items: []any{1, "j"}, Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}}}}}},
		{{K: KImpEl, Name: "imp", Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("c")}}, textNode("z")}}},
		{{K: KCustom, Form: 2, Kids: []*Node{textNode("u")}}, {K: KCollect, Kids: []*Node{{K: KText, Vals: val}}}},
	}[i]
}

const customKidsN = 9

// customSide are its neighbours
func customSide(i int) []*Node {
	switch i {
	case 1:
		return []*Node{textNode("s<")}
	case 2:
		return []*Node{attrNode("id", vs("own"), vkey("k"))}
	case 3:
		return []*Node{elNode("i", attrNode("n", vs("v")))}
	case 4:
		return []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("own")}}, {K: KCond, Cond: 1, Kids: []*Node{{K: KBool, Name: "id"}}}}
	}
	return nil
}

// customTree chooses a tree with such nodes
func customTree(x *X, hs []string) *Node {
	h := hs[x.Choose(len(hs))]
	c := &Node{K: KCustom, Form: x.Choose(customForms), Kids: customKids(x.Choose(customKidsN))}
	var kids []*Node
	kids = append(kids, customSide(x.Choose(5))...)
	kids = append(kids, c)
	switch x.Choose(4) {
	case 1: // the same node again
		kids = append(kids, textNode("between"), c)
	case 2: // one of another type within
		c.Kids = append(c.Kids, &Node{K: KCustom, Form: x.Choose(customForms), Kids: customKids(1)})
	case 3: // and one beside
		kids = append(kids, &Node{K: KCustom, Form: x.Choose(customForms), Kids: customKids(3)})
	}
	kids = append(kids, customSide(x.Choose(x.Q(3, 5)))...)
	top := hold(h, kids...)
	if h == "iterate" {
		top.Items = []any{"i", map[string]any{"k": "item"}}
	}
	return top
}

func customEnvs() []*Env {
	data := map[string]any{"k": "D&"}
	return []*Env{{Data: data, Cargo: "C<", Conds: []bool{true, false}}, {Data: data, Cargo: 5, Conds: []bool{false, true}}}
}

func customNodes(hs []string, o *CmpOpt) func(x *X) {
	return func(x *X) {
		top := customTree(x, hs)
		x.Note(func() string { return top.String() })
		x.Ready()
		checkSharedModel(x, o, top, customEnvs()...)
	}
}

// checkSharedModel is checkModel for trees in which one description is one node
func checkSharedModel(x *X, o *CmpOpt, top *Node, envs ...*Env) {
	l := &live{conds: append([]bool(nil), envs[0].Conds...), memo: map[*Node]aitch.Node{}}
	n := top.node(l)
	for round := 0; round < 2; round++ {
		for _, e := range envs {
			copy(l.conds, e.Conds)
			c := *e
			want := top.Model(&c)
			got, err := render(n, e)
			if err != nil {
				x.Failf("rendering returned an error: %v", err)
			}
			if d := o.Same(got, want); d != "" {
				x.Failf("render %d: %s", round+1, d)
			}
			x.Observe([]byte(got))
		}
	}
}

func c08Custom(x *X) {
	h := holders[x.Choose(len(holders))]
	c := &Node{K: KCustom, Form: x.Choose(customForms), Kids: customKids(x.Choose(customKidsN))}
	kids := []*Node{c}
	if x.Thorough() {
		kids = append(customSide(x.Choose(5)), c)
	}
	if x.Bool() {
		kids = append(kids, textNode("between"), c)
	} else {
		kids = append(kids, customSide(x.Choose(5))...)
	}
	top := hold(h, kids...)
	x.Note(func() string { return top.String() })
	x.Ready()
	e := customEnvs()[0]
	l := &live{conds: e.Conds, memo: map[*Node]aitch.Node{}}
	checkFaults(x, renderFault(top.node(l), e))
}

// c09Custom: something fails within an application's own node
func c09Custom(x *X) {
	h := holders[x.Choose(len(holders))]
	c := &Node{K: KCustom, Form: x.Choose(customForms)}
	f := c09Fail(x, errApp1, 17)
	switch x.Choose(4) {
	case 0:
		c.Kids = []*Node{f}
	case 1:
		c.Kids = []*Node{textNode("x"), f, textNode("y")}
	case 2:
		c.Kids = []*Node{elNode("b", textNode("x"), f, textNode("y")), textNode("z")}
	case 3:
		c.Kids = []*Node{{K: KCustom, Form: x.Choose(customForms), Kids: []*Node{textNode("x"), f}}, textNode("z")}
	}
	var kids []*Node
	kids = append(kids, customSide(x.Choose(x.Q(3, 5)))...)
	kids = append(kids, c)
	kids = append(kids, customSide(x.Choose(x.Q(3, 5)))...)
	top := hold(h, kids...)
	switch x.Choose(2) {
	case 1:
		top = hold("element", top, textNode("after"))
	}
	checkErrors(x, top, func() *Env { return customEnvs()[0] })
}

// vocabUse is a node made with the vocabulary, one of whose values is given
type vocabUse struct {
	name string
	mk   func(v any) aitch.Node
}

func vocabUses() (out []vocabUse) {
	use := func(name string, mk func(v any) aitch.Node) { out = append(out, vocabUse{name, mk}) }
	for _, v := range vocabFns() {
		v := v
		args := func(l ...any) []any {
			if v.prefix {
				l = append([]any{"px"}, l...)
			}
			return l
		}
		for at := 0; at < 3; at++ {
			list := func(val any) []any {
				l := []any{"v1", dk("k"), "v3"}
				l[at] = val
				return args(l...)
			}
			at := at
			switch v.kind {
			case "e":
				use(fmt.Sprintf("%s(content %d)", v, at), func(val any) aitch.Node { return v.call(list(val)...).(aitch.Node) })
				if at == 1 {
					use(fmt.Sprintf("%s(attribute)", v), func(val any) aitch.Node {
						return v.call("t", aitch.Attribute("id", "a", val, "b"), aitch.DelimitedAttribute("class", " ", val), "u").(aitch.Node)
					})
				}
			case "v":
				use(fmt.Sprintf("%s(attribute %d)", v, at), func(val any) aitch.Node {
					return v.call(aitch.Attribute("id", "a", val, "b"), aitch.DelimitedAttribute("class", " ", "x", val)).(aitch.Node)
				})
			case "a", "d", "y":
				use(fmt.Sprintf("%s(value %d)", v, at), func(val any) aitch.Node {
					a := v.call(list(val)...).(aitch.Node)
					switch at {
					case 0:
						return aitch.Element("p", a, "text")
					case 1:
						return aitch.VoidElement("br", aitch.Collection(a), aitch.Attribute("more", "m"))
					}
					return aitch.Element("p", aitch.BooleanAttribute("b"), aitch.Conditional(func(*context.Context) bool { return true }, a, aitch.Text("text")))
				})
			case "u":
				use(fmt.Sprintf("%s(value %d)", v, at), func(val any) aitch.Node {
					u := v.call(list(val)...)
					switch at {
					case 0:
						return aitch.Element("p", css.Width(u), css.Height("1"), "text")
					case 1:
						return aitch.Collection(aitch.Text("a", u, "b"))
					}
					return aitch.Collection(aitch.Comment("a", u, "b"), aitch.Fragment(u))
				})
			}
		}
	}
	use("Document(lang)", func(v any) aitch.Node { return html.Document(v, []any{html.Title("t")}, []any{"b"}) })
	use("Document(head)", func(v any) aitch.Node { return html.Document("en", []any{html.Title("t", v)}, []any{"b"}) })
	use("Document(body)", func(v any) aitch.Node { return html.Document(nil, nil, []any{"a", v, "b"}) })
	use("Headers", func(v any) aitch.Node {
		return html.Div(htmx.Headers(htmx.HeadersMap{"a": 1, "b": v, "c": dk("k")}), "t")
	})
	use("Headers merged", func(v any) aitch.Node {
		return html.Div(htmx.Headers(htmx.HeadersMap{"b": v}, htmx.HeadersMap{"a": 1}), "t")
	})
	use("HeadersJS", func(v any) aitch.Node {
		return html.Div(htmx.HeadersJS(htmx.HeadersMap{"a": 1, "b": v, "c": dk("k")}), "t")
	})
	use("HeadersJS merged", func(v any) aitch.Node {
		return html.Div(htmx.HeadersJS(htmx.HeadersMap{"b": v}, htmx.HeadersMap{"a": 1}), "t")
	})
	use("Var", func(v any) aitch.Node {
		return html.Div(htmx.Vars(htmx.Var("a", 1), htmx.Var("b", v), htmx.Var("c", 2)), "t")
	})
	use("Var and style", func(v any) aitch.Node {
		return html.Div(html.Style(css.Width(1), css.Px(v)), htmx.Vars(htmx.Var("b", v)), "t")
	})
	use("html.Text", func(v any) aitch.Node { return html.Text("a", v, "b") })
	use("html.Comment", func(v any) aitch.Node { return html.Comment("a", v, "b") })
	use("html.PI", func(v any) aitch.Node { return html.PI("x", "a", v, "b") })
	return
}

var vocabUseList []vocabUse

func vocabUseSetup() { vocabUseList = vocabUses() }

var vocabEnv = &Env{Data: map[string]any{"k": "D&"}, Cargo: "C<"}

// c08Vocab: every write of every vocabulary function fails
func c08Vocab(x *X) {
	u := vocabUseList[x.Choose(len(vocabUseList))]
	wrap := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("%s, wrapped %d", u.name, wrap) })
	x.Ready()
	n := vocabWrap(wrap, u.mk(aitch.NewConcatValue("x<", func(*context.Context) []byte { return []byte("y") }, dk("."))))
	checkFaults(x, renderFault(n, vocabEnv))
}

func vocabWrap(wrap int, n aitch.Node) aitch.Node {
	switch wrap {
	case 1:
		return aitch.Collection(aitch.Text("pre"), aitch.Element("div", n, "after"), aitch.Text("post"))
	case 2:
		return aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": "item"}, 2} }, n, aitch.Text("post"))
	}
	return n
}

// c09Vocab: a value given to a vocabulary function fails
func c09Vocab(x *X) {
	u := vocabUseList[x.Choose(len(vocabUseList))]
	wrap := x.Choose(3)
	way := x.Choose(5)
	x.Note(func() string { return fmt.Sprintf("%s with a failing value of way %d, wrapped %d", u.name, way, wrap) })
	x.Ready()
	fails := false
	record := func(ctx *context.Context) []byte {
		if fails && ctx.Error == nil {
			ctx.Error = errApp1
		}
		return []byte("FAILING")
	}
	var v any
	switch way {
	case 0:
		v = record
	case 1:
		v = aitch.DynamicValueFunc(record)
	case 2:
		v = aitch.NewConcatValue("x", record, "z")
	case 3:
		v = aitch.NewValue(record)
	case 4:
		v = aitch.NewConcatValue(aitch.NewConcatValue(record, dk("k")))
	}
	n := vocabWrap(wrap, u.mk(v))
	for round := 0; round < 2; round++ {
		fails = false
		want, err := render(n, vocabEnv)
		if err != nil {
			x.Failf("an error although nothing failed: %v", err)
		}
		fails = true
		got, err := render(n, vocabEnv)
		if !strings.Contains(want, "FAILING") {
			// the value is not used
			continue
		}
		if !sameErr(err, errApp1) {
			x.Failf("returned %v instead of the error (output %q)", err, got)
		}
		if !strings.HasPrefix(want, got) || strings.Contains(got, "FAILING") {
			x.Failf("written after the error: %q of %q", got, want)
		}
		x.Observe([]byte(got))
	}
}

// ---- readers of generators

type zeroReader struct {
	r     io.Reader
	empty bool
}

func (z *zeroReader) Read(p []byte) (int, error) {
	if z.empty = !z.empty; z.empty {
		return 0, nil
	}
	return z.r.Read(p[:min(len(p), 3)])
}

type chunkReader struct{ chunks []string }

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.chunks[0])
	if c.chunks[0] = c.chunks[0][n:]; c.chunks[0] == "" {
		c.chunks = c.chunks[1:]
	}
	return n, nil
}

type dirtyReader struct{ r io.Reader }

// Read uses all of p as scratch space, as it may
func (d *dirtyReader) Read(p []byte) (int, error) {
	n, err := d.r.Read(p[:min(len(p), 7)])
	for i := n; i < len(p); i++ {
		p[i] = '<'
	}
	return n, err
}

var readerInputs = []string{
	"",
	"text only &amp; <b",
	`<!DOCTYPE html><div a="1 &amp; 2" class='c d' hidden>text<br/><!-- c --><p>é ☃ 𝄞</p></div>`,
	"<a href=x>`back \"quoted\" \\ \t</a><x-y data-z=\"q\">" + strings.Repeat("long ", 30) + "</x-y>",
	`<g><path d="M0 0"/><text x="1">t&lt;</text></g>`,
	"<p>one</p>\n<p>two</p>\n",
}

func genReaders(isSvg bool) func(x *X) {
	return func(x *X) {
		in := readerInputs[x.Choose(len(readerInputs))]
		way := x.Choose(13)
		split, split2 := 0, 0
		if way == 0 {
			split = x.Choose(len(in) + 1)
			split2 = split + x.Choose(x.Q(min(len(in)-split, 8), len(in)-split)+1)
		}
		x.Note(func() string { return fmt.Sprintf("%q read in way %d, split at %d and %d", in, way, split, split2) })
		x.Ready()
		gen := html.GenerateCode
		if isSvg {
			gen = svg.GenerateCode
		}
		var want bytes.Buffer
		if err := gen(strings.NewReader(in), &want); err != nil {
			x.Failf("%v", err)
		}
		sr := strings.NewReader(in)
		var r io.Reader
		switch way {
		case 0:
			c := &chunkReader{}
			for _, p := range []string{in[:split], in[split:split2], in[split2:]} {
				if p != "" {
					c.chunks = append(c.chunks, p)
				}
			}
			r = c
		case 1:
			r = iotest.HalfReader(sr)
		case 2:
			r = iotest.DataErrReader(sr)
		case 3:
			r = iotest.DataErrReader(iotest.OneByteReader(sr))
		case 4:
			r = &zeroReader{r: sr}
		case 5:
			r = &dirtyReader{sr}
		case 6:
			r = bufio.NewReaderSize(sr, 16)
		case 7:
			r = bytes.NewBufferString(in)
		case 8:
			r = io.LimitReader(strings.NewReader(in+"<more>"), int64(len(in)))
		case 9:
			r = io.MultiReader(strings.NewReader(in[:len(in)/2]), strings.NewReader(""), strings.NewReader(in[len(in)/2:]))
		case 10: // not from its start
			sr2 := strings.NewReader("<skipped>" + in)
			_, _ = sr2.Seek(int64(len("<skipped>")), io.SeekStart)
			r = sr2
		case 11:
			pr, pw := io.Pipe()
			go func() {
				for i := 0; i < len(in); i += 5 {
					_, _ = pw.Write([]byte(in[i:min(i+5, len(in))]))
				}
				_ = pw.Close()
			}()
			r = pr
		}
		var got bytes.Buffer
		if way == 12 { // to the standard output
			out, err := stdout(func() error { return gen(sr, nil) })
			if err != nil || out != want.String() {
				x.Failf("writes %q to the standard output (error %v) instead of %q", out, err, want.String())
			}
			x.Observe([]byte(out))
			return
		}
		got.WriteString("// before\n")
		if err := gen(r, &got); err != nil {
			x.Failf("%v", err)
		}
		if got.String() != "// before\n"+want.String() {
			x.Failf("generates %q instead of %q", got.String(), want.String())
		}
		x.Observe(got.Bytes())
	}
}

// ---- many renders with one context

// oneContext renders several templates with the same context, one after the other
func oneContext(x *X) {
	mk := []func() *Node{
		func() *Node {
			return elNode("p", attrNode("id", vkey("k")), &Node{K: KText, Vals: []*Val{{K: VCargo}}})
		},
		func() *Node {
			return &Node{K: KIter, Items: []any{map[string]any{"k": "item"}, 2}, Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}, vkey("k")}}}}
		},
		func() *Node {
			return &Node{K: KIter, Form: 2, Items: []any{"y"}, Kids: []*Node{elNode("b", &Node{K: KText, Vals: []*Val{{K: VCargo}}})}}
		},
		func() *Node {
			return &Node{K: KImpEl, Name: "imp", Kids: []*Node{{K: KIter, Form: 1, Name: "list", Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}}}}}}}
		},
		func() *Node { return &Node{K: KDoc, Kids: []*Node{attrNode("id", vs("1")), textNode("d")}} },
		func() *Node { return &Node{K: KCond, Cond: 0, Kids: []*Node{textNode("c")}} },
		func() *Node {
			return &Node{K: KVoid, Name: "br", Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vkey("k")}}, {K: KBool, Name: "b"}}}
		},
		func() *Node { return &Node{K: KCustom, Form: 10, Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}}}}} },
	}
	n := 1 + x.Choose(x.Q(3, 4))
	var tops []*Node
	for i := 0; i < n; i++ {
		tops = append(tops, mk[x.Choose(len(mk))]())
	}
	x.Note(func() string {
		s := "with one context:"
		for _, t := range tops {
			s += " " + t.String()
		}
		return s
	})
	x.Ready()
	data := map[string]any{"k": "D<", "list": []any{1, "2"}}
	var buf bytes.Buffer
	ctx := context.New(&buf, data, "C&")
	env := &Env{Data: data, Cargo: "C&", Conds: []bool{true, false}}
	l := &live{conds: env.Conds}
	for i, t := range tops {
		node := t.node(l)
		for round := 0; round < 2; round++ {
			buf.Reset()
			if err := node.Render(ctx); err != nil {
				x.Failf("template %d: %v", i, err)
			}
			c := *env
			if d := ordOpt.Same(buf.String(), t.Model(&c)); d != "" {
				x.Failf("template %d, render %d: %s", i, round, d)
			}
			if ctx.Writer != io.Writer(&buf) || ctx.Cargo != any("C&") || ctx.Error != nil || ctx.Parent != nil || len(ctx.Data) != 2 || ctx.Data["k"] != "D<" || len(ctx.Data["list"].([]any)) != 2 {
				x.Failf("template %d changed the context to %+v", i, ctx)
			}
			x.Observe(buf.Bytes())
		}
	}
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: name, Bounds: bounds, Body: body})
	}
	p := props["C08"]
	p.Suites = append(p.Suites, &Suite{Name: "vocabulary", Setup: vocabUseSetup, Bounds: "every vocabulary function (716) with its value at 3 places, documents, headers, variables, in 3 surroundings x every write x 5 kinds of failure", Body: c08Vocab})
	p = props["C09"]
	p.Suites = append(p.Suites, &Suite{Name: "vocabulary", Setup: vocabUseSetup, Bounds: "every vocabulary function (716) with a failing value at 3 places, documents, headers, variables, in 3 surroundings and 5 ways of giving the value", Body: c09Vocab})
	add("C16", "readers", "6 inputs x every split into 3 chunks (second one up to 8 bytes, thorough: any) and 12 kinds of readers, or to the standard output", genReaders(false))
	add("C17", "readers", "6 inputs x every split into 3 chunks (second one up to 8 bytes, thorough: any) and 12 kinds of readers, or to the standard output", genReaders(true))
	add("C06", "one-context", "sequences of up to 3 (thorough 4) of 8 templates, each rendered twice with the same context", oneContext)
	add("C10", "one-context", "sequences of up to 3 (thorough 4) of 8 templates, each rendered twice with the same context", oneContext)
	b := "application's own nodes of 12 kinds (every node type, function and slice types, embedding a node, also stringers and errors) × 9 contents × neighbours, twice or within or beside one another, "
	add("C01", "custom-nodes", b+"below 14 containers", customNodes(holders, stdOpt))
	add("C03", "custom-nodes", b+"in 5 kinds of tags", customNodes([]string{"element", "void", "imperative element", "document", "conditional in element"}, stdOpt))
	add("C04", "custom-nodes", b+"below conditionals", customNodes([]string{"conditional", "when", "conditional in element"}, stdOpt))
	add("C05", "custom-nodes", b+"below 14 containers, in order", customNodes(holders, ordOpt))
	add("C06", "custom-nodes", b+"below 14 containers, rendered in turn", customNodes(holders, stdOpt))
	add("C08", "custom-nodes", b+"below 14 containers, every write failing", c08Custom)
	add("C09", "custom-nodes", "17 failures at 4 places within application's own nodes of 12 kinds, neighbours, below 14 containers", c09Custom)
	add("C10", "custom-nodes", b+"in iterations", customNodes([]string{"iterate", "yield"}, stdOpt))
	add("C12", "custom-nodes", b+"written imperatively", customNodes([]string{"imperative", "imperative element"}, stdOpt))
}

// huge runs a scale suite with sizes at which 16 bit counters overflow
func huge(quick, thorough []int, body func(x *X)) func(x *X) {
	return func(x *X) {
		x.huge = quick
		if x.Thorough() {
			x.huge = thorough
		}
		body(x)
	}
}

func init() {
	add := func(id, name string, deep bool, body func(x *X)) {
		p := props[id]
		q, t := []int{65537}, []int{65536, 131073}
		if deep {
			q, t = []int{5000}, []int{4097, 10001}
		}
		p.Suites = append(p.Suites, &Suite{Name: name, MaxCase: 300 * time.Second, Bounds: fmt.Sprintf("the suite of scale (%s) with sizes %v (thorough %v)", strings.TrimPrefix(name, "huge-"), q, t), Body: huge(q, t, body)})
	}
	add("C01", "huge-wide", false, c01WideScale)
	add("C01", "huge-deep", true, c01DeepScale)
	add("C03", "huge", false, c03Scale)
	add("C04", "huge", true, c04Scale)
	add("C05", "huge", false, c05Scale)
	add("C05", "huge-headers", true, c05HeaderSizes)
	add("C06", "huge", true, c06Scale)
	add("C09", "huge", true, c09Scale)
	add("C10", "huge", false, c10Scale)
	add("C10", "huge-deep", true, c10Deep)
	add("C10", "huge-slices", false, c10Slices)
	add("C11", "huge", true, c11Scale)
	add("C12", "huge", false, c12Scale)
	add("C12", "huge-nests", true, c12Nests)
	add("C13", "huge", true, c13Scale)
	add("C14", "huge", false, c14Lengths)
	add("C19", "huge", true, c19Scale)
	add("C20", "huge", false, c20Scale)
}

// manyRenders renders one thing very often, with data that change from time to time
func manyRenders(x *X) {
	items := c07Items()
	it := items[x.Choose(len(items))]
	way := x.Choose(4)
	n := x.Q(70000, 200000)
	x.Note(func() string { return fmt.Sprintf("%s rendered %d times, way %d", it.name, n, way) })
	x.Ready()
	want := func(id int) string {
		s, err := it.build().render(id)
		if err != nil {
			x.Failf("%v", err)
		}
		return s
	}
	w0, w1 := want(0), want(1)
	if way == 3 {
		// built anew
		for i := 0; i < n/2; i++ {
			if got, err := it.build().render(0); err != nil || got != w0 {
				x.Failf("copy %d: %q, %v instead of %q", i, got, err, w0)
			}
		}
		x.Observe([]byte(w0))
		return
	}
	s := it.build()
	for i := 0; i < n; i++ {
		id, w := 0, w0
		switch {
		case way == 0 && i == n-1, way == 1 && i%2 == 1, way == 2 && i == 0:
			id, w = 1, w1
		}
		if got, err := s.render(id); err != nil || got != w {
			x.Failf("render %d: %q, %v instead of %q", i, got, err, w)
		}
	}
	x.Observe([]byte(w0))
}

func init() {
	for _, id := range []string{"C05", "C06"} {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: "many-renders", MaxCase: 300 * time.Second, Bounds: "21 shared templates, each rendered 70000 (thorough 200000) times in 3 ways of changing the data, and built 35000 (100000) times", Body: manyRenders})
	}
}

// tmplConstruct is a template with the markers n and m, and what it writes with \x01 and \x02 at their places
type tmplConstruct struct{ src, out string }

var contentConstructs = []tmplConstruct{
	{"{{n $}}", "\x01"},
	{"x {{- n $ -}} y", "x\x01y"},
	{"x{{(n $)}}y", "x\x01y"},
	{"x{{n ($)}}y{{m (.)}}", "x\x01y\x02"},
	{"x{{$ | n}}y{{. | m}}", "x\x01y\x02"},
	{"{{with $c := $}}{{n $c}}{{n .}}{{end}}", "\x01\x01"},
	{`{{block "b" $}}({{n .}}){{end}}{{template "b" $}}`, "(\x01)(\x01)"},
	{`{{define "d"}}{{n .}}{{template "e" $}}{{end}}{{define "e"}}[{{m .}}]{{end}}<i>{{template "d" .}}</i>{{template "d" $}}`, "<i>\x01[\x02]</i>\x01[\x02]"},
	{"{{range $i, $e := $.Data.items}}{{$i}}{{n $}}{{if $i}}{{break}}{{end}},{{end}}", "0\x01,1\x01"},
	{"{{range $.Data.items}}{{if .}}{{m $}}{{continue}}{{end}}{{n $}}{{end}}", "\x01\x02\x02"},
	{"{{if $.Data.no}}{{n $}}{{else if $.Data.c}}{{m $}}{{else}}{{n $}}{{end}}", "\x02"},
	{"{{with $.Data.no}}{{n $}}{{else with $.Data.c}}{{m $}}{{n $}}{{end}}", "\x02\x01"},
	{"{{/* {{n $}} */}}{{n .}}{{/* c */}}{{n .}}", "\x01\x01"},
	{"{{n $}}{{m $}}{{n $}}", "\x01\x02\x01"},
	{"<ul><li>{{n $}}</li><li>{{m $}}</li></ul>{{$.Cargo}}", "<ul><li>\x01</li><li>\x02</li></ul>C&amp;"},
	{`{{n $ | printf "%s"}}{{m .}}`, "\x01\x02"},
	{"{{$x := .}}{{range 3}}{{n $x}}{{.}}{{end}}", "\x010\x011\x012"},
	{"{{with .Data}}{{n $}}{{.k}}{{m $}}{{end}}", "\x01D&lt;\x02"},
	{`<p title="{{$.Data.k}}">{{n $}}</p>{{m .}}`, "<p title=\"D&lt;\">\x01</p>\x02"},
	{"{{if and (eq 1 1) $.Data.c}}{{n $}}{{end}}{{if not .Data.c}}{{m $}}{{end}}", "\x01"},
	{"<pre>\n{{n .}}\n</pre>\n<textarea>{{.Cargo}}</textarea>{{m .}}", "<pre>\n\x01\n</pre>\n<textarea>C&amp;</textarea>\x02"},
	{`<a href="/x?{{.Data.u}}">{{n .}}</a><script>var x = 1;</script>{{m .}}`, "<a href=\"/x?1\">\x01</a><script>var x = 1;</script>\x02"},
	{"{{range $k, $v := .Data.m}}{{$k}}{{n $}}{{$v}}{{end}}", "a\x011b\x012"},
	{"{{range .Data.none}}{{n $}}{{else}}{{m $}}{{end}}", "\x02"},
}

var tagConstructs = []tmplConstruct{
	{"<q {{n $}}>t</q>", "<q\x01>t</q>"},
	{`<q a="1" {{n $}} b>t</q>`, "<q a=\"1\"\x01 b>t</q>"},
	{"<q {{if $.Data.c}}{{n $}}{{end}} {{m $}}>{{.Cargo}}</q>", "<q\x01\x02>C&amp;</q>"},
	{"<q {{range $.Data.items}}{{n $}} {{end}}>t</q>", "<q\x01\x01\x01>t</q>"},
	{"<q {{n .}} {{. | m}} c>x{{.Cargo}}</q>", "<q\x01\x02 c>xC&amp;</q>"},
	{`<q title="{{.Data.k}}" {{n .}}><p {{n .}} {{(m .)}}></p></q>`, "<q title=\"D&lt;\"\x01><p\x01\x02></p></q>"},
	{`{{define "d"}}<q {{n .}}>{{end}}{{template "d" .}}{{template "d" $}}`, "<q\x01><q\x01>"},
	{"<br {{with $.Data.no}}{{n $}}{{else}}{{m $}}{{end}}><hr {{n .}}>", "<br\x02><hr\x01>"},
}

func c13Kinds() []func(g *gen) *Node {
	kinds := c08Kinds()
	for _, form := range []int{1, 7, 8, 10} {
		kinds = append(kinds, container(KCustom, "", form))
	}
	return append(kinds, container(KDoc, "", 0), container(KWhen, "", 0))
}

// c13Markers: every tree as a marker in every construct
func c13Markers(x *X) {
	tag := x.Bool()
	cs := contentConstructs
	if tag {
		cs = tagConstructs
	}
	c := cs[x.Choose(len(cs))]
	var n, m *Node
	if tag {
		pick := func(l string) *Node {
			switch x.Choose(6) {
			case 0:
				return attrNode("a"+l, vs("v<"), vkey("k"), &Val{K: VCargo})
			case 1:
				return &Node{K: KBool, Name: "b" + l}
			case 2:
				return &Node{K: KDelim, Name: "class", Vals: []*Val{vs("c" + l), vkey("k")}}
			case 3:
				return customAttrNode("u"+l, vs(l), vkey("k"))
			case 4:
				return &Node{K: KAttr, Name: "f" + l, Vals: []*Val{vs("a"), {K: VFail, Err: errApp1}, vs("b")}}
			}
			return attrNode("e" + l)
		}
		n, m = pick("n"), pick("m")
	} else {
		g := &gen{x: x, budget: x.Q(2, 3), alpha: c13Kinds()}
		n = &Node{K: KColl}
		if x.Bool() {
			// not in anything
			if n = g.kid(); n.isAttr() || n.K == KRaw {
				x.Ready()
				return
			}
		} else {
			n.Kids = g.kids()
		}
		switch x.Choose(3) {
		case 0:
			m = elNode("m", attrNode("id", vkey("k")), &Node{K: KText, Vals: []*Val{{K: VCargo}}})
		case 1:
			m = &Node{K: KFail, Form: 0, Err: errApp1}
		case 2:
			m = n
		}
		if x.Bool() {
			f := c09Fail(x, errApp2, 17)
			if n.K == KRaw || n.K == KText || n.isAttr() {
				n = &Node{K: KColl, Kids: []*Node{n, f}}
			} else {
				n.Kids = append(append([]*Node{}, n.Kids...), f)
			}
			if m.K != KFail && m.Name != "m" {
				m = n
			}
		}
	}
	x.Note(func() string { return fmt.Sprintf("%q, n: %s, m: %s", c.src, n, m) })
	x.Ready()
	l := &live{conds: []bool{true, false}, memo: map[*Node]aitch.Node{}}
	t, err := aitch.NewTemplate("t", c.src, aitch.NodeMap{"n": n.node(l), "m": m.node(l)})
	if err != nil {
		x.Failf("not parsed: %v", err)
	}
	data := map[string]any{"k": "D<", "c": true, "no": false, "u": 1, "items": []int{0, 1, 2}, "m": map[string]int{"b": 2, "a": 1}, "list": []any{"x", "y"}}
	for round := 0; round < 2; round++ {
		env := &Env{Data: data, Cargo: "C&", Conds: []bool{round == 0, round == 1}}
		l.conds[0], l.conds[1] = round == 0, round == 1
		var w bytes.Buffer
		for _, part := range strings.SplitAfter(strings.NewReplacer("\x01", "\x00\x01\x00", "\x02", "\x00\x02\x00").Replace(c.out), "\x00") {
			mark := n
			switch part = strings.TrimSuffix(part, "\x00"); part {
			case "\x02":
				mark = m
				fallthrough
			case "\x01":
				if tag {
					modelAttrs(&w, []decl{{mark, false, true}}, env)
				} else {
					mark.model(&w, env)
				}
			default:
				env.put(&w, part)
			}
		}
		want := w.String()
		var buf bytes.Buffer
		err := t.Execute(&buf, data, "C&")
		got := buf.String()
		if env.err == nil {
			if err != nil {
				x.Failf("an error although nothing failed: %v", err)
			}
			if d := stdOpt.Same(got, want); d != "" {
				x.Failf("%s", d)
			}
		} else {
			if err == nil || !errors.Is(err, env.err) {
				x.Failf("returned %v instead of %q (output %q)", err, env.err, got)
			}
			squeeze := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, " ", ""), "\n", "") }
			if !strings.HasPrefix(squeeze(want), squeeze(got)) {
				x.Failf("written after the error: %q instead of a part of %q", got, want)
			}
		}
		x.Observe([]byte(got))
	}
}

func init() {
	p := props["C13"]
	p.Suites = append(p.Suites, &Suite{Name: "markers", Bounds: "every tree of up to 2 (thorough 3) nodes over 25 forms, possibly with one of 17 failures, as a marker in 24 constructs with another marker, and 6 kinds of attributes in 8 constructs", Body: c13Markers})
}

// elsewhere runs f in another goroutine and waits for it
func elsewhere(f func()) {
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if p := <-done; p != nil {
		panic(p)
	}
}

// goroutines: callbacks do their work in goroutines that they wait for
func goroutines(x *X) {
	n := 1 + x.Choose(x.Q(4, 5))
	var items []any
	for i := 0; i < n; i++ {
		items = append(items, []any{"s", map[string]any{"k": i}, nil}[x.Choose(3)])
	}
	where := make([]bool, n)
	for i := range where {
		where[i] = x.Bool()
	}
	shape := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("items %v, in goroutines %v, shape %d", items, where, shape) })
	x.Ready()
	body := []*Node{elNode("li", attrNode("id", vkey("k")), &Node{K: KText, Vals: []*Val{{K: VCargo}, {K: VParent, S: "k"}}})}
	it := &Node{K: KIter, Form: 2, Items: items, Kids: body}
	top := elNode("ul", it, &Node{K: KText, Vals: []*Val{vkey("k"), {K: VCargo}}})
	l := &live{}
	kids := it.buildKids(l)
	iter := aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		for i, item := range items {
			if where[i] {
				elsewhere(func() { yield(item) })
			} else {
				yield(item)
			}
		}
	}, kids...)
	tail := top.Kids[1].node(l)
	var node aitch.Node
	switch shape {
	case 0:
		node = aitch.Element("ul", iter, tail)
	case 1:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			elsewhere(func() { ic.Start([]byte("ul"), false) })
			elsewhere(func() { ic.WriteNodes(iter) })
			ic.WriteNodes(tail)
			elsewhere(func() { ic.EndAll() })
			return nil
		})
	case 2:
		node = aitch.Element("ul", aitch.ContentCollect(func(ctx *context.Context) (l []aitch.Node) {
			elsewhere(func() { l = []aitch.Node{iter} })
			return
		}), tail)
	case 3:
		node = aitch.Element("ul", aitch.Conditional(func(ctx *context.Context) (ok bool) {
			elsewhere(func() { ok = true })
			return
		}, iter), aitch.Text(func(ctx *context.Context) (b []byte) {
			elsewhere(func() {
				var w bytes.Buffer
				_ = tail.Render(context.New(&w, ctx.Data, ctx.Cargo))
				b = w.Bytes()
			})
			return
		}))
	}
	for round := 0; round < 2; round++ {
		e := &Env{Data: map[string]any{"k": "D<"}, Cargo: "C&"}
		c := *e
		var got string
		var err error
		if round == 1 {
			elsewhere(func() { got, err = render(node, e) })
		} else {
			got, err = render(node, e)
		}
		if err != nil {
			x.Failf("%v", err)
		}
		if d := stdOpt.Same(got, top.Model(&c)); d != "" {
			x.Failf("%s", d)
		}
		x.Observe([]byte(got))
	}
}

func init() {
	p := props["C10"]
	p.Suites = append(p.Suites, &Suite{Name: "goroutines", Bounds: "up to 4 (thorough 5) items of 3 kinds, any of which is yielded by a goroutine that the callback waits for, in 4 surroundings that use goroutines as well", Body: goroutines})
}
