package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
	"verif.local/mc/hook"
)

// similar chooses two different names of letters that are the same but for one place
func similar(x *X) (a, b string) {
	lengths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257}
	lengths = append(lengths, 500, 511, 512, 1000, 1023, 1024)
	if x.Thorough() {
		for n := 26; n < 80; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 4095, 4096, 65535, 65536)
	}
	n := lengths[x.Choose(len(lengths))]
	p := strings.Repeat("d", n)
	if x.Choose(2) == 1 {
		p = strings.Repeat("datavlueshrigkmnop", n/18+1)[:n]
	}
	switch x.Choose(6) {
	case 0:
		return p + "x", p + "y"
	case 1:
		return "x" + p, "y" + p
	case 2:
		return p[:n/2] + "x" + p[n/2:], p[:n/2] + "y" + p[n/2:]
	case 3:
		return p + "x", p + "xx"
	case 4:
		// the same letters in another order
		return "xy" + p, "yx" + p
	}
	return p + "xy", p + "yx"
}

// similarCase has names that differ in case only as well
func similarCase(x *X) (a, b string) {
	a, b = similar(x)
	switch x.Choose(3) {
	case 1:
		b = strings.ToUpper(a)
	case 2:
		b = a[:len(a)-1] + strings.ToUpper(a[len(a)-1:])
	}
	return a, b
}

func similarModel(opt *CmpOpt, variants int, build func(variant int, a, b string) *Node) func(x *X) {
	return func(x *X) {
		a, b := similar(x)
		v := x.Choose(variants)
		if x.Choose(2) == 1 {
			a, b = b, a
		}
		top := build(v, a, b)
		x.Note(func() string { return fmt.Sprintf("%q and %q: %s", a, b, top) })
		x.Ready()
		e1 := &Env{Data: map[string]any{a: "A<", b: "B&", "list": []any{1}}, Cargo: map[string]any{a: "no"}, Conds: []bool{true, false}}
		e2 := &Env{Data: map[string]any{b: "D"}, Conds: []bool{false, true}}
		e3 := &Env{Data: map[string]any{a: "E", b: ""}, Conds: []bool{true, true}}
		checkModel(x, opt, top, e1, e2, e3)
	}
}

func txt(s string) *Node { return textNode(s) }

func similarElements(v int, a, b string) *Node {
	switch v {
	case 0:
		return elNode(a, elNode(b, txt("1")), txt("2"), elNode(a, txt("3")))
	case 1:
		return elNode("p", elNode(a, elNode(a, elNode(b))), &Node{K: KVoid, Form: 1, Name: b}, elNode(b, &Node{K: KVoid, Form: 2, Name: a}, elNode(a)))
	}
	return &Node{K: KImpEl, Name: a, Kids: []*Node{{K: KImpEl, Name: b, Kids: []*Node{txt("x"), elNode(a)}}, elNode(b), {K: KImpEl, Name: a}}}
}

func similarAttributes(v int, a, b string) *Node {
	at := func(n, s string) *Node { return attrNode(n, vs(s)) }
	cond := func(c int, kids ...*Node) *Node { return &Node{K: KCond, Cond: c, Kids: kids} }
	switch v {
	case 0:
		return elNode("p", at(a, "1"), at(b, "2"), elNode("i", at(b, "3"), at(a, "4")))
	case 1:
		return elNode("p", at(a, "1"), at(b, "2"), at(a, "3"), txt("x"))
	case 2:
		return &Node{K: KVoid, Name: "img", Kids: []*Node{at(a, "1"), at(b, "2"), at(b, "3"), attrNode(a, vkey(b))}}
	case 3:
		return elNode("p", at(a, "1"), cond(0, at(b, "2")), cond(1, at(a, "3")))
	case 4:
		return &Node{K: KVoid, Name: "img", Kids: []*Node{cond(0, at(a, "1")), cond(1, at(b, "2")), cond(0, at(b, "3"), cond(1, at(a, "4")))}}
	case 5:
		return &Node{K: KImpEl, Name: "i", Kids: []*Node{at(a, "1"), {K: KBool, Name: b}, at(a, "2"), txt("x")}}
	case 6:
		return elNode("p", &Node{K: KBool, Name: a}, at(b, "1"), &Node{K: KBool, Name: a}, &Node{K: KColl, Kids: []*Node{at(b, "2")}})
	}
	return &Node{K: KImp, Kids: []*Node{elNode("p", &Node{K: KBool, Name: a}, cond(0, &Node{K: KBool, Name: b})), elNode("i", cond(1, &Node{K: KBool, Name: a}), &Node{K: KBool, Name: b})}}
}

func similarValues(v int, a, b string) *Node {
	switch v {
	case 0:
		return elNode("p", attrNode("x", vkey(a), vs("-"), vkey(b)), &Node{K: KText, Vals: []*Val{vkey(b), vs("-"), vkey(a)}})
	case 1:
		return &Node{K: KIter, Items: []any{map[string]any{b: "item"}, map[string]any{a: "item"}, "s"}, Kids: []*Node{{K: KText, Vals: []*Val{vkey(a), vs("-"), vkey(b), vs(";")}}}}
	}
	return &Node{K: KColl, Kids: []*Node{txt(a), txt(b), elNode("p", attrNode("x", vs(a)), attrNode("y", vs(b)), &Node{K: KDelim, Name: "class", Vals: []*Val{vs(a), vs(b), vs(a)}}), {K: KComment, Vals: []*Val{vs(b)}}}}
}

// c03SimilarLists: lists of similar names merge each on its own
func c03SimilarLists(x *X) {
	a, b := similar(x)
	v := x.Choose(5)
	x.Note(func() string { return fmt.Sprintf("lists %q and %q, %d", a, b, v) })
	x.Ready()
	d := func(n string, vals ...any) aitch.Node { return aitch.DelimitedAttribute(n, ",", vals...) }
	var top aitch.Node
	switch v {
	case 0:
		top = aitch.Element("p", d(a, 1), d(b, 2, 3), d(a, 4), d(b, 5))
	case 1:
		top = aitch.VoidElement("p", d(a, 1), d(b, 2, 3), d(a, 4), d(b, 5))
	case 2:
		top = aitch.Element("p", d(a, 1), aitch.Conditional(always, d(b, 2, 3), d(a, 4)), aitch.Conditional(always, d(b, 5)))
	case 3:
		top = aitch.Element("p", d(a, 1), d(b, 2), aitch.Conditional(always, d(b, 3), d(a, 4)), aitch.Conditional(always, d(b, 5)))
	case 4:
		top = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), true, d(a, 1), d(b, 2, 3), d(a, 4), d(b, 5))
			return nil
		})
	}
	got, err := render(top, &Env{})
	if err != nil {
		x.Failf("%v", err)
	}
	toks, err := Tokenize(got)
	if err != nil || len(toks) == 0 || len(toks[0].Attrs) != 2 {
		x.Failf("%q: %v", got, err)
	}
	for _, at := range toks[0].Attrs {
		want := map[string]string{a: "1,4", b: "2,3,5"}[at.Name]
		if at.Val != want {
			x.Failf("%s is %q, not %q", clip(at.Name, 300), at.Val, want)
		}
	}
	if toks[0].Attrs[0].Name == toks[0].Attrs[1].Name {
		x.Failf("%q", got)
	}
	x.Observe([]byte(got))
}

// similarKeys: keys of conditions, iterations, lookups and headers
func similarKeys(x *X, prop string) {
	a, b := similarCase(x)
	has := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("keys %q and %q, of which there are %d", a, b, has) })
	x.Ready()
	data := map[string]any{}
	if has&1 > 0 {
		data[a] = []any{"1", "2"}
	}
	if has&2 > 0 {
		data[b] = []any{"3"}
	}
	expect := func(n aitch.Node, want string) {
		got, err := render(n, &Env{Data: data})
		if err != nil || got != want {
			x.Failf("got %q (error %v) instead of %q", clip(got, 600), err, clip(want, 600))
		}
		x.Observe([]byte(got))
	}
	if1 := func(n int, s string) string { return choose(has&n > 0, s, "") }
	ifNot := func(n int, s string) string { return choose(has&n == 0, s, "") }
	key := func(s string) aitch.DynamicValueKey { return aitch.DynamicValueKey(s) }
	switch prop {
	case "C04":
		expect(aitch.Collection(aitch.When(key(a), aitch.Text("1")), aitch.When(key("!"+a), aitch.Text("2"), aitch.When(key(b), aitch.Text("3"))), aitch.When(key("!"+b), aitch.Text("4"), aitch.When(key(a), aitch.Text("5")))),
			if1(1, "1")+ifNot(1, "2"+if1(2, "3"))+ifNot(2, "4"+if1(1, "5")))
		expect(aitch.Element("p", aitch.When(key(a), aitch.BooleanAttribute("n")), aitch.When(key("!"+b), aitch.BooleanAttribute("m"))), "<p"+if1(1, " n")+ifNot(2, " m")+"></p>")
	case "C10":
		it := func(k string) aitch.Node { return aitch.IterateKey(k, aitch.Text(key("."), ";")) }
		expect(aitch.Element("p", it(a), "-", it(b), "-", it(a)), "<p>"+if1(1, "1;2;")+"-"+if1(2, "3;")+"-"+if1(1, "1;2;")+"</p>")
		expect(aitch.IterateKey(b, it(a), it(b)), if1(2, if1(1, "1;2;")+"3;"))
	case "C15":
		up := func(s string) string { return "X" + s }
		check := func(ctx *context.Context, key string, n int, v any) {
			got, ok := context.Get[[]any](ctx, key)
			if ok != (has&n > 0) || ok && !reflect.DeepEqual(got, v) {
				x.Failf("Get of %q is %v, %v", clip(key, 300), got, ok)
			}
			x.Observe([]byte(fmt.Sprint(got)))
		}
		var fields []reflect.StructField
		t := reflect.TypeOf([]any{})
		cargoMap := map[string]any{}
		for k, v := range data {
			cargoMap[k] = v
			fields = append(fields, reflect.StructField{Name: up(k), Type: t})
		}
		st := reflect.New(reflect.StructOf(fields)).Elem()
		for k, v := range data {
			st.FieldByName(up(k)).Set(reflect.ValueOf(v))
		}
		for i, k := range []string{a, b} {
			v := []any{"1", "2"}
			if i == 1 {
				v = []any{"3"}
			}
			check(context.New(nil, data, nil), k, i+1, v)
			check(context.New(nil, nil, cargoMap), k, i+1, v)
			check(context.New(nil, nil, &cargoMap), k, i+1, v)
			check(context.New(nil, map[string]any{"other": 1}, st.Interface()), up(k), i+1, v)
		}
	case "C20":
		m1, m2 := htmx.HeadersMap{}, htmx.HeadersMap{}
		if has&1 > 0 {
			m1[a] = "1"
		}
		if has&2 > 0 {
			m2[b] = "2"
		}
		m3 := htmx.HeadersMap{a: "3"}
		for _, ms := range [][]htmx.HeadersMap{{m1, m2}, {m1, m3, m2}, {m3, m2, m1}} {
			merged := map[string]string{}
			var list []any
			for _, m := range ms {
				list = append(list, m)
				for k, v := range m {
					merged[k] = v.(string)
				}
			}
			want := ""
			for i, k := range sortedKeys(merged) {
				want += choose(i > 0, ", ", "") + "'" + k + "': " + merged[k]
			}
			expect(aitch.Element("p", htmx.Headers(list...)), `<p hx-headers="{`+want+`}"></p>`)
			expect(aitch.Element("p", htmx.HeadersJS(ms...)), `<p hx-headers="js:{`+want+`}"></p>`)
		}
	}
}

// c12Similar: elements of similar names are closed by their own names
func c12Similar(x *X) {
	a, b := similarCase(x)
	names := []string{a, b, "p"}
	n := 1 + x.Choose(x.Q(3, 4))
	var open []string
	var ops []int
	want := ""
	for i := 0; i < n; i++ {
		op := x.Choose(4)
		ops = append(ops, op)
		if op < 3 {
			want += "<" + names[op] + ">"
			open = append(open, names[op])
		} else if len(open) > 0 {
			want += "</" + open[len(open)-1] + ">"
			open = open[:len(open)-1]
		}
	}
	for len(open) > 0 {
		want += "</" + open[len(open)-1] + ">"
		open = open[:len(open)-1]
	}
	x.Note(func() string { return fmt.Sprintf("%v of %q", ops, names) })
	x.Ready()
	c12Check(x, aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for _, op := range ops {
			if op < 3 {
				ic.Start([]byte(names[op]), false)
			} else {
				ic.End()
			}
		}
		ic.EndAll()
		return nil
	}), want)
}

// c13Similar: markers of similar names stand for their own nodes
func c13Similar(x *X) {
	a, b := similarCase(x)
	form := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("markers %q and %q, %d", a, b, form) })
	x.Ready()
	src := []string{"{{" + a + " .}}-{{" + b + " .}}-{{" + a + " $}}", "{{if .Data}}{{" + b + " .}}{{end}}-{{. | " + a + "}}", "<p title='{{" + b + " .}}'>{{" + a + " .}}</p>"}[form]
	want := []string{"1-2-1", "2-1", "<p title='2'>1</p>"}[form]
	if form == 2 {
		src, want = "{{define \""+a+"\"}}{{"+b+" .}}{{end}}{{define \""+b+"\"}}{{"+a+" .}}{{end}}{{template \""+a+"\" .}}-{{template \""+b+"\" .}}", "2-1"
	}
	t, err := aitch.NewTemplate("t", src, aitch.NodeMap{a: aitch.Text("1"), b: aitch.Text("2")})
	if err != nil {
		x.Failf("%v", err)
	}
	var w bytes.Buffer
	if err := t.Execute(&w, map[string]any{"x": 1}, nil); err != nil || w.String() != want {
		x.Failf("got %q (error %v) instead of %q", w.String(), err, want)
	}
	x.Observe(w.Bytes())
	if _, err := aitch.NewTemplate("t", src, aitch.NodeMap{a: aitch.Text("1")}); err == nil {
		x.Failf("parsed although there is no %q", clip(b, 300))
	}
}

// genSimilar: elements and attributes of similar names
func genSimilar(svg bool) func(x *X) {
	return func(x *X) {
		a, b := similar(x)
		form := x.Choose(4)
		x.Ready()
		in := []string{
			fmt.Sprintf(`<%s><%s>x</%s><%s>y</%s></%s>`, a, b, b, a, a, a),
			fmt.Sprintf(`<p %s="1" %s="2">x<i %s></i></p>`, a, b, b),
			fmt.Sprintf(`<%s %s="1"></%s><%s %s='"'>z</%s>`, a, b, a, b, a, b),
			fmt.Sprintf(`<p>%s</p><p title="%s">%s</p><!--%s-->`, a, b, b, a),
		}[form]
		if svg {
			c17Opt.roundTrip(x, c17Gen, in)
		} else {
			c16Opt.roundTrip(x, c16Gen, in)
		}
	}
}

// templateNames are names of templates, which mean nothing
var templateNames = []string{"", "t", "T", " ", " t ", "t.html", "dir/t", "dir/t.tmpl", "/t", "./t", "../t", "t/", "t.", ".t", "a.b.c", `dir\t`, "C:\\t", "é", "e\u0301", "名", "n", "m", "\"q\"", "it's", "<t>", "t&u", "{{t}}", "t\nu", "t\tu", "a b", "content", "title", "main", "define", "template", "end", "nil", "_", "$", "%d",
	"%s%", "t%20u", "t#u", "t?u", "0", "-1", "very" + strings.Repeat("-long", 60) + "/name", "t-0", "T.HTML", "t$htmltemplate_stateRCDATA_elementTitle"}

// c13TemplateNames: templates of all sorts of names, also used by their names, and defined within
func c13TemplateNames(x *X) {
	name := templateNames[x.Choose(len(templateNames))]
	other := templateNames[x.Choose(len(templateNames))]
	form := x.Choose(5)
	if other == name {
		other += "2"
	}
	q := func(s string) string { return fmt.Sprintf("%q", s) }
	var src, want string
	switch form {
	case 0:
		src, want = `<p {{m .}}>{{n .}}</p>{{with .Parent}}{{else}}{{if .Cargo}}{{template `+q(name)+` .Parent}}{{end}}{{end}}`, `<p x="K">N</p>`
	case 1:
		// once more, without cargo
		src, want = `{{if .}}{{n .}}-{{template `+q(name)+` .Data.none}}{{else}}again{{end}}`, "N-again"
	case 2:
		src, want = `{{define `+q(other)+`}}<i {{m .}}>{{n .}}</i>{{end}}{{template `+q(other)+` .}}-{{n .}}`, `<i x="K">N</i>-N`
	case 3:
		src, want = `{{block `+q(other)+` .}}{{n .}}{{end}}|{{template `+q(other)+` .}}`, "N|N"
	case 4:
		src, want = `{{define `+q(other)+`}}{{n .}}{{if .Data.k}}{{template `+q(name)+` .Data.none}}{{end}}{{end}}{{if .}}[{{template `+q(other)+` .}}]{{else}}!{{end}}`, "[N!]"
	}
	if form == 0 {
		src, want = `<p {{m .}}>{{n .}}</p>`, `<p x="K">N</p>`
	}
	x.Note(func() string { return fmt.Sprintf("name %q, other %q: %s", name, other, src) })
	x.Ready()
	t, err := aitch.NewTemplate(name, src, aitch.NodeMap{"n": aitch.Text("N"), "m": aitch.Attribute("x", dk("k"))})
	if err != nil {
		x.Failf("%v", err)
	}
	for i := 0; i < 2; i++ {
		var w bytes.Buffer
		if err := t.Execute(&w, map[string]any{"k": "K", "none": nil}, 1); err != nil {
			x.Failf("%v", err)
		}
		if d := c13Same(w.String(), want); d != "" {
			x.Failf("%s", d)
		}
		x.Observe(w.Bytes())
	}
	t2 := aitch.MustNewTemplate(name, "{{n .}}", aitch.NodeMap{"n": aitch.Text("M")})
	var w bytes.Buffer
	if err := t2.Execute(&w, nil, nil); err != nil || w.String() != "M" {
		x.Failf("another of that name: %q %v", w.String(), err)
	}
}

// waitWriter calls at before one of the writes
type waitWriter struct {
	buf   bytes.Buffer
	n, at int
	call  func()
}

func (w *waitWriter) Write(p []byte) (int, error) {
	if w.n++; w.n == w.at && w.call != nil {
		w.call()
	}
	return w.buf.Write(p)
}

func (s *shared) renderTo(w *waitWriter, id int) error {
	data, cargo := threadData(id)
	if s.tmpl != nil {
		return s.tmpl.Execute(w, data, cargo)
	}
	return s.node.Render(context.New(w, data, cargo))
}

// c07Waiting: a render whose writer is slow holds no other up, in another goroutine or in the writer itself
func c07Waiting(x *X) {
	items := c07Items()
	it := items[x.Choose(len(items))]
	op := x.Choose(len(c07Ops))
	within := x.Choose(2) == 1
	var w waitWriter
	err0 := it.build().renderTo(&w, 0)
	if err0 != nil {
		x.Failf("alone: %v", err0)
	}
	want0 := w.buf.String()
	at := 1 + x.Choose(w.n)
	want1, err := alone(it, op, 1)
	if err != nil {
		x.Failf("alone: %v", err)
	}
	x.Note(func() string {
		return fmt.Sprintf("%s: write %d waits for %s (within the writer: %v)", it.name, at, c07Ops[op].name, within)
	})
	x.Ready()
	s := it.build()
	var got1 string
	var err1 error
	done := false
	other := func() {
		got1, err1 = c07Ops[op].run(s, 1)
		done = true
	}
	slow := &waitWriter{at: at}
	if within {
		slow.call = other
		runThreads(x, 0, 0, func() { err0 = s.renderTo(slow, 0) })
	} else {
		slow.call = func() {
			if !done {
				hook.Block(func() bool { return done })
			}
		}
		runThreads(x, 0, 0, func() { err0 = s.renderTo(slow, 0) }, other)
	}
	if err0 != nil || slow.buf.String() != want0 {
		x.Failf("the one that waits writes %q (error %v) instead of %q", slow.buf.String(), err0, want0)
	}
	if err1 != nil || got1 != want1 {
		x.Failf("the other writes %q (error %v) instead of %q", got1, err1, want1)
	}
	x.Observe(slow.buf.Bytes())
	x.Observe([]byte(got1))
}

// genDeepVoid: void elements, their end tags and their self-closing forms at any depth
func genDeepVoid(svg bool) func(x *X) {
	return func(x *X) {
		names := []string{"br", "img", "input", "wbr", "area", "base", "col", "embed", "hr", "link", "meta", "param", "source", "track"}
		depths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 41, 42, 48, 50, 60, 63, 64, 65, 66, 100, 127, 128, 129}
		d := depths[x.Choose(len(depths))]
		name := names[x.Choose(x.Q(4, len(names)))]
		form := x.Choose(6)
		v := []string{"<" + name + ">", "<" + name + "/>", "</" + name + ">", "<" + name + ` id="1" disabled>`, "<" + name + "></" + name + ">", "</" + name + "/></" + name + ">"}[form]
		if svg && form != 1 {
			// there are no void elements
			v = []string{"<" + name + "></" + name + ">", "", "<" + name + "/>t", "<" + name + ` id="1" disabled="x"/>`, "<" + name + " id='1'></" + name + ">", "<" + name + ">t</" + name + ">"}[form]
		}
		kind := x.Choose(3)
		x.Ready()
		in := strings.Repeat("<g>", d)
		switch kind {
		case 0:
			in += v + "x"
		case 1:
			in += "x" + v + "y" + v
		case 2:
			in += "<i>" + v + "x</i>" + v + "<b>y</b>"
		}
		in += strings.Repeat("</g>", d) + "z" + v
		if svg {
			c17Opt.roundTrip(x, c17Gen, in)
		} else {
			c16Opt.roundTrip(x, c16Gen, in)
		}
	}
}

// conditionalRepeats: attributes under one, two or three conditions, the same objects again and again
func conditionalRepeats(opt *CmpOpt) func(x *X) {
	return func(x *X) {
		tag := []string{"element", "void", "document"}[x.Choose(x.Q(2, 3))]
		pool := []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("a"), vkey("k")}}, {K: KDelim, Name: "class", Vals: []*Val{vs("b")}}, attrNode("n", vs("1"))}
		wrapped := map[[2]int]*Node{}
		n := 3 + x.Choose(x.Q(3, 4))
		var kids []*Node
		for i := 0; i < n; i++ {
			c := [2]int{x.Choose(x.Q(2, 3)), x.Choose(3)}
			if wrapped[c] == nil {
				w := pool[c[0]]
				for k := 0; k < c[1]; k++ {
					w = &Node{K: KCond, Cond: k, Kids: []*Node{w}}
				}
				wrapped[c] = w
			}
			kids = append(kids, wrapped[c])
		}
		top := hold(tag, kids...)
		x.Note(func() string { return top.String() })
		x.Ready()
		l := &live{conds: []bool{true, true}, memo: map[*Node]aitch.Node{}}
		built := top.node(l)
		for _, conds := range [][]bool{{true, true}, {true, false}, {true, true}, {false, true}} {
			e := &Env{Data: map[string]any{"k": "K"}, Conds: conds}
			copy(l.conds, conds)
			want := top.Model(e)
			got, err := render(built, e)
			if err != nil {
				x.Failf("%v", err)
			}
			if d := opt.Same(got, want); d != "" {
				x.Failf("%v: %s", conds, d)
			}
			x.Observe([]byte(got))
		}
	}
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		s := &Suite{Name: name, Bounds: bounds, Body: body}
		switch id {
		case "C16":
			s.Setup = c16Setup
		case "C17":
			s.Setup = c17Setup
		}
		p.Suites = append(p.Suites, s)
	}
	b := "pairs of names of 1 to 1026 (thorough 65538) letters that are the same but for one place, in 6 ways, "
	add("C01", "similar", b+"as elements in 3 shapes", similarModel(stdOpt, 3, similarElements))
	add("C03", "similar", b+"as attributes in 8 shapes", similarModel(stdOpt, 8, similarAttributes))
	add("C03", "similar-lists", b+"as delimited attributes in 5 shapes", c03SimilarLists)
	add("C04", "similar", b+"or in case, as keys", func(x *X) { similarKeys(x, "C04") })
	add("C05", "similar", b+"as attributes in 8 shapes, in order", similarModel(ordOpt, 8, similarAttributes))
	add("C10", "similar", b+"or in case, as keys", func(x *X) { similarKeys(x, "C10") })
	add("C11", "similar", b+"as keys and values in 3 shapes", similarModel(stdOpt, 3, similarValues))
	add("C12", "similar", b+"or in case, as names of elements, sequences of up to 3 (thorough 4) operations", c12Similar)
	add("C13", "similar", b+"or in case, as markers in 3 templates", c13Similar)
	add("C13", "template-names", "pairs of 50 names for a template and another defined in it, in 5 forms", c13TemplateNames)
	add("C15", "similar", b+"or in case, as keys of data, cargo maps and fields", func(x *X) { similarKeys(x, "C15") })
	for _, svg := range []bool{false, true} {
		id := choose(svg, "C17", "C16")
		add(id, "similar", b+"as elements, attributes and texts", genSimilar(svg))
		add(id, "deep-void", "4 (thorough 14) void elements in 6 forms at 34 depths up to 129 in 3 places", genDeepVoid(svg))
	}
	add("C20", "similar", b+"or in case, as keys of headers", func(x *X) { similarKeys(x, "C20") })
	add("C07", "waiting", "every item x every operation, the first waiting at each of its writes for the other to end, in two goroutines or in its writer", c07Waiting)
	r := "3 to 5 (thorough 6) of 2 (thorough 3) attributes under 0, 1 or 2 conditions, each always the same object, in 2 (thorough 3) tags, under 4 states"
	add("C03", "conditional-repeats", r, conditionalRepeats(stdOpt))
	add("C05", "conditional-repeats", r+", in order", conditionalRepeats(ordOpt))
}

// c02Vast: very long strings are escaped to their ends
func c02Vast(x *X) {
	sizes := []int{1<<16 + 1, 1<<18 + 1, 1<<20 - 1, 1<<20 + 1, 1<<21 + 1}
	if x.Thorough() {
		sizes = append(sizes, 1<<22+1, 1<<23+1, 1<<24+1, 1<<25+1)
	}
	n := sizes[x.Choose(len(sizes))]
	where := x.Choose(4)
	channel := x.Choose(10)
	x.Note(func() string { return fmt.Sprintf("%d bytes, special %d, channel %d", n, where, channel) })
	x.Ready()
	fill := strings.Repeat("abcdefg ", n/8+1)[:n]
	var s, want string
	switch where {
	case 0:
		s, want = fill+"<b>", fill+"&lt;b&gt;"
	case 1:
		s, want = "\"'&"+fill, "&quot;&apos;&amp;"+fill
	case 2:
		s, want = fill[:n/2]+"</p>"+fill[n/2:], fill[:n/2]+"&lt;/p&gt;"+fill[n/2:]
	case 3:
		s, want = strings.Repeat("<", n/4), strings.Repeat("&lt;", n/4)
	}
	env := &Env{Data: map[string]any{"k": s}, Cargo: s}
	var node aitch.Node
	switch channel {
	case 0:
		node = aitch.Element("p", s)
	case 1:
		node = aitch.Element("p", dk("k"))
	case 2:
		node = aitch.Element("p", dk("."))
	case 3:
		node = aitch.Element("p", stringer{s})
	case 4:
		node = aitch.Element("p", func() any { return s })
	case 5:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteRaw([]byte("<p>"))
			ic.WriteString(s)
			ic.WriteRaw([]byte("</p>"))
			return nil
		})
	case 6:
		node = aitch.Element("p", aitch.Fragment(aitch.NewConcatValue(s)))
	case 7:
		node = aitch.VoidElement("p", aitch.Attribute("x", s))
	case 8:
		node = aitch.VoidElement("p", aitch.DelimitedAttribute("x", ",", dk("k")))
	case 9:
		node = aitch.Element("p", aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(s) }, aitch.Text(dk("."))))
	}
	got, err := render(node, env)
	if err != nil {
		x.Failf("%v", err)
	}
	pre, post := "<p>", "</p>"
	if channel == 7 || channel == 8 {
		pre, post = `<p x="`, `">`
	}
	if got != pre+want+post {
		// the same decoded is as good
		g, gerr := Tokenize(got)
		w, _ := Tokenize(pre + want + post)
		if gerr != nil || !reflect.DeepEqual(g, w) {
			i := 0
			for i < len(got) && i < len(pre+want+post) && got[i] == (pre + want + post)[i] {
				i++
			}
			x.Failf("%d bytes instead of %d, different at %d: %q", len(got), len(pre+want+post), i, clip(got[i:], 100))
		}
	}
	x.Observe([]byte(got))
}

// genVast: input of megabytes
func genVast(svg bool) func(x *X) {
	return func(x *X) {
		n := []int{1<<20 + 9, 1<<21 + 9, 1<<22 + 9, 1<<24 + 9}[x.Choose(x.Q(2, 4))]
		kind := x.Choose(4)
		x.Note(func() string { return fmt.Sprintf("kind %d of %d bytes", kind, n) })
		x.Ready()
		x.nontriv = true
		var in string
		switch kind {
		case 0:
			in = strings.Repeat("<g>word</g>\n", n/12+1)
		case 1:
			in = "<g>" + strings.Repeat("word and ", n/9+1) + "</g>"
		case 2:
			in = `<g title="` + strings.Repeat("word and ", n/9+1) + `">x</g>`
		case 3:
			in = "<!--" + strings.Repeat("word and ", n/9+1) + "-->"
		}
		in += `<i id="end">z</i>`
		gen := c16Gen
		if svg {
			gen = c17Gen
		}
		code, err := gen(in)
		if err != nil {
			x.Failf("%v", err)
		}
		if c := strings.Count(code, "word"); c != strings.Count(in, "word") {
			x.Failf("%d of %d words", c, strings.Count(in, "word"))
		}
		if !strings.Contains(code[len(code)-min(len(code), 200):], `"z"`) {
			x.Failf("the end is missing: %q", code[len(code)-min(len(code), 200):])
		}
		x.Observe([]byte(code))
	}
}

func init() {
	p := props["C02"]
	p.Suites = append(p.Suites, &Suite{Name: "vast", Bounds: "strings of 5 (thorough 9) sizes up to 2 (32) megabytes with the special characters at one of 3 places or everywhere, in 10 channels", Body: c02Vast})
	p = props["C16"]
	p.Suites = append(p.Suites, &Suite{Name: "vast", Setup: c16Setup, Bounds: "input of 1 and 2 (thorough to 16) megabytes of 4 kinds", Body: genVast(false)})
	p = props["C17"]
	p.Suites = append(p.Suites, &Suite{Name: "vast", Setup: c17Setup, Bounds: "input of 1 and 2 (thorough to 16) megabytes of 4 kinds", Body: genVast(true)})
}
