package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
)

// Writers that can do more than Write

type stringWriter struct{ io.Writer }

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type byteWriter struct{ stringWriter }

func (w byteWriter) WriteByte(c byte) error { _, err := w.Write([]byte{c}); return err }
func (w byteWriter) WriteRune(r rune) (int, error) {
	return w.Write([]byte(string(r)))
}

type flushWriter struct{ byteWriter }

func (w flushWriter) Flush() error   { return nil }
func (w flushWriter) Sync() error    { return nil }
func (w flushWriter) Available() int { return 1 << 20 }
func (w flushWriter) Buffered() int  { return 0 }

type readerFrom struct{ io.Writer }

func (w readerFrom) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err == nil {
		var m int
		m, err = w.Write(b)
		n = int64(m)
	}
	return
}

type responseWriter struct {
	stringWriter
	h http.Header
}

func (w responseWriter) Header() http.Header { return w.h }
func (w responseWriter) WriteHeader(int)     {}
func (w responseWriter) Flush()              {}

type byteOnly struct{ io.Writer }

func (w byteOnly) WriteByte(c byte) error { _, err := w.Write([]byte{c}); return err }

var writerKinds = []struct {
	name string
	wrap func(w io.Writer) io.Writer
}{
	{"io.StringWriter", func(w io.Writer) io.Writer { return stringWriter{w} }},
	{"io.ByteWriter", func(w io.Writer) io.Writer { return byteOnly{w} }},
	{"string, byte and rune writer", func(w io.Writer) io.Writer { return byteWriter{stringWriter{w}} }},
	{"writer that can be flushed", func(w io.Writer) io.Writer { return flushWriter{byteWriter{stringWriter{w}}} }},
	{"io.ReaderFrom", func(w io.Writer) io.Writer { return readerFrom{w} }},
	{"http.ResponseWriter", func(w io.Writer) io.Writer { return responseWriter{stringWriter{w}, http.Header{}} }},
	{"function", func(w io.Writer) io.Writer { return writerFunc(w.Write) }},
	{"struct by value", func(w io.Writer) io.Writer { return struct{ io.Writer }{w} }},
	{"io.MultiWriter", func(w io.Writer) io.Writer { return io.MultiWriter(w) }},
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// finished are writers of the standard library whose contents are known when all is written
var finished = []struct {
	name string
	mk   func() (io.Writer, func() string)
}{
	{"strings.Builder", func() (io.Writer, func() string) { sb := &strings.Builder{}; return sb, sb.String }},
	{"bufio.Writer of 16", func() (io.Writer, func() string) {
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 16)
		return w, func() string { _ = w.Flush(); return b.String() }
	}},
	{"bufio.Writer", func() (io.Writer, func() string) {
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		return w, func() string { _ = w.Flush(); return b.String() }
	}},
	{"httptest.ResponseRecorder", func() (io.Writer, func() string) {
		w := httptest.NewRecorder()
		return w, func() string { return w.Body.String() }
	}},
	{"bytes.Buffer with contents", func() (io.Writer, func() string) {
		w := bytes.NewBufferString("before<")
		return w, func() string { return strings.TrimPrefix(w.String(), "before<") }
	}},
	{"bufio.ReadWriter", func() (io.Writer, func() string) {
		var b bytes.Buffer
		w := bufio.NewReadWriter(bufio.NewReader(&b), bufio.NewWriter(&b))
		return w, func() string { _ = w.Flush(); return b.String() }
	}},
	{"io.Pipe", func() (io.Writer, func() string) {
		r, w := io.Pipe()
		done := make(chan string)
		go func() { b, _ := io.ReadAll(r); done <- string(b) }()
		return w, func() string { _ = w.Close(); return <-done }
	}},
	{"nothing kept by the writer", func() (io.Writer, func() string) {
		// overwrites what it was given a moment later, as a copy
		var b bytes.Buffer
		return writerFunc(func(p []byte) (int, error) { return b.Write(append([]byte(nil), p...)) }), b.String
	}},
}

func writerOf(i int) (string, io.Writer, func() string) {
	if i < len(finished) {
		w, f := finished[i].mk()
		return finished[i].name, w, f
	}
	var b bytes.Buffer
	k := writerKinds[i-len(finished)]
	return k.name, k.wrap(&b), b.String
}

// c01Writers: what is written does not depend on the kind of writer
func c01Writers(x *X) {
	i := x.Choose(len(finished) + len(writerKinds))
	g := &gen{x: x, budget: x.Q(2, 3), alpha: c08Kinds()}
	top := &Node{K: []Kind{KEl, KColl, KDoc}[x.Choose(3)]}
	if top.K == KEl {
		top.Name = "div"
	}
	top.Kids = g.kids()
	long := x.Bool()
	x.Ready()
	if long {
		top.Kids = append(top.Kids, textNode(strings.Repeat("<long>", 1000)))
	}
	name, w, f := writerOf(i)
	x.Note(func() string { return name + ": " + clip(top.String(), 300) })
	env := c08Env()
	n := top.node(&live{conds: env.Conds})
	err := n.Render(context.New(w, env.Data, env.Cargo))
	got := f()
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if d := stdOpt.Same(got, top.Model(c08Env())); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
}

func someTemplate() (*aitch.Template, error) {
	return aitch.NewTemplate("t", "l<p {{at .}}>{{a .}}</p>{{range .Data.list}}{{a $}}{{end}}{{.Data.k}}z", aitch.NodeMap{
		"a":  aitch.Element("b", aitch.Attribute("id", "1"), dk("k"), html.Br(), aitch.IterateKey("list", aitch.Text(dk(".")))),
		"at": aitch.Attribute("title", dk("k")),
	})
}

// templates and generators with writers of every kind
func otherWriters(what int) func(x *X) {
	return func(x *X) {
		i := x.Choose(len(finished) + len(writerKinds))
		long := x.Bool()
		x.Ready()
		name, w, f := writerOf(i)
		x.Note(func() string { return name })
		run := func(w io.Writer) error {
			in := `<g a="1" hidden>t<br/><!--c--><unk>` + strings.Repeat("x", 5000*int(choose(long, 1, 0))) + `</unk></g>`
			switch what {
			case 1:
				return html.GenerateCode(strings.NewReader(in), w)
			case 2:
				return svg.GenerateCode(strings.NewReader(in), w)
			}
			t, err := someTemplate()
			if err != nil {
				return err
			}
			return t.Execute(w, map[string]any{"k": strings.Repeat("v<", 1+2000*choose(long, 1, 0)), "list": []any{1, 2}}, nil)
		}
		var want bytes.Buffer
		if err := run(&want); err != nil {
			x.Failf("%v", err)
		}
		err := run(w)
		got := f()
		if err != nil || got != want.String() {
			x.Failf("error %v\ngot  %q\nwant %q", err, clip(got, 1000), clip(want.String(), 1000))
		}
		x.Observe([]byte(got))
	}
}

// c08Writers: failures of writers that can do more than Write
func c08Writers(x *X) {
	k := writerKinds[x.Choose(len(writerKinds))]
	var f func(w io.Writer) error
	var note string
	switch what := x.Choose(6); what {
	case 0, 1, 2:
		g := &gen{x: x, budget: x.Q(2, 3), alpha: c08Kinds()}
		top := &Node{K: []Kind{KEl, KColl, KDoc}[what]}
		if top.K == KEl {
			top.Name = "div"
		}
		top.Kids = append(g.kids(), textNode("end"))
		note = top.String()
		env := c08Env()
		n := top.node(&live{conds: env.Conds})
		f = func(w io.Writer) error { return n.Render(context.New(w, env.Data, env.Cargo)) }
	case 3:
		t, err := someTemplate()
		if err != nil {
			x.Failf("%v", err)
		}
		note = "template"
		f = func(w io.Writer) error {
			return t.Execute(w, map[string]any{"k": "v<", "list": []any{1, 2}}, nil)
		}
	case 4, 5:
		note = "generator"
		f = func(w io.Writer) error {
			in := strings.NewReader(`<g a="1" hidden>t<br/><!--c--><unk/></g>`)
			if what == 4 {
				return html.GenerateCode(in, w)
			}
			return svg.GenerateCode(in, w)
		}
	}
	x.Note(func() string { return k.name + ": " + note })
	checkFaults(x, func(w *faultWriter) error { return f(k.wrap(w)) })
}

// reentrance: at any write or call back, the same template is used for something else

type reentry struct {
	n, k  int
	f     func()
	inner bool
}

func (r *reentry) point() {
	if r.inner {
		return
	}
	i := r.n
	r.n++
	if i == r.k {
		r.inner = true
		r.f()
		r.inner = false
	}
}

type reentryWriter struct {
	*reentry
	buf bytes.Buffer
}

func (w *reentryWriter) Write(p []byte) (int, error) {
	w.point()
	n, err := w.buf.Write(p)
	w.point()
	return n, err
}

const reentries = 4

func reenter(x *X, kind int, top *Node, n aitch.Node, l *live) func() {
	env := func() *Env {
		return &Env{Data: map[string]any{"k": "inner", "list": []any{"z", map[string]any{"k": "zz"}, 3}}, Cargo: "inner cargo", Conds: []bool{true, false}}
	}
	same := func(n aitch.Node, want string) {
		e := env()
		got, err := render(n, e)
		if err != nil {
			x.Failf("rendering it meanwhile returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("meanwhile rendered: %s", d)
		}
	}
	switch kind {
	case 0:
		return func() { same(n, top.Model(env())) }
	case 1:
		return func() {
			w := &faultWriter{k: 2, kind: faultPartial}
			e := env()
			if err := n.Render(context.New(w, e.Data, e.Cargo)); w.failed && err == nil {
				x.Failf("the failure of a writer meanwhile was not returned")
			}
		}
	case 2:
		return func() {
			own := &Node{K: KDelim, Name: "class", Vals: []*Val{vs("own")}}
			want := elNode("outer", own, top, own)
			same(aitch.Element("outer", own.node(l), n, own.node(l)), want.Model(env()))
		}
	}
	return func() {
		func() {
			defer func() { _ = recover() }()
			e := env()
			e.Data["k"] = func() any { panic("callback panics") }
			_ = n.Render(context.New(&bytes.Buffer{}, e.Data, e.Cargo))
		}()
		same(n, top.Model(env()))
	}
}

func reentrant(budget, kinds int) func(x *X) {
	return func(x *X) {
		g := &gen{x: x, budget: budget, alpha: c07Kinds()}
		top := &Node{K: []Kind{KEl, KVoid, KColl, KImpEl, KIter}[x.Choose(5)], Name: "div"}
		switch top.K {
		case KVoid:
			top.Name = "img"
		case KIter:
			top.Items = []any{1, map[string]any{"k": 2}}
		}
		top.Kids = g.kids()
		kind := x.Choose(kinds)
		x.Note(func() string { return fmt.Sprintf("%s, meanwhile %d", top, kind) })
		x.Ready()
		l := &live{conds: []bool{true, false}}
		n := top.node(l)
		defer func() { onCall = nil }()
		run := func(k int) (string, int) {
			r := &reentry{k: k, f: reenter(x, kind, top, n, l)}
			w := &reentryWriter{reentry: r}
			onCall = r.point
			env := c08Env()
			err := n.Render(context.New(w, env.Data, env.Cargo))
			onCall = nil
			if err != nil {
				x.Failf("rendering returned an error: %v", err)
			}
			return w.buf.String(), r.n
		}
		want := top.Model(c08Env())
		got, points := run(-1)
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s", d)
		}
		if points == 0 {
			x.Observe(nil)
			return
		}
		k := x.Choose(points)
		x.Note(func() string { return fmt.Sprintf("%s, meanwhile %d at point %d of %d", top, kind, k, points) })
		again, _ := run(k)
		if again != got {
			x.Failf("with the template used at point %d it writes\n     %q\nelse %q", k, again, got)
		}
		x.Observe([]byte(got))
		if again, _ = run(-1); again != got {
			x.Failf("afterwards it writes\n     %q\nelse %q", again, got)
		}
	}
}

// recursive: a template that renders itself, as deep as its cargo says, in one context or in others
func recursive(x *X) {
	depth := x.Choose(x.Q(6, 40))
	how := x.Choose(7)
	shape := x.Choose(6)
	x.Note(func() string { return fmt.Sprintf("way %d, shape %d, %d deep", how, shape, depth) })
	x.Ready()
	var self aitch.Node
	level := func(ctx *context.Context) int { i, _ := ctx.Cargo.(int); return i }
	var rec aitch.Node
	sub := func(ctx *context.Context) string {
		var b bytes.Buffer
		if err := self.Render(context.New(&b, map[string]any{"k": "k"}, level(ctx)-1)); err != nil {
			x.Failf("%v", err)
		}
		return b.String()
	}
	one := func(ctx *context.Context) []any {
		if l := level(ctx); l > 0 {
			return []any{l - 1}
		}
		return nil
	}
	switch how {
	case 0:
		rec = aitch.Text(func(ctx *context.Context) []byte {
			if level(ctx) == 0 {
				return nil
			}
			return []byte(sub(ctx))
		})
	case 1:
		rec = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			if level(ic.Context()) > 0 {
				ic.WriteRaw([]byte(sub(ic.Context())))
			}
			return nil
		})
	case 2:
		rec = aitch.Iterate(one, &laterNode{&self})
	case 3:
		rec = aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			for _, i := range one(ctx) {
				yield(i)
			}
		}, aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(self); return nil }))
	case 4:
		rec = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			if level(ic.Context()) > 0 {
				ic.WriteNodes(aitch.Iterate(one, self))
			}
			return nil
		})
	case 5:
		rec = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			if level(ctx) == 0 {
				return nil
			}
			return []aitch.Node{aitch.Iterate(one, self)}
		})
	case 6:
		rec = aitch.Conditional(func(ctx *context.Context) bool { return level(ctx) > 0 }, aitch.Iterate(one, &laterNode{&self}))
	}
	lvl := func(ctx *context.Context) []byte { return []byte(fmt.Sprint(level(ctx))) }
	pre := func(i int) string { return "" }
	post := pre
	switch shape {
	case 0:
		self = aitch.Element("d", html.Class("c", lvl), rec, html.Class("e"), aitch.Text(lvl))
		pre = func(i int) string { return fmt.Sprintf(`<d class="c %d e">`, i) }
		post = func(i int) string { return fmt.Sprintf(`%d</d>`, i) }
	case 1:
		self = aitch.Collection(aitch.Text("a", lvl), rec, aitch.Comment(lvl))
		pre = func(i int) string { return fmt.Sprintf(`a%d`, i) }
		post = func(i int) string { return fmt.Sprintf(`<!--%d-->`, i) }
	case 2:
		self = aitch.Element("d", aitch.Conditional(func(ctx *context.Context) bool { return level(ctx)%2 == 0 }, html.Class("even"), aitch.Text("E")), rec)
		pre = func(i int) string { return choose(i%2 == 0, `<d class="even">E`, `<d>`) }
		post = func(i int) string { return "</d>" }
	case 3:
		self = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("i"), false, html.Id(lvl))
			ic.WriteNodes(rec)
			ic.Start([]byte("b"), false)
			ic.EndAll()
			return nil
		})
		pre = func(i int) string { return fmt.Sprintf(`<i id="%d">`, i) }
		post = func(i int) string { return "<b></b></i>" }
	case 4:
		self = aitch.Element("d", aitch.Conditional(always, rec, html.Id(lvl)), aitch.Collection(rec))
		pre = func(i int) string { return fmt.Sprintf(`<d id="%d">`, i) }
		post = func(i int) string { return "</d>" }
	case 5:
		self = html.Document(nil, nil, []any{rec, html.Id(lvl), lvl})
		pre = func(i int) string { return "<!DOCTYPE html>\n" + fmt.Sprintf(`<html><body id="%d">`, i) }
		post = func(i int) string { return fmt.Sprintf("%d</body></html>", i) }
	}
	if shape == 4 && depth > 8 {
		depth = 8
	}
	want := ""
	for i := 0; i <= depth; i++ {
		if shape == 4 {
			want = pre(i) + want + want + post(i)
		} else {
			want = pre(i) + want + post(i)
		}
	}
	for round := 0; round < 2; round++ {
		got, err := render(self, &Env{Data: map[string]any{"k": "k"}, Cargo: depth})
		if err != nil {
			x.Failf("%v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s", d)
		}
		x.Observe([]byte(got))
	}
}

// laterNode renders a node that is known later
type laterNode struct{ n *aitch.Node }

func (c *laterNode) Render(ctx *context.Context) error { return (*c.n).Render(ctx) }
func (c *laterNode) Type() aitch.NodeType              { return aitch.FragmentNode }
func (c *laterNode) Name() string                      { return "#later" }

// c13Reentrant: templates executed within their own execution
func c13Reentrant(x *X) {
	how := x.Choose(3)
	text := []string{"{{n .}}", "a<p {{at .}}>{{n .}}</p>b{{n .}}c", "{{range .Data.l}}<i>{{n $}}</i>{{end}}{{.Cargo}}{{if .Data.y}}{{n .}}{{end}}"}[x.Choose(3)]
	x.Note(func() string { return fmt.Sprintf("%q way %d", text, how) })
	x.Ready()
	top := &Node{K: KColl, Kids: []*Node{
		elNode("b", &Node{K: KDelim, Name: "class", Vals: []*Val{vs("c"), vkey("k")}}, textNode("t"), &Node{K: KText, Vals: []*Val{{K: VCtxFunc, S: "f"}, {K: VCargo}, {K: VStringer, S: "s"}}}),
		{K: KCond, Cond: 0, Kids: []*Node{elNode("c", &Node{K: KText, Vals: []*Val{vkey("k")}})}},
		{K: KIter, Items: []any{1, map[string]any{"k": "m"}}, Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}, vkey("k")}}}},
		{K: KImpEl, Name: "q", Kids: []*Node{textNode("i")}},
	}}
	l := &live{conds: []bool{true, false}}
	n := top.node(l)
	t, err := aitch.NewTemplate("t", text, aitch.NodeMap{"n": n, "at": aitch.Attribute("title", dk("k"))})
	if err != nil {
		x.Failf("%v", err)
	}
	outer := map[string]any{"k": "outer<", "l": []int{1, 2}, "y": true}
	inner := map[string]any{"k": "inner", "l": []int{1, 2, 3}}
	defer func() { onCall = nil }()
	exec := func(data map[string]any, cargo any) string {
		var b bytes.Buffer
		if err := t.Execute(&b, data, cargo); err != nil {
			x.Failf("%v", err)
		}
		return b.String()
	}
	wantOuter, wantInner := exec(outer, "oc"), exec(inner, 3)
	run := func(k int) int {
		r := &reentry{k: k, f: func() {
			switch how {
			case 0:
				if got := exec(inner, 3); got != wantInner {
					x.Failf("executed meanwhile it writes\n     %q\nelse %q", got, wantInner)
				}
			case 1:
				w := &faultWriter{k: 1, kind: faultPartial}
				if err := t.Execute(w, inner, 3); err == nil {
					x.Failf("the failure of a writer meanwhile was not returned")
				}
			case 2:
				t2, err := aitch.NewTemplate("t", text, aitch.NodeMap{"n": aitch.Text("other"), "at": html.Id("o")})
				if err != nil {
					x.Failf("%v", err)
				}
				_ = t2.Execute(io.Discard, inner, nil)
			}
		}}
		w := &reentryWriter{reentry: r}
		onCall = r.point
		err := t.Execute(w, outer, "oc")
		onCall = nil
		if err != nil {
			x.Failf("%v", err)
		}
		if got := w.buf.String(); got != wantOuter {
			x.Failf("used again at point %d of its execution it writes\n     %q\nelse %q", k, got, wantOuter)
		}
		return r.n
	}
	points := run(-1)
	k := x.Choose(points)
	run(k)
	x.Observe([]byte(wantOuter))
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: name, Bounds: bounds, Body: body})
	}
	add("C01", "writers", "every tree of up to 2 (thorough 3) nodes over 20 forms below 3 tops, long or not, x 17 kinds of writers", c01Writers)
	add("C08", "writers", "every tree of up to 2 (thorough 3) nodes over 20 forms below 3 tops, a template and both generators x 9 kinds of writers that can do more than write x every write x 5 kinds of failure", c08Writers)
	add("C13", "writers", "a template executed with 17 kinds of writers", otherWriters(0))
	add("C16", "writers", "generated code written to 17 kinds of writers", otherWriters(1))
	add("C17", "writers", "generated code written to 17 kinds of writers", otherWriters(2))
	add("C06", "reentrant", "every tree of up to 2 nodes over 21 forms below 5 tops, used again in 4 ways (rendered, rendered with a failing writer or a panicking callback, part of a new element) at any one write or call back of its own render", reentrant(2, reentries))
	add("C07", "reentrant", "every tree of up to 2 nodes over 21 forms below 5 tops, used again in 4 ways (rendered, rendered with a failing writer or a panicking callback, part of a new element) at any one write or call back of its own render", reentrant(2, reentries))
	for _, id := range []string{"C06", "C07"} {
		add(id, "reentrant-deep", "every tree of up to 3 nodes over 21 forms below 5 tops, rendered again at any one write or call back of its own render", reentrant(3, 1))
		props[id].Suites[len(props[id].Suites)-1].Only = "thorough"
	}
	add("C06", "recursive", "6 templates that render themselves in 7 ways, up to 5 (thorough 39) levels deep", recursive)
	add("C13", "reentrant", "3 templates executed, executed with a failing writer or built anew at any one write or call back of their own execution", c13Reentrant)
}
