package main

import (
	"bytes"
	stdcontext "context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	texttemplate "text/template"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
)

// faultWriter fails at write number k
type faultWriter struct {
	k, kind  int
	n        int
	out      bytes.Buffer
	failed   bool
	first    error
	after    int
	original []int // lengths of the writes
	errKind  int
}

// tempError is an error of the kinds that callers of other libraries retry
type tempError struct{ what string }

func (e *tempError) Error() string   { return e.what }
func (e *tempError) Temporary() bool { return true }
func (e *tempError) Timeout() bool   { return true }

// listError cannot be compared
type listError []string

func (e listError) Error() string { return strings.Join(e, ",") }
func (e listError) Is(target error) bool {
	t, ok := target.(listError)
	return ok && t.Error() == e.Error()
}

// nilError is an error although its pointer is nil
type nilError struct{ what string }

func (e *nilError) Error() string { return "nil" }

// valueError has no text
type valueError struct{ what string }

func (valueError) Error() string { return "" }

// sameErr: the very error, not one wrapped around it (but by the application, or by html/template around an error of a function)
func sameErr(got, want error) bool {
	switch w := got.(type) {
	case *lateWrap:
		return sameErr(w.of, want)
	case texttemplate.ExecError:
		return errors.Is(w, want)
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		return false
	}
	if got == nil || reflect.TypeOf(got).Comparable() {
		return got == want
	}
	return reflect.DeepEqual(got, want)
}

var errKinds = []struct {
	name string
	mk   func(msg string) error
}{
	{"plain", func(msg string) error { return errors.New(msg) }},
	{"temporary", func(msg string) error { return &tempError{msg} }},
	{"wrapped temporary", func(msg string) error { return fmt.Errorf("wrapped: %w", &tempError{msg}) }},
	{"os timeout", func(msg string) error { return &os.PathError{Op: "write", Path: msg, Err: os.ErrDeadlineExceeded} }},
	{"io.EOF", func(string) error { return io.EOF }},
	{"io.ErrShortWrite", func(string) error { return io.ErrShortWrite }},
	{"io.ErrClosedPipe", func(string) error { return io.ErrClosedPipe }},
	{"io.ErrUnexpectedEOF", func(string) error { return io.ErrUnexpectedEOF }},
	{"io.ErrNoProgress", func(string) error { return io.ErrNoProgress }},
	{"EINTR", func(string) error { return syscall.EINTR }},
	{"EAGAIN", func(string) error { return syscall.EAGAIN }},
	{"EPIPE", func(msg string) error { return &os.PathError{Op: "write", Path: msg, Err: syscall.EPIPE} }},
	{"context.Canceled", func(string) error { return stdcontext.Canceled }},
	{"context.DeadlineExceeded", func(string) error { return stdcontext.DeadlineExceeded }},
	{"joined", func(msg string) error { return errors.Join(io.EOF, errors.New(msg)) }},
	{"http.ErrHandlerTimeout", func(string) error { return http.ErrHandlerTimeout }},
	{"os.ErrClosed", func(string) error { return os.ErrClosed }},
	{"net.ErrClosed", func(string) error { return net.ErrClosed }},
	{"fs.SkipAll", func(string) error { return fs.SkipAll }},
	{"ECONNRESET", func(string) error { return syscall.ECONNRESET }},
	{"http.ErrAbortHandler", func(string) error { return http.ErrAbortHandler }},
	{"list", func(msg string) error { return listError{msg, "x"} }},
	{"nil pointer", func(string) error { return (*nilError)(nil) }},
	{"without text", func(msg string) error { return valueError{msg} }},
	{"bytes.ErrTooLarge", func(string) error { return bytes.ErrTooLarge }},
}

const (
	faultClean = iota
	faultPartial
	faultTransient
	faultTransientPartial
	faultAllButReported // every byte is accepted, and an error is returned
	faultKinds
)

var faultNames = []string{"clean permanent", "partial permanent", "clean transient", "partial transient", "complete but reported as failed"}

func (w *faultWriter) Write(p []byte) (int, error) {
	i := w.n
	w.n++
	w.original = append(w.original, len(p))
	if w.failed {
		w.after++
		if w.kind == faultTransient || w.kind == faultTransientPartial || w.kind == faultAllButReported {
			w.out.Write(p)
			return len(p), nil
		}
		return 0, fmt.Errorf("write %d failed after the first", i)
	}
	if i == w.k {
		w.failed = true
		w.first = errKinds[w.errKind].mk(fmt.Sprintf("write %d failed", i))
		n := 0
		switch w.kind {
		case faultPartial, faultTransientPartial:
			n = (len(p) + 1) / 2
		case faultAllButReported:
			n = len(p)
		}
		w.out.Write(p[:n])
		return n, w.first
	}
	w.out.Write(p)
	return len(p), nil
}

// checkFaults runs f once without fault, and then with a fault at a chosen write
func checkFaults(x *X, f func(w *faultWriter) error) { checkFaultsOf(x, 0, f) }

func checkFaultsOf(x *X, errKind int, f func(w *faultWriter) error) {
	free := &faultWriter{k: -1}
	if err := f(free); err != nil {
		x.Failf("without a fault: %v", err)
	}
	full := free.out.String()
	if free.n == 0 {
		x.Observe(nil)
		return
	}
	k := x.Choose(free.n)
	kind := x.Choose(faultKinds)
	note := x.note
	x.Note(func() string {
		s := ""
		if note != nil {
			s = note()
		}
		return fmt.Sprintf("%s; write %d of %d fails (%s)", s, k, free.n, faultNames[kind])
	})
	w := &faultWriter{k: k, kind: kind, errKind: errKind}
	err := f(w)
	got := w.out.String()
	x.Observe([]byte(full + strconv.Itoa(k) + strconv.Itoa(kind)))
	if !w.failed {
		x.Failf("the writer was used differently: only %d writes", w.n)
	}
	if err == nil {
		x.Failf("the failure was not returned (output %q)", got)
	}
	if !sameErr(err, w.first) {
		x.Failf("returned %q instead of the first error %q", err, w.first)
	}
	if w.after > 0 {
		x.Failf("%d writes were attempted after the failure: output %q", w.after, got)
	}
	if !strings.HasPrefix(full, got) {
		x.Failf("output %q is not a prefix of %q", got, full)
	}
}

func renderFault(n aitch.Node, env *Env) func(w *faultWriter) error {
	return func(w *faultWriter) error {
		return n.Render(context.New(w, env.Data, env.Cargo))
	}
}

func c08Kinds() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KText, func(g *gen) *Node { return &Node{Vals: []*Val{vkey("k"), {K: VFunc, S: "f"}}} }),
		leaf(KAttr, func(g *gen) *Node { return &Node{Name: "a" + g.next(), Vals: []*Val{vs("v"), vkey("k")}} }),
		leaf(KBool, func(g *gen) *Node { return &Node{Name: "b" + g.next()} }),
		leaf(KDelim, func(g *gen) *Node {
			return &Node{Name: "class", Vals: []*Val{{K: VFunc, S: "c" + g.next()}, {K: VConcat, Sub: []*Val{vs("d"), vkey("k")}}}}
		}),
		leaf(KComment, func(g *gen) *Node { return &Node{Vals: []*Val{vs("m"), vkey("k")}} }),
		leaf(KPI, func(g *gen) *Node { return &Node{Name: "X", Vals: []*Val{vs("p"), vkey("k")}} }),
		leaf(KFrag, func(g *gen) *Node { return &Node{Vals: []*Val{vraw("<i>"), {K: VCtxFunc, S: "f"}}} }),
		container(KEl, "p", 0),
		container(KVoid, "br", 0),
		container(KColl, "", 0),
		container(KCollect, "", 0),
		container(KCond, "", 0),
		container(KImp, "", 0),
		container(KImpEl, "q", 0),
		container(KImpEl, "q", 1),
		container(KCustom, "", 0),
		func(g *gen) *Node {
			n := &Node{K: KIter, Items: []any{"i", map[string]any{"k": "j"}}}
			n.Kids = g.kids()
			return n
		},
		func(g *gen) *Node {
			n := &Node{K: KIter, Form: 2, Items: []any{"i", "j"}}
			n.Kids = g.kids()
			return n
		},
		func(g *gen) *Node {
			n := &Node{K: KIter, Form: 1, Name: "list"}
			n.Kids = g.kids()
			return n
		},
	}
}

func c08Env() *Env {
	return &Env{Data: map[string]any{"k": "<dyn>", "list": []any{"x", "y"}}, Cargo: "car", Conds: []bool{true, false}}
}

func c08Trees(x *X) {
	g := &gen{x: x, budget: x.Q(3, 4), alpha: c08Kinds()}
	top := &Node{K: []Kind{KEl, KColl, KDoc}[x.Choose(3)]}
	if top.K == KEl {
		top.Name = "div"
	}
	top.Kids = g.kids()
	x.Note(func() string { return top.String() })
	x.Ready()
	env := c08Env()
	l := &live{conds: env.Conds}
	checkFaults(x, renderFault(top.node(l), env))
}

// content of every kind on both sides of the write that fails
func c08Siblings(x *X) {
	alpha := c08Kinds()
	mk := func() *Node {
		g := &gen{x: x, budget: 2}
		g.alpha = alpha
		n := g.kid()
		return n
	}
	top := &Node{K: []Kind{KEl, KColl, KCollect, KCond, KImp, KCustom, KIter, KImpEl}[x.Choose(8)]}
	switch top.K {
	case KEl, KImpEl:
		top.Name = "div"
	case KIter:
		top.Items = []any{"1", "2"}
	}
	top.Kids = []*Node{mk(), mk()}
	x.Note(func() string { return top.String() })
	x.Ready()
	env := c08Env()
	checkFaults(x, renderFault(top.node(&live{conds: env.Conds}), env))
}

// writes made by template wrappers
func c08Templates(x *X) {
	segs := []string{"lit", "{{a .}}", "{{b .}}", "<p {{at .}}>", "</p>", "{{if .Data.yes}}{{a .}}{{end}}", "{{.Data.k}}"}
	n := 1 + x.Choose(3)
	text := ""
	for i := 0; i < n; i++ {
		text += segs[x.Choose(len(segs))]
	}
	text += "end"
	x.Note(func() string { return "template " + strconv.Quote(text) })
	x.Ready()
	t, err := aitch.NewTemplate("t", text, aitch.NodeMap{
		"a":  aitch.Element("b", aitch.Attribute("id", "1"), aitch.DynamicValueKey("k")),
		"b":  aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, aitch.Text(aitch.DynamicValueKey("."))),
		"at": aitch.Attribute("title", aitch.DynamicValueKey("k")),
	})
	if err != nil {
		x.Failf("parse: %v", err)
	}
	data := map[string]any{"k": "v", "yes": true}
	if err := t.Execute(&bytes.Buffer{}, data, nil); err != nil {
		// html/template refuses this text (unbalanced): nothing to check
		x.Observe(nil)
		return
	}
	checkFaults(x, func(w *faultWriter) error { return t.Execute(w, data, nil) })
}

// writes made by the code generators
func c08Generators(x *X) {
	docs := []string{
		``, `text`, `<p>`, `<br/>`, `<br>`, `<p class="a">x</p>`, `<!-- c -->`, `<!DOCTYPE html>`, `<div a="1" disabled class='c'><unk x=y>t</unk></div>`,
		`<script>a<b</script>`, `<svg width="1"><circle r="1"/><unk/></svg>`, `<input disabled hidden="until-found"/>`, `<ul><li>1</li><li>2</li></ul>`,
		"<pre>\n\n a </pre>", `</p>`, `<a href="&amp;"`,
	}
	d := docs[x.Choose(len(docs))] + docs[x.Choose(len(docs))]
	svgGen := x.Bool()
	x.Note(func() string { return fmt.Sprintf("GenerateCode svg=%v %q", svgGen, d) })
	x.Ready()
	checkFaults(x, func(w *faultWriter) error {
		if svgGen {
			return svg.GenerateCode(strings.NewReader(d), w)
		}
		return html.GenerateCode(strings.NewReader(d), w)
	})
}

// errors of many kinds: none of them is retried, replaced or swallowed
func c08ErrorKinds(x *X) {
	ek := x.Choose(len(errKinds))
	what := x.Choose(4)
	var f func(w *faultWriter) error
	switch what {
	case 0:
		alpha := c08Kinds()
		top := &Node{K: []Kind{KEl, KImpEl, KDoc, KIter}[x.Choose(4)], Items: []any{1, 2}}
		if top.K != KDoc && top.K != KIter {
			top.Name = "div"
		}
		if top.K != KIter {
			top.Items = nil
		}
		g := &gen{x: x, budget: x.Q(1, 2), alpha: alpha}
		top.Kids = []*Node{g.kid(), {K: KText, Vals: []*Val{vs("end")}}}
		x.Note(func() string { return top.String() + " " + errKinds[ek].name })
		x.Ready()
		env := c08Env()
		f = renderFault(top.node(&live{conds: env.Conds}), env)
	case 1:
		t := aitch.MustNewTemplate("t", "l<p {{at .}}>{{a .}}</p>{{a .}}z", aitch.NodeMap{
			"a":  aitch.Element("b", aitch.Attribute("id", "1"), aitch.DynamicValueKey("k"), html.Br()),
			"at": aitch.Attribute("title", aitch.DynamicValueKey("k")),
		})
		x.Note(func() string { return "template " + errKinds[ek].name })
		f = func(w *faultWriter) error { return t.Execute(w, map[string]any{"k": "v"}, nil) }
	case 2:
		x.Note(func() string { return "html.GenerateCode " + errKinds[ek].name })
		f = func(w *faultWriter) error {
			return html.GenerateCode(strings.NewReader(`<!DOCTYPE html><div a="1" hidden>t<br/><!--c--><unk/></div>`), w)
		}
	case 3:
		x.Note(func() string { return "svg.GenerateCode " + errKinds[ek].name })
		f = func(w *faultWriter) error {
			return svg.GenerateCode(strings.NewReader(`<svg width="1">t<circle r="1"/><!--c--><unk/></svg>`), w)
		}
	}
	checkFaultsOf(x, ek, f)
}

// a reader that fails is reported too
type faultReader struct {
	s   string
	at  int
	err error
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.at == 0 {
		return 0, r.err
	}
	n := min(len(p), r.at)
	copy(p, r.s[:n])
	r.s = r.s[n:]
	r.at -= n
	return n, nil
}

func c08Reader(x *X) {
	d := `<!DOCTYPE html><div a="1">text<br/><!-- c --></div>`
	at := x.Choose(len(d) + 1)
	svgGen := x.Bool()
	ek := x.Choose(len(errKinds))
	if n := errKinds[ek].name; n == "io.EOF" || n == "joined" {
		ek = 0 // the end of input is no failure
	}
	x.Note(func() string {
		return fmt.Sprintf("GenerateCode svg=%v, reading fails at %d with %s", svgGen, at, errKinds[ek].name)
	})
	x.Ready()
	e := errKinds[ek].mk("read failed")
	var buf bytes.Buffer
	r := &faultReader{s: d, at: at, err: e}
	var err error
	if svgGen {
		err = svg.GenerateCode(r, &buf)
	} else {
		err = html.GenerateCode(r, &buf)
	}
	if !sameErr(err, e) {
		x.Failf("returned %v instead of the read error", err)
	}
	x.Observe([]byte(buf.String() + strconv.Itoa(at)))
}

func init() {
	register(&Prop{
		ID:     "C08",
		Level:  "fault_enumeration",
		Rule:   "A case is a template, template wrapper or generator input, a write of its failure-free run, and a kind of failure at that write.",
		Assume: []string{"the writer follows io.Writer (a short count comes with an error)", "an error wrapped by html/template counts as returned (errors.Is)"},
		Suites: []*Suite{
			{Name: "trees", Bounds: "every tree of up to 3 (thorough 4) nodes over 20 node forms below element, collection and document x every write x 5 kinds of failure", Body: c08Trees},
			{Name: "siblings", Bounds: "every pair of node forms (each with up to one child) below 8 containers x every write x 5 kinds of failure", Body: c08Siblings},
			{Name: "templates", Bounds: "template texts of up to 3 segments of 7 x every write x 5 kinds of failure", Body: c08Templates},
			{Name: "generators", Bounds: "pairs of 16 inputs for both generators x every write x 5 kinds of failure", Body: c08Generators},
			{Name: "error-kinds", Bounds: "25 kinds of errors (temporary, timeouts, io, syscall, context, http, wrapped, joined) x trees of up to 1 (thorough 2) further nodes of 20 forms below 4 tops, a template with an element and an attribute, both generators x every write x 5 kinds of failure", Body: c08ErrorKinds},
			{Name: "reader", Bounds: "read failure at every position of one document with 25 kinds of errors, both generators", Body: c08Reader},
		},
	})
}
