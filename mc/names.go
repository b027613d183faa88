package main

import (
	"bytes"
	"database/sql"
	"fmt"
	"iter"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// Names are just names: what an element or attribute is called changes nothing about what is written in it.

// moreElNames are names of elements that other writers of markup treat in a way of their own
var moreElNames = []string{"SCRIPT", "Script", "STYLE", "script.x", "svg:script", "x-script", "xmp", "XMP", "listing", "plaintext", "noembed", "noframes", "math", "annotation-xml", "mtext", "frameset", "frame", "isindex", "image", "keygen", "command", "bgsound",
	"basefont", "nobr", "marquee", "TITLE", "TEXTAREA", "PRE", "BR", "Img", "xml", "raw", "html:div", "amp-img", "template", "TEMPLATE", "noscript"}

var moreAttrNames = []string{"xmlns", "xmlns:x", "xml:lang", "xml:space", "xlink:href", "srcdoc", "formaction", "is", "ping", "background", "cite", "longdesc", "usemap", "codebase", "classid", "profile", "manifest", "icon", "dynsrc", "lowsrc", "ONCLICK", "onfoo", "on:x", "x-on:y", "v-bind:z", "data-src", "DATA-X", "ng-x", "nonce", "accesskey", "HREF", "Src", "STYLE", "Class", "media", "http-equiv", "sizes", "imagesrcset", "itemid", "itemref", "property", "about", "allow", "sandbox", "accept-charset", "coords", "headers", "rev", "value-x", "datetime", "url", "uri"}

func allNames() (els, attrs []string) {
	els, attrs = vocabNames()
	return append(els[:len(els):len(els)], moreElNames...), append(attrs[:len(attrs):len(attrs)], moreAttrNames...)
}

// namedValues are hostile strings (property C02), and values of all sorts (C11), and what each is written as
func namedValues(hostile bool, name string) (values []any, want []string) {
	add := func(v any, w string) {
		values = append(values, v)
		want = append(want, w)
	}
	if hostile {
		for _, s := range []string{"</" + name + ">", "<" + name + " x>", `" x="`, "<!--<" + name + ">", "]]>", "&lt;", "&amp;amp;", "' onx='", "javascript:alert('1')", "data:text/html,<b>&", "a\x00b<", ">", "\n<b", "{{<}}", "url(\"x\")&", "\xff<"} {
			add(s, esc(s))
			if len(s) > 3 {
				add(stringer{s}, esc(s))
			}
		}
		return
	}
	for _, s := range []string{"", " ", " a  b ", "\n", "a,b;c", "A", "a", "0", "1", "true", "false", "on", "off", "#", "#a", "?a=1", "http://x.y/z w?q=é#f", "/a//b/../c", "HTTP://X", "%20%zz", "a+b", "é\u0301", "\u00a0", "1px", "-1", "1e3", "url(a)", name} {
		add(s, esc(s))
	}
	add(5, "5")
	add(-1, "-1")
	add(0, "0")
	add(1.5, "1.5")
	add(5e-05, "5e-05")
	add(1e21, "1e+21")
	add(float32(0.1), "0.1")
	add(true, "true")
	add(false, "false")
	add(uint8(200), "200")
	add(uint64(1<<63), "9223372036854775808")
	add(int64(-1<<63), "-9223372036854775808")
	add([]byte("a"), "a")
	add([]byte("&lt;"), "&lt;")
	add(stringer{"s"}, "s")
	add([]byte{}, "")
	return
}

var namedElForms = 12

// namedEl puts the value in an element of the name; what is written around it
func namedEl(form int, name string, v any) (n aitch.Node, pre, post string) {
	el := func(contents ...any) aitch.Node { return aitch.NewElement([]byte(name), contents...) }
	pre, post = "<"+name+">", "</"+name+">"
	switch form {
	case 0:
		if isVoidName(name) {
			return aitch.Element(name, v), pre, "\x00void"
		}
		return aitch.Element(name, v), pre, post
	case 1:
		return el(aitch.Text(v)), pre, post
	case 2:
		return el(aitch.DynamicValueKey("k")), pre, post
	case 3:
		return el(aitch.Collection(aitch.Text(v))), pre, post
	case 4:
		return el(aitch.NewElement([]byte("i"), v)), pre + "<i>", "</i>" + post
	case 5:
		return el([]byte("<u>"), v, []byte("</u>")), pre + "<u>", "</u>" + post
	case 6:
		return el(aitch.Attribute("type", "text/plain"), "a", aitch.Fragment(v)), "<" + name + ` type="text/plain">a`, post
	case 7:
		return aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.Start([]byte(name), false)
			if s, ok := v.(string); ok {
				c.WriteString(s)
			} else {
				c.WriteNodes(aitch.Text(v))
			}
			c.End()
			return nil
		}), pre, post
	case 8:
		return aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.Start([]byte(name), false)
			c.WriteNodes(aitch.Text(v))
			c.EndAll()
			return nil
		}), pre, post
	case 9:
		return el(aitch.Conditional(func(*context.Context) bool { return true }, aitch.Text(aitch.DynamicValueKey("k")))), pre, post
	case 10:
		return el(aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{aitch.Text("b"), aitch.Text(v)} })), pre + "b", post
	}
	return aitch.NewElement([]byte("p"), aitch.Text("<"+name+">", v)), "<p>" + esc("<"+name+">"), "</p>"
}

var namedAttrForms = 9

func namedAttr(form int, name string, v any) (n aitch.Node, pre, post string) {
	pre, post = `<x `+name+`="`, `"></x>`
	switch form {
	case 0:
		return aitch.Element("x", aitch.Attribute(name, v)), pre, post
	case 1:
		return aitch.Element("x", aitch.NewAttribute([]byte(name), aitch.DynamicValueKey("k"))), pre, post
	case 2:
		return aitch.Element("x", aitch.DelimitedAttribute(name, ",", v)), pre, post
	case 3:
		return aitch.Element("x", aitch.DelimitedAttribute(name, ";", "p"), aitch.DelimitedAttribute(name, ";", v)), pre + "p;", post
	case 4:
		return aitch.Element("x", aitch.Conditional(func(*context.Context) bool { return true }, aitch.Attribute(name, v))), pre, post
	case 5:
		return aitch.Element("x", aitch.When("k", aitch.DelimitedAttribute(name, " ", aitch.NewValue(v)))), pre, post
	case 6:
		return aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.Start([]byte("x"), false, aitch.Attribute(name, v))
			c.End()
			return nil
		}), pre, post
	case 7:
		return aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.Start([]byte("x"), true, aitch.DelimitedAttribute(name, " ", v))
			return nil
		}), pre, `">`
	}
	return aitch.VoidElement("x", aitch.Attribute(name, "p", v, "q")), pre + "p", `q">`
}

func namesElements(hostile bool) func(x *X) {
	return func(x *X) {
		els, _ := allNames()
		name := els[x.Choose(len(els))]
		form := x.Choose(namedElForms + 1)
		x.Note(func() string { return fmt.Sprintf("in an element %q, form %d", name, form) })
		x.Ready()
		x.nontriv = true
		values, want := namedValues(hostile, name)
		var fns []*vocabFn
		if form == namedElForms {
			for _, v := range vocabFns() {
				if v.kind == "e" && v.name == name {
					fns = append(fns, v)
				}
			}
		}
		for i, v := range values {
			v := v
			x.note = func() string { return fmt.Sprintf("%#v in an element %q, form %d", v, name, form) }
			check := func(n aitch.Node, pre, post string) {
				for round := 0; round < 2; round++ {
					got, err := render(n, &Env{Data: map[string]any{"k": v}})
					if err != nil {
						x.Failf("%v", err)
					}
					w := pre + want[i] + post
					if post == "\x00void" {
						w = pre
					}
					if d := stdOpt.Same(got, w); d != "" {
						x.Failf("%s", d)
					}
					x.Observe([]byte(got))
				}
			}
			if form == namedElForms {
				for _, f := range fns {
					check(f.call(v).(aitch.Node), "<"+name+">", "</"+name+">")
				}
				continue
			}
			check(namedEl(form, name, v))
		}
	}
}

func namesAttributes(hostile bool) func(x *X) {
	return func(x *X) {
		_, attrs := allNames()
		name := attrs[x.Choose(len(attrs))]
		form := x.Choose(namedAttrForms)
		x.Note(func() string { return fmt.Sprintf("in an attribute %q, form %d", name, form) })
		x.Ready()
		x.nontriv = true
		values, want := namedValues(hostile, name)
		for i, v := range values {
			v := v
			x.note = func() string { return fmt.Sprintf("%#v in an attribute %q, form %d", v, name, form) }
			n, pre, post := namedAttr(form, name, v)
			got, err := render(n, &Env{Data: map[string]any{"k": v}})
			if err != nil {
				x.Failf("%v", err)
			}
			if v == false && form == 5 {
				pre, post = "<x", "></x>"
			}
			if d := stdOpt.Same(got, pre+want[i]+post); d != "" && !(v == false && form == 5 && got == "<x></x>") {
				x.Failf("%s", d)
			}
			x.Observe([]byte(got))
		}
	}
}

// namesPairs: every element with every attribute
func namesPairs(hostile bool) func(x *X) {
	return func(x *X) {
		els, attrs := allNames()
		name := els[x.Choose(len(els))]
		x.Note(func() string { return fmt.Sprintf("in an element %q", name) })
		x.Ready()
		x.nontriv = true
		values := []any{"javascript:\"x<", "&amp;'>", stringer{"</" + name}}
		if !hostile {
			values = []any{"HTTP://x.y/a b?c=é&", 0, true, ""}
		}
		want := make([]string, len(values))
		for i, v := range values {
			switch t := v.(type) {
			case string:
				want[i] = esc(t)
			case stringer:
				want[i] = esc(t.s)
			default:
				want[i] = fmt.Sprint(v)
			}
		}
		for _, attr := range attrs {
			attr := attr
			x.note = func() string { return fmt.Sprintf("in an attribute %q of element %q", attr, name) }
			for i, v := range values {
				got, err := render(aitch.NewElement([]byte(name), aitch.Attribute(attr, v), v), &Env{})
				if err != nil {
					x.Failf("%v", err)
				}
				if d := stdOpt.Same(got, "<"+name+" "+attr+`="`+want[i]+`">`+want[i]+"</"+name+">"); d != "" {
					x.Failf("%s", d)
				}
				x.Observe([]byte(got))
			}
		}
	}
}

// attribute names of all sorts among others: in the order of declaration

var nameClasses = []string{"data-a", "data-b", "aria-a", "aria-label", "hx-get", "hx-on:x", "on", "onclick", "id", "class", "style", "href", "src", "type", "name", "value", "xlink:href", "xmlns", "xml:lang", "A", "Z", "a", "z", "a1", "a10", "a2", "x-y", "x.y", "x_y", "x:y", "role", "title", "lang", "key", "ID", "Class"}

var fillerNames = []string{"m", "c", "q", "e", "t", "b", "w", "g", "k", "n", "d", "s", "f", "r", "h", "p", "j", "l", "u", "v"}

func orderedTag(x *X, kind int, decl []any, want []string, env *Env, what string) {
	attrs := make([]aitch.Node, 0, len(decl))
	for _, d := range decl {
		attrs = append(attrs, d.(aitch.Node))
	}
	var n aitch.Node
	switch kind {
	case 0:
		n = aitch.Element("p", decl...)
	case 1:
		n = aitch.VoidElement("br", decl...)
	case 2:
		n = aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.Start([]byte("p"), false, attrs...)
			c.End()
			return nil
		})
	default:
		n = aitch.NewElement([]byte("p"), aitch.Collection(attrs...))
	}
	for round := 0; round < 2; round++ {
		got, err := render(n, env)
		if err != nil {
			x.Failf("%s: %v", what, err)
		}
		toks, terr := Tokenize(got)
		if terr != nil || len(toks) == 0 {
			x.Failf("%s: %q: %v", what, got, terr)
		}
		var names []string
		for _, a := range toks[0].Attrs {
			names = append(names, a.Name)
		}
		if strings.Join(names, " ") != strings.Join(want, " ") {
			x.Failf("%s, tag of kind %d, render %d: order %v instead of %v", what, kind, round+1, names, want)
		}
		x.Observe([]byte(got))
	}
}

func c05Names(x *X) {
	_, attrs := allNames()
	name := attrs[x.Choose(len(attrs))]
	kind := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("attribute %q among others, tag of kind %d", name, kind) })
	x.Ready()
	x.nontriv = true
	var fill []string
	for _, f := range fillerNames {
		if f != name {
			fill = append(fill, f)
		}
	}
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17} {
		for p := 0; p <= n; p++ {
			var decl []any
			var want []string
			for i := 0; i <= n; i++ {
				nm := name
				if i < p {
					nm = fill[i]
				} else if i > p {
					nm = fill[i-1]
				}
				decl = append(decl, aitch.Attribute(nm, i))
				want = append(want, nm)
			}
			orderedTag(x, kind, decl, want, &Env{}, fmt.Sprintf("%v", want))
		}
	}
}

// c05NamePairs: two names of all classes of names at all places among others, declared in several ways
func c05NamePairs(x *X) {
	a, b := nameClasses[x.Choose(len(nameClasses))], nameClasses[x.Choose(len(nameClasses))]
	if a == b {
		return
	}
	x.Note(func() string { return fmt.Sprintf("attributes %q and %q among others", a, b) })
	x.Ready()
	x.nontriv = true
	for _, n := range []int{2, 3, 5, 6, 9} {
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				for kind := 0; kind < 4; kind++ {
					for way := 0; way < 3; way++ {
						var decl []any
						var want []string
						for i := 0; i < n; i++ {
							nm := fillerNames[i]
							if i == p {
								nm = a
							} else if i == q {
								nm = b
							}
							var at aitch.Node = aitch.Attribute(nm, aitch.DynamicValueKey("k"))
							if i == p || i == q {
								switch way {
								case 1:
									at = aitch.BooleanAttribute(nm)
								case 2:
									at = aitch.DelimitedAttribute(nm, ",", "x", i)
								}
							}
							decl = append(decl, at)
							want = append(want, nm)
						}
						orderedTag(x, kind, decl, want, &Env{Data: map[string]any{"k": "v"}}, fmt.Sprint(want))
					}
				}
			}
		}
	}
}

// c12Lookalikes: data that look like tags do not count as tags
func c12Lookalikes(x *X) {
	type op struct {
		name string
		do   func(c aitch.ImperativeContext)
		// want gives the output and the stack afterwards
		want func(stack []string) (string, []string)
	}
	start := func(name string) op {
		return op{"Start(" + name + ")", func(c aitch.ImperativeContext) { c.Start([]byte(name), false) }, func(st []string) (string, []string) {
			return "<" + name + ">", append(st[:len(st):len(st)], name)
		}}
	}
	raw := func(s string) op {
		return op{"WriteRaw(" + s + ")", func(c aitch.ImperativeContext) { c.WriteRaw([]byte(s)) }, func(st []string) (string, []string) { return s, st }}
	}
	nodes := func(name, out string, n ...aitch.Node) op {
		return op{name, func(c aitch.ImperativeContext) { c.WriteNodes(n...) }, func(st []string) (string, []string) { return out, st }}
	}
	ops := []op{
		start("p"), start("b"),
		{"End", func(c aitch.ImperativeContext) { c.End() }, func(st []string) (string, []string) {
			if len(st) == 0 {
				return "", st
			}
			return "</" + st[len(st)-1] + ">", st[:len(st)-1]
		}},
		{"EndAll", func(c aitch.ImperativeContext) { c.EndAll() }, func(st []string) (string, []string) {
			out := ""
			for i := len(st) - 1; i >= 0; i-- {
				out += "</" + st[i] + ">"
			}
			return out, nil
		}},
		raw("<p>"), raw("</p>"), raw("</b>"), raw("</"), raw("<br/>"),
		{"WriteString(</p>)", func(c aitch.ImperativeContext) { c.WriteString("</p>") }, func(st []string) (string, []string) { return "&lt;/p&gt;", st }},
		nodes("WriteNodes(raw </p>)", "</p>", aitch.Fragment([]byte("</p>"))),
		nodes("WriteNodes(raw <p>)", "<p>", aitch.Text([]byte("<p>"))),
		nodes("WriteNodes(p)", "<p></p>", aitch.Element("p")),
		nodes("WriteNodes(imperative)", "</p><b>", aitch.Imperative(func(c aitch.ImperativeContext) error {
			c.End()
			c.WriteRaw([]byte("</p>"))
			c.EndAll()
			c.Start([]byte("b"), false)
			return nil
		})),
		{"void p", func(c aitch.ImperativeContext) { c.Start([]byte("p"), true) }, func(st []string) (string, []string) { return "<p>", st }},
		{"Context().Write(</p>)", func(c aitch.ImperativeContext) { c.Context().Write([]byte("</p>")) }, func(st []string) (string, []string) { return "</p>", st }},
	}
	n := 1 + x.Choose(x.Q(5, 6))
	var seq []op
	for i := 0; i < n; i++ {
		seq = append(seq, ops[x.Choose(len(ops))])
	}
	x.Note(func() string {
		s := ""
		for _, o := range seq {
			s += o.name + " "
		}
		return s
	})
	x.Ready()
	x.nontriv = true
	want, stack := "", []string(nil)
	for _, o := range seq {
		var out string
		out, stack = o.want(stack)
		want += out
	}
	node := aitch.Imperative(func(c aitch.ImperativeContext) error {
		for _, o := range seq {
			o.do(c)
		}
		return nil
	})
	got, err := render(node, &Env{})
	if err != nil || got != want {
		x.Failf("got  %q %v\nwant %q", got, err, want)
	}
	x.Observe([]byte(got))
}

// values that hold what is asked for, but are something else

type wrapUnwrap[T any] struct{ v T }

func (w wrapUnwrap[T]) Get() T            { return w.v }
func (w wrapUnwrap[T]) Value() T          { return w.v }
func (w wrapUnwrap[T]) Unwrap() T         { return w.v }
func (w wrapUnwrap[T]) Interface() any    { return w.v }
func (w wrapUnwrap[T]) Load() (T, bool)   { return w.v, true }
func (w wrapUnwrap[T]) As(target *T) bool { *target = w.v; return true }

type wrapEmbed[T any] struct {
	V   T
	Key T
}

type wrapped struct {
	lookup
	plain any
	vals  []any
}

func wrapsOf[T any](v T) wrapped {
	av := any(v)
	p := &v
	pp := &p
	c := make(chan T, 8)
	for i := 0; i < 8; i++ {
		c <- v
	}
	var ap atomic.Pointer[T]
	ap.Store(&v)
	var at atomic.Value
	at.Store(v)
	return wrapped{lookupOf[T](), v, []any{
		p, pp, &av,
		func() T { return v }, func() (T, error) { return v, nil }, func() (T, bool) { return v, true }, func(*context.Context) T { return v }, func(string) T { return v }, func() any { return v }, func() *T { return &v },
		sync.OnceValue(func() T { return v }), iter.Seq[T](func(yield func(T) bool) { yield(v) }),
		[]T{v}, []any{v}, [1]T{v}, &[]T{v}, map[string]T{"Key": v, "": v}, map[string]any{"Key": v}, map[int]T{0: v}, map[bool]T{true: v},
		c, (<-chan T)(c),
		struct{ Value T }{v}, struct{ V T }{v}, &struct{ Key T }{v}, wrapEmbed[T]{v, v}, &wrapEmbed[T]{v, v},
		wrapUnwrap[T]{v}, &wrapUnwrap[T]{v}, reflect.ValueOf(v), reflect.ValueOf(&v), sql.Null[T]{V: v, Valid: true}, &sql.Null[T]{V: v, Valid: true}, &ap, &at,
		context.New(nil, map[string]any{"Key": v, ".": v}, v), aitch.NewValue(v), aitch.Text(v), fmt.Sprint(v), []byte(fmt.Sprint(v)), fmt.Errorf("%v", v), stringer{fmt.Sprint(v)}, c15Str(fmt.Sprint(v)), bytes.NewBufferString(fmt.Sprint(v)), []rune(fmt.Sprint(v)),
		int8(5), int16(5), int32(5), uint(5), uint8(5), uint64(5), float32(5), complex(5, 0), 5, int64(5), 5.0, "5", "true", true, 1,
	}}
}

var c15Wrapped = []wrapped{
	wrapsOf("w"), wrapsOf(5), wrapsOf(error(c15Err{"w"})), wrapsOf(fmt.Stringer(stringer{"w"})), wrapsOf([]byte("w")), wrapsOf(c15Inner), wrapsOf(*c15Inner), wrapsOf(map[string]any{"Key": "w", "k": 1}), wrapsOf(true), wrapsOf(c15Fn),
	wrapsOf(c15Str("w")), wrapsOf(5.0), wrapsOf(int64(5)), wrapsOf(&c15Full), wrapsOf([]any{"w"}), wrapsOf([]string{"w"}), wrapsOf(uint8(5)), wrapsOf(c15Err{"w"}), wrapsOf([]int{5}), wrapsOf(func(*context.Context) []byte { return nil }), wrapsOf(aitch.Text("w")), wrapsOf("5"),
}

func c15Wraps(x *X) {
	w := c15Wrapped[x.Choose(len(c15Wrapped))]
	i := x.Choose(len(w.vals))
	v := w.vals[i]
	form := x.Choose(8)
	x.Note(func() string { return fmt.Sprintf("Get[%s] where there is a %T, form %d", w.name, v, form) })
	x.Ready()
	x.nontriv = true
	is := w.is(v)
	var ctx *context.Context
	want, found := v, is
	other := func() {
		if !is {
			want, found = w.plain, true
		}
	}
	switch form {
	case 0:
		ctx = context.New(nil, map[string]any{"Key": v}, nil)
	case 1:
		ctx = context.New(nil, nil, map[string]any{"Key": v})
	case 2:
		ctx = context.New(nil, nil, struct{ Key any }{v})
	case 3:
		ctx = context.New(nil, map[string]any{"Key": v}, map[string]any{"Key": w.plain})
		other()
	case 4:
		ctx = context.New(nil, map[string]any{"Key": v}, &struct{ Key any }{w.plain})
		other()
	case 5:
		// the cargo itself is not what is asked for
		ctx = context.New(nil, map[string]any{"Key": v}, w.plain)
		if m, ok := w.plain.(map[string]any); ok {
			if k := m["Key"]; !is && w.is(k) {
				want, found = k, true
			}
		}
		if s, ok := w.plain.(*C15Struct); ok && !is && w.is(s.Key) {
			want, found = s.Key, true
		}
	case 6:
		ctx = context.New(nil, map[string]any{"Other": w.plain, "key": w.plain, "KEY": w.plain, "Key ": w.plain, "": w.plain}, nil)
		want, found = nil, false
	case 7:
		ctx = &context.Context{Data: map[string]any{"Key": v}, Parent: context.New(nil, map[string]any{"Key": w.plain}, map[string]any{"Key": w.plain})}
	}
	if !found {
		want = nil
	}
	got, ok := w.get(ctx, "Key")
	if ok != found {
		x.Failf("Get returns %v, %v instead of %v, %v", got, ok, want, found)
	}
	c15Check(x, ctx, w.lookup, "Key", want, found)
	c15Check(x, ctx, w.lookup, "Key", want, found)
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: name, Bounds: bounds, Body: body})
	}
	add("C02", "element-names", "about 30 hostile strings (the name's own end tag among them) in elements of every name of the vocabularies, the dictionary and 37 more, in 13 forms", namesElements(true))
	add("C02", "attribute-names", "the same strings in attributes of every name of the vocabularies, the dictionary and 52 more, in 9 forms", namesAttributes(true))
	add("C02", "name-pairs", "3 hostile strings in every attribute name on every element name", namesPairs(true))
	add("C11", "element-names", "about 44 values of all types in elements of every name of the vocabularies, the dictionary and 37 more, in 13 forms", namesElements(false))
	add("C11", "attribute-names", "the same values in attributes of every name of the vocabularies, the dictionary and 52 more, in 9 forms", namesAttributes(false))
	add("C11", "name-pairs", "4 values in every attribute name on every element name", namesPairs(false))
	add("C05", "names", "every attribute name of the vocabularies, the dictionary and 52 more at every place among 1 to 17 others, on 4 kinds of tag", c05Names)
	add("C05", "name-pairs", "every pair of 36 names of all classes of names at all places among up to 7 others, as 3 kinds of attribute, on 4 kinds of tag", c05NamePairs)
	add("C12", "lookalikes", "all sequences of up to 5 (thorough 6) of 16 operations, most writing what looks like tags without being one", c12Lookalikes)
	add("C15", "wrapped", "values of 22 types asked for where there are up to 60 others that hold, point to, return or convert to them, x 8 forms of data and cargo", c15Wraps)
}
