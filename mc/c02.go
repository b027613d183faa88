package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
	xhtml "golang.org/x/net/html"
)

// channel is one way for a string to get into the output
type channel struct {
	name string
	// what the string ends up in: 't' text, 'a' attribute value, 'c' comment, 'p' instruction
	in byte
	// render places the string and renders <x>...</x> around it
	render func(s string) (string, error)
	pre    string
	post   string
	attr   string
	times  int
}

func inElement(mk func(s string) any) func(s string) (string, error) {
	return func(s string) (string, error) {
		return render(aitch.Element("x", mk(s)), &Env{})
	}
}

func withEnv(mk func() any, env func(s string) *Env) func(s string) (string, error) {
	return func(s string) (string, error) {
		return render(aitch.Element("x", mk()), env(s))
	}
}

func dataEnv(s string) *Env  { return &Env{Data: map[string]any{"k": s}} }
func cargoEnv(s string) *Env { return &Env{Cargo: s} }

type ptrStringer struct{ s string }

func (p *ptrStringer) String() string { return p.s }

// positions are the places a value can be given
type position struct {
	name      string
	in        byte
	attr      string
	mk        func(v any) any
	pre, post string
}

func positions() []position {
	return []position{
		{name: "content", in: 't', mk: func(v any) any { return v }},
		{name: "Text", in: 't', mk: func(v any) any { return aitch.Text(v) }},
		{name: "html.Text", in: 't', mk: func(v any) any { return html.Text(v) }},
		{name: "svg.Text", in: 't', mk: func(v any) any { return svg.Text(v) }},
		{name: "Fragment", in: 't', mk: func(v any) any { return aitch.Fragment(v) }},
		{name: "Text(NewValue)", in: 't', mk: func(v any) any { return aitch.Text(aitch.NewValue(v)) }},
		{name: "Text(NewConcatValue)", in: 't', mk: func(v any) any { return aitch.Text(aitch.NewConcatValue(v)) }},
		{name: "Collection(Text)", in: 't', mk: func(v any) any { return aitch.Collection(aitch.Text(v)) }},
		{name: "Comment", in: 'c', mk: func(v any) any { return aitch.Comment(v) }},
		{name: "html.Comment", in: 'c', mk: func(v any) any { return html.Comment(v) }},
		{name: "PI", in: 'p', mk: func(v any) any { return aitch.PI("X", v) }},
		{name: "html.PI", in: 'p', mk: func(v any) any { return html.PI("X", v) }},
		{name: "Attribute", in: 'a', attr: "n", mk: func(v any) any { return aitch.Attribute("n", v) }},
		{name: "NewAttribute", in: 'a', attr: "n", mk: func(v any) any { return aitch.NewAttribute([]byte("n"), v) }},
		{name: "DelimitedAttribute", in: 'a', attr: "n", mk: func(v any) any { return aitch.DelimitedAttribute("n", ";", v) }},
		{name: "Attribute(Text)", in: 'a', attr: "n", mk: func(v any) any { return aitch.Attribute("n", aitch.Text(v)) }},
		{name: "Attribute(NewConcatValue)", in: 'a', attr: "n", mk: func(v any) any { return aitch.Attribute("n", aitch.NewConcatValue("p", v, "q")) }, pre: "p", post: "q"},
		{name: "Attribute in conditional", in: 'a', attr: "n", mk: func(v any) any {
			return aitch.Conditional(func(*context.Context) bool { return true }, aitch.Attribute("n", v))
		}},
		{name: "html.Class", in: 'a', attr: "class", mk: func(v any) any { return html.Class(v) }},
		{name: "html.Style", in: 'a', attr: "style", mk: func(v any) any { return html.Style(v) }},
		{name: "html.Href", in: 'a', attr: "href", mk: func(v any) any { return html.Href(v) }},
		{name: "svg.Fill", in: 'a', attr: "fill", mk: func(v any) any { return svg.Fill(v) }},
		{name: "css.Width", in: 'a', attr: "style", mk: func(v any) any { return css.Width(v) }, pre: "width:"},
		{name: "css.Px", in: 'a', attr: "style", mk: func(v any) any { return css.Width(css.Px(v)) }, pre: "width:", post: "px"},
		{name: "htmx.Get", in: 'a', attr: "hx-get", mk: func(v any) any { return htmx.Get(v) }},
		{name: "htmx.Trigger", in: 'a', attr: "hx-trigger", mk: func(v any) any { return htmx.Trigger(v) }},
		{name: "htmx.Var", in: 'a', attr: "hx-vars", mk: func(v any) any { return htmx.Vars(htmx.Var("n", v)) }, pre: "n: "},
		{name: "htmx.Headers value", in: 'a', attr: "hx-headers", mk: func(v any) any { return htmx.Headers(htmx.HeadersMap{"k": v}) }, pre: "{'k': ", post: "}"},
		{name: "htmx.HeadersJS value", in: 'a', attr: "hx-headers", mk: func(v any) any { return htmx.HeadersJS(htmx.HeadersMap{"k": v}) }, pre: "js:{'k': ", post: "}"},
		{name: "Imperative Start attribute", in: 'a', attr: "n", mk: func(v any) any {
			return nil // replaced below
		}},
	}
}

// sources are the ways of giving a string as a value
type source struct {
	name string
	mk   func(s string) any
	env  func(s string) *Env
}

func noEnv(string) *Env { return &Env{} }

func sources() []source {
	key := func(string) any { return aitch.DynamicValueKey("k") }
	dot := func(string) any { return aitch.DynamicValueKey(".") }
	return []source{
		{"static", func(s string) any { return s }, noEnv},
		{"Stringer", func(s string) any { return stringer{s} }, noEnv},
		{"func() any", func(s string) any { return func() any { return s } }, noEnv},
		{"func() any of Stringer", func(s string) any { return func() any { return &ptrStringer{s} } }, noEnv},
		{"key", key, dataEnv},
		{"key of Stringer", key, func(s string) *Env { return &Env{Data: map[string]any{"k": stringer{s}}} }},
		{"key of func() any", key, func(s string) *Env { return &Env{Data: map[string]any{"k": func() any { return s }}} }},
		{"cargo", dot, cargoEnv},
		{"cargo Stringer", dot, func(s string) *Env { return &Env{Cargo: &ptrStringer{s}} }},
		{"NewValue", func(s string) any { return aitch.NewValue(s) }, noEnv},
		{"NewValue of key", func(s string) any { return aitch.NewValue(aitch.DynamicValueKey("k")) }, dataEnv},
		{"two halves", func(s string) any {
			h := len(s) / 2
			return aitch.NewConcatValue(s[:h], s[h:])
		}, noEnv},
	}
}

func channels() []channel {
	var out []channel
	for _, p := range positions() {
		p := p
		for _, src := range sources() {
			src := src
			c := channel{name: p.name + " <- " + src.name, in: p.in, attr: p.attr, pre: p.pre, post: p.post}
			c.render = func(s string) (string, error) {
				return render(aitch.Element("x", p.mk(src.mk(s))), src.env(s))
			}
			if p.name == "Imperative Start attribute" {
				c.render = func(s string) (string, error) {
					return render(aitch.Imperative(func(ic aitch.ImperativeContext) error {
						ic.Start([]byte("x"), false, aitch.Attribute("n", src.mk(s)))
						ic.End()
						return nil
					}), src.env(s))
				}
			}
			out = append(out, c)
		}
	}
	out = append(out,
		channel{name: "Imperative WriteString", in: 't', render: func(s string) (string, error) {
			return render(aitch.Element("x", aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.WriteString(s)
				return nil
			})), &Env{})
		}},
		channel{name: "Imperative WriteNodes", in: 't', render: func(s string) (string, error) {
			return render(aitch.Element("x", aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.WriteNodes(aitch.Text(s))
				return nil
			})), &Env{})
		}},
		channel{name: "Iterate item", in: 't', render: func(s string) (string, error) {
			return render(aitch.Element("x", aitch.Iterate(func(*context.Context) []any { return []any{s} }, aitch.Text(aitch.DynamicValueKey(".")))), &Env{})
		}},
		channel{name: "IterateKey of []string", in: 't', render: func(s string) (string, error) {
			return render(aitch.Element("x", aitch.IterateKey("k", aitch.Text(aitch.DynamicValueKey(".")))), &Env{Data: map[string]any{"k": []string{s}}})
		}},
		channel{name: "Iterate map item", in: 't', render: func(s string) (string, error) {
			return render(aitch.Element("x", aitch.Iterate(func(*context.Context) []any { return []any{map[string]any{"k": s}} }, aitch.Text(aitch.DynamicValueKey("k")))), &Env{})
		}},
		channel{name: "IterateYield attribute", in: 'a', attr: "n", render: func(s string) (string, error) {
			return render(aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(s) }, aitch.Element("x", aitch.Attribute("n", aitch.DynamicValueKey(".")))), &Env{})
		}},
		channel{name: "htmx.Headers key", in: 'a', attr: "hx-headers", pre: "{'", post: "': v}", render: inElement(func(s string) any { return htmx.Headers(htmx.HeadersMap{s: "v"}) })},
		channel{name: "htmx.Var name", in: 'a', attr: "hx-vars", pre: "", post: ": v", render: inElement(func(s string) any { return htmx.Vars(htmx.Var(s, "v")) })},
		channel{name: "Template marker", in: 't', render: func(s string) (string, error) {
			return execTemplate(tmplMarker, s)
		}},
		channel{name: "Template attribute marker", in: 'a', attr: "n", render: func(s string) (string, error) {
			return execTemplate(tmplAttr, s)
		}},
		channel{name: "Document language", in: 'a', attr: "lang", render: func(s string) (string, error) {
			out, err := render(html.Document(s, nil, nil), &Env{})
			return strings.NewReplacer("<!DOCTYPE html>\n", "", "<html", "<x", "</html>", "</x>", "<body></body>", "").Replace(out), err
		}},
	)
	return out
}

var (
	tmplMarker = aitch.MustNewTemplate("m", `<x>{{node .}}</x>`, aitch.NodeMap{"node": aitch.Text(aitch.DynamicValueKey("k"))})
	tmplAttr   = aitch.MustNewTemplate("a", `<x {{node .}}></x>`, aitch.NodeMap{"node": aitch.Attribute("n", aitch.DynamicValueKey("k"))})
)

func execTemplate(t *aitch.Template, s string) (string, error) {
	var buf bytes.Buffer
	err := t.Execute(&buf, map[string]any{"k": s}, nil)
	return strings.Replace(buf.String(), "<x  n", "<x n", 1), err
}

var c02Symbols = []string{"<", ">", "&", `"`, "'", "\x00", "-", "!", "/", ";", "#", "=", " ", "a", "\n", "é", "\U0001F600", "\xff", "`", "\\", "3", "\r"}
var c02Chunks = []string{"--", "-->", "<!--", "--!>", "&lt;", "&amp", "&#39;", "&#x3c;", "&", "</x>", "</", "<b>", "]]>", `" onload="`, "'", "\x00", "lt;", "amp;", "a", "é", "javascript:", "<script>", " ", "\u2028"}

func genString(x *X, symbols []string, max int) string {
	var sb strings.Builder
	for i := 0; i < max; i++ {
		c := x.Choose(len(symbols) + 1)
		if c == 0 {
			break
		}
		sb.WriteString(symbols[c-1])
	}
	return sb.String()
}

var c02Channels []channel

func checkChannel(x *X, c *channel, s string) {
	out, err := c.render(s)
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	want := c.pre + strings.ReplaceAll(s, "\x00", "") + c.post
	toks, err := Tokenize(out)
	if err != nil {
		x.Failf("the output is not well formed: %v: %q", err, out)
	}
	describe := func() string { return fmt.Sprintf("output %q", out) }
	bad := func() {
		x.Failf("the string %q changed the structure or did not come back as %q: %s tokens %v", s, want, describe(), toks)
	}
	if len(toks) < 2 || toks[0].Kind != 's' || toks[0].Name != "x" || toks[len(toks)-1].Kind != 'e' || toks[len(toks)-1].Name != "x" {
		bad()
	}
	inner := toks[1 : len(toks)-1]
	if c.in != 'a' && len(toks[0].Attrs) != 0 {
		bad()
	}
	switch c.in {
	case 'a':
		if len(inner) != 0 || len(toks[0].Attrs) != 1 {
			bad()
		}
		a := toks[0].Attrs[0]
		if a.Name != c.attr || !a.HasVal || a.Val != want {
			bad()
		}
	case 't':
		got := ""
		for _, t := range inner {
			if t.Kind != 't' {
				bad()
			}
			got += t.Data
		}
		if got != want {
			bad()
		}
	default:
		if len(inner) != 1 || inner[0].Kind != c.in || inner[0].Data != want {
			bad()
		}
		if c.in == 'p' && inner[0].Name != "X" {
			bad()
		}
	}
	// an independent HTML tokenizer must see the same structure
	if !strings.Contains(s, "\r") && !strings.Contains(s, "\x00") {
		if d := xnetStructure(out, c, want); d != "" {
			x.Failf("golang.org/x/net/html: %s for string %q: %s", d, s, describe())
		}
	}
	x.Observe([]byte(c.name + "\x00" + out))
}

func xnetStructure(out string, c *channel, want string) string {
	z := xhtml.NewTokenizer(strings.NewReader(out))
	text := ""
	var seen []string
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case xhtml.TextToken:
			if c.in == 'p' {
				t.Data = strings.TrimPrefix(t.Data, "\n")
			}
			text += t.Data
		case xhtml.CommentToken:
			seen = append(seen, "comment")
			if c.in == 'c' && t.Data != want {
				return fmt.Sprintf("comment %q instead of %q", t.Data, want)
			}
		default:
			seen = append(seen, t.Type.String()+":"+t.Data)
			if c.in == 'a' && tt == xhtml.StartTagToken {
				if len(t.Attr) != 1 || t.Attr[0].Key != c.attr || t.Attr[0].Val != want {
					return fmt.Sprintf("attributes %v instead of %s=%q", t.Attr, c.attr, want)
				}
			}
		}
	}
	exp := "StartTag:x EndTag:x"
	if c.in == 'c' || c.in == 'p' {
		exp = "StartTag:x comment EndTag:x"
	}
	if got := strings.Join(seen, " "); got != exp {
		return fmt.Sprintf("structure %s instead of %s", got, exp)
	}
	if c.in == 't' && text != want {
		return fmt.Sprintf("text %q instead of %q", text, want)
	}
	return ""
}

func c02Body(symbols []string, quick, thorough int) func(x *X) {
	return func(x *X) {
		c := &c02Channels[x.Choose(len(c02Channels))]
		s := genString(x, symbols, x.Q(quick, thorough))
		x.Note(func() string { return fmt.Sprintf("%s: %q", c.name, s) })
		x.Ready()
		checkChannel(x, c, s)
	}
}

// raw bytes go out unchanged
func c02Raw(x *X) {
	ps := positions()
	p := ps[x.Choose(len(ps))]
	src := x.Choose(8)
	s := genString(x, []string{"<", ">", "&", `"`, "\x00", "-", "a", "é", "\xff", "&amp;", "\r\n"}, x.Q(3, 4))
	names := []string{"static []byte", "key", "cargo", "func() any", "DynamicValueFunc", "func(*Context) []byte", "NewValue", "NewConcatValue"}
	x.Note(func() string { return fmt.Sprintf("%s <- raw %s: %q", p.name, names[src], s) })
	x.Ready()
	env := &Env{}
	var v any
	switch src {
	case 0:
		v = []byte(s)
	case 1:
		v, env = aitch.DynamicValueKey("k"), &Env{Data: map[string]any{"k": []byte(s)}}
	case 2:
		v, env = aitch.DynamicValueKey("."), &Env{Cargo: []byte(s)}
	case 3:
		v = func() any { return []byte(s) }
	case 4:
		v = aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte(s) })
	case 5:
		v = func(*context.Context) []byte { return []byte(s) }
	case 6:
		v = aitch.NewValue([]byte(s))
	case 7:
		v = aitch.NewConcatValue([]byte(s))
	}
	var marker, got string
	var err error
	run := func(val any, e *Env) (string, error) {
		if p.name == "Imperative Start attribute" {
			return render(aitch.Imperative(func(ic aitch.ImperativeContext) error {
				ic.Start([]byte("x"), false, aitch.Attribute("n", val))
				ic.End()
				ic.WriteRaw([]byte(s))
				return nil
			}), e)
		}
		return render(aitch.Element("x", p.mk(val)), e)
	}
	if marker, err = run([]byte("@MARK@"), &Env{}); err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if got, err = run(v, env); err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	want := strings.Replace(marker, "@MARK@", s, 1)
	if got != want {
		x.Failf("raw bytes %q were changed: got %q want %q", s, got, want)
	}
	x.Observe([]byte(p.name + got))
}

// several strings next to each other in one node: no two of them may combine into markup or an entity
func c02Pairs(x *X) {
	pieces := []string{"<", "&", "lt;", "amp", ";", "-", "--", ">", "!", `"`, "'", "a", "\x00", "#60;"}
	n := 2 + x.Choose(x.Q(2, 3))
	parts := make([]string, n)
	for i := range parts {
		parts[i] = pieces[x.Choose(len(pieces))]
	}
	where := x.Choose(5)
	dyn := x.Choose(2)
	x.Note(func() string { return fmt.Sprintf("parts %q where %d dynamic %d", parts, where, dyn) })
	x.Ready()
	env := &Env{Data: map[string]any{}}
	vals := make([]any, n)
	for i, p := range parts {
		vals[i] = p
		if dyn == 1 {
			k := fmt.Sprintf("k%d", i)
			env.Data[k] = p
			vals[i] = aitch.DynamicValueKey(k)
		}
	}
	want := strings.ReplaceAll(strings.Join(parts, ""), "\x00", "")
	c := channel{}
	var node any
	switch where {
	case 0:
		c.in, node = 't', aitch.Text(vals...)
	case 1:
		c.in, c.attr, node = 'a', "n", aitch.Attribute("n", vals...)
	case 2:
		c.in, node = 'c', aitch.Comment(vals...)
	case 3:
		c.in, node = 'p', aitch.PI("X", vals...)
	case 4:
		c.in, node = 't', aitch.Fragment(vals...)
	}
	c.render = func(string) (string, error) { return render(aitch.Element("x", node), env) }
	checkChannel(x, &c, want)
}

func init() {
	c02Channels = channels()
	register(&Prop{
		ID:     "C02",
		Level:  "model_checking",
		Rule:   "A case is a string and a channel (a place it can be given times a way of giving it), or a list of adjacent strings, rendered and tokenised by two independent tokenizers.",
		Assume: []string{"a carriage return is compared before HTML newline normalisation", "names of nodes are not data (C14 covers them)"},
		Suites: []*Suite{
			{Name: "symbols", Bounds: fmt.Sprintf("all strings of up to 3 symbols of %d x %d channels", len(c02Symbols), len(c02Channels)), Body: c02Body(c02Symbols, 3, 3)},
			{Name: "chunks", Bounds: fmt.Sprintf("all sequences of up to 2 (thorough 3) of %d significant strings x %d channels", len(c02Chunks), len(c02Channels)), Body: c02Body(c02Chunks, 2, 3)},
			{Name: "all-bytes", Bounds: "every single byte, alone and between letters, and every rune up to U+07FF (thorough U+2FFF) x text and attribute channels", Body: c02Bytes},
			{Name: "adjacent", Bounds: "2 to 3 (thorough 4) adjacent strings of 14 in one node, static or dynamic, 5 node kinds", Body: c02Pairs},
			{Name: "raw", Bounds: "raw bytes of up to 3 (thorough 4) symbols of 11 x all positions x 8 sources", Body: c02Raw},
		},
	})
}

func c02Bytes(x *X) {
	var cs []*channel
	for i := range c02Channels {
		if n := c02Channels[i].name; strings.HasSuffix(n, "<- static") || strings.HasSuffix(n, "<- key") || strings.HasPrefix(n, "Imperative") {
			cs = append(cs, &c02Channels[i])
		}
	}
	c := cs[x.Choose(len(cs))]
	var s string
	if x.Bool() {
		// blocks of runes
		s = string(rune(0x80 + x.Choose(x.Q(0x780, 0x2f80))))
	} else {
		s = string([]byte{byte(x.Choose(256))})
	}
	if x.Bool() {
		s = "a" + s + "b"
	}
	x.Note(func() string { return fmt.Sprintf("%s: %q", c.name, s) })
	x.Ready()
	checkChannel(x, c, s)
}
