package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

// validName is the specification of names
func validName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case i > 0 && (c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-' || c == ':'):
		default:
			return false
		}
	}
	return s != ""
}

var htmlVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true,
	"param": true, "source": true, "track": true, "wbr": true}

func isVoidName(s string) bool {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return htmlVoid[string(b)]
}

var checkedCtors = []struct {
	name  string
	build func(name string) aitch.Node
	tag   func(name string) string
	wrap  bool
}{
	{"Element", func(n string) aitch.Node { return aitch.Element(n, aitch.Attribute("id", 1), "t", aitch.Text("u")) }, func(n string) string {
		if isVoidName(n) {
			return "<" + n + ` id="1">`
		}
		return "<" + n + ` id="1">tu</` + n + ">"
	}, false},
	{"VoidElement", func(n string) aitch.Node { return aitch.VoidElement(n, aitch.Attribute("id", 1), "t") }, func(n string) string { return "<" + n + ` id="1">` }, false},
	{"Attribute", func(n string) aitch.Node { return aitch.Attribute(n, "v", 1) }, func(n string) string { return "<p " + n + `="v1"></p>` }, true},
	{"BooleanAttribute", func(n string) aitch.Node { return aitch.BooleanAttribute(n) }, func(n string) string { return "<p " + n + `></p>` }, true},
	{"DelimitedAttribute", func(n string) aitch.Node { return aitch.DelimitedAttribute(n, "|", "v", 1) }, func(n string) string { return "<p " + n + `="v|1"></p>` }, true},
}

// construct calls the constructor, and says whether it panicked
func construct(build func(string) aitch.Node, name string, panics bool) (n aitch.Node, panicked bool) {
	old := aitch.PanicOnInvalidName
	aitch.PanicOnInvalidName = panics
	defer func() {
		aitch.PanicOnInvalidName = old
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	return build(name), false
}

func checkName(x *X, name string) {
	for _, c := range checkedCtors {
		ok := validName(name)
		for _, panics := range []bool{false, true} {
			n, panicked := construct(c.build, name, panics)
			switch {
			case panicked && (ok || !panics):
				x.Failf("%s(%q) panicked", c.name, name)
			case ok && n == nil:
				x.Failf("%s(%q) is nil", c.name, name)
			case !ok && panics && !panicked:
				x.Failf("%s(%q) did not panic", c.name, name)
			case !ok && n != nil:
				x.Failf("%s(%q) was accepted", c.name, name)
			}
			if ok {
				if n.Name() != name {
					x.Failf("%s(%q) has the name %q", c.name, name, n.Name())
				}
				if c.wrap {
					n = aitch.NewElement([]byte("p"), n)
				}
				got, err := render(n, &Env{})
				if want := c.tag(name); err != nil || got != want {
					x.Failf("%s(%q) renders %q, %v", c.name, name, got, err)
				}
			} else if !panics {
				got, err := render(aitch.NewElement([]byte("p"), n, "x", n), &Env{})
				if err != nil || got != "<p>x</p>" {
					x.Failf("the result of %s(%q) renders %q as contents, %v", c.name, name, got, err)
				}
			}
			x.evals++
		}
	}
	x.nontriv = true
}

// every string of up to two bytes, and of up to three characters of the interesting ones
func c14Short(x *X) {
	a := x.Choose(257)
	x.Note(func() string { return fmt.Sprintf("names starting with byte %d", a-1) })
	x.Ready()
	if a == 0 {
		checkName(x, "")
		return
	}
	s := string([]byte{byte(a - 1)})
	checkName(x, s)
	for b := 0; b < 256; b++ {
		checkName(x, s+string([]byte{byte(b)}))
		checkName(x, "a"+s+string([]byte{byte(b)}))
		if x.Thorough() {
			for c := 0; c < 256; c++ {
				checkName(x, s+string([]byte{byte(b), byte(c)}))
			}
		}
	}
}

var nameParts = []string{"a", "Z", "0", ".", "_", "-", ":", " ", "\n", "/", ">", "é", "\x00", "=", "K", "ſ", "\"", "１"}

func c14Classes(x *X) {
	n := 1 + x.Choose(x.Q(4, 5))
	name := ""
	for i := 0; i < n; i++ {
		name += nameParts[x.Choose(len(nameParts))]
	}
	x.Note(func() string { return fmt.Sprintf("%q", name) })
	x.Ready()
	checkName(x, name)
	x.Observe([]byte(name))
}

// every unicode character at the start, in the middle and at the end of a name
func c14Unicode(x *X) {
	b := x.Choose(0x110000 / 0x400)
	x.Note(func() string { return fmt.Sprintf("characters from %x", b*0x400) })
	x.Ready()
	for r := b * 0x400; r < (b+1)*0x400; r++ {
		c := string(rune(r))
		checkName(x, c)
		checkName(x, "a"+c)
		checkName(x, "a"+c+"b")
	}
}

// long names
func c14Long(x *X) {
	l := 1 + x.Choose(x.Q(300, 1200))
	bad := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("length %d, invalid %d", l, bad) })
	x.Ready()
	b := []byte(strings.Repeat("aB-c0:d._E", l/10+1)[:l])
	switch bad {
	case 1:
		b[l-1] = ' '
	case 2:
		b[l/2] = '@'
	case 3:
		b[0] = '-'
	}
	checkName(x, string(b))
	x.Observe(b)
}

// the names of html void elements in every letter case, and names near them
func c14Void(x *X) {
	var names []string
	for n := range htmlVoid {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[x.Choose(len(names))]
	b := []byte(n)
	for i := range b {
		if x.Bool() {
			b[i] -= 32
		}
	}
	near := x.Choose(2)
	x.Note(func() string { return string(b) })
	x.Ready()
	checkName(x, string(b))
	x.Observe(b)
	if near == 1 {
		for i := range b {
			for _, c := range []string{"", "a", "x", "0", "-", string(b[i : i+1])} {
				checkName(x, string(b[:i])+c+string(b[i+1:]))
				checkName(x, string(b[:i])+c+string(b[i:]))
			}
		}
		for _, s := range []string{"a", "s", "0", "-", ":x", ".", "_"} {
			checkName(x, string(b)+s)
			checkName(x, "x"+s+string(b))
		}
	}
}

// all short names of letters, and the names of the whole vocabulary
func c14Letters(x *X) {
	a := x.Choose(27)
	up := x.Bool()
	x.Note(func() string { return fmt.Sprintf("letters %d", a) })
	x.Ready()
	cs := func(s string) string {
		if up {
			return strings.ToUpper(s)
		}
		return s
	}
	if a == 26 {
		for _, pkg := range []string{"html", "svg"} {
			for f := range table[pkg] {
				checkName(x, cs(strings.ToLower(f)))
			}
		}
		for _, f := range []string{"frame", "command", "keygen", "basefont", "bgsound", "isindex", "menuitem", "image", "noscript", "script", "style", "textarea", "title", "h1", "H2",
			"svg", "math", "path", "use", "stop", "my-element", "svg:image", "x.y", "inputs", "wb", "sourc", "tracks"} {
			checkName(x, cs(f))
		}
		return
	}
	for i := 0; i < 26*26; i++ {
		s := string([]byte{'a' + byte(a), 'a' + byte(i/26), 'a' + byte(i%26)})
		checkName(x, cs(s))
		checkName(x, cs(s[:2]))
	}
}

// nilKinds are what the checked constructors return for invalid names
var nilKinds = []struct {
	name  string
	build func() any
}{
	{"nil", func() any { return nil }},
	{"Element(bad)", func() any { return aitch.Element("a b", "x") }},
	{"VoidElement(bad)", func() any { return aitch.VoidElement("", "x") }},
	{"Attribute(bad)", func() any { return aitch.Attribute("@click", "x") }},
	{"BooleanAttribute(bad)", func() any { return aitch.BooleanAttribute("1") }},
	{"DelimitedAttribute(bad)", func() any { return aitch.DelimitedAttribute("a b", " ", "x") }},
}

func anyNodes(l []any) []aitch.Node {
	r := make([]aitch.Node, len(l))
	for i, a := range l {
		switch n := a.(type) {
		case nil:
		case aitch.Node:
			r[i] = n
		default:
			r[i] = aitch.Text(a)
		}
	}
	return r
}

// nilPlaces are all the ways to use something as contents
var nilPlaces = []struct {
	name  string
	build func(l []any) aitch.Node
}{
	{"Element", func(l []any) aitch.Node { return aitch.Element("p", l...) }},
	{"NewElement", func(l []any) aitch.Node { return aitch.NewElement([]byte("p"), l...) }},
	{"VoidElement", func(l []any) aitch.Node { return aitch.VoidElement("p", l...) }},
	{"Element(br)", func(l []any) aitch.Node { return aitch.Element("br", l...) }},
	{"html element", func(l []any) aitch.Node { return html.Div(l...) }},
	{"html void element", func(l []any) aitch.Node { return html.Img(l...) }},
	{"svg element", func(l []any) aitch.Node { return svg.G(l...) }},
	{"Collection", func(l []any) aitch.Node { return aitch.Element("p", aitch.Collection(anyNodes(l)...)) }},
	{"lone Collection", func(l []any) aitch.Node { return aitch.Collection(anyNodes(l)...) }},
	{"nested Collection", func(l []any) aitch.Node {
		return aitch.Element("p", aitch.Collection(aitch.Collection(anyNodes(l)...)))
	}},
	{"Conditional", func(l []any) aitch.Node { return aitch.Element("p", aitch.Conditional(always, anyNodes(l)...)) }},
	{"When", func(l []any) aitch.Node { return aitch.Element("p", aitch.When("!k", anyNodes(l)...)) }},
	{"lone Conditional", func(l []any) aitch.Node { return aitch.Conditional(always, anyNodes(l)...) }},
	{"Conditional not holding", func(l []any) aitch.Node { return aitch.Element("p", aitch.When("k", anyNodes(l)...)) }},
	{"Conditional in Collection in Conditional", func(l []any) aitch.Node {
		return aitch.Element("p", aitch.Conditional(always, aitch.Collection(aitch.When("!k", anyNodes(l)...))))
	}},
	{"ContentCollect", func(l []any) aitch.Node {
		return aitch.Element("p", aitch.ContentCollect(func(*context.Context) []aitch.Node { return anyNodes(l) }))
	}},
	{"Iterate", func(l []any) aitch.Node {
		return aitch.Iterate(func(*context.Context) []any { return []any{1, 2} }, anyNodes(l)...)
	}},
	{"IterateYield", func(l []any) aitch.Node {
		return aitch.IterateYield(func(_ *context.Context, y func(any)) { y(1); y(nil) }, anyNodes(l)...)
	}},
	{"IterateKey", func(l []any) aitch.Node {
		return aitch.IterateKey("items", anyNodes(l)...)
	}},
	{"WriteNodes", func(l []any) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(anyNodes(l)...); return nil })
	}},
	{"Start", func(l []any) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, anyNodes(l)...)
			ic.EndAll()
			return nil
		})
	}},
	{"Document head", func(l []any) aitch.Node { return html.Document(nil, append([]any{"h"}, l...), nil) }},
	{"Document body", func(l []any) aitch.Node { return html.Document(nil, nil, l) }},
	{"Text", func(l []any) aitch.Node { return aitch.Text(onlyValues(l)...) }},
	{"Comment", func(l []any) aitch.Node { return aitch.Comment(onlyValues(l)...) }},
	{"Fragment", func(l []any) aitch.Node { return aitch.Fragment(onlyValues(l)...) }},
	{"PI", func(l []any) aitch.Node { return aitch.PI("x", onlyValues(l)...) }},
	{"NewConcatValue", func(l []any) aitch.Node { return aitch.Text(aitch.NewConcatValue(onlyValues(l)...)) }},
	{"Attribute", func(l []any) aitch.Node { return aitch.Element("p", aitch.Attribute("x", onlyValues(l)...)) }},
	{"Class", func(l []any) aitch.Node { return aitch.Element("p", html.Class(onlyValues(l)...)) }},
	{"css property", func(l []any) aitch.Node { return aitch.Element("p", css.Color(onlyValues(l)...)) }},
	{"Style", func(l []any) aitch.Node { return aitch.Element("p", html.Style(onlyValues(l)...)) }},
	{"htmx list", func(l []any) aitch.Node { return aitch.Element("p", htmx.Params(onlyValues(l)...)) }},
	{"htmx vars", func(l []any) aitch.Node { return aitch.Element("p", htmx.Vars(onlyValues(l)...)) }},
}

// onlyValues keeps the plain values and the nils
func onlyValues(l []any) []any {
	var r []any
	for _, a := range l {
		if n, isNode := a.(aitch.Node); !isNode || n == nil {
			r = append(r, a)
		}
	}
	return r
}

func c14Nil(x *X) {
	p := nilPlaces[x.Choose(len(nilPlaces))]
	n := x.Choose(x.Q(5, 6))
	var list, without []any
	desc := p.name
	for i := 0; i < n; i++ {
		switch c := x.Choose(3 + len(nilKinds)); c {
		case 0:
			v := fmt.Sprint("t", i)
			list, without = append(list, v), append(without, v)
			desc += " text"
		case 1:
			v := aitch.Element("e", i)
			list, without = append(list, v), append(without, v)
			desc += " element"
		case 2:
			v := aitch.Attribute("a", i)
			list, without = append(list, v), append(without, v)
			desc += " attribute"
		default:
			k := nilKinds[c-3]
			list = append(list, k.build())
			desc += " " + k.name
		}
	}
	x.Note(func() string { return desc })
	x.Ready()
	env := func() *Env { return &Env{Data: map[string]any{"items": []string{"x", "y"}}} }
	want, err := render(p.build(without), env())
	if err != nil {
		x.Failf("without nil: %v", err)
	}
	node := p.build(list)
	for round := 0; round < 2; round++ {
		got, err := render(node, env())
		if err != nil {
			x.Failf("%v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s", d)
		}
		x.Observe([]byte(got))
	}
}

func init() {
	register(&Prop{
		ID:     "C14",
		Level:  "model_checking",
		Rule:   "A case is a name (or block of names) given to each checked constructor, rejecting by nil and by panic; or a place and a list of contents with nils in it, compared with the same list without them.",
		Assume: []string{"html void elements are those of the HTML standard and param"},
		Suites: []*Suite{
			{Name: "short", Bounds: "all byte strings of up to 2 bytes (thorough 3), also behind a letter", Body: c14Short},
			{Name: "classes", Bounds: "all strings of up to 4 (thorough 5) of 18 pieces", Body: c14Classes},
			{Name: "unicode", Bounds: "every unicode character at the start, in the middle and at the end of a name", Body: c14Unicode},
			{Name: "long", Bounds: "every length up to 300 (thorough 1200), valid or with one invalid character", Body: c14Long},
			{Name: "void", Bounds: "every letter case of every html void element name, and all names one edit away", Body: c14Void},
			{Name: "letters", Bounds: "all names of 2 and 3 letters and the names of the html and svg vocabulary, lower and upper case", Body: c14Letters},
			{Name: "nil", Bounds: "34 places x lists of up to 4 (thorough 5) of 3 ordinary and 6 nil contents", Body: c14Nil},
		},
	})
}
