package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

type c11Value struct {
	v    any
	want string // decoded text
	raw  bool   // given as bytes: not escaped
}

type strStringer string

func (s strStringer) String() string { return "<" + string(s) + ">" }

type intStringer int

func (s intStringer) String() string { return "n" + strconv.Itoa(int(s)) }

type named string
type namedInt int
type namedBytes []byte

// canonFloat is the text of a float: what strconv gives for the shortest representation
func canonFloat(f float64, bits int) string { return strconv.FormatFloat(f, 'g', -1, bits) }

func sameFloat(got string, f float64, bits int) bool {
	want := canonFloat(f, bits)
	if got == want {
		return true
	}
	// another notation of the same shortest digits
	p, err := strconv.ParseFloat(got, bits)
	if err != nil || p != f || math.Signbit(p) != math.Signbit(f) {
		return false
	}
	digits := func(s string) string {
		s, _, _ = strings.Cut(strings.ToLower(s), "e")
		s = strings.NewReplacer("-", "", "+", "", ".", "").Replace(s)
		return strings.Trim(s, "0")
	}
	return len(digits(got)) <= len(digits(want))
}

func c11Values() []c11Value {
	var out []c11Value
	add := func(v any, want string) { out = append(out, c11Value{v: v, want: want}) }
	add(true, "true")
	add(false, "false")
	add("", "")
	add("plain", "plain")
	add(`<&>"'`, `<&>"'`)
	add("a\x00b", "ab")
	add("é\xff\u2028", "é\xff\u2028")
	out = append(out, c11Value{[]byte("raw&amp;"), "raw&", true}, c11Value{[]byte{}, "", true}, c11Value{[]byte(nil), "", true})
	for _, i := range []int64{0, 1, -1, 9, 10, 99, 100, -100, math.MaxInt8, math.MinInt8, math.MaxInt16, math.MinInt16, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
		s := fmt.Sprintf("%d", i)
		add(int(i), s)
		add(i, s)
		if i == int64(int8(i)) {
			add(int8(i), s)
		}
		if i == int64(int16(i)) {
			add(int16(i), s)
		}
		if i == int64(int32(i)) {
			add(int32(i), s)
		}
	}
	for _, u := range []uint64{0, 1, 10, math.MaxUint8, math.MaxUint16, math.MaxUint32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		s := fmt.Sprintf("%d", u)
		add(uint(u), s)
		add(u, s)
		if u == uint64(uint8(u)) {
			add(uint8(u), s)
		}
		if u == uint64(uint16(u)) {
			add(uint16(u), s)
		}
		if u == uint64(uint32(u)) {
			add(uint32(u), s)
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 100, 1e20, 1e21, 123456789, 1e-5, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()} {
		add(f, canonFloat(f, 64))
	}
	for _, f := range []float32{0, 1, 0.1, 16777216, 1e20, 1e21, 3.4e38, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(-1))} {
		add(f, canonFloat(float64(f), 32))
	}
	add(stringer{"<s>"}, "<s>")
	add(&ptrStringer{"p&"}, "p&")
	add(strStringer("x"), "<x>")
	add(intStringer(4), "n4")
	add(time.Duration(1500)*time.Millisecond, "1.5s")
	add(func() any { return "f<" }, "f<")
	add(func() any { return 7 }, "7")
	add(func() any { return nil }, "")
	add(func() any { return func() any { return 2.5 } }, "2.5")
	add(func() any { return stringer{"fs>"} }, "fs>")
	add(func() any { return unsupported{} }, "")
	out = append(out, c11Value{func() any { return []byte("fb") }, "fb", true})
	add(nil, "")
	add(unsupported{1}, "")
	add(&unsupported{1}, "")
	add(map[string]any{"a": 1}, "")
	add([]string{"a"}, "")
	add(complex(1, 2), "")
	add(named("n"), "")
	add(namedInt(1), "")
	add(namedBytes("n"), "")
	add(errApp1, "")
	add((*int)(nil), "")
	add(make(chan int), "")
	add(struct{}{}, "")
	return out
}

// positions: what is rendered around a value; v is what the constructor is given
var c11Positions = []struct {
	name, pre, post string
	build           func(v any) aitch.Node
}{
	{"element content", "<p>", "</p>", func(v any) aitch.Node { return aitch.Element("p", v) }},
	{"element content between", "<p>a", "z</p>", func(v any) aitch.Node { return aitch.NewElement([]byte("p"), "a", v, "z") }},
	{"text", "", "", func(v any) aitch.Node { return aitch.Text(v) }},
	{"text between", "a", "z", func(v any) aitch.Node { return aitch.Text("a", v, "z") }},
	{"attribute", `<p x="`, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", aitch.Attribute("x", v)) }},
	{"attribute between", `<p x="1`, `2"></p>`, func(v any) aitch.Node { return aitch.Element("p", aitch.NewAttribute([]byte("x"), 1, v, 2)) }},
	{"delimited attribute", `<p class="`, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", aitch.DelimitedAttribute("class", " ", v)) }},
	{"delimited attribute merged", `<p class="q `, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", html.Class("q"), html.Class(v)) }},
	{"comment", "<!--", "-->", func(v any) aitch.Node { return aitch.Comment(v) }},
	{"fragment", "", "", func(v any) aitch.Node { return aitch.Fragment(v) }},
	{"processing instruction", "<!X ", ">\n", func(v any) aitch.Node { return aitch.PI("X", v) }},
	{"value in text", "", "", func(v any) aitch.Node { return aitch.Text(aitch.NewValue(v)) }},
	{"concatenated value", `<p x="[`, `]"></p>`, func(v any) aitch.Node {
		return aitch.Element("p", aitch.Attribute("x", aitch.NewConcatValue("[", v, "]")))
	}},
	{"unit", `<p style="width:`, `px"></p>`, func(v any) aitch.Node { return aitch.Element("p", css.Width(css.Px(v))) }},
	{"style", `<p style="color:`, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", css.Color(v)) }},
	{"conditional attribute", `<p x="`, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", aitch.Conditional(always, aitch.Attribute("x", v))) }},
	{"conditional content", "<p>", "</p>", func(v any) aitch.Node { return aitch.Element("p", aitch.Conditional(always, aitch.Text(v))) }},
	{"imperative attribute", `<p x="`, `"></p>`, func(v any) aitch.Node {
		a := aitch.Attribute("x", v)
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, a)
			ic.EndAll()
			return nil
		})
	}},
	{"imperative delimited attribute", `<p class="`, `"></p>`, func(v any) aitch.Node {
		a := html.Class(v)
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, a)
			ic.EndAll()
			return nil
		})
	}},
	{"vocabulary attribute", `<a href="`, `"></a>`, func(v any) aitch.Node { return html.A(html.Href(v)) }},
	{"svg attribute", `<circle r="`, `"></circle>`, func(v any) aitch.Node { return svg.Circle(svg.R(v)) }},
	{"htmx variable", `<p hx-vars="n: `, `"></p>`, func(v any) aitch.Node { return aitch.Element("p", htmx.Vars(htmx.Var("n", v))) }},
	{"htmx header", `<p hx-headers="{'h': `, `}"></p>`, func(v any) aitch.Node { return aitch.Element("p", htmx.Headers(htmx.HeadersMap{"h": v})) }},
	{"document body", "<!DOCTYPE html>\n<html><body>", "</body></html>", func(v any) aitch.Node { return html.Document(nil, nil, []any{v}) }},
}

func always(*context.Context) bool { return true }

// ways to supply a value
var c11Ways = []struct {
	name     string
	wrap     func(v any) any
	wrapNode func(n aitch.Node, v any) aitch.Node
	data     func(v any) map[string]any
	cargo    func(v any) any
}{
	{name: "static", wrap: func(v any) any { return v }},
	{name: "data key", wrap: func(any) any { return dk("key") }, data: func(v any) map[string]any { return map[string]any{"key": v} }},
	{name: "cargo", wrap: func(any) any { return dk(".") }, cargo: func(v any) any { return v }},
	{name: "static function", wrap: func(v any) any { return func() any { return v } }},
	{name: "data function", wrap: func(any) any { return dk("key") }, data: func(v any) map[string]any { return map[string]any{"key": func() any { return v }} }},
	{name: "cargo function", wrap: func(any) any { return dk(".") }, cargo: func(v any) any { return func() any { return v } }},
	{name: "NewValue", wrap: func(v any) any { return aitch.NewValue(v) }},
	{name: "NewConcatValue", wrap: func(v any) any { return aitch.NewConcatValue(v) }},
	{name: "NewValue of key", wrap: func(any) any { return aitch.NewValue(dk("key")) }, data: func(v any) map[string]any { return map[string]any{"key": v} }},
	{name: "nested values", wrap: func(any) any { return aitch.NewConcatValue(aitch.NewValue(aitch.NewConcatValue(dk(".")))) }, cargo: func(v any) any { return v }},
	{name: "text node", wrap: func(v any) any { return aitch.Text(v) }},
	{name: "text node of key", wrap: func(v any) any { return aitch.Text(dk("key")) }, data: func(v any) map[string]any { return map[string]any{"key": v} }},
	{name: "item", wrap: func(any) any { return dk(".") }, wrapNode: func(n aitch.Node, v any) aitch.Node {
		return aitch.Iterate(func(*context.Context) []any { return []any{v} }, n)
	}},
	{name: "key of item", wrap: func(any) any { return dk("key") }, wrapNode: func(n aitch.Node, v any) aitch.Node {
		return aitch.IterateYield(func(_ *context.Context, y func(any)) { y(map[string]any{"key": v}) }, n)
	}},
	{name: "missing key", wrap: func(any) any { return dk("other") }, data: func(v any) map[string]any { return map[string]any{"key": v} }},
	{name: "missing key, no data", wrap: func(any) any { return dk("key") }},
}

func c11Product(x *X) {
	values := c11ValueList
	v := values[x.Choose(len(values))]
	p := c11Positions[x.Choose(len(c11Positions))]
	w := c11Ways[x.Choose(len(c11Ways))]
	x.Note(func() string { return fmt.Sprintf("%T %v as %s, %s", v.v, v.v, p.name, w.name) })
	x.Ready()
	want := esc(v.want)
	if v.raw {
		want = strings.ReplaceAll(v.want, "&", "&amp;")
	}
	if strings.HasPrefix(w.name, "missing") {
		want = ""
	}
	if w.name == "item" || w.name == "key of item" {
		if _, isMap := v.v.(map[string]any); isMap {
			x.Observe(nil)
			return
		}
	}
	n := p.build(w.wrap(v.v))
	if w.wrapNode != nil {
		n = w.wrapNode(n, v.v)
	}
	env := &Env{}
	if w.data != nil {
		env.Data = w.data(v.v)
	}
	if w.cargo != nil {
		env.Cargo = w.cargo(v.v)
	}
	want = p.pre + want + p.post
	for i := 0; i < 2; i++ {
		got, err := render(n, env)
		if err != nil {
			x.Failf("rendering returned an error: %v", err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			if f, isF := v.v.(float64); isF && strings.HasPrefix(got, p.pre) && strings.HasSuffix(got, p.post) && sameFloat(got[len(p.pre):len(got)-len(p.post)], f, 64) {
				continue
			}
			x.Failf("%s", d)
		}
		x.Observe([]byte(got))
	}
}

var c11ValueList = c11Values()

// pairs of values next to each other, in every way each
func c11Pairs(x *X) {
	vals := []c11Value{{v: "a<", want: "a<"}, {v: 12, want: "12"}, {v: nil}, {v: 1.5, want: "1.5"}, {v: true, want: "true"}, {v: []byte("r"), want: "r", raw: true}, {v: unsupported{}}, {v: func() any { return "f" }, want: "f"}}
	kinds := []string{"text", "attribute", "comment", "fragment", "pi", "content", "concat"}
	k := x.Choose(len(kinds))
	n := 2 + x.Choose(x.Q(1, 2))
	var args []any
	data := map[string]any{}
	want := ""
	desc := kinds[k]
	for i := 0; i < n; i++ {
		v := vals[x.Choose(len(vals))]
		want += esc(v.want)
		way := x.Choose(3)
		desc += fmt.Sprintf(" %v/%d", v.v, way)
		key := fmt.Sprint("k", i)
		switch way {
		case 0:
			args = append(args, v.v)
		case 1:
			data[key] = v.v
			args = append(args, dk(key))
		case 2:
			data[key] = v.v
			args = append(args, aitch.NewValue(dk(key)))
		}
	}
	x.Note(func() string { return desc })
	x.Ready()
	var node aitch.Node
	switch kinds[k] {
	case "text":
		node = aitch.Text(args...)
	case "attribute":
		node = aitch.Element("p", aitch.Attribute("x", args...))
		want = `<p x="` + want + `"></p>`
	case "comment":
		node = aitch.Comment(args...)
		want = "<!--" + want + "-->"
	case "fragment":
		node = aitch.Fragment(args...)
	case "pi":
		node = aitch.PI("X", args...)
		want = "<!X " + want + ">\n"
	case "content":
		node = aitch.Element("p", args...)
		want = "<p>" + want + "</p>"
	case "concat":
		node = aitch.Text(aitch.NewConcatValue(args...))
	}
	got, err := render(node, &Env{Data: data})
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if d := stdOpt.Same(got, want); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
}

// c11Numbers renders blocks of numbers, statically and dynamically
func c11Numbers(x *X) {
	kinds := []string{"8 bit", "16 bit", "int powers", "uint powers", "float32 exponents", "float64 exponents"}
	k := x.Choose(len(kinds))
	blocks := []int{1, 16, 64, 64, 256, 2048}[k]
	b := x.Choose(blocks)
	x.Note(func() string { return fmt.Sprintf("%s block %d", kinds[k], b) })
	x.Ready()
	c := newNumChecker(x)
	switch k {
	case 0:
		for i := 0; i < 256; i++ {
			c.check(uint8(i), strconv.Itoa(i))
			c.check(int8(i-128), strconv.Itoa(i-128))
		}
	case 1:
		for i := b * 4096; i < (b+1)*4096; i++ {
			c.check(uint16(i), strconv.Itoa(i))
			c.check(int16(i-32768), strconv.Itoa(i-32768))
			c.check(i-32768, strconv.Itoa(i-32768))
		}
	case 2:
		for d := int64(-70); d <= 70; d++ {
			for _, v := range []int64{int64(1)<<b + d, -(int64(1) << b) + d, pow10(b%19) + d, -pow10(b%19) + d} {
				s := fmt.Sprintf("%d", v)
				c.check(v, s)
				c.check(int(v), s)
				c.check(int32(v), fmt.Sprintf("%d", int32(v)))
			}
		}
	case 3:
		for d := uint64(0); d <= 140; d++ {
			for _, v := range []uint64{uint64(1)<<b + d - 70, uint64(pow10(b%19)) + d - 70} {
				s := fmt.Sprintf("%d", v)
				c.check(v, s)
				c.check(uint(v), s)
				c.check(uint32(v), fmt.Sprintf("%d", uint32(v)))
			}
		}
	case 4:
		for _, sign := range []uint32{0, 1} {
			for m := uint32(0); m < 23; m++ {
				for d := uint32(0); d < 3; d++ {
					c.float32(math.Float32frombits(sign<<31 | uint32(b)<<23 | (uint32(1)<<m+d-1)&0x7fffff))
				}
			}
		}
	case 5:
		for _, sign := range []uint64{0, 1} {
			for m := uint64(0); m < 52; m++ {
				for d := uint64(0); d < 3; d++ {
					c.float64(math.Float64frombits(sign<<63 | uint64(b)<<52 | (uint64(1)<<m+d-1)&0xfffffffffffff))
				}
			}
		}
	}
	x.Count("numbers", c.n)
}

func pow10(n int) int64 {
	v := int64(1)
	for i := 0; i < n; i++ {
		v *= 10
	}
	return v
}

type numChecker struct {
	x   *X
	n   int64
	dyn aitch.Node
	ctx *context.Context
	buf bytes.Buffer
}

func newNumChecker(x *X) *numChecker {
	c := &numChecker{x: x, dyn: aitch.Text(dk("."))}
	c.ctx = context.New(&c.buf, nil, nil)
	return c
}

func (c *numChecker) dynamic(v any) string {
	c.buf.Reset()
	c.ctx.Cargo = v
	if err := c.dyn.Render(c.ctx); err != nil {
		c.x.Failf("%T %v: %v", v, v, err)
	}
	return c.buf.String()
}

func (c *numChecker) check(v any, want string) {
	c.n++
	if got := c.dynamic(v); got != want {
		c.x.Failf("%T %v renders %q as cargo", v, v, got)
	}
	if got, err := render(aitch.Text(v), &Env{}); err != nil || got != want {
		c.x.Failf("%T %v renders %q, %v", v, v, got, err)
	}
	c.x.evals++
	c.x.nontriv = true
}

func (c *numChecker) float64(f float64) {
	c.n++
	a := c.dynamic(f)
	b, _ := render(aitch.Text(f), &Env{})
	if a != b || !sameFloat(a, f, 64) {
		c.x.Failf("float64 %x renders %q as cargo, %q statically", math.Float64bits(f), a, b)
	}
	c.x.evals++
	c.x.nontriv = true
}

func (c *numChecker) float32(f float32) {
	c.n++
	a := c.dynamic(f)
	b, _ := render(aitch.Text(f), &Env{})
	if a != b || !sameFloat(a, float64(f), 32) {
		c.x.Failf("float32 %x renders %q as cargo, %q statically", math.Float32bits(f), a, b)
	}
	c.x.evals++
	c.x.nontriv = true
}

// every float32 and every int32
func c11All32(x *X) {
	b := x.Choose(1 << 12)
	floats := x.Bool()
	x.Note(func() string { return fmt.Sprintf("block %d floats %v", b, floats) })
	x.Ready()
	c := newNumChecker(x)
	for i := uint32(0); i < 1<<20; i++ {
		u := uint32(b)<<20 | i
		c.n++
		if floats {
			f := math.Float32frombits(u)
			if got := c.dynamic(f); !sameFloat(got, float64(f), 32) {
				x.Failf("float32 %x renders %q", u, got)
			}
		} else if got := c.dynamic(int32(u)); got != strconv.FormatInt(int64(int32(u)), 10) {
			x.Failf("int32 %d renders %q", int32(u), got)
		}
	}
	x.evals += 1 << 20
	x.nontriv = true
	x.Count("numbers", c.n)
}

func init() {
	register(&Prop{
		ID:     "C11",
		Level:  "model_checking",
		Rule:   "A case is a value, a position and a way to supply it (or a block of numbers), compared with the canonical text.",
		Assume: []string{"values that are themselves dynamic (keys, dynamic functions, nodes) given as data are not specified and not tried"},
		Suites: []*Suite{
			{Name: "product", Bounds: "about 150 values of every supported and several unsupported types x 24 positions x 16 ways to supply them", Body: c11Product},
			{Name: "adjacent", Bounds: "lists of 2 (thorough 3) of 8 values x 3 ways each in 7 positions", Body: c11Pairs},
			{Name: "numbers", Bounds: "all 8 and 16 bit integers, neighbourhoods of powers of 2 and 10 for 32 and 64 bit integers, floats of every exponent with up to 3 mantissas around each power of two, static and as cargo", Body: c11Numbers},
			{Name: "all-32-bit", Only: "thorough", Bounds: "every float32 and every int32 as cargo", Body: c11All32, MaxCase: 300 * time.Second},
		},
	})
}
