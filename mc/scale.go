package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// The "scale" suites enumerate sizes: every small number, and the neighbourhoods of round and binary ones, with the
// part that differs at every place (of small sizes) or at the ends and in the middle.

var scaleQuick = []int{48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300}
var scaleMore = []int{400, 500, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049}

// size chooses a number up to max (thorough: maxT)
func (x *X) size(max, maxT int) int {
	if x.huge != nil {
		return x.huge[x.Choose(len(x.huge))]
	}
	small := x.Q(40, 140)
	lim := x.Q(max, maxT)
	l := make([]int, 0, 200)
	for i := 0; i <= small && i <= lim; i++ {
		l = append(l, i)
	}
	for _, s := range append(append([]int(nil), scaleQuick...), scaleMore...) {
		if s > small && s <= lim {
			l = append(l, s)
		}
	}
	for _, s := range dictSizes(lim) {
		if s > small {
			l = append(l, s)
		}
	}
	return l[x.Choose(len(l))]
}

// fewer is for what takes a time that is quadratic in the size
func (x *X) fewer(n int, quadratic bool) int {
	if x.huge != nil && quadratic {
		return n/16 + 1
	}
	return n
}

// place chooses one of n+1 places
func (x *X) place(n int) int {
	if n <= x.Q(40, 140) {
		return x.Choose(n + 1)
	}
	l := []int{0, 1, n / 2, n - 1, n}
	if x.huge != nil && x.Thorough() {
		l = []int{0, n / 2, n}
	} else if x.huge != nil {
		l = []int{n}
	}
	return l[x.Choose(len(l))]
}

// checkModel renders a tree and compares it with the model
func checkModel(x *X, o *CmpOpt, top *Node, envs ...*Env) {
	l := &live{conds: append([]bool(nil), envs[0].Conds...)}
	n := top.node(l)
	for round := 0; round < 2; round++ {
		for _, e := range envs {
			copy(l.conds, e.Conds)
			c := *e
			want := top.Model(&c)
			got, err := render(n, e)
			if err != nil {
				x.Failf("rendering returned an error: %v", err)
			}
			if d := o.Same(got, want); d != "" {
				x.Failf("render %d: %s", round+1, d)
			}
			x.Observe([]byte(got))
		}
	}
}

func hold(name string, kids ...*Node) *Node {
	switch name {
	case "element":
		return &Node{K: KEl, Name: "div", Kids: kids}
	case "void":
		return &Node{K: KVoid, Name: "img", Kids: kids}
	case "collection":
		return &Node{K: KColl, Kids: kids}
	case "collect":
		return &Node{K: KCollect, Kids: kids}
	case "conditional":
		return &Node{K: KCond, Cond: 0, Kids: kids}
	case "when":
		return &Node{K: KWhen, Cond: 7, Form: 1, Kids: kids}
	case "imperative":
		return &Node{K: KImp, Kids: kids}
	case "imperative element":
		return &Node{K: KImpEl, Name: "imp", Kids: kids}
	case "custom":
		return &Node{K: KCustom, Kids: kids}
	case "iterate":
		return &Node{K: KIter, Items: []any{"i"}, Kids: kids}
	case "yield":
		return &Node{K: KIter, Form: 2, Items: []any{"i"}, Kids: kids}
	case "document":
		return &Node{K: KDoc, Kids: kids}
	case "collection in element":
		return &Node{K: KEl, Name: "p", Kids: []*Node{{K: KColl, Kids: kids}}}
	case "conditional in element":
		return &Node{K: KEl, Name: "p", Kids: []*Node{{K: KCond, Cond: 0, Kids: kids}}}
	}
	panic(name)
}

var holders = []string{"element", "collection", "collect", "conditional", "when", "imperative", "imperative element", "custom", "iterate", "yield", "document", "void", "collection in element", "conditional in element"}

func scaleKid(kind, i int) *Node {
	s := strconv.Itoa(i)
	switch kind {
	case 0:
		return &Node{K: KEl, Name: "e" + s}
	case 1:
		return &Node{K: KText, Vals: []*Val{vs("<" + s)}}
	case 2:
		return &Node{K: KAttr, Name: "a" + s, Vals: []*Val{vs("v" + s)}}
	case 3:
		return &Node{K: KVoid, Name: "br"}
	case 4:
		return &Node{K: KBool, Name: "b" + s}
	case 5:
		return &Node{K: KNil}
	case 6:
		return &Node{K: KColl, Kids: []*Node{{K: KComment, Vals: []*Val{vs(s)}}, {K: KAttr, Name: "c" + s, Vals: []*Val{vs(s)}}}}
	case 7:
		return &Node{K: KDelim, Name: "class", Vals: []*Val{vs("c" + s), vs("d" + s)}}
	case 8:
		// all kinds in turn
		return scaleKid(i%8, i)
	}
	panic("kid")
}

const scaleKids = 9

func scaleEnv() *Env {
	return &Env{Data: map[string]any{"k": "D<"}, Cargo: "C&", Conds: []bool{true, false}}
}

// c01WideScale: many contents
func c01WideScale(x *X) {
	h := holders[x.Choose(len(holders))]
	kind := x.Choose(scaleKids)
	special := x.Choose(3)
	n := x.fewer(x.size(130, 1025), kind == 7)
	at := x.place(n)
	x.Note(func() string {
		return fmt.Sprintf("%s of %d contents of kind %d, special %d at %d", h, n, kind, special, at)
	})
	x.Ready()
	var kids []*Node
	for i := 0; i <= n; i++ {
		if i == at {
			kids = append(kids, []*Node{{K: KAttr, Name: "special", Vals: []*Val{vkey("k")}}, {K: KEl, Name: "special", Kids: []*Node{{K: KAttr, Name: "id", Vals: []*Val{vkey("k")}}, {K: KText, Vals: []*Val{{K: VCargo}}}}}, {K: KColl}}[special])
		}
		if i < n {
			kids = append(kids, scaleKid(kind, i))
		}
	}
	checkModel(x, ordOpt, hold(h, kids...), scaleEnv())
}

// c01DeepScale: deep nesting of one kind, or of two in turn
func c01DeepScale(x *X) {
	a := holders[x.Choose(10)]
	b := holders[x.Choose(10)]
	n := x.size(130, 513)
	at := x.place(n)
	x.Note(func() string { return fmt.Sprintf("%d levels of %s and %s, special at level %d", n, a, b, at) })
	x.Ready()
	var top *Node = &Node{K: KText, Vals: []*Val{vs("leaf"), vkey("k")}}
	for i := n; i >= 0; i-- {
		h := a
		if i%2 == 1 {
			h = b
		}
		kids := []*Node{top}
		if i == at {
			kids = []*Node{{K: KText, Vals: []*Val{vs("before")}}, {K: KAttr, Name: "id", Vals: []*Val{vkey("k")}}, top, {K: KBool, Name: "flag"}, {K: KText, Vals: []*Val{vs("after")}}}
		}
		top = hold(h, kids...)
		if i == 0 {
			top = &Node{K: KEl, Name: "top", Kids: []*Node{top, {K: KText, Vals: []*Val{vs("end")}}}}
		}
	}
	checkModel(x, ordOpt, top, scaleEnv())
}

// c01NameScale: long names and texts
func c01NameScale(x *X) {
	kind := x.Choose(8)
	n := 1 + x.size(300, 2049)
	x.Note(func() string { return fmt.Sprintf("kind %d length %d", kind, n) })
	x.Ready()
	name := "n" + strings.Repeat("ame-", n/4+1)[:n-1]
	text := strings.Repeat("t<", n)[:n]
	node := []*Node{
		{K: KEl, Name: name, Kids: []*Node{{K: KText, Vals: []*Val{vs("x")}}}},
		{K: KVoid, Form: 2, Name: name},
		{K: KEl, Name: "p", Kids: []*Node{{K: KAttr, Name: name, Vals: []*Val{vs(text)}}, {K: KBool, Name: name + "b"}}},
		{K: KEl, Name: "p", Kids: []*Node{{K: KText, Vals: []*Val{vs(text)}}}},
		{K: KComment, Vals: []*Val{vs(text)}},
		{K: KPI, Name: name, Vals: []*Val{vs(text)}},
		{K: KImpEl, Name: name, Kids: []*Node{{K: KAttr, Name: name, Vals: []*Val{vs(text)}}}},
		{K: KFrag, Vals: []*Val{vraw("<i>" + text + "</i>"), vs(text)}},
	}[kind]
	checkModel(x, ordOpt, node, scaleEnv())
}

var longLens = []int{250, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193}
var longerLens = []int{16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073}

// c02Long: long strings, with something to escape everywhere, or at one place
func c02Long(x *X) {
	c := &c02Channels[x.Choose(len(c02Channels))]
	fill := x.Choose(x.Q(5, 9))
	lens := longLens
	if x.Thorough() {
		lens = append(append([]int(nil), longLens...), longerLens...)
	}
	// every length up to a hundred, too
	li := x.Choose(len(lens) + 3)
	x.Note(func() string { return fmt.Sprintf("%s: filled with %d, length %d", c.name, fill, li) })
	x.Ready()
	pattern := []string{"<", "a&", "\"'>", "é<\U0001F600", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa<", ">", "--", "\x00a", "&amp;\n"}[fill]
	do := func(n int) {
		// whole repetitions, and one blank in front for other alignments
		s := strings.Repeat(pattern, n/len(pattern)+1)
		for len(s) > n {
			s = s[:len(s)-1]
		}
		s = strings.ToValidUTF8(s, "")
		checkChannel(x, c, s)
		checkChannel(x, c, " "+s)
	}
	if li < len(lens) {
		do(lens[li])
		return
	}
	for n := (li - len(lens)) * 40; n < (li-len(lens)+1)*40; n++ {
		do(n)
	}
}

// c02At: one special character in a long string, at every place near powers of two
func c02At(x *X) {
	names := []string{"content <- static", "Text <- key", "Attribute <- static", "html.Class <- key", "Comment <- static", "Imperative WriteString", "Attribute <- cargo", "Fragment <- func() any", "PI <- Stringer", "css.Width <- static", "htmx.Headers key", "Template marker"}
	name := names[x.Choose(len(names))]
	special := []string{"<", ">", "&", `"`, "'", "\x00", "é"}[x.Choose(7)]
	max := x.Q(14, 18)
	e := x.Choose(max)
	x.Note(func() string { return fmt.Sprintf("%s: %q near 2^%d", name, special, e) })
	x.Ready()
	var c *channel
	for i := range c02Channels {
		if c02Channels[i].name == name {
			c = &c02Channels[i]
		}
	}
	if c == nil {
		panic("no channel " + name)
	}
	for d := -2; d <= 2; d++ {
		p := 1<<e + d
		if p < 0 {
			continue
		}
		for _, after := range []int{0, 1, 70} {
			checkChannel(x, c, strings.Repeat("a", p)+special+strings.Repeat("b", after))
		}
		checkChannel(x, c, special+strings.Repeat("a", p)+special+special)
	}
}

// c03Scale: many attributes, some of them declared twice, and many values
func c03Scale(x *X) {
	tag := []string{"element", "void", "imperative element", "collection in element", "conditional in element"}[x.Choose(5)]
	kind := x.Choose(6)
	n := x.fewer(x.size(200, 1025), kind == 3 || kind == 5)
	at := x.place(n)
	x.Note(func() string { return fmt.Sprintf("%s kind %d, %d attributes, %d", tag, kind, n, at) })
	x.Ready()
	var kids []*Node
	attr := func(k Kind, name string, vals ...*Val) { kids = append(kids, &Node{K: k, Name: name, Vals: vals}) }
	s := strconv.Itoa
	switch kind {
	case 0: // names, one of which is declared again at the end
		for i := 0; i <= n; i++ {
			attr(KAttr, "n"+s(i), vs("v"+s(i)))
		}
		attr(KAttr, "n"+s(at), vs("last"))
	case 1: // the same name all the time, boolean at one place
		for i := 0; i <= n; i++ {
			if i == at {
				attr(KBool, "n")
			} else {
				attr(KAttr, "n", vs("v"+s(i)))
			}
		}
	case 2: // one declaration of many values, one of them empty
		var vals []*Val
		for i := 0; i <= n; i++ {
			if i == at {
				vals = append(vals, vkey("missing"))
			} else {
				vals = append(vals, vs("c"+s(i)))
			}
		}
		attr(KDelim, "class", vals...)
		attr(KAttr, "plain", vals...)
	case 3: // many declarations of few values
		for i := 0; i <= n; i++ {
			switch {
			case i == at:
				attr(KDelim, "class", vs(""), vkey("k"), vs("two"))
			default:
				attr(KDelim, "class", vs("c"+s(i)))
			}
			if i%3 == 0 {
				attr(KDelim, "style", vs("a:"+s(i)))
			}
		}
	case 4: // pairs of declarations, apart
		for i := 0; i <= n; i++ {
			attr(KAttr, "n"+s(i), vs("first"))
		}
		for i := n; i >= 0; i-- {
			if i != at {
				attr(KBool, "n"+s(i))
			}
		}
	case 5: // many conditionals around one
		for i := 0; i <= n; i++ {
			c := 0
			if i == at {
				c = 1
			}
			kids = append(kids, &Node{K: KCond, Cond: c, Kids: []*Node{{K: KAttr, Name: "n", Vals: []*Val{vs("v" + s(i))}}, {K: KDelim, Name: "class", Vals: []*Val{vs("c" + s(i))}}}})
		}
		if tag == "imperative element" {
			kids = nil
		}
	}
	e := scaleEnv()
	top := hold(tag, kids...)
	n2 := top.node(&live{conds: e.Conds})
	got, err := render(n2, e)
	if err != nil {
		x.Failf("%v", err)
	}
	noDuplicates(x, got)
	checkModel(x, stdOpt, top, e)
}

// c04Scale: many conditionals beside or within each other, one of them different
func c04Scale(x *X) {
	shape := x.Choose(6)
	when := x.Bool()
	val := x.Bool()
	inner := x.Choose(3)
	n := x.size(130, 513)
	at := x.place(n)
	x.Note(func() string {
		return fmt.Sprintf("shape %d, When %v, %d conditions, %v but %d", shape, when, n, val, at)
	})
	x.Ready()
	cond := func(i int, kids ...*Node) *Node {
		if when {
			return &Node{K: KWhen, Cond: i, Form: i % 2, Kids: kids}
		}
		return &Node{K: KCond, Cond: i, Kids: kids}
	}
	content := func(i int) []*Node {
		l := strconv.Itoa(i)
		switch inner {
		case 0:
			return []*Node{{K: KEl, Name: "c" + l, Kids: []*Node{{K: KText, Vals: []*Val{vs(l)}}}}}
		case 1:
			return []*Node{{K: KAttr, Name: "a" + l, Vals: []*Val{vs(l)}}, {K: KDelim, Name: "class", Vals: []*Val{vs("c" + l)}}, {K: KAttr, Name: "same", Vals: []*Val{vs(l)}}}
		}
		return []*Node{{K: KText, Vals: []*Val{vs(l)}}, {K: KColl, Kids: []*Node{{K: KBool, Name: "b" + l}}}}
	}
	var top *Node
	switch shape {
	case 0: // beside each other
		var kids []*Node
		for i := 0; i <= n; i++ {
			kids = append(kids, cond(i, content(i)...))
		}
		top = &Node{K: KEl, Name: "p", Kids: kids}
	case 1: // within each other
		kid := content(n + 1)
		for i := n; i >= 0; i-- {
			kid = []*Node{cond(i, append(kid, content(i)...)...)}
		}
		top = &Node{K: KEl, Name: "p", Kids: kid}
	case 2: // within collections
		kid := content(n + 1)
		for i := n; i >= 0; i-- {
			kid = []*Node{{K: KColl, Kids: []*Node{cond(i, append(content(i), kid...)...)}}}
		}
		top = &Node{K: KEl, Name: "p", Kids: kid}
	case 3: // within elements
		kid := content(n + 1)
		for i := n; i >= 0; i-- {
			kid = []*Node{{K: KEl, Name: "e", Kids: []*Node{cond(i, append(content(i), kid...)...)}}}
		}
		top = kid[0]
	case 4: // content only
		var kids []*Node
		for i := 0; i <= n; i++ {
			kids = append(kids, cond(i, content(i)...), &Node{K: KText, Vals: []*Val{vs("|")}})
		}
		top = &Node{K: KColl, Kids: kids}
	case 5: // all in one
		var kids []*Node
		for i := 1; i <= n+1; i++ {
			kids = append(kids, cond(i, content(i)...))
		}
		top = &Node{K: KEl, Name: "p", Kids: []*Node{cond(0, kids...)}}
	}
	env := func(v bool, at int) *Env {
		e := &Env{Data: map[string]any{}}
		for i := 0; i <= n+1; i++ {
			h := v != (i == at)
			e.Conds = append(e.Conds, h)
			if h != (i%2 == 1) {
				e.Data["k"+strconv.Itoa(i)] = []any{true, "", 0, nil}[i/2%4]
			} else if i%3 == 0 {
				e.Data["k"+strconv.Itoa(i)] = false
			}
		}
		return e
	}
	checkModel(x, stdOpt, top, env(val, at), env(!val, n-at))
}

// c05Scale: the order of many attributes
func c05Scale(x *X) {
	order := x.Choose(5)
	tag := []string{"element", "void", "imperative element", "collection in element"}[x.Choose(4)]
	n := 1 + x.size(200, 1025)
	conds := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("%d attributes in order %d on %s, %d", n, order, tag, conds) })
	x.Ready()
	var kids []*Node
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - i
		case 2:
			k = (i * 7919) % 10007
		case 3:
			k = i ^ 5
		case 4:
			k = i / 2 // every one twice
		}
		a := &Node{K: []Kind{KAttr, KBool, KDelim}[k%3], Name: "n" + strconv.Itoa(k), Vals: []*Val{vs("v")}}
		switch {
		case tag == "imperative element":
		case conds == 1 && i%2 == 0:
			a = &Node{K: KCond, Cond: 0, Kids: []*Node{a}}
		case conds == 2 && i%3 != 0:
			a = &Node{K: KCond, Cond: i % 2, Kids: []*Node{a}}
		case conds == 3:
			a = &Node{K: KColl, Kids: []*Node{a}}
		}
		kids = append(kids, a)
	}
	checkModel(x, ordOpt, hold(tag, kids...), scaleEnv())
}

// c05HeaderSizes: header maps of every size have sorted keys, whichever way they are put together
func c05HeaderSizes(x *X) {
	n := 1 + x.size(200, 1025)
	maps := 1 + x.Choose(4)
	js := x.Bool()
	x.Note(func() string { return fmt.Sprintf("%d keys in %d maps", n, maps) })
	x.Ready()
	ms := make([]htmx.HeadersMap, maps)
	for i := range ms {
		ms[i] = htmx.HeadersMap{}
	}
	var keys []string
	for i := 0; i < n; i++ {
		k := fmt.Sprint((i*7919)%10007, "k")
		keys = append(keys, k)
		for j := range ms {
			if (i+j)%maps < 2 {
				ms[j][k] = "old"
			}
		}
		last := -1
		for j := range ms {
			if _, ok := ms[j][k]; ok {
				last = j
			}
		}
		ms[last][k] = "v" + k
	}
	sort.Strings(keys)
	var want []string
	for _, k := range keys {
		want = append(want, "'"+k+"': v"+k)
	}
	w := "{" + strings.Join(want, ", ") + "}"
	if js {
		w = "js:" + w
	}
	for r := 0; r < 3; r++ {
		node := c20Node(js, ms)
		for j := 0; j < 2; j++ {
			if got := c20Attr(x, aitch.Element("p", node), &Env{}, "hx-headers"); got != w {
				x.Failf("is %q instead of %q", got, w)
			}
		}
	}
}

// c06Scale: one node used very often
func c06Scale(x *X) {
	kind := x.Choose(8)
	n := x.size(130, 513)
	x.Note(func() string { return fmt.Sprintf("kind %d used %d times", kind, n) })
	x.Ready()
	asts := []*Node{
		{K: KDelim, Name: "class", Vals: []*Val{vs("a"), vkey("k")}},
		{K: KAttr, Name: "id", Vals: []*Val{vs("i"), vkey("k"), {K: VNil}}},
		{K: KBool, Name: "flag"},
		{K: KText, Vals: []*Val{vs("t"), {K: VCargo}}},
		{K: KColl, Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("c")}}, {K: KNil}, {K: KText, Vals: []*Val{vkey("k")}}}},
		{K: KCond, Cond: 0, Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("c"), vkey("k")}}, {K: KText, Vals: []*Val{vs("t")}}}},
		{K: KEl, Name: "q", Kids: []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("q")}}}},
		{K: KIter, Items: []any{1, map[string]any{"k": 2}}, Kids: []*Node{{K: KText, Vals: []*Val{vkey("k")}}}},
	}
	l := &live{conds: []bool{true, false}}
	shared := poolEntry{asts[kind], asts[kind].node(l)}
	pool := []poolEntry{shared}
	for i := 0; i < n; i++ {
		ast := &Node{K: []Kind{KEl, KColl, KCond, KEl, KImpEl}[i%5], Name: "e" + strconv.Itoa(i), Cond: i % 2}
		own := &Node{K: KDelim, Name: "class", Vals: []*Val{vs("own" + strconv.Itoa(i))}}
		ast.Kids = []*Node{asts[kind], own}
		kids := []aitch.Node{shared.node, own.node(l)}
		if i > 0 && i%3 == 0 {
			// and one made before
			ast.Kids = append(ast.Kids, pool[len(pool)-1].ast)
			kids = append(kids, pool[len(pool)-1].node)
			if len(pool)%8 == 7 {
				// nothing becomes too deep
				ast.Kids, kids = ast.Kids[:2], kids[:2]
			}
		}
		pool = append(pool, poolEntry{ast, ast.assemble(l, kids)})
	}
	checkPool(x, pool, l, "after the constructions")
	checkPool(x, pool[:1], l, "after everything was rendered")
}

// c08Large: large pieces of output, and many
func c08Large(x *X) {
	kind := x.Choose(12)
	lens := []int{1, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131073}
	n := lens[x.Choose(len(lens))]
	x.Note(func() string { return fmt.Sprintf("kind %d of %d bytes", kind, n) })
	x.Ready()
	long := strings.Repeat("x<", n)[:n]
	env := &Env{Data: map[string]any{"k": long}, Cargo: long}
	var node aitch.Node
	switch kind {
	case 0:
		node = aitch.Element("p", long, "after")
	case 1:
		node = aitch.Element("p", []byte(long), "after", aitch.Attribute("id", dk("k")))
	case 2:
		node = aitch.Text("before", dk("k"), dk("."))
	case 3:
		node = aitch.Comment(long, dk("k"))
	case 4:
		node = aitch.Element("p", html.Class(dk("k"), long, "c"), "t")
	case 5:
		node = aitch.Fragment([]byte(long), dk("k"))
	case 6:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, aitch.Attribute("a", dk("k")))
			ic.WriteString(long)
			ic.WriteRaw([]byte(long))
			ic.EndAll()
			ic.WriteString("after")
			return nil
		})
	case 7:
		node = aitch.PI("x", long, dk("."))
	case 8:
		node = aitch.Iterate(func(*context.Context) []any { return []any{long, "b"} }, aitch.Text(dk(".")))
	case 9:
		node = aitch.Element("p", aitch.Conditional(always, aitch.Attribute("a", dk("k")), aitch.Text(long)), "after")
	case 10:
		t := aitch.MustNewTemplate("t", "before{{n .}}"+strings.ReplaceAll(long, "<", "-")+"{{n .}}", aitch.NodeMap{"n": aitch.Element("b", dk("k"), "z")})
		checkFaults(x, func(w *faultWriter) error { return t.Execute(w, env.Data, env.Cargo) })
		return
	case 11:
		d := "<p title=\"" + strings.ReplaceAll(long, "<", "-") + "\">" + strings.ReplaceAll(long, "<", "-") + "</p>after"
		checkFaults(x, func(w *faultWriter) error { return html.GenerateCode(strings.NewReader(d), w) })
		return
	}
	checkFaults(x, renderFault(node, env))
}

// c08Many: failures late in long output
func c08Many(x *X) {
	h := holders[x.Choose(len(holders))]
	kind := x.Choose(scaleKids)
	n := x.size(20, 130)
	x.Note(func() string { return fmt.Sprintf("%s of %d contents of kind %d", h, n, kind) })
	x.Ready()
	var kids []*Node
	for i := 0; i < n; i++ {
		kids = append(kids, scaleKid(kind, i))
	}
	top := &Node{K: KColl, Kids: []*Node{hold(h, kids...), {K: KText, Vals: []*Val{vs("end")}}}}
	env := scaleEnv()
	checkFaults(x, renderFault(top.node(&live{conds: env.Conds}), env))
}

// c09Scale: an error at one of many places, or deep within
func c09Scale(x *X) {
	h := holders[x.Choose(12)]
	deep := x.Bool()
	n := x.size(65, 257)
	at := x.place(n)
	two := x.Bool()
	forms := []int{0, 1, 2, 3, 4, 12, 13, 14, 15}
	form := forms[x.Choose(len(forms))]
	x.Note(func() string {
		return fmt.Sprintf("%s of size %d (deep %v), failing with form %d at %d, again %v", h, n, deep, form, at, two)
	})
	x.Ready()
	fail := func(e error) *Node { return &Node{K: KFail, Form: form, Err: e} }
	var top *Node
	if deep {
		top = &Node{K: KText, Vals: []*Val{vs("leaf")}}
		for i := n; i >= 0; i-- {
			kids := []*Node{{K: KText, Vals: []*Val{vs("a")}}, top, {K: KText, Vals: []*Val{vs("z")}}}
			if i == at {
				kids = []*Node{kids[0], fail(errApp1), kids[1], kids[2]}
				if two {
					kids = append(kids, fail(errApp2))
				}
			}
			top = hold(h, kids...)
		}
	} else {
		var kids []*Node
		for i := 0; i <= n; i++ {
			if i == at {
				kids = append(kids, fail(errApp1))
			}
			if two && i > at {
				kids = append(kids, fail(errApp2))
			}
			kids = append(kids, &Node{K: KEl, Name: "e" + strconv.Itoa(i), Kids: []*Node{{K: KText, Vals: []*Val{vkey("k")}}}})
		}
		top = hold(h, kids...)
	}
	top = &Node{K: KColl, Kids: []*Node{top, {K: KText, Vals: []*Val{vs("after everything")}}}}
	checkErrors(x, top, scaleEnv)
}

// c10Scale: many items, deep iterations
func c10Scale(x *X) {
	form := x.Choose(3)
	kind := x.Choose(6)
	n := x.size(200, 1025)
	at := x.place(n)
	x.Note(func() string { return fmt.Sprintf("%d items of kind %d, form %d, special at %d", n, kind, form, at) })
	x.Ready()
	e := &Env{Data: map[string]any{"k": "D<", "shared": "S"}, Cargo: "outer", Conds: []bool{true, false}}
	body := []*Node{{K: KEl, Name: "li", Kids: []*Node{{K: KAttr, Name: "id", Vals: []*Val{vkey("k")}}, {K: KText, Vals: []*Val{{K: VCargo}, vs("/"), vkey("shared"), vs("/"), {K: VParent, S: "k"}}}}}, {K: KMutate}}
	item := func(i int) any {
		switch kind {
		case 0:
			return i
		case 1:
			return "s<" + strconv.Itoa(i)
		case 2:
			return map[string]any{"k": i, "shared": "item"}
		case 3:
			return nil
		case 4:
			return []any{i, "s", map[string]any{"k": i}, nil, []byte("raw"), 1.5, true, map[string]any{}}[i%8]
		}
		return map[string]any{"k": "same"}
	}
	var items []any
	for i := 0; i <= n; i++ {
		it := item(i)
		if i == at {
			it = map[string]any{"k": "special", "x": i}
		}
		items = append(items, it)
	}
	it := &Node{K: KIter, Form: form, Kids: body, Items: items}
	if form == 1 {
		it.Name = "list"
		e.Data["list"] = items
	}
	checkModel(x, stdOpt, &Node{K: KEl, Name: "ul", Kids: []*Node{it, {K: KText, Vals: []*Val{{K: VCargo}, vkey("k"), vkey("x")}}}}, e)
}

// c10Deep: iterations within iterations, each of which sees its parent
func c10Deep(x *X) {
	n := 1 + x.size(65, 300)
	kind := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("%d levels, kind %d", n, kind) })
	x.Ready()
	top := &Node{K: KText, Vals: []*Val{{K: VCargo}, {K: VParent, S: "k"}}}
	for i := n; i > 0; i-- {
		var items []any
		switch {
		case kind == 0 || kind == 3 && i%2 == 0:
			items = []any{"c" + strconv.Itoa(i)}
		default:
			items = []any{map[string]any{"k": i}}
		}
		form := 0
		if kind >= 2 && i%3 == 0 {
			form = 2
		}
		if i == n/2 || i == n {
			items = append(items, "second")
		}
		top = &Node{K: KIter, Form: form, Items: items, Kids: []*Node{{K: KText, Vals: []*Val{vs("("), vkey("k"), {K: VParent, S: "k"}}}, top, {K: KText, Vals: []*Val{vkey("k"), {K: VCargo}, vs(")")}}}}
	}
	checkModel(x, stdOpt, top, scaleEnv())
}

// c10Slices: slices of every type and size, by key
func c10Slices(x *X) {
	n := x.size(300, 1025)
	kind := x.Choose(8)
	x.Note(func() string { return fmt.Sprintf("%d items of type %d", n, kind) })
	x.Ready()
	var list any
	var want strings.Builder
	add := func(s string) { want.WriteString("<li>" + s + "</li>") }
	ints, strs, floats, maps, bytess, bools, anys, u8 := make([]int, 0), []string{}, []float64{}, []map[string]any{}, [][]byte{}, []bool{}, []any{}, []int64{}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		switch kind {
		case 0:
			ints = append(ints, i)
			list = ints
			add(s)
		case 1:
			strs = append(strs, "<"+s)
			list = strs
			add("&lt;" + s)
		case 2:
			floats = append(floats, float64(i)+.5)
			list = floats
			add(s + ".5")
		case 3:
			maps = append(maps, map[string]any{"v": i})
			list = maps
			add("m" + s)
		case 4:
			bytess = append(bytess, []byte("<"+s+">"))
			list = bytess
			add("<" + s + ">")
		case 5:
			bools = append(bools, i%3 == 0)
			list = bools
			add(strconv.FormatBool(i%3 == 0))
		case 6:
			anys = append(anys, i, s)
			list = anys
			add(s)
			add(s)
		case 7:
			u8 = append(u8, int64(i))
			list = u8
			add(s)
		}
	}
	v := any(dk("."))
	if kind == 3 {
		v = aitch.NewConcatValue("m", dk("v"))
	}
	node := aitch.Element("ul", aitch.IterateKey("list", aitch.Element("li", v)), dk("list"))
	for r := 0; r < 2; r++ {
		got, err := render(node, &Env{Data: map[string]any{"list": list}})
		c19Same(x, "rendered", got, err, "<ul>"+want.String()+"</ul>")
	}
}

// c11Scale: many values in one place, deep values
func c11Scale(x *X) {
	shape := x.Choose(9)
	n := x.size(200, 1025)
	at := x.place(n)
	way := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("shape %d, %d values, special at %d, way %d", shape, n, at, way) })
	x.Ready()
	var vals []*Val
	for i := 0; i <= n; i++ {
		l := strconv.Itoa(i)
		v := []*Val{vs("s" + l), {K: VInt, I: int64(i)}, {K: VStringer, S: "<" + l}, {K: VFloat, F: float64(i) + 0.5}, {K: VBool, I: int64(i & 1)}, vkey("k"), {K: VNil}, vraw(";"), {K: VValue, Sub: []*Val{vs("v" + l)}}, {K: VFunc, S: "f" + l}}[i%10]
		if way == 1 {
			v = vkey("k")
		}
		if way == 2 {
			v = vs(l + ",")
		}
		if i == at {
			v = &Val{K: VCargo}
		}
		vals = append(vals, v)
	}
	deep := func(k VKind) *Val {
		v := vals[at]
		for i := 0; i < n; i++ {
			if k == VConcat {
				v = &Val{K: k, Sub: []*Val{vs("("), v, {K: VNil}, vs(")")}}
			} else {
				v = &Val{K: k, Sub: []*Val{v}}
			}
		}
		return v
	}
	var node *Node
	switch shape {
	case 0:
		node = &Node{K: KText, Vals: vals}
	case 1:
		node = &Node{K: KEl, Name: "p", Kids: []*Node{{K: KAttr, Name: "a", Vals: vals}, {K: KText, Vals: []*Val{{K: VConcat, Sub: vals}}}}}
	case 2:
		node = &Node{K: KComment, Vals: vals}
	case 3:
		node = &Node{K: KEl, Name: "p", Kids: []*Node{{K: KDelim, Name: "dl", Vals: vals}}}
	case 4:
		node = &Node{K: KFrag, Vals: vals}
	case 5:
		node = &Node{K: KText, Vals: []*Val{deep(VConcat)}}
	case 6:
		node = &Node{K: KEl, Name: "p", Kids: []*Node{{K: KAttr, Name: "a", Vals: []*Val{deep(VValue)}}, {K: KText, Vals: []*Val{deep(VTextNode)}}}}
	case 7:
		v := deep(VAnyFunc)
		if vals[at].K != VStr {
			// only static values are given by functions
			f := vs("x")
			for i := 0; i < n; i++ {
				f = &Val{K: VAnyFunc, Sub: []*Val{f}}
			}
			v = f
		}
		node = &Node{K: KEl, Name: "p", Kids: []*Node{{K: KText, Vals: []*Val{v}}, {K: KDelim, Name: "class", Vals: []*Val{v}}}}
	case 8:
		var kids []*Node
		for _, v := range vals {
			kids = append(kids, &Node{K: KRaw, Vals: []*Val{v}})
		}
		node = &Node{K: KEl, Name: "p", Kids: kids}
	}
	checkModel(x, stdOpt, node, scaleEnv())
}

// c12Scale: long runs of operations
func c12Scale(x *X) {
	ops := impOpList
	a, b := x.Choose(len(ops)), x.Choose(len(ops))
	n := x.size(65, 257)
	m := 1
	if x.huge == nil || x.Thorough() {
		m = []int{0, 1, 2, n / 2, n, n + 1}[x.Choose(6)]
	}
	x.Note(func() string { return fmt.Sprintf("%d x %s, %d x %s, and again", n, ops[a].name, m, ops[b].name) })
	x.Ready()
	var seq []int
	for i := 0; i < n; i++ {
		seq = append(seq, a)
	}
	for i := 0; i < m; i++ {
		seq = append(seq, b)
	}
	seq = append(seq, 0, a, 5, 2, b, 5)
	c12Check(x, impNode(ops, seq), denote(ops, seq))
}

// c12Nests: imperative nodes within imperative nodes, each with elements open
func c12Nests(x *X) {
	n := x.size(65, 257)
	opens := x.Choose(4)
	ends := x.Choose(4)
	way := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("%d levels with %d starts, %d ends, way %d", n, opens, ends, way) })
	x.Ready()
	want := "leaf"
	node := aitch.Text("leaf")
	for i := n; i >= 0; i-- {
		name := "l" + strconv.Itoa(i)
		var w strings.Builder
		var open []string
		for j := 0; j < opens; j++ {
			w.WriteString("<" + name + ">")
			open = append(open, name)
		}
		w.WriteString(want)
		for j := 0; j < ends; j++ {
			denoteEnd(&w, &open)
		}
		if way == 0 {
			denoteEndAll(&w, &open)
		}
		want = w.String()
		inner := node
		if way == 2 {
			inner = aitch.Collection(aitch.Conditional(always, node))
		}
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			for j := 0; j < opens; j++ {
				ic.Start([]byte(name), false)
			}
			ic.WriteNodes(inner)
			for j := 0; j < ends; j++ {
				ic.End()
			}
			if way == 0 {
				ic.EndAll()
			}
			return nil
		})
	}
	c12Check(x, node, want)
}

// c13Scale: templates with many markers, and many nodes
func c13Scale(x *X) {
	kind := x.Choose(5)
	n := x.size(130, 513)
	at := x.place(n)
	fail := x.Bool()
	x.Note(func() string { return fmt.Sprintf("kind %d, %d markers, special at %d, failing %v", kind, n, at, fail) })
	x.Ready()
	var segs []tseg
	mark := func(src string, n *tmplNode) tseg {
		return tseg{src, func(r *trun) { r.marker(n) }}
	}
	el, txt, attr, iter := tmplNodeList[0], tmplNodeList[1], tmplNodeList[6], tmplNodeList[3]
	name := func(i int) string { return "n" + strconv.Itoa(i) }
	nm := aitch.NodeMap{}
	for i := 0; i <= n; i++ {
		l := strconv.Itoa(i)
		lit := func(s string) tseg { return tseg{s, func(r *trun) { r.write(s) }} }
		switch kind {
		case 0: // the same marker
			segs = append(segs, lit("<i>"+l+"</i>"), mark("{{el $}}", el))
		case 1: // many nodes
			node := []*tmplNode{el, txt, iter}[i%3]
			nm[name(i)] = node.node
			segs = append(segs, mark("{{"+name(i)+" $}}", node))
		case 2: // in tags
			segs = append(segs, lit("<q"), mark(" {{attr $}}", attr), lit(">"+l+"</q>"))
		case 3: // nested conditions
			segs = append(segs, lit(l), tseg{"{{if $.Data.c}}", func(*trun) {}}, mark("{{txt $}}", txt))
		case 4: // definitions
			segs = append(segs, tseg{`{{template "d` + strconv.Itoa(i%7) + `" $}}`, func(r *trun) { r.write("d" + strconv.Itoa(i%7)); r.marker(txt) }})
		}
		if i == at {
			segs = append(segs, lit("<b>special</b>"), mark("{{iter $}}", iter))
		}
	}
	if kind == 3 {
		segs = append(segs, tseg{strings.Repeat("{{end}}", n+1), func(*trun) {}})
	}
	if kind == 4 {
		for i := 0; i < 7; i++ {
			d := strconv.Itoa(i)
			segs = append(segs, tseg{`{{define "d` + d + `"}}d` + d + "{{txt $}}{{end}}", func(*trun) {}})
		}
	}
	for _, tn := range tmplNodeList {
		nm[tn.name] = tn.node
	}
	src, run := join(segs)
	t, err := aitch.NewTemplate("t", src, nm)
	if err != nil {
		x.Failf("not parsed: %v", err)
	}
	envs := []*tmplEnv{{cond: true, k: "K<", cargo: "C&"}, {cond: true, k: "", cargo: 1}}
	if fail {
		which := []string{"el", "txt", "attr", "txt", "txt"}[kind]
		from := at
		if kind == 1 {
			from = at / 3
		}
		envs = append(envs, &tmplEnv{cond: true, k: "K", fail: which, from: from}, &tmplEnv{cond: true, k: "K", fail: "iter"}, envs[0])
	}
	for i, e := range envs {
		c13Run(x, t, run, e, fmt.Sprintf("execution %d", i))
	}
}

// c14Lengths: names of every length with one character that is allowed or not
func c14Lengths(x *X) {
	n := x.size(300, 1025)
	at := x.place(n)
	c := []string{"a", "Z", "0", "_", "-", ".", ":", " ", "<", "é", "\x00", "\n", "/", "\u017f", "@"}[x.Choose(15)]
	x.Note(func() string { return fmt.Sprintf("length %d, %q at %d", n, c, at) })
	x.Ready()
	name := strings.Repeat("x", at) + c + strings.Repeat("y", n-at)
	checkName(x, name)
	x.Observe([]byte(name))
}

// c18Many gives many arguments to every function
func c18Many(x *X) {
	v := c18Fns[x.Choose(len(c18Fns))]
	n := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 256, 257}[x.Choose(x.Q(12, 16))]
	way := x.Choose(3)
	if v.kind == "b" {
		x.Ready()
		return
	}
	isElement := v.kind == "e" || v.kind == "v"
	x.Note(func() string { return fmt.Sprintf("%s with %d arguments, way %d", v, n, way) })
	x.Ready()
	args := func() (l []any) {
		if v.prefix {
			l = append(l, "name")
		}
		for i := 0; i < n; i++ {
			k := i
			switch way {
			case 1:
				k = 0
			case 2:
				k = n - i
			}
			if isElement {
				l = append(l, c18Contents[k%len(c18Contents)].build())
			} else {
				l = append(l, c18Values[k%len(c18Values)].build())
			}
		}
		return
	}
	a, b := v.call(args()...), v.generic(args()...)
	if v.kind == "u" {
		c18Compare(x, aitch.Element("p", aitch.Attribute("x", a), aitch.Text(a)), aitch.Element("p", aitch.Attribute("x", b), aitch.Text(b)))
		return
	}
	an, bn := a.(aitch.Node), b.(aitch.Node)
	c18Compare(x, aitch.Collection(an), aitch.Collection(bn))
	c18Compare(x, aitch.Element("p", an, "t", an), aitch.Element("p", bn, "t", bn))
}

// c19Scale: many declarations on one element
func c19Scale(x *X) {
	holder := c19Holders[x.Choose(len(c19Holders))]
	n := 1 + x.size(130, 513)
	way := x.Choose(6)
	x.Note(func() string { return fmt.Sprintf("%d declarations in %s, way %d", n, holder.name, way) })
	x.Ready()
	var s c19Seq
	for i := 0; i < n; i++ {
		k := i
		switch way {
		case 1:
			k = n - i
		case 2:
			k = 2
		case 3:
			k = i * i
		case 4:
			k = []int{4, 12}[i%2]
		case 5:
			k = []int{13, 14, 7}[i%3]
		}
		s = append(s, k%len(c19Items))
	}
	nodes := map[int]any{}
	var contents []any
	for _, i := range s {
		if nodes[i] == nil {
			nodes[i] = c19Items[i].build()
		}
		contents = append(contents, nodes[i])
	}
	el := holder.build(contents)
	for r := 0; r < 2; r++ {
		for _, e := range c19Envs {
			got, err := render(el, e)
			c19Same(x, "rendered", got, err, holder.want(s, e))
		}
	}
}

// c20Scale: many variables, triggers and maps
func c20Scale(x *X) {
	kind := x.Choose(5)
	n := 1 + x.fewer(x.size(130, 513), kind == 1)
	at := x.place(n - 1)
	x.Note(func() string { return fmt.Sprintf("kind %d, %d entries, special at %d", kind, n, at) })
	x.Ready()
	e := c20Envs[0]
	var args []any
	var want []string
	var nodes []any
	maps := []htmx.HeadersMap{}
	for i := 0; i < n; i++ {
		l := strconv.Itoa(i)
		switch kind {
		case 0, 1:
			v := any("v<" + l)
			w := "n" + l + ": v<" + l
			if i == at {
				v, w = dk("k"), "n"+l+": D'&\"x"
			}
			want = append(want, w)
			if kind == 0 {
				args = append(args, htmx.Var("n"+l, v))
			} else {
				nodes = append(nodes, htmx.Vars(htmx.Var("n"+l, v)))
			}
		case 2:
			w := "t" + l
			if i == at {
				args = append(args, dk("none"))
			} else {
				args = append(args, w)
				want = append(want, w)
			}
		case 3: // many maps, each replaces one entry of those before
			maps = append(maps, htmx.HeadersMap{"last": i, "k" + strconv.Itoa(i%5): "v" + l})
		case 4: // a wrong argument among maps
			if i == at {
				args = append(args, "wrong")
			} else {
				args = append(args, htmx.HeadersMap{"k": 1})
			}
		}
	}
	check := func(n aitch.Node, attr, want string) {
		for r := 0; r < 2; r++ {
			if got := c20Attr(x, n, e, attr); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
	}
	switch kind {
	case 0:
		check(aitch.Element("p", htmx.Vars(args...)), "hx-vars", strings.Join(want, ", "))
	case 1:
		check(aitch.Element("p", nodes...), "hx-vars", strings.Join(want, ", "))
	case 2:
		got := c20Attr(x, aitch.Element("p", htmx.Trigger(args...)), e, "hx-trigger")
		if g := strings.Join(strings.Fields(got), " "); g != strings.Join(want, " ") {
			x.Failf("is %q", got)
		}
	case 3:
		var l []string
		for k := 0; k < 5 && k < n; k++ {
			i := (n-1-k)/5*5 + k
			l = append(l, fmt.Sprintf("'k%d': v%d", k, i))
		}
		l = append(l, fmt.Sprintf("'last': %d", n-1))
		for _, js := range []bool{false, true} {
			w := "{" + strings.Join(l, ", ") + "}"
			if js {
				w = "js:" + w
			}
			check(aitch.Element("p", c20Node(js, maps)), "hx-headers", w)
		}
	case 4:
		if n < 2 {
			return
		}
		panicked := func() (p any) {
			defer func() { p = recover() }()
			htmx.Headers(args...)
			return nil
		}()
		if panicked == nil {
			x.Failf("no panic")
		}
		x.Observe([]byte(fmt.Sprint(n)))
	}
}

// genBuffers: inputs with something special around the sizes of the buffers of parsers
func genBuffers(x *X, o *genOpt, gen func(in string) (string, error)) {
	special := []string{"<b>x</b>", "&lt;", "\"", "\\", "é", "<!--c-->", "<path/>", "\n", "😀", "<i a=\"'\">y</i>", "&amp;lt;", "</g><g>", "<unknown>u</unknown>"}[x.Choose(13)]
	where := x.Choose(3)
	lens := []int{1, 100, 250, 511, 1000, 1022, 2040, 4080, 4085, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8180, 8187, 8188, 8189, 8190, 8191, 8192}
	n := lens[x.Choose(len(lens))]
	x.Note(func() string { return fmt.Sprintf("%q at %d, %d", special, n, where) })
	x.Ready()
	pad := strings.Repeat("x", n)
	var in string
	switch where {
	case 0:
		in = pad + special + "z"
		in = "<g>" + in + "</g>"
	case 1:
		if strings.Contains(special, `"`) {
			special = "'"
		}
		in = "<g title=\"" + pad + special + "\">" + special + "</g>"
		if strings.HasPrefix(special, "</") {
			in = "<g title=\"" + pad + special + "\">z</g>"
		}
	case 2:
		in = "<!--" + pad + "--><g>" + special + "</g>" + pad + "<g>" + special + "</g>"
	}
	o.roundTrip(x, gen, in)
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id] // registered by the files before this one
		s := &Suite{Name: name, Bounds: bounds, Body: body}
		switch id {
		case "C16", "C17", "C18", "C19":
			s.Setup = p.Suites[0].Setup
		}
		p.Suites = append(p.Suites, s)
	}
	sizes := "sizes 0 to 40 and around round and binary numbers up to %d (thorough 0 to 140 and up to %d)"
	sz := func(a, b int) string { return fmt.Sprintf(sizes, a, b) }
	add("C01", "scale", "14 containers x 9 kinds of contents x "+sz(130, 1025)+", with one of 3 different contents at every place", c01WideScale)
	add("C01", "scale-deep", "all pairs of 10 containers nested in turn, "+sz(130, 513)+", with attributes and texts at every level", c01DeepScale)
	add("C01", "scale-lengths", "8 forms with names and texts of "+sz(300, 2049), c01NameScale)
	add("C02", "long", "all channels x 5 (thorough 9) repeated patterns x lengths 0 to 119 and around powers of two up to 8192 (thorough 131072), at 2 alignments", c02Long)
	add("C02", "single", "12 channels x 7 special characters at each place within 2 of the powers of two up to 2^13 (thorough 2^17)", c02At)
	add("C03", "scale", "5 kinds of tag x 6 shapes of "+sz(200, 1025)+" attributes, with the different one at every place", c03Scale)
	add("C04", "scale", "6 shapes of conditions x 3 contents, functions or keys, "+sz(130, 513)+", with the different condition at every place", c04Scale)
	add("C05", "scale", "5 orders of attributes on 4 kinds of tag, 4 ways of conditions, "+sz(200, 1025), c05Scale)
	add("C05", "header-sizes", "header maps of "+sz(200, 1025)+" keys in up to 4 maps", c05HeaderSizes)
	add("C06", "scale", "8 nodes used in other nodes, "+sz(130, 513)+" times", c06Scale)
	add("C08", "large", "12 forms of output with pieces of 27 sizes up to 131073 bytes x every write x 5 kinds of failure", c08Large)
	add("C08", "many", "14 containers of 9 kinds of contents, "+sz(20, 130)+" x every write x 5 kinds of failure", c08Many)
	add("C09", "scale", "12 containers nested or with contents, "+sz(65, 257)+", failing in 9 ways at every place, once or twice", c09Scale)
	add("C10", "scale", "3 iterators x 6 kinds of items, "+sz(200, 1025)+", with a map item at every place", c10Scale)
	add("C10", "deep", "4 kinds of nested iterations, "+sz(65, 300)+" levels", c10Deep)
	add("C10", "slices", "8 types of slices of "+sz(300, 1025)+" items by key", c10Slices)
	add("C11", "scale", "9 shapes of "+sz(200, 1025)+" values, static, dynamic or mixed, with the different one at every place", c11Scale)
	add("C12", "scale", "all pairs of 12 operations repeated, "+sz(65, 257)+" and fewer, as many or more times", c12Scale)
	add("C12", "levels", "imperative nodes within imperative nodes, "+sz(65, 257)+" levels with up to 3 starts and ends each", c12Nests)
	add("C13", "scale", "5 kinds of templates with "+sz(130, 513)+" markers and another one at every place, and each of them failing", c13Scale)
	add("C14", "lengths", "names of "+sz(300, 1025)+" characters with one of 15 at every place", c14Lengths)
	add("C16", "buffers", "13 special contents x 25 places around sizes of buffers x 3 positions", func(x *X) { genBuffers(x, c16Opt, c16Gen) })
	add("C17", "buffers", "13 special contents x 25 places around sizes of buffers x 3 positions", func(x *X) { genBuffers(x, c17Opt, c17Gen) })
	add("C18", "many", "every function with 12 (thorough 16) numbers of arguments from 4 to 65 (257) in 3 orders", c18Many)
	add("C19", "scale", "7 kinds of elements with "+sz(130, 513)+" declarations in 6 orders", c19Scale)
	add("C20", "scale", "variables, triggers and maps, "+sz(130, 513)+", with the different one at every place", c20Scale)
}
