package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// Suites in which the parts of a template are the same object, or are related by what they say.

// sharedNodes are the descriptions that shared nodes are drawn from
func sharedNodes(which string) []*Node {
	attrs := []*Node{
		{K: KAttr, Name: "n", Vals: []*Val{vs("1"), vkey("k")}},
		{K: KAttr, Name: "n", Form: 1, Vals: []*Val{vs("2")}},
		{K: KDelim, Name: "class", Vals: []*Val{vs("a"), vkey("k")}},
		{K: KDelim, Name: "class", Form: 1, Vals: []*Val{vs("a")}},
		{K: KBool, Name: "m"},
	}
	contents := []*Node{
		{K: KText, Vals: []*Val{vs("t"), vkey("k"), {K: VCargo}}},
		elNode("e", attrs[0], attrs[2], textNode("in")),
		{K: KVoid, Name: "br", Kids: []*Node{attrs[2]}},
		{K: KComment, Vals: []*Val{vkey("k")}},
	}
	switch which {
	case "attributes":
		return attrs
	case "contents":
		return contents
	case "both":
		return []*Node{attrs[0], attrs[2], attrs[3], contents[0], contents[1]}
	case "order":
		return []*Node{attrs[0], attrs[2], attrs[4], {K: KAttr, Name: "z", Vals: []*Val{vkey("k")}}}
	}
	panic(which)
}

// sharedWraps put a shared node somewhere
var sharedWraps = []func(n *Node) *Node{
	func(n *Node) *Node { return n },
	func(n *Node) *Node { return &Node{K: KColl, Kids: []*Node{n}} },
	func(n *Node) *Node { return &Node{K: KCond, Cond: 0, Kids: []*Node{n}} },
	func(n *Node) *Node { return &Node{K: KCond, Cond: 1, Kids: []*Node{n}} },
	func(n *Node) *Node { return &Node{K: KColl, Kids: []*Node{n, n}} },
	func(n *Node) *Node { return elNode("w", n) },
	func(n *Node) *Node {
		return &Node{K: KIter, Items: []any{"i", map[string]any{"k": "item"}}, Kids: []*Node{n}}
	},
	func(n *Node) *Node { return &Node{K: KImpEl, Name: "i", Kids: []*Node{n}} },
	func(n *Node) *Node { return &Node{K: KCollect, Kids: []*Node{n, n}} },
	func(n *Node) *Node { return &Node{K: KCustom, Kids: []*Node{n}} },
	func(n *Node) *Node { return &Node{K: KIter, Form: 1, Name: "list", Kids: []*Node{n}} },
}

// shared: sequences of shared nodes, the wrapped ones being shared as well
func sharedSeq(which string, tops []string, wraps []int, quick, thorough int, o *CmpOpt) func(x *X) {
	return func(x *X) {
		top := tops[x.Choose(len(tops))]
		pool := sharedNodes(which)
		wrapped := map[[2]int]*Node{}
		n := 1 + x.Choose(x.Q(quick, thorough))
		var kids []*Node
		for i := 0; i < n; i++ {
			c := [2]int{x.Choose(len(pool)), wraps[x.Choose(len(wraps))]}
			if wrapped[c] == nil {
				wrapped[c] = sharedWraps[c[1]](pool[c[0]])
			}
			kids = append(kids, wrapped[c])
		}
		node := hold(top, kids...)
		x.Note(func() string { return "sharing " + node.String() })
		x.Ready()
		e1 := &Env{Data: map[string]any{"k": "D<", "list": []any{1, "2"}}, Cargo: "C&", Conds: []bool{true, false}}
		e2 := &Env{Data: map[string]any{"k": "E"}, Conds: []bool{false, true}}
		l := &live{conds: []bool{true, false}, memo: map[*Node]aitch.Node{}}
		built := node.node(l)
		for round := 0; round < 2; round++ {
			for _, e := range []*Env{e1, e2} {
				copy(l.conds, e.Conds)
				c := *e
				want := node.Model(&c)
				got, err := render(built, e)
				if err != nil {
					x.Failf("rendering returned an error: %v", err)
				}
				if d := o.Same(got, want); d != "" {
					x.Failf("render %d: %s", round+1, d)
				}
				x.Observe([]byte(got))
			}
		}
	}
}

// c01Related: names, values, keys and texts that are all from the same small set of strings
func c01Related(x *X) {
	pool := []string{"id", "k", "br", "class"}
	if x.Thorough() {
		pool = append(pool, "p")
	}
	w := func() string { return pool[x.Choose(len(pool))] }
	shape := x.Choose(3)
	val := func() *Val {
		s := w()
		switch x.Choose(2) {
		case 1:
			return vkey(s)
		}
		return vs(s)
	}
	n1, a1, v1, t1 := w(), w(), val(), val()
	var top *Node
	el := func(name string, kids ...*Node) *Node {
		if name == "br" {
			return &Node{K: KVoid, Name: name, Kids: kids}
		}
		return elNode(name, kids...)
	}
	at := func(name string, v *Val) *Node {
		if name == "class" {
			return &Node{K: KDelim, Name: name, Vals: []*Val{v}}
		}
		return attrNode(name, v)
	}
	text := func(v *Val) *Node { return &Node{K: KText, Vals: []*Val{v}} }
	switch shape {
	case 0:
		n2, a2, v2 := w(), w(), val()
		top = el(n1, at(a1, v1), text(t1), el(n2, at(a2, v2), text(t1)), text(v1))
	case 1:
		a2, v2 := w(), val()
		top = el(n1, at(a1, v1), text(t1), &Node{K: KBool, Name: w()}, at(a2, v2))
		if top.Kids[2].Name == "class" || kindClash(top.Kids) {
			top.Kids[2].Name = "on"
		}
	case 2:
		t2 := val()
		top = &Node{K: KColl, Kids: []*Node{text(t1), el(n1, text(t2), at(a1, v1)), {K: KComment, Vals: []*Val{t1, t2}}, {K: KPI, Name: w(), Vals: []*Val{t2}}, {K: KFrag, Vals: []*Val{v1, t1, t2}}}}
	}
	x.Note(func() string { return top.String() })
	x.Ready()
	e := &Env{Data: map[string]any{"id": "k", "k": "br", "br": "class", "class": "id", "p": "p"}, Cargo: "k"}
	checkModel(x, stdOpt, top, e)
}

func kindClash(kids []*Node) bool {
	// a boolean and a delimited attribute of the same name
	for _, a := range kids {
		for _, b := range kids {
			if a.Name == b.Name && (a.K == KDelim) != (b.K == KDelim) && a.isAttr() && b.isAttr() {
				return true
			}
		}
	}
	return false
}

// c05Redeclare: an attribute that is declared again keeps its place
func c05Redeclare(x *X) {
	kind := []Kind{KAttr, KBool, KDelim}[x.Choose(3)]
	tags := []string{"element", "void", "imperative element", "collection in element", "conditional in element", "document"}
	tag := tags[x.Choose(len(tags))]
	how := 0
	if tag != "imperative element" {
		how = x.Choose(4)
	}
	n := 1 + x.Choose(x.Q(36, 80))
	at := x.Choose(n)
	second := -1
	if n <= x.Q(9, 20) {
		second = x.Choose(n+1) - 1
	}
	x.Note(func() string {
		return fmt.Sprintf("%d attributes of kind %s on %s, #%d declared again in way %d, then #%d", n, kindNames[kind], tag, at, how, second)
	})
	x.Ready()
	mk := func(i int, v string) *Node {
		return &Node{K: kind, Name: "n" + strconv.Itoa(i), Vals: []*Val{vs(v)}}
	}
	wrap := func(a *Node) *Node { return sharedWraps[how](a) }
	var kids []*Node
	for i := 0; i < n; i++ {
		kids = append(kids, mk(i, "v"))
	}
	kids = append(kids, wrap(mk(at, "again")))
	if second >= 0 {
		kids = append(kids, wrap(mk(second, "and again")), mk(n, "last"))
	}
	checkModel(x, ordOpt, hold(tag, kids...), scaleEnv())
}

// c06Reused: the slices given to constructors can be used for something else afterwards
func c06Reused(x *X) {
	type fn struct {
		name string
		v    reflect.Value
	}
	anySlice, nodeSlice := reflect.TypeOf([]any(nil)), reflect.TypeOf([]aitch.Node(nil))
	var fns []fn
	for pkg, t := range table {
		for name, f := range t {
			v := reflect.ValueOf(f)
			ty := v.Type()
			if ty.IsVariadic() && (ty.In(ty.NumIn()-1) == anySlice || ty.In(ty.NumIn()-1) == nodeSlice) && simpleParams(ty) {
				fns = append(fns, fn{pkg + "." + name, v})
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].name < fns[j].name })
	f := fns[x.Choose(len(fns))]
	n := 1 + x.Choose(4)
	kinds := x.Choose(3)
	how := x.Choose(3)
	rendered := x.Bool()
	x.Note(func() string {
		return fmt.Sprintf("%s with %d arguments (%d), the slice then used for something else (%d), rendered before: %v", f.name, n, kinds, how, rendered)
	})
	x.Ready()
	ty := f.v.Type()
	mk := func(i int, s string) aitch.Node {
		switch (i + kinds) % 3 {
		case 0:
			return aitch.Text(s + strconv.Itoa(i))
		case 1:
			return html.Class(s, aitch.DynamicValueKey("k"))
		}
		return html.B(s, html.Id(s))
	}
	fill := func(s reflect.Value, what string) {
		for i := 0; i < s.Len(); i++ {
			if what == "" {
				s.Index(i).SetZero()
			} else {
				s.Index(i).Set(reflect.ValueOf(mk(i, what)))
			}
		}
	}
	slice := reflect.MakeSlice(ty.In(ty.NumIn()-1), n, n+2)
	call := func() (node aitch.Node) {
		defer func() {
			if r := recover(); r != nil {
				node = nil
			}
		}()
		out := f.v.CallSlice(append(simpleArgs(ty), slice))
		if len(out) == 0 {
			return nil
		}
		switch t := out[0].Interface().(type) {
		case aitch.Node:
			return t
		case aitch.Value:
			return aitch.Text(t)
		}
		return nil
	}
	env := c06Env(0)
	fill(slice, "one")
	node := call()
	if node == nil {
		return
	}
	show := func(n aitch.Node) string {
		s, err := render(aitch.Element("i", n, n), env)
		if err != nil {
			x.Failf("rendering: %v", err)
		}
		return s
	}
	fill(slice, "one")
	want := ""
	if rendered {
		want = show(node)
	}
	// the slice as it was, for a node that is never disturbed
	same := reflect.MakeSlice(slice.Type(), n, n)
	fill(same, "one")
	keep := slice
	slice = same
	want2 := show(call())
	slice = keep
	if rendered && want != want2 {
		x.Failf("renders %q, built from another slice %q", want, want2)
	}
	var next aitch.Node
	switch how {
	case 0:
		fill(slice, "two")
		next = call()
	case 1:
		fill(slice, "")
	case 2:
		// reversed
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			a, b := slice.Index(i).Interface(), slice.Index(j).Interface()
			slice.Index(i).Set(reflect.ValueOf(b))
			slice.Index(j).Set(reflect.ValueOf(a))
		}
		next = call()
	}
	for i := 0; i < 2; i++ {
		if got := show(node); got != want2 {
			x.Failf("after its slice was used for something else the node renders %q instead of %q", got, want2)
		}
		if next != nil {
			_ = show(next)
		}
		x.Observe([]byte(want2))
	}
}

// c06ReusedMaps: the maps and other lists given to constructors can be changed afterwards
func c06ReusedMaps(x *X) {
	form := x.Choose(6)
	n := x.Choose(4)
	change := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("form %d with %d entries, changed in way %d", form, n, change) })
	x.Ready()
	head, body, hm, nm := []any{}, []any{}, htmx.HeadersMap{}, aitch.NodeMap{}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		head, body = append(head, aitch.Element("h"+s)), append(body, aitch.Element("b"+s), html.Class("c"+s))
		hm["h"+s] = s
		nm["n"+s] = aitch.Element("n" + s)
	}
	text := ""
	for i := 0; i < n; i++ {
		text += "{{n" + strconv.Itoa(i) + " .}}"
	}
	env := &Env{Data: map[string]any{}}
	var show func() string
	var node aitch.Node
	switch form {
	case 0:
		node = html.Document(nil, head, body)
	case 1:
		node = html.Document("en", head, body)
	case 2:
		node = aitch.Element("p", htmx.Headers(hm))
	case 3:
		node = aitch.Element("p", htmx.HeadersJS(hm, htmx.HeadersMap{"more": 1}))
	}
	show = func() string {
		s, err := render(node, env)
		if err != nil {
			x.Failf("%v", err)
		}
		return s
	}
	if form >= 4 {
		t, err := aitch.NewTemplate("t", text, nm)
		if err != nil {
			x.Failf("%v", err)
		}
		show = func() string {
			var sb strings.Builder
			if err := t.Execute(&sb, env.Data, nil); err != nil {
				x.Failf("%v", err)
			}
			return sb.String()
		}
	}
	var want string
	if form != 5 {
		want = show()
	} else {
		for i := 0; i < n; i++ {
			want += "<n" + strconv.Itoa(i) + "></n" + strconv.Itoa(i) + ">"
		}
	}
	for i := range head {
		head[i] = []any{nil, "x", aitch.Element("x")}[change]
	}
	for i := range body {
		body[i] = []any{nil, "x", aitch.Element("x")}[change]
	}
	for k := range hm {
		if change == 0 {
			delete(hm, k)
		} else {
			hm[k] = "x"
		}
	}
	hm["z"] = 1
	for k := range nm {
		switch change {
		case 0:
			delete(nm, k)
		case 1:
			nm[k] = nil
		case 2:
			nm[k] = aitch.Text("x")
		}
	}
	for i := 0; i < 2; i++ {
		if got := show(); got != want {
			x.Failf("%q instead of %q", got, want)
		}
		x.Observe([]byte(want))
	}
}

// c09Values: every failing form with every kind of error
func c09Values(x *X) {
	ek := x.Choose(len(errKinds))
	g := &gen{x: x, budget: x.Q(1, 2), alpha: c09Kinds()}
	top := &Node{K: []Kind{KEl, KColl, KDoc, KImp}[x.Choose(4)]}
	if top.K == KEl {
		top.Name = "div"
	}
	top.Kids = g.kids()
	err := errKinds[ek].mk("failed")
	insertFail(x, top, c09Fail(x, err, 17))
	x.Note(func() string { return errKinds[ek].name + " " + top.String() })
	if errors.Is(err, errApp1) {
		panic("kind of error")
	}
	checkErrors(x, top, c09Env)
}

// rawStrings are byte strings that need not be text
func rawStrings(max int, f func(s string)) {
	alpha := []string{"a", "<", "&", "\x80", "\xc3", "\xa9", "\xff", "\x00"}
	if max > 4 {
		alpha = []string{"a", "<", "\x80", "\xc3", "\xff", "\x00"}
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		f(s)
		if n < max {
			for _, a := range alpha {
				rec(s+a, n+1)
			}
		}
	}
	rec("", 0)
}

// c11Bytes: bytes, whatever they are, are written as they are
func c11Bytes(x *X) {
	p := c11Positions[x.Choose(len(c11Positions))]
	w := c11Ways[x.Choose(len(c11Ways))]
	x.Note(func() string { return fmt.Sprintf("bytes as %s, %s", p.name, w.name) })
	x.Ready()
	if strings.HasPrefix(w.name, "missing") {
		return
	}
	try := func(s string) {
		v := any([]byte(s))
		n := p.build(w.wrap(v))
		if w.wrapNode != nil {
			n = w.wrapNode(n, v)
		}
		env := &Env{}
		if w.data != nil {
			env.Data = w.data(v)
		}
		if w.cargo != nil {
			env.Cargo = w.cargo(v)
		}
		got, err := render(n, env)
		if err != nil {
			x.Failf("%q: rendering returned an error: %v", s, err)
		}
		if want := p.pre + s + p.post; got != want {
			x.Failf("got  %q\nwant %q", got, want)
		}
		x.Observe([]byte(got))
	}
	rawStrings(x.Q(3, 5), try)
	for _, n := range append([]int{5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096}, dictSizes(2000)...) {
		for _, c := range []string{"\x80", "\xff\xfe", "\x00", "\xc3", "é", "\xed\xa0\x80", "\xef\xbb\xbf", "<", "&amp;"} {
			for _, at := range []int{0, min(1, n), n / 2, max(0, n-1), n} {
				try(strings.Repeat("a", at) + c + strings.Repeat("b", n-at))
			}
		}
	}
}

// how a string is made from another one
var relations = []struct {
	name string
	f    func(v, name, el string) string
}{
	{"same", func(v, _, _ string) string { return v }},
	{"#", func(v, _, _ string) string { return "#" + v }},
	{"url", func(v, _, _ string) string { return "url(#" + v + ")" }},
	{"twice", func(v, _, _ string) string { return v + " " + v }},
	{"doubled", func(v, _, _ string) string { return v + v }},
	{"leading", func(v, _, _ string) string { return " " + v }},
	{"trailing", func(v, _, _ string) string { return v + " " }},
	{"upper", func(v, _, _ string) string { return strings.ToUpper(v) }},
	{"prefix", func(v, _, _ string) string { return v + "x" }},
	{"name", func(_, n, _ string) string { return n }},
	{"name=value", func(v, n, _ string) string { return n + "=" + v }},
	{"element", func(_, _, e string) string { return e }},
	{"tag", func(_, _, e string) string { return "&lt;" + e + "&gt;" }},
	{"quoted", func(v, _, _ string) string { return "&quot;" + v + "&quot;" }},
	{"empty", func(_, _, _ string) string { return "" }},
	{"comma", func(v, _, _ string) string { return v + "," + v }},
	{"half", func(v, _, _ string) string { return v[:len(v)/2] }},
}

// genRelated: inputs of the generators in which parts are related
func genRelated(svg bool) func(x *X) {
	return func(x *X) {
		o, gen := c16Opt, c16Gen
		els := []string{"p", "a", "label", "x-y"}
		names := []string{"id", "href", "class", "for", "name", "title", "data-x", "zz"}
		if svg {
			o, gen = c17Opt, c17Gen
			els = []string{"g", "use", "style", "x-y"}
			names = []string{"id", "href", "class", "xlink:href", "fill", "style", "data-x", "zz"}
		}
		vals := []string{"v", "a-1", "x y", "class"}
		e1, e2 := els[x.Choose(len(els))], els[x.Choose(len(els))]
		n1, n2 := names[x.Choose(len(names))], names[x.Choose(len(names))]
		rel := relations[x.Choose(len(relations))]
		x.Ready()
		x.Note(func() string { return fmt.Sprintf("%s %s, %s %s, %s", e1, n1, e2, n2, rel.name) })
		for _, v := range vals {
			r := rel.f(v, n1, e1)
			var sb strings.Builder
			f := func(format string, args ...any) { fmt.Fprintf(&sb, format, args...) }
			if n1 != n2 {
				f(`<%s %s="%s" %s="%s"></%s>`, e1, n1, v, n2, r, e1)
				f(`<%s %s="%s" %s="%s">%s</%s>`, e1, n1, r, n2, v, r, e1)
				if n1 != "zz" && n2 != "zz" && n1 != "title" && n2 != "title" {
					f(`<%s %s="%s" zz="1" title="%s" %s="%s"></%s>`, e1, n1, v, r, n2, r, e1)
				}
			}
			f(`<%s %s="%s">%s</%s>`, e1, n1, v, r, e1)
			f(`<%s %s="%s"></%s><%s %s="%s">%s</%s>`, e1, n1, v, e1, e2, n2, r, v, e2)
			if e1 != "style" {
				f(`<%s %s="%s">%s<%s %s="%s">%s</%s>%s</%s>`, e1, n1, v, r, e2, n2, r, r, e2, v, e1)
			}
			f(`<%s>%s</%s>%s<%s>%s</%s>`, e1, v, e1, r, e2, v, e2)
			if !strings.HasSuffix(r, "-") && !strings.Contains(r, "--") {
				f(`<!--%s-->%s<!--%s-->`, v, v, r)
				f(`<%s %s="%s"><!--%s--></%s>`, e1, n1, v, r, e1)
			}
			o.roundTrip(x, gen, sb.String())
		}
	}
}

// genDictRelated: every pair of attribute names of the vocabulary with related values
func genDictRelated(svg bool) func(x *X) {
	return func(x *X) {
		o, gen, voc := c16Opt, c16Gen, c16Voc
		if svg {
			o, gen, voc = c17Opt, c17Gen, c17Voc
		}
		names := append(append([]string(nil), voc.attributes...), "unknown", "data-x", "aria-x", "@x")
		a := names[x.Choose(len(names))]
		x.Ready()
		var sb strings.Builder
		for _, r := range []int{0, 1, 2, 3, 9, 10, 14} {
			if !x.Thorough() && r > 2 && r != 9 {
				continue
			}
			rel := relations[r]
			x.Note(func() string { return fmt.Sprintf("attribute %q, %s", a, rel.name) })
			for _, b := range names {
				if a != b {
					fmt.Fprintf(&sb, `<g %s="v" %s="%s"></g>`, a, b, rel.f("v", a, "g"))
					if sb.Len() > 3000 {
						o.roundTrip(x, gen, sb.String())
						sb.Reset()
					}
				}
			}
		}
		o.roundTrip(x, gen, sb.String())
	}
}

func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		s := &Suite{Name: name, Bounds: bounds, Body: body}
		switch id {
		case "C16", "C17", "C18", "C19":
			s.Setup = p.Suites[0].Setup
		}
		p.Suites = append(p.Suites, s)
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	add("C01", "shared", "sequences of up to 3 of 4 nodes in 11 wrappings each, every occurrence the same object, below 8 containers, rendered 4 times under two environments", sharedSeq("contents", []string{"element", "collection", "collect", "conditional", "imperative", "custom", "document", "iterate"}, all, 3, 3, stdOpt))
	add("C01", "related", "3 shapes with names, values, keys and texts from one set of 4 (thorough 5) strings", c01Related)
	add("C03", "shared", "sequences of up to 3 (thorough 4) of 5 attributes in 5 wrappings each, every occurrence the same object, in 5 tags", sharedSeq("attributes", []string{"element", "void", "collection in element", "conditional in element", "document"}, []int{0, 1, 2, 3, 4}, 3, 4, stdOpt))
	add("C03", "shared-imperative", "sequences of up to 4 (thorough 5) of 5 attributes, every occurrence the same object, in imperative tags", sharedSeq("attributes", []string{"imperative element", "element"}, []int{0}, 4, 6, stdOpt))
	add("C04", "shared", "sequences of up to 3 (thorough 4) of 5 nodes in 4 wrappings each, every occurrence the same object, below conditionals of 3 kinds", sharedSeq("both", []string{"conditional", "when", "conditional in element"}, []int{0, 1, 2, 3}, 3, 4, stdOpt))
	add("C05", "shared", "sequences of up to 3 (thorough 4) of 4 attributes in 5 wrappings each, every occurrence the same object, in order", sharedSeq("order", []string{"element", "void", "document"}, []int{0, 1, 2, 3, 4}, 3, 4, ordOpt))
	add("C05", "redeclared", "1 to 36 (thorough 80) attributes of 3 kinds on 6 tags of which any one is declared again in 4 ways (of up to 9 (20): any two)", c05Redeclare)
	add("C06", "slices-reused", "every exported variadic constructor x 1 to 4 arguments of 3 mixes, the slice overwritten, emptied or reversed afterwards, rendered before or not", c06Reused)
	add("C06", "maps-reused", "documents, headers and templates of up to 3 entries whose lists and maps are changed afterwards in 3 ways", c06ReusedMaps)
	add("C09", "error-values", "25 kinds of errors x 17 failing forms x every tree of up to 1 (thorough 2) nodes over 13 forms below 4 tops x every position", c09Values)
	add("C10", "shared", "sequences of up to 3 of 5 nodes in 11 wrappings each, every occurrence the same object, in iterations of 2 kinds", sharedSeq("both", []string{"iterate", "yield"}, all, 3, 3, stdOpt))
	add("C11", "bytes", "all byte strings of up to 3 (thorough 5) of 8 (6) bytes, and 9 strings within text of 26 and more lengths, x all positions x all ways to supply them", c11Bytes)
	add("C12", "shared", "sequences of up to 3 (thorough 4) of 5 nodes in 3 wrappings each, every occurrence the same object, in imperative nodes of 2 kinds", sharedSeq("both", []string{"imperative", "imperative element"}, []int{0, 5, 7}, 3, 4, stdOpt))
	for _, svg := range []bool{false, true} {
		id := choose(svg, "C17", "C16")
		add(id, "related", "2 elements, attributes and texts of which one is made from the other in 17 ways, 4 x 4 elements, 8 x 8 attributes, 4 values", genRelated(svg))
		add(id, "dict-related", "every pair of attribute names of the vocabulary with values made from each other in 4 (thorough 7) ways", genDictRelated(svg))
	}
}
