package main

import (
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
)

// joins says if got is the non-empty values of vals in order with the delimiter between them (and beside the empty ones, at most two for each)
func joins(got string, vals []string, d string, some bool) bool {
	if len(vals) == 0 {
		return got == ""
	}
	v := vals[0]
	if v == "" {
		// an empty value: nothing, a delimiter before or after it, or both
		if joins(got, vals[1:], d, some) {
			return true
		}
		for i := 0; i < 2 && strings.HasPrefix(got, d); i++ {
			got = got[len(d):]
			if joins(got, vals[1:], d, false) {
				return true
			}
		}
		return false
	}
	if some {
		v = d + v
	}
	return strings.HasPrefix(got, v) && joins(got[len(v):], vals[1:], d, true)
}

// c03Tokens: values of delimited attributes that contain, begin or end with the delimiter, or a part of it, are kept as they are
func c03Tokens(x *X) {
	delims := []string{" ", "; ", ";", ",", "|", "--", ", ", "&", "-a-"}
	d := delims[x.Choose(len(delims))]
	vals := []string{"a", "a" + d, d + "a", "a" + d + "b", d, "", "a" + d[:1], d[len(d)-1:] + "a", "a" + d + d, " a", "a "}
	n := 1 + x.Choose(x.Q(3, 4))
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, vals[x.Choose(len(vals))])
	}
	supply, placed := x.Choose(4), x.Choose(6)
	x.Note(func() string { return fmt.Sprintf("%q by %q, supplied %d, placed %d", texts, d, supply, placed) })
	x.Ready()
	env := &Env{Data: map[string]any{"yes": true}}
	var args []any
	for i, t := range texts {
		k := fmt.Sprint("k", i)
		env.Data[k] = t
		switch by := supply; {
		case by == 1, by == 2 && i%2 == 0, by == 3 && i%2 == 1:
			args = append(args, dk(k))
		default:
			args = append(args, t)
		}
	}
	at := func(vals ...any) aitch.Node { return aitch.DelimitedAttribute("n", d, vals...) }
	var each []any
	for _, a := range args {
		each = append(each, at(a))
	}
	var top aitch.Node
	switch placed {
	case 0:
		top = aitch.Element("p", at(args...))
	case 1:
		top = aitch.VoidElement("p", each...)
	case 2:
		top = aitch.Element("p", at(args[0]), aitch.Conditional(always, nodesOf(each[1:])...))
	case 3:
		top = aitch.Element("p", aitch.When("yes", nodesOf(each[:1])...), aitch.When("yes", nodesOf(each[1:])...))
	case 4:
		top = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), true, nodesOf(each)...)
			return nil
		})
	case 5:
		top = aitch.Element("p", at(), aitch.Collection(at(args[0]), at()), at(args[1:]...))
	}
	got, err := render(top, env)
	if err != nil {
		x.Failf("%v", err)
	}
	toks, err := Tokenize(got)
	if err != nil || len(toks) == 0 || len(toks[0].Attrs) != 1 || toks[0].Attrs[0].Name != "n" {
		x.Failf("%q: %v", got, err)
	}
	if v := toks[0].Attrs[0].Val; !spaced(v, texts, d, placed) {
		x.Failf("got %q, which is not %q with %q between", v, texts, d)
	}
	x.Observe([]byte(got))
}

// spaced allows what joins does, with the delimiters of empty values at either side
func spaced(v string, vals []string, d string, placed int) bool {
	if strings.Join(vals, "") == "" && strings.Trim(v, d) == "" {
		return true
	}
	if placed == 5 {
		// the two without values stand before and after the first
		with := append([]string{"", vals[0], ""}, vals[1:]...)
		if joins(v, with, d, false) {
			return true
		}
	}
	return joins(v, vals, d, false)
}

func nodesOf(vs []any) []aitch.Node {
	var out []aitch.Node
	for _, v := range vs {
		out = append(out, v.(aitch.Node))
	}
	return out
}

// c06Afterwards: whatever attributes a tag was built with (merged or not), each of them, used elsewhere before or after, is as it was
func c06Afterwards(x *X) {
	tags := []string{"void", "element", "imperative element", "document", "collection in element", "conditional in element"}
	tag := tags[x.Choose(len(tags))]
	form := x.Choose(2)
	pool := []*Node{
		{K: KDelim, Name: "class"},
		{K: KDelim, Name: "class", Vals: []*Val{vs("a")}},
		{K: KDelim, Name: "class", Vals: []*Val{vkey("k"), vs("b")}},
		{K: KDelim, Name: "class", Vals: []*Val{vs("c"), vkey("none"), vs("d")}},
		{K: KAttr, Name: "n", Vals: []*Val{vs("1"), vkey("k")}},
		{K: KAttr, Name: "n"},
		{K: KDelim, Name: "style", Vals: []*Val{vs("s:1"), vs("t:2"), vs("u:3")}},
		{K: KDelim, Name: "style", Vals: []*Val{vkey("k")}},
	}
	for _, p := range pool {
		if p.K != KAttr || form == 0 {
			p.Form = form
		}
	}
	n := 2 + x.Choose(x.Q(2, 3))
	var kids []*Node
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		c := x.Choose(len(pool))
		used[c] = true
		kids = append(kids, pool[c])
	}
	conditionalFrom := x.Choose(n + 1)
	before := x.Choose(2) == 1
	all := append([]*Node(nil), kids[:conditionalFrom]...)
	if conditionalFrom < n {
		all = append(all, &Node{K: KCond, Cond: 0, Kids: kids[conditionalFrom:]})
		if tag == "conditional in element" || tag == "imperative element" {
			all = append(all, &Node{K: KBool, Name: "m"})
		}
	}
	first := hold(tag, all...)
	x.Note(func() string { return fmt.Sprintf("%s, rendered before: %v", first.String(), before) })
	x.Ready()
	e := &Env{Data: map[string]any{"k": "D"}, Conds: []bool{true, true}}
	l := &live{conds: []bool{true, true}, memo: map[*Node]aitch.Node{}}
	check := func(what string, desc *Node, node aitch.Node) {
		c := *e
		want := desc.Model(&c)
		got, err := render(node, e)
		if err != nil {
			x.Failf("%s: %v", what, err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("%s: %s", what, d)
		}
		x.Observe([]byte(got))
	}
	alone := map[int]*Node{}
	for i := range pool {
		if used[i] {
			alone[i] = elNode("q", pool[i])
			if before {
				check("alone, first", alone[i], alone[i].node(l))
			}
		}
	}
	t1 := first.node(l)
	check("the first", first, t1)
	// in the other order, and with one more
	var rev []*Node
	for i := n - 1; i >= 0; i-- {
		rev = append(rev, kids[i])
	}
	extra := &Node{K: KDelim, Name: "class", Vals: []*Val{vs("x")}}
	second := hold(tag, append(rev, extra)...)
	t2 := second.node(l)
	check("the second", second, t2)
	for i := range pool {
		if used[i] {
			check("alone", alone[i], alone[i].node(l))
			fresh := elNode("q", pool[i], extra)
			check("with another", fresh, fresh.node(l))
		}
	}
	check("the first again", first, t1)
	check("the second again", second, t2)
}

func init() {
	p := props["C03"]
	p.Suites = append(p.Suites, &Suite{Name: "tokens", Bounds: "up to 3 (thorough 4) of 11 values that contain, begin or end with the delimiter or parts of it, for 9 delimiters, in 4 ways of supplying and 6 placements", Body: c03Tokens})
	p = props["C06"]
	p.Suites = append(p.Suites, &Suite{Name: "afterwards", Bounds: "2 or 3 (thorough 4) of 8 attributes (without values to three values) in 6 tags and 2 forms, with any of the last conditional, then in a second template with one more, then each alone, rendered before or not", Body: c06Afterwards})
}
