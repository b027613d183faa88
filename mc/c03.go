package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

var c03Env = func() *Env {
	return &Env{Data: map[string]any{"present": "dyn<", "empty": "", "k2": true, "k3": false}, Cargo: "car", Conds: []bool{true, false}}
}

// c03Decl is one attribute declaration at some placement
func c03Decl(x *X, kind Kind, names []string, i int, placements int, values int) *Node {
	name := names[x.Choose(len(names))]
	a := &Node{K: kind, Name: name, Form: i % 2}
	l := strconv.Itoa(i)
	if kind != KBool {
		switch x.Choose(values) {
		case 0:
			a.Vals = []*Val{vs("v" + l)}
		case 1:
			a.Vals = []*Val{vs("")}
		case 2:
			a.Vals = []*Val{vkey("missing")}
		case 3:
			a.Vals = []*Val{vkey("present")}
		case 4:
			a.Vals = []*Val{vs("p" + l), vs("q" + l)}
		case 5:
			a.Vals = nil
		case 6:
			a.Vals = []*Val{vs(""), vs("z" + l), {K: VNil}}
		}
	}
	switch x.Choose(placements) {
	case 1:
		return &Node{K: KColl, Kids: []*Node{a}}
	case 2:
		return &Node{K: KCond, Cond: 0, Kids: []*Node{a}}
	case 3:
		return &Node{K: KCond, Cond: 1, Kids: []*Node{a}}
	case 4:
		return &Node{K: KColl, Kids: []*Node{{K: KText, Vals: []*Val{vs("t")}}, {K: KColl, Kids: []*Node{a}}}}
	case 5:
		return &Node{K: KWhen, Cond: 2, Kids: []*Node{{K: KColl, Kids: []*Node{a}}}}
	case 6:
		return &Node{K: KColl, Kids: []*Node{{K: KCond, Cond: 0, Kids: []*Node{a}}}}
	}
	return a
}

func c03Sequences(maxLenQ, maxLenT int, names []string, placements, values int) func(x *X) {
	return func(x *X) {
		kind, mixed := KAttr, false
		switch x.Choose(4) {
		case 1:
			kind = KBool
		case 2:
			kind = KDelim
		case 3:
			// plain and boolean declarations of one name: the last one wins
			mixed = true
		}
		tag := x.Choose(4)
		nm := names
		if kind == KDelim {
			nm = []string{"class", "dl"}[:len(names)]
		}
		pl := placements
		if tag == 3 {
			pl = 1 // imperative Start takes attributes only
		}
		n := 1 + x.Choose(x.Q(maxLenQ, maxLenT))
		var kids []*Node
		for i := 0; i < n; i++ {
			vals := x.Q(min(values, 5), values)
			if mixed {
				vals = min(vals, 3)
				if kind = KAttr; x.Bool() {
					kind = KBool
				}
			}
			kids = append(kids, c03Decl(x, kind, nm, i, pl, vals))
		}
		top := &Node{K: KEl, Name: "div", Kids: kids}
		switch tag {
		case 1:
			top.K, top.Name = KVoid, "img"
		case 2:
			top.Form = 1
			top.Kids = append([]*Node{{K: KText, Vals: []*Val{vs("x")}}}, top.Kids...)
		case 3:
			top.K, top.Name = KImpEl, "imp"
		}
		checkAttrs(x, top, c03Env())
	}
}

func checkAttrs(x *X, top *Node, env *Env) {
	x.Note(func() string { return top.String() })
	x.Ready()
	l := &live{conds: env.Conds}
	n := top.node(l)
	want := top.Model(env)
	got, err := render(n, env)
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	noDuplicates(x, got)
	if d := stdOpt.Same(got, want); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
}

func noDuplicates(x *X, got string) {
	toks, err := Tokenize(got)
	if err != nil {
		x.Failf("malformed output: %v: %q", err, got)
	}
	for _, t := range toks {
		seen := map[string]bool{}
		for _, a := range t.Attrs {
			if seen[a.Name] {
				x.Failf("attribute %s twice: %q", a.Name, got)
			}
			seen[a.Name] = true
		}
	}
}

// vocabulary attributes that merge
type mergeVocab struct {
	name, attr, delim, pre string
	fn                     func(v ...any) aitch.Node
}

func mergers() []mergeVocab {
	return []mergeVocab{
		{"html.Class", "class", " ", "", html.Class},
		{"html.Style", "style", "; ", "", html.Style},
		{"svg.Class", "class", " ", "", svg.Class},
		{"svg.Style", "style", "; ", "", svg.Style},
		{"css.Width", "style", "; ", "width:", css.Width},
		{"css.Color", "style", "; ", "color:", css.Color},
		{"htmx.Trigger", "hx-trigger", " ", "", htmx.Trigger},
		{"htmx.Params", "hx-params", " ", "", htmx.Params},
		{"htmx.Inherit", "hx-inherit", " ", "", htmx.Inherit},
		{"htmx.Disinherit", "hx-disinherit", " ", "", htmx.Disinherit},
		{"htmx.Vars", "hx-vars", ", ", "", htmx.Vars},
	}
}

var c03Opt = &CmpOpt{Delims: map[string]string{"class": " ", "style": "; ", "hx-trigger": " ", "hx-params": " ", "hx-inherit": " ", "hx-disinherit": " ", "hx-vars": ", "}}

func c03Vocab(x *X) {
	ms := mergers()
	n := 1 + x.Choose(3)
	tag := x.Choose(4)
	type item struct {
		m     mergeVocab
		vals  []any
		place int
	}
	var items []item
	var desc []string
	toks := map[string][]string{}
	var names []string
	first := ms[x.Choose(len(ms))]
	for i := 0; i < n; i++ {
		m := first
		if i > 0 {
			// the same attribute through another function, or the same function
			var same []mergeVocab
			for _, o := range ms {
				if o.attr == first.attr {
					same = append(same, o)
				}
			}
			same = append(same, ms[(len(first.attr)+3)%len(ms)])
			m = same[x.Choose(len(same))]
		}
		l := strconv.Itoa(i)
		var vals []any
		var ts []string
		switch x.Choose(4) {
		case 0:
			vals, ts = []any{"a" + l}, []string{"a" + l}
		case 1:
			vals, ts = []any{"a" + l, "b" + l}, []string{"a" + l, "b" + l}
		case 2:
			vals, ts = []any{aitch.DynamicValueKey("k")}, []string{"dyn"}
		case 3:
			vals, ts = []any{aitch.DynamicValueKey("missing")}, nil
		}
		if m.pre != "" {
			ts = []string{m.pre + strings.Join(ts, "")}
		}
		it := item{m: m, vals: vals}
		if tag < 3 {
			it.place = x.Choose(3)
		}
		desc = append(desc, fmt.Sprintf("%s%v@%d", m.name, vals, it.place))
		items = append(items, it)
		_ = ts
		if _, ok := toks[m.attr]; !ok {
			names = append(names, m.attr)
			toks[m.attr] = nil
		}
	}
	// the expected values: unconditional first
	for pass := 0; pass < 2; pass++ {
		for i, it := range items {
			if (it.place == 2) != (pass == 1) {
				continue
			}
			l := strconv.Itoa(i)
			var ts []string
			for _, v := range it.vals {
				switch t := v.(type) {
				case string:
					ts = append(ts, t)
				case aitch.DynamicValueKey:
					if t == "k" {
						ts = append(ts, "dyn")
					}
				}
			}
			_ = l
			if it.m.pre != "" {
				ts = []string{it.m.pre + strings.Join(ts, "")}
			}
			toks[it.m.attr] = append(toks[it.m.attr], ts...)
		}
	}
	delims := map[string]string{}
	for _, m := range ms {
		delims[m.attr] = m.delim
	}
	want := "<x"
	for _, a := range names {
		want += " " + a + `="` + strings.Join(toks[a], delims[a]) + `"`
	}
	want += ">"
	x.Note(func() string { return fmt.Sprintf("tag %d: %s", tag, strings.Join(desc, ", ")) })
	x.Ready()
	var contents []any
	var nodes []aitch.Node
	for _, it := range items {
		node := it.m.fn(it.vals...)
		nodes = append(nodes, node)
		switch it.place {
		case 1:
			node = aitch.Collection(node)
		case 2:
			node = aitch.Conditional(func(*context.Context) bool { return true }, node)
		}
		contents = append(contents, node)
	}
	var n2 aitch.Node
	switch tag {
	case 0:
		n2 = aitch.Element("x", contents...)
		want += "</x>"
	case 1:
		n2 = aitch.VoidElement("x", contents...)
	case 2:
		n2 = aitch.Element("x", append([]any{"t"}, contents...)...)
		want += "t</x>"
	case 3:
		n2 = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("x"), false, nodes...)
			ic.End()
			return nil
		})
		want += "</x>"
	}
	got, err := render(n2, &Env{Data: map[string]any{"k": "dyn"}})
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	noDuplicates(x, got)
	if d := c03Opt.Same(got, want); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
}

func init() {
	register(&Prop{
		ID:     "C03",
		Level:  "model_checking",
		Rule:   "A case is a sequence of attribute declarations with their placements on one start tag, compared with a last-wins / token-list model.",
		Assume: []string{"declaring one name both as delimited and as plain attribute is not specified and not tried", "extra delimiters next to empty values are tolerated: token lists are compared"},
		Suites: []*Suite{
			{Name: "sequences", Bounds: "up to 3 declarations of the same kind, or plain and boolean mixed, over 2 names x 7 placements (direct, collections, holding and failing conditionals) x 5 (thorough 7) values x 4 kinds of start tag", Body: c03Sequences(3, 3, []string{"n", "m"}, 7, 7)},
			{Name: "long-sequences", Bounds: "up to 4 (thorough 5) declarations of one name x 4 placements x 3 values x 4 kinds of start tag", Body: c03Sequences(4, 5, []string{"n"}, 4, 3)},
			{Name: "vocabulary", Bounds: "up to 3 declarations over 11 merging functions of html, svg, css, htmx (mixed for one attribute) x 4 values x 3 placements x 4 kinds of start tag", Body: c03Vocab},
		},
	})
}
