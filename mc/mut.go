package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/htmx"
)

// Renders of one template with the very same objects (data map, lists, bytes, pointers, items, cargo, writer, context),
// what is in them having changed between the renders: each render shows what is in them at that time.

// mutState is what the objects say
type mutState struct {
	data  map[string]any // of simple values, and of "list", "items" as []any, "typed" as []string
	inner string         // k of the map that is an item
	ptr   string         // the text of the pointer that is cargo and data
	raw   string         // the bytes
	fn    string         // what the function gives
	conds bool
}

var mutStates = []mutState{
	{map[string]any{"k": "A<", "k0": true, "list": []any{"a", 0}, "typed": []string{"x", "y"}}, "m1", "p1", "r1", "f1", true},
	// as many entries, of the same types
	{map[string]any{"k": "B<", "k0": false, "list": []any{"b", 0}, "typed": []string{"z", "w"}}, "m2", "p2", "r2", "f2", false},
	// only what is far within has changed
	{map[string]any{"k": "A<", "k0": true, "list": []any{"a", 0}, "typed": []string{"x", "y"}}, "m3", "p3", "r3", "f3", true},
	// as many entries, but others
	{map[string]any{"q": "Q", "k0": 5, "list": []any{0, "a"}, "typed": []string{"y", "x"}}, "m1", "p1", "r1", "f1", true},
	{map[string]any{"k": 12, "list": []any{"a"}, "typed": []string{"x"}, "z": 1}, "m1", "p4", "r4", "f4", false},
	{map[string]any{"k": "", "k0": true, "list": []any{}, "typed": []string{}}, "", "", "", "", false},
	{map[string]any{}, "m1", "p1", "r1", "f1", true},
	{map[string]any{"k": true, "k0": false, "list": []any{7, "b", 0}, "typed": []string{"x", "y", "v"}, "more": 1}, "m1", "p1", "r1", "f1", true},
}

// mutObjects are the objects
type mutObjects struct {
	data  map[string]any
	list  [3]any
	typed [3]string
	items []any
	inner map[string]any
	ptr   *ptrStringer
	raw   []byte
	fn    string
	conds []bool
}

func newMutObjects() *mutObjects {
	return &mutObjects{data: map[string]any{}, items: make([]any, 2), inner: map[string]any{}, ptr: &ptrStringer{}, raw: make([]byte, 2), conds: make([]bool, 2)}
}

func (o *mutObjects) set(s *mutState) {
	clear(o.data)
	for k, v := range s.data {
		switch t := v.(type) {
		case []any:
			copy(o.list[:], t)
			for i, item := range t {
				if item == 0 {
					o.list[i] = o.inner
				}
			}
			v = o.list[:len(t)]
		case []string:
			copy(o.typed[:], t)
			v = o.typed[:len(t)]
		}
		o.data[k] = v
	}
	if len(s.data) > 0 {
		o.data["ptr"], o.data["fn"] = o.ptr, func() any { return o.fn }
		copy(o.raw, s.raw)
		o.data["raw"] = o.raw[:len(s.raw)]
	}
	clear(o.inner)
	if s.inner != "" {
		o.inner["k"], o.inner["k0"] = s.inner, s.inner == "m2"
	}
	o.ptr.s, o.fn = s.ptr, s.fn
	o.items[0], o.items[1] = s.ptr, o.inner
	o.conds[0], o.conds[1] = s.conds, !s.conds
}

// env is what the objects say, in objects of its own
func (s *mutState) env() *Env {
	e := &Env{Data: map[string]any{}, Cargo: stringer{s.ptr}, Conds: []bool{s.conds, !s.conds}}
	inner := map[string]any{}
	if s.inner != "" {
		inner["k"], inner["k0"] = s.inner, s.inner == "m2"
	}
	for k, v := range s.data {
		switch t := v.(type) {
		case []any:
			l := []any{}
			for _, item := range t {
				if item == 0 {
					item = inner
				}
				l = append(l, item)
			}
			v = l
		case []string:
			l := []any{}
			for _, item := range t {
				l = append(l, item)
			}
			v = l
		}
		e.Data[k] = v
	}
	if len(s.data) > 0 {
		e.Data["ptr"], e.Data["fn"], e.Data["raw"] = stringer{s.ptr}, s.fn, []byte(s.raw)
	}
	return e
}

// mutItems is what the items of functions stand for in descriptions: it is replaced by the objects' items
var mutItems = []any{"ptr", "inner"}

// mutPart is a part of a template, that reads the objects
type mutPart struct {
	of   string // the properties it is a subject of
	node *Node
	// a node the descriptions do not have, that renders as node
	build func() aitch.Node
}

func mutParts() []mutPart {
	text := func(vals ...*Val) *Node { return &Node{K: KText, Vals: vals} }
	body := func() []*Node {
		return []*Node{elNode("li", attrNode("id", vkey("k"), &Val{K: VCargo}), &Node{K: KWhen, Cond: 0, Kids: []*Node{textNode("on")}}, text(&Val{K: VCargo}, &Val{K: VParent, S: "k"}))}
	}
	when := func(form int, kids ...*Node) *Node { return &Node{K: KWhen, Form: form, Kids: kids} }
	decl := func(vals ...*Val) *Node {
		return &Node{K: KDelim, Name: "style", Vals: []*Val{{K: VConcat, Sub: vals}}}
	}
	return []mutPart{
		{"C01 C11", text(vs("["), vkey("k"), vs("]")), nil},
		{"C11", text(&Val{K: VCargo}, vkey("ptr"), vkey("raw"), vkey("fn"), vkey("q")), nil},
		{"C11 C03", attrNode("a1", vkey("k"), vkey("raw"), &Val{K: VConcat, Sub: []*Val{vkey("ptr"), vs("-")}}), nil},
		{"C03", &Node{K: KDelim, Name: "class", Vals: []*Val{vkey("k"), {K: VCargo}, vkey("q"), vkey("fn")}}, nil},
		{"C01 C11", &Node{K: KComment, Vals: []*Val{vkey("k"), {K: VCargo}}}, nil},
		{"C01", &Node{K: KVoid, Name: "br", Kids: []*Node{attrNode("id", vkey("k"))}}, nil},
		{"C04 C03", when(0, textNode("yes"), attrNode("a2", vkey("k")), &Node{K: KDelim, Name: "class", Vals: []*Val{vs("c")}}), nil},
		{"C04", when(1, textNode("no"), elNode("b", text(vkey("k")))), nil},
		{"C04 C03", &Node{K: KCond, Cond: 0, Kids: []*Node{textNode("c0"), attrNode("a1", vs("cond"))}}, nil},
		{"C04", elNode("b", &Node{K: KCond, Cond: 1, Kids: []*Node{when(0, &Node{K: KBool, Name: "f"}), when(1, textNode("n"))}}), nil},
		{"C10", &Node{K: KIter, Form: 1, Name: "list", Kids: body()}, nil},
		{"C10", &Node{K: KIter, Form: 1, Name: "typed", Kids: body()}, nil},
		{"C10", &Node{K: KIter, Items: mutItems, Kids: body()}, nil},
		{"C10", &Node{K: KIter, Form: 2, Items: mutItems, Kids: body()}, nil},
		{"C10", &Node{K: KIter, Form: 1, Name: "typed", Kids: []*Node{{K: KIter, Form: 1, Name: "list", Kids: []*Node{text(&Val{K: VCargo}, vkey("k"), &Val{K: VParent, S: "k"})}}}}, nil},
		{"C12", &Node{K: KImpEl, Name: "imp", Kids: []*Node{attrNode("id", vkey("k")), text(vkey("k"), &Val{K: VCargo})}}, nil},
		{"C12", &Node{K: KSwitch, Form: 2, Cond: 0, Kids: []*Node{text(vkey("k")), elNode("s")}}, nil},
		{"C12", &Node{K: KSwitch, Form: 1, Cond: 1, Kids: []*Node{elNode("u", textNode("1")), elNode("v", textNode("2"))}}, nil},
		{"C01", &Node{K: KSwitch, Cond: 0, Kids: []*Node{elNode("u", textNode("1")), elNode("v", textNode("2"))}}, nil},
		{"C01", &Node{K: KCustom, Kids: []*Node{text(vkey("k"))}}, nil},
		{"C19", decl(vs("color:"), vkey("k")), func() aitch.Node { return css.Color(aitch.DynamicValueKey("k")) }},
		{"C19", decl(vs("width:"), vkey("ptr"), vs("px")), func() aitch.Node { return css.Width(css.Px(aitch.DynamicValueKey("ptr"))) }},
		{"C19", &Node{K: KWhen, Kids: []*Node{decl(vs("top:"), vkey("raw"))}}, func() aitch.Node { return aitch.When("k0", css.Top(aitch.DynamicValueKey("raw"))) }},
		{"C20", attrNode("hx-headers", vs("{'A': "), vkey("k"), vs(", 'B': "), vkey("ptr"), vs("}")), func() aitch.Node {
			return htmx.Headers(htmx.HeadersMap{"A": aitch.DynamicValueKey("k"), "B": aitch.DynamicValueKey("ptr")})
		}},
		{"C20", &Node{K: KDelim, Name: "hx-params", Vals: []*Val{{K: VConcat, Sub: []*Val{vs("k"), vkey("k")}}, {K: VConcat, Sub: []*Val{vs("c"), {K: VCargo}}}}}, func() aitch.Node {
			return htmx.Params(aitch.NewConcatValue("k", aitch.DynamicValueKey("k")), aitch.NewConcatValue("c", aitch.DynamicValueKey(".")))
		}},
	}
}

var mutPartList = mutParts()

// mutItemsIn replaces the items
func mutItemsIn(n *Node, items []any) *Node {
	c := *n
	if len(c.Items) > 0 {
		c.Items = items
	}
	c.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = mutItemsIn(k, items)
	}
	return &c
}

const mutWays = 7  // of rendering
const mutTotal = 9 // with those of executing

// mutated renders a template of two parts in all sequences of states
func mutated(id string, quick, thorough int) func(x *X) {
	var own []mutPart
	for _, p := range mutPartList {
		if id == "C06" || id == "C13" || strings.Contains(p.of, id) {
			own = append(own, p)
		}
	}
	return func(x *X) {
		a := own[x.Choose(len(own))]
		b := mutPartList[x.Choose(len(mutPartList))]
		way := 0
		if id != "C13" {
			way = x.Choose(mutWays)
		} else {
			way = mutWays - 1 + x.Choose(mutTotal-mutWays+1)
		}
		n := x.Q(quick, thorough)
		states := make([]*mutState, n)
		for i := range states {
			states[i] = &mutStates[x.Choose(len(mutStates))]
		}
		x.Note(func() string {
			s := fmt.Sprintf("Element(div, %s, %s) rendered in way %d with the same objects, which are:", a.node, b.node, way)
			for _, st := range states {
				s += fmt.Sprintf(" %+v", *st)
			}
			return s
		})
		x.Ready()
		o := newMutObjects()
		l := &live{conds: o.conds}
		build := func(p mutPart) aitch.Node {
			if p.build != nil {
				return p.build()
			}
			return mutItemsIn(p.node, o.items).node(l)
		}
		node := aitch.Element("div", build(a), build(b))
		if way == 3 {
			node = aitch.Iterate(func(*context.Context) []any { return []any{o.data} }, node)
		}
		var tmpl *aitch.Template
		if way >= mutWays-1 {
			var err error
			if tmpl, err = aitch.NewTemplate("t", "{{n .}}{{.Data.k}}", aitch.NodeMap{"n": node}); err != nil {
				x.Failf("%v", err)
			}
		}
		var buf bytes.Buffer
		ctx := context.New(&buf, o.data, o.ptr)
		for i, s := range states {
			o.set(s)
			env := s.env()
			inner := map[string]any{}
			if s.inner != "" {
				inner["k"], inner["k0"] = s.inner, s.inner == "m2"
			}
			items := []any{s.ptr, inner}
			top := elNode("div", mutItemsIn(a.node, items), mutItemsIn(b.node, items))
			buf.Reset()
			var err error
			switch way {
			case 0: // another context
				err = node.Render(context.New(&buf, o.data, o.ptr))
			case 1: // the same context
				err = node.Render(ctx)
			case 2: // the same context, and another map
				ctx.Data = map[string]any{}
				for k, v := range o.data {
					ctx.Data[k] = v
				}
				err = node.Render(ctx)
			case 3: // an item that is the same map
				top = &Node{K: KIter, Items: []any{env.Data}, Kids: []*Node{top}}
				err = node.Render(ctx)
			case 4: // the context is changed instead of the map
				*ctx = context.Context{Writer: &buf, Data: s.env().Data, Cargo: o.ptr}
				for _, k := range []string{"list", "typed", "ptr", "fn", "raw"} {
					if v, ok := o.data[k]; ok {
						ctx.Data[k] = v
					}
				}
				err = node.Render(ctx)
			case 5: // the cargo is changed instead of what it points to
				err = node.Render(context.New(&buf, o.data, stringer{s.ptr}))
			case 6:
				err = tmpl.Execute(&buf, o.data, o.ptr)
			case 7, 8: // another map
				data := map[string]any{}
				for k, v := range o.data {
					data[k] = v
				}
				if way == 7 {
					err = tmpl.Execute(&buf, data, stringer{s.ptr})
				} else {
					env.Cargo = nil
					err = tmpl.Execute(&buf, data, nil)
				}
			}
			if err != nil {
				x.Failf("render %d: %v", i+1, err)
			}
			c := *env
			want := top.Model(&c)
			if way >= 6 {
				v, ok := s.data["k"]
				if !ok {
					v = ""
				}
				want += esc(fmt.Sprint(v))
			}
			if d := stdOpt.Same(buf.String(), want); d != "" {
				x.Failf("render %d: %s", i+1, d)
			}
			x.Observe(buf.Bytes())
		}
	}
}

// c15Mutated looks up in the same context, data and cargo, what is in them having changed
func c15Mutated(x *X) {
	type state struct {
		data map[string]any
		key  string
		num  int
		flag bool
		ptr  *C15Inner
	}
	states := []state{
		{map[string]any{"Key": "d1", "Num": 1}, "s1", 11, true, c15Inner},
		{map[string]any{"Key": "d2", "Num": 2}, "s2", 12, false, nil},
		{map[string]any{"Key": 3, "Num": "n"}, "s3", 13, true, c15Inner},
		{map[string]any{"Flag": true, "Ptr": c15Inner}, "s4", 14, false, &C15Inner{Deep: "other"}},
		{map[string]any{}, "", 0, false, nil},
		{map[string]any{"Key": nil, "Num": nil}, "s1", 11, true, nil},
	}
	kind := x.Choose(7)
	sameCtx := x.Bool()
	n := x.Q(3, 5)
	seq := make([]int, n)
	for i := range seq {
		seq[i] = x.Choose(len(states))
	}
	x.Note(func() string { return fmt.Sprintf("cargo of kind %d, same context %v, states %v", kind, sameCtx, seq) })
	x.Ready()
	x.nontriv = true
	data := map[string]any{}
	m := map[string]any{}
	sm := map[string]string{}
	st := &C15Struct{}
	em := &C15EmbedPtr{C15Inner: &C15Inner{}}
	types := []lookup{lookupOf[string](), lookupOf[int](), lookupOf[bool](), lookupOf[*C15Inner](), lookupOf[any]()}
	ctx := context.New(nil, data, nil)
	for _, i := range seq {
		s := states[i]
		clear(data)
		for k, v := range s.data {
			data[k] = v
		}
		clear(m)
		clear(sm)
		m["Key"], m["Num"], m["Flag"], m["Ptr"] = s.key, s.num, s.flag, s.ptr
		sm["Key"] = s.key
		st.Key, st.Num, st.Flag, st.Ptr = s.key, s.num, s.flag, s.ptr
		em.Num, em.Deep, em.Both = s.num, s.key, s.num
		var cargo any
		has := map[string]any{"Key": s.key, "Num": s.num, "Flag": s.flag, "Ptr": s.ptr}
		switch kind {
		case 0:
			cargo = m
		case 1:
			cargo = &m
		case 2:
			cargo = st
		case 3:
			cargo = *st
		case 4:
			cargo, has = sm, map[string]any{"Key": s.key}
		case 5:
			cargo, has = em, map[string]any{"Num": s.num, "Deep": s.key, "Both": s.num}
		case 6: // by turns
			cargo = []any{m, st}[i%2]
		}
		if !sameCtx {
			ctx = context.New(nil, data, cargo)
		} else {
			ctx.Cargo = cargo
		}
		for _, t := range types {
			for _, key := range []string{"Key", "Num", "Flag", "Ptr", "Deep", "Both", "None"} {
				want, found := any(nil), false
				if v, ok := s.data[key]; ok && t.is(v) {
					want, found = v, true
				} else if v, ok := has[key]; ok && t.is(v) {
					want, found = v, true
				}
				c15Check(x, ctx, t, key, want, found)
			}
		}
	}
}

func init() {
	add := func(id, bounds string, body func(x *X)) {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: "same-objects", Bounds: bounds, Body: body})
	}
	for _, id := range []string{"C01", "C03", "C04", "C06", "C10", "C11", "C12", "C13", "C19", "C20"} {
		quick, thorough := 3, 4
		if id == "C06" {
			quick, thorough = 2, 3
		}
		ways := 7
		if id == "C13" {
			ways = 3
		}
		add(id, fmt.Sprintf("two of 25 parts that read objects (one of the property's own) x %d ways of rendering with the same objects x all sequences of %d (thorough %d) of 8 states of the objects", ways, quick, thorough), mutated(id, quick, thorough))
	}
	add("C15", "7 kinds of cargo x the same or another context x all sequences of 3 (thorough 5) of 6 states of the data and cargo x 5 types x 7 keys", c15Mutated)
}
