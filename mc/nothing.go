package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// Renders of one template with nothing (no data, empty data, no cargo) before, between and after renders with something:
// nothing is nothing, whatever the other renders had.

type absentState struct {
	data  map[string]any
	cargo any
}

func (s absentState) String() string { return fmt.Sprintf("%#v, %#v", s.data, s.cargo) }

func absentStates() (out []absentState) {
	for _, d := range []map[string]any{nil, {}, {"k": "A<", "k0": true, "list": []any{"i", map[string]any{"k": "in"}}, "typed": []any{"x", ""}, "ptr": "p", "raw": []byte("r"), "fn": "f", "q": "Q"}, {"k": nil, "k0": nil, "list": nil, "ptr": nil}, {"list": []any{nil, map[string]any(nil), map[string]any{}}, "k0": false, "typed": []any{}}} {
		for _, c := range []any{nil, "C&"} {
			out = append(out, absentState{d, c})
		}
	}
	return
}

const absentWays = 6

// absent renders a template of two parts in all sequences of states
func absent(id string, quick, thorough int) func(x *X) {
	var own, others []mutPart
	for i, p := range mutPartList {
		if id == "C06" || id == "C13" || strings.Contains(p.of, id) {
			own = append(own, p)
		}
		if i%5 == 0 {
			others = append(others, p)
		}
	}
	states := absentStates()
	items := []any{nil, map[string]any(nil), "x", map[string]any{"k": "it"}}
	return func(x *X) {
		a := own[x.Choose(len(own))]
		b := others[x.Choose(len(others))]
		way := 0
		if id == "C13" {
			way = 4 + x.Choose(2)
		} else {
			way = x.Choose(absentWays)
		}
		n := x.Q(quick, thorough)
		if way >= 4 && !x.Thorough() && id != "C13" {
			n = 2
		}
		seq := make([]absentState, n)
		for i := range seq {
			seq[i] = states[x.Choose(len(states))]
		}
		x.Note(func() string {
			return fmt.Sprintf("Element(div, %s, %s) rendered in way %d with %v", a.node, b.node, way, seq)
		})
		x.Ready()
		x.nontriv = true
		conds := []bool{true, false}
		l := &live{conds: conds}
		build := func(p mutPart) aitch.Node {
			if p.build != nil {
				return p.build()
			}
			return mutItemsIn(p.node, items).node(l)
		}
		node := aitch.Element("div", build(a), build(b))
		top := elNode("div", mutItemsIn(a.node, items), mutItemsIn(b.node, items))
		var tmpl *aitch.Template
		if way >= 4 {
			var err error
			src := []string{"{{n .}}", "{{n .}}|{{if .Data.k0}}{{n .}}{{end}}"}[way-4]
			if tmpl, err = aitch.NewTemplate("t", src, aitch.NodeMap{"n": node}); err != nil {
				x.Failf("%v", err)
			}
		}
		var buf bytes.Buffer
		ctx := context.New(&buf, nil, nil)
		for i, s := range seq {
			buf.Reset()
			env := &Env{Data: s.data, Cargo: s.cargo, Conds: conds}
			want := ""
			var err error
			switch way {
			case 0: // another context
				err = node.Render(context.New(&buf, s.data, s.cargo))
			case 1: // the same context
				ctx.Data, ctx.Cargo = s.data, s.cargo
				err = node.Render(ctx)
			case 2: // as the item of an iteration
				c := *env
				want = (&Node{K: KIter, Items: []any{s.cargo, s.data, s.cargo}, Kids: []*Node{top}}).Model(&c)
				err = aitch.Iterate(func(*context.Context) []any { return []any{s.cargo, s.data, s.cargo} }, node).Render(context.New(&buf, s.data, s.cargo))
			case 3: // with a parent that has more
				p := context.New(&buf, map[string]any{"k": "parent", "k0": true, "list": []any{"parent"}, "q": "parent"}, "parent")
				err = node.Render(&context.Context{Writer: &buf, Data: s.data, Cargo: s.cargo, Parent: p})
				if strings.Contains(a.node.String()+b.node.String(), "parent") {
					want = buf.String() // what reads the parent finds it
				}
			default:
				err = tmpl.Execute(&buf, s.data, s.cargo)
			}
			if err != nil {
				x.Failf("render %d: %v", i+1, err)
			}
			if want == "" {
				c := *env
				want = top.Model(&c)
				if way == 5 {
					if k0, _ := s.data["k0"].(bool); k0 {
						want += "|" + want
					} else {
						want += "|"
					}
				}
			}
			if d := stdOpt.Same(buf.String(), want); d != "" {
				x.Failf("render %d: %s", i+1, d)
			}
			x.Observe(buf.Bytes())
		}
	}
}

// items of every type: only a map[string]any is data

type itemNamedMap map[string]any
type itemNamedKey string
type itemStruct struct {
	K    string
	k    string
	Data map[string]any
}
type itemEmbeds struct{ itemNamedMap }
type itemLookup struct{}

func (itemLookup) Get(string) any                 { return "got" }
func (itemLookup) Map() map[string]any            { return map[string]any{"k": "mapped"} }
func (itemLookup) MarshalText() ([]byte, error)   { return []byte("marshalled"), nil }
func (itemLookup) Range(f func(k string, v any))  { f("k", "ranged") }
func (itemLookup) ToMap() map[string]any          { return map[string]any{"k": "mapped"} }
func (itemLookup) Lookup(string) (any, bool)      { return "looked up", true }
func (itemLookup) Data() map[string]any           { return map[string]any{"k": "mapped"} }
func (itemLookup) MarshalJSON() ([]byte, error)   { return []byte(`{"k":"json"}`), nil }
func (itemLookup) AsMap() map[string]interface{}  { return map[string]any{"k": "mapped"} }
func (itemLookup) Items() (map[string]any, error) { return map[string]any{"k": "mapped"}, nil }

var itemTypes = func() []any {
	m := map[string]any{"k": "item"}
	pm := &m
	var iface any = m
	return []any{
		m, map[string]any(nil), map[string]any{}, itemNamedMap{"k": "item"}, itemNamedMap(nil), pm, &pm, (*map[string]any)(nil), &iface, map[string]string{"k": "item"}, map[string]int{"k": 1}, map[string][]string{"k": {"item"}},
		map[any]any{"k": "item"}, map[itemNamedKey]any{"k": "item"}, map[int]any{0: "item"}, map[string]map[string]any{"k": m}, map[string]fmt.Stringer{"k": stringer{"item"}}, map[string]struct{}{"k": {}}, map[string]bool{"k": true},
		url.Values{"k": {"item"}}, http.Header{"k": {"item"}}, aitch.NodeMap{"k": aitch.Text("item")},
		itemStruct{"item", "item", m}, &itemStruct{"item", "item", m}, (*itemStruct)(nil), struct{ Data map[string]any }{m}, itemEmbeds{itemNamedMap(m)}, &itemEmbeds{itemNamedMap(m)}, itemLookup{}, &itemLookup{},
		[]any{m}, []map[string]any{m}, [1]any{m}, [][2]any{{"k", "item"}}, []string{"k", "item"}, &context.Context{Data: m, Cargo: "item"}, context.Context{Data: m, Cargo: "item"},
		func() map[string]any { return m }, func() any { return m }, func(*context.Context) any { return m }, func(*context.Context) map[string]any { return m }, make(chan map[string]any), `{"k":"item"}`, []byte(`{"k":"item"}`), "k", 'k', 1.5, nil, true, errApp1, aitch.Text("item"), aitch.NewValue("item"), reflect.ValueOf(m),
	}
}()

// c10Types iterates over lists of two items of every type
func c10Types(x *X) {
	form := x.Choose(3)
	first := itemTypes[x.Choose(len(itemTypes))]
	around := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("form %d, first item %T, surrounding %d", form, first, around) })
	x.Ready()
	x.nontriv = true
	same := func(a, b any) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		if va.Type() != vb.Type() {
			return false
		}
		switch va.Kind() {
		case reflect.Map, reflect.Func, reflect.Slice, reflect.Chan, reflect.Pointer:
			return va.Pointer() == vb.Pointer()
		}
		return reflect.DeepEqual(a, b)
	}
	for _, second := range itemTypes {
		items := []any{first, second, "last"}
		outer := map[string]any{"k": "outer", "items": items}
		expectData := outer
		seen := 0
		enclosing := any("cargo")
		bad := ""
		it := func(ctx *context.Context) []byte {
			i := seen % len(items)
			seen++
			want := expectData
			if m, ok := items[i].(map[string]any); ok {
				want = m
			}
			switch {
			case !same(ctx.Cargo, items[i]):
				bad = fmt.Sprintf("the cargo is %#v instead of item %d, a %T", ctx.Cargo, i, items[i])
			case !same(ctx.Data, want) || ctx.Data == nil != (want == nil):
				bad = fmt.Sprintf("the data is %v with item %d, a %T", ctx.Data, i, items[i])
			case ctx.Parent == nil || !same(ctx.Parent.Data, expectData) || !same(ctx.Parent.Cargo, enclosing):
				bad = fmt.Sprintf("another parent with item %d, a %T", i, items[i])
			}
			return []byte(".")
		}
		var n aitch.Node
		switch form {
		case 0:
			n = aitch.Iterate(func(*context.Context) []any { return items }, aitch.Text(it))
		case 1:
			n = aitch.IterateKey("items", aitch.Text(it))
		case 2:
			n = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
				for _, i := range items {
					yield(i)
				}
			}, aitch.Text(it))
		}
		times := 1
		switch around {
		case 1: // within an element within an iteration of two strings
			times = 2
			in := n
			item := 0
			n = aitch.Iterate(func(*context.Context) []any { return []any{"o1", "o2"} },
				aitch.Text(func(*context.Context) []byte { item++; enclosing = fmt.Sprintf("o%d", 2-item%2); return nil }), aitch.Element("p", in))
		case 2: // within an iteration of a map
			inner := map[string]any{"k": "inner", "items": items}
			expectData, enclosing = inner, inner
			n = aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(inner) }, aitch.Collection(n))
		}
		for round := 0; round < 2; round++ {
			seen = 0
			var buf bytes.Buffer
			ctx := context.New(&buf, outer, "cargo")
			if err := n.Render(ctx); err != nil {
				x.Failf("second item %T: %v", second, err)
			}
			if bad == "" && seen != times*len(items) {
				bad = fmt.Sprintf("%d items rendered", seen)
			}
			if bad == "" && (!same(ctx.Data, outer) || ctx.Cargo != "cargo" || len(outer) != 2) {
				bad = "the enclosing context changed"
			}
			if bad != "" {
				x.Failf("second item %T: %s", second, bad)
			}
			x.Observe(buf.Bytes())
		}
	}
}

func init() {
	for _, id := range []string{"C01", "C03", "C04", "C06", "C10", "C11", "C12", "C13", "C19", "C20"} {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: "nothing", Bounds: "two parts that read data (one of the property's own, 5 others) x 6 ways of rendering x all sequences of 3 (thorough 4; template ways 2 and 4) of 10 states (no data, empty data, nil and empty entries, data; no cargo or one)", Body: absent(id, 3, 4)})
	}
	p := props["C10"]
	p.Suites = append(p.Suites, &Suite{Name: "item-types", Bounds: fmt.Sprintf("lists of two items of %d types (maps, named maps, pointers, structs, functions, contexts, nodes, ...) and a string x 3 iterator forms x 3 surroundings, with the identity of cargo, data and parent checked in every body", len(itemTypes)), Body: c10Types})
}
