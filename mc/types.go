package main

import (
	"bytes"
	"container/list"
	stdctx "context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"math/big"
	"net/http"
	"net/netip"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// Objects of Go types that have contents, or can be asked, in other ways than those documented.

type getCargo struct{ Key string }

func (getCargo) Get(string) any                       { return "got" }
func (getCargo) Value(any) any                        { return "valued" }
func (getCargo) Len() int                             { return 2 }
func (getCargo) At(int) any                           { return "at" }
func (getCargo) Index(int) any                        { return "index" }
func (getCargo) Next() bool                           { return false }
func (getCargo) All() iter.Seq[any]                   { return func(y func(any) bool) { y("all") } }
func (getCargo) Values() []any                        { return []any{"values"} }
func (getCargo) Slice() []any                         { return []any{"slice"} }
func (getCargo) Items() []any                         { return []any{"items"} }
func (getCargo) Num() int                             { return 99 }
func (getCargo) GetAny() any                          { return "any" }
func (getCargo) MarshalJSON() ([]byte, error)         { return []byte(`{"Num":3,"k":"json"}`), nil }
func (getCargo) UnmarshalJSON([]byte) error           { return nil }
func (getCargo) Fields() map[string]any               { return map[string]any{"Num": 3} }
func (getCargo) IsTrue() bool                         { return false }
func (getCargo) Bool() bool                           { return false }
func (getCargo) IsZero() bool                         { return true }
func (getCargo) IsEmpty() bool                        { return true }
func (getCargo) Has(string) bool                      { return false }
func (getCargo) Range(f func(k, v any) bool)          { f("Num", 3) }
func (getCargo) Read(p []byte) (int, error)           { return 0, io.EOF }
func (getCargo) WriteTo(io.Writer) (n int64, e error) { return }

type getTyped struct{ m map[string]any }

func (g getTyped) Get(k string) (any, bool)    { v, ok := g.m[k]; return v, ok }
func (g getTyped) Lookup(k string) (any, bool) { v, ok := g.m[k]; return v, ok }
func (g getTyped) Load(k any) (any, bool)      { v, ok := g.m[k.(string)]; return v, ok }
func (g getTyped) Map() map[string]any         { return g.m }
func (g getTyped) ToMap() map[string]any       { return g.m }
func (g getTyped) Unwrap() any                 { return g.m }
func (g getTyped) Interface() any              { return g.m }
func (g getTyped) Elem() any                   { return g.m }

type getKey struct{ N int }

func (getKey) String() string { return "Key" }

type getNamedGet map[string]any

func (getNamedGet) Get(string) any { return "got" }

type getFunc func(string) any

func (f getFunc) Get(k string) any { return f(k) }

func oddObjects() []any {
	m := map[string]any{"Key": "m", "k": "m", "Num": 1}
	var sm sync.Map
	sm.Store("Key", "sync")
	sm.Store("k", "sync")
	var av atomic.Value
	av.Store(m)
	l := list.New()
	l.PushBack("pushed")
	f, tr := false, true
	var iface any = false
	e := errors.New("e")
	u, _ := url.Parse("http://h/p?Key=q&k=q")
	seq := func(y func(string) bool) { _ = y("s1") && y("s2") }
	seq2 := func(y func(int, string) bool) { _ = y(0, "s1") && y(1, "s2") }
	ch := make(chan any, 2)
	ch <- "c1"
	ch <- "c2"
	close(ch)
	return append(append([]any{}, itemTypes...),
		getCargo{"field"}, &getCargo{"field"}, getTyped{m}, &getTyped{m}, getNamedGet{"k": 1}, getFunc(func(string) any { return "f" }), getKey{1},
		&sm, &av, l, l.Front(), stdctx.WithValue(stdctx.Background(), "Key", "ctx"), stdctx.WithValue(stdctx.Background(), "k", "ctx"), u, u.Query(), &http.Request{Form: url.Values{"k": {"form"}}}, http.Cookie{Name: "k", Value: "c"},
		&f, &tr, &iface, func() bool { return false }, func(*context.Context) bool { return false }, func(*context.Context) any { return false }, func() any { return false }, func() (bool, error) { return false, nil }, aitch.ConditionalFunc(func(*context.Context) bool { return false }),
		func() {}, (func() bool)(nil), (*bool)(nil), (error)(nil), e, 0, int8(0), uint(0), 0.0, complex(0, 0), "", "false", "FALSE", "0", "no", []byte(nil), []byte("false"), [0]int{}, [1]bool{}, struct{}{}, struct{ B bool }{}, []bool{false}, []any{}, []any(nil), map[string]bool{}, (*int)(nil), time.Time{}, time.Duration(0), big.NewInt(0), json.Number("0"), json.RawMessage("false"), json.RawMessage(`["a","b"]`), reflect.Value{}, reflect.ValueOf(false), reflect.ValueOf([]string{"rv"}), reflect.TypeOf(0), netip.Addr{}, atomic.Bool{}, &atomic.Bool{}, sync.OnceValue(func() bool { return false }),
		seq, seq2, iter.Seq[string](seq), iter.Seq[any](func(y func(any) bool) { y("s") }), iter.Seq2[int, string](seq2), func(y func() bool) { y() }, func(y func(any)) { y("y") }, func(_ *context.Context, y func(any)) { y("y") }, func(*context.Context) []any { return []any{"fn"} }, func() []string { return []string{"fn"} }, ch, (chan any)(nil),
		&[]any{"p"}, &[]string{"p"}, [2]any{"a", "b"}, &[2]any{"a", "b"}, &map[string]any{"0": "a"}, map[int]string{0: "a"}, strings.NewReader("r\nr"), bytes.NewBufferString("b\nb"), "a,b", "a\nb", `["a","b"]`, json.NewDecoder(strings.NewReader(`["a"]`)),
		aitch.NodeMap{}, aitch.Collection(aitch.Text("n")), aitch.NewValue(false), aitch.NewConcatValue("a", "b"), aitch.DynamicValueKey("k2"), aitch.DynamicValueFunc(func(*context.Context) []byte { return nil }),
	)
}

var oddList = oddObjects()

// c04Types: a condition on a key whose data is an object of any type: only a bool is a condition
func c04Types(x *X) {
	v := oddList[x.Choose(len(oddList))]
	form := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("key with a %T, form %d", v, form) })
	x.Ready()
	x.nontriv = true
	hold := true
	if b, ok := v.(bool); ok {
		hold = b
	}
	pos := aitch.When("k", aitch.Attribute("yes", "1"), aitch.Text("Y"))
	neg := aitch.When("!k", aitch.Attribute("no", "1"), aitch.Text("N"))
	var n aitch.Node
	switch form {
	case 0:
		n = aitch.Element("div", pos, neg)
	case 1:
		n = aitch.Element("div", aitch.Collection(neg, aitch.When("k", pos, aitch.When("!k", aitch.Text("X")))))
	case 2:
		n = aitch.Iterate(func(*context.Context) []any { return []any{"i"} }, aitch.Element("div", aitch.Conditional(func(*context.Context) bool { return true }, neg, pos)))
	case 3:
		n = aitch.Imperative(func(c aitch.ImperativeContext) error { c.WriteNodes(aitch.Element("div", neg, pos)); return nil })
	}
	data := map[string]any{}
	for i, s := range []int{1, 0, 1, 2, 1, 3, 1} {
		h := hold
		switch s {
		case 0:
			delete(data, "k")
			h = false
		case 1:
			data["k"] = v
		case 2:
			data["k"] = false
			h = false
		case 3:
			data["k"] = true
			h = true
		}
		want := `<div no="1">N</div>`
		if h {
			want = `<div yes="1">Y</div>`
		}
		got, err := render(n, &Env{Data: data, Cargo: v})
		if err != nil {
			x.Failf("render %d: %v", i+1, err)
		}
		if d := stdOpt.Same(got, want); d != "" {
			x.Failf("render %d, state %d: %s", i+1, s, d)
		}
		x.Observe([]byte(got))
	}
}

// c10NotLists: an object that is no slice under the key: no items; a slice of such objects: those items
func c10NotLists(x *X) {
	v := oddList[x.Choose(len(oddList))]
	place := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("IterateKey over a %T, placement %d", v, place) })
	x.Ready()
	x.nontriv = true
	rv := reflect.ValueOf(v)
	var items []any
	if v != nil && rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			items = append(items, rv.Index(i).Interface())
		}
	}
	n := 0
	bad := ""
	probe := func(ctx *context.Context) []byte {
		if n < len(items) && fmt.Sprintf("%T", ctx.Cargo) != fmt.Sprintf("%T", items[n]) {
			bad = fmt.Sprintf("the cargo is a %T", ctx.Cargo)
		}
		n++
		return []byte(".")
	}
	var node aitch.Node = aitch.IterateKey("k", aitch.Text(probe))
	data := map[string]any{"k": v}
	times := 1
	switch place {
	case 1:
		node = aitch.Element("ul", node)
	case 2:
		node = aitch.Iterate(func(*context.Context) []any { return []any{data, 0} }, node)
		times = 2
	case 3:
		in := node
		node = aitch.Imperative(func(c aitch.ImperativeContext) error { c.WriteNodes(aitch.When("k", in)); return nil })
		if b, ok := v.(bool); ok && !b {
			return
		}
	}
	if times == 2 {
		items = append(append([]any{}, items...), items...)
	}
	want := strings.Repeat(".", len(items))
	if place == 1 {
		want = "<ul>" + want + "</ul>"
	}
	for round := 0; round < 2; round++ {
		n = 0
		var buf bytes.Buffer
		if err := node.Render(context.New(&buf, data, v)); err != nil || bad != "" || n != len(items) {
			x.Failf("error %v, %d items instead of %d %s", err, n, len(items), bad)
		}
		if buf.String() != want {
			x.Failf("wrote %q instead of %q", buf.String(), want)
		}
		x.Observe(buf.Bytes())
	}
	// as an item of a typed slice
	if v == nil {
		return
	}
	sl := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 2, 3)
	sl.Index(0).Set(rv)
	n, bad, items = 0, "", []any{v, v}
	if _, err := render(aitch.IterateKey("k", aitch.Text(probe)), &Env{Data: map[string]any{"k": sl.Interface()}}); err != nil || n != 2 || bad != "" {
		x.Failf("as the item of a slice: error %v, %d items instead of 2 %s", err, n, bad)
	}
}

// c06Shared: values and nodes made of the values and nodes made before, in sequence; everything rendered at the end
func c06Shared(x *X) {
	type made struct {
		val  any // a Value or a Node
		want string
		note string
	}
	bases := []func() made{
		func() made { return made{aitch.NewConcatValue("a", "b"), "ab", `NewConcatValue("a","b")`} },
		func() made { return made{aitch.NewConcatValue("a", "b", nil), "ab", `NewConcatValue("a","b",nil)`} },
		func() made {
			return made{aitch.NewConcatValue("a", nil, nil, nil), "a", `NewConcatValue("a",nil,nil,nil)`}
		},
		func() made { return made{aitch.NewConcatValue(nil, nil), "", `NewConcatValue(nil,nil)`} },
		func() made {
			return made{aitch.NewConcatValue("a", "b", "c", "d", "e"), "abcde", `NewConcatValue of 5`}
		},
		func() made {
			return made{aitch.NewConcatValue(aitch.NewConcatValue("a", nil), aitch.DynamicValueKey("k")), "aK", `NewConcatValue(NewConcatValue("a",nil),key)`}
		},
		func() made { return made{aitch.Text("a", nil, nil), "a", `Text("a",nil,nil)`} },
		func() made { return made{aitch.Text("a", "b", "c"), "abc", `Text("a","b","c")`} },
		func() made {
			return made{aitch.Attribute("n", "a", nil, aitch.DynamicValueKey("k"), nil), "aK", `Attribute("a",nil,key,nil)`}
		},
		func() made {
			return made{aitch.Collection(aitch.Text("a"), nil, aitch.Text("b", nil), nil), "ab", `Collection(Text("a"),nil,Text("b",nil),nil)`}
		},
		func() made {
			return made{aitch.NewValue(aitch.Text("a", "b", nil, nil)), "ab", `NewValue(Text("a","b",nil,nil))`}
		},
		func() made { return made{aitch.NewValue([]byte("a")), "a", `NewValue([]byte("a"))`} },
	}
	pool := []made{bases[x.Choose(len(bases))]()}
	kinds := []struct {
		name string
		of   func(args ...any) any
	}{
		{"NewConcatValue", func(a ...any) any { return aitch.NewConcatValue(a...) }},
		{"NewValue(NewConcatValue)", func(a ...any) any { return aitch.NewValue(aitch.NewConcatValue(a...)) }},
		{"Text", func(a ...any) any { return aitch.Text(a...) }},
		{"Collection", func(a ...any) any {
			nodes := make([]aitch.Node, len(a))
			for i := range a {
				var ok bool
				if nodes[i], ok = a[i].(aitch.Node); !ok && a[i] != nil {
					nodes[i] = aitch.Text(a[i])
				}
			}
			return aitch.Collection(nodes...)
		}},
		{"Attribute", func(a ...any) any { return aitch.Attribute("n", a...) }},
		{"DelimitedAttribute", func(a ...any) any { return aitch.DelimitedAttribute("n", "", a...) }},
	}
	steps := x.Q(2, 3)
	var notes []string
	notes = append(notes, pool[0].note)
	for s := 0; s < steps; s++ {
		k := kinds[x.Choose(len(kinds))]
		i := x.Choose(len(pool))
		form := x.Choose(5 + len(pool))
		p := pool[i]
		letter := string(rune('p' + s))
		var args []any
		var want string
		switch form {
		case 0:
			args, want = []any{p.val}, p.want
		case 1:
			args, want = []any{p.val, letter}, p.want+letter
		case 2:
			args, want = []any{p.val, nil, letter, nil}, p.want+letter
		case 3:
			args, want = []any{letter, p.val}, letter+p.want
		case 4:
			args, want = []any{p.val, aitch.DynamicValueKey("k"), nil, nil, nil}, p.want+"K"
		default:
			args, want = []any{p.val, pool[form-5].val}, p.want+pool[form-5].want
		}
		notes = append(notes, fmt.Sprintf("%s of #%d, form %d", k.name, i, form))
		pool = append(pool, made{k.of(args...), want, ""})
	}
	x.Note(func() string { return strings.Join(notes, "; ") })
	x.Ready()
	x.nontriv = true
	for round := 0; round < 2; round++ {
		for i, p := range pool {
			got, err := render(aitch.Text(p.val), &Env{Data: map[string]any{"k": "K"}})
			if err != nil || got != p.want {
				x.Failf("#%d renders %q instead of %q (%v)", i, got, p.want, err)
			}
			x.Observe([]byte(got))
		}
	}
}

// c14Values: the name decides, whatever the values are
func c14Values(x *X) {
	names := []string{"a", "data-x:y.z_0", "class", "style", "id", "", " ", "a b", "0", "a=", "é", "a\n", "-a", "class ", "input", "BR", ">"}
	name := names[x.Choose(len(names))]
	vals := []any{nil, "", "v", aitch.DynamicValueKey("k"), aitch.Value{}, true, []byte(nil), aitch.Node(nil), aitch.Text("t"), aitch.Attribute("b", 1), unsupported{}, errApp1}
	n := x.Choose(x.Q(3, 4))
	var args []any
	for i := 0; i < n; i++ {
		args = append(args, vals[x.Choose(len(vals))])
	}
	kind := x.Choose(6)
	x.Note(func() string { return fmt.Sprintf("constructor %d, name %q, values %#v", kind, name, args) })
	x.Ready()
	x.nontriv = true
	ok := validName(name)
	for _, panics := range []bool{false, true} {
		node, panicked := construct(func(n string) aitch.Node {
			switch kind {
			case 0:
				return aitch.Attribute(n, args...)
			case 1:
				return aitch.DelimitedAttribute(n, " ", args...)
			case 2:
				return aitch.DelimitedAttribute(n, "", args...)
			case 3:
				return aitch.DelimitedAttribute(n, "; ", args...)
			case 4:
				return aitch.Element(n, args...)
			}
			return aitch.VoidElement(n, args...)
		}, name, panics)
		switch {
		case ok && (panicked || node == nil || node.Name() != name):
			x.Failf("a valid name: panicked %v, result %v", panicked, node)
		case !ok && (panicked != panics || node != nil):
			x.Failf("an invalid name: panicked %v, result %v", panicked, node)
		}
		x.evals++
	}
}

func init() {
	p := props["C04"]
	p.Suites = append(p.Suites, &Suite{Name: "data-types", Bounds: fmt.Sprintf("objects of %d kinds under the key of When (functions of a bool, pointers to one, objects with methods, zero values, ...) x 4 surroundings x 7 renders with other states between", len(oddList)), Body: c04Types})
	p = props["C10"]
	p.Suites = append(p.Suites, &Suite{Name: "not-lists", Bounds: fmt.Sprintf("objects of %d kinds under the key of IterateKey (range functions, iterators, pointers to slices, readers, lists, nodes, ...) x 4 surroundings, and slices of each of their types", len(oddList)), Body: c10NotLists})
	p = props["C06"]
	p.Suites = append(p.Suites, &Suite{Name: "made-of", Bounds: "12 values and nodes, and all sequences of 2 (thorough 3) constructions of values, texts, collections and attributes from what was made before and a letter, 5 argument forms and pairs; all rendered twice at the end", Body: c06Shared})
	p = props["C14"]
	p.Suites = append(p.Suites, &Suite{Name: "values", Bounds: "17 names x lists of up to 2 (thorough 3) values of 12 kinds (nil, empty, nodes, ...) x 6 checked constructors x both settings", Body: c14Values})
}
