package main

import (
	"bytes"
	stdctx "context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sync"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// lookups by type

type lookup struct {
	name string
	get  func(ctx *context.Context, key string) (any, bool)
	must func(ctx *context.Context, key string) any
	zero any
	is   func(v any) bool
}

func lookupOf[T any]() lookup {
	var zero T
	return lookup{
		name: reflect.TypeOf(&zero).Elem().String(),
		get: func(ctx *context.Context, key string) (any, bool) {
			v, ok := context.Get[T](ctx, key)
			return v, ok
		},
		must: func(ctx *context.Context, key string) any { return context.MustGet[T](ctx, key) },
		zero: zero,
		is:   func(v any) bool { _, ok := v.(T); return ok },
	}
}

type c15Str string

type c15Err struct{ s string }

func (e c15Err) Error() string { return e.s }

type C15Inner struct {
	Deep  string
	Both  int
	inner string
}

type C15Other struct{ Both int }

type c15hidden struct{ Shown string }

type C15Struct struct {
	Key      string
	Num      int
	Any      any
	Err      error
	Bytes    []byte
	Ptr      *C15Inner
	Sub      C15Inner
	Map      map[string]any
	Fn       func() any
	Named    c15Str
	Flag     bool
	k        string
	hidden   int
	Exported struct{ Key string }
}

type C15Embed struct {
	C15Inner
	Key int
}

type C15EmbedPtr struct {
	*C15Inner
	Num int
}

type C15EmbedHidden struct {
	c15hidden
	Key string
}

type C15EmbedHiddenPtr struct {
	*c15hidden
}

type C15Ambiguous struct {
	C15Inner
	C15Other
}

type C15Shadow struct {
	C15Inner
	Deep int
}

func (C15Struct) Method() string { return "method" }

type c15Iface interface{ Error() string }

var c15Types = []lookup{
	lookupOf[string](), lookupOf[int](), lookupOf[any](), lookupOf[error](), lookupOf[fmt.Stringer](), lookupOf[[]byte](), lookupOf[*C15Inner](), lookupOf[C15Inner](),
	lookupOf[map[string]any](), lookupOf[bool](), lookupOf[func() any](), lookupOf[c15Str](), lookupOf[float64](), lookupOf[int64](), lookupOf[*C15Struct](), lookupOf[c15Iface](), lookupOf[[]any](),
}

var c15Inner = &C15Inner{Deep: "deep", Both: 5, inner: "hidden"}
var c15Fn = func() any { return 1 }

var c15Full = C15Struct{Key: "field", Num: 3, Any: "any", Err: c15Err{"e"}, Bytes: []byte("b"), Ptr: c15Inner, Sub: *c15Inner, Map: map[string]any{"k": 1}, Fn: c15Fn,
	Named: "named", Flag: true, k: "unexported", hidden: 9}

// c15Cargo is a cargo and what is in it
type c15Cargo struct {
	name  string
	cargo any
	has   map[string]any
}

var c15FullHas = map[string]any{"Key": "field", "Num": 3, "Any": "any", "Err": c15Err{"e"}, "Bytes": []byte("b"), "Ptr": c15Inner, "Sub": *c15Inner, "Map": map[string]any{"k": 1},
	"Fn": c15Fn, "Named": c15Str("named"), "Flag": true, "Exported": struct{ Key string }{}}

var c15EmptyHas = map[string]any{"Key": "", "Num": 0, "Any": nil, "Err": nil, "Bytes": []byte(nil), "Ptr": (*C15Inner)(nil), "Sub": C15Inner{}, "Map": map[string]any(nil),
	"Fn": (func() any)(nil), "Named": c15Str(""), "Flag": false, "Exported": struct{ Key string }{}}

func sameNameA() any {
	type Same struct {
		Key string
		Num int
	}
	return Same{"A", 1}
}

func sameNameB() any {
	type Same struct {
		Num string
		Key int
	}
	return &Same{"B", 2}
}

func c15PtrAny(v any) any { return &v }

func c15SyncMap() any {
	var m sync.Map
	m.Store("Key", "sync")
	return &m
}

func c15Cargos() []c15Cargo {
	m := map[string]any{"Key": "map", "Num": 4, "k": "lower", "Any": nil, "": "empty", "Err": errors.New("x"), "Ptr": c15Inner, "Deep": c15Str("n"), "k.x": 1, "Bytes": []byte("mb"), "Flag": false}
	full := c15Full
	full2 := &full
	em := map[string]any{}
	var nilMap map[string]any
	var nilStruct *C15Struct
	var nilErr *c15Err
	var nilIface error
	named := map[c15Str]string{"Key": "namedkey", "k": "l"}
	return []c15Cargo{
		{"nil", nil, nil},
		{"map", m, m},
		{"pointer to map", &m, m},
		{"empty map", em, nil},
		{"nil map", nilMap, nil},
		{"pointer to nil map", &nilMap, nil},
		{"map of strings", map[string]string{"Key": "s", "k": "", "Num": "5"}, map[string]any{"Key": "s", "k": "", "Num": "5"}},
		{"map of ints", map[string]int{"Key": 8, "Num": 0}, map[string]any{"Key": 8, "Num": 0}},
		{"map of errors", map[string]error{"Key": nil, "Err": c15Err{"m"}}, map[string]any{"Key": nil, "Err": c15Err{"m"}}},
		{"map of pointers", map[string]*C15Inner{"Key": nil, "Ptr": c15Inner}, map[string]any{"Key": (*C15Inner)(nil), "Ptr": c15Inner}},
		{"map with named string keys", named, map[string]any{"Key": "namedkey", "k": "l"}},
		{"pointer to map with named string keys", &named, map[string]any{"Key": "namedkey", "k": "l"}},
		{"map with int keys", map[int]string{0: "x", 75: "K"}, nil},
		{"map with rune keys", map[rune]any{'k': "x"}, nil},
		{"map with struct keys", map[C15Other]string{{}: "x"}, nil},
		{"struct", c15Full, c15FullHas},
		{"pointer to struct", &c15Full, c15FullHas},
		{"empty struct value", C15Struct{}, c15EmptyHas},
		{"pointer to an empty struct value", &C15Struct{}, c15EmptyHas},
		{"nil pointer to struct", nilStruct, nil},
		{"pointer to pointer to struct", &full2, nil},
		{"pointer to nil pointer", &nilStruct, nil},
		{"nil pointer to error", nilErr, nil},
		{"pointer to nil interface", &nilIface, nil},
		{"embedding struct", C15Embed{*c15Inner, 6}, map[string]any{"Key": 6, "Deep": "deep", "Both": 5, "C15Inner": *c15Inner}},
		{"pointer to embedding struct", &C15Embed{*c15Inner, 6}, map[string]any{"Key": 6, "Deep": "deep", "Both": 5, "C15Inner": *c15Inner}},
		{"struct embedding a pointer", C15EmbedPtr{c15Inner, 7}, map[string]any{"Num": 7, "Deep": "deep", "Both": 5, "C15Inner": c15Inner}},
		{"struct embedding a nil pointer", C15EmbedPtr{nil, 7}, map[string]any{"Num": 7, "C15Inner": (*C15Inner)(nil)}},
		{"pointer to struct embedding a nil pointer", &C15EmbedPtr{nil, 7}, map[string]any{"Num": 7, "C15Inner": (*C15Inner)(nil)}},
		{"struct embedding an unexported struct", C15EmbedHidden{c15hidden{"shown"}, "h"}, map[string]any{"Key": "h", "Shown": "shown"}},
		{"pointer to struct embedding an unexported struct", &C15EmbedHidden{c15hidden{"shown"}, "h"}, map[string]any{"Key": "h", "Shown": "shown"}},
		{"struct embedding a nil unexported pointer", C15EmbedHiddenPtr{}, nil},
		{"struct with an ambiguous field", C15Ambiguous{*c15Inner, C15Other{1}}, map[string]any{"Deep": "deep", "C15Inner": *c15Inner, "C15Other": C15Other{1}}},
		{"struct with a shadowed field", C15Shadow{*c15Inner, 11}, map[string]any{"Deep": 11, "Both": 5, "C15Inner": *c15Inner}},
		{"unexported struct", c15hidden{"s"}, map[string]any{"Shown": "s"}},
		{"anonymous struct", struct {
			Key string
			k   int
		}{"anon", 1}, map[string]any{"Key": "anon"}},
		{"struct without fields", struct{}{}, nil},
		{"local type", sameNameA(), map[string]any{"Key": "A", "Num": 1}},
		{"local type of the same name", sameNameB(), map[string]any{"Key": 2, "Num": "B"}},
		{"tagged struct", C15Tagged{"t", true, "s"}, map[string]any{"Key": "t", "Flag": true, "Sub": "s"}},
		{"pointer to tagged struct", &C15Tagged{"t", true, "s"}, map[string]any{"Key": "t", "Flag": true, "Sub": "s"}},
		{"struct with a non-ASCII field", struct{ É, Key string }{"e", "K"}, map[string]any{"É": "e", "Key": "K"}},
		{"string", "Key", nil},
		{"int", 1, nil},
		{"slice", []string{"Key"}, nil},
		{"nil slice", []any(nil), nil},
		{"array", [2]int{}, nil},
		{"func", func() {}, nil},
		{"nil func", (func())(nil), nil},
		{"chan", make(chan int), nil},
		{"error", errors.New("Key"), nil},
		{"pointer to int", new(int), nil},
		{"pointer to string", new(string), nil},
		{"pointer to slice", &[]int{1}, nil},
		{"bool", true, nil},
		{"complex", complex(1, 2), nil},
		{"uintptr", uintptr(1), nil},
		{"reflect.Value", reflect.ValueOf(m), nil},
		{"struct with methods", getCargo{"field"}, map[string]any{"Key": "field"}},
		{"pointer to struct with methods", &getCargo{"field"}, map[string]any{"Key": "field"}},
		{"struct with lookup methods", getTyped{m}, nil},
		{"pointer to struct with lookup methods", &getTyped{m}, nil},
		{"map with methods", getNamedGet{"k": 1, "Num": 5}, map[string]any{"k": 1, "Num": 5}},
		{"pointer to map with methods", &getNamedGet{"k": 1, "Num": 5}, map[string]any{"k": 1, "Num": 5}},
		{"func with methods", getFunc(func(k string) any { return m[k] }), nil},
		{"lookup func", func(k string) any { return m[k] }, nil},
		{"typed lookup func", func(k string) (any, bool) { v, ok := m[k]; return v, ok }, nil},
		{"func of a map", func() map[string]any { return m }, nil},
		{"func of a struct", func() any { return c15Full }, nil},
		{"map with keys that are stringers", map[getKey]any{{1}: "x"}, nil},
		{"map with interface keys", map[any]any{"Key": "x", "k": 1}, nil},
		{"url.Values", url.Values{"k": {"v"}, "Key": {"a", "b"}}, map[string]any{"k": []string{"v"}, "Key": []string{"a", "b"}}},
		{"http.Header", http.Header{"Key": {"v"}}, map[string]any{"Key": []string{"v"}}},
		{"sync.Map", c15SyncMap(), nil},
		{"standard context", stdctx.WithValue(stdctx.Background(), "Key", "x"), nil},
		{"slice of maps", []map[string]any{m}, nil},
		{"slice of any with a map", []any{m}, nil},
		{"array of a map", [1]map[string]any{m}, nil},
		{"slice of pairs", [][2]any{{"Key", "x"}}, nil},
		{"JSON", `{"Key":"x"}`, nil},
		{"JSON bytes", []byte(`{"Key":"x"}`), nil},
		{"JSON message", json.RawMessage(`{"Key":"x"}`), nil},
		{"pointer to any with a map", c15PtrAny(m), nil},
		{"pointer to any with a struct", c15PtrAny(c15Full), nil},
		{"value", aitch.NewValue("Key"), nil},
		{"node", aitch.Text("Key"), nil},
		{"element", aitch.Element("p", aitch.Attribute("Key", "x")), nil},
		{"context value", context.Context{Cargo: m, Data: m}, map[string]any{"Data": m}},
		{"context", &context.Context{Data: map[string]any{"Key": "inner"}}, map[string]any{"Data": map[string]any{"Key": "inner"}}},
	}
}

var c15CargoList = c15Cargos()

var c15Keys = []string{"Key", "Num", "k", "", "Any", "Err", "Deep", "Both", "Shown", "hidden", "inner", "C15Inner", "c15hidden", "Ptr", "Sub", "Map", "Bytes", "Fn", "Named", "Flag",
	"Method", "Sub.Deep", "key", "KEY", "k.x", "0", "\x00", "é", "C15Other", "Exported", "Data", "É", "-"}

// what the data may have under the key
var c15Data = []struct {
	name string
	set  func(key string) map[string]any
}{
	{"nil data", func(string) map[string]any { return nil }},
	{"empty data", func(string) map[string]any { return map[string]any{} }},
	{"other key", func(k string) map[string]any { return map[string]any{k + "x": "x", "x" + k: 1} }},
	{"string", func(k string) map[string]any { return map[string]any{k: "data"} }},
	{"empty string", func(k string) map[string]any { return map[string]any{k: ""} }},
	{"int", func(k string) map[string]any { return map[string]any{k: 42} }},
	{"int64", func(k string) map[string]any { return map[string]any{k: int64(42)} }},
	{"false", func(k string) map[string]any { return map[string]any{k: false} }},
	{"nil", func(k string) map[string]any { return map[string]any{k: nil} }},
	{"error", func(k string) map[string]any { return map[string]any{k: c15Err{"d"}} }},
	{"nil pointer", func(k string) map[string]any { return map[string]any{k: (*C15Inner)(nil)} }},
	{"pointer to struct", func(k string) map[string]any { return map[string]any{k: &c15Full} }},
	{"named string", func(k string) map[string]any { return map[string]any{k: c15Str("n")} }},
	{"map", func(k string) map[string]any { return map[string]any{k: map[string]any{k: "nested"}} }},
	{"function", func(k string) map[string]any { return map[string]any{k: c15Fn} }},
	{"slice", func(k string) map[string]any { return map[string]any{k: []any{1}} }},
	{"stringer", func(k string) map[string]any { return map[string]any{k: stringer{"s"}} }},
	{"typed nil error", func(k string) map[string]any { return map[string]any{k: (*c15Err)(nil)} }},
}

func sameValue(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Func && vb.Kind() == reflect.Func {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func c15Check(x *X, ctx *context.Context, t lookup, key string, want any, found bool) {
	if !found {
		want = t.zero
	}
	got, ok := t.get(ctx, key)
	if ok != found {
		x.Failf("Get returns %v, %v instead of %v, %v", got, ok, want, found)
	}
	if !sameValue(got, want) {
		x.Failf("Get returns %#v instead of %#v", got, want)
	}
	func() {
		defer func() {
			if r := recover(); (r != nil) == found {
				x.Failf("MustGet panics: %v, although found is %v", r, found)
			}
		}()
		if v := t.must(ctx, key); found && !sameValue(v, want) {
			panic(failRun{fmt.Sprintf("MustGet returns %#v instead of %#v", v, want)})
		}
	}()
	x.evals++
}

func c15Lookup(x *X) {
	t := c15Types[x.Choose(len(c15Types))]
	c := c15CargoList[x.Choose(len(c15CargoList))]
	x.Note(func() string { return fmt.Sprintf("Get[%s] with cargo %s", t.name, c.name) })
	x.Ready()
	x.nontriv = true
	for _, key := range c15Keys {
		for _, d := range c15Data {
			for form := 0; form < 3; form++ {
				k, dn := key, d.name
				x.note = func() string { return fmt.Sprintf("Get[%s] of %q, data %s, cargo %s", t.name, k, dn, c.name) }
				data := d.set(key)
				var buf bytes.Buffer
				ctx := context.New(&buf, data, c.cargo)
				switch form {
				case 1:
					ctx = &context.Context{Data: data, Cargo: c.cargo}
				case 2:
					// what an enclosing context has is not looked at
					ctx = &context.Context{Data: data, Cargo: c.cargo, Error: errApp1, Parent: context.New(&buf, map[string]any{key: "parent", "": 1}, map[string]any{key: 3})}
				}
				var want any
				found := false
				if v, has := data[key]; has && t.is(v) {
					want, found = v, true
				} else if v, has := c.has[key]; has && t.is(v) {
					want, found = v, true
				}
				c15Check(x, ctx, t, key, want, found)
			}
		}
		c15Check(x, nil, t, key, nil, false)
		c15Check(x, &context.Context{}, t, key, nil, false)
	}
}

type C15Tagged struct {
	Key  string `json:"Num" db:"k" aitch:"Any" xml:"Deep,attr"`
	Flag bool   `json:"Key,omitempty" mapstructure:"Bytes"`
	Sub  string `json:"-"`
}

// c15Shaped: structs with fields so and so deep in embedded structs, or with so many fields
func c15Shaped(x *X) {
	kind := x.Choose(6)
	n := x.Choose(x.Q(40, 80))
	x.Note(func() string { return fmt.Sprintf("kind %d, size %d", kind, n) })
	x.Ready()
	x.nontriv = true
	leaf := reflect.StructOf([]reflect.StructField{{Name: "Key", Type: reflect.TypeOf("")}, {Name: "Num", Type: reflect.TypeOf(0)}})
	var cargo any
	has := map[string]any{"Key": "x", "Num": 7}
	fill := func(v reflect.Value) {
		v.FieldByName("Key").SetString("x")
		v.FieldByName("Num").SetInt(7)
	}
	switch kind {
	case 0, 1, 2, 3: // by embedding: structs, pointers, both in turn, and with a nil pointer half way
		t := leaf
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("Level%d", i), Type: t, Anonymous: true}
			if kind == 1 || kind >= 2 && i%2 == 0 {
				f.Type = reflect.PointerTo(t)
			}
			t = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}, f})
		}
		v := reflect.New(t).Elem()
		at, isNil := v, false
		for i := n; i > 0; i-- {
			at.Field(0).SetInt(int64(i))
			has[fmt.Sprintf("F%d", i-1)] = i
			at = at.Field(1)
			if at.Kind() == reflect.Pointer {
				if kind == 3 && i <= n/2 {
					isNil = true
					break
				}
				at.Set(reflect.New(at.Type().Elem()))
				at = at.Elem()
			}
		}
		if isNil {
			delete(has, "Key")
			delete(has, "Num")
		} else {
			fill(at)
		}
		cargo = v.Interface()
		if kind == 2 { // given as a pointer
			cargo = v.Addr().Interface()
		}
	case 4: // many fields
		var fields []reflect.StructField
		for i := 0; i < n; i++ {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)})
		}
		fields = append(fields, reflect.StructField{Name: "Key", Type: reflect.TypeOf("")}, reflect.StructField{Name: "Num", Type: reflect.TypeOf(0)})
		v := reflect.New(reflect.StructOf(fields)).Elem()
		for i := 0; i < n; i++ {
			v.Field(i).SetInt(int64(i + 1))
			has[fmt.Sprintf("F%d", i)] = i + 1
		}
		fill(v)
		cargo = v.Interface()
	case 5: // many entries
		m := map[string]any{"Key": "x", "Num": 7}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("F%d", i)] = i + 1
		}
		cargo, has = m, m
	}
	for _, t := range []lookup{lookupOf[string](), lookupOf[int](), lookupOf[any]()} {
		for _, key := range []string{"Key", "Num", "F0", "F1", fmt.Sprintf("F%d", n-1), fmt.Sprintf("F%d", n/2), fmt.Sprintf("F%d", n), "key", "None", ""} {
			for _, data := range []map[string]any{nil, {"other": 1}, {key: "d"}, {key: 5}, {key: 1.5}} {
				want, found := any(nil), false
				if v, ok := data[key]; ok && t.is(v) {
					want, found = v, true
				} else if v, ok := has[key]; ok && t.is(v) {
					want, found = v, true
				}
				k := key
				x.note = func() string {
					return fmt.Sprintf("kind %d, size %d, Get[%s] of %q, data %v", kind, n, t.name, k, data)
				}
				c15Check(x, context.New(nil, data, cargo), t, key, want, found)
			}
		}
	}
}

// lookups one after the other, and from within renders
func c15Pairs(x *X) {
	a := c15CargoList[x.Choose(len(c15CargoList))]
	b := c15CargoList[x.Choose(len(c15CargoList))]
	x.Note(func() string { return fmt.Sprintf("cargo %s, then %s", a.name, b.name) })
	x.Ready()
	x.nontriv = true
	for _, t := range c15Types {
		for _, key := range c15Keys {
			for _, c := range []c15Cargo{a, b, a} {
				v, has := c.has[key]
				found := has && t.is(v)
				if !found {
					v = nil
				}
				ctx := context.New(nil, nil, c.cargo)
				c15Check(x, ctx, t, key, v, found)
				// from within an iteration the item is the cargo
				if c.cargo != nil && !x.Thorough() && t.name != "string" {
					continue
				}
				ran := false
				_, isMap := c.cargo.(map[string]any)
				n := aitch.Iterate(func(*context.Context) []any { return []any{c.cargo} }, aitch.Imperative(func(ic aitch.ImperativeContext) error {
					ran = true
					if !isMap {
						c15Check(x, ic.Context(), t, key, v, found)
					} else if got, ok := t.get(ic.Context(), key); ok != found || found && !sameValue(got, v) {
						x.Failf("within an iteration Get returns %v, %v", got, ok)
					}
					return nil
				}))
				if _, err := render(n, &Env{}); err != nil || !ran {
					x.Failf("iteration: %v", err)
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C15",
		Level:  "model_checking",
		Rule:   "A case is a type, key, data, cargo and form of context; what is in each cargo is listed by hand, and the lookup must return exactly that.",
		Assume: []string{"map cargo with keys of interface type is not specified and not tried"},
		Suites: []*Suite{
			{Name: "product", Bounds: "17 types x 33 keys x 18 forms of data x 89 cargos x 3 forms of context, and nil and empty contexts", Body: c15Lookup},
			{Name: "shaped", Bounds: "cargos of 6 kinds (fields up to 39 levels deep in embedded structs, pointers or both, with or without nil ones; structs and maps of up to 41 entries; thorough 79) x 3 types x 10 keys x 5 forms of data", Body: c15Shaped},
			{Name: "pairs", Bounds: "every pair of the 89 cargos looked up one after the other with 17 types x 33 keys, also from within iterations", Body: c15Pairs},
		},
	})
}
