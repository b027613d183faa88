package main

import (
	"fmt"
	"html"
	"reflect"
	"sort"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	ahtml "github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

var c20Envs = []*Env{
	{Data: map[string]any{"k": "D'&\"x", "n": 7, "c": true}, Cargo: "C<'"},
	{Data: map[string]any{"k": "", "n": []byte("raw")}, Cargo: nil},
}

// c20Map is a header map as the model sees it
type c20Map map[string]*Val

func (m c20Map) build() htmx.HeadersMap {
	if m == nil {
		return nil
	}
	out := htmx.HeadersMap{}
	for k, v := range m {
		out[k] = v.build()
	}
	return out
}

// c20Text is what maps are serialised as, decoded
func c20Text(maps []c20Map, js bool, e *Env) string {
	merged := c20Map{}
	for _, m := range maps {
		for k, v := range m {
			merged[k] = v
		}
	}
	var keys []string
	for k := range merged {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var l []string
	for _, k := range keys {
		l = append(l, "'"+k+"': "+html.UnescapeString(merged[k].text(e)))
	}
	s := "{" + strings.Join(l, ", ") + "}"
	if js {
		s = "js:" + s
	}
	return s
}

func c20Node(js bool, maps []htmx.HeadersMap) aitch.Node {
	if js {
		return htmx.HeadersJS(maps...)
	}
	var args []any
	for _, m := range maps {
		args = append(args, m)
	}
	return htmx.Headers(args...)
}

// c20Attr is the decoded value of the named attribute of the one element written
func c20Attr(x *X, n aitch.Node, e *Env, name string) string {
	got, err := render(n, e)
	if err != nil {
		x.Failf("rendered %q, error %v", got, err)
	}
	toks, err := Tokenize(got)
	if err != nil || len(toks) == 0 {
		x.Failf("malformed output %q: %v", got, err)
	}
	found, s := 0, ""
	for _, t := range toks {
		for _, a := range t.Attrs {
			if a.Name == name {
				found++
				s = a.Val
			} else if a.Name != "id" {
				x.Failf("attribute %s in %q", a.Name, got)
			}
		}
	}
	if found != 1 || len(toks) > 2 {
		x.Failf("%d attributes %s in %q", found, name, got)
	}
	x.Observe([]byte(got))
	return s
}

var c20MapVals = []*Val{vs("v'1"), vkey("k")}

// c20Maps merges header maps
func c20Maps(x *X) {
	keys := []string{"b", "a'", "X-A", "&"}
	n := x.Choose(4)
	js := x.Bool()
	repeat := -1
	var maps []c20Map
	size := 81
	if n == 3 && !x.Thorough() {
		size = 27 // over the first three keys only
	}
	for i := 0; i < n; i++ {
		if c := x.Choose(size + 1); c == size {
			maps = append(maps, nil)
		} else {
			m := c20Map{}
			for _, k := range keys {
				switch c % 3 {
				case 1:
					m[k] = &Val{K: VConcat, Sub: []*Val{{K: VInt, I: int64(i)}, c20MapVals[0]}}
				case 2:
					m[k] = &Val{K: VConcat, Sub: []*Val{{K: VInt, I: int64(i)}, c20MapVals[1]}}
				}
				c /= 3
			}
			maps = append(maps, m)
		}
	}
	if n > 0 {
		repeat = x.Choose(2) - 1
	}
	if n == 0 && !js {
		return // no maps: that is an ordinary attribute
	}
	x.Note(func() string {
		return fmt.Sprintf("script form %v, maps %v, first one again %v", js, maps, repeat == 0)
	})
	x.Ready()
	var given []htmx.HeadersMap
	var copies []htmx.HeadersMap
	for _, m := range maps {
		g := m.build()
		given = append(given, g)
		var c htmx.HeadersMap
		if g != nil {
			c = htmx.HeadersMap{}
			for k, v := range g {
				c[k] = v
			}
		}
		copies = append(copies, c)
	}
	if repeat == 0 {
		maps = append(maps, maps[0])
		given = append(given, given[0])
		copies = append(copies, copies[0])
	}
	node := c20Node(js, given)
	el := aitch.Element("p", aitch.Attribute("id", 1), node)
	again := aitch.Element("p", c20Node(js, given))
	unchanged := func(when string) {
		for i := range given {
			if (given[i] == nil) != (copies[i] == nil) || len(given[i]) != len(copies[i]) {
				x.Failf("map %d was %v and is %v %s", i, copies[i], given[i], when)
			}
			for k, v := range copies[i] {
				if w, ok := given[i][k]; !ok || !reflect.DeepEqual(v, w) && fmt.Sprintf("%p", v) != fmt.Sprintf("%p", w) {
					// (functions are not comparable)
					if fmt.Sprintf("%T", v) != fmt.Sprintf("%T", w) || !sameRendered(v, w) {
						x.Failf("map %d has changed under %q %s", i, k, when)
					}
				}
			}
		}
	}
	unchanged("after the call")
	for _, e := range c20Envs {
		want := c20Text(maps, js, e)
		for _, n := range []aitch.Node{el, again} {
			if got := c20Attr(x, n, e, "hx-headers"); got != want {
				x.Failf("is %s instead of %s", got, want)
			}
		}
	}
	unchanged("after rendering")
	// what is done to a map later changes nothing
	want := c20Text(maps, js, c20Envs[0])
	for _, g := range given {
		if g != nil {
			g["b"], g["later"] = "changed", 1
			delete(g, "X-A")
		}
	}
	if got := c20Attr(x, el, c20Envs[0], "hx-headers"); got != want {
		x.Failf("is %s instead of %s after the maps were changed", got, want)
	}
}

func sameRendered(a, b any) bool {
	for _, e := range c20Envs {
		s, _ := render(aitch.Text(a), e)
		t, _ := render(aitch.Text(b), e)
		if s != t {
			return false
		}
	}
	return true
}

var c20Chars = []string{"a", "Z", "0", "-", " ", "'", "\"", "&", "<", ">", "\\", "`", "é", "=", ";", ":", ",", "{", "}", "amp;", "lt", "#39;", "/", "\n", "\t", "%", "\u2028", "😀", "$", "js:", "\x7f"}

// c20Characters: keys and values of these characters come out as they were supplied
func c20Characters(x *X) {
	str := func(max int) string {
		n := x.Choose(max + 1)
		s := ""
		for i := 0; i < n; i++ {
			s += c20Chars[x.Choose(len(c20Chars))]
		}
		return s
	}
	where := x.Choose(5)
	s := str(x.Q(3, 4))
	x.Note(func() string { return fmt.Sprintf("%d %q", where, s) })
	x.Ready()
	env := &Env{Data: map[string]any{"d": s}, Cargo: s}
	other := c20Map{"k": vs("1"), "~": {K: VInt, I: 2}}
	if s == "k" || s == "~" {
		return
	}
	var maps []c20Map
	switch where {
	case 0: // key
		other[s] = vs("v")
		maps = []c20Map{other}
	case 1: // key in a second map
		maps = []c20Map{other, {s: vkey("none")}}
	case 2: // value
		other["v"] = vs(s)
		maps = []c20Map{other}
	case 3: // dynamic value
		other["v"] = vkey("d")
		maps = []c20Map{other}
	case 4: // names and values of variables
		name := s
		el := aitch.Element("p", htmx.Vars(htmx.Var(name, s), htmx.Var("second", dk("d")), htmx.Var(name, dk("."))))
		want := name + ": " + s + ", second: " + s + ", " + name + ": " + s
		for r := 0; r < 2; r++ {
			if got := c20Attr(x, el, env, "hx-vars"); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
		return
	}
	// (a carriage return would be read as a line feed)
	env.Data["d"] = s
	e := &Env{Data: map[string]any{"d": s}}
	for _, js := range []bool{false, true} {
		var given []htmx.HeadersMap
		for _, m := range maps {
			given = append(given, m.build())
		}
		want := c20Text(maps, js, e)
		n := c20Node(js, given)
		for r := 0; r < 2; r++ {
			if got := c20Attr(x, aitch.Element("p", n), e, "hx-headers"); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
		if got := c20Attr(x, ahtml.Br(aitch.Collection(n)), e, "hx-headers"); got != want {
			x.Failf("is %q instead of %q", got, want)
		}
	}
}

// c20Mixed: maps with other values panic, wherever they are
func c20Mixed(x *X) {
	kinds := []struct {
		name  string
		isMap bool
		build func() any
		val   *Val
	}{
		{"map", true, func() any { return htmx.HeadersMap{"k": 1} }, nil},
		{"empty map", true, func() any { return htmx.HeadersMap{} }, nil},
		{"nil map", true, func() any { return htmx.HeadersMap(nil) }, nil},
		{"string", false, nil, vs("s'")},
		{"empty string", false, nil, vs("")},
		{"key", false, nil, vkey("k")},
		{"int", false, nil, &Val{K: VInt, I: 4}},
		{"value", false, nil, &Val{K: VConcat, Sub: []*Val{vs("a"), vkey("n")}}},
		{"func", false, nil, &Val{K: VFunc, S: "f"}},
		{"bytes", false, nil, vraw("{}")},
		{"map[string]any", false, func() any { return map[string]any{"k": 1} }, &Val{K: VUnsupported}},
	}
	n := x.Choose(x.Q(5, 6))
	var idx []int
	maps, others := 0, 0
	for i := 0; i < n; i++ {
		c := x.Choose(len(kinds))
		idx = append(idx, c)
		if kinds[c].isMap {
			maps++
		} else {
			others++
		}
	}
	x.Note(func() string {
		s := ""
		for _, i := range idx {
			s += kinds[i].name + ", "
		}
		return s
	})
	x.Ready()
	var args []any
	var vals []*Val
	hasKey := false
	for _, i := range idx {
		if kinds[i].build != nil {
			args = append(args, kinds[i].build())
		} else {
			args = append(args, kinds[i].val.build())
		}
		if kinds[i].val != nil {
			vals = append(vals, kinds[i].val)
		}
		hasKey = hasKey || i == 0
	}
	for r := 0; r < 2; r++ {
		node, panicked := func() (n aitch.Node, p any) {
			defer func() { p = recover() }()
			return htmx.Headers(args...), nil
		}()
		if maps > 0 && others > 0 {
			if panicked == nil {
				x.Failf("no panic")
			}
			continue
		}
		if panicked != nil {
			x.Failf("panic %v", panicked)
		}
		for _, e := range c20Envs {
			want := html.UnescapeString(textOf(vals, e))
			if maps > 0 {
				want = "{}"
				if hasKey {
					want = "{'k': 1}"
				}
			}
			if got := c20Attr(x, aitch.Element("p", node), e, "hx-headers"); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
	}
}

// c20Lists: the attributes that are lists
func c20Lists(x *X) {
	fns := []struct {
		name, attr, delim string
		fn                func(...any) aitch.Node
	}{
		{"Trigger", "hx-trigger", " ", htmx.Trigger}, {"Params", "hx-params", " ", htmx.Params}, {"Inherit", "hx-inherit", " ", htmx.Inherit},
		{"Disinherit", "hx-disinherit", " ", htmx.Disinherit}, {"Vars", "hx-vars", ", ", htmx.Vars},
	}
	f := fns[x.Choose(len(fns))]
	vals := []struct {
		build func() any
		text  func(e *Env) string
	}{
		{func() any { return "one'" }, func(*Env) string { return "one'" }},
		{func() any { return dk("k") }, func(e *Env) string { return html.UnescapeString(goText(e.Data["k"])) }},
		{func() any { return htmx.Var("name", "v<") }, func(*Env) string { return "name: v<" }},
		{func() any { return htmx.Var("dyn", dk("n")) }, func(e *Env) string { return "dyn: " + html.UnescapeString(goText(e.Data["n"])) }},
		{func() any { return 5 }, func(*Env) string { return "5" }},
		{func() any { return htmx.Var("nil", nil) }, func(*Env) string { return "nil: " }},
	}
	// attributes with their values; the last kind is under a condition
	n := 1 + x.Choose(3)
	type at struct {
		cond int
		vals []int
	}
	var ats []at
	total := x.Q(3, 5)
	for i := 0; i < n; i++ {
		a := at{cond: x.Choose(3)}
		k := x.Choose(total + 1)
		total -= k
		for j := 0; j < k; j++ {
			a.vals = append(a.vals, x.Choose(len(vals)))
		}
		ats = append(ats, a)
	}
	x.Note(func() string { return fmt.Sprint(f.name, " {condition values}: ", ats) })
	x.Ready()
	var contents []any
	for i, a := range ats {
		var args []any
		for _, v := range a.vals {
			args = append(args, vals[v].build())
		}
		node := f.fn(args...)
		switch a.cond {
		case 1:
			contents = append(contents, aitch.When("c", node))
		case 2:
			contents = append(contents, aitch.Collection(node))
		default:
			contents = append(contents, node)
		}
		if i == 0 {
			contents = append(contents, aitch.Attribute("id", 1))
		}
	}
	els := []aitch.Node{aitch.Element("p", contents...), ahtml.Br(contents...), aitch.Element("p", contents...)}
	for _, e := range c20Envs {
		var l []string
		has := false
		for pass := 0; pass < 2; pass++ {
			for _, a := range ats {
				if (a.cond == 1) != (pass == 1) || a.cond == 1 && e.Data["c"] == nil {
					continue
				}
				has = true
				for _, v := range a.vals {
					if t := vals[v].text(e); t != "" {
						l = append(l, t)
					}
				}
			}
		}
		for _, el := range els {
			if !has {
				if got, err := render(el, e); err != nil || strings.Contains(got, f.attr) {
					x.Failf("renders %q, %v without values", got, err)
				}
				continue
			}
			got, want := tokenList(c20Attr(x, el, e, f.attr), f.delim), strings.Join(l, f.delim)
			if g, w := strings.Join(got, f.delim), strings.Join(tokenList(want, f.delim), f.delim); g != w {
				x.Failf("is %q instead of %q", got, want)
			}
		}
	}
}

// c20Many: maps of several sizes in rows
func c20Many(x *X) {
	n := 1 + x.Choose(x.Q(40, 120))
	js := x.Bool()
	kind := x.Choose(3)
	x.Note(func() string { return fmt.Sprint(n, " keys, script form ", js, ", kind ", kind) })
	x.Ready()
	m := c20Map{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%c%d", "zaM_'é"[i%6], (i*37)%101)
		if kind == 1 {
			k = strings.Repeat("k", i)
		}
		if kind == 2 {
			k = fmt.Sprint(i)
		}
		m[k] = &Val{K: VInt, I: int64(i)}
	}
	maps := []c20Map{m}
	var given []htmx.HeadersMap
	given = append(given, m.build())
	// the same in several maps
	split := make([]c20Map, 3)
	i := 0
	for _, k := range sortedKeys(m) {
		if split[i%3] == nil {
			split[i%3] = c20Map{}
		}
		split[i%3][k] = m[k]
		i++
	}
	var parts []htmx.HeadersMap
	for _, s := range split {
		parts = append(parts, s.build())
	}
	e := c20Envs[0]
	want := c20Text(maps, js, e)
	for _, g := range [][]htmx.HeadersMap{given, parts} {
		node := c20Node(js, g)
		el := aitch.Collection(aitch.Iterate(func(*context.Context) []any { return []any{1} }, aitch.Element("p", node)))
		for r := 0; r < 3; r++ {
			if got := c20Attr(x, el, e, "hx-headers"); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	register(&Prop{
		ID:     "C20",
		Level:  "model_checking",
		Rule:   "A case is a list of header maps (or of other arguments, or list attributes) given to the htmx functions; the decoded attribute of the element rendered is compared with the text computed here, the maps with copies made before.",
		Assume: []string{"NUL and carriage return characters are left out (one is dropped, the other normalised by readers of markup)", "a nil among maps is unspecified"},
		Suites: []*Suite{
			{Name: "maps", Bounds: "all lists of up to 2 (thorough 3) of 82 maps over 4 keys (each absent, static or dynamic; or the nil map), and of 3 of 28 maps over 3 keys, the first given once or twice, both forms, with 2 environments and with the maps changed later", Body: c20Maps},
			{Name: "characters", Bounds: "all strings of up to 3 (thorough 4) of 31 characters as key, second key, static and dynamic value, and as name and values of variables, both forms", Body: c20Characters},
			{Name: "mixed", Bounds: "all lists of up to 4 (thorough 5) of 11 kinds of argument", Body: c20Mixed},
			{Name: "lists", Bounds: "5 list attributes with all rows of up to 3 of them with up to 3 (thorough 5) of 6 values in all, plain, under a condition, or in a collection", Body: c20Lists},
			{Name: "many", Bounds: "maps of 1 to 40 (thorough 120) keys of 3 kinds, in one or three maps, both forms", Body: c20Many},
		},
	})
}
