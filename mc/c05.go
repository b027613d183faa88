package main

import (
	"bytes"
	"fmt"
	"html"
	"sort"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
	"verif.local/mc/hook"
)

// mapOrders makes the explorer choose the order of every map iteration of the instrumented code while f runs:
// every permutation of up to 4 entries, every rotation in both directions of more
func mapOrders(x *X, f func()) {
	start := hook.MapRanges
	hook.Order = func(n int) []int {
		result := make([]int, 0, n)
		if n <= 4 {
			left := make([]int, n)
			for i := range left {
				left[i] = i
			}
			for len(left) > 0 {
				c := x.Choose(len(left))
				result = append(result, left[c])
				left = append(left[:c:c], left[c+1:]...)
			}
			return result
		}
		c := x.Choose(2 * n)
		for i := 0; i < n; i++ {
			if c < n {
				result = append(result, (c+i)%n)
			} else {
				result = append(result, (2*n+c-i)%n)
			}
		}
		return result
	}
	defer func() {
		hook.Order = nil
		x.Count("map_iterations", hook.MapRanges-start)
	}()
	f()
}

func c05Kinds() []func(g *gen) *Node {
	name := func(g *gen) string { return []string{"n", "m", "z"}[g.x.Choose(3)] }
	cond := func(v int) func(g *gen) *Node {
		return func(g *gen) *Node {
			n := &Node{K: KCond, Cond: v}
			n.Kids = g.kids()
			return n
		}
	}
	return []func(g *gen) *Node{
		leaf(KAttr, func(g *gen) *Node { return &Node{Name: name(g), Vals: []*Val{vs("v" + g.next())}} }),
		leaf(KDelim, func(g *gen) *Node {
			return &Node{Name: []string{"class", "dl"}[g.x.Choose(2)], Vals: []*Val{vs("c" + g.next())}}
		}),
		cond(0), cond(1),
		container(KColl, "", 0),
	}
}

func c05Trees(quick, thorough int, orders bool) func(x *X) {
	return func(x *X) {
		g := &gen{x: x, budget: x.Q(quick, thorough), alpha: c05Kinds()}
		top := &Node{K: []Kind{KEl, KVoid, KImpEl}[x.Choose(3)], Name: "div"}
		if top.K == KVoid {
			top.Name = "img"
		}
		top.Kids = g.kids()
		env := func() *Env {
			return &Env{Data: map[string]any{"a": 1, "b": 2, "c": 3}, Cargo: map[string]any{"q": 1, "r": 2}, Conds: []bool{true, false}}
		}
		x.Note(func() string { return top.String() })
		x.Ready()
		e := env()
		l := &live{conds: e.Conds}
		want := top.Model(env())
		first := ""
		check := func(n aitch.Node, what string) {
			got, err := render(n, env())
			if err != nil {
				x.Failf("rendering returned an error: %v", err)
			}
			if first == "" {
				first = got
				if d := ordOpt.Same(got, want); d != "" {
					x.Failf("%s", d)
				}
			} else if got != first {
				x.Failf("%s writes\n     %q\nfirst %q", what, got, first)
			}
			x.Observe([]byte(got))
		}
		if orders {
			mapOrders(x, func() {
				n := top.node(l)
				check(n, "")
				check(n, "rendering again")
			})
			return
		}
		n := top.node(l)
		check(n, "")
		check(n, "rendering again")
		check(top.node(l), "building and rendering again")
		check(n, "rendering a third time")
	}
}

// headers given as maps are written in sorted key order
func c05Headers(orders bool) func(x *X) {
	return func(x *X) {
		keys := []string{"b", "a", "B", "a b", "é"}
		nm := 1 + x.Choose(2)
		var maps []htmx.HeadersMap
		want := map[string]string{}
		var desc []string
		for i := 0; i < nm; i++ {
			m := htmx.HeadersMap{}
			set := x.Choose(1 << len(keys))
			if nm > 1 && (set >= 8 || i > 0 && set%8 != set) {
				set %= 8
			}
			for k, key := range keys {
				if set>>k&1 == 1 {
					m[key] = "v" + strconv.Itoa(i)
					want[key] = "v" + strconv.Itoa(i)
				}
			}
			maps = append(maps, m)
			desc = append(desc, fmt.Sprintf("%v", m))
		}
		js := x.Bool()
		x.Note(func() string { return fmt.Sprintf("js=%v %s", js, strings.Join(desc, " ")) })
		x.Ready()
		var sorted []string
		for k := range want {
			sorted = append(sorted, k)
		}
		sort.Strings(sorted)
		exp := "{"
		for i, k := range sorted {
			if i > 0 {
				exp += ", "
			}
			exp += "'" + k + "': " + want[k]
		}
		exp += "}"
		if js {
			exp = "js:" + exp
		}
		run := func() {
			builds := 2
			if orders && len(want) > 3 {
				builds = 1
			}
			for i := 0; i < builds; i++ {
				var n aitch.Node
				if js {
					n = htmx.HeadersJS(maps...)
				} else {
					args := make([]any, len(maps))
					for i := range maps {
						args[i] = maps[i]
					}
					n = htmx.Headers(args...)
				}
				for j := 0; j < 2; j++ {
					got, err := render(n, &Env{})
					if err != nil {
						x.Failf("rendering returned an error: %v", err)
					}
					if d := html.UnescapeString(got); d != ` hx-headers="`+exp+`"` {
						x.Failf("got  %q\nwant %q", d, exp)
					}
					x.Observe([]byte(got))
				}
			}
		}
		if orders {
			mapOrders(x, run)
		} else {
			run()
		}
	}
}

// whatever the order of the map of nodes, a template executes the same
func c05Template(x *X) {
	marks := []string{"a", "b", "c"}
	text := ""
	want := ""
	n := 1 + x.Choose(3)
	for i := 0; i < n; i++ {
		m := marks[x.Choose(3)]
		text += "{{" + m + " .}}"
		want += "<" + m + ` x="1" y="2"></` + m + ">"
	}
	x.Note(func() string { return text })
	x.Ready()
	nm := aitch.NodeMap{}
	for _, m := range marks {
		nm[m] = aitch.Element(m, aitch.Attribute("x", 1), aitch.Conditional(func(*context.Context) bool { return true }, aitch.Attribute("y", 2)))
	}
	mapOrders(x, func() {
		t, err := aitch.NewTemplate("t", text, nm)
		if err != nil {
			x.Failf("parse: %v", err)
		}
		for i := 0; i < 2; i++ {
			var buf bytes.Buffer
			if err := t.Execute(&buf, map[string]any{"p": 1, "q": 2}, nil); err != nil || buf.String() != want {
				x.Failf("%v\ngot  %q\nwant %q", err, buf.String(), want)
			}
			x.Observe(buf.Bytes())
		}
	})
}

func init() {
	register(&Prop{
		ID:     "C05",
		Level:  "model_checking",
		Rule:   "A case is a tree of attribute declarations (or header maps, or a template) and, in the instrumented build, an order for every map iteration the code makes; what is written is compared byte for byte between renders and, with attributes in order, with the model.",
		Assume: []string{"the iteration orders chosen are those of map ranges, maps.Keys/Values/All and reflect MapKeys in the repository's own packages"},
		Suites: []*Suite{
			{Name: "repeat", Bounds: "every tree of up to 5 (thorough 6) nodes over attributes of 3 names, merged attributes of 2 names, holding and failing conditionals and collections, in 3 kinds of start tag, built twice and rendered 4 times", Body: c05Trees(5, 6, false)},
			{Name: "headers-repeat", Bounds: "header maps over 5 keys, built twice and rendered twice", Body: c05Headers(false)},
			{Name: "map-orders", Build: buildInstr, Bounds: "the same trees of up to 5 (thorough 6) nodes, under every order of every map iteration during building and two renders", Body: c05Trees(5, 6, true)},
			{Name: "headers-map-orders", Build: buildInstr, Bounds: "header maps over 5 keys, one or two maps, script form or not, under every order of the map iterations of two builds (one for more than 3 keys) (rotations in both directions above 4 entries)", Body: c05Headers(true)},
			{Name: "template-map-orders", Build: buildInstr, Bounds: "templates of up to 3 markers, under every order of the node map", Body: c05Template},
		},
	})
}
