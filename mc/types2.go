package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// A key is just that: among data that has all the other keys, with contents of their own, it is there or it is not.

var oddKeys = []string{"k", "K", "k ", " k", "\tk", "k\n", "!k", "!!k", "! k", "k!", "a.b", "a", "b", "B", "A.b", "a.B", "a.b.c", "a/b", "a->b", "a[b]", `a["b"]`, "a.0", "a[0]", "a.-1", "a.len", "a.b()", ".k", ".a.b", "..", "...", "../k", "$", "$k", "$.k", "@k", "@index", "#k", "~k", "^k", "&k", "*k", "-k", "+k", "k?", "k??", "k|b", "k||b", "k b", "k,b", "k;b", "k:b", "k=b", "k==1", "k>0", "k+b", "not k", "k and b", "",
	" ", "é", "e\u0301", "É", "\u017f", "\u212a", "0", "1", "00", "-", "_", "__", "*", "?", "k*", "k\x00", "\x00", "\xff", "{k}", "{{k}}", "{{.k}}", "${k}", "%k", "%s", "%6b", "k&amp;", "k&", "<k>", `"k"`, "'k'", "`k`", "(k)", "[k]", "/k/", "\\k", "k\\", "parent", "Parent", "parent.k", "cargo", "Cargo", "cargo.k", "data", "Data", "data.k", "Data.k", "error", "Error", "Writer", "this", "this.k", "self", "item", "index", "key", "value", "first", "last", "len", "length", "nil", "null", "true", "false", "!true", "!", "!!", "!.", "!a.b", "k.", "k..", "a..b", "a-b", "a_b", "aB", "AB", "ab", "a b"}

type oddStruct struct {
	B string
	K string
}

type oddLists struct {
	B []any
	K []string
}

// oddData has all the keys but one
func oddData(except string, form int) map[string]any {
	data := map[string]any{}
	for i, k := range oddKeys {
		if k == except {
			continue
		}
		var v any = fmt.Sprintf("wrong%d", i)
		switch form {
		case 1:
			v = map[string]any{"b": "nested", "B": "nested", "k": "nested", "0": "nested", "c": "nested", "": "nested", "b.c": "nested", "!k": true, "len": 1, "a": map[string]any{"b": "nested"}}
		case 2:
			v = []any{"listed", map[string]any{"b": "listed", "k": "listed"}}
		case 3:
			v = oddStruct{"field", "field"}
		case 4:
			v = false
		case 5:
			v = map[string]any{"b": []any{"nested"}, "B": []string{"nested"}, "k": []any{"nested"}, "0": []any{"nested"}, "c": []int{1}, "": []any{1}, "b.c": []any{1}, "items": []any{1}, "value": []any{1}}
		case 6:
			v = oddLists{[]any{"field"}, []string{"field"}}
		}
		data[k] = v
	}
	return data
}

// oddUse is one of the ways in which a key is used, and what it writes without and with it
type oddUse struct {
	of      string
	name    string
	node    func(key string) aitch.Node
	without string
	with    string
	value   any
}

var oddUses = func() []oddUse {
	key := func(k string) aitch.DynamicValueKey { return aitch.DynamicValueKey(k) }
	when := func(k string) aitch.Node {
		return aitch.Element("p", aitch.When(key(k), aitch.Attribute("a", "1"), aitch.Text("Y")), aitch.Conditional(func(ctx *context.Context) bool { return true }, aitch.Collection(aitch.When(key("!"+k), aitch.Text("N"), aitch.Attribute("n", "1")))))
	}
	dot := aitch.Text(aitch.DynamicValueKey("."))
	return []oddUse{
		{"C04", "When, true", when, `<p n="1">N</p>`, `<p a="1">Y</p>`, true},
		{"C04", "When, string", when, `<p n="1">N</p>`, `<p a="1">Y</p>`, "false"},
		{"C04", "When, nil", when, `<p n="1">N</p>`, `<p a="1">Y</p>`, nil},
		{"C04", "When, false", when, `<p n="1">N</p>`, `<p n="1">N</p>`, false},
		{"C10", "IterateKey, any", func(k string) aitch.Node { return aitch.IterateKey(k, dot, aitch.Text(";")) }, "", "x;7;", []any{"x", 7}},
		{"C10", "IterateKey, strings", func(k string) aitch.Node { return aitch.IterateKey(k, aitch.Element("p", dot)) }, "", "<p>x</p>", []string{"x"}},
		{"C10", "IterateKey within", func(k string) aitch.Node {
			return aitch.Iterate(func(*context.Context) []any { return []any{"o"} }, aitch.IterateKey(k, aitch.Element("p", dot)))
		}, "", "<p>x</p>", []string{"x"}},
		{"C10", "IterateKey of maps", func(k string) aitch.Node { return aitch.IterateKey(k, aitch.Text(key(k))) }, "", "inner", []any{map[string]any{"k": "i"}}},
		{"C11", "Text", func(k string) aitch.Node { return aitch.Text("a", key(k), "z") }, "az", "a5z", 5},
		{"C11", "content", func(k string) aitch.Node { return aitch.Element("p", key(k)) }, "<p></p>", "<p>v</p>", "v"},
		{"C11", "Attribute", func(k string) aitch.Node { return aitch.Element("p", aitch.Attribute("x", key(k), "z")) }, `<p x="z"></p>`, `<p x="vz"></p>`, "v"},
		{"C11", "DelimitedAttribute", func(k string) aitch.Node { return aitch.Element("p", aitch.DelimitedAttribute("x", "|", "a", key(k))) }, ``, `<p x="a|v"></p>`, "v"},
		{"C11", "Comment", func(k string) aitch.Node { return aitch.Comment(key(k)) }, `<!---->`, `<!--v-->`, "v"},
		{"C11", "Fragment", func(k string) aitch.Node { return aitch.Fragment(key(k)) }, ``, `v`, []byte("v")},
		{"C11", "PI", func(k string) aitch.Node { return aitch.PI("x", key(k)) }, "<!x >\n", "<!x true>\n", true},
		{"C11", "NewValue", func(k string) aitch.Node { return aitch.Text(aitch.NewValue(key(k))) }, ``, `1.5`, 1.5},
		{"C11", "NewConcatValue", func(k string) aitch.Node { return aitch.Text(aitch.NewConcatValue("a", key(k))) }, `a`, `av`, "v"},
		{"C11", "imperative", func(k string) aitch.Node {
			return aitch.Imperative(func(c aitch.ImperativeContext) error {
				c.Start([]byte("p"), false, aitch.Attribute("x", key(k)))
				c.WriteNodes(aitch.Text(key(k)))
				c.End()
				return nil
			})
		}, `<p x=""></p>`, `<p x="v">v</p>`, "v"},
	}
}()

func oddKeysOf(of string) func(x *X) {
	var uses []oddUse
	for _, u := range oddUses {
		if u.of == of {
			uses = append(uses, u)
		}
	}
	return func(x *X) {
		u := uses[x.Choose(len(uses))]
		k := oddKeys[x.Choose(len(oddKeys))]
		form := x.Choose(7)
		x.Note(func() string { return fmt.Sprintf("%s of key %q, other data of form %d", u.name, k, form) })
		x.Ready()
		x.nontriv = true
		name := k
		if of == "C11" && k == "." || of == "C04" && strings.HasPrefix(k, "!") {
			return // the cargo; the negation
		}
		node := u.node(k)
		for round := 0; round < 3; round++ {
			for cargoForm := 0; cargoForm < 3; cargoForm++ {
				data := oddData(name, form)
				want := u.without
				if round%2 == 1 {
					data[name] = u.value
					want = u.with
					if want == "inner" {
						want = ""
						if k == "k" {
							want = "i"
						}
					}
				}
				cargo := []any{nil, oddStruct{"cargo", "cargo"}, map[string]any{k: u.value}}[cargoForm]
				var buf bytes.Buffer
				ctx := context.New(&buf, data, cargo)
				ctx.Parent = context.New(&buf, map[string]any{k: u.value, "k": "parent"}, "parent")
				if err := node.Render(ctx); err != nil {
					x.Failf("cargo %v: %v", cargo, err)
				}
				got := buf.String()
				if want == "" && u.name == "DelimitedAttribute" {
					// with or without the delimiter
					if got != `<p x="a"></p>` && got != `<p x="a|"></p>` {
						x.Failf("got %q", got)
					}
				} else if d := stdOpt.Same(got, want); d != "" {
					x.Failf("render %d, cargo %v, got %q: %s", round+1, cargo, got, d)
				}
				x.Observe([]byte(got))
			}
		}
	}
}

func init() {
	for _, id := range []string{"C04", "C10", "C11"} {
		p := props[id]
		p.Suites = append(p.Suites, &Suite{Name: "keys", Bounds: fmt.Sprintf("%d unusual keys (paths, expressions, escapes, letter cases, ...) absent or present among data having all the others in 7 forms, x 3 cargos, in all uses of keys", len(oddKeys)), Body: oddKeysOf(id)})
	}
}
