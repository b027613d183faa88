package main

import (
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
)

// c12Recursive: an imperative node that renders itself at any place of its operations, with elements open
func c12Recursive(x *X) {
	const self = -1
	names := [][2]string{{"a0", "b0"}, {"a1", "b1"}, {"a2", "b2"}, {"a3", "b3"}}
	depth := 0
	start := func(i int) impOp {
		return impOp{name: fmt.Sprint("Start", i), do: func(ic aitch.ImperativeContext) { ic.Start([]byte(names[depth][i]), false) }, mod: func(w *strings.Builder, open *[]string) {
			w.WriteString("<" + names[depth][i] + ">")
			*open = append(*open, names[depth][i])
		}}
	}
	var node aitch.Node
	max := 1 + x.Choose(2)
	via := x.Choose(4)
	var run func(ops []impOp, w *strings.Builder)
	var ops []impOp
	within := impOp{name: "itself", do: func(ic aitch.ImperativeContext) {
		if depth < max {
			depth++
			switch via {
			case 0:
				ic.WriteNodes(node)
			case 1:
				ic.WriteNodes(aitch.Element("e", node))
			case 2:
				ic.WriteNodes(aitch.Iterate(func(*context.Context) []any { return []any{1} }, node))
			case 3:
				_ = node.Render(ic.Context())
			}
			depth--
		}
	}, mod: func(w *strings.Builder, open *[]string) {
		if depth < max {
			depth++
			if via == 1 {
				w.WriteString("<e>")
			}
			run(ops, w)
			if via == 1 {
				w.WriteString("</e>")
			}
			depth--
		}
	}}
	run = func(ops []impOp, w *strings.Builder) {
		var open []string
		for _, o := range ops {
			o.mod(w, &open)
		}
	}
	alpha := []impOp{start(0), opEnd, within, opEndAll, start(1), opStart("br", true, nil, "")}
	n := 1 + x.Choose(x.Q(5, 6))
	recursive := false
	for i := 0; i < n; i++ {
		c := x.Choose(len(alpha))
		ops = append(ops, alpha[c])
		recursive = recursive || c == 2
	}
	x.Note(func() string {
		var s []string
		for _, o := range ops {
			s = append(s, o.name)
		}
		return fmt.Sprintf("up to %d levels, way %d: %s", max, via, strings.Join(s, "; "))
	})
	x.Ready()
	if !recursive {
		return
	}
	x.nontriv = true
	node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
		for _, o := range ops {
			o.do(ic)
		}
		return nil
	})
	var w strings.Builder
	run(ops, &w)
	for round := 0; round < 2; round++ {
		got, err := render(node, &Env{})
		if err != nil || got != w.String() {
			x.Failf("error %v\ngot  %q\nwant %q", err, clip(got, 600), clip(w.String(), 600))
		}
		x.Observe([]byte(got))
	}
}

// genHuge: code generation of very large pieces
func genHuge(x *X, o *genOpt, gen func(in string) (string, error)) {
	sizes := []int{5000, 70001, 150001, 300001, 1100001}
	kind := x.Choose(12)
	n := sizes[x.Choose(x.Q(4, 5))]
	x.Note(func() string { return fmt.Sprintf("kind %d size %d", kind, n) })
	x.Ready()
	x.nontriv = true
	long := strings.Repeat("word <b/>é "[:5], n/5)
	var in string
	switch kind {
	case 0:
		in = "<g>" + long + "</g>y"
	case 1:
		in = "<g title=\"" + long + "\">x</g>y"
	case 2:
		in = "<!--" + long + "--><g>x</g>"
	case 3:
		in = "<script>" + long + "</script><g>x</g>"
	case 4:
		in = "<style>" + long + "</style><g unknown='" + long + "'>x</g>"
	case 5:
		in = "<g>" + strings.Repeat("é&lt;\"\\", n/7) + "</g>y"
	case 6:
		if n > 70001 {
			n = 70001
		}
		in = "<g" + strings.Repeat("x", n) + " y" + strings.Repeat("z", n) + "=\"1\">x</g" + strings.Repeat("x", n) + ">y"
	case 7:
		if n > 150001 {
			return
		}
		in = "<g>" + strings.Repeat("<g>x</g>", n/10) + "</g>y"
	case 8:
		if n > 70001 {
			return
		}
		var sb strings.Builder
		sb.WriteString("<g")
		for i := 0; i < n/10; i++ {
			fmt.Fprintf(&sb, " a%d=\"%d\"", i, i)
		}
		in = sb.String() + ">x</g>y"
	case 9:
		if n > 70001 {
			return
		}
		in = strings.Repeat("<g>", n/50) + "x" + strings.Repeat("</g>", n/50) + "y"
	case 10:
		in = "<!DOCTYPE html>" + strings.Repeat(" \n", n/2) + "<g>x</g>" + strings.Repeat(" \n\t", n/2) + "<g>y</g>"
	case 11:
		in = "<textarea>" + long + "&lt;" + long + "</textarea><title>" + long + "</title><g>y</g>"
	}
	o.roundTrip(x, gen, in)
}

// c20Forms: entries of lists that look like other lists, objects or scripts
func c20Forms(x *X) {
	fns := []struct {
		attr, delim string
		fn          func(...any) aitch.Node
		merges      bool
	}{
		{"hx-vars", ", ", htmx.Vars, true}, {"hx-trigger", " ", htmx.Trigger, true}, {"hx-params", " ", htmx.Params, true}, {"hx-inherit", " ", htmx.Inherit, true}, {"hx-disinherit", " ", htmx.Disinherit, true},
		{"hx-vals", "", htmx.Vals, false}, {"hx-headers", "", htmx.Headers, false}, {"hx-request", "", htmx.Request, false},
	}
	f := fns[x.Choose(len(fns))]
	forms := []string{"a:1", "{a:1}", `{"a":1}`, "{}", "[1]", "[]", "(a)", "js:{a:1}", "js:", "javascript:f()", "{a:1}, {b:2}", "a,", ",a", ", ", ",", " ", " a ", "a b", "a, b", `"q"`, "'q'", "`t`", "a:", ":a", ": ", "a: 1", "*", "not a", "none", "click[x]", "every 2s", "{{x}}", "${x}", "a;b", "a|b", "true", "null", "{", "}", "}{", "\n", "a\n", "#id", ".cls", "this", "closest p", "a=1&b=2", "{'a': 'b'}", "{a:{b:1}}"}
	n := 1 + x.Choose(2)
	how := x.Choose(4)
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, forms[x.Choose(len(forms))])
	}
	x.Note(func() string { return fmt.Sprintf("%s of %q, way %d", f.attr, texts, how) })
	x.Ready()
	x.nontriv = true
	for third := -1; third < len(forms); third += x.Q(7, 1) {
		texts := texts
		if third >= 0 {
			texts = append(texts[:n:n], forms[third])
		}
		var args []any
		var want []string
		for i, t := range texts {
			switch {
			case how == 1 && i%2 == 0:
				args = append(args, aitch.DynamicValueFunc(func(*context.Context) []byte { return []byte(esc(t)) }))
			case how == 2:
				args = append(args, htmx.Var(t, t))
				t = t + ": " + t
			default:
				args = append(args, t)
			}
			want = append(want, t)
		}
		delim := f.delim
		nodes := []any{f.fn(args...)}
		if how == 3 && f.merges {
			nodes = nil
			for _, a := range args {
				nodes = append(nodes, f.fn(a))
			}
		}
		got, err := render(aitch.Element("p", nodes...), &Env{})
		if err != nil {
			x.Failf("%v", err)
		}
		w := "<p " + f.attr + "=\"" + esc(strings.Join(want, delim)) + "\"></p>"
		if got != w {
			x.Failf("%q\ngot  %q\nwant %q", texts, got, w)
		}
		x.Observe([]byte(got))
	}
}

func init() {
	p := props["C12"]
	p.Suites = append(p.Suites, &Suite{Name: "recursive", Bounds: "an imperative node rendering itself 1 or 2 levels deep, in 4 ways, at any place of up to 5 (thorough 6) operations of 6", Body: c12Recursive})
	p = props["C16"]
	b := "12 kinds of contents (text, attribute values, comments, scripts, names, many attributes or elements, deep ones) of 5000 to 300001 (thorough 1100001) bytes"
	p.Suites = append(p.Suites, &Suite{Name: "huge", Setup: c16Setup, Bounds: b, Body: func(x *X) { genHuge(x, c16Opt, c16Gen) }})
	p = props["C17"]
	p.Suites = append(p.Suites, &Suite{Name: "huge", Setup: c17Setup, Bounds: b, Body: func(x *X) { genHuge(x, c17Opt, c17Gen) }})
	p = props["C20"]
	p.Suites = append(p.Suites, &Suite{Name: "forms", Bounds: "8 attributes x lists of up to 2 of 47 entries that look like lists, objects or scripts, and one of 8 (thorough 47) as a third, as strings, from functions, as variables, or in several attributes", Body: c20Forms})
}
