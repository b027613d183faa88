package main

import (
	"bytes"
	"errors"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// failing forms: placed as nodes or inside values
func c09Fail(x *X, err error, forms int) *Node {
	switch c := x.Choose(forms); c {
	case 0, 1, 2, 3, 4:
		return &Node{K: KFail, Form: c, Err: err}
	case 5:
		return &Node{K: KRaw, Vals: []*Val{{K: VFail, Err: err}}}
	case 6:
		return &Node{K: KComment, Vals: []*Val{vs("a"), {K: VFail, Err: err}, vs("b")}}
	case 7:
		return &Node{K: KFrag, Vals: []*Val{{K: VFail, Err: err}, vs("b")}}
	case 8:
		return &Node{K: KPI, Name: "X", Vals: []*Val{{K: VFail, Err: err}, {K: VFunc, S: "b"}}}
	case 9:
		return &Node{K: KAttr, Name: "fa", Vals: []*Val{vs("a"), {K: VFail, Err: err}, vs("b")}}
	case 10:
		return &Node{K: KDelim, Name: "class", Vals: []*Val{{K: VFail, Err: err}, {K: VFunc, S: "b"}}}
	case 11:
		return &Node{K: KText, Vals: []*Val{{K: VConcat, Sub: []*Val{vs("a"), {K: VFail, Err: err}, vs("b")}}, vs("c")}}
	case 12:
		return &Node{K: KFail, Form: 12, Err: err} // a condition recording an error
	case 13:
		return &Node{K: KFail, Form: 13, Err: err} // a collector recording an error
	case 14:
		return &Node{K: KFail, Form: 14, Err: err} // an iteration function recording an error
	case 16:
		return &Node{K: KFail, Form: 16, Err: err} // the condition of an attribute recording an error
	default:
		return &Node{K: KFail, Form: 15, Err: err} // a yielding function recording an error between items
	}
}

func c09Kinds() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { return &Node{Name: "a" + g.next(), Vals: []*Val{vs("v"), {K: VFunc, S: "w"}}} }),
		container(KEl, "p", 0),
		container(KVoid, "br", 0),
		container(KColl, "", 0),
		container(KCollect, "", 0),
		container(KCond, "", 0),
		container(KImp, "", 0),
		container(KImpEl, "q", 0),
		container(KImpEl, "q", 1),
		container(KCustom, "", 0),
		func(g *gen) *Node {
			n := &Node{K: KIter, Items: []any{"i", "j"}}
			n.Kids = g.kids()
			return n
		},
		func(g *gen) *Node {
			n := &Node{K: KIter, Form: 2, Items: []any{"i", "j"}}
			n.Kids = g.kids()
			return n
		},
		container(KDoc, "", 0),
	}
}

// insertFail puts a failing node at one of the positions of the tree
func insertFail(x *X, top *Node, f *Node) {
	var slots []func(f *Node)
	var walk func(n *Node)
	walk = func(n *Node) {
		switch n.K {
		case KRaw, KAttr:
			return
		}
		for i := 0; i <= len(n.Kids); i++ {
			i, n := i, n
			slots = append(slots, func(f *Node) {
				kids := append([]*Node(nil), n.Kids[:i]...)
				kids = append(kids, f)
				n.Kids = append(kids, n.Kids[i:]...)
			})
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(top)
	slots[x.Choose(len(slots))](f)
}

func checkErrors(x *X, top *Node, mkEnv func() *Env) {
	x.Note(func() string { return top.String() })
	x.Ready()
	env := mkEnv()
	l := &live{conds: env.Conds}
	n := top.node(l)
	want := top.Model(env)
	for round := 0; round < 2; round++ {
		e := mkEnv()
		var buf bytes.Buffer
		ctx := context.New(&buf, e.Data, e.Cargo)
		err := n.Render(ctx)
		got := buf.String()
		if env.err == nil {
			if err != nil {
				x.Failf("an error although nothing failed: %v", err)
			}
			if d := stdOpt.Same(got, want); d != "" {
				x.Failf("%s", d)
			}
		} else {
			if err == nil {
				x.Failf("the error %q was not returned (output %q)", env.err, got)
			}
			if !sameErr(err, env.err) {
				x.Failf("returned %q instead of %q (output %q)", err, env.err, got)
			}
			if !strings.HasPrefix(want, got) {
				x.Failf("written after the error: %q instead of a part of %q", got, want)
			}
		}
		x.Observe([]byte(got))
	}
}

func c09Env() *Env {
	return &Env{Data: map[string]any{}, Conds: []bool{true}}
}

func c09Trees(fails int, quick, thorough int, kinds func() []func(g *gen) *Node) func(x *X) {
	return func(x *X) {
		g := &gen{x: x, budget: x.Q(quick, thorough), alpha: kinds()}
		top := &Node{K: []Kind{KEl, KColl, KDoc, KImp}[x.Choose(4)]}
		if top.K == KEl {
			top.Name = "div"
		}
		top.Kids = g.kids()
		if fails == 1 {
			insertFail(x, top, c09Fail(x, errApp1, 17))
		} else {
			// another one, or one that wraps the first
			second := errApp2
			if fails == 3 {
				second = errApp3
			}
			insertFail(x, top, c09Fail(x, errApp1, 16))
			insertFail(x, top, c09Fail(x, second, 16))
		}
		checkErrors(x, top, c09Env)
	}
}

// c09Late: application code that fails after the nodes it has rendered, or handles, passes on or wraps their error
func c09Late(x *X) {
	alpha := c09Kinds()
	alpha = []func(g *gen) *Node{alpha[0], alpha[2], alpha[4], alpha[6], alpha[10]}
	for form := 0; form < 8; form++ {
		for _, err := range []error{errApp2, errApp3} {
			if form%2 == 1 || form == 6 {
				if err == errApp3 {
					continue
				}
			}
			alpha = append(alpha, func(g *gen) *Node {
				n := &Node{K: KLate, Form: form, Err: err}
				n.Kids = g.kids()
				return n
			})
		}
	}
	g := &gen{x: x, budget: x.Q(2, 3), alpha: alpha}
	top := &Node{K: []Kind{KEl, KColl, KDoc, KImp}[x.Choose(4)]}
	if top.K == KEl {
		top.Name = "div"
	}
	top.Kids = g.kids()
	if x.Bool() {
		insertFail(x, top, c09Fail(x, errApp1, 16))
	}
	checkErrors(x, top, c09Env)
}

// template wrappers return the errors of their nodes
func c09Templates(x *X) {
	f := c09Fail(x, errApp1, 17)
	wrap := x.Choose(4)
	node := f
	switch {
	case wrap == 1 || f.isAttr():
		node = &Node{K: KEl, Name: "div", Kids: []*Node{{K: KRaw, Vals: []*Val{vs("x")}}, f, {K: KRaw, Vals: []*Val{vs("y")}}}}
	case wrap == 2:
		node = &Node{K: KColl, Kids: []*Node{f, {K: KRaw, Vals: []*Val{vs("y")}}}}
	case wrap == 3:
		node = &Node{K: KIter, Items: []any{1, 2}, Kids: []*Node{{K: KRaw, Vals: []*Val{vs("x")}}, f}}
	}
	form := x.Choose(4)
	x.Note(func() string { return "template marker " + node.String() })
	x.Ready()
	texts := []string{"before{{n .}}after", "{{range .Data.l}}{{n $}}{{end}}", "{{ok .}}{{n .}}{{n .}}", "{{if .Data.y}}<p>{{n .}}</p>{{end}}{{ok .}}"}
	env := c09Env()
	env.Data = map[string]any{"l": []int{1, 2}, "y": true}
	l := &live{conds: env.Conds}
	t, err := aitch.NewTemplate("t", texts[form], aitch.NodeMap{"n": node.node(l), "ok": aitch.Element("b", "k")})
	if err != nil {
		x.Failf("parse: %v", err)
	}
	want := []string{"before", "", "<b>k</b>", "<p>"}[form] + node.Model(env)
	var buf bytes.Buffer
	err = t.Execute(&buf, env.Data, nil)
	if err == nil || !errors.Is(err, errApp1) {
		x.Failf("returned %v instead of the application error (output %q)", err, buf.String())
	}
	if !strings.HasPrefix(want, buf.String()) {
		x.Failf("written after the error: %q instead of a part of %q", buf.String(), want)
	}
	x.Observe(buf.Bytes())
}

func c09KindsSmall() []func(g *gen) *Node {
	all := c09Kinds()
	return []func(g *gen) *Node{all[0], all[2], all[4], all[7], all[10], all[11]}
}

func init() {
	register(&Prop{
		ID:     "C09",
		Level:  "fault_enumeration",
		Rule:   "A case is a template tree with failing callbacks inserted at positions of the tree; rendered twice.",
		Assume: []string{"an error wrapped by html/template counts as returned (errors.Is)", "what is written before the error may be less than the model writes (only nothing after it is required)"},
		Suites: []*Suite{
			{Name: "one-error", Bounds: "every tree of up to 2 (thorough 3) nodes over 14 forms below 4 tops x every position x 17 failing forms", Body: c09Trees(1, 2, 3, c09Kinds)},
			{Name: "one-error-deep", Bounds: "every tree of up to 4 (thorough 5) nodes over 6 forms below 4 tops x every position x 17 failing forms", Body: c09Trees(1, 4, 5, c09KindsSmall)},
			{Name: "two-errors", Bounds: "every tree of up to 2 nodes over 14 (thorough) or 6 (quick) forms below 4 tops x every pair of positions x 16 x 16 failing forms", Body: func(x *X) {
				if x.Thorough() {
					c09Trees(2, 2, 2, c09Kinds)(x)
				} else {
					c09Trees(2, 2, 2, c09KindsSmall)(x)
				}
			}},
			{Name: "wrapped", Bounds: "every tree of up to 1 (thorough 2) nodes over 6 (thorough 14) forms below 4 tops x every pair of positions x 16 x 16 failing forms, one error wrapping the other", Body: func(x *X) {
				if x.Thorough() {
					c09Trees(3, 2, 2, c09Kinds)(x)
				} else {
					c09Trees(3, 1, 1, c09KindsSmall)(x)
				}
			}},
			{Name: "late", Bounds: "every tree of up to 2 (thorough 3) nodes over 5 forms and 11 of application code that fails after its contents, wraps, passes on or handles their error, below 4 tops, possibly x every position x 16 failing forms", Body: c09Late},
			{Name: "templates", Bounds: "17 failing forms in 4 wrappings in 4 template texts", Body: c09Templates},
		},
	})
}
