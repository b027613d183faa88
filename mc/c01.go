package main

import (
	"fmt"
	"strconv"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
)

// gen generates forests: every ordered forest of up to budget nodes over the alphabet
type gen struct {
	x      *X
	budget int
	label  int
	conds  int
	alpha  []func(g *gen) *Node // leaves and containers; a container fills Kids with g.kids()
}

func (g *gen) next() string {
	g.label++
	return strconv.Itoa(g.label)
}

func (g *gen) kids() []*Node {
	var result []*Node
	for g.budget > 0 {
		c := g.x.Choose(1 + len(g.alpha))
		if c == 0 {
			break
		}
		g.budget--
		result = append(result, g.alpha[c-1](g))
	}
	return result
}

// kid is exactly one node
func (g *gen) kid() *Node {
	c := g.x.Choose(len(g.alpha))
	g.budget--
	return g.alpha[c](g)
}

func leaf(k Kind, mk func(g *gen) *Node) func(g *gen) *Node {
	return func(g *gen) *Node {
		n := mk(g)
		n.K = k
		return n
	}
}

func container(k Kind, name string, form int) func(g *gen) *Node {
	return func(g *gen) *Node {
		n := &Node{K: k, Name: name, Form: form}
		n.Kids = g.kids()
		return n
	}
}

func kindsFull() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KText, func(g *gen) *Node { return &Node{Vals: []*Val{vs("t" + g.next())}} }),
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "a" + l, Vals: []*Val{vs("v" + l)}} }),
		leaf(KBool, func(g *gen) *Node { return &Node{Name: "b" + g.next(), Form: 1} }),
		leaf(KDelim, func(g *gen) *Node { return &Node{Name: "class", Vals: []*Val{vs("c" + g.next())}} }),
		leaf(KNil, func(g *gen) *Node { return &Node{} }),
		leaf(KComment, func(g *gen) *Node { return &Node{Vals: []*Val{vs("m" + g.next())}} }),
		leaf(KPI, func(g *gen) *Node { return &Node{Name: "X", Vals: []*Val{vs("p" + g.next())}} }),
		leaf(KFrag, func(g *gen) *Node { return &Node{Vals: []*Val{vraw("<i>"), vs("f" + g.next()), vraw("</i>")}} }),
		container(KEl, "p", 0),
		container(KEl, "x-y", 1),
		container(KVoid, "br", 0),
		container(KVoid, "void", 1),
		container(KColl, "", 0),
		container(KCollect, "", 0),
		container(KCond, "", 0),
	}
}

func kindsSmall() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "a" + l, Form: 1, Vals: []*Val{vs("v" + l)}} }),
		leaf(KDelim, func(g *gen) *Node { return &Node{Name: "class", Form: 1, Vals: []*Val{vs("c" + g.next())}} }),
		container(KEl, "div", 0),
		container(KVoid, "hr", 2),
		container(KColl, "", 0),
		container(KCond, "", 0),
	}
}

func checkTree(x *X, top *Node, env *Env) {
	x.Note(func() string { return top.String() })
	x.Ready()
	l := &live{conds: env.Conds}
	n := top.node(l)
	want := top.Model(env)
	got, err := render(n, env)
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if d := stdOpt.Same(got, want); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
	// rendering again must give the same
	again, err := render(n, env)
	if err != nil || again != got {
		x.Failf("second rendering differs: %v\nfirst  %q\nsecond %q", err, got, again)
	}
}

func treeSuite(name string, quick, thorough int, kinds func() []func(g *gen) *Node, tops []Kind) *Suite {
	return &Suite{
		Name:   name,
		Bounds: fmt.Sprintf("every ordered tree of up to %d (thorough %d) nodes below the top over %d node forms, top kinds %d", quick, thorough, len(kinds()), len(tops)),
		Body: func(x *X) {
			g := &gen{x: x, budget: x.Q(quick, thorough), alpha: kinds()}
			top := &Node{K: tops[x.Choose(len(tops))]}
			switch top.K {
			case KEl:
				top.Name = "div"
			case KVoid:
				top.Name = "img"
			}
			top.Kids = g.kids()
			checkTree(x, top, &Env{Conds: []bool{true}})
		},
	}
}

func init() {
	register(&Prop{
		ID:    "C01",
		Level: "model_checking",
		Rule:  "A case is a template tree (or a document), rendered with the real code and compared with the tokens of the reference model.",
		Suites: []*Suite{
			treeSuite("trees-all-kinds", 4, 5, kindsFull, []Kind{KEl, KVoid, KColl, KCollect, KDoc}),
			treeSuite("trees-deep", 6, 7, kindsSmall, []Kind{KEl}),
			{Name: "documents", Bounds: "language in {nil, static, key, func, empty} x head and body lists of up to 2 contents from 8 forms", Body: c01Documents},
			{Name: "wide", Bounds: "flat sequences of up to 7 (thorough 9) items from 5 forms in element, void element, collection, content collector", Body: c01Wide},
			{Name: "chains", Bounds: "nesting chains of every container kind up to depth 8 (thorough 10) over 4 container kinds around one attribute and one text", Body: c01Chains},
		},
	})
}

func c01Documents(x *X) {
	env := &Env{Data: map[string]any{"lang": "d<e"}, Conds: []bool{true}}
	var lang any
	langText := ""
	switch x.Choose(6) {
	case 1:
		lang, langText = "en", ` lang="en"`
	case 2:
		lang, langText = aitch.DynamicValueKey("lang"), ` lang="d&lt;e"`
	case 3:
		lang, langText = []byte("fr"), ` lang="fr"`
	case 4:
		lang, langText = "", ` lang=""`
	case 5:
		lang, langText = aitch.NewValue("x"), ` lang="x"`
	}
	g := &gen{x: x, alpha: kindsDoc()}
	pick := func() (nilList bool, kids []*Node) {
		if x.Choose(2) == 1 {
			return true, nil
		}
		g.budget = 2
		return false, g.kids()
	}
	headNil, head := pick()
	bodyNil, body := pick()
	hn, bn := &Node{K: KEl, Name: "head", Kids: head}, &Node{K: KEl, Name: "body", Kids: body}
	x.Note(func() string {
		return fmt.Sprintf("Document(%v, %v nil=%v, %v nil=%v)", lang, hn, headNil, bn, bodyNil)
	})
	x.Ready()
	l := &live{conds: env.Conds}
	ha, ba := hn.buildContents(l), bn.buildContents(l)
	if headNil {
		ha = nil
	}
	if bodyNil {
		ba = nil
	}
	n := html.Document(lang, ha, ba)
	want := "<!DOCTYPE html>\n<html" + langText + ">"
	if len(head) > 0 {
		want += hn.Model(env)
	}
	want += bn.Model(env) + "</html>"
	got, err := render(n, env)
	if err != nil {
		x.Failf("rendering returned an error: %v", err)
	}
	if d := stdOpt.Same(got, want); d != "" {
		x.Failf("%s", d)
	}
	x.Observe([]byte(got))
	if n.Type() != aitch.DocumentNode {
		x.Failf("a document has type %v", n.Type())
	}
	// a document inside another node renders the same
	got2, err := render(aitch.Collection(n), env)
	if err != nil || got2 != got {
		x.Failf("in a collection the document renders %q %v instead of %q", got2, err, got)
	}
}

func kindsDoc() []func(g *gen) *Node {
	return []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "a" + l, Vals: []*Val{vs("v" + l)}} }),
		leaf(KNil, func(g *gen) *Node { return &Node{} }),
		container(KEl, "title", 0),
		container(KVoid, "meta", 0),
		container(KColl, "", 0),
		container(KCond, "", 0),
	}
}

func c01Wide(x *X) {
	tops := []Kind{KEl, KVoid, KColl, KCollect, KCond}
	top := &Node{K: tops[x.Choose(len(tops))], Name: ""}
	switch top.K {
	case KEl:
		top.Name = "ul"
	case KVoid:
		top.Name = "input"
	}
	g := &gen{x: x, budget: x.Q(7, 9), alpha: []func(g *gen) *Node{
		leaf(KRaw, func(g *gen) *Node { return &Node{Vals: []*Val{vs("r" + g.next())}} }),
		leaf(KAttr, func(g *gen) *Node { l := g.next(); return &Node{Name: "a" + l, Vals: []*Val{vs("v" + l)}} }),
		leaf(KNil, func(g *gen) *Node { return &Node{} }),
		leaf(KEl, func(g *gen) *Node {
			return &Node{Name: "li", Kids: []*Node{{K: KRaw, Vals: []*Val{vs("e" + g.next())}}}}
		}),
	}}
	top.Kids = g.kids()
	checkTree(x, top, &Env{Conds: []bool{true}})
}

func c01Chains(x *X) {
	depth := 1 + x.Choose(x.Q(8, 10))
	label := 0
	inner := []*Node{{K: KAttr, Name: "id", Vals: []*Val{vs("v")}}, {K: KRaw, Vals: []*Val{vs("t")}}}
	for i := 0; i < depth; i++ {
		kinds := []Kind{KEl, KColl, KCond, KCollect}
		k := kinds[x.Choose(len(kinds))]
		label++
		n := &Node{K: k, Kids: inner}
		if k == KEl {
			n.Name = "e" + strconv.Itoa(label)
		}
		inner = []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("k" + strconv.Itoa(label))}}, n, {K: KRaw, Vals: []*Val{vs("a" + strconv.Itoa(label))}}}
	}
	checkTree(x, &Node{K: KEl, Name: "top", Kids: inner}, &Env{Conds: []bool{true}})
}
