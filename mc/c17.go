package main

import (
	"fmt"
	"strings"
)

var c17Gen func(in string) (string, error)
var c17Voc *vocabulary
var c17Opt = &genOpt{svg: true}

func c17Setup() {
	c17Gen = generator("svg")
	c17Voc = vocab("svg")
}

var svgElements = []string{"unknown", "my-element", "x:y", "a.b", "xmp", "textarea", "iframe", "noscript", "plaintext", "center", "font", "un_known", "a0", "é", "aé", "_x", "text", "comment",
	"svg:g", "br", "link", "meta", "source", "input", "img", "a", "p", "div", "switch", "view", "image", "rdf:RDF", "title", "style", "script", "foreignObject", "linearGradient", "clipPath", "solidColor", "xml", "div0"}
var svgAttributes = []string{"unknown", "data-x", "data-", "xmlns", "xmlns:xlink", "_x", "é", "viewBox", "id", "class", "style", "xlink:href", "sodipodi:docname", "inkscape:label", "a.b", "on", "onclick",
	"disabled", "href", "gradientTransform", "preserveAspectRatio", "x0", "data", "aria-label", "lang", "tabindex", "role", "transform"}

func c17Names(x *X) {
	names := append(append([]string(nil), c17Voc.elements...), svgElements...)
	n := names[x.Choose(len(names))]
	attrs := []string{"", ` id="i"`, ` class="c d" unknown='u"'`, ` x="1" y='2' viewBox="0 0 1 1" style="a:b; c:d"`, ` xlink:href="#a" xml:space="preserve" fill=""`}[x.Choose(5)]
	content := x.Choose(10)
	closing := x.Choose(4)
	place := x.Choose(5)
	x.Ready()
	body := []string{"", "text", "<g>x</g>", "t<path/>u", "<!--c-->", "&lt;g&gt;\"", "  ", "<g></g>tail", "<![CDATA[a < b && &amp; \"c\" \\]]>", "<" + n + ">nested</" + n + ">"}[content]
	var el string
	switch closing {
	case 0:
		el = "<" + n + attrs + ">" + body + "</" + n + ">"
	case 1:
		el = "<" + n + attrs + "/>" + body
	case 2:
		el = "<" + n + attrs + "\n/>" + body
	case 3:
		el = "<" + n + attrs + " >" + body + "</" + n + " >"
	}
	in := []string{el, "<svg>" + el + "</svg>", "<g>a" + el + "b</g>", "<rect/>" + el + "<rect/>" + el + "<g>y</g>", "<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\">\n\t" + el + "\n</svg>\n"}[place]
	c17Opt.roundTrip(x, c17Gen, in)
}

func c17Attributes(x *X) {
	names := append(append([]string(nil), c17Voc.attributes...), svgAttributes...)
	n := names[x.Choose(len(names))]
	vals := []string{`=""`, `="v"`, `='v w'`, `="` + n + `"`, `="true"`, `="a&quot;b"`, `='"'`, `="\n\"`, "=\"l1\nl2\"", `="; ;a;"`, `="&lt;&amp;&gt;"`, `="é` + "\xff" + `"`, `=" lead "`, `="0"`, `="&amp;amp;"`, `="M0 0 L1,1 z"`, `="url(#a)"`, `="a<b>c"`, `="&#x27;"`}
	v := vals[x.Choose(len(vals))]
	el := []string{"g", "rect", "unknown", "script", "title", "linearGradient"}[x.Choose(6)]
	more := x.Choose(4)
	closed := x.Bool()
	x.Ready()
	at := n + v
	switch more {
	case 1:
		at = `zz="1" ` + at
	case 2:
		at = at + ` zz=""`
	case 3:
		at = `zz='"'` + "\n" + at + ` yy="&lt;"`
	}
	in := "<" + el + " " + at
	if closed {
		in += "/>"
	} else {
		in += ">t</" + el + ">"
	}
	c17Opt.roundTrip(x, c17Gen, in+"<g/>")
}

func c17Texts(x *X) {
	places := []struct{ name, pre, end, bad string }{
		{"text", "<text>", "</text>", "<"},
		{"attribute", `<g d="`, `">t</g>`, `"`},
		{"single quoted attribute", `<g class='`, `'/>`, `'`},
		{"unknown attribute", `<g foo="`, `"/>`, `"`},
		{"unchecked attribute", `<g _foo="`, `"/>`, `"`},
		{"script", "<script>", "</script>", "<"},
		{"style", "<style a=\"b\">", "</style>", "<"},
		{"title", "<title>", "</title>", "<"},
		{"desc", "<desc>", "</desc>", "<"},
		{"textarea", "<textarea>", "</textarea>", "<"},
		{"iframe", "<iframe>", "</iframe>", "<"},
		{"unknown", "<un:known>", "</un:known>x", "<"},
		{"top", "", "", "<"},
		{"tail", "<g>x</g>", "<!--c-->", "<"},
		{"CDATA", "<style><![CDATA[", "]]></style>", "]]>"},
		{"CDATA in text", "<text>a<![CDATA[", "]]>b</text>", "]]>"},
	}
	p := places[x.Choose(len(places))]
	n := 1 + x.Choose(x.Q(2, 3))
	s := ""
	for i := 0; i < n; i++ {
		s += genPieces[x.Choose(len(genPieces))]
	}
	x.Note(func() string { return fmt.Sprintf("%s %q", p.name, s) })
	x.Ready()
	if strings.Contains(s, p.bad) || p.name == "CDATA in text" && isBlank(s) {
		return
	}
	c17Opt.roundTrip(x, c17Gen, p.pre+s+p.end)
}

func c17Comments(x *X) {
	n := x.Choose(x.Q(4, 6))
	s := ""
	for i := 0; i < n; i++ {
		s += commentPieces[x.Choose(len(commentPieces))]
	}
	form := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("%q form %d", s, form) })
	x.Ready()
	// a well-formed comment neither contains two hyphens nor ends with one
	if strings.Contains(s, "--") || strings.HasSuffix(s, "-") || strings.HasPrefix(s, ">") || strings.HasPrefix(s, "->") {
		return
	}
	c17Opt.roundTrip(x, c17Gen, []string{"<!--" + s + "-->", "<g>a<!--" + s + "-->b</g>", "<!--" + s + "--><g/><!--" + s + "-->"}[form])
}

func c17Trees(x *X) {
	g := &genTree{x: x, budget: x.Q(4, 5), svg: true}
	in := g.forest(0)
	x.Note(func() string { return fmt.Sprintf("%q", in) })
	x.Ready()
	c17Opt.roundTrip(x, c17Gen, in)
}

func init() {
	register(&Prop{
		ID:     "C17",
		Level:  "model_checking",
		Rule:   "A case is an SVG input; the generated code is parsed (go/parser), evaluated with the real packages, rendered, and input and output are compared as tokenised by golang.org/x/net/html (element content never raw, CDATA sections as text).",
		Assume: []string{"golang.org/x/net/html tokenises markup correctly", "inputs with duplicate attributes, NUL characters or numeric references to control characters are not tried", "self-closing elements count as start and end tag, document type declarations are ignored"},
		Suites: []*Suite{
			{Name: "trees", Setup: c17Setup, Bounds: "all forests of up to 4 (thorough 5) nodes of 13 kinds", Body: c17Trees},
			{Name: "elements", Setup: c17Setup, Bounds: "every element name of the vocabulary and 42 others x 5 attribute lists x 10 contents x 4 ways to close x 5 places", Body: c17Names},
			{Name: "attributes", Setup: c17Setup, Bounds: "every attribute name of the vocabulary and 28 others x 19 values x 6 elements x 4 neighbours x closed or not", Body: c17Attributes},
			{Name: "texts", Setup: c17Setup, Bounds: "texts of up to 2 (thorough 3) of 35 pieces in 16 places", Body: c17Texts},
			{Name: "comments", Setup: c17Setup, Bounds: "comments of up to 3 (thorough 5) of 15 pieces in 3 places", Body: c17Comments},
			{Name: "names", Setup: c17Setup, Bounds: "all names of up to 4 (thorough 5) of 11 characters as attributes and as elements", Body: func(x *X) {
				genNames(x, c17Opt, c17Gen, []string{"a", "b", "i", "0", ":", "-", ".", "_", "é", "B", "r"})
			}},
			{Name: "large", Setup: c17Setup, Bounds: "6 kinds of deep, wide and long inputs of every size up to 63 (thorough 255)", Body: func(x *X) { genLarge(x, c17Opt, c17Gen) }},
		},
	})
}
