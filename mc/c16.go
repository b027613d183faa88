package main

import (
	"fmt"
	"strings"
)

var genPieces = []string{"a", " ", "\"", "\\", "&lt;", "<", "&", "`", "'", "\n", "%", "{{", "é", "\x01", "\xff", "\u2028", "😀", "&nbsp;", "*/", "//", "&gt;", "\t", "&amp;lt;", "&quot;", ">", "\u200b", "\x7f", "\ufeff", "$", "\\n", "\r\n", "]]>", "&#x41;", "&notin", "é;"}

// commentPieces are dangerous in comments
var commentPieces = []string{"a", "-", "--", ">", "!", "<", "&gt;", "&#45;", " ", "\"", "\\", "\n", "&amp;", "<!--", "é"}

var c16Gen func(in string) (string, error)
var c16Voc *vocabulary
var c16Opt *genOpt

func c16Setup() {
	c16Gen = generator("html")
	c16Voc = vocab("html")
	c16Opt = &genOpt{bools: c16Voc.bools}
}

// extra names that are not in the vocabulary or are special to parsing
var extraElements = []string{"unknown", "my-element", "x:y", "a.b", "svg", "math", "path", "xmp", "noembed", "noframes", "textarea", "title", "center", "font", "marquee", "image", "h7", "un_known",
	"a0", "a@b", "a$", "a\"b", "é", "aé", "a'b", "text", "comment", "html:p", "a<b", "frameset", "rp", "ruby", "bdi", "output", "search", "area0", "link-x", "mains"}
var extraAttributes = []string{"unknown", "data-x", "data-", "aria-", "aria-x", "hx-get", "@click", ":class", "v-on:click.prevent", "x-on:click", "(click)", "[prop]", "*ng-if", "#ref", "on", "xml:lang",
	"accesskey", "é", "a\"b", "a'b", "_x", "0", "a<b", "$x", "xlink:href", "data-é", "for-x", "a{b", "-", ".", "\\", "a\\n", "viewbox", "aria", "data", "unknownflag"}

func isRawName(n string) bool {
	switch n {
	case "script", "style", "xmp", "iframe", "noembed", "noframes", "noscript", "plaintext":
		return true
	}
	return false
}

// c16Names: every element name x contents x attributes x ways to close
func c16Names(x *X) {
	names := append(append([]string(nil), c16Voc.elements...), extraElements...)
	n := names[x.Choose(len(names))]
	attrs := []string{"", ` id="i"`, ` class="c d" unknown='u"'`, " disabled", ` title="t" disabled style="a:b; c:d"`, ` data-x=1 required="no"`}[x.Choose(6)]
	content := x.Choose(8)
	closing := x.Choose(3)
	up := x.Bool()
	place := x.Choose(4)
	if n == "plaintext" {
		x.Ready()
		return
	}
	x.Ready()
	if up {
		n = strings.ToUpper(n)
	}
	low := strings.ToLower(n)
	body := []string{"", "text", "<b>x</b>", "t<br>u", "<!--c-->", "&lt;b&gt;", "  ", "<i></i>tail"}[content]
	var el string
	switch {
	case htmlVoid[low]:
		el = "<" + n + attrs + []string{">", "/>", " />"}[closing]
		if attrs != "" && closing == 1 && strings.HasSuffix(attrs, "=1") {
			el = "<" + n + attrs + " />"
		}
		el += body
	case closing == 1 && !isRawName(low) && low != "textarea" && low != "title":
		// a self-closed element that is not a void element counts as start and end tag
		el = "<" + n + attrs + " />" + body
	default:
		el = "<" + n + attrs + ">" + body + "</" + n + []string{">", ">", " >"}[closing]
	}
	in := []string{el, "<div>" + el + "</div>", "a" + el + "b", "<p>x</p>" + el + "<hr>" + el + "<p>y</p>"}[place]
	c16Opt.roundTrip(x, c16Gen, in)
}

// c16Attributes: every attribute name x value x element
func c16Attributes(x *X) {
	names := append(append([]string(nil), c16Voc.attributes...), extraAttributes...)
	n := names[x.Choose(len(names))]
	vals := []string{"", `=""`, `="v"`, `='v w'`, `=v`, `="` + n + `"`, `="true"`, `="false"`, `="a&quot;b"`, `='"'`, `="\n\"`, "=\"l1\nl2\"", `="; ;a;"`, `="&lt;&amp;&gt;"`, `="é` + "\xff" + `"`, `=" lead"`, `="0"`, `="&amp;amp;"`}
	v := vals[x.Choose(len(vals))]
	if strings.Contains(n, `"`) && v == `="`+n+`"` {
		v = `='` + n + `'`
	}
	el := []string{"div", "input", "unknown", "script", "a@b"}[x.Choose(5)]
	more := x.Choose(4)
	up := x.Bool()
	x.Ready()
	if up {
		n = strings.ToUpper(n)
	}
	at := n + v
	switch more {
	case 1:
		at = `zz="1" ` + at
	case 2:
		at = at + ` zz`
	case 3:
		at = `zz ` + at + ` yy="&lt;"`
	}
	in := "<" + el + " " + at + " >"
	if el != "input" {
		in += "t</" + el + ">"
	}
	c16Opt.roundTrip(x, c16Gen, in+"z")
}

// textPlaces are where text can be
var textPlaces = []struct {
	name     string
	pre, end string
	bad      []string // what the text cannot contain there
}{
	{"text", "<p>", "</p>", nil},
	{"attribute", `<p title="`, `">t</p>`, []string{`"`}},
	{"single quoted attribute", `<p class='`, `'>t</p>`, []string{`'`}},
	{"unknown attribute", `<br foo="`, `">`, []string{`"`}},
	{"unchecked attribute", `<br @foo="`, `">`, []string{`"`}},
	{"boolean attribute", `<input disabled="`, `">`, []string{`"`}},
	{"script", "<script>", "</script>", nil},
	{"style", "<style a=b>", "</style>", nil},
	{"iframe", "<iframe>", "</iframe>", nil},
	{"xmp", "<xmp>", "</xmp>", nil},
	{"noscript", "<noscript>", "</noscript>", nil},
	{"title", "<title>", "</title>", nil},
	{"textarea", "<textarea>", "</textarea>", nil},
	{"text in unknown", "<un-known>", "</un-known>x", nil},
	{"top", "", "", nil},
	{"tail", "<b>x</b>", "<!--c-->", nil},
	{"pre", "<pre>", "</pre>", nil},
	{"doctype", "<!DOCTYPE ", "><p></p>", []string{">"}},
}

// closesItself says that the text contains something that starts or ends markup
func startsMarkup(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '<' {
			c := s[i+1]
			if isLetter(c) || c == '/' || c == '!' || c == '?' {
				return true
			}
		}
	}
	return false
}

func c16Texts(x *X) {
	p := textPlaces[x.Choose(len(textPlaces))]
	n := 1 + x.Choose(x.Q(2, 3))
	s := ""
	for i := 0; i < n; i++ {
		s += genPieces[x.Choose(len(genPieces))]
	}
	x.Note(func() string { return fmt.Sprintf("%s %q", p.name, s) })
	for _, b := range p.bad {
		if strings.Contains(s, b) {
			x.Ready()
			return
		}
	}
	if p.name != "script" && p.name != "style" && !strings.Contains(p.name, "attribute") && startsMarkup(s+"a") && p.name != "doctype" {
		x.Ready()
		return
	}
	x.Ready()
	c16Opt.roundTrip(x, c16Gen, p.pre+s+p.end)
}

func c16Comments(x *X) {
	n := x.Choose(x.Q(5, 6))
	s := ""
	for i := 0; i < n; i++ {
		s += commentPieces[x.Choose(len(commentPieces))]
	}
	form := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("%q form %d", s, form) })
	// what would end the comment early leaves markup that is not balanced
	rest := s
	if strings.HasPrefix(rest, ">") || strings.HasPrefix(rest, "->") || strings.Contains(rest, "-->") || strings.Contains(rest, "--!>") || strings.HasSuffix(rest, "<!-") || strings.HasSuffix(rest, "<!--") || strings.HasSuffix(rest, "--!") {
		x.Ready()
		return
	}
	x.Ready()
	in := []string{"<!--" + s + "-->", "<p>a<!--" + s + "-->b</p>", "<!--" + s + "--><!--" + s + "-->", "<ul><!--x--><!--" + s + "--><li></li></ul>"}[form]
	c16Opt.roundTrip(x, c16Gen, in)
}

// genNames: every short name, as an attribute (with neighbours) and as an element
func genNames(x *X, o *genOpt, gen func(in string) (string, error), letters []string) {
	element := x.Bool()
	n := 1 + x.Choose(x.Q(4, 5))
	s := ""
	for i := 0; i < n; i++ {
		s += letters[x.Choose(len(letters))]
	}
	x.Note(func() string { return fmt.Sprintf("element %v, name %q", element, s) })
	x.Ready()
	if o.svg && strings.Contains("0-.", s[:1]) {
		return
	}
	if element {
		if !isLetter(s[0]) {
			return
		}
		o.roundTrip(x, gen, "<"+s+">t</"+s+"><g>u<"+s+" a=\"1\">v</"+s+"></g><"+s+" />")
		return
	}
	o.roundTrip(x, gen, "<g "+s+"=\"v\">t</g><unknown y='1' "+s+"='' z='2'/><g "+s+"=\""+s+"\" id=\"i\"></g>")
}

// genTree chooses a forest of balanced markup
type genTree struct {
	x      *X
	budget int
	svg    bool
	label  int
}

func (g *genTree) forest(depth int) string {
	var sb strings.Builder
	for g.budget > 0 {
		kinds := 14
		c := g.x.Choose(kinds)
		if c == 0 {
			break
		}
		g.budget--
		g.label++
		l := fmt.Sprint(g.label)
		wrap := func(open, close string) {
			sb.WriteString(open)
			sb.WriteString(g.forest(depth + 1))
			sb.WriteString(close)
		}
		if g.svg {
			switch c {
			case 1:
				sb.WriteString("t" + l)
			case 2:
				wrap("<g>", "</g>")
			case 3:
				wrap(`<rect x="`+l+`" foo="\">`, "</rect>")
			case 4:
				sb.WriteString(`<circle r="` + l + `"/>`)
			case 5:
				sb.WriteString("<path/>")
			case 6:
				wrap("<unknown:el>", "</unknown:el>")
			case 7:
				sb.WriteString(`<unknown a="` + l + `" />`)
			case 8:
				sb.WriteString("<!--" + l + " \"-->")
			case 9:
				sb.WriteString("<style>.a{b:\"" + l + "\"}</style>")
			case 10:
				wrap("<title>&lt;", "</title>")
			case 11:
				sb.WriteString("\n\t ")
			case 12:
				wrap("<linearGradient>", "</linearGradient>")
			case 13:
				sb.WriteString("<script><![CDATA[a<b && \"" + l + "\"]]></script>")
			}
			continue
		}
		switch c {
		case 1:
			sb.WriteString("t" + l)
		case 2:
			wrap("<div>", "</div>")
		case 3:
			wrap(`<p id="`+l+`" @x="\">`, "</p>")
		case 4:
			sb.WriteString("<br>")
		case 5:
			sb.WriteString(`<img src="` + l + `"/>`)
		case 6:
			wrap("<un-known>", "</un-known>")
		case 7:
			sb.WriteString(`<unknown a="` + l + `"/>`)
		case 8:
			sb.WriteString("<!--" + l + " \"-->")
		case 9:
			sb.WriteString("<script>if(a<b&&c){\"" + l + "\"}</script>")
		case 10:
			sb.WriteString("<title>&lt;" + l + "</title>")
		case 11:
			sb.WriteString("\n\t ")
		case 12:
			sb.WriteString("<!DOCTYPE html" + l + ">")
		case 13:
			sb.WriteString("<style></style>")
		}
	}
	return sb.String()
}

func c16Trees(x *X) {
	g := &genTree{x: x, budget: x.Q(4, 5)}
	in := g.forest(0)
	x.Note(func() string { return fmt.Sprintf("%q", in) })
	x.Ready()
	c16Opt.roundTrip(x, c16Gen, in)
}

// c16Large: deep, wide, and long
func genLarge(x *X, o *genOpt, gen func(in string) (string, error)) {
	kind := x.Choose(6)
	n := x.Choose(x.Q(64, 256))
	x.Note(func() string { return fmt.Sprintf("kind %d size %d", kind, n) })
	x.Ready()
	var sb strings.Builder
	switch kind {
	case 0:
		sb.WriteString(strings.Repeat("<g>", n) + "x" + strings.Repeat("</g>", n))
	case 1:
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "<g id=%q>%d<path/></g>", fmt.Sprint(i), i)
		}
	case 2:
		sb.WriteString("<g")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, " a%d=\"%d\"", i, i)
		}
		sb.WriteString(">x</g>")
	case 3:
		sb.WriteString("<g title=\"" + strings.Repeat("a\"\\"[:1]+"\\", n*40) + "\">" + strings.Repeat("x\\&lt;", n*40) + "</g>")
	case 4:
		for i := 0; i < n; i++ {
			sb.WriteString("<g><!--" + strings.Repeat("-", i%7+0) + "x--><g a='1'>")
		}
		for i := 0; i < n; i++ {
			sb.WriteString("</g>y</g>z")
		}
	case 5:
		for i := 0; i < n; i++ {
			sb.WriteString("<script>a" + fmt.Sprint(i) + "</script><g>b</g>")
		}
	}
	o.roundTrip(x, gen, sb.String())
}

func init() {
	register(&Prop{
		ID:     "C16",
		Level:  "model_checking",
		Rule:   "A case is an HTML input; the generated code is parsed (go/parser), evaluated with the real packages, rendered, and input and output are compared as tokenised by golang.org/x/net/html.",
		Assume: []string{"golang.org/x/net/html tokenises HTML correctly", "inputs with duplicate attributes, unbalanced tags, NUL characters or numeric references to control characters are not tried", "the own name as value of a boolean attribute is the same as no value"},
		Suites: []*Suite{
			{Name: "trees", Setup: c16Setup, Bounds: "all forests of up to 4 (thorough 5) nodes of 13 kinds", Body: c16Trees},
			{Name: "elements", Setup: c16Setup, Bounds: "every element name of the vocabulary and 36 others x 6 attribute lists x 8 contents x 3 ways to close x 4 places x lower and upper case", Body: c16Names},
			{Name: "attributes", Setup: c16Setup, Bounds: "every attribute name of the vocabulary and 36 others x 18 values x 5 elements x 4 neighbours x lower and upper case", Body: c16Attributes},
			{Name: "texts", Setup: c16Setup, Bounds: "texts of up to 2 (thorough 3) of 35 pieces in 18 places", Body: c16Texts},
			{Name: "comments", Setup: c16Setup, Bounds: "comments of up to 4 (thorough 5) of 15 pieces in 4 places", Body: c16Comments},
			{Name: "names", Setup: c16Setup, Bounds: "all names of up to 4 (thorough 5) of 14 characters as attributes and as elements", Body: func(x *X) {
				genNames(x, c16Opt, c16Gen, []string{"a", "b", "i", "0", ":", "-", ".", "_", "@", "é", "$", "B", "#", "]"})
			}},
			{Name: "large", Setup: c16Setup, Bounds: "6 kinds of deep, wide and long inputs of every size up to 63 (thorough 255)", Body: func(x *X) { genLarge(x, c16Opt, c16Gen) }},
		},
	})
}
