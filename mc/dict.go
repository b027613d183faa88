package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"io/fs"
	"log/slog"
	"math/big"
	"net"
	"net/mail"
	"net/netip"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// The "dictionary" suites enumerate inputs over a dictionary: words and numbers that mean something somewhere, and the
// strings and numbers that the sources of the packages under test mention (gentable collects them). What must come out is
// decided by the same models and oracles as everywhere else: the dictionary only selects inputs.

// dictFixed are words that are special to languages nearby
var dictFixed = []string{
	"true", "false", "null", "nil", "undefined", "NaN", "Infinity", "<nil>", "on", "off", "yes", "no", "none", "auto", "0", "1", "-1", "-0", "0px", "00", "1e3", "0x10", "inherit", "initial",
	"javascript:", "javascript:x()", "data:", "data:,x", "js:", "js:{", "http://", "//", "/*", "*/", "url(", "url(x)", "expression(", "!important", ":", ";", "; ", ",", ", ", "|", "=", "==", ".", "..", "...",
	"[if IE]", "[if IE]>x<![endif]", "[endif]", "[CDATA[", "[CDATA[x]]", "]]>", "?xml", "<?xml version=\"1.0\"?>", "?>", "<%", "%>", "{{", "}}", "{{x}}", "${", "${x}", "$", "$0", "$1", "%", "%s", "%d", "%%", "%!", "%v", "#", "#x", "@", "@x",
	"\\", "\\n", "\\x00", "\\u003c", "\\0", "`", "'", "\"", "\"\"", "''", "&", "&amp;", "&lt;", "&#60;", "&#x3c;", "&nbsp;", "&copy", "&amp", "<", ">", "</", "/>", "<>", "<!--", "-->", "--", "--!>", "<!", "<!DOCTYPE html>", "<b>", "</b>", "<script>", "</script>", "<br>",
	" ", "  ", "\t", "\n", "\n\n", "\r\n", "a\nb", "\n\tx", " x ", "\u00a0", "\u200b", "\ufeff", "\u2028", "é", "ſ", "K", "x", "xx", "a", "k", "key", "id", "class", "style", "name", "type", "value", "href", "src", "for", "data", "data-x", "aria-label",
	"hx-get", "on:click", "onclick", "xml", "xmlns", "xmlns:x", "xlink:href", "html", "HTML", "head", "body", "div", "p", "br", "BR", "input", "script", "style", "title", "textarea", "pre", "svg", "math", "path", "text", "Text", "comment", "fragment", "template", "doctype", "DOCTYPE", "xml:lang",
	"init", "String", "Error", "Key", "item", "index", "parent", "cargo", "Cargo", "ctx", "context", "error", "<error>", "raw", "default", "*", "_", "-", "--x", "+", "!", "!x", "!!", "!k", "?", "~", "^", "(", ")", "[", "]", "{", "}", "[]", "{}", "()",
}

var dictOnce sync.Once
var dictWords, dictNames, dictPairWords []string
var dictNumbers []int

// words is the dictionary, in a fixed order
func words() []string {
	dictOnce.Do(func() {
		seen := map[string]bool{}
		add := func(s string) {
			if !seen[s] && len(s) <= 200 && s != "" {
				seen[s] = true
				dictWords = append(dictWords, s)
			}
		}
		strs := append([]string(nil), dictStrings...)
		if len(strs) > 300 {
			strs = strs[:300]
		}
		for _, s := range strs {
			add(s)
			add(strings.ToUpper(s))
			add(strings.TrimSpace(s))
		}
		n := len(dictWords)
		for _, s := range strs {
			if len(s) <= 12 {
				for _, r := range s {
					if r != utf8.RuneError && len(dictWords) < n+60 {
						add(string(r))
					}
				}
			}
		}
		dictPairWords = append([]string(nil), dictWords...)
		if len(dictPairWords) > 220 {
			dictPairWords = dictPairWords[:220]
		}
		for i, s := range dictFixed {
			if !seen[s] && i%4 == 0 {
				dictPairWords = append(dictPairWords, s)
			}
			add(s)
		}
		for _, s := range dictWords {
			if validName(s) && len(s) < 40 {
				dictNames = append(dictNames, s)
			}
		}
		ints := map[int]bool{}
		for _, i := range append([]int{0, 1, 2}, dictInts...) {
			for d := -1; d <= 1; d++ {
				ints[i+d] = true
			}
		}
		for i := range ints {
			dictNumbers = append(dictNumbers, i)
		}
		sort.Ints(dictNumbers)
		if len(dictNumbers) > 150 {
			dictNumbers = dictNumbers[:150]
		}
	})
	return dictWords
}

func pairWords() []string { words(); return dictPairWords }

// dictSize are the sizes near the numbers in the sources
func dictSizes(max int) (out []int) {
	words()
	for _, n := range dictNumbers {
		if n >= 0 && n <= max {
			out = append(out, n)
		}
	}
	return
}

var vocabOnce sync.Once
var vocabEls, vocabAttrs []string

// vocabNames are the element and attribute names of all vocabularies, and the words that are names
func vocabNames() (els, attrs []string) {
	vocabOnce.Do(func() {
		words()
		collect := func(lists ...[]string) (out []string) {
			seen := map[string]bool{}
			for _, l := range lists {
				for _, s := range l {
					if validName(s) && !seen[s] {
						seen[s] = true
						out = append(out, s)
					}
				}
			}
			return
		}
		h, s, hx := vocab("html"), vocab("svg"), vocab("htmx")
		vocabEls = collect(h.elements, s.elements, dictNames, []string{"x", "my-el", "un:known"})
		vocabAttrs = collect(h.attributes, s.attributes, hx.attributes, dictNames, []string{"x", "data-x", "aria-x"})
	})
	return vocabEls, vocabAttrs
}

func elNode(name string, kids ...*Node) *Node {
	if isVoidName(name) {
		return &Node{K: KVoid, Name: name, Kids: kids}
	}
	return &Node{K: KEl, Name: name, Kids: kids}
}

func textNode(s string) *Node { return &Node{K: KText, Vals: []*Val{vs(s)}} }

func attrNode(name string, vals ...*Val) *Node { return &Node{K: KAttr, Name: name, Vals: vals} }

// c01DictNames: every pair of element names in 6 shapes
func c01DictNames(x *X) {
	els, _ := vocabNames()
	a := els[x.Choose(len(els))]
	x.Note(func() string { return fmt.Sprintf("element %q", a) })
	x.Ready()
	for _, b := range els {
		b := b
		x.note = func() string { return fmt.Sprintf("elements %q and %q", a, b) }
		id := attrNode("id", vs("1"))
		for _, top := range []*Node{
			elNode(a, textNode("s"), elNode(b, id, textNode("t")), textNode("u")),
			{K: KColl, Kids: []*Node{elNode(a, textNode("s")), elNode(b, textNode("t")), textNode("u")}},
			elNode(a, elNode(a, elNode(b), id), elNode(b, elNode(a))),
			{K: KEl, Name: "div", Kids: []*Node{elNode(b), textNode(" "), elNode(a, id), {K: KComment, Vals: []*Val{vs("c")}}, elNode(b)}},
			{K: KImpEl, Name: a, Kids: []*Node{id, elNode(b, textNode("t")), textNode("u")}},
			{K: KIter, Items: []any{1, 2}, Kids: []*Node{elNode(a, textNode("\n")), elNode(b, textNode("")), elNode(a, elNode(b, textNode(" x ")))}},
		} {
			checkModel(x, ordOpt, top, scaleEnv())
		}
	}
}

// c01DictWords: every word in every place of a tree
func c01DictWords(x *X) {
	ws := words()
	w := ws[x.Choose(len(ws))]
	h := holders[x.Choose(len(holders))]
	x.Note(func() string { return fmt.Sprintf("%q in %s", w, h) })
	x.Ready()
	v := vs(w)
	e := &Env{Data: map[string]any{"k": w, w: "under the word"}, Cargo: w, Conds: []bool{true, false}}
	for _, kids := range [][]*Node{
		{textNode(w)},
		{textNode("a"), {K: KRaw, Vals: []*Val{v}}, textNode("b")},
		{{K: KComment, Vals: []*Val{v}}, textNode(w)},
		{{K: KPI, Name: "x", Vals: []*Val{v}}, {K: KFrag, Vals: []*Val{v, vs("z"), v}}},
		{attrNode("title", v), attrNode("x", vkey("k")), {K: KDelim, Name: "dl", Vals: []*Val{v, {K: VCargo}, vs("z")}}, textNode("t")},
		{elNode("p", attrNode("title", vs("a"), v)), textNode(w), elNode("p", textNode(w), elNode("br"), textNode(w))},
		{{K: KText, Vals: []*Val{vkey("k"), {K: VCargo}, {K: VStringer, S: w}, v}}, {K: KWhen, Cond: 7, Form: 1, Kids: []*Node{textNode(w)}}},
		{{K: KIter, Items: []any{w, map[string]any{"k": w}}, Kids: []*Node{{K: KText, Vals: []*Val{vkey("k"), {K: VCargo}}}, elNode("li", attrNode("id", vkey("k")))}}},
	} {
		checkModel(x, stdOpt, hold(h, kids...), e)
	}
}

func wordForms(w string) []string {
	return []string{w, "x" + w, w + "x", "x" + w + "x", w + w, " " + w + " ", strings.ToUpper(w), strings.ToLower(w), w + "\n" + w, "<" + w + ">", w + "<b>" + w}
}

// c02Dict: every word in 11 forms through every channel
func c02Dict(x *X) {
	c := &c02Channels[x.Choose(len(c02Channels))]
	ws := words()
	w := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("%s: forms of %q", c.name, w) })
	x.Ready()
	for _, s := range wordForms(w) {
		checkChannel(x, c, s)
	}
}

// c02DictPairs: pairs of words
func c02DictPairs(x *X) {
	names := []string{"content <- static", "Text <- key", "Attribute <- static", "html.Class <- key", "Comment <- static", "Imperative WriteString", "html.Href <- cargo", "Fragment <- func() any", "PI <- Stringer", "css.Width <- static", "htmx.Headers value <- static",
		"htmx.Headers key", "htmx.Var <- key", "html.Style <- static", "Template marker", "Document language", "Iterate item"}
	name := names[x.Choose(len(names))]
	ws := pairWords()
	a := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("%s: %q and others", name, a) })
	x.Ready()
	var c *channel
	for i := range c02Channels {
		if c02Channels[i].name == name {
			c = &c02Channels[i]
		}
	}
	if c == nil {
		panic("no channel " + name)
	}
	for _, b := range ws {
		checkChannel(x, c, a+b)
		checkChannel(x, c, a+"x"+b+" ")
	}
}

type goStringer struct{ s string }

func (g goStringer) GoString() string { return g.s }

type formatter struct{ s string }

func (f formatter) Format(st fmt.State, _ rune) { _, _ = st.Write([]byte(f.s)) }

type marshaler struct{ s string }

func (m marshaler) MarshalText() ([]byte, error) { return []byte(m.s), nil }
func (m marshaler) MarshalJSON() ([]byte, error) { return []byte(m.s), nil }

type hasBytes struct{ s string }

func (h hasBytes) Bytes() []byte { return []byte(h.s) }

type namedString string
type namedBool bool
type dictInt int

type errStringer struct{ s string }

func (e errStringer) Error() string  { return "error " + e.s }
func (e errStringer) String() string { return e.s }

type uuidLike [4]byte

func (u uuidLike) String() string { return fmt.Sprintf("%x", u[:]) }

type listLike []string

func (l listLike) String() string { return "list " + l[0] }

type mapLike map[string]int

func (m mapLike) String() string { return fmt.Sprint("map ", len(m)) }

type funcLike func() string

func (f funcLike) String() string { return "func " + f() }

type bytesLike []byte

func (b bytesLike) String() string { return "bytes " + string(b) }

type numberLike int

func (n numberLike) String() string { return "number " + strconv.Itoa(int(n)) }

type boolLike bool

func (b boolLike) String() string { return "bool" }

type stringLike string

func (s stringLike) String() string { return "string " + string(s) }

// strangeValues are values of types that are not supported (or only because they are Stringers) and have the string in them
var strangeValues = []struct {
	name     string
	stringer bool
	mk       func(s string) any
}{
	{"error", false, func(s string) any { return errors.New(s) }},
	{"wrapped error", false, func(s string) any { return fmt.Errorf("%s: %w", s, errApp1) }},
	{"error that is a Stringer", true, func(s string) any { return errStringer{s} }},
	{"named string", false, func(s string) any { return namedString(s) }},
	{"pointer to string", false, func(s string) any { return &s }},
	{"pointer to any", false, func(s string) any { v := any(s); return &v }},
	{"struct", false, func(s string) any { return struct{ S string }{s} }},
	{"pointer to struct", false, func(s string) any { return &struct{ S string }{s} }},
	{"[]string", false, func(s string) any { return []string{s} }},
	{"[]any", false, func(s string) any { return []any{s} }},
	{"array of strings", false, func(s string) any { return [1]string{s} }},
	{"map", false, func(s string) any { return map[string]any{s: s} }},
	{"map of strings", false, func(s string) any { return map[string]string{"k": s} }},
	{"[]rune", false, func(s string) any { return []rune(s) }},
	{"array of bytes", false, func(s string) any { var a [200]byte; copy(a[:], s); return a }},
	{"[][]byte", false, func(s string) any { return [][]byte{[]byte(s)} }},
	{"pointer to []byte", false, func(s string) any { b := []byte(s); return &b }},
	{"template.HTML", false, func(s string) any { return template.HTML(s) }},
	{"template.HTMLAttr", false, func(s string) any { return template.HTMLAttr(s) }},
	{"template.JS", false, func(s string) any { return template.JS(s) }},
	{"template.URL", false, func(s string) any { return template.URL(s) }},
	{"GoStringer", false, func(s string) any { return goStringer{s} }},
	{"Formatter", false, func(s string) any { return formatter{s} }},
	{"Marshaler", false, func(s string) any { return marshaler{s} }},
	{"something with Bytes()", false, func(s string) any { return hasBytes{s} }},
	{"func() string", false, func(s string) any { return func() string { return s } }},
	{"func() []byte", false, func(s string) any { return func() []byte { return []byte(s) } }},
	{"func() error", false, func(s string) any { return func() error { return errors.New(s) } }},
	{"func(*Context) string", false, func(s string) any { return func(*context.Context) string { return s } }},
	{"func(*Context) any", false, func(s string) any { return func(*context.Context) any { return s } }},
	{"channel", false, func(s string) any { c := make(chan string, 1); c <- s; return c }},
	{"io.Reader", false, func(s string) any { return strings.NewReader(s) }},
	{"bytes.Buffer", true, func(s string) any { return bytes.NewBufferString(s) }},
	{"strings.Builder", true, func(s string) any { var sb strings.Builder; sb.WriteString(s); return &sb }},
	{"reflect.Value", true, func(s string) any { return reflect.ValueOf(s) }},
	{"Stringer pointer", true, func(s string) any { return &ptrStringer{s} }},
	{"complex", false, func(string) any { return complex(1, 2) }},
	{"named bool", false, func(string) any { return namedBool(true) }},
	{"named int", false, func(string) any { return dictInt(3) }},
	{"pointer to int", false, func(string) any { i := 3; return &i }},
	{"uintptr", false, func(string) any { return uintptr(3) }},
	{"nil pointer to string", false, func(string) any { return (*string)(nil) }},
	{"nil map", false, func(string) any { return map[string]any(nil) }},
	{"nil slice", false, func(string) any { return []any(nil) }},
	{"nil error", false, func(string) any { return (error)(nil) }},
	{"empty struct", false, func(string) any { return struct{}{} }},
	{"url.Userinfo", true, func(s string) any { return url.User(s) }},
	{"big.Int", true, func(string) any { return big.NewInt(5) }},
	{"time.Duration", true, func(string) any { return time.Second }},
	{"time.Time", true, func(string) any { return time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC) }},
	{"pointer to time.Time", true, func(string) any { t := time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC); return &t }},
	{"zero time.Time", true, func(string) any { return time.Time{} }},
	{"time.Month", true, func(string) any { return time.May }},
	{"net.IP", true, func(string) any { return net.IPv4(1, 2, 3, 4) }},
	{"net.HardwareAddr", true, func(string) any { return net.HardwareAddr{1, 2, 3, 4, 5, 6} }},
	{"pointer to net.IPNet", true, func(string) any { return &net.IPNet{IP: net.IPv4(1, 2, 3, 0), Mask: net.CIDRMask(24, 32)} }},
	{"netip.Addr", true, func(string) any { return netip.AddrFrom4([4]byte{1, 2, 3, 4}) }},
	{"pointer to url.URL", true, func(s string) any { return &url.URL{Scheme: "http", Host: "h", Path: "/" + s, RawQuery: "a=1&b=2"} }},
	{"url.URL", false, func(s string) any { return url.URL{Scheme: "http", Host: "h", Path: "/" + s} }},
	{"url.Values", false, func(s string) any { return url.Values{"k": {s}} }},
	{"big.Float", true, func(string) any { return big.NewFloat(1.5) }},
	{"big.Rat", true, func(string) any { return big.NewRat(1, 3) }},
	{"json.Number", true, func(string) any { return json.Number("5.0") }},
	{"json.RawMessage", true, func(s string) any { return json.RawMessage(s) }},
	{"regexp", true, func(string) any { return regexp.MustCompile("a<b") }},
	{"fs.FileMode", true, func(string) any { return fs.FileMode(0644) }},
	{"reflect.Type", true, func(string) any { return reflect.TypeOf(0) }},
	{"os.Signal", true, func(string) any { return os.Interrupt }},
	{"mail.Address", true, func(s string) any { return &mail.Address{Name: s, Address: "a@b.c"} }},
	{"slog.Level", true, func(string) any { return slog.LevelWarn }},
	{"slog.Value", true, func(s string) any { return slog.StringValue(s) }},
	{"sql.NullString", false, func(s string) any { return sql.NullString{String: s, Valid: true} }},
	{"pointer to atomic.Int64", false, func(string) any { return new(atomic.Int64) }},
	{"pointer to atomic.Value", false, func(s string) any { var v atomic.Value; v.Store(s); return &v }},
	{"array with String", true, func(string) any { return uuidLike{1, 2} }},
	{"slice with String", true, func(s string) any { return listLike{s} }},
	{"map with String", true, func(s string) any { return mapLike{s: 1} }},
	{"function with String", true, func(s string) any { return funcLike(func() string { return s }) }},
	{"bytes with String", true, func(s string) any { return bytesLike(s) }},
	{"number with String", true, func(string) any { return numberLike(7) }},
	{"bool with String", true, func(string) any { return boolLike(true) }},
	{"string with String", true, func(s string) any { return stringLike(s) }},
	{"embedding a Stringer", true, func(s string) any { return struct{ fmt.Stringer }{stringer{s}} }},
	{"embedding a time", true, func(string) any { return struct{ time.Time }{time.Unix(0, 0).UTC()} }},
	{"func() Stringer", false, func(s string) any { return func() fmt.Stringer { return stringer{s} } }},
	{"func() (any, error)", false, func(s string) any { return func() (any, error) { return s, nil } }},
	{"bytes.Buffer value", false, func(s string) any { return *bytes.NewBufferString(s) }},
	{"DynamicValueKey in a pointer", false, func(s string) any { k := aitch.DynamicValueKey(s); return &k }},
	{"ConditionalFunc", false, func(string) any { return aitch.ConditionalFunc(func(*context.Context) bool { return true }) }},
	{"func(*Context) bool", false, func(string) any { return func(*context.Context) bool { return true } }},
	{"func() bool", false, func(string) any { return func() bool { return true } }},
	{"node slice", false, func(s string) any { return []aitch.Node{aitch.Text(s)} }},
	{"value slice", false, func(s string) any { return []aitch.Value{aitch.NewValue(s)} }},
	{"pointer to a value", false, func(s string) any { v := aitch.NewValue(s); return &v }},
}

// c02Strange: values of unsupported types never become markup (structure), and (c11Strange) render as nothing
func c02Strange(x *X) {
	ps := positions()
	ps = ps[:len(ps)-1]
	p := ps[x.Choose(len(ps))]
	sv := strangeValues[x.Choose(len(strangeValues))]
	way := x.Choose(5)
	x.Note(func() string { return fmt.Sprintf("%s of %s, way %d", p.name, sv.name, way) })
	x.Ready()
	ss := append([]string{"<b>", "\"x", "a", "--><i>", "</x>", "' y='", "&amp;"}, "<script>", ">", "<x ", "&")
	for _, s := range ss {
		v, e := giveValue(way, sv.mk(s))
		out, err := render(aitch.Element("x", p.mk(v)), e)
		if err != nil {
			x.Failf("%q: %v", s, err)
		}
		toks, err := Tokenize(out)
		ok := err == nil && len(toks) >= 2 && toks[0].Kind == 's' && toks[len(toks)-1].Kind == 'e' && toks[0].Name == "x" && toks[len(toks)-1].Name == "x"
		if ok {
			inner := toks[1 : len(toks)-1]
			switch p.in {
			case 'a':
				ok = len(inner) == 0 && len(toks[0].Attrs) == 1 && toks[0].Attrs[0].Name == p.attr
			case 't':
				ok = len(toks[0].Attrs) == 0
				for _, t := range inner {
					ok = ok && t.Kind == 't'
				}
			default:
				ok = len(toks[0].Attrs) == 0 && len(inner) == 1 && inner[0].Kind == p.in
			}
		}
		if !ok {
			x.Failf("a value with %q in it changed the structure: %q (%v)", s, out, err)
		}
		x.Observe([]byte(out))
	}
}

func giveValue(way int, v any) (any, *Env) {
	switch way {
	case 1:
		return aitch.DynamicValueKey("k"), &Env{Data: map[string]any{"k": v}}
	case 2:
		return aitch.DynamicValueKey("."), &Env{Cargo: v}
	case 3:
		return func() any { return v }, &Env{}
	case 4:
		return aitch.NewValue(v), &Env{}
	}
	return v, &Env{}
}

// c11Strange: values of unsupported types render as nothing, Stringers as what they say
func c11Strange(x *X) {
	ps := positions()
	ps = ps[:len(ps)-1]
	p := ps[x.Choose(len(ps))]
	sv := strangeValues[x.Choose(len(strangeValues))]
	way := x.Choose(5)
	x.Note(func() string { return fmt.Sprintf("%s of %s, way %d", p.name, sv.name, way) })
	x.Ready()
	for _, s := range []string{"a", "b c", ""} {
		val := sv.mk(s)
		want := ""
		if st, ok := val.(fmt.Stringer); ok && sv.stringer {
			want = esc(st.String())
		}
		v, e := giveValue(way, val)
		out, err := render(aitch.Element("x", p.mk(v)), e)
		same, err2 := render(aitch.Element("x", p.mk([]byte(want))), &Env{})
		if err != nil || err2 != nil {
			x.Failf("%v, %v", err, err2)
		}
		if d := stdOpt.Same(out, same); d != "" {
			x.Failf("%q: %s", s, d)
		}
		x.Observe([]byte(out))
	}
}

// c03Dict: every pair of attribute names, the first declared again after the second
func c03Dict(x *X) {
	_, attrs := vocabNames()
	a := attrs[x.Choose(len(attrs))]
	x.Note(func() string { return fmt.Sprintf("attribute %q", a) })
	x.Ready()
	delim := func(n string) bool { return n == "class" || n == "style" }
	for i, b := range attrs {
		b := b
		x.note = func() string { return fmt.Sprintf("attributes %q and %q", a, b) }
		kind := []Kind{KAttr, KBool, KDelim}[i%3]
		if a == b && kind == KDelim {
			kind = KAttr
		}
		// (the same attribute as delimited and plain one is not specified)
		tag := []string{"element", "void", "imperative element"}[(i/3)%3]
		if delim(a) {
			// the comparison splits these values
			tag = "element"
		}
		top := hold(tag, attrNode(a, vs("v")), &Node{K: kind, Name: b, Vals: []*Val{vs("w"), vs("x")}}, attrNode(a, vs("last")))
		checkModel(x, stdOpt, top, scaleEnv())
		if kind == KDelim || a == b {
			continue
		}
		top = hold("element", &Node{K: KColl, Kids: []*Node{attrNode(a, vs("v"))}}, &Node{K: KBool, Name: a}, &Node{K: KCond, Cond: 0, Kids: []*Node{attrNode(b, vs("c")), {K: KBool, Name: a}}}, attrNode(b, vs("d")), &Node{K: KCond, Cond: 1, Kids: []*Node{attrNode(a, vs("never"))}})
		checkModel(x, stdOpt, top, scaleEnv())
	}
}

// c03DictValues: pairs of words as values that are merged or replaced
func c03DictValues(x *X) {
	ws := pairWords()
	a := ws[x.Choose(len(ws))]
	name := []string{"class", "style", "dl"}[x.Choose(3)]
	x.Note(func() string { return fmt.Sprintf("%s of %q and others", name, a) })
	x.Ready()
	e := &Env{Data: map[string]any{"a": a}, Cargo: a, Conds: []bool{true, false}}
	for _, b := range ws {
		b := b
		x.note = func() string { return fmt.Sprintf("%s of %q and %q", name, a, b) }
		d := func(vals ...*Val) *Node { return &Node{K: KDelim, Name: name, Vals: vals} }
		checkModel(x, stdOpt, hold("element", d(vs(a)), d(vs(b)), &Node{K: KCond, Cond: 0, Kids: []*Node{d(vkey("a"), vs(b))}}, attrNode("n", vs(a)), attrNode("n", vs(b))), e)
		checkModel(x, stdOpt, hold("void", attrNode("n", vs(b)), d(vs(b), vs(a), &Val{K: VCargo}), attrNode("n", vs(a), vs(b))), e)
	}
}

// c03Delims: the same attribute declared with different delimiters keeps every value, in order
func c03Delims(x *X) {
	delims := []string{" ", "; ", ";", ", ", ",", "|", "", "&", "--", "\n"}
	if x.Thorough() {
		for _, w := range pairWords() {
			if len(w) <= 2 && !strings.ContainsAny(w, "<>\"'&\x00") {
				delims = append(delims, w)
			}
		}
	}
	d1, d2, d3 := delims[x.Choose(len(delims))], delims[x.Choose(len(delims))], delims[x.Choose(len(delims))]
	placed := x.Choose(6)
	x.Note(func() string { return fmt.Sprintf("delimiters %q %q %q, %d", d1, d2, d3, placed) })
	x.Ready()
	mk := func(d string, vals ...any) aitch.Node { return aitch.DelimitedAttribute("n", d, vals...) }
	a, b, c := mk(d1, "v1", "v2"), mk(d2, "v3", dk("none"), "v4"), mk(d3, "v5", dk("k"))
	var top aitch.Node
	switch placed {
	case 0:
		top = aitch.Element("p", a, b, c)
	case 1:
		top = aitch.VoidElement("p", aitch.Collection(a, aitch.Collection(b)), c)
	case 2:
		top = aitch.Element("p", a, b, aitch.Conditional(always, c))
	case 3:
		top = aitch.Element("p", aitch.When("k", b, aitch.When("k", c)), a)
	case 4:
		top = aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.Start([]byte("p"), true, a, b, c); return nil })
	case 5:
		top = aitch.Element("p", aitch.When("k", a), aitch.When("k", b), "t", aitch.When("!k", b), aitch.When("k", c))
	}
	for r := 0; r < 2; r++ {
		got, err := render(top, &Env{Data: map[string]any{"k": "v6"}})
		if err != nil {
			x.Failf("%v", err)
		}
		toks, err := Tokenize(got)
		if err != nil || len(toks) == 0 || len(toks[0].Attrs) != 1 || toks[0].Attrs[0].Name != "n" {
			x.Failf("%q: %v", got, err)
		}
		rest := toks[0].Attrs[0].Val
		for i := 0; rest != ""; {
			if strings.HasPrefix(rest, fmt.Sprintf("v%d", i+1)) {
				rest = rest[2:]
				if i++; i == 6 && rest == "" {
					x.Observe([]byte(got))
					break
				}
				continue
			}
			if !strings.Contains(d1+d2+d3, rest[:1]) {
				break
			}
			rest = rest[1:]
		}
		if rest != "" {
			x.Failf("does not have all the values in order: %q", got)
		}
	}
}

// c04Dict: keys of conditions, and what the data may have under them
func c04Dict(x *X) {
	ws := append([]string{""}, words()...)
	w := ws[x.Choose(len(ws))]
	form := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("key %q, form %d", w, form) })
	x.Ready()
	key, neg := w, false
	if strings.HasPrefix(w, "!") {
		key, neg = w[1:], true
	}
	values := []struct {
		name    string
		data    map[string]any
		holds   bool
		unknown bool
	}{
		{"nil data", nil, false, false},
		{"empty data", map[string]any{}, false, false},
		{"other keys", map[string]any{key + "x": true, "!" + key: true, "x": 1, strings.ToUpper(key) + "X": 1}, key == "x", false},
		{"true", map[string]any{key: true}, true, false},
		{"false", map[string]any{key: false, "x" + key: true}, false, false},
		{"nil", map[string]any{key: nil}, true, false},
		{"zero", map[string]any{key: 0}, true, false},
		{"empty string", map[string]any{key: ""}, true, false},
		{"word", map[string]any{key: w}, true, false},
		{"the string false", map[string]any{key: "false"}, true, false},
		{"empty map", map[string]any{key: map[string]any{}}, true, false},
		{"nil slice", map[string]any{key: []any(nil)}, true, false},
		{"nil pointer", map[string]any{key: (*bool)(nil)}, true, false},
		{"pointer to false", map[string]any{key: new(bool)}, true, false},
		{"float zero", map[string]any{key: 0.0}, true, false},
		{"function", map[string]any{key: func() any { return false }}, true, true},
		{"named false", map[string]any{key: namedBool(false)}, true, true},
		{"named true", map[string]any{key: namedBool(true)}, true, true},
		{"error", map[string]any{key: errApp1}, true, false},
		{"nested key", map[string]any{key: map[string]any{key: false}}, true, false},
	}
	cargos := []any{nil, map[string]any{key: true}, map[string]any{key: false}, struct{ Key bool }{true}, true, false}
	for _, v := range values {
		for _, cargo := range cargos {
			for _, parent := range []bool{false, true} {
				holds := v.holds != neg
				pos, negd := aitch.When(aitch.DynamicValueKey(w), aitch.Text("A"), aitch.Attribute("a", 1)), aitch.Node(nil)
				if neg {
					negd = aitch.When(aitch.DynamicValueKey(key), aitch.Text("B"), aitch.Attribute("b", 1))
					if strings.HasPrefix(key, "!") {
						// two of them: only one is taken off
						negd = nil
					}
				} else {
					negd = aitch.When(aitch.DynamicValueKey("!"+w), aitch.Text("B"), aitch.Attribute("b", 1))
				}
				var top aitch.Node
				switch form {
				case 0:
					top = aitch.Element("p", pos, negd)
				case 1:
					top = aitch.Element("p", aitch.Collection(pos), aitch.Conditional(always, negd))
				case 2:
					top = aitch.Element("p", aitch.When(aitch.DynamicValueKey(w), pos), aitch.Collection(negd))
				case 3:
					top = aitch.Element("p", negd, aitch.Conditional(always, pos, aitch.Collection(pos)))
				}
				want := []string{`<p b="1">B</p>`, `<p a="1">A</p>`}
				if form == 3 {
					want[1] = `<p a="1">AA</p>`
				}
				if negd == nil {
					want[0] = "<p></p>"
				}
				var buf bytes.Buffer
				ctx := context.New(&buf, v.data, cargo)
				if parent {
					ctx.Parent = context.New(&buf, map[string]any{key: true}, map[string]any{key: true})
				}
				for r := 0; r < 2; r++ {
					buf.Reset()
					if err := top.Render(ctx); err != nil {
						x.Failf("%s: %v", v.name, err)
					}
					got := buf.String()
					if v.unknown {
						if got != want[0] && got != want[1] {
							x.Failf("%s: the negated condition is not the complement: %q", v.name, got)
						}
					} else if exp := choose(holds, want[1], want[0]); got != exp {
						x.Failf("%s, cargo %v: %q instead of %q", v.name, cargo, got, exp)
					}
					x.Observe([]byte(got))
				}
			}
		}
	}
}

// c05Dict: names in an order that is not any natural one
func c05Dict(x *X) {
	_, attrs := vocabNames()
	a := x.Choose(len(attrs))
	x.Note(func() string { return fmt.Sprintf("attribute %q", attrs[a]) })
	x.Ready()
	for b := range attrs {
		if b == a {
			continue
		}
		b := b
		x.note = func() string { return fmt.Sprintf("attributes %q, %q", attrs[a], attrs[b]) }
		c := attrs[(a+b)%len(attrs)]
		kids := []*Node{attrNode(attrs[a], vs("1")), {K: KBool, Name: attrs[b]}, {K: KCond, Cond: 0, Kids: []*Node{attrNode(attrs[a], vs("2"))}}}
		if c != attrs[a] && c != attrs[b] {
			kids = append(kids, &Node{K: KCond, Cond: b % 2, Kids: []*Node{attrNode(c, vs("3"))}}, attrNode(c, vs("4")))
		}
		checkModel(x, ordOpt, hold([]string{"element", "void", "collection in element"}[b%3], kids...), scaleEnv())
	}
}

// c05DictHeaders: the keys of header maps are sorted as strings
func c05DictHeaders(x *X) {
	ws := words()
	a := ws[x.Choose(len(ws))]
	js := x.Bool()
	x.Note(func() string { return fmt.Sprintf("key %q", a) })
	x.Ready()
	for i, b := range ws {
		b := b
		x.note = func() string { return fmt.Sprintf("keys %q, %q", a, b) }
		m := c20Map{a: vs("1"), b: vs("2"), ws[(i*7+3)%len(ws)]: vs("3")}
		e := c20Envs[0]
		want := c20Text([]c20Map{m}, js, e)
		el := aitch.Element("p", c20Node(js, []htmx.HeadersMap{m.build()}))
		if got := c20Attr(x, el, e, "hx-headers"); got != strings.ReplaceAll(want, "\x00", "") {
			x.Failf("is %q instead of %q", got, want)
		}
	}
}

// c06Dict: one attribute and one element in elements of every pair of names
func c06Dict(x *X) {
	els, attrs := vocabNames()
	a := x.Choose(len(els))
	x.Note(func() string { return fmt.Sprintf("element %q", els[a]) })
	x.Ready()
	l := &live{conds: []bool{true, false}}
	for b := range els {
		b := b
		x.note = func() string { return fmt.Sprintf("elements %q, %q", els[a], els[b]) }
		n := attrs[(a*31+b)%len(attrs)]
		shared := []*Node{{K: KDelim, Name: "class", Vals: []*Val{vs("s"), vkey("k")}}, attrNode(n, vs("shared"), vkey("k")), elNode(els[(a+b)%len(els)], textNode("in"))}
		if n == "class" || n == "style" {
			shared[1].Name = "x"
		}
		var nodes []aitch.Node
		for _, s := range shared {
			nodes = append(nodes, s.node(l))
		}
		var pool []poolEntry
		for i, name := range []string{els[a], els[b], els[a]} {
			own := &Node{K: KDelim, Name: "class", Vals: []*Val{vs("own" + strconv.Itoa(i))}}
			ast := elNode(name, append(append([]*Node(nil), shared...), own)...)
			pool = append(pool, poolEntry{ast, ast.assemble(l, append(append([]aitch.Node(nil), nodes...), own.node(l)))})
		}
		for i, s := range shared {
			pool = append(pool, poolEntry{s, nodes[i]})
		}
		checkPool(x, pool, l, "after the constructions")
	}
}

// ---- failing callbacks that give nothing

const bareForms = 20

var bareFailures = []struct {
	name  string
	attr  bool
	build func(err error) aitch.Node
}{
	{"collector giving nil", false, func(err error) aitch.Node {
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { ctx.Error = err; return nil })
	}},
	{"collector giving none", false, func(err error) aitch.Node {
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { ctx.Error = err; return []aitch.Node{} })
	}},
	{"collector giving a nil node", false, func(err error) aitch.Node {
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node { ctx.Error = err; return []aitch.Node{nil} })
	}},
	{"iteration of nil", false, func(err error) aitch.Node {
		return aitch.Iterate(func(ctx *context.Context) []any { ctx.Error = err; return nil }, aitch.Text("AFTER"))
	}},
	{"iteration of none", false, func(err error) aitch.Node {
		return aitch.Iterate(func(ctx *context.Context) []any { ctx.Error = err; return []any{} }, aitch.Text("AFTER"))
	}},
	{"iteration of nil without nodes", false, func(err error) aitch.Node {
		return aitch.Iterate(func(ctx *context.Context) []any { ctx.Error = err; return nil })
	}},
	{"yielding none", false, func(err error) aitch.Node {
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { ctx.Error = err }, aitch.Text("AFTER"))
	}},
	{"yielding without nodes", false, func(err error) aitch.Node {
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) { ctx.Error = err; yield(1) }, aitch.When("none", aitch.Text("AFTER")))
	}},
	{"condition that does not hold", false, func(err error) aitch.Node {
		return aitch.Conditional(func(ctx *context.Context) bool { ctx.Error = err; return false }, aitch.Text("AFTER"))
	}},
	{"condition of an empty text", false, func(err error) aitch.Node {
		return aitch.Conditional(func(ctx *context.Context) bool { ctx.Error = err; return true }, aitch.Text(""))
	}},
	{"condition of an attribute that does not hold", true, func(err error) aitch.Node {
		return aitch.Conditional(func(ctx *context.Context) bool { ctx.Error = err; return false }, aitch.Attribute("zz", "AFTER"))
	}},
	{"value giving nil", false, func(err error) aitch.Node {
		return aitch.Text(func(ctx *context.Context) []byte { ctx.Error = err; return nil })
	}},
	{"value giving none", false, func(err error) aitch.Node {
		return aitch.Text(aitch.DynamicValueFunc(func(ctx *context.Context) []byte { ctx.Error = err; return []byte{} }))
	}},
	{"value of a fragment giving nil", false, func(err error) aitch.Node {
		return aitch.Fragment(func(ctx *context.Context) []byte { ctx.Error = err; return nil })
	}},
	{"value of a concatenated value giving nil", false, func(err error) aitch.Node {
		return aitch.Text(aitch.NewConcatValue("", aitch.NewValue(func(ctx *context.Context) []byte { ctx.Error = err; return nil })))
	}},
	{"custom node recording", false, func(err error) aitch.Node { return &recordNode{err} }},
	{"imperative recording", false, func(err error) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.Context().Error = err; return nil })
	}},
	{"imperative recording and returning", false, func(err error) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.Context().Error = err; return err })
	}},
	{"imperative recording and ending", false, func(err error) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Context().Error = err
			ic.Start([]byte("AFTER"), false)
			ic.End()
			ic.EndAll()
			return nil
		})
	}},
	{"imperative writing a failing value", false, func(err error) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(aitch.Text(func(ctx *context.Context) []byte { ctx.Error = err; return nil }))
			ic.WriteRaw([]byte("AFTER"))
			return nil
		})
	}},
	{"imperative of a failing one", false, func(err error) aitch.Node {
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(&failNode{err}, aitch.Text("AFTER"))
			ic.EndAll()
			return nil
		})
	}},
	{"iteration over a failing node", false, func(err error) aitch.Node {
		return aitch.Iterate(func(ctx *context.Context) []any { return []any{1, 2} }, &failNode{err}, aitch.Text("AFTER"))
	}},
}

type recordNode struct{ err error }

func (c *recordNode) Render(ctx *context.Context) error { ctx.Error = c.err; return nil }
func (c *recordNode) Type() aitch.NodeType              { return aitch.FragmentNode }
func (c *recordNode) Name() string                      { return "#record" }

// c09Bare: failing callbacks that give nothing to render, of every kind of error
func c09Bare(x *X) {
	f := x.Choose(len(bareFailures))
	h := holders[x.Choose(len(holders))]
	outer := x.Choose(5)
	around := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("%s in %s (%d), around %d", bareFailures[f].name, h, outer, around) })
	x.Ready()
	var errs []error
	for _, k := range errKinds {
		errs = append(errs, k.mk("failed"))
	}
	for _, w := range append([]string{""}, pairWords()...) {
		errs = append(errs, errors.New(w))
	}
	for i, err := range errs {
		if i > 0 && (h == "void" && bareFailures[f].attr == false) {
			break
		}
		if i >= len(errKinds)+1 && (outer > 0 || around > 1) {
			break
		}
		err := err
		x.note = func() string {
			return fmt.Sprintf("%s in %s (%d), around %d, %T %q", bareFailures[f].name, h, outer, around, err, err)
		}
		if outer == 0 && h == "custom" && bareFailures[f].name == "custom node recording" {
			break // the application's own outermost node does not say that it failed
		}
		fail := &Node{K: KFail, Form: bareForms + f, Err: err}
		kids := []*Node{fail}
		a, b := textNode("a"), &Node{K: KEl, Name: "b", Kids: []*Node{{K: KText, Vals: []*Val{vkey("k")}}}}
		switch around {
		case 1:
			kids = []*Node{a, fail}
		case 2:
			kids = []*Node{fail, b}
		case 3:
			kids = []*Node{a, b, fail, b, attrNode("at", vs("v"))}
		}
		top := hold(h, kids...)
		switch outer {
		case 1:
			top = hold("element", top)
		case 2:
			top = hold("collection", a, top, b)
		case 3:
			top = hold("iterate", top, b)
		case 4:
			top = hold("imperative element", b, hold("conditional", top))
		}
		bareErrors(x, top, err)
	}
}

// bareErrors requires that the error is returned, and that nothing is written after it
func bareErrors(x *X, top *Node, err error) {
	e := scaleEnv()
	n := top.node(&live{conds: e.Conds})
	me := scaleEnv()
	want := top.Model(me)
	for round := 0; round < 2; round++ {
		got, rerr := render(n, e)
		if me.err == nil {
			if rerr != nil {
				x.Failf("an error although nothing failed: %v", rerr)
			}
			if d := stdOpt.Same(got, want); d != "" {
				x.Failf("%s", d)
			}
			return
		}
		if !sameErr(rerr, err) {
			x.Failf("returned %v instead of the error (output %q)", rerr, got)
		}
		if !strings.HasPrefix(want, got) {
			x.Failf("written after the error: %q instead of a part of %q", got, want)
		}
		x.Observe([]byte(got))
	}
}

// c09BareTemplates: the same as markers of templates
func c09BareTemplates(x *X) {
	f := bareFailures[x.Choose(len(bareFailures))]
	form := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("marker of %s, %d", f.name, form) })
	x.Ready()
	for _, k := range errKinds {
		err := k.mk("failed")
		x.note = func() string { return fmt.Sprintf("marker of %s, %d, %s", f.name, form, k.name) }
		node := f.build(err)
		if form == 1 || f.attr {
			node = aitch.Element("p", "x", node, "y")
		}
		t, perr := aitch.NewTemplate("t", []string{"before{{n .}}after", "{{n .}}", "before{{range .Data.l}}{{n $}}{{end}}after{{n .}}"}[form], aitch.NodeMap{"n": node})
		if perr != nil {
			x.Failf("%v", perr)
		}
		var buf bytes.Buffer
		got := t.Execute(&buf, map[string]any{"l": []int{1, 2}}, nil)
		if got == nil || !errors.Is(got, err) {
			x.Failf("returned %v instead of the error (output %q)", got, buf.String())
		}
		if s := buf.String(); strings.Contains(s, "after") || strings.Contains(s, "AFTER") || strings.Contains(s, "y") {
			x.Failf("written after the error: %q", s)
		}
		x.Observe(buf.Bytes())
	}
}

// c10Dict: keys and items that are words, and the sizes in the sources
func c10Dict(x *X) {
	ws := append([]string{""}, words()...)
	w := ws[x.Choose(len(ws))]
	form := x.Choose(3)
	x.Note(func() string { return fmt.Sprintf("key and item %q, form %d", w, form) })
	x.Ready()
	key := w
	inner := key
	if inner == "." {
		inner = "k" // (that is the cargo)
	}
	body := []*Node{{K: KEl, Name: "li", Kids: []*Node{attrNode("id", vkey(inner)), {K: KText, Vals: []*Val{{K: VCargo}, vs("/"), vkey(inner), vs("/"), {K: VParent, S: inner}}}}}}
	for _, items := range [][]any{
		{}, {w}, {w, w, 1}, {map[string]any{inner: w}, w}, {map[string]any{}, map[string]any{inner: "v", "x": 1}}, {nil, w}, {map[string]any{inner: nil}, []any{w}}, {0, false, "", w},
	} {
		e := &Env{Data: map[string]any{inner: "outer"}, Cargo: map[string]any{key: []any{"never"}}, Conds: []bool{true, false}}
		it := &Node{K: KIter, Form: form, Kids: body, Items: items}
		if form == 1 {
			it.Name = key
			e.Data[key] = items
		}
		checkModel(x, stdOpt, &Node{K: KEl, Name: "ul", Kids: []*Node{it, {K: KText, Vals: []*Val{vkey("x")}}}}, e)
	}
	if form == 1 {
		// what is not in the data is not looked for elsewhere
		for _, e := range []*Env{{Cargo: map[string]any{key: []any{1}}}, {Data: map[string]any{}, Cargo: []any{1, 2}}, {Data: map[string]any{key + "x": []any{1}}, Cargo: nil}} {
			got, err := render(aitch.Element("ul", aitch.IterateKey(key, aitch.Text("item"))), e)
			c19Same(x, "rendered", got, err, "<ul></ul>")
		}
	}
}

// c11Dict: words and numbers through every channel; keys and where they are looked for
func c11Dict(x *X) {
	c := &c02Channels[x.Choose(len(c02Channels))]
	ws := words()
	w := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("%s: %q", c.name, w) })
	x.Ready()
	checkChannel(x, c, w)
	checkChannel(x, c, "")
}

func c11DictKeys(x *X) {
	ps := positions()
	ps = ps[:len(ps)-1]
	p := ps[x.Choose(len(ps))]
	ws := append([]string{""}, words()...)
	w := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("%s of key %q", p.name, w) })
	x.Ready()
	if w == "." {
		return
	}
	node := aitch.Element("x", p.mk(aitch.DynamicValueKey(w)))
	want := func(s string) string {
		out, err := render(aitch.Element("x", p.mk([]byte(s))), &Env{})
		if err != nil {
			x.Failf("%v", err)
		}
		return out
	}
	empty := want("")
	type C struct{ Key, K, X string }
	for _, data := range []map[string]any{nil, {}, {w + "x": "v", "x" + w: "v", strings.ToUpper(w) + "_": "v", ".": "dot"}, {w: nil}, {w: "v"}, {w: 7}, {w: false}, {w: 0.0}, {w: []byte("")}, {w: "0"}} {
		exp := empty
		switch v := data[w].(type) {
		case string:
			exp = want(v)
		case int, float64, bool:
			exp = want(fmt.Sprint(v))
		}
		for _, cargo := range []any{nil, map[string]any{w: "C"}, map[string]string{w: "C"}, C{"C", "C", "C"}, &C{"C", "C", "C"}, "C"} {
			got, err := render(node, &Env{Data: data, Cargo: cargo})
			c19Same(x, fmt.Sprintf("data %v cargo %v", data, cargo), got, err, exp)
		}
	}
}

// c11DictNumbers: numbers near those in the sources, of every type
func c11DictNumbers(x *X) {
	ps := positions()
	ps = ps[:len(ps)-1]
	p := ps[x.Choose(len(ps))]
	words()
	i := dictNumbers[x.Choose(len(dictNumbers))]
	x.Note(func() string { return fmt.Sprintf("%s of numbers like %d", p.name, i) })
	x.Ready()
	for _, sign := range []int{1, -1} {
		n := i * sign
		s := strconv.Itoa(n)
		vals := []struct {
			v    any
			want string
		}{{n, s}, {int64(n), s}, {int32(n), s}, {float64(n), strconv.FormatFloat(float64(n), 'g', -1, 64)}, {float64(n) + .5, strconv.FormatFloat(float64(n)+.5, 'g', -1, 64)}, {float32(n), strconv.FormatFloat(float64(float32(n)), 'g', -1, 32)}}
		if n >= -128 && n <= 127 {
			vals = append(vals, struct {
				v    any
				want string
			}{int8(n), s})
		}
		if n >= -32768 && n <= 32767 {
			vals = append(vals, struct {
				v    any
				want string
			}{int16(n), s})
		}
		if n >= 0 {
			vals = append(vals, struct {
				v    any
				want string
			}{uint(n), s}, struct {
				v    any
				want string
			}{uint64(n), s}, struct {
				v    any
				want string
			}{uint32(n), s})
			if n < 256 {
				vals = append(vals, struct {
					v    any
					want string
				}{uint8(n), s})
			}
			if n < 65536 {
				vals = append(vals, struct {
					v    any
					want string
				}{uint16(n), s})
			}
		}
		for _, v := range vals {
			w := v.want
			want, err := render(aitch.Element("x", p.mk([]byte(w))), &Env{})
			if err != nil {
				x.Failf("%v", err)
			}
			for way := 0; way < 5; way++ {
				g, e := giveValue(way, v.v)
				got, err := render(aitch.Element("x", p.mk(g)), e)
				if got != want && strings.ContainsAny(w, "e") {
					continue // (any shortest form of floats will do: C11 numbers)
				}
				c19Same(x, fmt.Sprintf("%T %v way %d", v.v, v.v, way), got, err, want)
			}
		}
	}
}

// c12Dict: elements of every name, void or not as the operation says
func c12Dict(x *X) {
	els, attrs := vocabNames()
	a := els[x.Choose(len(els))]
	va := x.Bool()
	x.Note(func() string { return fmt.Sprintf("Start(%q, %v)", a, va) })
	x.Ready()
	for i, b := range els {
		vb := i%2 == 0
		b := b
		x.note = func() string { return fmt.Sprintf("Start(%q, %v), Start(%q, %v)", a, va, b, vb) }
		at := attrs[i%len(attrs)]
		node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte(a), va, aitch.Attribute(at, 1))
			ic.WriteString("s")
			ic.Start([]byte(b), vb)
			ic.WriteRaw([]byte("t"))
			ic.End()
			ic.Start([]byte(a), va)
			ic.Start([]byte(b), !vb, aitch.Attribute("id", 1))
			ic.WriteNodes(aitch.Text("u"))
			ic.EndAll()
			ic.End()
			return nil
		})
		var w strings.Builder
		var open []string
		start := func(n string, void bool, attr string) {
			w.WriteString("<" + n + attr + ">")
			if !void {
				open = append(open, n)
			}
		}
		start(a, va, " "+at+`="1"`)
		w.WriteString("s")
		start(b, vb, "")
		w.WriteString("t")
		denoteEnd(&w, &open)
		start(a, va, "")
		start(b, !vb, ` id="1"`)
		w.WriteString("u")
		denoteEndAll(&w, &open)
		c12Check(x, node, w.String())
	}
}

// c12DictWords: words written in every way
func c12DictWords(x *X) {
	ws := append([]string{""}, words()...)
	a := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("words %q and others", a) })
	x.Ready()
	for _, b := range ws {
		b := b
		x.note = func() string { return fmt.Sprintf("words %q and %q", a, b) }
		node := aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), false, aitch.Attribute("a", a), aitch.Attribute("b", b))
			ic.WriteString(a)
			ic.WriteString(b)
			ic.Start([]byte("q"), false)
			ic.WriteRaw([]byte(b))
			ic.End()
			ic.WriteNodes(aitch.Text(a, b), aitch.Comment(a))
			ic.End()
			return nil
		})
		want := `<p a="` + esc(a) + `" b="` + esc(b) + `">` + esc(a) + esc(b) + "<q>" + b + "</q>" + esc(a) + esc(b) + "<!--" + esc(a) + "--></p>"
		got, err := render(node, &Env{})
		if err != nil {
			x.Failf("%v", err)
		}
		raw := strings.Index(got, "<q>"+b+"</q>")
		if raw < 0 {
			x.Failf("raw bytes %q are not in %q", b, got)
		}
		if strings.Contains(b, "<") || strings.Contains(b, "&") || strings.Contains(b, "\x00") {
			// raw bytes need not be markup
			want = strings.Replace(want, "<q>"+b+"</q>", "<q></q>", 1)
			got = got[:raw] + "<q></q>" + got[raw+len(b)+7:]
		}
		c19Same(x, "rendered", got, nil, want)
	}
}

var identifier = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// c13Dict: words as marker names, and around markers
func c13Dict(x *X) {
	ws := words()
	w := ws[x.Choose(len(ws))]
	form := x.Choose(4)
	x.Note(func() string { return fmt.Sprintf("word %q, form %d", w, form) })
	x.Ready()
	nodes := []*Node{
		{K: KEl, Name: "b", Kids: []*Node{attrNode("id", vkey("k")), textNode(w), {K: KText, Vals: []*Val{vkey("k"), {K: VCargo}, vkey("none")}}}},
		{K: KText, Vals: []*Val{vs("t"), vkey("k"), vraw("<i>")}},
		{K: KColl, Kids: []*Node{{K: KWhen, Cond: 1, Kids: []*Node{textNode("when"), {K: KComment, Vals: []*Val{vkey("k")}}}}, {K: KWhen, Cond: 1, Form: 1, Kids: []*Node{textNode("not")}}}},
		{K: KIter, Form: 1, Name: "list", Kids: []*Node{elNode("li", &Node{K: KText, Vals: []*Val{{K: VCargo}, vkey("k")}})}},
		{K: KIter, Items: []any{w, map[string]any{"k": w}}, Kids: []*Node{{K: KText, Vals: []*Val{{K: VCargo}, vkey("k")}}}},
	}
	name := "n"
	if identifier.MatchString(w) {
		switch w {
		case "html", "urlquery", "if", "else", "end", "range", "with", "define", "template", "block", "break", "continue", "nil", "true", "false",
			"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "js", "call", "eq", "ne", "lt", "le", "gt", "ge", "_", "t":
		default:
			name = w
		}
	}
	lit := "x"
	if utf8.ValidString(w) && !strings.ContainsAny(w, "<\"'`\x00\r") && !strings.Contains(w, "{{") && !strings.Contains(w, "&") {
		lit = w
	}
	l := &live{}
	srcs := []string{lit + " {{\x02 .}} " + lit, "<p>{{\x02 $}}" + lit + " {{\x02 .}}</p>", "{{with .Data}}{{\x02 $}}{{end}}{{if true}} " + lit + " {{\x02 .}}{{end}}", "<p title=\"" + lit + " x\">{{\x02 .}}</p>\n\n" + lit + "\t{{\x02 .}} \n"}
	wants := []string{lit + " \x02 " + lit, "<p>\x02" + lit + " \x02</p>", "\x02 " + lit + " \x02", "<p title=\"" + lit + " x\">\x02</p>\n\n" + lit + "\t\x02 \n"}
	for _, n := range nodes {
		n := n
		src := strings.ReplaceAll(srcs[form], "\x02", name)
		t, err := aitch.NewTemplate("t", src, aitch.NodeMap{name: n.node(l)})
		if err != nil {
			x.Failf("%q: %v", src, err)
		}
		for _, data := range []map[string]any{nil, {}, {"k": w}, {"k": "v", "k1": true, "list": []any{1, w}}, {"k1": false, "list": []any{}, w: "w"}} {
			for _, cargo := range []any{nil, w, map[string]any{"k": "C", "k1": true, "list": []any{9}}, map[string]any{}, map[string]string{"k": "C"}, struct{ K string }{"C"}, 5} {
				x.note = func() string {
					return fmt.Sprintf("%q with %s = %s, data %v, cargo %v", src, name, n, data, cargo)
				}
				e := &Env{Data: data, Cargo: cargo}
				m := n.Model(e)
				var want string
				switch form {
				case 2:
					first := m
					if len(data) == 0 {
						first = ""
					}
					want = first + " " + lit + " " + m
				default:
					want = strings.ReplaceAll(wants[form], "\x02", m)
				}
				var buf bytes.Buffer
				if err := t.Execute(&buf, data, cargo); err != nil {
					x.Failf("%v", err)
				}
				if d := c13Same(buf.String(), want); d != "" {
					x.Failf("%s", d)
				}
				x.Observe(buf.Bytes())
			}
		}
	}
}

// c14Dict: words, and pairs of words, as names
func c14Dict(x *X) {
	ws := words()
	a := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("names made of %q and others", a) })
	x.Ready()
	for _, s := range wordForms(a) {
		checkName(x, s)
	}
	for _, b := range ws {
		checkName(x, a+b)
		checkName(x, a+"-"+b)
	}
	els, attrs := vocabNames()
	for _, n := range append(append([]string(nil), els...), attrs...) {
		checkName(x, n+a)
		checkName(x, a+n)
	}
	x.Observe([]byte(a))
}

// c15Dict: lookups of words
func c15Dict(x *X) {
	ws := append([]string{""}, words()...)
	w := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("key %q", w) })
	x.Ready()
	x.nontriv = true
	type S struct{ Other string }
	cargos := []c15Cargo{
		{"nil", nil, nil}, {"map", map[string]any{w: "C", w + "x": 1}, map[string]any{w: "C", w + "x": 1}}, {"other map", map[string]any{w + "x": "C"}, map[string]any{w + "x": "C"}},
		{"map of ints", map[string]int{w: 5}, map[string]any{w: 5}}, {"struct", S{"o"}, nil}, {"string", w, nil}, {"pointer to map", &map[string]any{w: 1}, map[string]any{w: 1}},
		{"named keys", map[c15Str]any{c15Str(w): "n"}, map[string]any{w: "n"}}, {"slice", []any{w}, nil},
	}
	for _, t := range c15Types {
		for _, c := range cargos {
			for _, d := range c15Data {
				if w == "Other" && c.name == "struct" {
					continue
				}
				x.note = func() string { return fmt.Sprintf("Get[%s] of %q, data %s, cargo %s", t.name, w, d.name, c.name) }
				data := d.set(w)
				ctx := &context.Context{Data: data, Cargo: c.cargo, Parent: &context.Context{Data: map[string]any{w: "p"}, Cargo: map[string]any{w: 2}}}
				var want any
				found := false
				if v, has := data[w]; has && t.is(v) {
					want, found = v, true
				} else if v, has := c.has[w]; has && t.is(v) {
					want, found = v, true
				}
				c15Check(x, ctx, t, w, want, found)
			}
		}
	}
}

// ---- generators

type genPlace struct{ name, pre, end, bad string }

var c17Places = []genPlace{
	{"text", "<text>", "</text>", "<"}, {"attribute", `<g d="`, `">t</g>`, `"`}, {"single quoted attribute", `<g class='`, `'/>`, `'`}, {"unknown attribute", `<g foo="`, `"/>`, `"`}, {"unchecked attribute", `<g _foo="`, `"/>`, `"`},
	{"script", "<script>", "</script>", "<"}, {"style", "<style a=\"b\">", "</style>", "<"}, {"title", "<title>", "</title>", "<"}, {"unknown", "<un:known>", "</un:known>x", "<"}, {"top", "", "", "<"}, {"tail", "<g>x</g>", "<!--c-->", "<"},
	{"CDATA", "<style><![CDATA[", "]]></style>", "]]>"},
}

func tryGenText(x *X, svg bool, place int, s string) {
	if strings.ContainsAny(s, "\x00") || strings.Contains(s, "&#") {
		return
	}
	if svg {
		p := c17Places[place]
		if !strings.Contains(s, p.bad) {
			c17Opt.roundTrip(x, c17Gen, p.pre+s+p.end)
		}
		return
	}
	p := textPlaces[place]
	for _, b := range p.bad {
		if strings.Contains(s, b) {
			return
		}
	}
	if !strings.Contains(p.name, "attribute") && p.name != "doctype" && startsMarkup(s+"a") {
		return
	}
	if p.name == "doctype" && strings.ContainsAny(s, "&<>") {
		return
	}
	c16Opt.roundTrip(x, c16Gen, p.pre+s+p.end)
}

func genPlaces(svg bool) int {
	if svg {
		return len(c17Places)
	}
	return len(textPlaces)
}

func genDictTexts(svg bool) func(x *X) {
	return func(x *X) {
		ws := words()
		a := ws[x.Choose(len(ws))]
		place := x.Choose(genPlaces(svg))
		x.Ready()
		x.Note(func() string { return fmt.Sprintf("%q", a) })
		for _, s := range wordForms(a) {
			tryGenText(x, svg, place, s)
		}
		if x.Thorough() {
			for _, b := range pairWords() {
				tryGenText(x, svg, place, a+b)
				tryGenText(x, svg, place, a+" y "+b)
			}
		}
	}
}

func genDictComments(svg bool) func(x *X) {
	return func(x *X) {
		ws := words()
		a := ws[x.Choose(len(ws))]
		x.Ready()
		x.Note(func() string { return fmt.Sprintf("comment %q", a) })
		o, gen := c16Opt, c16Gen
		if svg {
			o, gen = c17Opt, c17Gen
		}
		try := func(s string) {
			if strings.Contains(s, "--") || strings.HasSuffix(s, "-") || strings.HasPrefix(s, ">") || strings.HasPrefix(s, "->") || strings.Contains(s, "\x00") || strings.Contains(s, "&#") || strings.HasSuffix(s, "<!") {
				return
			}
			o.roundTrip(x, gen, "<!--"+s+"-->")
			o.roundTrip(x, gen, "<g>a<!--"+s+"-->b</g>")
		}
		for _, s := range wordForms(a) {
			try(s)
		}
		for _, b := range pairWords() {
			if x.Thorough() || len(b) <= 3 {
				try(a + b)
				try(a + " y " + b)
			}
		}
	}
}

// genDictAttributes: every pair of attribute names of the vocabulary, with values that make their concatenations equal
func genDictAttributes(svg bool) func(x *X) {
	return func(x *X) {
		o, gen, voc := c16Opt, c16Gen, c16Voc
		if svg {
			o, gen, voc = c17Opt, c17Gen, c17Voc
		}
		names := append(append([]string(nil), voc.attributes...), "unknown", "data-x", "aria-x", "@x")
		a := names[x.Choose(len(names))]
		x.Ready()
		x.Note(func() string { return fmt.Sprintf("attribute %q", a) })
		var sb strings.Builder
		for i, b := range names {
			if a == b {
				continue
			}
			v1, v2 := "v", "w"
			switch {
			case strings.HasPrefix(b, a):
				v1, v2 = b[len(a):]+"z", "z"
			case strings.HasPrefix(a, b):
				v1, v2 = "z", a[len(b):]+"z"
			case i%3 == 0:
				v1, v2 = "", "v"
			case i%3 == 1:
				v1, v2 = "v", "v"
			}
			fmt.Fprintf(&sb, `<g %s="%s" %s="%s">%d</g><g %s="%s">x</g><g %s="%s"></g>`, a, v1, b, v2, i, b, v1, a, v2)
			if sb.Len() > 3000 {
				o.roundTrip(x, gen, sb.String())
				sb.Reset()
			}
		}
		o.roundTrip(x, gen, sb.String())
	}
}

// genDictElements: every pair of element names, and every attribute on every element
func genDictElements(svg bool) func(x *X) {
	return func(x *X) {
		o, gen, voc, extra := c16Opt, c16Gen, c16Voc, extraElements
		if svg {
			o, gen, voc, extra = c17Opt, c17Gen, c17Voc, svgElements
		}
		var names []string
		for _, n := range append(append([]string(nil), voc.elements...), extra...) {
			if svg && (n == "é" || n == "_x" || n == "aé") || !svg && (isRawName(n) || n == "textarea" || n == "title") || n == "plaintext" {
				continue
			}
			names = append(names, n)
		}
		a := names[x.Choose(len(names))]
		x.Ready()
		x.Note(func() string { return fmt.Sprintf("element %q", a) })
		el := func(n, content string) string {
			if !svg && htmlVoid[n] {
				return "<" + n + ">"
			}
			return "<" + n + ">" + content + "</" + n + ">"
		}
		var sb strings.Builder
		flush := func(min int) {
			if sb.Len() > min {
				o.roundTrip(x, gen, sb.String())
				sb.Reset()
			}
		}
		for i, b := range names {
			fmt.Fprintf(&sb, "%s%d%s%s\n", el(a, "s"+el(b, "t")+"u"), i, el(b, ""), el(a, el(b, el(a, ""))+el(b, "x")))
			flush(3000)
		}
		if !strings.ContainsAny(a, `<"'`) {
			for i, n := range voc.attributes {
				start := "<" + a + " " + n + `="` + []string{"", "v", "a&lt;b", "x y"}[i%4] + `" zz="1">`
				if svg || !htmlVoid[a] {
					start += "t</" + a + ">"
				}
				sb.WriteString(start)
				flush(3000)
			}
		}
		flush(0)
	}
}

// c18Dict: every function with every word and many numbers as argument
func c18Dict(x *X) {
	v := c18Fns[x.Choose(len(c18Fns))]
	x.Ready()
	if v.kind == "b" {
		return
	}
	x.Note(v.String)
	try := func(args ...any) {
		args = args[:len(args):len(args)]
		x.note = func() string { return fmt.Sprintf("%s(%q)", v, args) }
		give := func() []any {
			if v.prefix {
				return append([]any{"nm"}, args...)
			}
			return append([]any(nil), args...)
		}
		a, b := v.call(give()...), v.generic(give()...)
		if v.kind == "u" {
			c18Compare(x, aitch.Element("p", aitch.Attribute("x", a), aitch.Text(a)), aitch.Element("p", aitch.Attribute("x", b), aitch.Text(b)))
			return
		}
		an, bn := a.(aitch.Node), b.(aitch.Node)
		if v.kind == "e" || v.kind == "v" {
			c18Compare(x, an, bn)
			return
		}
		c18Compare(x, aitch.Element("p", an), aitch.Element("p", bn))
	}
	ws := words()
	for _, w := range ws {
		try(w)
		try(w, "x")
		try("x", " "+w)
		if x.Thorough() {
			for _, u := range pairWords() {
				try(w, u)
			}
		}
	}
	words()
	for _, n := range dictNumbers {
		try(n)
		try(n, n)
		try(float64(n))
		try(int64(n), "x")
		try(strconv.Itoa(n))
	}
	for _, o := range []any{true, false, nil, 0.0, "0", []byte("0"), uint8(0), aitch.NewValue(0), dk("n"), func() any { return 0 }, namedBool(false), errApp1} {
		try(o)
		try(o, o)
		try(o, "x")
		try("x", o)
	}
	// numbers of arguments
	for n := 0; n <= 34; n++ {
		for _, base := range []any{1, "a", 1.5, dk("k"), []byte("r")} {
			args := make([]any, n)
			for i := range args {
				args[i] = base
			}
			try(args...)
		}
	}
}

// c19Dict: every property and unit function with words, numbers and other values
func c19Dict(x *X) {
	fns := append(append([]*vocabFn(nil), c19Props...), c19Units...)
	p := fns[x.Choose(len(fns))]
	x.Ready()
	x.Note(p.String)
	e := c19Envs[0]
	check := func(want string, args ...any) {
		args = args[:len(args):len(args)]
		x.note = func() string { return fmt.Sprintf("%s(%v)", p, args) }
		if p.kind == "u" {
			n := aitch.Element("p", aitch.DelimitedAttribute("style", "; ", aitch.NewConcatValue("w:", p.call(args...)), "z:1"))
			got, err := render(n, e)
			c19Same(x, "rendered", got, err, `<p style="w:`+want+p.name+`; z:1"></p>`)
			return
		}
		got, err := render(aitch.Element("p", p.call(args...).(aitch.Node), html.Style("z:1")), e)
		c19Same(x, "rendered", got, err, `<p style="`+p.name+`:`+want+`; z:1"></p>`)
	}
	for _, w := range words() {
		check(esc(w), w)
		check(esc(w)+"x", w, "x")
		check("1 "+esc(w), 1, " ", w)
		check(w, func(*context.Context) []byte { return []byte(w) })
		e = &Env{Data: map[string]any{"n": w}, Cargo: w}
		check("0 "+esc(w), "0 ", dk("n"))
		check(esc(w)+";"+esc(w), dk("."), ";", dk("n"))
		e = c19Envs[0]
		if p.kind == "y" {
			check(esc(w)+" !important", w, " !important")
		}
	}
	for _, n := range dictNumbers {
		s := strconv.Itoa(n)
		check(s, n)
		check(s+" "+s, n, " ", n)
		check(s, int64(n))
		check(s, s)
		check(s, []byte(s))
		check(s, func() any { return n })
		check(s, aitch.NewValue(n))
		check(s, float64(n))
		check(s+s, n, n)
		e = &Env{Data: map[string]any{"n": n}, Cargo: float64(n)}
		check(s, dk("n"))
		check(s, dk("."))
		e = c19Envs[0]
	}
	check("true", true)
	check("false", false)
	check("", nil)
	check("0", 0.0)
	check("0.5", 0.5)
	check("-0.25", -0.25)
	check("0", uint8(0))
	check("")
	for n := 2; n <= 12; n++ {
		args, want := []any{}, ""
		for i := 0; i < n; i++ {
			args, want = append(args, i), want+strconv.Itoa(i)
		}
		check(want, args...)
	}
}

// c20Dict: header maps with values of every kind under words
func c20Dict(x *X) {
	ws := append([]string{""}, words()...)
	w := ws[x.Choose(len(ws))]
	js := x.Bool()
	x.Note(func() string { return fmt.Sprintf("word %q, script form %v", w, js) })
	x.Ready()
	e := &Env{Data: map[string]any{"k": w, "f": false, "z": 0}, Cargo: w}
	vals := []*Val{vs(w), vs(""), {K: VBool}, {K: VBool, I: 1}, {K: VInt}, {K: VInt, I: -1}, {K: VNil}, vkey("k"), vkey("f"), vkey("z"), vkey("none"), {K: VCargo}, {K: VFloat}, {K: VStringer, S: w}, vs("'" + w + "'"), {K: VConcat, Sub: []*Val{vs(w), vkey("k")}},
		{K: VValue, Sub: []*Val{vs(w)}}, {K: VUnsupported}, {K: VAnyFunc, Sub: []*Val{vs(w)}}, vs("x")}
	for i, v := range vals {
		for _, maps := range [][]c20Map{{{"k": v}}, {{w: v, "z": vs("1")}}, {{w: vs("1"), "a": v}, {w: v}}, {{"a": vs("1"), w: v}, {"a": vals[(i+3)%len(vals)], "zz": v}}} {
			var given []htmx.HeadersMap
			for _, m := range maps {
				given = append(given, m.build())
			}
			x.note = func() string { return fmt.Sprintf("maps %v, script form %v", maps, js) }
			want := strings.ReplaceAll(c20Text(maps, js, e), "\x00", "")
			if got := c20Attr(x, aitch.Element("p", c20Node(js, given)), e, "hx-headers"); got != want {
				x.Failf("is %q instead of %q", got, want)
			}
		}
	}
}

// c20DictLists: variables whose names and values are words
func c20DictLists(x *X) {
	ws := append([]string{""}, words()...)
	a := ws[x.Choose(len(ws))]
	x.Note(func() string { return fmt.Sprintf("variables of %q and others", a) })
	x.Ready()
	e := &Env{Data: map[string]any{"k": a}, Cargo: a}
	plain := func(s string) string { return strings.ReplaceAll(s, "\x00", "") }
	for _, b := range ws {
		b := b
		x.note = func() string { return fmt.Sprintf("variables of %q and %q", a, b) }
		n := aitch.Element("p", htmx.Vars(htmx.Var("n", b), htmx.Var("m", dk("k"))), htmx.Vars(htmx.Var("o"+b, 1)))
		if got, want := c20Attr(x, n, e, "hx-vars"), plain("n: "+b+", m: "+a+", o"+b+": 1"); got != want {
			x.Failf("is %q instead of %q", got, want)
		}
	}
}

func choose[T any](cond bool, yes, no T) T {
	if cond {
		return yes
	}
	return no
}

// the suites are added to the properties registered by the files before this one
func init() {
	add := func(id, name, bounds string, body func(x *X)) {
		p := props[id]
		s := &Suite{Name: name, Bounds: bounds, Body: body}
		switch id {
		case "C16", "C17", "C18", "C19":
			s.Setup = p.Suites[0].Setup
		}
		p.Suites = append(p.Suites, s)
	}
	d := "dictionary of about 330 words (special ones, and the strings in the sources)"
	add("C01", "dict-names", "every pair of element names of the vocabularies and the "+d+" in 6 shapes", c01DictNames)
	add("C01", "dict-words", d+" x 14 containers x 8 places", c01DictWords)
	add("C02", "dict", d+" x all channels x 11 forms", c02Dict)
	add("C02", "dict-pairs", "pairs of words of the "+d+" x 17 channels x 2 forms", c02DictPairs)
	add("C02", "strange", "values of about 95 unsupported or unusual types holding 11 strings x all positions x 5 ways to supply them", c02Strange)
	add("C03", "dict", "every pair of attribute names of the vocabularies and the "+d+", declared two or three times", c03Dict)
	add("C03", "dict-values", "pairs of words of the "+d+" as values of delimited and plain attributes", c03DictValues)
	add("C03", "delimiters", "the same attribute declared three times with any of 10 (thorough: more) delimiters in 6 places", c03Delims)
	add("C04", "dict", d+" as keys x 20 states of the data x 6 cargos, with and without enclosing context, in 4 shapes", c04Dict)
	add("C05", "dict", "every pair of attribute names of the vocabularies and the "+d, c05Dict)
	add("C05", "dict-headers", "pairs of words of the "+d+" as header keys", c05DictHeaders)
	add("C06", "dict", "every pair of element names of the vocabularies and the "+d+" sharing 3 nodes", c06Dict)
	add("C09", "bare", "22 failing callbacks that give nothing x 14 containers x 5 enclosing ones x 4 neighbours x 25 kinds of errors (and messages from the dictionary)", c09Bare)
	add("C09", "bare-templates", "22 failing callbacks that give nothing as markers x 3 texts x 25 kinds of errors", c09BareTemplates)
	add("C10", "dict", d+" as keys and items x 8 lists x 3 iterators", c10Dict)
	add("C11", "dict", d+" x all channels", c11Dict)
	add("C11", "dict-keys", d+" as keys x all positions x 10 states of the data x 6 cargos", c11DictKeys)
	add("C11", "dict-numbers", "numbers near those in the sources in 12 types x all positions x 5 ways", c11DictNumbers)
	add("C11", "strange", "values of about 95 unsupported or unusual types x all positions x 5 ways to supply them", c11Strange)
	add("C12", "dict", "every pair of element names of the vocabularies and the "+d+", void or not as told", c12Dict)
	add("C12", "dict-words", "pairs of words of the "+d+" written as strings, raw, in nodes and in attributes", c12DictWords)
	add("C13", "dict", d+" as marker names, texts and values x 4 texts x 5 nodes x 5 states of the data x 7 cargos", c13Dict)
	add("C14", "dict", d+", pairs of them, and each with every name of the vocabularies, as names", c14Dict)
	add("C15", "dict", d+" as keys x 17 types x 18 states of the data x 9 cargos", c15Dict)
	for _, svg := range []bool{false, true} {
		id := choose(svg, "C17", "C16")
		add(id, "dict-texts", d+" in 11 forms (thorough: and pairs) in all places", genDictTexts(svg))
		add(id, "dict-comments", d+", in 11 forms and pairs, as comments", genDictComments(svg))
		add(id, "dict-attributes", "every pair of attribute names of the vocabulary, with equal and suffixed values", genDictAttributes(svg))
		add(id, "dict-elements", "every pair of element names, nested and beside each other, and every attribute on every element", genDictElements(svg))
	}
	add("C18", "dict", "every function with each word of the "+d+" in 3 forms (thorough: pairs), numbers in 5 types, 12 other values in 4 forms, and 0 to 34 arguments of 5 types", c18Dict)
	add("C19", "dict", "every property and unit function with each word of the "+d+" in 7 forms, numbers in 11 forms, and up to 12 arguments", c19Dict)
	add("C20", "dict", d+" as keys and values x 20 values x 4 lists of maps x 2 forms", c20Dict)
	add("C20", "dict-lists", "pairs of words of the "+d+" as names and values of variables", c20DictLists)
}
