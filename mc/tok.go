package main

import (
	"fmt"
	"html"
	"sort"
	"strings"
)

// Tok is one piece of markup, decoded
type Tok struct {
	Kind  byte // 's' start, 'e' end, 't' text, 'c' comment, 'p' processing instruction
	Name  string
	Attrs []Att
	Data  string
}

type Att struct {
	Name   string
	HasVal bool
	Val    string
}

func (t Tok) String() string {
	switch t.Kind {
	case 's':
		var sb strings.Builder
		sb.WriteString("<" + t.Name)
		for _, a := range t.Attrs {
			if a.HasVal {
				fmt.Fprintf(&sb, " %s=%q", a.Name, a.Val)
			} else {
				fmt.Fprintf(&sb, " %s", a.Name)
			}
		}
		return sb.String() + ">"
	case 'e':
		return "</" + t.Name + ">"
	case 't':
		return fmt.Sprintf("%q", t.Data)
	case 'c':
		return fmt.Sprintf("comment %q", t.Data)
	}
	return fmt.Sprintf("!%s %q", t.Name, t.Data)
}

func isNameByte(c byte) bool {
	return c != ' ' && c != '>' && c != '/' && c != '=' && c != '"' && c != '\'' && c != '<' && c != '\n' && c != '\t' && c != '\r' && c != 0
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// Tokenize parses output strictly: anything that is not exactly a tag, comment, PI or text is an error
func Tokenize(s string) (toks []Tok, err error) {
	i := 0
	addText := func(t string) {
		if t == "" {
			return
		}
		if l := len(toks); l > 0 && toks[l-1].Kind == 't' {
			toks[l-1].Data += t
		} else {
			toks = append(toks, Tok{Kind: 't', Data: t})
		}
	}
	for i < len(s) {
		if s[i] != '<' {
			j := strings.IndexByte(s[i:], '<')
			if j < 0 {
				j = len(s) - i
			}
			addText(s[i : i+j])
			i += j
			continue
		}
		switch {
		case strings.HasPrefix(s[i:], "<!--"):
			j := strings.Index(s[i+4:], "-->")
			if j < 0 {
				return toks, fmt.Errorf("comment not closed at %d", i)
			}
			toks = append(toks, Tok{Kind: 'c', Data: html.UnescapeString(s[i+4 : i+4+j])})
			i += 4 + j + 3
		case strings.HasPrefix(s[i:], "<!"):
			j := strings.IndexByte(s[i:], '>')
			if j < 0 {
				return toks, fmt.Errorf("instruction not closed at %d", i)
			}
			name, data, _ := strings.Cut(s[i+2:i+j], " ")
			toks = append(toks, Tok{Kind: 'p', Name: name, Data: html.UnescapeString(data)})
			i += j + 1
			if i < len(s) && s[i] == '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "</"):
			j := i + 2
			for j < len(s) && isNameByte(s[j]) {
				j++
			}
			name := s[i+2 : j]
			for j < len(s) && isSpace(s[j]) {
				j++
			}
			if name == "" || j >= len(s) || s[j] != '>' {
				return toks, fmt.Errorf("bad end tag at %d", i)
			}
			toks = append(toks, Tok{Kind: 'e', Name: name})
			i = j + 1
		case i+1 < len(s) && isLetter(s[i+1]):
			j := i + 1
			for j < len(s) && isNameByte(s[j]) {
				j++
			}
			t := Tok{Kind: 's', Name: s[i+1 : j]}
			for {
				k := j
				for j < len(s) && isSpace(s[j]) {
					j++
				}
				if j >= len(s) {
					return toks, fmt.Errorf("start tag not closed at %d", i)
				}
				if s[j] == '>' {
					j++
					break
				}
				if j == k {
					return toks, fmt.Errorf("no space before attribute at %d", j)
				}
				a := j
				for j < len(s) && isNameByte(s[j]) {
					j++
				}
				at := Att{Name: s[a:j]}
				if at.Name == "" {
					return toks, fmt.Errorf("bad attribute at %d", a)
				}
				if j < len(s) && s[j] == '=' {
					j++
					if j >= len(s) || s[j] != '"' && s[j] != '\'' {
						return toks, fmt.Errorf("unquoted attribute value at %d", j)
					}
					q := s[j]
					e := strings.IndexByte(s[j+1:], q)
					if e < 0 {
						return toks, fmt.Errorf("attribute value not closed at %d", j)
					}
					at.HasVal = true
					at.Val = html.UnescapeString(s[j+1 : j+1+e])
					j += e + 2
				}
				t.Attrs = append(t.Attrs, at)
			}
			toks = append(toks, t)
			i = j
		default:
			return toks, fmt.Errorf("stray < at %d", i)
		}
	}
	for k := range toks {
		if toks[k].Kind == 't' {
			toks[k].Data = html.UnescapeString(toks[k].Data)
		}
	}
	return toks, nil
}

// CmpOpt says what is compared
type CmpOpt struct {
	// Delims are the attributes that are token lists
	Delims map[string]string
	// Ordered: attribute order matters
	Ordered bool
}

func tokenList(v, delim string) []string {
	var out []string
	for _, p := range strings.Split(v, delim) {
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func (o *CmpOpt) canon(t *Tok) {
	if t.Kind != 's' {
		return
	}
	attrs := append([]Att(nil), t.Attrs...)
	for i := range attrs {
		if d, ok := o.Delims[attrs[i].Name]; ok && attrs[i].HasVal {
			attrs[i].Val = strings.Join(tokenList(attrs[i].Val, d), "\x01")
		}
	}
	if !o.Ordered {
		sort.SliceStable(attrs, func(i, j int) bool { return attrs[i].Name < attrs[j].Name })
	}
	t.Attrs = attrs
}

// Same compares output with what the model expects: byte equal, or the same decoded tokens. "" if they agree.
func (o *CmpOpt) Same(got, want string) string {
	if got == want {
		return ""
	}
	g, gerr := Tokenize(got)
	w, werr := Tokenize(want)
	if werr != nil {
		// the expected output is not markup (raw fragments): only bytes can be compared
		return fmt.Sprintf("got  %q\nwant %q", got, want)
	}
	if gerr != nil {
		return fmt.Sprintf("malformed output: %v\ngot  %q\nwant %q", gerr, got, want)
	}
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) {
			return fmt.Sprintf("missing %s\ngot  %q\nwant %q", w[i], got, want)
		}
		if i >= len(w) {
			return fmt.Sprintf("unexpected %s\ngot  %q\nwant %q", g[i], got, want)
		}
		gt, wt := g[i], w[i]
		o.canon(&gt)
		o.canon(&wt)
		if gt.String() != wt.String() {
			return fmt.Sprintf("%s instead of %s\ngot  %q\nwant %q", gt, wt, got, want)
		}
	}
	return ""
}

var stdOpt = &CmpOpt{Delims: map[string]string{"class": " ", "style": "; ", "dl": "|"}}
var ordOpt = &CmpOpt{Delims: map[string]string{"class": " ", "style": "; ", "dl": "|"}, Ordered: true}

// esc is the canonical escaping of the model
func esc(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			sb.WriteString("&quot;")
		case '\'':
			sb.WriteString("&apos;")
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}
