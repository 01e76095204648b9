package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// The document model. It is deliberately unlike the code under test: a tree, built by the
// generator or by the strict parser below, on which paths are evaluated recursively.

type Kind int

const (
	Elem Kind = iota
	Text
	Comment
	PI
	CData
	Doctype
)

type Attr struct{ Name, Val string } // Val is decoded

type Node struct {
	Kind  Kind
	Name  string // element name, PI target
	Attrs []Attr
	Kids  []*Node
	Text  string // decoded text, or the verbatim inside of a comment, PI, CDATA section, DOCTYPE

	// byte spans, set by the parser
	Start, OpenEnd, CloseStart, End int
	SelfClosing                     bool
	Parent                          *Node
}

func (n *Node) elems() []*Node { return elemsOf(n.Kids) }

func elemsOf(ns []*Node) []*Node {
	var out []*Node
	for _, k := range ns {
		if k.Kind == Elem {
			out = append(out, k)
		}
	}
	return out
}

func (n *Node) attr(name string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Name == name {
			return a.Val, true
		}
	}
	return "", false
}

// allText is the concatenated text of the element and its descendants.
func (n *Node) allText() string {
	var b strings.Builder
	var rec func(ns []*Node)
	rec = func(ns []*Node) {
		for _, k := range ns {
			switch k.Kind {
			case Text:
				b.WriteString(k.Text)
			case Elem:
				rec(k.Kids)
			}
		}
	}
	rec(n.Kids)
	return b.String()
}

func (n *Node) directText() string {
	var b strings.Builder
	for _, k := range n.Kids {
		if k.Kind == Text {
			b.WriteString(k.Text)
		}
	}
	return b.String()
}

func walk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		walk(n.Kids, f)
	}
}

func localName(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// canon is a canonical rendering: attribute order, quoting, spelling of entities and empty
// elements do not show; with noise, comments, instructions and CDATA sections do.
func canon(ns []*Node, noise bool) string {
	var b strings.Builder
	var rec func(ns []*Node)
	rec = func(ns []*Node) {
		text := ""
		flush := func() {
			if text != "" {
				fmt.Fprintf(&b, "T%q", text)
				text = ""
			}
		}
		for _, n := range ns {
			if n.Kind == Text {
				text += n.Text
				continue
			}
			if n.Kind != Elem && !noise {
				continue
			}
			flush()
			switch n.Kind {
			case Elem:
				b.WriteByte('<')
				b.WriteString(n.Name)
				as := append([]Attr(nil), n.Attrs...)
				sort.SliceStable(as, func(i, j int) bool { return as[i].Name < as[j].Name })
				for _, a := range as {
					fmt.Fprintf(&b, " %s=%q", a.Name, a.Val)
				}
				b.WriteByte('>')
				rec(n.Kids)
				b.WriteString("</>")
			case Comment:
				fmt.Fprintf(&b, "C%q", n.Text)
			case PI:
				fmt.Fprintf(&b, "P%q%q", n.Name, n.Text)
			case CData:
				fmt.Fprintf(&b, "D%q", n.Text)
			case Doctype:
				fmt.Fprintf(&b, "!%q", n.Text)
			}
		}
		flush()
	}
	rec(ns)
	return b.String()
}

// decode replaces the five predefined entities, once; other references stay as they are.
func decode(s string) string {
	if !strings.Contains(s, "&") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '&' {
			done := false
			for _, e := range [...][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", `"`}, {"&apos;", "'"}} {
				if strings.HasPrefix(s[i:], e[0]) {
					b.WriteString(e[1])
					i += len(e[0])
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

var errXML = errors.New("not well-formed")

type xparser struct {
	s        string
	i        int
	frag     bool // text allowed at the top level
	anyName  bool // also names beyond ASCII
	depth    int
	maxDepth int
}

func nameStart(c byte) bool {
	return c == '_' || c == ':' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}
func nameChar(c byte) bool { return nameStart(c) || '0' <= c && c <= '9' || c == '-' || c == '.' }
func xspace(c byte) bool   { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// parseXML is a strict parser for well-formed documents with ASCII names. frag allows text at
// the top level; several roots (or none) are always accepted.
func parseXML(s string, frag bool) ([]*Node, error) {
	p := &xparser{s: s, frag: frag}
	ns, err := p.content("", nil)
	if err == nil && p.i != len(s) {
		err = fmt.Errorf("%w: trailing input at %d", errXML, p.i)
	}
	return ns, err
}

func (p *xparser) fail(what string) error {
	return fmt.Errorf("%w: %s at offset %d", errXML, what, p.i)
}

func (p *xparser) has(pre string) bool { return strings.HasPrefix(p.s[p.i:], pre) }

func (p *xparser) name() string {
	j := p.i
	if j >= len(p.s) || !nameStart(p.s[j]) && !(p.anyName && p.s[j] >= 0x80) {
		return ""
	}
	for j < len(p.s) && (nameChar(p.s[j]) || p.anyName && p.s[j] >= 0x80) {
		j++
	}
	n := p.s[p.i:j]
	p.i = j
	return n
}

func (p *xparser) space() bool {
	j := p.i
	for p.i < len(p.s) && xspace(p.s[p.i]) {
		p.i++
	}
	return p.i > j
}

// content parses until the close tag of open (or the end of input at the top level).
func (p *xparser) content(open string, parent *Node) ([]*Node, error) {
	var out []*Node
	seenDoctype := false
	for {
		if p.i >= len(p.s) {
			if open != "" {
				return nil, p.fail("unclosed <" + open + ">")
			}
			return out, nil
		}
		switch {
		case p.has("</"):
			if open == "" {
				return nil, p.fail("unexpected close tag")
			}
			return out, nil
		case p.has("<!--"):
			st := p.i
			e := strings.Index(p.s[p.i+4:], "--")
			if e < 0 {
				return nil, p.fail("unclosed comment")
			}
			text := p.s[p.i+4 : p.i+4+e]
			p.i += 4 + e
			if !p.has("-->") {
				return nil, p.fail("-- in comment")
			}
			p.i += 3
			out = append(out, &Node{Kind: Comment, Text: text, Start: st, End: p.i, Parent: parent})
		case p.has("<![CDATA["):
			if open == "" && !p.frag {
				return nil, p.fail("CDATA outside the root")
			}
			st := p.i
			e := strings.Index(p.s[p.i+9:], "]]>")
			if e < 0 {
				return nil, p.fail("unclosed CDATA")
			}
			text := p.s[p.i+9 : p.i+9+e]
			p.i += 9 + e + 3
			out = append(out, &Node{Kind: CData, Text: text, Start: st, End: p.i, Parent: parent})
		case p.has("<?"):
			st := p.i
			p.i += 2
			target := p.name()
			if target == "" {
				return nil, p.fail("instruction without a target")
			}
			if strings.EqualFold(target, "xml") && !(st == 0 && target == "xml") {
				return nil, p.fail("misplaced XML declaration")
			}
			e := strings.Index(p.s[p.i:], "?>")
			if e < 0 {
				return nil, p.fail("unclosed instruction")
			}
			text := p.s[p.i : p.i+e]
			if text != "" && !xspace(text[0]) {
				return nil, p.fail("no space after the target")
			}
			p.i += e + 2
			out = append(out, &Node{Kind: PI, Name: target, Text: text, Start: st, End: p.i, Parent: parent})
		case p.has("<!DOCTYPE"):
			if open != "" || seenDoctype || len(elemsOf(out)) > 0 {
				return nil, p.fail("misplaced DOCTYPE")
			}
			seenDoctype = true
			st := p.i
			if err := p.doctype(); err != nil {
				return nil, err
			}
			out = append(out, &Node{Kind: Doctype, Text: p.s[st+9 : p.i-1], Start: st, End: p.i})
		case p.has("<"):
			n, err := p.element(parent)
			if err != nil {
				return nil, err
			}
			out = append(out, n)
		default:
			st := p.i
			for p.i < len(p.s) && p.s[p.i] != '<' {
				p.i++
			}
			raw := p.s[st:p.i]
			if open == "" && !p.frag && strings.Trim(raw, " \t\r\n") != "" {
				p.i = st
				return nil, p.fail("text outside the root")
			}
			if err := p.chars(raw, st); err != nil {
				return nil, err
			}
			if k := strings.Index(raw, "]]>"); k >= 0 {
				p.i = st + k
				return nil, p.fail("]]> in text")
			}
			out = append(out, &Node{Kind: Text, Text: decode(raw), Start: st, End: p.i, Parent: parent})
		}
	}
}

// chars checks references and characters.
func (p *xparser) chars(raw string, at int) error {
	for i := 0; i < len(raw); i++ {
		c := raw[i]
		if c < 0x20 && !xspace(c) {
			p.i = at + i
			return p.fail("control character")
		}
		if c == '&' {
			e := strings.IndexByte(raw[i:], ';')
			ok := e > 1
			if ok {
				ref := raw[i+1 : i+e]
				switch {
				case strings.HasPrefix(ref, "#x"):
					ok = len(ref) > 2 && strings.Trim(ref[2:], "0123456789abcdefABCDEF") == ""
				case ref[0] == '#':
					ok = len(ref) > 1 && strings.Trim(ref[1:], "0123456789") == ""
				default:
					ok = nameStart(ref[0])
					for j := 0; j < len(ref); j++ {
						ok = ok && nameChar(ref[j])
					}
				}
			}
			if !ok {
				p.i = at + i
				return p.fail("bare &")
			}
		}
	}
	for i, r := range raw {
		if r == 0xFFFD && !strings.HasPrefix(raw[i:], "�") || r == 0xFFFE || r == 0xFFFF {
			p.i = at + i
			return p.fail("invalid character")
		}
	}
	return nil
}

func (p *xparser) doctype() error {
	p.i += len("<!DOCTYPE")
	depth := 0
	for p.i < len(p.s) {
		switch c := p.s[p.i]; {
		case c == '"' || c == '\'':
			e := strings.IndexByte(p.s[p.i+1:], c)
			if e < 0 {
				return p.fail("unclosed literal in DOCTYPE")
			}
			p.i += e + 1
		case p.has("<!--"):
			e := strings.Index(p.s[p.i+4:], "-->")
			if e < 0 {
				return p.fail("unclosed comment in DOCTYPE")
			}
			p.i += 4 + e + 2
		case p.has("<?"):
			e := strings.Index(p.s[p.i:], "?>")
			if e < 0 {
				return p.fail("unclosed instruction in DOCTYPE")
			}
			p.i += e + 1
		case c == '[':
			depth++
		case c == ']':
			depth--
		case c == '<':
			depth++
		case c == '>':
			if depth == 0 {
				p.i++
				return nil
			}
			depth--
		}
		p.i++
	}
	return p.fail("unclosed DOCTYPE")
}

func (p *xparser) element(parent *Node) (*Node, error) {
	n := &Node{Kind: Elem, Start: p.i, Parent: parent}
	p.i++
	n.Name = p.name()
	if n.Name == "" {
		return nil, p.fail("bad element name")
	}
	for {
		sp := p.space()
		if p.i >= len(p.s) {
			return nil, p.fail("unclosed tag")
		}
		if p.has("/>") {
			p.i += 2
			n.SelfClosing = true
			n.OpenEnd, n.CloseStart, n.End = p.i, p.i, p.i
			return n, nil
		}
		if p.has(">") {
			p.i++
			break
		}
		if !sp {
			return nil, p.fail("no space before attribute")
		}
		an := p.name()
		if an == "" {
			return nil, p.fail("bad attribute name")
		}
		p.space()
		if !p.has("=") {
			return nil, p.fail("attribute without =")
		}
		p.i++
		p.space()
		if p.i >= len(p.s) || p.s[p.i] != '"' && p.s[p.i] != '\'' {
			return nil, p.fail("unquoted attribute value")
		}
		q := p.s[p.i]
		e := strings.IndexByte(p.s[p.i+1:], q)
		if e < 0 {
			return nil, p.fail("unclosed attribute value")
		}
		raw := p.s[p.i+1 : p.i+1+e]
		if strings.Contains(raw, "<") {
			return nil, p.fail("< in attribute value")
		}
		if err := p.chars(raw, p.i+1); err != nil {
			return nil, err
		}
		p.i += e + 2
		if _, dup := n.attr(an); dup {
			return nil, p.fail("duplicate attribute " + an)
		}
		n.Attrs = append(n.Attrs, Attr{an, decode(raw)})
	}
	n.OpenEnd = p.i
	kids, err := p.content(n.Name, n)
	if err != nil {
		return nil, err
	}
	n.Kids = kids
	n.CloseStart = p.i
	p.i += 2
	if cn := p.name(); cn != n.Name {
		return nil, p.fail(fmt.Sprintf("</%s> closes <%s>", cn, n.Name))
	}
	p.space()
	if !p.has(">") {
		return nil, p.fail("bad close tag")
	}
	p.i++
	n.End = p.i
	return n, nil
}

// Doc is a document with its tree.
type Doc struct {
	Src  string
	Kids []*Node
}

func (d *Doc) roots() []*Node { return elemsOf(d.Kids) }

func mustParse(s string) *Doc {
	ns, err := parseXML(s, false)
	if err != nil {
		bug("generated document does not parse: %v\n%q", err, clip(s, 2000))
	}
	return &Doc{s, ns}
}
