package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/netascode/xmldot"
)

// G generates documents, values and paths for one case.
type G struct {
	t     *T
	names []string // element names in use
	attrs []string
	depth int
	kids  int
	noise int // percent chance of a comment, instruction or CDATA section at a position
	plain bool
	left  int  // remaining elements
	ws    int  // percent chance of white space between nodes
	mix   int  // percent chance of text
	long  int  // percent chance of a value of many kilobytes
	spine bool // every element above the full depth has a child
}

var (
	namePool = []string{"a", "b", "item", "user", "name", "c", "ns:a", "ns:item", "p:b", "data-1", "_u", "a.b", "v1.2", "Item", "A", "id", "q:name", "root"}
	attrPool = []string{"id", "x", "class", "ns:id", "data-v", "a.b", "y", "ID", "name", "xmlns:p"}
	words    = []string{"x", "42", "hello", "7", "10", "-3.5", "1e3", "true", "no", "abc", "Zed", "a b", "10.0", "0"}
	special  = []string{"&", "<", ">", `"`, "'", "&amp;", "&lt;", "&lt;a&gt;", "]]>", "&#65;", "&#x41;", "&nbsp;", "é", "日本", "🎉", " ", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "?>", "/>", "a&b;c", "&apos;", "&quot;", "&unknown;", ";", "&amp;amp;", "\\", "=", "[", "]", "​", "ß", "==", "!=", ">=", "<=", "!%", "%", "(", ")", "#", "|", "@", ".", "*", "?"}
	blanks   = []string{" ", "\n", "\t", "  ", "\n  ", "\r\n"}
	insides  = []string{" note ", "<a>1</a>", "</a>", "<item", ">", "'", `"`, "<!", "]]>", " a=\"1\" ", "<b x='", "/>", "&amp;", "-", "<?x", "[", "]", "<item id=\"9\">z</item>", "é", "->", "-->", "?", "?>", "]]", "<!--", "!", "->x", "\n", "\\"}
)

func newG(t *T) *G {
	g := &G{t: t}
	n := t.Int(1, 5)
	for i := 0; i < n; i++ {
		if t.Chance(15) {
			g.names = append(g.names, g.anyXMLName())
			continue
		}
		g.names = append(g.names, pick(t, namePool))
	}
	if t.Chance(20) {
		g.names = append(g.names, similar(t, pick(t, g.names)))
	}
	if t.N(50) == 49 {
		// names alike for a long stretch
		g.names = append(g.names, longNames(t)...)
	}
	n = t.Int(1, 3)
	for i := 0; i < n; i++ {
		if t.Chance(10) {
			g.attrs = append(g.attrs, g.anyXMLName())
			continue
		}
		g.attrs = append(g.attrs, pick(t, attrPool))
	}
	if t.Chance(10) {
		g.attrs = append(g.attrs, similar(t, pick(t, g.attrs)))
	}
	if t.N(50) == 49 {
		g.attrs = append(g.attrs, longNames(t)...)
	}
	g.depth = t.Int(1, 5)
	g.kids = t.Int(1, 5)
	g.left = t.Int(3, 40)
	switch t.W(950, 15, 15, 10) {
	case 1:
		// wide: far more children than any small buffer, with many different names
		g.depth, g.kids, g.left = t.Int(1, 2), t.Int(20, 300), t.Int(60, 350)
		for i := t.Int(0, 300); i > 0; i-- {
			g.names = append(g.names, fmt.Sprintf("w%d", i))
		}
	case 2:
		// deep
		g.depth, g.kids, g.left = t.Int(10, 50), t.Int(1, 2), t.Int(15, 80)
		g.names = g.names[:min(len(g.names), 2)]
		if t.Bool() {
			g.deepen(t.Int(10, 45)) // room for an index after every name
		}
	case 3:
		g.long = 10
	}
	if t.Chance(60) {
		g.noise = pick(t, []int{5, 15, 30})
	}
	g.ws = pick(t, []int{0, 20, 60})
	g.mix = pick(t, []int{40, 15, 80})
	return g
}

// deepen makes documents of at least the given depth.
func (g *G) deepen(depth int) {
	g.depth, g.spine, g.kids = depth, true, g.t.Int(1, 2)
	g.left = depth + g.t.Int(1, 20)
}

const (
	nameFirst = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
	nameAfter = nameFirst + "-.0123456789"
)

// wordNames are names that have a meaning elsewhere.
var wordNames = []string{"xml", "XML", "Xml", "CDATA", "DOCTYPE", "doctype", "ENTITY", "_xmldot_root", "true", "null", "NaN", "inf", "e1", "text", "comment"}

// anyXMLName is a name over the whole supported alphabet, with or without a prefix. Short names
// do not start with z: those stand for names that are in no document.
func (g *G) anyXMLName() string {
	t := g.t
	part := func() string {
		if t.N(12) == 11 {
			return pick(t, wordNames) + pick(t, []string{"", "", "-x", "1", "s"})
		}
		b := []byte{nameFirst[t.N(len(nameFirst)-1)]}
		for i := t.Int(0, 7); i > 0; i-- {
			b = append(b, nameAfter[t.N(len(nameAfter))])
		}
		if len(b) > 5 && t.Chance(10) {
			b[0] = 'z'
		}
		return string(b)
	}
	n := part()
	if t.Chance(20) {
		n = part() + ":" + n
	}
	return n
}

// longNames are two or three names of up to 200 characters that differ in one place.
func longNames(t *T) []string {
	b := []byte(strings.Repeat(pick(t, []string{"a", "item", "long-name.", "x_1"}), 200))[:t.Int(10, 200)]
	if t.Chance(20) {
		b[t.Int(1, len(b)-2)] = ':'
		if c := strings.IndexByte(string(b), ':'); !(b[c+1] >= 'a' && b[c+1] <= 'z') {
			b[c+1] = 'n'
		}
	}
	out := []string{string(b)}
	for n := t.Int(1, 2); n > 0; n-- {
		o := append([]byte{}, b...)
		i := len(o) - 1
		switch t.N(3) {
		case 1:
			i = t.N(len(o))
		case 2:
			i = len(o)
			o = append(o, 'z')
		}
		if o[i] != ':' {
			o[i] = pick(t, []byte{'y', 'z', 'Q'})
		}
		out = append(out, string(o))
	}
	return out
}

// similar is a name that could be taken for the given one.
func similar(t *T, name string) string {
	prefix, local, ok := strings.Cut(name, ":")
	if !ok {
		prefix, local = "", name
	}
	other := func(s string) string {
		switch t.N(4) {
		case 0:
			return s + pick(t, []string{"s", "1", "-", ".x", "_"})
		case 1:
			return pick(t, []string{"x", "_", "A"}) + s
		case 2:
			return s + s
		}
		if len(s) > 1 {
			return s[:len(s)-1]
		}
		return "x" + s
	}
	switch {
	case prefix == "":
		if t.Bool() {
			return other(local)
		}
		return pick(t, []string{"ns", "p", "x", local}) + ":" + local
	case t.Chance(40):
		return other(prefix) + ":" + local
	case t.Chance(40):
		return prefix + ":" + other(local)
	case t.Bool():
		return local
	}
	return local + ":" + prefix
}

func (g *G) word() string {
	if g.t.Chance(10) {
		return fmt.Sprint(g.t.Int(0, 1200))
	}
	return pick(g.t, words)
}

// value is a text with markup characters, references and Unicode in it.
func (g *G) value() string {
	t := g.t
	if g.long > 0 && t.Chance(g.long) {
		return strings.Repeat(pick(t, words)+pick(t, special)+pick(t, blanks), t.Int(100, 3000))
	}
	switch t.W(50, 10, 30, 5, 2) {
	case 4:
		// a long plain beginning
		return strings.Repeat(pick(t, []string{"x", "ab ", "0", "é"}), pick(t, []int{t.Int(5, 70), t.Int(50, 300), t.Int(200, 1500)})) + pick(t, special) + pick(t, words)
	case 0:
		return g.word()
	case 1:
		return ""
	case 3:
		// arbitrary characters
		n := t.Int(0, 12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(g.char())
		}
		return b.String()
	}
	var b strings.Builder
	n := t.Int(1, 5)
	for i := 0; i < n; i++ {
		switch t.W(40, 45, 15, 3) {
		case 3:
			b.WriteString(g.ref())
		case 0:
			b.WriteString(pick(t, special))
		case 1:
			b.WriteString(pick(t, words))
		case 2:
			b.WriteString(pick(t, blanks))
		}
	}
	return b.String()
}

// ref is a reference that stands for itself: only the five predefined ones are resolved.
func (g *G) ref() string {
	t := g.t
	switch t.N(4) {
	case 0:
		return fmt.Sprintf("&#%d;", pick(t, []int{t.Int(0, 130), t.Int(0, 0x10ffff), 9, 10, 13, 34, 38, 39, 60, 62}))
	case 1:
		return fmt.Sprintf(pick(t, []string{"&#x%x;", "&#x%X;", "&#x%04x;"}), pick(t, []int{t.Int(0, 130), t.Int(0, 0x10ffff), 9, 10, 13, 34, 38, 39, 60, 62}))
	case 2:
		return "&" + pick(t, []string{"nbsp", "copy", "reg", "euro", "LT", "GT", "AMP", "QUOT", "Lt", "lt.", "lts", "l", "am", "ampx", "quo", "apo", "aposs", "hellip", "mdash", "e", "tab", "newline"}) + ";"
	}
	return "&" + localName(g.anyXMLName()) + ";"
}

// char is any character allowed in XML.
func (g *G) char() rune {
	t := g.t
	switch t.W(60, 15, 15, 10) {
	case 0:
		return rune(t.Int(0x20, 0x7e))
	case 1:
		return rune(t.Int(0xa0, 0x2fff))
	case 2:
		return rune(pick(t, []int{0x9, 0xa, 0xd, 0x85, 0xa0, 0x2028, 0x3000, 0xfeff, 0xfffd, 0x7f, 0x80}))
	}
	return rune(t.Int(0x10000, 0x1ffff))
}

func (g *G) inside(kind Kind) string {
	t := g.t
	var b strings.Builder
	n := t.Int(0, 3)
	if t.Chance(5) {
		n = t.Int(4, 12)
	}
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, insides))
	}
	s := b.String()
	switch kind {
	case Comment:
		for strings.Contains(s, "--") {
			s = strings.ReplaceAll(s, "--", "-")
		}
		s = strings.TrimSuffix(s, "-")
	case CData:
		for strings.Contains(s, "]]>") {
			s = strings.ReplaceAll(s, "]]>", "]>")
		}
		if strings.HasSuffix(s, "]") && t.Bool() {
			s += " "
		}
	case PI:
		for strings.Contains(s, "?>") {
			s = strings.ReplaceAll(s, "?>", ">")
		}
	}
	return s
}

func (g *G) noiseNode(inElem bool) *Node {
	t := g.t
	k := []Kind{Comment, PI, CData}[t.W(4, 2, 3)]
	if k == CData && !inElem {
		k = Comment
	}
	n := &Node{Kind: k, Text: g.inside(k)}
	if k == PI {
		n.Name = pick(t, []string{"pi", "php", "xml-stylesheet"})
		if n.Text != "" {
			n.Text = " " + n.Text
		}
	}
	return n
}

func (g *G) maybeNoise(out []*Node) []*Node {
	if g.noise > 0 && g.t.Chance(g.noise) {
		out = append(out, g.noiseNode(true))
	}
	return out
}

func local(n string) string { return n[strings.LastIndexByte(n, ':')+1:] }

func (g *G) genAttrs() []Attr {
	t := g.t
	var as []Attr
	if !t.Chance(45) {
		return nil
	}
	n := t.Int(1, 3)
	pool := g.attrs
	if t.Chance(4) {
		n = t.Int(4, 14)
		pool = append(append([]string(nil), pool...), "xmlns", "xmlns:p", "xml:lang", pick(t, pool)+"s", pick(t, pool)+"-", pick(t, pool)+"2", "p:"+local(pick(t, pool)))
	}
	for i := 0; i < n; i++ {
		nm := pick(t, pool)
		dup := false
		for _, a := range as {
			dup = dup || a.Name == nm
		}
		if !dup {
			as = append(as, Attr{nm, g.value()})
		}
	}
	return as
}

func (g *G) elem(depth int) *Node {
	t := g.t
	g.left--
	n := &Node{Kind: Elem, Name: pick(t, g.names)}
	n.Attrs = g.genAttrs()
	n.Kids = g.maybeNoise(n.Kids)
	text := func() {
		if t.Chance(g.mix) {
			n.Kids = append(n.Kids, &Node{Kind: Text, Text: g.value()})
		} else if t.Chance(g.ws) {
			n.Kids = append(n.Kids, &Node{Kind: Text, Text: pick(t, blanks)})
		}
	}
	text()
	if depth > 0 {
		k := t.Int(0, g.kids)
		if g.spine && k == 0 {
			k = 1
		}
		for i := 0; i < k && g.left > 0; i++ {
			n.Kids = append(n.Kids, g.elem(depth-1))
			n.Kids = g.maybeNoise(n.Kids)
			if t.Chance(30) || g.ws > 50 {
				text()
			}
		}
	}
	n.Kids = g.maybeNoise(n.Kids)
	n.Kids = dropEmptyText(n.Kids)
	return n
}

func dropEmptyText(ns []*Node) []*Node {
	out := ns[:0]
	for _, k := range ns {
		if k.Kind == Text && k.Text == "" {
			continue
		}
		out = append(out, k)
	}
	return out
}

// tree generates the root elements, without prolog.
func (g *G) tree() []*Node {
	t := g.t
	roots := 1
	if t.Chance(25) {
		roots = t.Int(2, 4)
	}
	var out []*Node
	for i := 0; i < roots; i++ {
		out = append(out, g.elem(g.depth))
	}
	if t.N(100) == 99 {
		out = g.crowd(out)
	}
	return out
}

// crowd surrounds one element with many small siblings of the same name.
func (g *G) crowd(roots []*Node) []*Node {
	t := g.t
	top := &Node{Kids: roots}
	p := top
	at := 0
	for {
		var idx []int
		for i, k := range p.Kids {
			if k.Kind == Elem {
				idx = append(idx, i)
			}
		}
		at = pick(t, idx)
		if n := p.Kids[at]; len(n.elems()) > 0 && t.Chance(60) {
			p = n
			continue
		}
		break
	}
	n := p.Kids[at]
	most := 200
	if t.N(10) == 9 {
		most = 450
	}
	before, after := t.Int(0, most), t.Int(0, most)
	var kids []*Node
	kids = append(kids, p.Kids[:at]...)
	one := func(i int) {
		c := &Node{Kind: Elem, Name: n.Name}
		switch t.W(30, 50, 10, 10) {
		case 1:
			c.Kids = []*Node{{Kind: Text, Text: fmt.Sprint(i)}}
		case 2:
			c.Attrs = []Attr{{pick(t, g.attrs), fmt.Sprint(i)}}
		case 3:
			c.Kids = []*Node{{Kind: Elem, Name: pick(t, g.names), Kids: []*Node{{Kind: Text, Text: fmt.Sprint(i)}}}}
		}
		kids = append(kids, c)
	}
	for i := 0; i < before; i++ {
		one(i)
	}
	kids = append(kids, n)
	for i := 0; i < after; i++ {
		one(before + 1 + i)
	}
	p.Kids = append(kids, p.Kids[at+1:]...)
	return top.Kids
}

// Speller writes a tree with lexical variation.
type Speller struct {
	t    *T
	b    strings.Builder
	vary int // percent
}

func (s *Speller) coin() bool { return s.vary > 0 && s.t.Chance(s.vary) }

func (s *Speller) sp() string {
	if s.coin() {
		return pick(s.t, blanks)
	}
	return ""
}

var refRE = regexp.MustCompile(`^&(#[0-9]+|#x[0-9a-fA-F]+|[a-zA-Z_][a-zA-Z0-9_.-]*);`)

func isRef(s string) bool {
	m := refRE.FindString(s)
	switch m {
	case "", "&lt;", "&gt;", "&amp;", "&quot;", "&apos;":
		return false
	}
	return true
}

// chars spells decoded text; quote is 0 in content.
func (s *Speller) chars(text string, quote byte) {
	for i := 0; i < len(text); i++ {
		c := text[i]
		switch c {
		case '<':
			s.b.WriteString("&lt;")
		case '&':
			if isRef(text[i:]) && s.coin() {
				s.b.WriteByte('&')
			} else {
				s.b.WriteString("&amp;")
			}
		case '>':
			so := s.b.String()
			if s.coin() && !(quote == 0 && strings.HasSuffix(so, "]]")) {
				s.b.WriteByte('>')
			} else {
				s.b.WriteString("&gt;")
			}
		case '"':
			if quote == '"' || s.coin() {
				s.b.WriteString("&quot;")
			} else {
				s.b.WriteByte('"')
			}
		case '\'':
			if quote == '\'' || s.coin() {
				s.b.WriteString("&apos;")
			} else {
				s.b.WriteByte('\'')
			}
		default:
			s.b.WriteByte(c)
		}
	}
}

func (s *Speller) nodes(ns []*Node) {
	for _, n := range ns {
		switch n.Kind {
		case Text:
			s.chars(n.Text, 0)
		case Comment:
			s.b.WriteString("<!--" + n.Text + "-->")
		case PI:
			s.b.WriteString("<?" + n.Name + n.Text + "?>")
		case CData:
			s.b.WriteString("<![CDATA[" + n.Text + "]]>")
		case Doctype:
			s.b.WriteString("<!DOCTYPE" + n.Text + ">")
		case Elem:
			s.b.WriteString("<" + n.Name)
			for _, a := range n.Attrs {
				if w := s.sp(); w != "" {
					s.b.WriteString(w)
				} else {
					s.b.WriteByte(' ')
				}
				s.b.WriteString(a.Name + s.sp() + "=" + s.sp())
				q := byte('"')
				if s.coin() {
					q = '\''
				}
				s.b.WriteByte(q)
				s.chars(a.Val, q)
				s.b.WriteByte(q)
			}
			s.b.WriteString(s.sp())
			if len(n.Kids) == 0 && s.t.Bool() {
				s.b.WriteString("/>")
				continue
			}
			s.b.WriteByte('>')
			s.nodes(n.Kids)
			s.b.WriteString("</" + n.Name + s.sp() + ">")
		}
	}
}

func spell(t *T, ns []*Node, vary int) string {
	s := &Speller{t: t, vary: vary}
	s.nodes(ns)
	return s.b.String()
}

// doctypes without quoted or bracketed surprises come first.
var doctypes = []string{
	" root",
	` root SYSTEM "x.dtd"`,
	` root [<!ELEMENT root ANY>]`,
	` root [<!ENTITY e "v"> <!ENTITY f '<a>no</a>'>]`,
	` root PUBLIC "-//X//>" 'y'`,
	` root [<!-- ]> --><!ENTITY g "]>">]`,
}

// prolog surrounds the roots with declarations, comments and white space.
func (g *G) prolog(roots []*Node) []*Node {
	t := g.t
	var out []*Node
	ws := func() {
		if t.Chance(40) {
			out = append(out, &Node{Kind: Text, Text: pick(t, blanks)})
		}
	}
	if t.Chance(25) {
		out = append(out, &Node{Kind: PI, Name: "xml", Text: pick(t, []string{` version="1.0"`, ` version='1.0' encoding="UTF-8"`})})
		ws()
	}
	if g.noise > 0 && t.Chance(g.noise) {
		out = append(out, g.noiseNode(false))
		ws()
	}
	if t.Chance(12) {
		out = append(out, &Node{Kind: Doctype, Text: pick(t, doctypes)})
		ws()
	}
	for i, r := range roots {
		if i > 0 && g.noise > 0 && t.Chance(g.noise) {
			out = append(out, g.noiseNode(false))
		}
		out = append(out, r)
		ws()
	}
	if g.noise > 0 && t.Chance(g.noise) {
		out = append(out, g.noiseNode(false))
		ws()
	}
	return out
}

// doc generates a document, spells it and parses it back; the strict parser must see the tree
// that was generated, which checks the generator and the parser against each other.
func (g *G) doc() *Doc {
	t := g.t
	ns := g.prolog(g.tree())
	src := spell(t, ns, pick(t, []int{0, 30, 60}))
	d := mustParse(src)
	if a, b := canon(ns, true), canon(d.Kids, true); a != b {
		bug("parser and generator disagree\n%s\n%s\n%q", a, b, src)
	}
	return d
}

func allElems(ns []*Node) []*Node {
	var out []*Node
	walk(ns, func(n *Node) {
		if n.Kind == Elem {
			out = append(out, n)
		}
	})
	return out
}

// chain is the path of elements from a root to n.
func chain(n *Node) []*Node {
	var out []*Node
	for x := n; x != nil; x = x.Parent {
		out = append([]*Node{x}, out...)
	}
	return out
}

// stepName names an element in a path: in full, or by its local name.
func (g *G) stepName(n *Node) string {
	if strings.Contains(n.Name, ":") && g.t.Bool() {
		return localName(n.Name)
	}
	return n.Name
}

// anyName is a name from the case's pool, or one that is in no document.
func (g *G) anyName() string {
	if g.t.Chance(8) {
		return pick(g.t, []string{"zz", "nope", "x:a"})
	}
	n := pick(g.t, g.names)
	if g.t.Chance(30) {
		return localName(n)
	}
	return n
}

func (g *G) anyAttr() string {
	if g.t.Chance(10) {
		return "zz"
	}
	return pick(g.t, g.attrs)
}

// target picks an element, the deeper and later ones as likely as the others.
func (g *G) target(d *Doc) *Node {
	es := allElems(d.Kids)
	if len(es) == 0 {
		return nil
	}
	return es[g.t.N(len(es))]
}

// elemPath is a path of names: that of some element, or a mutation of it.
func (g *G) elemPath(d *Doc) []Seg {
	t := g.t
	var p []Seg
	if n := g.target(d); n != nil {
		for _, x := range chain(n) {
			p = append(p, Seg{Kind: SElem, Name: g.stepName(x)})
		}
	}
	if t.Chance(25) || len(p) == 0 {
		switch t.N(3) {
		case 0:
			p = append(p, Seg{Kind: SElem, Name: g.anyName()})
		case 1:
			if len(p) > 0 {
				p[t.N(len(p))].Name = g.anyName()
			}
		case 2:
			if len(p) > 1 {
				i := t.N(len(p))
				p = append(append([]Seg{}, p[:i]...), p[i+1:]...)
			}
		}
	}
	if len(p) == 0 {
		p = []Seg{{Kind: SElem, Name: g.anyName()}}
	}
	return p
}

func condPathOK(s string) bool { return !strings.ContainsAny(s, "=!<>%\x00\n\r\t") }

// cond builds a filter condition that says something about the element n (may be nil).
func (g *G) cond(n *Node) *Cond {
	t := g.t
	c := &Cond{}
	val := ""
	have := false
	if n != nil && len(n.Attrs) > 0 && t.Chance(40) {
		a := pick(t, n.Attrs)
		c.Path = []Seg{{Kind: SAttr, Name: a.Name}}
		val, have = a.Val, true
	} else if n != nil && len(n.elems()) > 0 && t.Chance(85) {
		k := pick(t, n.elems())
		c.Path = []Seg{{Kind: SElem, Name: g.stepName(k)}}
		for len(k.elems()) > 0 && t.Chance(35) {
			k = pick(t, k.elems())
			c.Path = append(c.Path, Seg{Kind: SElem, Name: g.stepName(k)})
		}
		val, have = elemR(k).Str, true
		if len(k.Attrs) > 0 && t.Chance(30) {
			a := pick(t, k.Attrs)
			c.Path = append(c.Path, Seg{Kind: SAttr, Name: a.Name})
			val = a.Val
		}
	} else if t.Bool() {
		c.Path = []Seg{{Kind: SElem, Name: g.anyName()}}
	} else {
		c.Path = []Seg{{Kind: SAttr, Name: g.anyAttr()}}
	}
	// the length of a condition is limited
	if len(pathString(c.Path)) > 225 {
		c.Path, have = c.Path[:1], false
	}
	// attribute operands are taken as written, without escapes
	if c.Path[0].Kind == SAttr {
		c.PathStr = "@" + c.Path[0].Name
	}
	if !condPathOK(pathString(c.Path)) {
		bug("condition path %q", pathString(c.Path))
	}
	if t.Chance(12) {
		c.Op = ""
		return c
	}
	c.Op = pick(t, []string{"==", "!=", "<", ">", "<=", ">=", "%", "!%"})
	switch {
	case have && t.Chance(50):
	case have && t.Chance(30):
		// near miss
		if _, ok := number(val); ok && t.Bool() {
			val = g.nextTo(val)
		} else {
			val += "x"
		}
	default:
		val = g.value()
		if t.Chance(60) {
			val = g.word()
		}
	}
	if c.Op == "%" || c.Op == "!%" {
		if t.Bool() && val != "" {
			rs := []rune(val)
			i := t.N(len(rs) + 1)
			j := i + t.N(len(rs)-i+1)
			val = string(rs[:i]) + pick(t, []string{"*", "?", "*?", "**"}) + string(rs[j:])
		}
	}
	c.Val = val
	g.quoteCond(c)
	for i := range c.Sp {
		if t.Chance(10) {
			c.Sp[i] = " "
		}
	}
	return c
}

// quoteCond chooses a spelling in which the value can be written; values that cannot be
// written at all are replaced.
func (g *G) quoteCond(c *Cond) {
	t := g.t
	v := c.Val
	if strings.ContainsAny(v, "\x00\n\r\t\\") || len(v) > min(150, 240-len(pathString(c.Path))) || !asciiOrText(v) {
		v = g.word()
	}
	bareOK := v != "" && v == strings.TrimSpace(v) && !strings.ContainsAny(v, "()=!<>%'\".#|\\@*?&") || numRE.MatchString(v) && !strings.Contains(v, ".")
	q := ""
	if !bareOK || t.Bool() {
		switch {
		case strings.Contains(v, `"`) && strings.Contains(v, "'"):
			v = strings.ReplaceAll(v, "'", "")
			q = "'"
		case strings.Contains(v, `"`):
			q = "'"
		case strings.Contains(v, "'"):
			q = `"`
		default:
			q = pick(t, []string{"'", `"`})
		}
	}
	c.Val, c.Quote = v, q
}

func asciiOrText(s string) bool {
	for _, r := range s {
		if r == 0xfffd {
			return false
		}
	}
	return true
}

// PathOpt says which steps a path may use.
type PathOpt struct {
	Index, Count, Field, Star, Deep, Filter, Attr, Text, Mods bool
}

var allSteps = PathOpt{true, true, true, true, true, true, true, true, true}

var builtinMods = []string{"reverse", "sort", "first", "last", "flatten"}

// position of n among the siblings matching the step name
func (g *G) indexOf(n *Node, sibs []*Node, name string) int {
	k := 0
	for _, s := range sibs {
		if s == n {
			return k
		}
		if (Eval{}).matches(s, name) {
			k++
		}
	}
	return k
}

func siblings(d *Doc, n *Node) []*Node {
	if n.Parent == nil {
		return d.roots()
	}
	return n.Parent.elems()
}

// path generates a path with the allowed step kinds, usually one that hits something.
func (g *G) path(d *Doc, o PathOpt) []Seg {
	n := g.target(d)
	if n == nil {
		return g.elemPath(d)
	}
	return g.pathOn(chain(n), func(x *Node) []*Node { return siblings(d, x) }, o)
}

// pathOn generates a path along a chain of elements.
func (g *G) pathOn(ch []*Node, sibs func(*Node) []*Node, o PathOpt) []Seg {
	t := g.t
	n := ch[len(ch)-1]
	var p []Seg
	deepUsed := false
	prev := SegKind(-1) // kind of the step before
	for i := 0; i < len(ch); i++ {
		x := ch[i]
		last := i == len(ch)-1
		switch {
		case o.Deep && !deepUsed && t.Chance(12):
			// skip some levels
			deepUsed = true
			i += t.N(len(ch) - i)
			x = ch[i]
			last = i == len(ch)-1
			p = append(p, Seg{Kind: SStarStar})
			if t.Chance(15) && o.Star {
				p = append(p, Seg{Kind: SStar})
			} else {
				p = append(p, Seg{Kind: SElem, Name: g.stepName(x)})
			}
			prev = SStarStar
			_ = last
			continue
		case o.Star && t.Chance(18):
			p = append(p, Seg{Kind: SStar})
			prev = SStar
			continue
		case o.Filter && i == 0 && t.Chance(4):
			p = append(p, Seg{Kind: SFilter, Cond: g.cond(x)})
			if t.Bool() {
				p[len(p)-1].Kind = SFilterAll
			}
			prev = SFilter
			continue
		}
		name := g.stepName(x)
		p = append(p, Seg{Kind: SElem, Name: name})
		prev = SElem
		if o.Index && t.Chance(25) {
			idx := g.indexOf(x, sibs(x), name)
			if t.Chance(15) {
				idx = t.Int(0, 6)
			}
			p = append(p, Seg{Kind: SIndex, Idx: idx})
			prev = SIndex
		} else if o.Filter && t.Chance(22) {
			k := SFilter
			if t.Bool() {
				k = SFilterAll
			}
			p = append(p, Seg{Kind: k, Cond: g.cond(x)})
			prev = k
		}
	}
	if t.Chance(10) {
		// a miss somewhere
		var is []int
		for i, s := range p {
			if s.Kind == SElem {
				is = append(is, i)
			}
		}
		if len(is) > 0 {
			p[pick(t, is)].Name = g.anyName()
		}
	}
	// ending
	type ending struct {
		ok bool
		f  func()
	}
	ends := []ending{
		{true, func() {}},
		{o.Attr, func() {
			nm := g.anyAttr()
			if len(n.Attrs) > 0 && t.Chance(70) {
				nm = pick(t, n.Attrs).Name
			}
			p = append(p, Seg{Kind: SAttr, Name: nm})
		}},
		{o.Text, func() { p = append(p, Seg{Kind: SText}) }},
		{o.Count && prev == SElem, func() { p = append(p, Seg{Kind: SCount}) }},
		{o.Field && prev != SStar && prev != SIndex, func() {
			f := "%"
			switch t.W(50, 35, 15) {
			case 0:
				f = g.fieldName()
				if es := n.elems(); len(es) > 0 && t.Chance(70) {
					if k := pick(t, es).Name; fieldOK(k) {
						f = k
					}
				}
			case 1:
				f = "@" + g.fieldAttr()
				if len(n.Attrs) > 0 && t.Chance(70) {
					if k := pick(t, n.Attrs).Name; fieldOK(k) {
						f = "@" + k
					}
				}
			}
			p = append(p, Seg{Kind: SField, Name: f})
		}},
	}
	var ok []ending
	for i, e := range ends {
		if e.ok {
			ok = append(ok, e)
			if i == 0 {
				ok = append(ok, e)
			}
		}
	}
	pick(t, ok).f()
	if o.Mods && t.Chance(20) {
		k := t.Int(1, 3)
		l := &p[len(p)-1]
		for i := 0; i < k; i++ {
			l.Mods = append(l.Mods, pick(t, builtinMods))
		}
	}
	return p
}

var fieldRE = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_:-]*$`)

func fieldOK(n string) bool { return fieldRE.MatchString(n) }

func (g *G) fieldName() string {
	n := g.anyName()
	if !fieldOK(n) {
		return "item"
	}
	return n
}

func (g *G) fieldAttr() string {
	n := g.anyAttr()
	if !fieldOK(n) {
		return "id"
	}
	return n
}

// spellPath writes the path with needless escapes here and there.
func (g *G) spellPath(p []Seg) string {
	t := g.t
	if !t.Chance(15) {
		return pathString(p)
	}
	q := append([]Seg(nil), p...)
	var b strings.Builder
	for i, s := range q {
		if i > 0 {
			b.WriteByte('.')
			for t.Chance(5) {
				b.WriteByte('.')
			}
		}
		if s.Kind == SElem || s.Kind == SAttr {
			if s.Kind == SAttr {
				b.WriteByte('@')
			}
			for j := 0; j < len(s.Name); j++ {
				if s.Name[j] == '.' || t.Chance(20) {
					b.WriteByte('\\')
				}
				b.WriteByte(s.Name[j])
			}
			for _, m := range s.Mods {
				b.WriteString("|@" + m)
			}
			continue
		}
		if s.Kind == SIndex && s.Idx >= 0 && t.Chance(30) {
			b.WriteString("000"[:t.Int(1, 3)])
		}
		b.WriteString(pathString([]Seg{s}))
	}
	return b.String()
}

// diff compares the model's result with the library's; "" means equal.
func diff(want R, got xmldot.Result) string {
	if want.lax && emptyArr(got) {
		return ""
	}
	if want.Type != got.Type {
		return fmt.Sprintf("type %v, expected %v (got %q, expected %q)", got.Type, want.Type, clip(got.String(), 300), clip(want.text(), 300))
	}
	if want.amb && len(want.Items) == len(got.Results) {
		return ""
	}
	switch want.Type {
	case xmldot.Null:
		if got.Exists() {
			return "a missing result says it exists"
		}
		return ""
	case xmldot.Array:
		if len(want.Items) != len(got.Results) {
			return fmt.Sprintf("%d results, expected %d: got %s, expected %s", len(got.Results), len(want.Items), clip(got.String(), 400), clip(want.text(), 400))
		}
		for i := range want.Items {
			if d := diff(want.Items[i], got.Results[i]); d != "" {
				return fmt.Sprintf("item %d: %s", i, d)
			}
		}
		return ""
	}
	if want.Str != got.Str {
		return fmt.Sprintf("text %q, expected %q", clip(got.Str, 400), clip(want.Str, 400))
	}
	switch want.Type {
	case xmldot.Number:
		if want.Num != got.Num {
			return fmt.Sprintf("number %v, expected %v", got.Num, want.Num)
		}
	case xmldot.Attribute:
		if got.Raw != want.Str {
			return fmt.Sprintf("attribute raw %q, expected %q", got.Raw, want.Str)
		}
	case xmldot.Element:
		ns, err := parseXML(got.Raw, true)
		if err != nil {
			return fmt.Sprintf("raw content does not parse: %v: %q", err, clip(got.Raw, 400))
		}
		if a, b := canon(ns, true), canon(want.El.Kids, true); a != b {
			return fmt.Sprintf("raw content differs\n got      %s\n expected %s", clip(a, 600), clip(b, 600))
		}
	}
	return ""
}

var numbers = []string{"5", "10", "10.0", "1e1", "9.99", "-5", "+5", "0", "-0", "0.1", "100", "1e3", "1e400", "inf", "NaN", "0x10", "1,000", "abc", "", "5a", ".5", "5.", "1e-2", "9007199254740993", "9007199254740992", "e5", "--5", "1.2.3", "５", "007", "1e", "Infinity"}

func (g *G) number() string {
	if g.t.Chance(25) {
		return fmt.Sprint(g.t.Int(-3, 30))
	}
	if g.t.Chance(6) {
		// many digits
		b := []byte{byte('1' + g.t.N(9))}
		for n := g.t.Int(5, 14); n > 0; n-- {
			b = append(b, byte('0'+g.t.N(10)))
		}
		if g.t.Bool() {
			b[g.t.Int(1, len(b)-2)] = '.'
		}
		return string(b)
	}
	return pick(g.t, numbers)
}

// nextTo is a number a little different from the one written, if it is one.
func (g *G) nextTo(s string) string {
	t := g.t
	if _, ok := number(s); !ok || s == "" {
		return s
	}
	b := []byte(s)
	i := len(b) - 1
	if t.Chance(40) && !strings.ContainsAny(s, "eE") {
		if !strings.Contains(s, ".") {
			b = append(b, '.')
		}
		for n := t.Int(0, 8); n > 0; n-- {
			b = append(b, '0')
		}
		return string(append(b, byte('0'+t.N(10))))
	}
	if b[i] >= '0' && b[i] <= '9' {
		b[i] = '0' + (b[i]-'0'+byte(t.Int(1, 9)))%10
	}
	return string(b)
}

// cell is a field value: numeric more often than not.
func (g *G) cell() string {
	switch g.t.W(55, 25, 20) {
	case 0:
		return g.number()
	case 1:
		return g.word()
	}
	return g.value()
}

// records generates a document with runs of like-shaped siblings, as filters and arrays expect.
func (g *G) records() *Doc {
	t := g.t
	fields := []string{"price", "name", "p:qty", "meta", "a.b"}
	attrs := []string{"id", "kind"}
	g.attrs = attrs
	g.names = append(append([]string{}, fields...), "item", "list")
	text := func(s string) []*Node {
		if s == "" {
			return nil
		}
		return []*Node{{Kind: Text, Text: s}}
	}
	var lists []*Node
	nl := t.Int(1, 2)
	for l := 0; l < nl; l++ {
		list := &Node{Kind: Elem, Name: "list"}
		n := t.Int(1, 6)
		if t.N(200) == 199 {
			n = t.Int(7, 200)
		}
		for i := 0; i < n; i++ {
			it := &Node{Kind: Elem, Name: "item"}
			if t.Chance(10) {
				it.Name = pick(t, []string{"x:item", "other"})
			}
			for _, a := range attrs {
				if t.Chance(60) {
					it.Attrs = append(it.Attrs, Attr{a, g.cell()})
				}
			}
			for _, f := range fields {
				for t.Chance(45) {
					k := &Node{Kind: Elem, Name: f, Kids: text(g.cell())}
					if f == "meta" {
						k.Kids = append(k.Kids, &Node{Kind: Elem, Name: "price", Kids: text(g.cell())})
					}
					if t.Chance(15) {
						k.Attrs = []Attr{{"id", g.cell()}}
					}
					it.Kids = append(it.Kids, k)
					it.Kids = g.maybeNoise(it.Kids)
				}
			}
			if t.Chance(20) {
				it.Kids = append(it.Kids, text(g.cell())...)
			}
			list.Kids = append(list.Kids, it)
			if t.Chance(g.ws) {
				list.Kids = append(list.Kids, &Node{Kind: Text, Text: pick(t, blanks)})
			}
			list.Kids = g.maybeNoise(list.Kids)
		}
		lists = append(lists, list)
	}
	roots := lists
	switch t.W(50, 25, 25) {
	case 0:
		roots = []*Node{{Kind: Elem, Name: "root", Kids: lists}}
	case 1:
		// the items themselves are the roots
		roots = elemsOf(lists[0].Kids)
	}
	ns := g.prolog(roots)
	src := spell(t, ns, pick(t, []int{0, 30, 60}))
	d := mustParse(src)
	if a, b := canon(ns, true), canon(d.Kids, true); a != b {
		bug("parser and generator disagree\n%s\n%s\n%q", a, b, src)
	}
	return d
}

// anyDoc mixes both document shapes.
func (g *G) anyDoc() *Doc {
	if g.t.Chance(30) {
		return g.records()
	}
	return g.doc()
}
