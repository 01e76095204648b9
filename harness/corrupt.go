package main

import "strings"

// corrupt makes a well-formed text ill-formed by one structural change and names the change.
// ns is the strict parse of src; doc tells whether src is a document or element content.
func (g *G) corrupt(src string, ns []*Node, doc bool) (string, string) {
	for try := 0; try < 8; try++ {
		bad, kind := g.corruptOnce(src, ns, doc)
		if bad == "" || bad == src {
			continue
		}
		if _, err := parseXML(bad, !doc); err != nil {
			return bad, kind
		}
	}
	return src + "</zz>", "stray close tag"
}

var badNames = []string{"1a", "-a", ".a", "a$", "a b=", "a,b", "é%", "a(", "", "=", "a\"", "&amp;", "@a", "a/b"}

// badName puts a character that no name has somewhere into a name.
func (g *G) badName(name string) string {
	t := g.t
	k := t.Int(0, len(name))
	c := byte(t.Int(1, 126))
	if strings.IndexByte(nameAfter+" \t\r\n/>=\"'<:", c) >= 0 {
		c = pick(t, []byte("!#$%&()*+,;?@[]^`{|}~"))
	}
	if k == 0 && (c == '!' || c == '?') {
		c = '#' // the start of a declaration or an instruction
	}
	return name[:k] + string(rune(c)) + name[k:]
}

func (g *G) corruptOnce(src string, ns []*Node, doc bool) (string, string) {
	t := g.t
	es := allElems(ns)
	cut := func(a, b int, ins string) string { return src[:a] + ins + src[b:] }
	// a place for markup: inside or between elements
	place := func() int {
		if len(es) == 0 {
			return pick(t, []int{0, len(src)})
		}
		n := pick(t, es)
		if n.SelfClosing {
			return pick(t, []int{n.Start, n.End})
		}
		return pick(t, []int{n.Start, n.OpenEnd, n.CloseStart, n.End})
	}
	if len(es) == 0 {
		switch t.N(4) {
		case 0:
			return cut(place(), place(), ""), "cut"
		case 1:
			return src + "<zz>", "stray open tag"
		case 2:
			return src + pick(t, []string{"<!-- x", "<![CDATA[ x", "<?pi x"}), "unterminated section"
		}
		return src + "</zz>", "stray close tag"
	}
	n := pick(t, es)
	switch t.N(15) {
	case 0:
		if n.SelfClosing {
			return cut(n.End-2, n.End, ">"), "unclosed element"
		}
		return cut(n.CloseStart, n.End, ""), "close tag removed"
	case 1:
		if n.SelfClosing {
			return "", ""
		}
		other := pick(t, []string{"zz", n.Name + "x", strings.ToUpper(n.Name), "x:" + n.Name, localName(n.Name), n.Name[:len(n.Name)-1]})
		if other == n.Name {
			return "", ""
		}
		return cut(n.CloseStart, n.End, "</"+other+">"), "close tag of another name"
	case 2:
		k := place()
		return cut(k, k, "</"+pick(t, []string{n.Name, "zz"})+">"), "stray close tag"
	case 3:
		k := place()
		return cut(k, k, "<"+pick(t, []string{n.Name, "zz", `zz a="1"`})+">"), "stray open tag"
	case 4:
		// overlap with the parent or with a new element
		if n.SelfClosing {
			return "", ""
		}
		return src[:n.OpenEnd] + "<zz>" + src[n.OpenEnd:n.End] + "</zz>" + src[n.End:], "overlapping elements"
	case 5:
		bn := pick(t, badNames)
		if t.Bool() {
			bn = g.badName(n.Name)
		}
		if n.SelfClosing {
			return cut(n.Start+1, n.Start+1+len(n.Name), bn), "bad element name"
		}
		return src[:n.Start+1] + bn + src[n.Start+1+len(n.Name):n.CloseStart+2] + bn + src[n.CloseStart+2+len(n.Name):], "bad element name"
	case 6, 7, 8:
		a := pick(t, []string{`a1=1`, `a1`, `a1=`, `a1="`, `a1='`, `a1="x'`, `="x"`, `1a="x"`, `-a="x"`, `a$="x"`, `a1:="x`, `a1 "x"`, `a1=x"`, `a1="x" b1`, `@a1="x"`, `a1==“x”`, `a1="<x"y>"`, `a1=>`})
		if t.Chance(20) {
			a = g.badName("attr") + `="x"`
		}
		k := n.Start + 1 + len(n.Name)
		if q := strings.IndexAny(a, `"'`); q >= 0 && strings.Count(a, a[q:q+1]) == 1 && strings.Contains(src[k:], a[q:q+1]) {
			return "", "" // closed by a later quote
		}
		return cut(k, k, " "+a), "broken attribute"
	case 9:
		k := place()
		o := pick(t, []string{"<!-- x", "<![CDATA[ x", "<?pi x", "<!--", "<?", "<![CDATA["})
		end := map[byte]string{'-': "-->", '[': "]]>", 'p': "?>"}[(o + "p")[2]]
		if strings.Contains(src[k:], end) {
			return "", ""
		}
		return cut(k, k, o), "unterminated section"
	case 10:
		k := t.Int(n.Start+1, n.End-1)
		return src[:k], "truncated"
	case 11:
		k := place()
		return cut(k, k, pick(t, []string{"<!-- a -- b -->", "<!----->", "<!--a--->"})), "-- in a comment"
	case 12:
		k := place()
		if k < len(src) && strings.IndexByte("!?/", src[k]) >= 0 {
			return "", "" // a text that would make the < a declaration, an instruction or a close tag
		}
		return cut(k, k, pick(t, []string{"<", "< ", "<>", "</>", "< b>x</b>", "<=", "<3"})), "stray <"
	case 13:
		if n.SelfClosing {
			return cut(n.End-1, n.End, ""), "tag without >"
		}
		if t.Bool() {
			return cut(n.OpenEnd-1, n.OpenEnd, ""), "tag without >"
		}
		return cut(n.End-1, n.End, ""), "tag without >"
	case 14:
		// two elements in the wrong order: swap the close tags of parent and child
		p := n.Parent
		if p == nil || p.Name == n.Name || n.SelfClosing {
			return "", ""
		}
		return src[:n.CloseStart] + src[p.CloseStart:p.End] + src[n.End:p.CloseStart] + src[n.CloseStart:n.End] + src[p.End:], "close tags swapped"
	}
	return "", ""
}

// outsideText puts characters outside the roots.
func (g *G) outsideText(src string, d *Doc) string {
	t := g.t
	s := pick(t, []string{"x", " x ", "1", "\nnot xml\n", "]]>", "&amp;"})
	rs := d.roots()
	r := pick(t, rs)
	if t.Bool() {
		return src[:r.Start] + s + src[r.Start:]
	}
	return src[:r.End] + s + src[r.End:]
}
