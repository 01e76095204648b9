package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

// broken tells why a document is structurally broken whatever one thinks about the finer points
// of XML; "" means it is not, or that it is not clear.
func broken(s string) string {
	var stack []string
	i := 0
	name := func() string {
		j := i
		if j < len(s) && nameStart(s[j]) {
			for j < len(s) && nameChar(s[j]) {
				j++
			}
		}
		n := s[i:j]
		i = j
		return n
	}
	sp := func() {
		for i < len(s) && xspace(s[i]) {
			i++
		}
	}
	roots := 0
	for i < len(s) {
		if s[i] != '<' {
			if len(stack) == 0 && !xspace(s[i]) {
				if s[i] >= 0x80 {
					return "" // perhaps a byte order mark
				}
				return "text outside the roots"
			}
			i++
			continue
		}
		rest := s[i:]
		switch {
		case strings.HasPrefix(rest, "<!--"):
			e := strings.Index(rest[4:], "--")
			if e < 0 {
				return "unterminated comment"
			}
			if !strings.HasPrefix(rest[4+e:], "-->") {
				return "-- in a comment"
			}
			i += 4 + e + 3
		case strings.HasPrefix(rest, "<![CDATA["):
			if len(stack) == 0 {
				return ""
			}
			e := strings.Index(rest, "]]>")
			if e < 0 {
				return "unterminated CDATA section"
			}
			i += e + 3
		case strings.HasPrefix(rest, "<?"):
			e := strings.Index(rest[2:], "?>")
			if e < 0 {
				return "unterminated instruction"
			}
			i += 2 + e + 2
		case strings.HasPrefix(rest, "<!"):
			return "" // declarations: not judged
		case strings.HasPrefix(rest, "</"):
			i += 2
			n := name()
			if n == "" {
				return "close tag without a name"
			}
			sp()
			if i >= len(s) || s[i] != '>' {
				return "broken close tag"
			}
			i++
			if len(stack) == 0 {
				return "stray close tag"
			}
			if stack[len(stack)-1] != n {
				return "mismatched close tag"
			}
			stack = stack[:len(stack)-1]
		default:
			i++
			n := name()
			if n == "" {
				return "bad element name"
			}
			closed := false
			for {
				sp()
				if i >= len(s) {
					return "unterminated tag"
				}
				if s[i] == '>' {
					i++
					break
				}
				if strings.HasPrefix(s[i:], "/>") {
					i += 2
					closed = true
					break
				}
				if name() == "" {
					return "bad attribute name"
				}
				sp()
				if i >= len(s) || s[i] != '=' {
					return "attribute without value"
				}
				i++
				sp()
				if i >= len(s) || s[i] != '"' && s[i] != '\'' {
					return "unquoted attribute value"
				}
				e := strings.IndexByte(s[i+1:], s[i])
				if e < 0 {
					return "unterminated attribute value"
				}
				i += e + 2
			}
			if len(stack) == 0 {
				roots++
			}
			if !closed {
				stack = append(stack, n)
			}
		}
	}
	if len(stack) > 0 {
		return "unclosed element"
	}
	if roots == 0 {
		return "no element"
	}
	return ""
}

// verdict asks all four entry points and checks that they agree and that the position makes sense.
func verdict(t *T, src string) *xmldot.ValidateError {
	v := xmldot.Valid(src)
	e := xmldot.ValidateWithError(src)
	vb := xmldot.ValidBytes([]byte(src))
	eb := xmldot.ValidateBytesWithError([]byte(src))
	if v != vb || v != (e == nil) || v != (eb == nil) || e != nil && *e != *eb {
		t.Failf("disagree", "Valid %v, ValidBytes %v, ValidateWithError %v, ValidateBytesWithError %v on %q", v, vb, e, eb, clip(src, 600))
	}
	if e == nil {
		return nil
	}
	lines := strings.Split(src, "\n")
	if e.Message == "" || e.Line < 1 || e.Line > len(lines) || e.Column < 0 || e.Column > len(lines[e.Line-1]) {
		t.Failf("position", "%v: line %d, column %d is not inside the document of %d lines\n%q", e, e.Line, e.Column, len(lines), clip(src, 600))
	}
	if !strings.Contains(e.Error(), e.Message) || !strings.Contains(e.Error(), strconv.Itoa(e.Line)) || !strings.Contains(e.Error(), strconv.Itoa(e.Column)) {
		t.Failf("position", "the text %q does not give message %q, line %d, column %d", e.Error(), e.Message, e.Line, e.Column)
	}
	return e
}

// mutate changes a text at random places.
func (g *G) mutate(s string, n int) string {
	t := g.t
	for ; n > 0; n-- {
		k := t.N(len(s) + 1)
		switch t.N(6) {
		case 0:
			s = s[:k] + pick(t, docAlphabet) + s[k:]
		case 1:
			if k < len(s) {
				s = s[:k] + s[k+1:]
			}
		case 2:
			s = s[:k] + pick(t, docAlphabet) + s[min(k+1, len(s)):]
		case 3:
			// remove a stretch
			e := min(len(s), k+t.Int(1, 12))
			s = s[:k] + s[e:]
		case 4:
			// repeat a stretch elsewhere
			e := min(len(s), k+t.Int(1, 20))
			p := s[k:e]
			j := t.N(len(s) + 1)
			s = s[:j] + p + s[j:]
		case 5:
			s = s[:k]
		}
	}
	return s
}

var docAlphabet = []string{"<", ">", "/", "</", "/>", "<a>", "</a>", "<a/>", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<!DOCTYPE", "[", "]", "]>", "<!ENTITY", "=", "\"", "'", " a=\"1\"", " b='2'", "&amp;", "&", ";", "&#65;", "a", "b", ":", ".", "-", "1", " ", "\n", "\r\n", "\t", "é", "\x00", "\xff", "\xef\xbb\xbf", "x"}

// prefixes are texts that may stand in front of a document without changing its verdict.
func (g *G) lead() string {
	t := g.t
	var b strings.Builder
	for n := t.Int(1, 3); n > 0; n-- {
		switch t.N(7) {
		case 0:
			b.WriteString(pick(t, []string{"\n", "\n\n\n", "  ", "\t", "\r\n", " \n "}))
		case 1:
			b.WriteString("<!-- one\ntwo <a> -->")
		case 2:
			b.WriteString("<?pi some\n\nthing?>")
		case 3:
			b.WriteString("<z>text\nmore</z>")
		case 4:
			b.WriteString("<z a='1\n2' b=\"x\"\n c = 'y'/>")
		case 5:
			b.WriteString("<z><![CDATA[ a\n]] ]\n]]></z\n>")
		case 6:
			b.WriteString("<!-- short -->")
		}
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C17", Quick: 1000000, Thorough: 10000000,
		Rule: "a well-formed document with at least one element, a document broken by one structural change, or a mutated document that is clearly one or the other",
		Assume: []string{
			"names are made of ASCII letters, digits and . - _ :, documents have no byte order mark",
			"whether an ampersand, a '<' in a quoted value, equal attribute names, missing blanks between attributes or unknown declarations are allowed is not judged",
		},
		Run: runValidator,
		Fixed: []Fixed{
			{"accepted", func(t *T) {
				for _, s := range []string{"<a/>", "<a></a>", "<a/><b/>", "<?xml version='1.0'?><a/>", "<a>x<b/>y</a>", "<a b='\"' c=\"'\"/>", "<a b='>'/>", "<a><!-- < --><![CDATA[<]]></a>", "<!DOCTYPE a [<!ENTITY x \">\"><!-- ]> -->]><a/>", "<_a/>", "<a:b/>", "<a-1.2/>", "<a\n/>", "<a></a\n>", "<a><![CDATA[]]]]></a>", "<a><!----></a>", "<a><!-- - - --></a>", "<a>]]</a>", "<a><?pi?></a>", "<a><?p ?? ?></a>"} {
					if e := verdict(t, s); e != nil {
						t.Failf("rejected", "%q is rejected: %v", s, e)
					}
				}
			}},
			{"rejected", func(t *T) {
				for _, s := range []string{"", " ", "x", "<a>", "</a>", "<a></b>", "<a", "<a/", "<a b/>", "<a b=c/>", "<a b='c/>", "<a b=/>", "<1/>", "<a 1='2'/>", "<a/>x", "x<a/>", "<a><!-- x</a>", "<a><![CDATA[x</a>", "<a><?x</a>", "<a><b></a></b>", "<a>< b/></a>", "<a></a b='1'>", "<!-- x -->", "<a/></a>", "<a><!-- a -- b --></a>", "<", "<>", "<a><></a>"} {
					if e := verdict(t, s); e == nil {
						t.Failf("accepted", "%q is accepted", s)
					}
				}
				for _, s := range []string{"<a><?></a>", "<a><?", "<?", "<a><!", "<a><!-", "<a><!--", "<a><!-->", "<a><!---></a>", "<a><![CDATA[", "<a><![CDATA[]]", "<a><![CDATA[]></a>", "<a><!-- --", "<a><?x ?", "<a></a", "<a b='1'", "<a b='1' ", "<a b='", "<a b=", "<a b", "<a "} {
					if e := verdict(t, s); e == nil {
						t.Failf("accepted", "%q is accepted", s)
					}
				}
			}},
			{"every character in a name", func(t *T) {
				for c := range 128 {
					if strings.ContainsRune(" \t\r\n/>=\"'<:", rune(c)) {
						continue // these end a name or divide it
					}
					for k := range 3 {
						if k == 0 && (c == '!' || c == '?') {
							continue
						}
						name := "xy"[:k] + string(rune(c)) + "xy"[k:]
						ok := strings.ContainsRune(nameAfter, rune(c))
						if k == 0 {
							ok = strings.ContainsRune(nameFirst, rune(c))
						}
						for _, s := range []string{"<" + name + "/>", "<r><" + name + "></" + name + "></r>", "<r " + name + "='1'/>", "<r a='1' " + name + " = '1'>x</r>"} {
							if e := verdict(t, s); (e == nil) != ok {
								t.Failf("name", "%q: accepted %v, expected %v", s, e == nil, ok)
							}
						}
					}
				}
			}},
		},
	})

	register(&Prop{
		ID: "C18", Quick: 500000, Thorough: 5000000,
		Rule: "a document with a DOCTYPE declaring entities, or entity references in content, or a hostile value",
		Run:  runDoctype,
		Fixed: []Fixed{
			{"quoted brackets in a DOCTYPE", func(t *T) {
				for _, dt := range []string{`<!DOCTYPE r [<!ENTITY e "]><r>EVIL</r>">]>`, `<!DOCTYPE r [<!-- ]><r>EVIL</r> -->]>`, `<!DOCTYPE r SYSTEM "x>"><!-- <r>EVIL</r> -->`, `<!doctype r [<!ENTITY e '<r>EVIL</r>'>]>`} {
					if got := xmldot.Get(dt+"<r>ok</r>", "r"); got.String() != "ok" {
						t.Failf("doctype", "Get on %q answers %q", dt+"<r>ok</r>", got.String())
					}
					out, err := xmldot.Set(dt+"<r>ok</r>", "r", "new")
					if err != nil || out != dt+"<r>new</r>" {
						t.Failf("doctype", "Set on %q gives %q, %v", dt+"<r>ok</r>", out, err)
					}
				}
			}},
			{"the billion laughs", func(t *T) {
				s := `<!DOCTYPE r [<!ENTITY a "ha">`
				for c := 'b'; c < 'k'; c++ {
					s += fmt.Sprintf(`<!ENTITY %c "%s">`, c, strings.Repeat("&"+string(c-1)+";", 10))
				}
				s += "]><r x='&j;'>&j;</r>"
				if g := xmldot.Get(s, "r").String(); g != "&j;" {
					t.Failf("expanded", "an entity reference reads %q", clip(g, 100))
				}
				if g := xmldot.Get(s, "r.@x").String(); g != "&j;" {
					t.Failf("expanded", "an entity reference in an attribute reads %q", clip(g, 100))
				}
			}},
		},
	})
}

func runValidator(t *T) {
	g := newG(t)
	g.noise = pick(t, []int{25, 10, 0})
	d := g.anyDoc()
	src := d.Src
	switch t.W(25, 35, 30, 10, 8) {
	case 4:
		pointed(t, g, d)
		return
	case 0:
		t.Note("document", src)
		if e := verdict(t, src); e != nil {
			t.Failf("rejected", "a well-formed document is rejected: %v\n%q", e, clip(src, 800))
		}
		t.Nontrivial(src)
		t.Label("well-formed")
		return
	case 1:
		bad, kind := g.corrupt(src, d.Kids, true)
		if t.Chance(10) {
			bad, kind = g.outsideText(src, d), "text outside"
		}
		t.Note("document", bad)
		t.Note("change", kind)
		e := verdict(t, bad)
		if e == nil {
			t.Failf("accepted", "a broken document (%s) is accepted: %q", kind, clip(bad, 800))
		}
		t.Nontrivial(bad)
		t.Label(kind)
		moved(t, g, bad, e)
	case 2:
		s := g.mutate(src, t.Int(1, 3))
		t.Note("document", s)
		e := verdict(t, s)
		if _, err := parseXML(s, false); err == nil && len(s) > 0 {
			if ns, _ := parseXML(s, false); len(elemsOf(ns)) > 0 && e != nil && !misplaced(s) {
				t.Failf("rejected", "a well-formed document is rejected: %v\n%q", e, clip(s, 800))
			}
			t.Label("mutated, well-formed")
			t.Nontrivial(s)
			return
		}
		if why := broken(s); why != "" {
			if e == nil {
				t.Failf("accepted", "a broken document (%s) is accepted: %q", why, clip(s, 800))
			}
			t.Label("mutated, broken")
			t.Nontrivial(s)
			moved(t, g, s, e)
			return
		}
		t.Label("mutated, not judged")
	case 3:
		var b strings.Builder
		for n := t.Int(0, 15); n > 0; n-- {
			b.WriteString(pick(t, docAlphabet))
		}
		s := b.String()
		t.Note("document", s)
		e := verdict(t, s)
		if why := broken(s); why != "" && e == nil {
			t.Failf("accepted", "a broken document (%s) is accepted: %q", why, clip(s, 800))
		} else if why != "" {
			t.Nontrivial(s)
		}
		t.Label("arbitrary")
	}
}

// pointed: an element left open is reported at its start tag, a closing tag that closes nothing
// or something else at itself.
func pointed(t *T, g *G, d *Doc) {
	n := g.target(d)
	if n == nil || n.SelfClosing {
		return
	}
	bad, at := "", n.Start
	switch t.N(3) {
	case 0:
		cut := pick(t, []int{n.OpenEnd, n.CloseStart})
		if es := n.elems(); len(es) > 0 && t.Bool() {
			cut = pick(t, es).End
		}
		bad = d.Src[:cut]
		t.Label("left open")
	case 1:
		bad, at = d.Src[:n.CloseStart]+"</"+n.Name+pick(t, []string{"x", "-", ".1"})+">"+d.Src[n.End:], n.CloseStart
		t.Label("closed by another name")
	case 2:
		r := pick(t, d.roots())
		bad, at = d.Src[:r.End]+"</"+pick(t, []string{n.Name, r.Name})+">"+d.Src[r.End:], r.End
		t.Label("closing tag after a root")
	}
	t.Note("document", bad)
	e := verdict(t, bad)
	if e == nil {
		t.Failf("accepted", "a broken document is accepted: %q", clip(bad, 800))
	}
	line, col := 1+strings.Count(bad[:at], "\n"), at-(strings.LastIndexByte(bad[:at], '\n')+1)
	if e.Line != line || e.Column != col {
		t.Failf("position", "%v; the tag to blame is at line %d, column %d\n%q", e, line, col, clip(bad, 600))
	}
	t.Nontrivial(bad)
}

// misplaced: a declaration the validator may treat in its own way.
func misplaced(s string) bool {
	return strings.LastIndex(s, "<?xml ") > 0 || strings.Contains(s, "<!D") || strings.Contains(s, "<!d") || strings.Contains(s, "\xef\xbb\xbf") || strings.Contains(s, "<![CDATA[") && !strings.Contains(s, "<")
}

var posRE = regexp.MustCompile(`line \d+, column \d+`)

// moved: text in front of a broken document moves the reported position and nothing else.
func moved(t *T, g *G, bad string, e *xmldot.ValidateError) {
	if strings.HasPrefix(bad, "<?xml") || strings.Contains(e.Message, "root element") || broken(bad) == "no element" {
		return
	}
	pre := g.lead()
	t.Note("text in front", pre)
	e2 := verdict(t, pre+bad)
	if e2 == nil {
		t.Failf("accepted", "a broken document is accepted when %q is put in front: %q", pre, clip(bad, 600))
	}
	line := e.Line + strings.Count(pre, "\n")
	col := e.Column
	if e.Line == 1 {
		col += len(pre) - (strings.LastIndex(pre, "\n") + 1)
	}
	if e2.Line != line || e2.Column != col || posRE.ReplaceAllString(e2.Message, "") != posRE.ReplaceAllString(e.Message, "") {
		t.Failf("position", "%v; with %q in front: %v; expected line %d, column %d\n%q", e, pre, e2, line, col, clip(bad, 600))
	}
	t.Label("position moved")
}

// genDoctype is a DOCTYPE full of text that must never be seen, marked with MARK.
func (g *G) genDoctype() string {
	t := g.t
	var b strings.Builder
	b.WriteString(pick(t, []string{"<!DOCTYPE", "<!DOCTYPE", "<!doctype", "<!DocType"}))
	b.WriteString(pick(t, []string{" root", " a", "\nr ", " item "}))
	q := func(s string) string {
		if t.Bool() {
			return `"` + strings.ReplaceAll(s, `"`, "") + `"`
		}
		return "'" + strings.ReplaceAll(s, "'", "") + "'"
	}
	junk := func() string {
		var s string
		for n := t.Int(1, 3); n > 0; n-- {
			s += pick(t, []string{"MARK", "<secret>MARK</secret>", "]>", ">", "[", "]", "<a>MARK</a>", "<", "'", "\"", "&e;", "<!--", "%p;", "]]>", "<root>MARK", "</root>", "/>", "-"})
		}
		return s
	}
	switch t.N(3) {
	case 1:
		b.WriteString(" SYSTEM " + q(junk()))
	case 2:
		b.WriteString(" PUBLIC " + q(junk()) + " " + q(junk()))
	}
	if t.Chance(75) {
		b.WriteString(pick(t, []string{" [", "[", "\n["}))
		for n := t.Int(0, 4); n > 0; n-- {
			switch t.N(6) {
			case 0:
				b.WriteString("<!ENTITY e " + q(junk()) + ">")
			case 1:
				b.WriteString("<!ENTITY % p " + q(junk()) + " >")
			case 2:
				b.WriteString("<!ENTITY f SYSTEM " + q(junk()) + ">")
			case 3:
				s := strings.ReplaceAll(junk(), "-", "")
				b.WriteString("<!-- " + strings.ReplaceAll(s, "--", "") + " -->")
			case 4:
				b.WriteString("<!ELEMENT secret (#PCDATA)>\n")
			case 5:
				b.WriteString("<!ATTLIST secret a CDATA " + q(junk()) + ">")
			}
		}
		b.WriteString(pick(t, []string{"]", "] ", "\n]"}))
	}
	b.WriteString(">")
	return b.String()
}

func runDoctype(t *T) {
	g := newG(t)
	switch t.W(54, 18, 18, 10) {
	case 0:
		d := g.anyDoc()
		if strings.Contains(d.Src, "<!") && strings.Contains(strings.ToLower(d.Src), "<!doctype") {
			t.Label("document with its own DOCTYPE")
			return
		}
		dt := g.genDoctype()
		// behind the declaration, if there is one
		k := 0
		if strings.HasPrefix(d.Src, "<?xml ") {
			k = strings.Index(d.Src, "?>") + 2
		}
		src := d.Src[:k] + dt + d.Src[k:]
		ps := g.spellPath(g.path(d, allSteps))
		if t.Chance(30) {
			ps = pick(t, []string{"secret", "**.secret", "*.secret", "secret.@a", "secret.%", "secret.#", "secret.0", "a", "root", "*", "**.@a", "e", "ENTITY", "!DOCTYPE", "**.#(%%'*MARK*')#"})
		}
		noteQuery(t, src, ps)
		t.Nontrivial(dt, d.Src, ps)
		got, want := xmldot.Get(src, ps), xmldot.Get(d.Src, ps)
		if df := exact(got, want); df != "" {
			t.Failf("doctype", "Get(%q) with %q in the document: %s", ps, dt, df)
		}
		if df := exact(xmldot.GetWithOptions(src, ps, ci), xmldot.GetWithOptions(d.Src, ps, ci)); df != "" {
			t.Failf("doctype", "Get(%q) ignoring case with %q in the document: %s", ps, dt, df)
		}
		if strings.Contains(got.String(), "MARK") || strings.Contains(got.Raw, "MARK") {
			t.Failf("doctype", "Get(%q) returns text of the DOCTYPE: %q", ps, clip(got.String(), 300))
		}
		if strings.HasPrefix(dt, "<!DocType") {
			// no validator has to know this spelling, so modifications may be refused
			t.Label("DOCTYPE in mixed case")
			return
		}
		if !xmldot.Valid(src) {
			t.Failf("doctype", "the document with %q is rejected: %v", dt, xmldot.ValidateWithError(src))
		}
		// modifications
		p := g.editPath(d)
		if t.Chance(30) {
			p = join(p, g.freshNames(1, 2))
		}
		if t.Chance(15) {
			p = names([]string{"secret"})
		}
		ms := pathString(p)
		if t.Chance(20) {
			ms += ".-1"
		} else if t.Chance(25) {
			ms += ".@" + escName(g.attrFor(nil))
		}
		t.Note("modified path", ms)
		o1, e1 := xmldot.Set(src, ms, "v")
		o2, e2 := xmldot.Set(d.Src, ms, "v")
		sameShift(t, "Set", ms, o1, e1, o2, e2, k, dt, d.Src)
		o1, e1 = xmldot.Delete(src, ms)
		o2, e2 = xmldot.Delete(d.Src, ms)
		sameShift(t, "Delete", ms, o1, e1, o2, e2, k, dt, d.Src)
		t.Label("DOCTYPE")
	case 1:
		// entity references are plain text
		refs := []string{"&e;", "&nbsp;", "&lt;", "&amp;", "&#65;", "&#x41;", "&xxe;", "&a.b;", "text", " ", "&amp;e;", "&gt;", "&quot;", "&apos;", "&%p;", "&e", "&;"}
		var raw, want string
		for n := t.Int(1, 6); n > 0; n-- {
			r := pick(t, refs)
			if t.Bool() {
				r = g.ref()
			}
			raw += r
		}
		want = decode(raw)
		dt := ""
		if t.Bool() {
			dt = `<!DOCTYPE r [<!ENTITY e "EXPANDED"><!ENTITY xxe SYSTEM "file:///etc/passwd"><!ENTITY nbsp "EXPANDED">]>`
		}
		src := dt + "<r a=\"" + raw + "\"><v>" + raw + "</v><w><![CDATA[" + raw + "]]></w></r>"
		t.Note("document", src)
		t.Nontrivial(src)
		t.Label("entity references")
		check := func(what, got, want string) {
			if got != want {
				t.Failf("expanded", "%s of %q reads %q, expected %q", what, raw, got, want)
			}
			if len(got) > len(raw) {
				t.Failf("expanded", "%s of %q grew to %q", what, raw, got)
			}
		}
		check("the text", xmldot.Get(src, "r.v").String(), strings.TrimSpace(want))
		check("the text step", xmldot.Get(src, "r.v.%").String(), strings.TrimSpace(want))
		check("the attribute", xmldot.Get(src, "r.@a").String(), want)
		if g := xmldot.Get(src, "**.v"); g.Exists() {
			check("the text below **", g.String(), strings.TrimSpace(want))
		}
		m := xmldot.Get(src, "r").Map()
		if v, ok := m["v"]; ok {
			check("the map entry", v.String(), strings.TrimSpace(want))
		}
		out, err := xmldot.Set(src, "r.@b", "1")
		must(t, "Set", err)
		check("the attribute after its tag was rewritten", xmldot.Get(out, "r.@a").String(), want)
		check("the text after another change", xmldot.Get(out, "r.v").String(), strings.TrimSpace(want))
	case 2:
		// a scalar never makes structure
		d := g.editDoc()
		p := g.editPath(d)
		cur, rest := resolve(Eval{}, d, p)
		if !creatable(rest) {
			return
		}
		ps := pathString(p)
		attr := t.Chance(40)
		if attr {
			ps += ".@" + escName(g.attrFor(cur))
		}
		v := g.oddString()
		noteQuery(t, d.Src, ps)
		t.Note("value", v)
		t.Nontrivial(d.Src, ps, v)
		t.Label("hostile value")
		if !attr && t.Chance(25) && p[len(p)-1].Kind == SElem {
			ps += ".-1"
			t.Note("path", ps)
		}
		set := func(v string) (string, error) { return xmldot.Set(d.Src, ps, v) }
		switch t.N(4) {
		case 0:
			set = func(v string) (string, error) {
				return xmldot.SetMany(d.Src, []string{ps, ps}, []any{v, v})
			}
		case 1:
			o := g.options()
			set = func(v string) (string, error) { return xmldot.SetWithOptions(d.Src, ps, v, o) }
		}
		a, e1 := set(v)
		b, e2 := set("plain")
		if e1 != nil || e2 != nil {
			t.Failf("error", "Set fails: %v, %v", e1, e2)
		}
		if x, y := skeleton(a), skeleton(b); x != y {
			t.Failf("structure", "setting %q makes structure %s, plain text %s", v, clip(x, 500), clip(y, 500))
		}
	case 3:
		// a declaration anywhere in a raw value
		d := g.editDoc()
		p := g.editPath(d)
		if _, rest := resolve(Eval{}, d, p); !creatable(rest) {
			return
		}
		ps := pathString(p)
		if t.Chance(25) && p[len(p)-1].Kind == SElem {
			ps += ".-1"
		}
		decl := g.genDoctype()
		if t.Bool() {
			decl = "<!ENTITY" + pick(t, []string{" e 'MARK'", " % p \"MARK\"", "\te SYSTEM 'MARK'", "", " "}) + ">"
		}
		b := []byte(decl)
		for i, end := 2, t.Int(2, 9); i < end; i++ {
			if b[i] >= 'A' && b[i] <= 'Z' && t.Bool() {
				b[i] += 'a' - 'A'
			}
		}
		f := g.fragment()
		ns, err := parseXML(f, true)
		if err != nil {
			bug("fragment: %v", err)
		}
		places := []int{0, len(f)}
		walk(ns, func(n *Node) {
			places = append(places, n.Start, n.End)
			if n.Kind == Elem && !n.SelfClosing {
				places = append(places, n.OpenEnd, n.CloseStart)
			}
		})
		k := pick(t, places)
		f = f[:k] + string(b) + f[k:]
		noteQuery(t, d.Src, ps)
		t.Note("fragment", f)
		t.Nontrivial(d.Src, ps, f)
		t.Label("declaration in a raw value")
		if 0 < k && k < len(f)-len(b) {
			t.Label("declaration inside a raw value")
		}
		out, err := xmldot.SetRaw(d.Src, ps, f)
		refused(t, fmt.Sprintf("SetRaw(%q) of %q", ps, clip(f, 400)), d.Src, out, err, "value")
	}
}

// skeleton lists the tags of a document.
func skeleton(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '<' {
			continue
		}
		rest := s[i:]
		switch {
		case strings.HasPrefix(rest, "<!--"):
			i += strings.Index(rest[4:], "-->") + 6
			b.WriteString("C")
		case strings.HasPrefix(rest, "<![CDATA["):
			i += strings.Index(rest, "]]>") + 2
			b.WriteString("D")
		case strings.HasPrefix(rest, "<?"):
			i += strings.Index(rest, "?>") + 1
			b.WriteString("P")
		default:
			var q byte
			j := 1
			b.WriteByte('<')
			for ; j < len(rest); j++ {
				c := rest[j]
				if q != 0 {
					if c == q {
						q = 0
					}
					continue
				}
				if c == '"' || c == '\'' {
					q = c
				}
				if c == '<' {
					b.WriteString("!")
				}
				if c == '>' {
					break
				}
				b.WriteByte(c)
			}
			b.WriteByte('>')
			i += j
		}
	}
	return b.String()
}

// sameShift: the outputs are the same except for the DOCTYPE at offset k.
func sameShift(t *T, what, ps, o1 string, e1 error, o2 string, e2 error, k int, dt, src string) {
	if (e1 == nil) != (e2 == nil) {
		t.Failf("doctype", "%s(%q) with %q: %v, without: %v", what, ps, dt, e1, e2)
	}
	if want := o2[:min(k, len(o2))] + dt + o2[min(k, len(o2)):]; o1 != want {
		t.Failf("doctype", "%s(%q) with %q gives %q, expected %q", what, ps, dt, clip(o1, 600), clip(want, 600))
	}
}
