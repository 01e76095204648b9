package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/netascode/xmldot"
)

// goXML tells whether encoding/xml accepts the document or fragment.
func goXML(s string) error {
	d := xml.NewDecoder(strings.NewReader(s))
	for {
		_, err := d.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

// representable: every character may occur in XML.
func representable(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}

func xmlName(s string) bool {
	if s == "" || !nameStart(s[0]) {
		return false
	}
	for i := range len(s) {
		if !nameChar(s[i]) {
			return false
		}
	}
	return true
}

var twoColons = regexp.MustCompile(`[<\s/][\w.-]*:[\w.-]*:`)

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// badName finds a piece of a path string that is not a name but was made an element: known
// finding K1. Escaping backslashes are not part of the name, and names may be lower-cased.
// It begins with one of the characters in first, if there are any.
func badName(ps, src, out, first string) bool {
	q := strings.ReplaceAll(ps, `\\`, "\uE000")
	q = strings.ReplaceAll(strings.ReplaceAll(q, `\`, ""), "\uE000", `\`)
	for _, q := range []string{q, strings.ReplaceAll(ps, `\`, ""), lowerASCII(q), ps} {
		seen := map[string]bool{}
		for rest := out; ; {
			_, after, ok := strings.Cut(rest, "</")
			if !ok {
				break
			}
			rest = after
			for e := 1; e < len(after) && strings.Contains(q, after[:e]); e++ {
				x := after[:e]
				if after[e] != '>' || seen[x] {
					continue
				}
				seen[x] = true
				if !xmlName(x) && (first == "" || strings.Contains(first, x[:1])) && strings.Contains(out, "<"+x) && strings.Count(out, "</"+x+">") > strings.Count(src, "</"+x+">") {
					return true
				}
			}
		}
	}
	return false
}

var pathAlphabet = []string{"a", "b", "r", "root", "item", "ns:a", ".", ".", ".", "@", "@id", "#", "%", "*", "**", "#(", ")", ")#", "==", ">", "<", "'", "\"", "|", "|@raw", "\\", "\\.", "-1", "-", "0", "1", "2", "9", " ", "\n", "é", "\x00", "\xff", "!", "=", "/", "&", ";", "[", "]", "{", "}", ":", "?", "<b>", "--", "$", ","}

// oddPath is any string as a path, mostly near a sensible one.
func (g *G) oddPath(d *Doc) string {
	t := g.t
	var s string
	switch t.W(25, 20, 20, 15, 10, 10) {
	case 0:
		return pathString(g.editPath(d))
	case 1:
		s = pathString(join(g.editPath(d), g.freshNames(1, 3)))
	case 2:
		s = g.spellPath(g.path(d, allSteps))
	case 3:
		s = pathString(g.editPath(d)) + ".@" + escName(g.attrFor(nil))
	case 4:
		s = pathString(join(g.editPath(d), g.freshNames(0, 1))) + ".-1"
	case 5:
		n := t.Int(0, 8)
		for i := 0; i < n; i++ {
			s += pick(t, pathAlphabet)
		}
		return s
	}
	for t.Chance(35) {
		k := t.N(len(s) + 1)
		switch t.N(3) {
		case 0:
			s = s[:k] + pick(t, pathAlphabet) + s[k:]
		case 1:
			if k < len(s) {
				s = s[:k] + s[k+1:]
			}
		case 2:
			s = s[:k] + pick(t, pathAlphabet) + s[min(k+1, len(s)):]
		}
	}
	return s
}

// oddString is any string as a value.
func (g *G) oddString() string {
	t := g.t
	if t.Chance(40) {
		return g.scalar().text
	}
	var b strings.Builder
	n := t.Int(0, 6)
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, []string{"<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "<![CDATA[", "</a>", "<a>", "<a/>", "a", " ", "\n", "é", "&amp;", "&#x41;", "&zz;", "<?x", "?>", "<!DOCTYPE a>", "=", "/", "\t", "-", "]]", "\x01", "\xff", "\x00"}))
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 350000, Thorough: 3500000,
		Rule: "a sequence in which at least one modification succeeded and changed the document",
		Assume: []string{
			"raw bytes given to Set are well-formed fragments (Set does not check them); raw strings given to SetRaw are arbitrary",
			"encoding/xml and the strict parser judge an output only if they accepted the input and every value set so far is representable in XML",
		},
		Run: runValidity,
		Fixed: []Fixed{
			{"attribute value at and beyond the token size", func(t *T) {
				for _, n := range []int{xmldot.MaxTokenSize - 1, xmldot.MaxTokenSize, xmldot.MaxTokenSize + 1, 2 * xmldot.MaxTokenSize} {
					for _, src := range []string{"<r/>", "<r a='1'>x</r>", ""} {
						out, err := xmldot.Set(src, "r.@a", strings.Repeat("v", n))
						if err == nil && !xmldot.Valid(out) {
							t.Failf("invalid", "setting an attribute to %d bytes in %q gives an invalid document", n, src)
						}
					}
				}
			}},
			{"raw XML nested to the limit", func(t *T) {
				for n := 95; n < 105; n++ {
					frag := strings.Repeat("<x>", n) + strings.Repeat("</x>", n)
					for _, p := range []string{"r", "r.a", "r.a.b.c.-1"} {
						out, err := xmldot.SetRaw("<r><a/></r>", p, frag)
						if err == nil && !xmldot.Valid(out) {
							t.Failf("invalid", "SetRaw of %d nested elements at %s gives an invalid document", n, p)
						}
					}
				}
			}},
			{"a value that looks like markup", func(t *T) {
				out, err := xmldot.Set(`<r a='x"y'/>`, "r.@b", `"><x/>`)
				if err != nil || !xmldot.Valid(out) || goXML(out) != nil {
					t.Failf("invalid", "Set gives %q, %v", out, err)
				}
			}},
			{"raw bytes in an attribute", func(t *T) {
				out, err := xmldot.Set(`<r/>`, "r.@b", []byte(`"><x/>`))
				if err != nil || !xmldot.Valid(out) || goXML(out) != nil {
					t.Failf("invalid", "Set gives %q, %v", out, err)
				}
			}},
			{"steps without a name", func(t *T) {
				for _, p := range []string{"|@raw", "a.|@raw", "a.|@raw.-1", "|@raw.-1", "a.|@raw.@x"} {
					out, err := xmldot.Set(`<a/>`, p, "v")
					if err == nil && (!xmldot.Valid(out) || goXML(out) != nil) {
						t.Failf("invalid", "Set(%q) gives %q", p, out)
					}
				}
			}},
			{"bad attribute names", func(t *T) {
				for _, p := range []string{"r.@a b", "r.@1", `r.@x="`, "r.@<", "r.@", "r.x.@a>"} {
					out, err := xmldot.Set(`<r/>`, p, "v")
					if err == nil && (!xmldot.Valid(out) || goXML(out) != nil) {
						t.Failf("invalid", "Set(%q) gives %q", p, out)
					}
				}
			}},
		},
		Known: []KnownFinding{{
			ID: "K1",
			Check: func() (string, bool) {
				out, err := xmldot.Set("<root><user><age>30</age></user></root>", "root.user[age>25].status", "x")
				if err == nil && !xmldot.Valid(out) {
					return "Set with a path step that is not an XML name, e.g. root.user[age>25].status, creates an element of that name and returns an invalid document without error (the suite expects the call to succeed)", true
				}
				return "", false
			},
		}},
	})

	register(&Prop{
		ID: "C14", Quick: 400000, Thorough: 4000000,
		Rule: "a modification call with at least one thing wrong with it",
		Run:  runErrors,
		Fixed: []Fixed{
			{"oversized documents", func(t *T) {
				big := "<r>" + strings.Repeat("x", xmldot.MaxDocumentSize) + "</r>"
				o, err := xmldot.Set(big, "r", "v")
				refused(t, "Set on an oversized document", big, o, err, "malformed")
				o, err = xmldot.Delete(big, "r")
				refused(t, "Delete on an oversized document", big, o, err, "malformed")
				o, err = xmldot.SetRaw(big, "r", "<v/>")
				refused(t, "SetRaw on an oversized document", big, o, err, "malformed")
				o, err = xmldot.SetMany(big, []string{"r"}, []any{"v"})
				refused(t, "SetMany on an oversized document", big, o, err, "malformed")
				o, err = xmldot.DeleteMany(big, "r")
				refused(t, "DeleteMany on an oversized document", big, o, err, "malformed")
			}},
			{"oversized values", func(t *T) {
				src := "<r><a/></r>"
				v := strings.Repeat("v", xmldot.MaxValueSize+1)
				for _, p := range []string{"r.a", "r.@a", "r.b", "r.a.-1", "q"} {
					o, err := xmldot.Set(src, p, v)
					refused(t, "Set("+p+") to an oversized value", src, o, err, "value")
					o, err = xmldot.Set(src, p, []byte(v))
					refused(t, "Set("+p+") to oversized bytes", src, o, err, "value")
				}
			}},
		},
	})

	register(&Prop{
		ID: "C15", Quick: 250000, Thorough: 2500000,
		Rule: "a batch of at least two operations",
		Run:  runBatch,
		Fixed: []Fixed{
			{"the last element deleted before the batch ends", func(t *T) {
				out, err := xmldot.DeleteMany("<a>1</a>", "a", "a", "b")
				if err != nil || out != "" {
					t.Failf("batch", "DeleteMany gives %q, %v", out, err)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C26", Quick: 120000, Thorough: 1200000,
		Rule: "a query that finds something or a modification that succeeds, through every variant of the call",
		Assume: []string{
			"results of failed modifications and of batches without operations may be the caller's own slice",
		},
		Run: runVariants,
	})

	register(&Prop{
		ID: "C28", Quick: 100000, Thorough: 1000000,
		Rule: "a query with a result, a successful modification or a rejected document, repeated",
		Run:  runRepeat,
	})

	register(&Prop{
		ID: "C30", Quick: 500000, Thorough: 5000000,
		Rule: "a raw set of a non-empty fragment, well-formed or corrupted",
		Run:  runRaw,
		Fixed: []Fixed{
			{"fragments accepted", func(t *T) {
				for _, f := range []string{"", "x", "<a/>", "<!--><a-->", "<a\n>x</a\t>", `<a b=">">x</a>`, "<a b='</a>'/>", "<![CDATA[</a>]]>", "<?x > <a> ?>", "<a></a>tail<b/>"} {
					out, err := xmldot.SetRaw("<r><v>1</v></r>", "r.v", f)
					if err != nil || out != "<r><v>"+f+"</v></r>" {
						t.Failf("refused", "SetRaw of %q gives %q, %v", f, out, err)
					}
				}
			}},
			{"fragments refused", func(t *T) {
				src := "<r><v>1</v></r>"
				for _, f := range []string{"<a>", "</a>", "<a></b>", "<a", "<a b=1/>", "<a b='1/>", "<!-- x", "<![CDATA[ x", "<?x", "<", "</v></r><r>", "<!DOCTYPE a>", "<!doctype a>", "<!ENTITY a 'b'>", "<!EnTiTy a 'b'>", "<a><b></a></b>"} {
					out, err := xmldot.SetRaw(src, "r.v", f)
					refused(t, fmt.Sprintf("SetRaw of %q", f), src, out, err, "value")
				}
			}},
		},
	})
}

func runValidity(t *T) {
	g := newG(t)
	d := g.anyDoc()
	src := d.Src
	strict, golang := true, goXML(src) == nil
	if !xmldot.Valid(src) {
		bug("generated document is not valid: %q", src)
	}
	t.Note("document", src)
	steps := t.Int(1, 3)
	changed := false
	for i := 0; i < steps; i++ {
		var out, what string
		var err error
		var paths []string
		var vals, raws []string
		plain := false // raw bytes in a plain set
		str := func() string { s := g.oddString(); vals = append(vals, s); return s }
		val := func() any {
			switch t.W(60, 20, 20) {
			case 1:
				v := g.scalar()
				vals = append(vals, v.text)
				return v.v
			case 2:
				f := g.fragment()
				vals = append(vals, f)
				raws = append(raws, f)
				plain = true
				return []byte(f)
			}
			return str()
		}
		path := func() string { p := g.oddPath(d); paths = append(paths, p); return p }
		switch t.W(40, 15, 15, 10, 8, 12) {
		case 0:
			p, v := path(), val()
			what = fmt.Sprintf("Set(%q, %T %q)", p, v, fmt.Sprint(v))
			t.Note("call", what)
			out, err = xmldot.Set(src, p, v)
		case 1:
			p := path()
			v := g.fragment()
			if t.Chance(50) {
				v = g.oddString()
			} else if t.Chance(50) {
				ns, _ := parseXML(v, true)
				v, _ = g.corrupt(v, ns, false)
			}
			vals = append(vals, v)
			raws = append(raws, v)
			what = fmt.Sprintf("SetRaw(%q, %q)", p, v)
			t.Note("call", what)
			out, err = xmldot.SetRaw(src, p, v)
		case 2:
			p := path()
			what = fmt.Sprintf("Delete(%q)", p)
			t.Note("call", what)
			out, err = xmldot.Delete(src, p)
		case 3:
			n := t.Int(1, 3)
			var ps []string
			var vs []any
			for k := 0; k < n; k++ {
				ps = append(ps, path())
				vs = append(vs, val())
			}
			what = fmt.Sprintf("SetMany(%q, %q)", ps, vals)
			t.Note("call", what)
			out, err = xmldot.SetMany(src, ps, vs)
		case 4:
			n := t.Int(1, 3)
			var ps []string
			for k := 0; k < n; k++ {
				ps = append(ps, path())
			}
			what = fmt.Sprintf("DeleteMany(%q)", ps)
			t.Note("call", what)
			out, err = xmldot.DeleteMany(src, ps...)
		case 5:
			p, v := path(), val()
			o := g.options()
			o.CaseSensitive = t.Bool()
			what = fmt.Sprintf("SetWithOptions(%q, %T %q, %+v)", p, v, fmt.Sprint(v), o)
			t.Note("call", what)
			out, err = xmldot.SetWithOptions(src, p, v, o)
		}
		if err != nil {
			if out != src {
				t.Failf("not-unchanged", "%s fails but changes the document", what)
			}
			t.Label("refused")
			continue
		}
		for _, v := range vals {
			if !representable(v) {
				strict, golang = false, false
			}
		}
		for _, v := range raws {
			// the validator is more lenient than the parsers (raw &, duplicate attributes), and
			// a raw value may also go into an attribute
			attr := `<x a="` + strings.NewReplacer(`"`, "&quot;", "<", "&lt;").Replace(v) + `"/>`
			if _, e := parseXML(v, true); e != nil {
				strict = false
			}
			if _, e := parseXML(attr, true); e != nil {
				strict = false
			}
			if goXML("<x>"+v+"</x>") != nil || goXML(attr) != nil {
				golang = false
			}
		}
		if out == src {
			t.Label("unchanged")
			continue
		}
		if ns, e := parseXML(out, true); e == nil && len(elemsOf(ns)) == 0 {
			t.Label("emptied")
			t.Nontrivial(src, what)
			return
		}
		if plain && nesting(out) > xmldot.MaxNestingDepth {
			t.Label("raw bytes nested too deeply for their place")
			return
		}
		if twoColons.MatchString(out) {
			golang = false // a name for XML but not for encoding/xml
		}
		var bad string
		if !xmldot.Valid(out) {
			bad = fmt.Sprint("the validator: ", xmldot.ValidateWithError(out))
		} else if golang && goXML(out) != nil {
			bad = fmt.Sprint("encoding/xml: ", goXML(out))
		} else if strict {
			if _, e := parseXML(out, false); e != nil {
				bad = fmt.Sprint("the strict parser: ", e)
			}
		}
		if bad != "" {
			for _, p := range paths {
				if badName(p, src, out, "") {
					t.Label("K1 (step that is not a name)")
					return
				}
			}
			t.Failf("invalid", "%s succeeds but %s refuses the output\n in  %q\n out %q", what, bad, clip(src, 800), clip(out, 800))
		}
		for _, p := range paths {
			// such an element looks like an instruction or a declaration, so nothing refuses it at once
			if badName(p, src, out, "?!") {
				t.Label("K1 (step that is not a name)")
				return
			}
		}
		changed = true
		t.Nontrivial(src, what)
		t.Label("changed")
		if golang {
			t.Label("judged by encoding/xml")
		}
		if ns, e := parseXML(out, false); e == nil {
			d = &Doc{Src: out, Kids: ns}
		}
		src = out
	}
	if changed {
		t.Label("sequence with a change")
	}
}

// nesting is the depth of the deepest element.
func nesting(src string) int {
	ns, _ := parseXML(src, true)
	var deep func(ns []*Node) int
	deep = func(ns []*Node) int {
		m := 0
		for _, n := range elemsOf(ns) {
			m = max(m, 1+deep(n.Kids))
		}
		return m
	}
	return deep(ns)
}

type unsupported struct{ A int }

func (g *G) badValue() (any, string) {
	t := g.t
	i := 7
	v := pick(t, []any{struct{}{}, unsupported{1}, []string{"a"}, map[string]string{"a": "b"}, complex(1, 2), &i, make(chan int), []int{1}, [2]byte{1, 2}, errors.New("x"), []any{nil}, xmldot.Result{}, []rune("ab"), func() {}, unsafeString("x"), new(string)})
	return v, fmt.Sprintf("%T", v)
}

type unsafeString string

// existing is an edit path that leads to an element.
func (g *G) existing(d *Doc) []Seg {
	p := g.editPath(d)
	if _, rest := resolve(Eval{}, d, p); len(rest) > 0 {
		return names([]string{d.roots()[0].Name})
	}
	return p
}

// badPath is a path no modification accepts.
func (g *G) badPath(d *Doc) (string, string) {
	t := g.t
	base := pathString(g.editPath(d))
	switch t.N(10) {
	case 9:
		// nothing to append to
		step := pick(t, []string{"*", "%", "#", "**", "@id", "0", "#(@id==1)", "#(a>2)#", "#.a", "#.@id", "#.%"})
		if t.Chance(20) {
			return step + ".-1", "append without a name"
		}
		return base + "." + step + ".-1", "append without a name"
	case 0:
		return "", "empty"
	case 1:
		n := xmldot.MaxPathSegments + t.Int(1, 30)
		return strings.Repeat("a.", n-1) + "a", "too many steps"
	case 2:
		return base + "." + strconv.Itoa(-t.Int(2, 20)), "negative index"
	case 3:
		return base + ".-1.x", "append in the middle"
	case 4:
		return "@" + escName(g.attrFor(nil)), "attribute of nothing"
	case 5:
		return base + ".zzz.*", "wildcard to create"
	case 6:
		return base + ".zzz.%", "text to create"
	case 7:
		return base + ".zzz.#", "count to create"
	}
	return base + ".zzz." + strconv.Itoa(t.Int(0, 5)), "index to create"
}

// callDelete: the paths of badPath that are also wrong for a delete.
func deleteRefuses(kind string) bool {
	switch kind {
	case "empty", "too many steps", "attribute of nothing":
		return true
	}
	return false
}

func runErrors(t *T) {
	g := newG(t)
	d := g.anyDoc()
	src := d.Src
	var wrong []string
	docBad := t.Chance(35)
	if docBad {
		if t.Chance(80) {
			var k string
			src, k = g.corrupt(src, d.Kids, true)
			t.Label("document: " + k)
		} else {
			src = g.outsideText(src, d)
			t.Label("document: text outside")
		}
		wrong = append(wrong, "malformed")
	}
	path := pathString(g.existing(d))
	if t.Chance(30) {
		path += ".@" + escName(g.attrFor(nil))
	} else if t.Chance(20) {
		path += ".fresh"
	}
	pk := ""
	if !docBad && t.Chance(45) || docBad && t.Chance(20) {
		path, pk = g.badPath(d)
		t.Label("path: " + pk)
	}
	var val any = g.scalar().v
	valBad := ""
	if !docBad && pk == "" || t.Chance(15) {
		val, valBad = g.badValue()
		t.Label("value: unsupported")
	}
	raw := "<x/>"
	rawBad := false
	if t.Chance(40) {
		f := g.fragment()
		ns, _ := parseXML(f, true)
		var k string
		raw, k = g.corrupt(f, ns, false)
		rawBad = true
		t.Label("raw: " + k)
	}
	t.Note("document", src)
	t.Note("path", path)
	t.Notef("value", "%T", val)
	t.Note("raw", raw)

	check := func(what, in, out string, err error, causes ...string) {
		if err == nil {
			if len(causes) > 0 {
				t.Failf("accepted", "%s succeeds although wrong: %v; output %q", what, causes, clip(out, 300))
			}
			return
		}
		if out != in {
			t.Failf("not-unchanged", "%s fails but returns %q for %q", what, clip(out, 400), clip(in, 400))
		}
		k := kinds(err)
		if len(k) != 1 {
			t.Failf("error-kind", "%s fails with %q, of kinds %v", what, err, k)
		}
		for _, c := range causes {
			if c == k[0] {
				return
			}
		}
		t.Failf("error-kind", "%s fails with %q (%s); wrong is: %v", what, err, k[0], causes)
	}
	causes := func(path, value, raw bool) []string {
		c := append([]string(nil), wrong...)
		if path && pk != "" {
			c = append(c, "path")
		}
		if value && valBad != "" || raw && rawBad {
			c = append(c, "value")
		}
		return c
	}
	pathOnlyDel := func() []string {
		c := append([]string(nil), wrong...)
		if deleteRefuses(pk) {
			c = append(c, "path")
		}
		return c
	}
	if len(causes(true, true, true)) > 0 {
		t.Nontrivial(src, path, valBad, raw)
	}
	out, err := xmldot.Set(src, path, val)
	check("Set", src, out, err, causes(true, true, false)...)
	b, err := xmldot.SetBytes([]byte(src), path, val)
	check("SetBytes", src, string(b), err, causes(true, true, false)...)
	out, err = xmldot.SetWithOptions(src, path, val, g.options())
	check("SetWithOptions", src, out, err, causes(true, true, false)...)
	out, err = xmldot.SetRaw(src, path, raw)
	check("SetRaw", src, out, err, causes(true, false, true)...)
	// negative indices are refused or address nothing when deleting
	out, err = xmldot.Delete(src, path)
	if pk == "negative index" || pk == "append in the middle" || pk == "append without a name" {
		if docBad && err == nil {
			t.Failf("accepted", "Delete of a malformed document succeeds")
		}
		if out != src {
			t.Failf("not-unchanged", "Delete of a negative index changes the document")
		}
	} else {
		check("Delete", src, out, err, pathOnlyDel()...)
		b, err = xmldot.DeleteBytes([]byte(src), path)
		check("DeleteBytes", src, string(b), err, pathOnlyDel()...)
		out, err = xmldot.DeleteMany(src, path)
		check("DeleteMany", src, out, err, pathOnlyDel()...)
	}
	out, err = xmldot.SetMany(src, []string{path}, []any{val})
	check("SetMany", src, out, err, causes(true, true, false)...)
	b, err = xmldot.SetManyBytes([]byte(src), []string{path}, []any{val})
	check("SetManyBytes", src, string(b), err, causes(true, true, false)...)
	b, err = xmldot.SetBytesWithOptions([]byte(src), path, val, g.options())
	check("SetBytesWithOptions", src, string(b), err, causes(true, true, false)...)
	// a good step before the bad one must not show
	if !docBad {
		good := pathString(g.existing(d))
		out, err = xmldot.SetMany(src, []string{good + ".@zq", path}, []any{"1", val})
		c := causes(true, true, false)
		b, berr := xmldot.SetManyBytes([]byte(src), []string{good + ".@zq", path, good}, []any{"1", val, nil})
		if len(c) > 0 {
			check("SetMany after a good step", src, out, err, c...)
			check("SetManyBytes after a good step", src, string(b), berr, c...)
		}
		left, derr := xmldot.Delete(src, good)
		if c := pathOnlyDel(); len(c) > 0 && derr == nil && xmldot.Valid(left) && pk != "negative index" && pk != "append in the middle" && pk != "append without a name" {
			out, err = xmldot.DeleteMany(src, good, path)
			check("DeleteMany after a good step", src, out, err, c...)
			b, err = xmldot.DeleteManyBytes([]byte(src), good, path)
			check("DeleteManyBytes after a good step", src, string(b), err, c...)
		}
	}
	// lists of different length
	out, err = xmldot.SetMany(src, []string{path, path}, []any{val})
	check("SetMany with lists of different length", src, out, err, append(causes(true, true, false), "path")...)
	if np, nv := t.Int(0, 4), t.Int(0, 4); np != nv {
		p, v, c := path, val, append(causes(true, true, false), "path")
		if !docBad && t.Bool() {
			// nothing else is wrong
			p, v, c = pathString(g.existing(d))+".@zq", "1", []string{"path"}
			t.Label("only the lengths differ")
		}
		ps, vs := slices.Repeat([]string{p}, np), slices.Repeat([]any{pick(t, []any{v, "", nil, 1})}, nv)
		if nv > 0 {
			vs[0] = v
		}
		t.Notef("lists of different length", "%q, %v", ps, vs)
		out, err = xmldot.SetMany(src, ps, vs)
		check("SetMany with lists of different length", src, out, err, c...)
	}
	b, err = xmldot.SetManyBytes([]byte(src), []string{path}, []any{val, val})
	check("SetManyBytes with lists of different length", src, string(b), err, append(causes(true, true, false), "path")...)
	// the empty document
	out, err = xmldot.Delete("", path)
	check("Delete in an empty document", "", out, err, append(pathOnlyDel(), "malformed")...)
	if pk == "" && valBad != "" {
		out, err = xmldot.Set("", path, val)
		check("Set in an empty document", "", out, err, append(causes(true, true, false), "path")...)
	}
	var none []byte
	b, err = xmldot.SetBytes(none, path, val)
	check("SetBytes in a nil document", "", string(b), err, append(causes(true, true, false), "malformed")...)
}

func runBatch(t *T) {
	g := newG(t)
	d := g.editDoc()
	src := d.Src
	if t.Chance(6) {
		src, _ = g.corrupt(src, d.Kids, true)
	}
	n := t.Int(0, 5)
	calm := 0
	if t.N(500) == 499 {
		// a long batch, of calls that mostly succeed
		n, calm = t.Int(6, 120), 97
		t.Label("long batch")
	}
	var paths []string
	for i := 0; i < n; i++ {
		if i > 0 && t.Chance(calm) {
			paths = append(paths, pathString(g.editPath(d))+".@"+escName(g.attrFor(nil)))
			continue
		}
		if i > 0 && t.Chance(20) {
			paths = append(paths, paths[t.N(i)])
			continue
		}
		switch t.W(40, 15, 15, 12, 10, 8) {
		case 0:
			paths = append(paths, pathString(g.editPath(d)))
		case 1:
			paths = append(paths, pathString(join(g.editPath(d), g.freshNames(1, 2))))
		case 2:
			paths = append(paths, pathString(g.editPath(d))+".@"+escName(g.attrFor(nil)))
		case 3:
			paths = append(paths, pathString(g.editPath(d))+".-1")
		case 4:
			paths = append(paths, pathString(g.path(d, allSteps)))
		case 5:
			paths = append(paths, g.oddPath(d))
		}
	}
	// the same path in another spelling
	for i := 1; i < n; i++ {
		if t.N(8) == 7 {
			p := paths[t.N(i)]
			paths[i] = pick(t, []string{p + ".", "." + p, strings.Replace(p, ".", "..", 1), "\\" + p, p + "\\", strings.TrimSuffix(p, ".")})
			t.Label("another spelling")
		}
	}
	t.Note("document", src)
	t.Notef("paths", "%q", paths)
	if n > 1 {
		t.Nontrivial(src, strings.Join(paths, "\x00"))
	}

	// get
	got := xmldot.GetMany(src, paths...)
	if len(got) != n {
		t.Failf("batch", "GetMany of %d paths gives %d results", n, len(got))
	}
	for i, p := range paths {
		if df := exact(got[i], xmldot.Get(src, p)); df != "" {
			t.Failf("batch", "GetMany, position %d (%q): %s", i, p, df)
		}
	}

	// set
	vals := make([]any, n)
	for i := range vals {
		if t.Chance(calm) {
			vals[i] = g.scalar().v
			continue
		}
		switch t.W(70, 8, 8, 6) {
		case 0:
			vals[i] = g.scalar().v
		case 1:
			vals[i] = nil
			t.Label("nil value")
		case 2:
			vals[i] = []byte(g.fragment())
		case 3:
			if t.Chance(40) {
				vals[i], _ = g.badValue()
			} else {
				vals[i] = g.scalar().v
			}
		}
	}
	t.Notef("values", "%v", vals)
	want := src
	var werr error
	for i, p := range paths {
		out, err := xmldot.Set(want, p, vals[i])
		if err != nil {
			werr = err
			want = src
			t.Labelf("set fails at step %d of %d", min(i+1, 6), min(n, 6))
			break
		}
		want = out
	}
	out, err := xmldot.SetMany(src, paths, vals)
	sameBatch(t, "SetMany", src, out, err, want, werr)
	b, err := xmldot.SetManyBytes([]byte(src), paths, vals)
	sameBatch(t, "SetManyBytes", src, string(b), err, want, werr)

	// delete
	want, werr = src, nil
	seen := map[string]bool{}
	for i, p := range paths {
		if seen[p] {
			t.Label("repeated path")
			continue
		}
		seen[p] = true
		if i > 0 && want == "" {
			t.Label("emptied before the end")
			break
		}
		out, err := xmldot.Delete(want, p)
		if err != nil {
			werr = err
			want = src
			t.Labelf("delete fails at step %d of %d", min(i+1, 6), min(n, 6))
			break
		}
		want = out
	}
	out, err = xmldot.DeleteMany(src, paths...)
	sameBatch(t, "DeleteMany", src, out, err, want, werr)
	b, err = xmldot.DeleteManyBytes([]byte(src), paths...)
	sameBatch(t, "DeleteManyBytes", src, string(b), err, want, werr)
}

func (t *T) Labelf(f string, args ...any) { t.Label(fmt.Sprintf(f, args...)) }

func sameBatch(t *T, what, src, out string, err error, want string, werr error) {
	if (err == nil) != (werr == nil) {
		t.Failf("batch", "%s: error %v, one by one: %v", what, err, werr)
	}
	if err != nil {
		if a, b := fmt.Sprint(kinds(err)), fmt.Sprint(kinds(werr)); a != b {
			t.Failf("batch", "%s fails with %v %s, one by one with %v %s", what, err, a, werr, b)
		}
		want = src
	}
	if out != want {
		t.Failf("batch", "%s gives %q, one by one %q (error %v)", what, clip(out, 600), clip(want, 600), err)
	}
}

// shout changes every byte of a slice.
func shout(b []byte) {
	for i := range b {
		b[i] ^= 0x5f
	}
}

func runVariants(t *T) {
	g := newG(t)
	d := g.editDoc()
	src := d.Src
	if t.Chance(15) {
		src, _ = g.corrupt(src, d.Kids, true)
		t.Label("malformed")
	} else if t.Chance(10) {
		src, _ = g.soup()
		t.Label("any text")
	}
	if t.Chance(4) {
		// what a file may begin and end with
		src = pick(t, []string{"\ufeff", "\xff\xfe", "\x00", "\ufeff\n", " ", "\n", "\u00a0", "\v", ""}) + src + pick(t, []string{"", "\x00", "\x1a", "\n", " ", "\v", "\u00a0", "\ufeff", "\u0085"})
		t.Label("surrounded")
	}
	buf := []byte(src)
	intact := func(what string) {
		if string(buf) != src {
			t.Failf("input-modified", "%s changes the caller's bytes", what)
		}
	}
	def := func() []*xmldot.Options {
		return []*xmldot.Options{nil, xmldot.DefaultOptions(), {CaseSensitive: true}}
	}

	// queries
	ps := g.spellPath(g.path(d, allSteps))
	if t.Chance(25) {
		ps = g.oddPath(d)
	}
	noteQuery(t, src, ps)
	base := xmldot.Get(src, ps)
	if base.Exists() {
		t.Nontrivial(src, ps)
		t.Label("query with result")
	}
	agree := func(what string, r xmldot.Result) {
		if df := exact(r, base); df != "" {
			t.Failf("variant", "%s differs from Get: %s", what, df)
		}
	}
	agree("GetString", xmldot.GetString(src, ps))
	rb := xmldot.GetBytes(buf, ps)
	agree("GetBytes", rb)
	many := xmldot.GetMany(src, ps, ps)
	agree("GetMany", many[0])
	agree("GetMany", many[1])
	rs := []xmldot.Result{rb}
	for _, o := range def() {
		agree("GetWithOptions", xmldot.GetWithOptions(src, ps, o))
		agree("GetStringWithOptions", xmldot.GetStringWithOptions(src, ps, o))
		r := xmldot.GetBytesWithOptions(buf, ps, o)
		agree("GetBytesWithOptions", r)
		rs = append(rs, r)
	}
	intact("a query")
	r2 := xmldot.GetBytesWithOptions(buf, ps, ci)
	want2 := xmldot.GetWithOptions(src, ps, ci)
	if df := exact(r2, want2); df != "" {
		t.Failf("variant", "GetBytesWithOptions ignoring case differs from GetWithOptions: %s", df)
	}
	// later changes to the bytes do not reach the results
	shout(buf)
	for _, r := range rs {
		agree("an earlier result of GetBytes, after the bytes changed,", r)
	}
	if df := exact(r2, want2); df != "" {
		t.Failf("alias", "a result of GetBytesWithOptions changes with the caller's bytes: %s", df)
	}
	shout(buf)

	// validation
	v := xmldot.Valid(src)
	e1, e2 := xmldot.ValidateWithError(src), xmldot.ValidateBytesWithError(buf)
	if xmldot.ValidBytes(buf) != v || (e1 == nil) != v || (e2 == nil) != v || e1 != nil && *e1 != *e2 {
		t.Failf("variant", "validation variants disagree: %v, %v, %v", v, e1, e2)
	}
	intact("validation")

	// modification
	var mp string
	switch t.W(40, 20, 20, 10, 10) {
	case 0:
		mp = pathString(g.editPath(d))
	case 1:
		mp = pathString(g.editPath(d)) + ".@" + escName(g.attrFor(nil))
	case 2:
		mp = pathString(join(g.editPath(d), g.freshNames(1, 2)))
	case 3:
		mp = pathString(g.editPath(d)) + ".-1"
	case 4:
		mp = g.oddPath(d)
	}
	t.Note("modified path", mp)
	var val any
	var vb []byte
	switch t.W(70, 20, 5, 5) {
	case 0:
		val = g.scalar().v
	case 1:
		vb = []byte(g.fragment())
		val = vb
	case 2:
		val = nil
	case 3:
		val, _ = g.badValue()
	}
	t.Notef("value", "%T %v", val, val)
	keep := string(vb)
	wout, werr := xmldot.Set(src, mp, val)
	// the slice has spare room: an append in the library must not land in it
	roomy := append(make([]byte, 0, len(src)+256), src...)
	tail := roomy[len(src):cap(roomy)]
	for i := range tail {
		tail[i] = '#'
	}
	same := func(what string, out string, err error, wout string, werr error) {
		if out != wout || fmt.Sprint(err) != fmt.Sprint(werr) {
			t.Failf("variant", "%s gives %q, %v, the string call %q, %v", what, clip(out, 400), err, clip(wout, 400), werr)
		}
	}
	type held struct {
		what string
		b    []byte
		s    string
	}
	var outs []held
	hold := func(what string, b []byte, err error) {
		if err == nil {
			outs = append(outs, held{what, b, string(b)})
		}
	}
	if src == "" {
		// a nil slice is refused, an empty one is not
		buf = []byte{}
	}
	b, err := xmldot.SetBytes(buf, mp, val)
	same("SetBytes", string(b), err, wout, werr)
	hold("SetBytes", b, err)
	b, err = xmldot.SetBytes(roomy, mp, val)
	same("SetBytes", string(b), err, wout, werr)
	hold("SetBytes", b, err)
	for _, o := range def() {
		s, err := xmldot.SetWithOptions(src, mp, val, o)
		same("SetWithOptions", s, err, wout, werr)
		b, err = xmldot.SetBytesWithOptions(buf, mp, val, o)
		same("SetBytesWithOptions", string(b), err, wout, werr)
		hold("SetBytesWithOptions", b, err)
	}
	if werr == nil {
		t.Nontrivial(src, mp, fmt.Sprint(val))
		t.Label("successful set")
	} else {
		t.Label("refused set")
	}
	paths, vals := []string{mp, mp}, []any{val, val}
	ms, merr := xmldot.SetMany(src, paths, vals)
	b, err = xmldot.SetManyBytes(buf, paths, vals)
	same("SetManyBytes", string(b), err, ms, merr)
	hold("SetManyBytes", b, err)
	b, err = xmldot.SetManyBytes(roomy, paths, vals)
	same("SetManyBytes", string(b), err, ms, merr)
	hold("SetManyBytes", b, err)
	if len(paths) != 2 || paths[0] != mp || paths[1] != mp || fmt.Sprintf("%#v", vals) != fmt.Sprintf("%#v", []any{val, val}) {
		t.Failf("input-modified", "SetMany changes its lists: %q, %v", paths, vals)
	}
	if string(vb) != keep {
		t.Failf("input-modified", "a set changes the caller's value bytes")
	}

	dout, derr := xmldot.Delete(src, mp)
	b, err = xmldot.DeleteBytes(buf, mp)
	same("DeleteBytes", string(b), err, dout, derr)
	hold("DeleteBytes", b, err)
	b, err = xmldot.DeleteBytes(roomy, mp)
	same("DeleteBytes", string(b), err, dout, derr)
	hold("DeleteBytes", b, err)
	for _, o := range def() {
		b, err = xmldot.DeleteBytesWithOptions(buf, mp, o)
		same("DeleteBytesWithOptions", string(b), err, dout, derr)
		hold("DeleteBytesWithOptions", b, err)
	}
	var dpaths []string
	switch t.N(4) {
	case 0:
		dpaths = []string{mp, ps, mp}
	case 1:
		dpaths = []string{mp, mp, ps}
	case 2:
		dpaths = []string{ps, mp, ps, mp, "nosuch.path", ps}
	default:
		for n := t.Int(1, 8); n > 0; n-- {
			dpaths = append(dpaths, pick(t, []string{mp, ps, "nosuch", g.spellPath(g.path(d, PathOpt{}))}))
		}
	}
	room := append(append(make([]string, 0, len(dpaths)+2), dpaths...), "spare1", "spare2")
	dkeep := slices.Clone(room)
	dpaths = room[:len(dpaths)]
	ds, derr2 := xmldot.DeleteMany(src, dpaths...)
	b, err = xmldot.DeleteManyBytes(buf, dpaths...)
	same("DeleteManyBytes", string(b), err, ds, derr2)
	hold("DeleteManyBytes", b, err)
	if !slices.Equal(room, dkeep) {
		t.Failf("input-modified", "DeleteMany changes its list: %q, was %q", room, dkeep)
	}
	if string(buf) != src || string(roomy) != src {
		t.Failf("input-modified", "a modification changes the caller's bytes")
	}
	if !bytes.Equal(tail, bytes.Repeat([]byte{'#'}, len(tail))) {
		t.Failf("input-modified", "a modification writes behind the caller's bytes")
	}
	// outputs are the caller's own
	shout(buf)
	shout(roomy)
	shout(vb)
	for _, h := range outs {
		if string(h.b) != h.s {
			t.Failf("alias", "the output of %s changes with the caller's bytes", h.what)
		}
	}
	for _, h := range outs {
		shout(h.b)
	}
	shout(buf)
	if string(buf) != src {
		t.Failf("alias", "writing to an output changes the input")
	}
}

func runRepeat(t *T) {
	g := newG(t)
	var d *Doc
	if t.Chance(50) {
		// many attributes
		g.attrs = []string{"id", "a", "b", "c", "d", "e", "x:f", "g", "h", "A", "ID", "B"}
		d = g.docOf([]*Node{g.wide(3)})
	} else {
		d = g.anyDoc()
	}
	src := d.Src
	bad := false
	if t.Chance(10) {
		src, _ = g.corrupt(src, d.Kids, true)
		bad = true
	}
	ps := g.spellPath(g.path(d, allSteps))
	if t.Chance(15) {
		ps = g.oddPath(d)
	}
	if n := g.target(d); n != nil && len(n.Attrs) > 0 && t.Chance(40) {
		ps = pathString(g.editPath(d)) + pick(t, []string{".@id", ".@ID", ".@*", ".@a", ".@A", "|@pretty", "|@ugly", "|@raw", "|@sort", "|@values", ".**.@id", ".*.@a"})
	}
	mp := pathString(g.editPath(d)) + pick(t, []string{"", ".@id", ".@A", ".new", ".-1", ".new.@b"})
	v := g.scalar()
	noteQuery(t, src, ps)
	t.Note("modified path", mp)
	o := g.options()
	o.CaseSensitive = t.Bool()
	run := func() []string {
		var out []string
		add := func(what string, s string) { out = append(out, what+": "+s) }
		r := xmldot.Get(src, ps)
		add("Get", fmt.Sprintf("%v %q %q %d %v %d", r.Type, r.Str, r.Raw, r.Index, r.Num, len(r.Results)))
		r2 := xmldot.GetWithOptions(src, ps, o)
		add("GetWithOptions", fmt.Sprintf("%v %q %q %d %v %d", r2.Type, r2.Str, r2.Raw, r2.Index, r2.Num, len(r2.Results)))
		for _, x := range append(r.Results, r2.Results...) {
			add("item", fmt.Sprintf("%v %q %q %d %v", x.Type, x.Str, x.Raw, x.Index, x.Num))
		}
		r3 := r.Get("@id")
		add("Result.Get", fmt.Sprintf("%v %q", r3.Type, r3.Str))
		s, err := xmldot.Set(src, mp, v.v)
		add("Set", fmt.Sprint(s, err))
		s, err = xmldot.SetWithOptions(src, mp, v.v, o)
		add("SetWithOptions", fmt.Sprint(s, err))
		s, err = xmldot.Delete(src, mp)
		add("Delete", fmt.Sprint(s, err))
		b, err := xmldot.DeleteBytesWithOptions([]byte(src), mp, o)
		add("DeleteBytesWithOptions", fmt.Sprint(string(b), err))
		s, err = xmldot.SetMany(src, []string{mp, mp}, []any{1, v.v})
		add("SetMany", fmt.Sprint(s, err))
		add("ValidateWithError", fmt.Sprint(xmldot.ValidateWithError(src)))
		return out
	}
	first := run()
	for i := 0; i < 4; i++ {
		for k, s := range run() {
			if s != first[k] {
				t.Failf("not-repeatable", "the same call gives different results\n%s\n%s", clip(first[k], 1200), clip(s, 1200))
			}
		}
	}
	if bad {
		t.Label("malformed")
	}
	t.Nontrivial(src, ps, mp)
}

// wide is a tree whose elements have many attributes.
func (g *G) wide(depth int) *Node {
	t := g.t
	n := &Node{Kind: Elem, Name: pick(t, g.names)}
	for _, a := range g.attrs {
		if t.Chance(70) {
			n.Attrs = append(n.Attrs, Attr{a, g.word()})
		}
	}
	if depth > 0 {
		for k := t.N(3); k > 0; k-- {
			n.Kids = append(n.Kids, g.wide(depth-1))
		}
	}
	return n
}

func runRaw(t *T) {
	g := newG(t)
	g.noise = pick(t, []int{30, 15, 0})
	d := g.editDoc()
	p := g.editPath(d)
	if t.Chance(30) {
		p = join(p, g.freshNames(1, 2))
	}
	cur, rest := resolve(Eval{}, d, p)
	if !creatable(rest) {
		t.Label("missing index")
		return
	}
	f := g.fragment()
	if f == "" && t.Chance(70) {
		f = g.fragment()
	}
	ps := pathString(p)
	app := t.Chance(20) && p[len(p)-1].Kind == SElem
	if app {
		ps += ".-1"
	}
	if t.Chance(45) {
		ns, _ := parseXML(f, true)
		bad, k := g.corrupt(f, ns, false)
		if t.Chance(8) {
			at := pick(t, []int{0, len(f)})
			if es := allElems(ns); len(es) > 0 {
				n := pick(t, es)
				at = pick(t, []int{n.Start, n.End, n.OpenEnd})
			}
			bad, k = f[:at]+pick(t, []string{"<!DOCTYPE a>", "<!doctype a [<!ENTITY b 'c'>]>", "<!ENTITY b 'c'>", "<!entity b 'c'>", "<!DocType a>"})+f[at:], "declaration"
		}
		noteQuery(t, d.Src, ps)
		t.Note("fragment", bad)
		t.Nontrivial(d.Src, ps, bad)
		t.Label("corrupted: " + k)
		out, err := xmldot.SetRaw(d.Src, ps, bad)
		refused(t, fmt.Sprintf("SetRaw(%q) of %q (%s)", ps, clip(bad, 300), k), d.Src, out, err, "value")
		return
	}
	noteQuery(t, d.Src, ps)
	t.Note("fragment", f)
	if f != "" {
		t.Nontrivial(d.Src, ps, f)
	}
	what := fmt.Sprintf("SetRaw(%q) of %q", ps, clip(f, 300))
	out, err := xmldot.SetRaw(d.Src, ps, f)
	must(t, what, err)
	if !strings.Contains(out, f) {
		t.Failf("not-verbatim", "%s: the fragment is not in the output %q", what, clip(out, 600))
	}
	if !xmldot.Valid(out) {
		t.Failf("invalid", "%s gives an invalid document", what)
	}
	v := Val{text: f, raw: true}
	last := ps
	switch {
	case app:
		n := 0
		checkEdit(t, what, d, Eval{}, 1, p, "", v, out, false)
		nd := mustParse(out)
		q := p[:len(p)-1]
		par, r := resolve(Eval{}, nd, q)
		if len(r) > 0 {
			t.Failf("created", "%s: the parent is not there", what)
		}
		level := nd.roots()
		if par != nil {
			level = par.elems()
		}
		n = len(Eval{}.matching(level, p[len(p)-1].Name)) - 1
		last = pathString(join(p, []Seg{{Kind: SIndex, Idx: n}}))
		t.Label("appended")
	case len(rest) > 0:
		checkEdit(t, what, d, Eval{}, 0, p, "", v, out, false)
		t.Label("created")
	default:
		checkSetElem(t, what, d, cur, v, out)
		t.Label("replaced")
	}
	got := xmldot.Get(out, last)
	if got.Type != xmldot.Element {
		t.Failf("read-back", "%s: %v at the path afterwards", what, got.Type)
	}
	// the fragment's elements are reachable
	ns, _ := parseXML(f, true)
	if es := elemsOf(ns); len(es) > 0 {
		e := pick(t, es)
		name := e.Name
		idx := g.indexOf(e, es, name)
		ep := last + "." + escName(name) + "." + strconv.Itoa(idx)
		r := xmldot.Get(out, ep)
		if r.Type != xmldot.Element || r.Str != strings.TrimSpace(e.allText()) {
			t.Failf("read-back", "%s: %q reads %v %q, expected %q", what, ep, r.Type, clip(r.Str, 300), clip(strings.TrimSpace(e.allText()), 300))
		}
		t.Label("element read back")
	}
}
