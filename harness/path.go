package main

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

type SegKind int

const (
	SElem SegKind = iota
	SAttr
	SText
	SIndex
	SCount
	SField
	SStar
	SStarStar
	SFilter
	SFilterAll
)

type Cond struct {
	Path []Seg  // attribute or dotted path
	Op   string // "" = exists
	Val  string
	// spelling
	PathStr string
	Quote   string
	Sp      [4]string
}

type Seg struct {
	Kind SegKind
	Name string
	Idx  int
	Cond *Cond
	Mods []string
}

func (s Seg) String() string {
	switch s.Kind {
	case SElem:
		return s.Name
	case SAttr:
		return "@" + s.Name
	case SText:
		return "%"
	case SIndex:
		return strconv.Itoa(s.Idx)
	case SCount:
		return "#"
	case SField:
		return "#." + s.Name
	case SStar:
		return "*"
	case SStarStar:
		return "**"
	}
	return "#(...)"
}

func escName(n string) string { return strings.ReplaceAll(n, ".", `\.`) }

func (c *Cond) String() string {
	ps := c.PathStr
	if ps == "" {
		// conditions lose one level of escapes when the whole path is split
		ps = strings.ReplaceAll(pathString(c.Path), `\`, `\\`)
	}
	if c.Op == "" {
		return c.Sp[0] + ps + c.Sp[3]
	}
	return c.Sp[0] + ps + c.Sp[1] + c.Op + c.Sp[2] + c.Quote + c.Val + c.Quote + c.Sp[3]
}

// pathString is the plain spelling of a path.
func pathString(p []Seg) string {
	var b strings.Builder
	for i, s := range p {
		if i > 0 {
			b.WriteByte('.')
		}
		switch s.Kind {
		case SElem:
			b.WriteString(escName(s.Name))
		case SAttr:
			b.WriteString("@" + escName(s.Name))
		case SText:
			b.WriteString("%")
		case SIndex:
			b.WriteString(strconv.Itoa(s.Idx))
		case SCount:
			b.WriteString("#")
		case SField:
			b.WriteString("#." + escName(s.Name))
		case SStar:
			b.WriteString("*")
		case SStarStar:
			b.WriteString("**")
		case SFilter:
			b.WriteString("#(" + s.Cond.String() + ")")
		case SFilterAll:
			b.WriteString("#(" + s.Cond.String() + ")#")
		}
		for _, m := range s.Mods {
			b.WriteString("|@" + m)
		}
	}
	return b.String()
}

// R is the model's result.
type R struct {
	Type  xmldot.Type
	Str   string
	El    *Node
	Num   float64
	Items []R
	lax   bool // a missing result and an empty array are both right
	amb   bool // sorted with ties: only the shape is determined
}

var null = R{}

func (r R) isNull() bool { return r.Type == xmldot.Null }

func (r R) text() string {
	switch r.Type {
	case xmldot.Null:
		return ""
	case xmldot.Number:
		if r.Str != "" {
			return r.Str
		}
		return strconv.FormatFloat(r.Num, 'f', -1, 64)
	case xmldot.Array:
		var b strings.Builder
		b.WriteByte('[')
		for i, it := range r.Items {
			if i > 0 {
				b.WriteByte(',')
			}
			s := strings.ReplaceAll(it.text(), `\`, `\\`)
			b.WriteString(`"` + strings.ReplaceAll(s, `"`, `\"`) + `"`)
		}
		b.WriteByte(']')
		return b.String()
	}
	return r.Str
}

// Eval evaluates paths on the tree.
type Eval struct {
	fold bool // names compare ignoring ASCII case
}

const maxResults = 1000

func (e Eval) eqName(a, b string) bool {
	if e.fold {
		return strings.ToLower(a) == strings.ToLower(b)
	}
	return a == b
}

// matches: a segment with a prefix names the element exactly, one without matches the local name.
func (e Eval) matches(n *Node, name string) bool {
	if strings.Contains(name, ":") {
		return e.eqName(n.Name, name)
	}
	return e.eqName(localName(n.Name), name)
}

func (e Eval) matching(level []*Node, name string) []*Node {
	var out []*Node
	for _, n := range level {
		if e.matches(n, name) {
			out = append(out, n)
		}
	}
	return out
}

func elemR(n *Node) R { return R{Type: xmldot.Element, Str: strings.TrimSpace(n.allText()), El: n} }

func (e Eval) attrR(n *Node, name string) R {
	for _, a := range n.Attrs {
		if a.Name == name {
			return R{Type: xmldot.Attribute, Str: a.Val}
		}
	}
	if e.fold {
		for _, a := range n.Attrs {
			if e.eqName(a.Name, name) {
				return R{Type: xmldot.Attribute, Str: a.Val}
			}
		}
	}
	return null
}

func textR(n *Node) R { return R{Type: xmldot.String, Str: strings.TrimSpace(n.directText())} }

// Get evaluates a whole path, modifiers included.
func (e Eval) Get(roots []*Node, p []Seg) R {
	if len(p) == 0 {
		return null
	}
	r := e.level(roots, p, true)
	mods := p[len(p)-1].Mods
	if r.isNull() || len(mods) == 0 {
		return r
	}
	return applyMods(r, mods)
}

// level evaluates p (non-empty) on the sibling elements level.
func (e Eval) level(level []*Node, p []Seg, root bool) R {
	s, rest := p[0], p[1:]
	switch s.Kind {
	case SElem, SStar, SFilter, SFilterAll:
	case SStarStar:
		if len(rest) == 0 {
			return null
		}
		var out []R
		e.deep(level, rest, &out)
		return pack(out)
	default:
		return null
	}
	switch s.Kind {
	case SFilter, SFilterAll:
		return e.filtered(level, p)
	case SStar:
		var out []R
		field := false
		for _, n := range level[:min(len(level), maxResults)] {
			r := e.at(n, rest)
			field = field || r.Type == xmldot.Array && len(r.Items) == 0
			add(&out, r)
		}
		if len(out) == 0 && field {
			return R{Type: xmldot.Array}
		}
		return pack(out)
	}
	ms := e.matching(level, s.Name)
	if len(rest) > 0 {
		switch rest[0].Kind {
		case SIndex:
			if rest[0].Idx < 0 || rest[0].Idx >= len(ms) || rest[0].Idx >= maxResults {
				return null
			}
			return e.at(ms[rest[0].Idx], rest[1:])
		case SCount:
			if len(ms) == 0 {
				return null
			}
			c := min(len(ms), maxResults)
			return R{Type: xmldot.Number, Num: float64(c), Str: strconv.Itoa(c)}
		case SField:
			if len(ms) == 0 && root {
				return R{lax: true}
			}
			return e.field(ms, rest[0].Name)
		case SFilter, SFilterAll:
			return e.filtered(ms, rest)
		}
	}
	for _, n := range ms {
		r := e.at(n, rest)
		if !r.isNull() || len(rest) > 0 && rest[0].Kind == SAttr {
			return r
		}
	}
	return null
}

// at evaluates the rest of a path at element n.
func (e Eval) at(n *Node, rest []Seg) R {
	if len(rest) == 0 {
		return elemR(n)
	}
	switch rest[0].Kind {
	case SAttr:
		return e.attrR(n, rest[0].Name)
	case SText:
		return textR(n)
	}
	return e.level(n.elems(), rest, false)
}

// field extracts a child, attribute or the text from every element.
func (e Eval) field(ms []*Node, name string) R {
	r := R{Type: xmldot.Array}
	if len(ms) > maxResults {
		ms = ms[:maxResults]
	}
	for _, m := range ms {
		switch {
		case name == "%":
			if x := textR(m); x.Str != "" {
				r.Items = append(r.Items, x)
			}
		case name[0] == '@':
			if a := e.attrR(m, name[1:]); !a.isNull() {
				r.Items = append(r.Items, a)
			}
		default:
			for _, k := range m.elems() {
				if e.eqName(k.Name, name) {
					r.Items = append(r.Items, elemR(k))
				}
			}
		}
	}
	if len(r.Items) > maxResults {
		r.Items = r.Items[:maxResults]
	}
	return r
}

// filtered: p[0] is the filter, level are its candidates.
func (e Eval) filtered(level []*Node, p []Seg) R {
	s, rest := p[0], p[1:]
	var ms []*Node
	for _, n := range level {
		if e.holds(n, s.Cond) {
			ms = append(ms, n)
			if s.Kind == SFilter {
				break
			}
		}
	}
	if len(ms) == 0 {
		return null
	}
	if len(rest) > 0 && rest[0].Kind == SField {
		return e.field(ms, rest[0].Name)
	}
	if s.Kind == SFilter {
		return e.at(ms[0], rest)
	}
	var out []R
	for _, n := range ms {
		add(&out, e.at(n, rest))
	}
	if len(rest) == 0 {
		return R{Type: xmldot.Array, Items: out}
	}
	return pack(out)
}

func add(out *[]R, r R) {
	switch r.Type {
	case xmldot.Null:
	case xmldot.Array:
		*out = append(*out, r.Items...)
	default:
		*out = append(*out, r)
	}
	if len(*out) > maxResults {
		*out = (*out)[:maxResults]
	}
}

func pack(out []R) R {
	switch len(out) {
	case 0:
		return null
	case 1:
		return out[0]
	}
	return R{Type: xmldot.Array, Items: out}
}

// deep: descendants before the element itself.
func (e Eval) deep(level []*Node, rest []Seg, out *[]R) {
	for _, n := range level {
		e.deep(n.elems(), rest, out)
		e.deepAt(n, rest, out)
	}
}

func (e Eval) deepAt(n *Node, rest []Seg, out *[]R) {
	s := rest[0]
	last := len(rest) == 1
	switch s.Kind {
	case SElem:
		if !e.matches(n, s.Name) {
			return
		}
	case SStar:
	default:
		return
	}
	if last {
		add(out, elemR(n))
		return
	}
	switch rest[1].Kind {
	case SField:
		add(out, e.field([]*Node{n}, rest[1].Name))
		return
	}
	add(out, e.at(n, rest[1:]))
}

var numRE = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func number(s string) (float64, bool) {
	if !numRE.MatchString(s) {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

func (e Eval) holds(n *Node, c *Cond) bool {
	var r R
	if c.Path[0].Kind == SAttr {
		r = e.attrR(n, c.Path[0].Name)
	} else {
		r = e.level(n.elems(), c.Path, true)
	}
	if r.isNull() {
		return false
	}
	v := r.text()
	switch c.Op {
	case "":
		return true
	case "==":
		return v == c.Val
	case "!=":
		return v != c.Val
	case "%", "!%":
		if overLimit(v, c.Val) {
			return false // beyond the published work limit
		}
		return glob(v, c.Val) == (c.Op == "%")
	}
	a, ok1 := number(v)
	b, ok2 := number(c.Val)
	if !ok1 || !ok2 {
		return false
	}
	switch c.Op {
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	case ">=":
		return a >= b
	}
	bug("operator %q", c.Op)
	return false
}

// glob matches by dynamic programming over runes.
func glob(s, pat string) bool {
	type tok struct {
		r         rune
		any, star bool
	}
	var toks []tok
	rs := []rune(pat)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '*':
			toks = append(toks, tok{star: true})
		case '?':
			toks = append(toks, tok{any: true})
		case '\\':
			if i+1 < len(rs) {
				i++
			}
			toks = append(toks, tok{r: rs[i]})
		default:
			toks = append(toks, tok{r: rs[i]})
		}
	}
	in := []rune(s)
	cur := make([]bool, len(in)+1)
	cur[0] = true
	for _, k := range toks {
		nxt := make([]bool, len(in)+1)
		if k.star {
			on := false
			for i := range cur {
				on = on || cur[i]
				nxt[i] = on
			}
		} else {
			for i, r := range in {
				nxt[i+1] = cur[i] && (k.any || r == k.r)
			}
		}
		cur = nxt
	}
	return cur[len(in)]
}

func applyMods(r R, mods []string) R {
	for i, m := range mods {
		if i >= 20 || r.isNull() {
			return null
		}
		switch m {
		case "reverse":
			if r.Type == xmldot.Array {
				out := make([]R, len(r.Items))
				for j, it := range r.Items {
					out[len(out)-1-j] = it
				}
				r.Items = out
			}
		case "sort":
			if r.Type == xmldot.Array {
				in := r.Items
				r.Items = sorted(in)
				r.amb = r.amb || ties(r.Items)
			}
		case "first", "last":
			if r.Type == xmldot.Array && len(r.Items) > 0 {
				amb, k := r.amb, 0
				if m == "last" {
					k = len(r.Items) - 1
				}
				r = r.Items[k]
				r.amb = r.amb || amb
			}
		case "flatten":
			if r.Type == xmldot.Array {
				var out []R
				for _, it := range r.Items {
					if it.Type == xmldot.Array {
						out = append(out, it.Items...)
					} else {
						out = append(out, it)
					}
				}
				if len(out) == 0 {
					return null
				}
				r.Items = out
			}
		case "pretty", "ugly":
		default:
			return null
		}
	}
	return r
}

// allNumbers decides how a list is sorted.
func allNumbers(in []R) bool {
	for _, it := range in {
		if _, err := strconv.ParseFloat(it.text(), 64); err != nil {
			return false
		}
	}
	return true
}

// ties: the order among different items with the same key is not stated.
func ties(in []R) bool {
	num := allNumbers(in)
	for i := 1; i < len(in); i++ {
		a, b := in[i-1], in[i]
		eq := a.text() == b.text()
		if num {
			x, _ := strconv.ParseFloat(a.text(), 64)
			y, _ := strconv.ParseFloat(b.text(), 64)
			eq = !(x < y)
		}
		if eq && (a.Type != b.Type || a.text() != b.text() || a.El != nil && b.El != nil && canon(a.El.Kids, true) != canon(b.El.Kids, true)) {
			return true
		}
	}
	return false
}

func sorted(in []R) []R {
	out := append([]R(nil), in...)
	num := allNumbers(in)
	sort.SliceStable(out, func(i, j int) bool {
		if num {
			a, _ := strconv.ParseFloat(out[i].text(), 64)
			b, _ := strconv.ParseFloat(out[j].text(), 64)
			return a < b
		}
		return out[i].text() < out[j].text()
	})
	return out
}
