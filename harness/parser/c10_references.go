package parser

import (
	"strconv"
	"strings"

	"wiki2book/verifrt"
)

type verifGroup struct {
	counter int
	names   map[string]int
	content map[int]string
}

// verifRefs is the reference behaviour: numbering per group in order of first appearance.
type verifRefs struct {
	groups          map[string]*verifGroup
	quoted, swapped bool   // spelling of attributes
	chars           string // of texts
	lead            string // of all texts
}

func newVerifRefs() *verifRefs {
	return &verifRefs{map[string]*verifGroup{}, verifrt.Bool("quoted"), verifrt.Bool("swapped"), verifPlain + ":=-|", "t"}
}

func (r *verifRefs) group(name string) *verifGroup {
	g := r.groups[name]
	if g == nil {
		g = &verifGroup{names: map[string]int{}, content: map[int]string{}}
		r.groups[name] = g
	}
	return g
}

func (g *verifGroup) number(name string) int {
	if name != "" {
		if n, ok := g.names[name]; ok {
			return n
		}
	}
	n := g.counter
	g.counter++
	if name != "" {
		g.names[name] = n
	}
	return n
}

func (g *verifGroup) define(name, text string) int {
	n := g.number(name)
	g.content[n] = text
	return n
}

func (g *verifGroup) list() string {
	out := ""
	for n := 0; n < g.counter; n++ {
		if text, ok := g.content[n]; ok {
			out += "{" + strconv.Itoa(n) + "=" + text + "}"
			delete(g.content, n)
		}
	}
	return out
}

// verifShowRefs writes the page with the numbers of all uses and the entries of the lists.
func verifShowRefs(a *Article, s string) string {
	out := ""
	for {
		i := strings.Index(s, "$$TOKEN_")
		if i < 0 {
			return out + s
		}
		e := i + 2 + strings.Index(s[i+2:], "$$") + 2
		out += s[:i]
		switch t := a.TokenMap[s[i:e]].(type) {
		case NowikiToken:
			out += t.Content
		case RefUsageToken:
			out += "[" + strconv.Itoa(t.Index) + "]"
		case RefDefinitionToken:
			out += "{" + strconv.Itoa(t.Index) + "=" + verifShowRefs(a, t.Content) + "}"
		case HeadingToken:
			out += "(" + verifShowRefs(a, t.Content) + ")"
		default:
			verifrt.Assert(false, "only reference tokens expected")
		}
		s = s[e:]
	}
}

// attrs is any spelling of name and group attributes.
func (r *verifRefs) attrs(name, group string) string {
	quote := func(s string) string {
		if strings.Contains(s, " ") || r.quoted {
			return "\"" + s + "\""
		}
		return s
	}
	n, g := "", ""
	if name != "" {
		n = " name=" + quote(name)
	}
	if group != "" {
		g = " group=" + quote(group)
	}
	if n != "" && g != "" && r.swapped {
		return g + n
	}
	return n + g
}

// event is any of: a reference with text, a use, an empty definition (a use as well), a list, a heading with a reference.
func (r *verifRefs) event(groups, kinds int, names ...string) (string, string) {
	g := []string{"", "g"}[verifrt.Choice("group", groups)]
	text := r.lead + verifrt.Str("text", 1, r.chars)
	kind := verifrt.Choice("event", kinds)
	name := ""
	if kind < 3 {
		name = names[verifrt.Choice("name", len(names))]
	}
	switch kind {
	case 0: // definition, may be anonymous
		return "<ref" + r.attrs(name, g) + ">" + text + "</ref>", "[" + strconv.Itoa(r.group(g).define(name, text)) + "]"
	case 1: // use
		verifrt.Assume(name != "")
		return "<ref" + r.attrs(name, g) + " />", "[" + strconv.Itoa(r.group(g).number(name)) + "]"
	case 2: // empty definition
		verifrt.Assume(name != "")
		return "<ref" + r.attrs(name, g) + "></ref>", "[" + strconv.Itoa(r.group(g).number(name)) + "]"
	case 3: // list
		return "\n<references" + r.attrs("", g) + " />\nx", r.group(g).list() + "x"
	}
	return "\n== h<ref" + r.attrs("", g) + ">" + text + "</ref> ==\nx", "(h[" + strconv.Itoa(r.group(g).define("", text)) + "])x"
}

func (r *verifRefs) check(src, want string) {
	src += "\n<references />\n<references group=g />"
	want += r.group("").list() + r.group("g").list()
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	got := strings.ReplaceAll(strings.ReplaceAll(verifShowRefs(article, article.Content), "\n", ""), " ", "")
	verifrt.Observe("page", got)
	verifrt.Assert(got == strings.ReplaceAll(want, " ", ""), "every use has the number of its entry in the list, every text is listed once")
	verifrt.Reach("references")
}

// VerifReferences: any history of definitions, uses and lists, in any group.
func VerifReferences() {
	verifConfig()
	r := newVerifRefs()
	src, want := "x", "x"
	k := verifrt.Param("k", 3)
	for i := 0; i < k; i++ {
		s, w := r.event(2, 5, "", "a b", "c")
		src, want = src+s, want+w
	}
	r.check(src, want)
}

// VerifReferencesOneGroup: longer histories within one group.
func VerifReferencesOneGroup() {
	verifConfig()
	r := newVerifRefs()
	verifrt.Assume(!r.swapped)
	r.lead = []string{"t", "= "}[verifrt.Choice("lead", 2)]
	src, want := "", ""
	k := verifrt.Param("k", 4)
	for i := 0; i < k; i++ {
		s, w := r.event(1, 4, "", "a", "b")
		src, want = src+s, want+w
	}
	r.check(src, want)
}

// VerifReferencesBlock: definitions within the list itself.
func VerifReferencesBlock() {
	verifConfig()
	r := newVerifRefs()
	r.lead = "* ü"
	src, want := r.event(2, 2, "", "a", "b")
	for i := 0; i < verifrt.Param("blocks", 1); i++ {
		g := []string{"", "g"}[verifrt.Choice("group", 2)]
		sep := []string{"", "\n", " "}[verifrt.Choice("separator", 3)]
		src += "\n<references" + r.attrs("", g) + ">" + sep
		n := 1 + verifrt.Choice("definitions", verifrt.Param("definitions", 3))
		for j := 0; j < n; j++ {
			name := []string{"a", "b"}[verifrt.Choice("name", 2)]
			text := "u" + verifrt.Str("text", 1, r.chars) + "ä"
			if verifrt.Choice("kind", 2) == 0 {
				src += "<ref" + r.attrs(name, g) + ">" + text + "</ref>" + sep
				r.group(g).define(name, text)
			} else {
				src += "<ref" + r.attrs(name, g) + " />" + sep
				r.group(g).number(name)
			}
		}
		src += "</references>"
		want += r.group(g).list()
		s, w := r.event(2, 3, "", "a", "b")
		src, want = src+s, want+w
	}
	r.check(src, want)
}

// VerifReferenceNames: two references share a number exactly if their names are equal, however they are written.
func VerifReferenceNames() {
	verifConfig()
	attr := func(name string) string {
		lead := []string{" ", "\n", "  "}[verifrt.Choice("lead", 3)]
		eq := []string{"=", " = "}[verifrt.Choice("equals", 2)]
		switch verifrt.Choice("quotes", 3) {
		case 0:
			return lead + "name" + eq + "\"" + name + "\""
		case 1:
			return lead + "name" + eq + "'" + name + "'"
		}
		for i := 0; i < len(name); i++ {
			verifrt.Assume(name[i] != ' ' && name[i] != '/' && name[i] != '>')
		}
		return lead + "name" + eq + name
	}
	n := verifrt.Param("n", 3)
	a := "n" + verifrt.StrMax("a", 0, n, verifAlnum+" /-:.")
	b := "n" + verifrt.StrMax("b", 0, n, verifAlnum+" /-:.")
	src := "x<ref" + attr(a) + ">s</ref>y<ref" + attr(b) + " />\n<references />"
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	got := strings.ReplaceAll(verifShowRefs(article, article.Content), "\n", "")
	want := "x[0]y[1]{0=s}"
	if strings.Trim(a, " ") == strings.Trim(b, " ") {
		verifrt.Assume(a == b)
		want = "x[0]y[0]{0=s}"
	}
	verifrt.Assert(got == want, "references share a number exactly if their names are equal")
	verifrt.Reach("names")
}

// VerifReferencesMany: pages with many references.
func VerifReferencesMany() {
	verifConfig()
	verifrt.StepLimit(60000000)
	r := newVerifRefs()
	n := []int{12, verifrt.Param("many", 104)}[verifrt.Choice("number", 2)]
	p := []int{0, 9, 10, n - 1}[verifrt.Choice("position", 4)]
	group := []string{"", "g"}[verifrt.Choice("group", 2)]
	text := "t" + verifrt.Str("text", 1, verifPlain+":=-|")
	src, want := "x", "x"
	for i := 0; i < n; i++ {
		name := ""
		if i == p {
			name = "a b"
		}
		src += "<ref" + r.attrs(name, group) + ">" + text + "</ref>"
		want += "[" + strconv.Itoa(r.group(group).define(name, text)) + "]"
	}
	src += "<ref" + r.attrs("a b", group) + " />"
	want += "[" + strconv.Itoa(r.group(group).number("a b")) + "]"
	r.check(src, want)
}
