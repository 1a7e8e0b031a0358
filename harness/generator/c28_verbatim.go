package generator

import (
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/verifrt"
)

// verifPage turns a page into HTML and returns it with all evaluated templates, rendered formulas and images.
func verifPage(page string, template string) (html string, templates, formulas, images []string, err error) {
	return verifPageTemplates(page, func(string) string { return template })
}

func verifPageTemplates(page string, eval func(string) string) (html string, templates, formulas, images []string, err error) {
	service := verifService(func(t string) string {
		templates = append(templates, t)
		return eval(t)
	})
	service.RenderMathFunc = func(math string) (string, string, error) {
		formulas = append(formulas, math)
		return "m.svg", config.Current.CacheDir + "/math/m.png", nil
	}
	tokenizer := parser.NewTokenizer(service)
	article, err := tokenizer.Tokenize(page, "T")
	if err != nil {
		return "", templates, formulas, nil, err
	}
	g := &HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: service}
	html, err = expand(g, article.Content)
	return html, templates, formulas, article.Images, err
}

const verifNeutral = "qzq"

// verifVerbatim compares a page with an area of the given content with the same page with a neutral text in it.
func verifVerbatim(content string, math bool) {
	open, end := "<nowiki>", "</nowiki>"
	if math {
		open, end = "<math>", "</math>"
		if verifrt.Bool("attribute") {
			open = `<math display="block">`
		}
	} else if verifrt.Bool("upper case") {
		open = "<NoWiki>"
	}
	place := [][2]string{
		{"a ", " b"},
		{"a\n", "\nb"},
		{"", ""},
		{"a\n\n", "\n\nb\n"},
		{"* ", "\n* b"},
		{"; a : ", "\nb"},
		{"== ", " ==\nb"},
		{"{|\n| a || ", "\n|-\n! b\n|}"},
		{"{|\n|+ ", "\n| b\n|}"},
		{"[[L|", "]] b"},
		{"[http://x ", "] b"},
		{"a<ref>", "</ref> b<ref name=\"c\" />\n<references>\n<ref name=\"c\">d</ref>\n</references>"},
		{"'''", "''' ''b''"},
		{"[[f:a.jpg|mini|", "]] b"},
		{"<gallery>\nf:a.jpg|", "\n</gallery>"},
		{"{{t}} ", " {{u|x}}"},
		{"[[c:x]]<!-- x -->", "<!-- y -->[[y]]"},
		{"{{", "}}"},
	}[verifrt.Choice("place", 18)]
	template := "t"
	page := func(c string) string {
		if place[0] == "{{" {
			// part of what a template yields
			template = "r " + open + c + end + " s"
			return "a {{t}} b"
		}
		return place[0] + open + c + end + place[1]
	}
	want, templates0, formulas0, images0, err := verifPage(page(verifNeutral), template)
	if place[0] == "{{" {
		want, templates0, formulas0, images0, err = verifPage("a {{t}} b", template)
	}
	verifrt.Assert(err == nil, "the page with a neutral content is converted")
	p := page(content)
	html, templates, formulas, images, err := verifPage(p, template)
	verifrt.Observe("page", p)
	verifrt.Assert(err == nil, "the page is converted")
	if err != nil {
		return
	}
	verifrt.Observe("html", html)
	verifrt.Reach("page")
	if math {
		verifrt.Assert(len(formulas0) == 1 && formulas0[0] == verifNeutral, "the neutral formula is rendered")
		verifrt.Assert(len(formulas) == 1, "exactly one formula is rendered")
		if len(formulas) == 1 {
			verifrt.Observe("formula", formulas[0])
			verifrt.Assert(formulas[0] == content, "the formula is rendered exactly as it is written")
		}
	} else {
		verifrt.Assert(len(formulas) == 0, "no formula is rendered")
		verifrt.Assert(strings.Count(want, verifNeutral) == 1, "the neutral text is shown once")
		want = strings.Replace(want, verifNeutral, content, 1)
	}
	verifrt.Assert(html == want, "the content is shown unchanged and nothing else changes")
	verifrt.Assert(verifSame(templates, templates0), "nothing within the area is evaluated as template")
	verifrt.Assert(verifSame(images, images0), "nothing within the area becomes an image")
}

func verifSame(a, b []string) bool {
	return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b)
}

var verifVerbatimWords = []string{"?", "{{t|", "}}", "[[", "]]", "[[c:x]]", "[[f:a.jpg]]", "''", "\n", "\n\n", "* ", "== x ==", "'''x'''", "{|", "|-", "|}", "<!--", "-->", "<ref>", "</ref>", "[http://x", "]", "__NOTOC__", " ", "x", "$"}

// VerifVerbatimNowiki: nowiki areas with any content at any place.
func VerifVerbatimNowiki() {
	verifConfig()
	verifVerbatim(verifWords("w", verifrt.Param("k", 2), "-<>{}[]|:=*#;'ax", append([]string{"<math>", "</math>"}, verifVerbatimWords...)...), false)
}

// VerifVerbatimMath: formulas with any content at any place.
func VerifVerbatimMath() {
	verifConfig()
	verifVerbatim(verifWords("w", verifrt.Param("k", 2), "-<>{}[]|:=*#;'ax", append([]string{"<nowiki>", "</nowiki>", "\\frac{{a}}{b}"}, verifVerbatimWords...)...), true)
}

// VerifVerbatimBytes: areas with any bytes.
func VerifVerbatimBytes() {
	verifConfig()
	c := verifrt.StrMax("content", 0, verifrt.Param("n", 2), "")
	math := verifrt.Bool("formula")
	html, _, formulas, _, err := verifPage("a "+map[bool]string{true: "<math>" + c + "</math>", false: "<nowiki>" + c + "</nowiki>"}[math]+" b", "t")
	verifrt.Assert(err == nil, "the page is converted")
	if math {
		verifrt.Assert(len(formulas) == 1 && formulas[0] == c, "the formula is rendered exactly as it is written")
	} else {
		verifrt.Assert(html == "a "+c+" b", "the content is shown unchanged")
	}
	verifrt.Reach("page")
}

// VerifVerbatimPages: any sequence of areas, comments, templates, links and texts, possibly with an unclosed area.
func VerifVerbatimPages() {
	verifConfig()
	page, want := "", ""
	var wantTemplates, wantFormulas []string
	template := ""
	img := func(f string) string {
		wantFormulas = append(wantFormulas, f)
		return `<img alt="image" src="./math/m.png" style="width: 1ex; height: 2ex; s">`
	}
	n := verifrt.Choice("pieces", verifrt.Param("k", 3)+1)
	for i := 0; i < n; i++ {
		num := strconv.Itoa(i)
		b := verifrt.Str("text", 1, "xyz{}[]'<>!/-$")
		switch verifrt.Choice("piece", 10) {
		case 0:
			page, want = page+"<nowiki>"+num+b+"</nowiki>", want+num+b
		case 1:
			page, want = page+"<math>"+num+b+"</math>", want+img(num+b)
		case 2:
			page, want = page+"<NOWIKI>{{x}}"+b+"<math>y</NOWIKI>", want+"{{x}}"+b+"<math>y"
		case 3:
			page, want = page+"<math>[[c:x]]{{"+b+"</math>", want+img("[[c:x]]{{"+b)
		case 4:
			page += "<!-- <nowiki> <math>" + num + " -->"
		case 5:
			t := "{{t" + num + "|<nowiki>q</nowiki><math>f</math>}}"
			page, want = page+t, want+"T"
			wantTemplates = append(wantTemplates, t)
			template = "T"
		case 6:
			page, want = page+" [[l"+num+"]] ", want+" l"+num+" "
		case 7:
			page, want = page+" k"+num+"\n", want+" k"+num+"\n"
		case 8:
			page += "[[c:" + num + "]]"
		case 9:
			page, want = page+"<nowiki></nowiki>", want
		}
	}
	switch verifrt.Choice("end", 4) {
	case 1:
		page, want = page+" <nowiki> e", want+" <nowiki> e"
	case 2:
		page, want = page+" <math> [[e]]", want+" <math> e"
	case 3:
		page, want = page+" </nowiki> <nowiki/> [[c:e]]<!-- e", want+" </nowiki> <nowiki/> <!-- e"
	}
	html, templates, formulas, _, err := verifPage(page, template)
	verifrt.Observe("page", page)
	verifrt.Assert(err == nil, "the page is converted")
	if err != nil {
		return
	}
	verifrt.Observe("html", html)
	verifrt.Reach("page")
	trim := func(s string) string {
		// blanks around lines do not matter here
		lines := strings.Split(s, "\n")
		for i, l := range lines {
			lines[i] = strings.TrimSpace(l)
		}
		return strings.TrimSpace(strings.Join(lines, "\n"))
	}
	verifrt.Assert(trim(html) == trim(want), "every area is shown unchanged, everything else is treated as usual")
	verifrt.Assert(verifSame(templates, wantTemplates), "exactly the templates outside of areas are evaluated")
	verifrt.Assert(verifSame(formulas, wantFormulas), "exactly the formulas are rendered, as they are written")
}
