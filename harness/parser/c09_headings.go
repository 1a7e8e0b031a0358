package parser

import (
	"strings"

	"wiki2book/verifrt"
)

// verifHeading is the specification: depth and text of the heading in a line (depth 0: no heading).
func verifHeading(line string) (int, string) {
	s := strings.Trim(line, " ")
	p := 0
	for p < len(s) && s[p] == '=' {
		p++
	}
	if p == len(s) {
		// only equals signs: the signs in the middle are the text
		p = (len(s) - 1) / 2
	}
	q := 0
	for q < len(s) && s[len(s)-1-q] == '=' {
		q++
	}
	d := p
	if q < d {
		d = q
	}
	if d > 7 {
		d = 7
	}
	if d <= 0 {
		return 0, ""
	}
	return d, strings.Trim(s[d:len(s)-d], " ")
}

func verifHeadingPage(lines []string) {
	t := verifTokenizer(nil)
	article, err := t.Tokenize("x\n"+strings.Join(lines, "\nx\n")+"\nx", "T")
	verifrt.Assert(err == nil, "no error")
	verifrt.Observe("content", article.Content)
	got := strings.Split(article.Content, "\n")
	nh := 0
	for _, line := range lines {
		if d, _ := verifHeading(line); d > 0 {
			nh++
		}
	}
	keys := 0
	for _, tok := range article.TokenMap {
		if _, ok := tok.(HeadingToken); ok {
			keys++
		}
	}
	verifrt.Assert(keys == nh, "exactly the heading lines become headings")
	pos := 0
	for _, line := range lines {
		d, text := verifHeading(line)
		if d == 0 {
			continue
		}
		// the next heading in the article
		for pos < len(got) && !strings.HasPrefix(got[pos], "$$TOKEN_HEADING_") {
			pos++
		}
		verifrt.Assert(pos < len(got), "every heading line is a heading in the article, in order")
		if pos >= len(got) {
			return
		}
		h, ok := article.TokenMap[got[pos]].(HeadingToken)
		verifrt.Assert(ok, "heading token")
		verifrt.Assert(h.Depth == d, "the depth is the number of equals signs")
		verifrt.Assert(strings.Trim(verifResolve(article, h.Content), " ") == text, "the heading has exactly the text between the equals signs")
		pos++
	}
	verifrt.Reach("headings")
}

// VerifHeadingLine: any line of up to n characters.
func VerifHeadingLine() {
	verifConfig()
	line := verifrt.StrMax("line", 1, verifrt.Param("n", 8), "= ax\"-#")
	verifrt.Assume(strings.Trim(line, " ") != "")
	verifHeadingPage([]string{line})
}

// VerifHeadingDepths: headings of any depth with symbolic text, two in a page.
func VerifHeadingDepths() {
	verifConfig()
	var lines []string
	n := verifrt.Param("lines", 2)
	for i := 0; i < n; i++ {
		d := verifrt.Choice("depth", 9)
		e := verifrt.Choice("end", 9)
		text := verifrt.Str("text", verifrt.Param("text", 3), verifPlain+"= -")
		verifrt.Assume(strings.Trim(text, " =") != "")
		lines = append(lines, strings.Repeat("=", d)+text+strings.Repeat("=", e))
	}
	verifHeadingPage(lines)
}
