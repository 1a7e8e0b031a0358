package generator

import (
	"strings"

	"wiki2book/verifrt"
)

type verifLine struct {
	source, html string
	kind         int // 0 = blank, 1 = text, 2 = consists of one element only, 3 = does not exist (comment)
}

func verifParagraphLine(kind int) verifLine {
	b := verifrt.Str("text", 1, "abcXYZ019.,?\"&()+/>@_~^")
	switch kind {
	case 0:
		return verifLine{"", "", 0}
	case 1:
		return verifLine{b, b, 1}
	case 2:
		return verifLine{"[[l]]", "l", 2}
	case 3:
		return verifLine{" \t", "", 0}
	case 4:
		return verifLine{b + " [[l]] y", b + " l y", 1}
	case 5:
		return verifLine{"[[l]] " + b, "l " + b, 1}
	case 6:
		return verifLine{"{|\n| c\n|}", "<div class=\"figure\">\n<table>\n<tr>\n<td>\nc\n</td>\n</tr>\n</table>\n<div class=\"caption\">\n</div>\n</div>", 2}
	case 7:
		return verifLine{"[[f:a.jpg|mini]]", "<div class=\"figure\">\n<img alt=\"image\" src=\"./images/A.jpg\" >\n<div class=\"caption\">\n</div>\n</div>", 2}
	case 8:
		return verifLine{"<!-- " + b + " -->", "", 3}
	case 9:
		return verifLine{"{{t}}", "", 0}
	case 10:
		return verifLine{"'''b''' ''" + b + "''", "<b>b</b> <i>" + b + "</i>", 1}
	case 11:
		return verifLine{"* i", "<ul>\n<li>\ni\n</li>\n</ul>", 2}
	case 12:
		return verifLine{"== h ==", "<h2>h</h2>", 2}
	case 13:
		return verifLine{"{{u}}", "p\n<br><br>\nq", 1}
	default:
		return verifLine{"<nowiki>n</nowiki>", "n", 2}
	}
}

// verifParagraphs compares the paragraphs of the given lines with the ones expected.
func verifParagraphs(lines []verifLine) {
	var source, want []string
	text, blank := false, false
	for _, l := range lines {
		source = append(source, l.source)
		switch l.kind {
		case 0:
			blank = true
			continue
		case 3:
			continue
		case 1:
			if text && blank {
				want = append(want, "<br><br>")
			}
		}
		text, blank = l.kind == 1, false
		want = append(want, l.html)
	}
	page := strings.Join(source, "\n")
	expected := strings.Join(want, "\n")
	switch verifrt.Choice("place", 3) {
	case 1:
		page = "{|\n|\n" + page + "\n|}"
		expected = "<div class=\"figure\">\n<table>\n<tr>\n<td>\n" + expected + "\n</td>\n</tr>\n</table>\n<div class=\"caption\">\n</div>\n</div>"
		for _, l := range lines {
			// keep to lines which are allowed here
			verifrt.Assume(!strings.HasPrefix(l.source, "==") && !strings.HasPrefix(l.source, "{|"))
		}
	case 2:
		verifrt.Assume(len(want) > 0)
		page = "z<ref>" + page + "</ref>\n\n<references />"
		expected = "z[1]\n[1] " + expected + "<br>"
		for _, l := range lines {
			verifrt.Assume(!strings.HasPrefix(l.source, "==") && !strings.HasPrefix(l.source, "{|") && !strings.HasPrefix(l.source, "*"))
		}
	}
	verifrt.Observe("page", page)
	html, _, _, _, err := verifPageTemplates(page, func(t string) string {
		if t == "{{u}}" {
			return "p\n\nq"
		}
		return ""
	})
	verifrt.Assert(err == nil, "the page is converted")
	verifrt.Observe("html", html)
	verifrt.Reach("page")
	verifrt.Assert(verifNonBlank(html) == verifNonBlank(expected), "texts are separated by exactly one paragraph break if there are blank lines between them, and by none otherwise")
}

// verifNonBlank removes blank lines and blanks around lines.
func verifNonBlank(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

// VerifParagraphKinds: any sequence of up to k lines of all kinds.
func VerifParagraphKinds() {
	verifConfig()
	n := verifrt.Choice("lines", verifrt.Param("k", 4)+1)
	var lines []verifLine
	for i := 0; i < n; i++ {
		lines = append(lines, verifParagraphLine(verifrt.Choice("kind", 15)))
	}
	for i, l := range lines {
		j := i + 1
		for j < len(lines) && lines[j].kind == 3 {
			j++
		}
		if strings.HasPrefix(l.source, "*") {
			// otherwise it is one list
			verifrt.Assume(j == len(lines) || !strings.HasPrefix(lines[j].source, "*"))
		}
		if strings.HasPrefix(l.source, "==") {
			// otherwise it is an empty section
			for j < len(lines) && (lines[j].kind == 0 || lines[j].kind == 3) {
				j++
			}
			verifrt.Assume(j < len(lines) && !strings.HasPrefix(lines[j].source, "=="))
		}
	}
	verifParagraphs(lines)
}

// VerifParagraphLong: any sequence of up to n blank lines, texts and lines consisting of one element.
func VerifParagraphLong() {
	verifConfig()
	n := verifrt.Choice("lines", verifrt.Param("n", 7)+1)
	var lines []verifLine
	for i := 0; i < n; i++ {
		lines = append(lines, verifParagraphLine(verifrt.Choice("kind", 3)))
	}
	verifParagraphs(lines)
}
