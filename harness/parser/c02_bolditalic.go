package parser

import (
	"strings"

	"wiki2book/verifrt"
)

const (
	verifBO = "$$MARKER_BOLD_OPEN$$"
	verifBC = "$$MARKER_BOLD_CLOSE$$"
	verifIO = "$$MARKER_ITALIC_OPEN$$"
	verifIC = "$$MARKER_ITALIC_CLOSE$$"
)

// verifMarks checks that the marks of s are balanced and properly nested and returns s without them.
func verifMarks(s string) (rest string, ok bool) {
	stack := ""
	ok = true
	for s != "" {
		switch {
		case strings.HasPrefix(s, verifBO):
			ok = ok && !strings.Contains(stack, "b")
			stack += "b"
			s = s[len(verifBO):]
		case strings.HasPrefix(s, verifIO):
			ok = ok && !strings.Contains(stack, "i")
			stack += "i"
			s = s[len(verifIO):]
		case strings.HasPrefix(s, verifBC):
			ok = ok && strings.HasSuffix(stack, "b")
			stack = strings.TrimSuffix(stack, "b")
			s = s[len(verifBC):]
		case strings.HasPrefix(s, verifIC):
			ok = ok && strings.HasSuffix(stack, "i")
			stack = strings.TrimSuffix(stack, "i")
			s = s[len(verifIC):]
		default:
			rest += s[:1]
			s = s[1:]
		}
	}
	return rest, ok && stack == ""
}

func verifBalanced(content string) {
	t := verifTokenizer(nil)
	out := t.parseBoldAndItalic(content)
	verifrt.Observe("out", out)
	rest, ok := verifMarks(out)
	verifrt.Assert(ok, "bold and italic marks are balanced and properly nested")
	verifrt.Assert(strings.ReplaceAll(rest, "'", "") == strings.ReplaceAll(content, "'", ""), "no text is lost or moved")
	verifrt.Reach("balanced")
}

// VerifQuotes: any distribution of apostrophes over up to n characters.
func VerifQuotes() {
	verifConfig()
	verifBalanced(verifrt.StrMax("content", 0, verifrt.Param("n", 18), "'x"))
}

// VerifQuoteRuns: k runs of up to 6 apostrophes, each followed by any letter.
func VerifQuoteRuns() {
	verifConfig()
	s := verifrt.StrMax("start", 0, 1, "abc")
	for i := 0; i < verifrt.Param("k", 5); i++ {
		s += strings.Repeat("'", verifrt.Choice("run", 7)) + verifrt.Str("text", 1, verifPlain+" \n$")
	}
	verifBalanced(s)
}

// VerifQuotesWellFormed: any sequence of well-formed plain, italic, bold and bold-italic pieces.
func VerifQuotesWellFormed() {
	verifConfig()
	content := ""
	forms := []string{""} // the accepted outputs
	add := func(out ...string) {
		var r []string
		for _, f := range forms {
			for _, o := range out {
				r = append(r, f+o)
			}
		}
		forms = r
	}
	text := func() string {
		s := verifrt.Str("x", 1, verifPlain+" -=\n")
		if verifrt.Choice("apostrophe", 2) == 1 {
			s += "'" + verifrt.Str("y", 1, "aeiou ")
		}
		return s
	}
	for i := 0; i < verifrt.Param("k", 3); i++ {
		x := text()
		switch verifrt.Choice("kind", 6) {
		case 0:
			content += x
			add(x)
		case 1:
			content += "''" + x + "''"
			add(verifIO + x + verifIC)
		case 2:
			content += "'''" + x + "'''"
			add(verifBO + x + verifBC)
		case 3:
			content += "'''''" + x + "'''''"
			add(verifIO+verifBO+x+verifBC+verifIC, verifBO+verifIO+x+verifIC+verifBC)
		case 4:
			content += "'''" + x + "''x'' '''"
			add(verifBO + x + verifIO + "x" + verifIC + " " + verifBC)
		case 5:
			content += "''" + x + "'''x''' ''"
			add(verifIO + x + verifBO + "x" + verifBC + " " + verifIC)
		}
		content += "s"
		add("s")
	}
	t := verifTokenizer(nil)
	out := t.parseBoldAndItalic(content)
	verifrt.Observe("out", out)
	ok := false
	for _, f := range forms {
		ok = verifrt.Or(ok, out == f)
	}
	verifrt.Assert(ok, "italic, bold and bold-italic text is marked as such")
	verifrt.Reach("wellformed")
}
