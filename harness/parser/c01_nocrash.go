package parser

import (
	"strings"

	"wiki2book/verifrt"
)

func verifRun(content string) {
	verifConfig()
	t := verifTokenizer(func(template, key string) (string, error) { return "x", nil })
	article, err := t.Tokenize(content, "T")
	if err == nil {
		verifrt.Assert(article != nil, "an article or an error")
		verifrt.Reach("article")
	} else {
		verifrt.Reach("error")
	}
}

// VerifNoCrashBytes: any text of up to n bytes.
func VerifNoCrashBytes() {
	verifRun(verifrt.StrMax("content", 0, verifrt.Param("n", 3), ""))
}

// VerifNoCrashMarkup: any text of up to n bytes made of markup characters.
func VerifNoCrashMarkup() {
	verifRun(verifrt.StrMax("content", 0, verifrt.Param("n", 5), "[]{}|:'=*#\n f"))
}

const verifAlpha = "[]{}|:'=*#\n f</>!-;\"$"

// VerifNoCrashRefs: any sequence of up to k pieces of reference markup.
func VerifNoCrashRefs() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "<ref>", "<ref name=a>", "<ref name=\"a\" group=b />", "</ref>", "<references />", "<references>", "<references", "</references>",
		"</re", "<ref", " group=", "\"", "/", ">", "x"))
}

// VerifNoCrashTags: any sequence of up to k pieces of tag-like markup.
func VerifNoCrashTags() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "<nowiki>", "</nowiki>", "<math>", "</math>", "<gallery>", "</gallery>", "<imagemap>", "</imagemap>", "<!--", "-->",
		"\n", "f:x", "f:x.g", "|", "[[", "]]"))
}

// VerifNoCrashMedia: any sequence of up to k pieces of file links, galleries and image maps.
func VerifNoCrashMedia() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "[[f:a", "[[f:", "f:", "]]", "|", "|mini", "|1x2px", "px", "[http://x ", "]", "<gallery>\n", "\n</gallery>", "<imagemap>\n", "\n</imagemap>", "\n"))
}

// VerifNoCrashTemplates: any sequence of up to k pieces of template and table markup.
func VerifNoCrashTemplates() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "{{", "}}", "{{a}}", "|", "{{BS-table}}", "|}", "{|", "\n", "$$TEMPLATE_PLACEHOLDER_", "$$", "a"))
}

// VerifNoCrashTables: any sequence of up to k pieces of table markup.
func VerifNoCrashTables() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "{|\n", "\n{|", "\n:{|", "\n|}", "\n|-", "\n|+", "\n|", "\n!", "!!", "||", "|", "a", "\n"))
}

// VerifNoCrashTokens: any sequence of up to k pieces of internal tokens appearing in the page itself.
func VerifNoCrashTokens() {
	verifRun(verifWords("w", verifrt.Param("k", 4), verifAlpha, "?", "$$TOKEN_TABLE_0$$", "$$TOKEN_", "$$", "$$MARKER_BOLD_OPEN$$", "$$MARKER_PARAGRAPH$$", "[[", "]]", "{{a}}", "'''", "\n", "=", "* "))
}

// VerifNoCrashQuotes: any distribution of apostrophes over k characters.
func VerifNoCrashQuotes() {
	verifRun(verifrt.StrMax("content", 0, verifrt.Param("n", 14), "'x"))
}

// VerifNoCrashQuoteRuns: long paragraphs of apostrophe runs: a first run and a pattern of three runs repeated many times.
func VerifNoCrashQuoteRuns() {
	runs := []string{"", "''", "'''", "''''", "'''''"}
	s := runs[verifrt.Choice("first", 5)] + "x"
	p := ""
	for i := 0; i < 3; i++ {
		p += runs[verifrt.Choice("run", 5)] + "x"
	}
	for i := 0; i < verifrt.Param("reps", 20); i++ {
		s += p
	}
	verifRun(s)
}

// VerifNoCrashMany: any two pieces repeated many times behind each other (nested or in sequence), closed or not.
// The limit of steps is far below anything that grows exponentially.
func VerifNoCrashMany() {
	verifrt.StepLimit(400000000)
	vocab := []string{"[[f:x.j|mini|", "]]", "[[a|", "[http://x ", "]", "{{t|", "}}", "''", "'''", "<ref>", "</ref>", "<ref name=a />", "<nowiki>", "</nowiki>", "<math>", "</math>", "\n{|\n|", "\n|}", "\n|-\n|", "\n* ", "\n*", "*",
		"\n== x ==\n", "\n;a:", "<gallery>\nf:x.j|", "\n</gallery>", "<imagemap>\nf:x.j\n", "</imagemap>", "<!--", "-->", "<references>", "</references>", "[", "{{BS-table}}"}
	n := verifrt.Param("many", 20)
	a := vocab[verifrt.Choice("first", len(vocab))]
	b := vocab[verifrt.Choice("second", len(vocab))]
	c := verifrt.Str("text", 1, "x |\n")
	switch verifrt.Choice("order", 2) {
	case 0:
		verifRun(strings.Repeat(a+c, n) + strings.Repeat(b, n))
	case 1:
		verifRun(strings.Repeat(a+c+b, n))
	}
}
