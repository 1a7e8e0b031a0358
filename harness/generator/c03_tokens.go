package generator

import (
	"strings"

	"wiki2book/parser"
	"wiki2book/verifrt"
)

func verifResolve(page string) {
	service := verifService(func(string) string { return "t''u''" })
	tokenizer := parser.NewTokenizer(service)
	article, err := tokenizer.Tokenize(page, "T")
	if err != nil {
		verifrt.Reach("error")
		return
	}
	verifrt.Observe("content", article.Content)
	// every placeholder resolves, none is used twice
	seen := map[string]bool{}
	work := []string{article.Content}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, k := range verifKeys(s) {
			token, ok := article.TokenMap[k]
			verifrt.Assert(ok, "every placeholder in the article resolves to an element")
			verifrt.Assert(!seen[k], "no element is referenced twice")
			if ok && !seen[k] {
				work = append(work, verifTexts(token)...)
			}
			seen[k] = true
		}
	}
	g := &HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: service}
	html, err := expand(g, article.Content)
	verifrt.Assert(err == nil, "turning the article into HTML succeeds")
	if err == nil {
		verifrt.Observe("html", html)
		verifrt.Assert(!strings.Contains(html, "$$TOKEN_"), "no placeholder remains in the HTML")
		verifrt.Assert(!strings.Contains(html, "$$MARKER_"), "no internal marker remains in the HTML")
		verifrt.Assert(!strings.Contains(html, "$$TEMPLATE_"), "no template placeholder remains in the HTML")
	}
	verifrt.Reach("html")
}

const verifAlpha = "[]{}|:'=*#\n f</>!-;$x"

// VerifTokensInline: inline markup nested in each other.
func VerifTokensInline() {
	verifConfig()
	verifResolve(verifWords("w", verifrt.Param("k", 3), verifAlpha, "?", "[[a", "|", "]]", "[http://x ", "]", "''", "'''", "<math>", "</math>", "<nowiki>", "</nowiki>", "<ref>", "</ref>",
		"<references />", "[[f:x.j|mini|", "{{t}}", "\n\n", "$$", "x"))
}

// VerifTokensBlocks: block markup nested in each other.
func VerifTokensBlocks() {
	verifConfig()
	verifResolve(verifWords("w", verifrt.Param("k", 3), verifAlpha, "?", "\n* ", "\n** ", "\n; x : ", "\n{|", "\n|}", "\n|-", "\n| ", "\n! ", "\n|+ ", "\n== x ==\n", "<gallery>\nf:x.j|", "\n</gallery>", "<imagemap>\nf:x.j\n", "</imagemap>",
		"<ref name=a>x</ref>", "<ref name=a />", "\n<references />", "[[b]]", "''y''", "\n", "<math>f''</math>"))
}

// VerifTokensBytes: any text of up to n markup characters.
func VerifTokensBytes() {
	verifConfig()
	verifResolve(verifrt.StrMax("page", 0, verifrt.Param("n", 4), "[]{}|:'=*#\n f<$"))
}

// VerifTokensMany: pages with many elements of any kind.
func VerifTokensMany() {
	verifConfig()
	verifrt.StepLimit(60000000)
	n := []int{11, verifrt.Param("many", 104)}[verifrt.Choice("number", 2)]
	b := verifrt.Str("text", 1, "ab")
	element := []string{"a [[" + b + "]] ", "x <ref>" + b + "</ref>\n", "[http://x " + b + "] ", "== " + b + " ==\nx\n", "''" + b + "'' ", "<nowiki>" + b + "</nowiki>", "* " + b + "\nx\n", "{{t}} ", "[[f:x.j|" + b + "]] "}[verifrt.Choice("element", 9)]
	verifResolve(strings.Repeat(element, n) + "\n<references />")
}
