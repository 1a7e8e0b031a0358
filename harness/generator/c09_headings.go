package generator

import (
	"strconv"
	"strings"

	"wiki2book/parser"
	"wiki2book/verifrt"
)

// VerifHeadingHtml: headings of any depth become HTML headings of the same level.
func VerifHeadingHtml() {
	verifConfig()
	src, want := "x", "x"
	for i := 0; i < verifrt.Param("headings", 2); i++ {
		d := 1 + verifrt.Choice("depth", 7)
		text := "a" + verifrt.Str("text", 1, "aZ0.,-&\"%") + "b"
		mark := strings.Repeat("=", d)
		src += "\n" + mark + " " + text + " " + mark + "\nx"
		want += "<h" + strconv.Itoa(d) + ">" + text + "</h" + strconv.Itoa(d) + ">x"
	}
	service := verifService(nil)
	tokenizer := parser.NewTokenizer(service)
	article, err := tokenizer.Tokenize(src, "T")
	verifrt.Assert(err == nil, "no error")
	html, err := expand(&HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: service}, article.Content)
	verifrt.Assert(err == nil, "no error")
	verifrt.Observe("html", html)
	verifrt.Assert(verifSqueeze(html) == want, "the HTML level of every heading is its depth")
	verifrt.Reach("headings")
}
