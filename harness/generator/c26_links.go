package generator

import (
	"strings"

	"wiki2book/verifrt"
)

// VerifLinkAddress: an address with any markup in it ends before the markup, which is part of the text.
func VerifLinkAddress() {
	verifConfig()
	address := "http://t" + verifrt.StrMax("address", 0, 2, "abz/?=&%#|:;.,'-")
	verifrt.Assume(!strings.Contains(address, "''"))
	rest := ""
	k := verifrt.Choice("pieces", verifrt.Param("k", 2)+1)
	for i := 0; i < k; i++ {
		b := verifrt.Str("b", 1, "abz/?=&%.,-")
		switch verifrt.Choice("piece", 9) {
		case 0:
			rest += "''" + b + "''"
		case 1:
			rest += "'''" + b + "'''"
		case 2:
			rest += "\"" + b
		case 3:
			rest += "<br>" + b
		case 4:
			rest += "<ref>" + b + "</ref>"
		case 5:
			rest += "<nowiki>" + b + "[</nowiki>"
		case 6:
			rest += "<math>" + b + "</math>"
		case 7:
			rest += "[[u|" + b + "]]"
		case 8:
			rest += ">" + b
		}
	}
	text := verifrt.Str("text", 1, "abz.,-")
	verifrt.Assume(address[len(address)-1] != '\'')
	plain, _, _, _, err := verifPage("x"+rest+" "+text+"y", "t")
	verifrt.Assert(err == nil, "no error")
	html, _, _, _, err := verifPage("x["+address+rest+" "+text+"]y", "t")
	verifrt.Assert(err == nil, "no error")
	verifrt.Observe("html", html)
	verifrt.Assert(strings.Contains(plain, "y"), "text is kept")
	i := strings.LastIndex(plain, "y")
	want := "x<a href=\"" + address + "\">" + plain[1:i] + "</a>" + plain[i:]
	if k == 0 {
		want = "x<a href=\"" + address + "\">" + text + "</a>y"
	}
	verifrt.Assert(html == want, "the address of a link ends before markup, which is part of the text")
	verifrt.Reach("links")
}
