package parser

import (
	"strings"

	"wiki2book/verifrt"
)

// verifShowLinks writes the page with the texts and targets of all links.
func verifShowLinks(a *Article, s string) string {
	out := ""
	for {
		i := strings.Index(s, "$$TOKEN_")
		if i < 0 {
			return out + s
		}
		e := i + 2 + strings.Index(s[i+2:], "$$") + 2
		out += s[:i]
		switch t := a.TokenMap[s[i:e]].(type) {
		case NowikiToken:
			out += t.Content
		case InternalLinkToken:
			out += "<int " + t.ArticleName + ">" + verifShowLinks(a, t.LinkText) + "</int>"
		case ExternalLinkToken:
			out += "<ext " + t.URL + ">" + verifShowLinks(a, t.LinkText) + "</ext>"
		case StringToken:
			out += verifShowLinks(a, t.String)
		default:
			verifrt.Assert(false, "only link tokens expected")
		}
		s = s[e:]
	}
}

func verifLinkPage(src, want string) {
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	got := verifShowLinks(article, article.Content)
	verifrt.Observe("page", got)
	verifrt.Assert(got == want, "every link keeps its target and text, everything else is unchanged")
	verifrt.Reach("links")
}

// VerifInternalLinks: any inner text of an internal link.
func VerifInternalLinks() {
	verifConfig()
	inner := verifrt.StrMax("inner", 1, verifrt.Param("n", 6), "ab #|:'=*;")
	verifrt.Assume(!strings.Contains(inner, "''"))
	target, text, hasText := strings.Cut(inner, "|")
	if hasText {
		verifrt.Assume(text != "") // written by the software itself on saving, does not occur in stored pages
	}
	// links with unwanted prefixes are a matter of the clean-up
	for _, p := range strings.Split(target, ":")[:strings.Count(target, ":")] {
		verifrt.Assume(p == "" || p == "a" || inner[0] == ':')
	}
	art, _, _ := strings.Cut(target, "#")
	art = strings.TrimSpace(art)
	src := "x[[" + inner + "]]y"
	if !hasText {
		switch {
		case art != "" && art[0] == ':':
			text = art[strings.LastIndex(art, ":")+1:]
		case art != "":
			text = art
		default: // section of the same page
			text = strings.TrimSpace(inner)
			verifrt.Assume(text != "")
		}
	}
	verifLinkPage(src, "x<int "+art+">"+text+"</int>y")
}

// VerifExternalLinks: any address and text of an external link, and bracketed text that is no link.
func VerifExternalLinks() {
	verifConfig()
	scheme := []string{"http://", "https://", "ftp://", "//", "", "mailto:"}[verifrt.Choice("scheme", 6)]
	addr := verifrt.StrMax("addr", 1, 3, "ab/?#|=:.")
	known := scheme == "http://" || scheme == "https://" || scheme == "ftp://"
	verifrt.Assume(known || !strings.Contains(scheme+addr, "://"))
	body := scheme + addr
	text := ""
	hasText := verifrt.Bool("text")
	if hasText {
		text = verifrt.StrMax("text", 0, 3, "ab #|=*:;")
		body += " " + text
	}
	want := "[" + body + "]"
	if hasText {
		switch scheme {
		case "http://", "https://":
			want = "<ext " + scheme + addr + ">" + text + "</ext>"
		case "ftp://":
			want = text
		}
	}
	verifLinkPage("x["+body+"]y", "x"+want+"y")
}

// VerifLinkSequences: any sequence of links, brackets and text; unclosed brackets stay as they are.
func VerifLinkSequences() {
	verifConfig()
	src, want := "x", "x"
	k := verifrt.Param("k", 4)
	for i := 0; i < k; i++ {
		b := verifrt.Str("b", 1, verifPlain+"-*")
		switch verifrt.Choice("piece", 8) {
		case 0:
			src, want = src+b, want+b
		case 1:
			src, want = src+"[["+b+"]]", want+"<int "+b+">"+b+"</int>"
		case 2:
			src, want = src+"[[tä|"+b+"]]", want+"<int tä>"+b+"</int>"
		case 3:
			src, want = src+"[http://t "+b+"]", want+"<ext http://t>"+b+"</ext>"
		case 4:
			src, want = src+"[http://t "+b+"[[u|v]]w]", want+"<ext http://t>"+b+"<int u>v</int>w</ext>"
		case 5:
			src, want = src+"["+b+" c]", want+"["+b+" c]"
		case 6:
			src, want = src+"["+b+"]", want+"["+b+"]"
		case 7:
			src, want = src+"]"+b, want+"]"+b
		}
	}
	switch verifrt.Choice("end", 4) {
	case 1:
		src, want = src+"[u v", want+"[u v"
	case 2:
		src, want = src+"[[u #|v", want+"[[u #|v"
	case 3:
		src, want = src+"\n[u", want+"\n[u"
	}
	verifLinkPage(src, want)
}
