package generator

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifTree builds any element tree together with the HTML it has to become.
type verifTree struct {
	tokens map[string]parser.Token
	budget int // number of elements and texts still to be used
	next   int
	stats  bool // texts for the statistics
}

func (t *verifTree) key(token parser.Token) string {
	t.next++
	k := "$$TOKEN_VERIF_" + strconv.Itoa(t.next) + "$$"
	t.tokens[k] = token
	return k
}

func (t *verifTree) text() string {
	if t.stats {
		return verifrt.Str("text", 1, verifASCII+"\n")
	}
	return verifrt.Str("text", 1, verifASCII+"\t\xe4\xc3\xb6")
}

// all printable ASCII characters
const verifASCII = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// content is any sequence of texts and elements; kinds limits the elements that may be used.
func (t *verifTree) content(depth int) (string, string) {
	src, want := "", ""
	for t.budget > 0 {
		kinds := 2
		if depth > 0 && t.budget > 1 {
			kinds = 14
		}
		k := verifrt.Choice("kind", kinds)
		if k == 0 {
			break
		}
		t.budget--
		if k == 1 {
			s := t.text()
			src, want = src+s, want+s
			continue
		}
		s, w := t.element(k, depth)
		src, want = src+s, want+w
	}
	return src, want
}

// choice is a choice among details the statistics do not depend on.
func (t *verifTree) choice(name string, n int) int {
	if t.stats {
		return 0
	}
	return verifrt.Choice(name, n)
}

func (t *verifTree) element(k, depth int) (string, string) {
	switch k {
	case 2:
		d := 1 + t.choice("depth", 7)
		n := strconv.Itoa(d)
		s, w := t.content(depth - 1)
		return t.key(parser.HeadingToken{Content: s, Depth: d}), "<h" + n + ">" + w + "</h" + n + ">"
	case 3:
		s, w := t.content(depth - 1)
		return t.key(parser.InternalLinkToken{ArticleName: "art", LinkText: s}), w
	case 4:
		s, w := t.content(depth - 1)
		u := "http://" + t.text()
		verifrt.Assume(!strings.Contains(u, "\""))
		return t.key(parser.ExternalLinkToken{URL: u, LinkText: s}), "<a href=\"" + u + "\">" + w + "</a>"
	case 5, 6, 7:
		token, w := t.list(k, depth-1)
		return t.key(token), w
	case 8:
		token, w := t.table(depth - 1)
		return t.key(token), w
	case 9:
		s, w := t.content(depth - 1)
		img := parser.ImageToken{Filename: "x" + verifrt.Str("name", 1, "ab_") + ".jpg", Caption: parser.CaptionToken{Content: s}, SizeX: t.choice("x", 2)*7 - 1, SizeY: t.choice("y", 2)*8 - 1}
		return t.key(img), "<div class=\"figure\"><img alt=\"image\" src=\"./images/" + img.Filename + "\" " + verifStyle(img.SizeX, img.SizeY) + "><div class=\"caption\">" + w + "</div></div>"
	case 10:
		if t.stats && verifrt.Bool("formula") {
			return t.key(parser.MathToken{Content: "x"}), ""
		}
		img := parser.InlineImageToken{Filename: "x.jpg", SizeX: t.choice("x", 2)*7 - 1, SizeY: t.choice("y", 2)*8 - 1}
		return t.key(img), "<img alt=\"image\" class=\"inline\" src=\"./images/x.jpg\" " + verifStyle(img.SizeX, img.SizeY) + ">"
	case 11:
		i := t.choice("index", 3)
		if verifrt.Bool("usage") {
			return t.key(parser.RefUsageToken{Index: i}), "[" + strconv.Itoa(i+1) + "]"
		}
		s, w := t.content(depth - 1)
		return t.key(parser.RefDefinitionToken{Index: i, Content: s}), "[" + strconv.Itoa(i+1) + "] " + w + "<br>"
	case 12:
		s := "<u>" + t.text() + "''$$</u>"
		return t.key(parser.NowikiToken{Content: s}), s
	default:
		s, w := t.content(depth - 1)
		if t.choice("bold", 2) == 1 {
			return parser.MARKER_BOLD_OPEN + s + parser.MARKER_BOLD_CLOSE, "<b>" + w + "</b>"
		}
		return parser.MARKER_ITALIC_OPEN + s + parser.MARKER_ITALIC_CLOSE + parser.MARKER_PARAGRAPH, "<i>" + w + "</i><br><br>"
	}
}

func verifStyle(x, y int) string {
	if x == -1 && y == -1 {
		return ""
	}
	dim := func(v int) string {
		if v == -1 {
			return "auto;"
		}
		return strconv.Itoa(v) + "px;"
	}
	return "style=\"vertical-align: middle; width: " + dim(x) + " height: " + dim(y) + "\""
}

func (t *verifTree) list(k, depth int) (parser.ListToken, string) {
	var items []parser.ListItemToken
	want := ""
	n := 1 + verifrt.Choice("items", 2)
	for i := 0; i < n && t.budget > 0; i++ {
		t.budget--
		item := parser.ListItemToken{}
		// A list item might contain its own tags.
		tag := []string{"", "<li value=4>", " <li>"}[t.choice("item tag", 3)]
		if k == 7 {
			tag = ""
		}
		s, w := t.content(depth)
		item.Content = tag + s
		for depth > 0 && t.budget > 1 && len(item.SubLists) < 2 && verifrt.Bool("sublist") {
			t.budget--
			sub, sw := t.list(5+t.choice("subkind", 3), depth-1)
			item.SubLists = append(item.SubLists, sub)
			w += sw
		}
		switch {
		case tag != "":
			want += tag + w + "</li>"
		case k != 7:
			want += "<li>" + w + "</li>"
		case verifrt.Bool("head"):
			item.Type = parser.DESCRIPTION_HEAD
			want += "<div class=\"dt\">" + w + "</div>"
		default:
			item.Type = parser.DESCRIPTION_ITEM
			want += "<div class=\"dd\">" + w + "</div>"
		}
		items = append(items, item)
	}
	switch k {
	case 5:
		return parser.UnorderedListToken{Items: items}, "<ul>" + want + "</ul>"
	case 6:
		return parser.OrderedListToken{Items: items}, "<ol>" + want + "</ol>"
	}
	return parser.DescriptionListToken{Items: items}, "<div class=\"description-list\">" + want + "</div>"
}

func (t *verifTree) table(depth int) (parser.TableToken, string) {
	token := parser.TableToken{}
	want := "<div class=\"figure\"><table>"
	n := 1 + verifrt.Choice("rows", 2)
	for i := 0; i < n && t.budget > 0; i++ {
		t.budget--
		row := parser.TableRowToken{}
		want += "<tr>"
		m := 1 + verifrt.Choice("cells", 2)
		for j := 0; j < m && t.budget > 0; j++ {
			t.budget--
			s, w := t.content(depth)
			cell := parser.TableColToken{Content: s}
			attr := ""
			switch t.choice("attrs", 3) {
			case 1:
				cell.Attributes.Attributes = []string{"colspan=\"2\""}
				attr = " colspan=\"2\""
			case 2:
				cell.Attributes.Attributes = []string{"colspan=\"2\"", "rowspan=\"3\""}
				attr = " colspan=\"2\" rowspan=\"3\""
			}
			tag := "td"
			if t.choice("heading", 2) == 1 {
				cell.IsHeading = true
				tag = "th"
			}
			want += "<" + tag + attr + ">" + w + "</" + tag + ">"
			row.Columns = append(row.Columns, cell)
		}
		want += "</tr>"
		token.Rows = append(token.Rows, row)
	}
	s, w := "", ""
	if verifrt.Bool("caption") {
		s, w = t.content(depth)
		token.Caption = parser.TableCaptionToken{Content: s}
	}
	return token, want + "</table><div class=\"caption\">" + w + "</div></div>"
}

// verifSqueeze removes line breaks, which are only used between the pieces.
func verifSqueeze(html string) string { return strings.ReplaceAll(html, "\n", "") }

// VerifHtmlTree: any element tree becomes exactly the nested HTML elements with all texts in order.
func VerifHtmlTree() {
	verifConfig()
	t := &verifTree{tokens: map[string]parser.Token{}, budget: verifrt.Param("budget", 4)}
	src, want := t.content(verifrt.Param("depth", 3))
	g := &HtmlGenerator{TokenMap: t.tokens, WikipediaService: verifService(nil)}
	html, err := expand(g, src)
	verifrt.Assert(err == nil, "no error")
	verifrt.Observe("html", html)
	verifrt.Assert(verifSqueeze(html) == want, "every element is expanded at its place, nested and closed, with all texts in order")
	verifrt.Reach("html")
}

// VerifHtmlPage: the page of any article contains its title and content and is found in the cache.
func VerifHtmlPage() {
	verifConfig()
	t := &verifTree{tokens: map[string]parser.Token{}, budget: verifrt.Param("budget", 1)}
	src, want := t.content(1)
	g := &HtmlGenerator{TokenMap: t.tokens, WikipediaService: verifService(nil)}
	util.CurrentFilesystem = &util.OsFilesystem{}
	d := verifrt.Dir()
	config.Current.CacheDir = d + []string{"/cache", "/other folder/x"}[verifrt.Choice("cache folder", 2)]
	style := []string{"", d + "/style.css", d + "/a b/c/style.css", config.Current.CacheDir + "/s.css"}[verifrt.Choice("style", 4)]
	config.Current.StyleFile = style
	os.MkdirAll(config.Current.CacheDir+"/.tmp", 0o755)
	title := verifrt.StrMax("title", 1, verifrt.Param("n", 2), "aB ./:\"'&_%{}$")

	other, otherFile := "", ""
	if verifrt.Bool("other page") {
		// The page of any other article stays as it is.
		other = verifrt.Str("other title", len(title), "aB ")
		verifrt.Assume(other != title)
		f, err := g.Generate(&parser.Article{Title: other, Content: "other"})
		otherFile = f
		verifrt.Assert(err == nil, "no error")
	}
	file, err := g.Generate(&parser.Article{Title: title, TokenMap: t.tokens, Content: src})
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(filepath.Dir(file) == config.Current.CacheDir+"/html", "the page is stored in the HTML folder of the cache")
	b, err := os.ReadFile(file)
	verifrt.Assert(err == nil, "the page exists")
	html := string(b)
	verifrt.Observe("page", strings.ReplaceAll(html, d, "~"))

	head, rest, ok := strings.Cut(html, "<body")
	verifrt.Assert(ok, "the page has a body")
	_, body, _ := strings.Cut(rest, ">")
	body, _, ok = strings.Cut(body, "</body>")
	verifrt.Assert(ok, "the body is closed")
	verifrt.Assert(strings.HasSuffix(strings.TrimSpace(html), "</html>") && strings.Count(html, "<html") == 1, "the page is complete")
	verifrt.Assert(verifSqueeze(body) == "<h1>"+title+"</h1>"+want, "the body consists of title and content")

	_, href, ok := strings.Cut(head, "<link rel=\"stylesheet\" href=\"")
	verifrt.Assert(ok, "the page refers to the style file")
	href, _, _ = strings.Cut(href, "\"")
	verifrt.Observe("style", strings.ReplaceAll(href, d, "~"))
	if style != "" {
		verifrt.Assert(filepath.Join(config.Current.CacheDir, href) == style, "the path of the style file is relative to the cache")
	}
	if other != "" {
		b, err := os.ReadFile(otherFile)
		verifrt.Observe("other", string(b))
		verifrt.Assert(err == nil && strings.Contains(string(b), "<h1>"+other+"</h1>\nother"), "other pages are unchanged")
	}
}
