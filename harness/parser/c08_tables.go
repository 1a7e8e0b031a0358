package parser

import (
	"strconv"

	"fmt"
	"strings"

	"wiki2book/verifrt"
)

// verifShowTables writes the page with all tables (and lists, links) spelled out. Rows without cells are not visible.
func verifShowTables(a *Article, s string) string {
	out := ""
	for {
		i := strings.Index(s, "$$TOKEN_")
		if i < 0 {
			return out + s
		}
		e := i + 2 + strings.Index(s[i+2:], "$$") + 2
		out += s[:i]
		switch t := a.TokenMap[s[i:e]].(type) {
		case TableToken:
			out += "<table>"
			if t.Caption.Content != "" {
				out += "<caption>" + strings.TrimSpace(verifShowTables(a, t.Caption.Content)) + "</caption>"
			}
			for _, row := range t.Rows {
				if len(row.Columns) == 0 {
					continue
				}
				out += "<tr>"
				for _, col := range row.Columns {
					tag := "td"
					if col.IsHeading {
						tag = "th"
					}
					out += "<" + tag
					for _, attribute := range col.Attributes.Attributes {
						out += " " + verifAttribute(attribute)
					}
					out += ">" + strings.TrimSpace(verifShowTables(a, col.Content)) + "</" + tag + ">"
				}
				out += "</tr>"
			}
			out += "</table>"
		case NowikiToken:
			out += t.Content
		case InternalLinkToken:
			out += "<int " + t.ArticleName + ">" + verifShowTables(a, t.LinkText) + "</int>"
		case UnorderedListToken:
			out += "<ul>"
			for _, item := range t.Items {
				out += "<li>" + strings.TrimSpace(verifShowTables(a, item.Content)) + "</li>"
			}
			out += "</ul>"
		case DescriptionListToken:
			out += verifShowDescription(a, t)
		default:
			verifrt.Assert(false, fmt.Sprintf("no other element expected: %T", t))
		}
		s = s[e:]
	}
}

// verifAttribute is the attribute in its shortest spelling.
func verifAttribute(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '"' && s[i] != '\'' && s[i] != ' ' {
			out += s[i : i+1]
		}
	}
	return strings.ToLower(out)
}

func verifShowDescription(a *Article, t DescriptionListToken) string {
	out := "<dl>"
	for _, item := range t.Items {
		out += verifShowTables(a, item.Content)
		for _, sub := range item.SubLists {
			if d, ok := sub.(DescriptionListToken); ok {
				out += verifShowDescription(a, d)
			}
		}
	}
	return out + "</dl>"
}

func verifTablePage(src, want string) {
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	got := strings.ReplaceAll(verifShowTables(article, article.Content), "\n"+MARKER_PARAGRAPH+"\n", "<p>")
	verifrt.Observe("page", got)
	verifrt.Assert(got == want, "every row and cell is there once and in order with its text, kind and attributes")
	verifrt.Reach("tables")
}

// verifSpan is any attributes of a cell, and those that have to be kept.
func verifSpan(name string) (string, string) {
	switch verifrt.Choice(name, 6) {
	case 5:
		return "colspan = '4' ROWSPAN='5'| ", " colspan=4 rowspan=5"
	case 1:
		d := verifrt.StrMax(name+".n", 1, 3, "123456789")
		return "colspan=" + d + " |", " colspan=" + d
	case 2:
		d := verifrt.Str(name+".n", 1, "123456789")
		return "rowspan=\"" + d + "\" class=\"c\"|", " rowspan=" + d
	case 3:
		return "style=\"color:red\" colspan=\"12\" rowspan=3 | ", " colspan=12 rowspan=3"
	case 4:
		return "class=\"c\" | ", ""
	}
	return "", ""
}

// verifCellText is any text of a cell.
func verifCellText(name string, rich bool) (string, string) {
	n := 2
	if rich {
		n = 9
	}
	b := verifrt.Str(name, 1, verifPlain+"=}-*#:;")
	switch verifrt.Choice(name, n) {
	case 0:
		return b, b
	case 2:
		return b + " | c | d", "" // only used behind attributes
	case 3:
		return b + "\nc | d !! e || f\n", b + "\nc | d !! e || f"
	case 4:
		return "[[u|" + b + "]]", "<int u>" + b + "</int>"
	case 5:
		return b + "\n* x\n* y", b + "\n<ul><li>x</li><li>y</li></ul>"
	case 6:
		verifrt.Assume(!strings.Contains("=*#:;", b)) // kept as a token, around which there are no paragraphs
		return b + "\n\nc", b + "<p>c"
	case 7:
		return b + "\n{|\n! n\n| m\n|}\nc", b + "\n<table><tr><th>n</th><td>m</td></tr></table>\nc"
	case 8:
		verifrt.Assume(b != "!")
		return b + "!cä", b + "!cä"
	}
	return "", ""
}

// VerifTables: any table of up to the given number of rows and cells in any layout.
func VerifTables() {
	verifConfig()
	src, want := "{|", "<table>"
	if verifrt.Choice("class", 2) == 1 {
		src += " class=\"a\""
	}
	src += "\n"
	captionAt := verifrt.Choice("caption", 3)
	if captionAt == 1 {
		c := verifrt.Str("captiontext", 1, verifPlain+"}-*#:;=")
		src += "|+ " + c + "\n"
		want += "<caption>" + c + "</caption>"
	}
	rows := verifrt.Param("rows", 2)
	separator := verifrt.Choice("separator", 5)
	for r := 0; r < rows; r++ {
		if r > 0 || verifrt.Choice("rowstart", 2) == 1 {
			src += []string{"|-\n", "|- style=\"a\"\n", "|-\n|-\n", "|----\n", " |-  \n"}[separator]
		}
		n := 1 + verifrt.Choice("cells", verifrt.Param("cells", 2))
		want += "<tr>"
		lineKind := 0
		for c := 0; c < n; c++ {
			kind := verifrt.Choice("kind", 2)
			text := verifrt.Str("text", 1, strings.NewReplacer("+", "", "!", "").Replace(verifPlain)+"=*#:;")
			switch {
			case c > 0 && kind == lineKind && verifrt.Choice("sameline", 2) == 1:
				if kind == 1 {
					src += []string{" !! ", "||"}[verifrt.Choice("headingseparator", 2)] + text
				} else {
					src += " || " + text
				}
			default:
				if c > 0 {
					src += "\n"
				}
				src += []string{"|", "!"}[kind] + text
				lineKind = kind
			}
			want += []string{"<td>", "<th>"}[kind] + text + []string{"</td>", "</th>"}[kind]
		}
		src += "\n"
		want += "</tr>"
	}
	if captionAt == 2 {
		src += "|+ style=\"x\" | foo\nbar\n"
		want = "<table><caption>foo\nbar</caption>" + want[len("<table>"):]
	}
	verifTablePage(src+"|}", want+"</table>")
}

// VerifTableCells: cells with any attributes and texts next to each other.
func VerifTableCells() {
	verifConfig()
	src, want := "{|\n", "<table><tr>"
	for c := 0; c < verifrt.Param("cells", 2); c++ {
		kind := verifrt.Choice("kind", 2)
		attributes, kept := verifSpan("span")
		text, shown := verifCellText("text", true)
		if strings.HasSuffix(text, " | c | d") {
			verifrt.Assume(attributes != "")
			shown = text
		}
		src += []string{"|", "!"}[kind] + attributes + " " + text + "\n"
		want += []string{"<td", "<th"}[kind] + kept + ">" + shown + []string{"</td>", "</th>"}[kind]
	}
	verifTablePage(src+"|}", want+"</tr></table>")
}

// VerifTableLine: any line of cells of up to n characters.
func VerifTableLine() {
	verifConfig()
	kind := verifrt.Choice("kind", 2)
	line := verifrt.StrMax("line", 1, verifrt.Param("n", 5), "|! ab")
	verifrt.Assume(line[0] != '|' && (kind == 0 || line[0] != '!'))
	verifrt.Assume(line[len(line)-1] != ' ')
	want := "<table><tr>"
	cells := line
	if kind == 1 {
		cells = strings.ReplaceAll(cells, "!!", "||")
	}
	for _, cell := range strings.Split(cells, "||") {
		if i := strings.Index(cell, "|"); i >= 0 {
			cell = cell[i+1:] // behind (unknown) attributes
		}
		want += []string{"<td>", "<th>"}[kind] + strings.TrimSpace(cell) + []string{"</td>", "</th>"}[kind]
	}
	verifTablePage("{|\n"+[]string{"|", "!"}[kind]+line+"\n|-\n|z\n|}", want+"</tr><tr><td>z</td></tr></table>")
}

// VerifTablesAround: any sequence of texts, indented, nested and empty tables.
func VerifTablesAround() {
	verifConfig()
	src, want := "", ""
	b := verifrt.Str("b", 1, strings.NewReplacer("+", "", "!", "").Replace(verifPlain))
	for i := 0; i < verifrt.Param("pieces", 3); i++ {
		switch verifrt.Choice("piece", 8) {
		case 0:
			src, want = src+b+"\n", want+b+"\n"
		case 1:
			src, want = src+"{|\n|"+b+"\n|}\n", want+"<table><tr><td>"+b+"</td></tr></table>\n"
		case 2:
			src, want = src+"{|\n|"+b+"\n|} c\n", want+"<table><tr><td>"+b+"</td></tr></table>\nc\n"
		case 3:
			src, want = src+"x\n:{|\n!"+b+"\n|}\n", want+"x\n<dl><table><tr><th>"+b+"</th></tr></table></dl>\n"
		case 4:
			src, want = src+"::{|\n|"+b+"\n|}\nx\n", want+"<dl><dl><table><tr><td>"+b+"</td></tr></table></dl></dl>\nx\n"
		case 5:
			src, want = src+"{|\n|\n{|\n|"+b+"\n{|\n!q\n|}\n|}\nr\n|-\n|s\n|}\n", want+"<table><tr><td><table><tr><td>"+b+"\n<table><tr><th>q</th></tr></table></td></tr></table>\nr</td></tr><tr><td>s</td></tr></table>\n"
		case 6:
			src, want = src+"{|\n|}\nx\n", want+"<table></table>\nx\n"
		case 7:
			src, want = src+b+" | "+b+" || c\n", want+b+" | "+b+" || c\n"
		}
	}
	verifrt.Assume(!strings.Contains(want, "</dl>\n<dl>") && !strings.Contains(src, "|}\n::")) // adjacent lists are one list
	verifTablePage(src+"z", want+"z")
}

// VerifTablesMany: large and deeply nested tables.
func VerifTablesMany() {
	verifConfig()
	verifrt.StepLimit(100000000)
	b := verifrt.Str("text", 1, strings.NewReplacer("+", "", "!", "").Replace(verifPlain))
	src, want := "{|\n", "<table>"
	if verifrt.Choice("kind", 2) == 0 {
		rows, cells := []int{2, 25}[verifrt.Choice("rows", 2)], []int{1, 2, 14}[verifrt.Choice("cells", 3)]
		separator := verifrt.Choice("separator", 4)
		sep := []string{"\n|", "||", "\n!", "!!"}[separator]
		tag := []string{"td", "th"}[separator/2]
		for r := 0; r < rows; r++ {
			src += "|-\n" + []string{"|", "!"}[separator/2]
			want += "<tr>"
			for c := 0; c < cells; c++ {
				if c > 0 {
					src += sep
				}
				text := b + strconv.Itoa(r) + "." + strconv.Itoa(c)
				src += text
				want += "<" + tag + ">" + text + "</" + tag + ">"
			}
			src += "\n"
			want += "</tr>"
		}
		verifTablePage(src+"|}", want+"</table>")
		return
	}
	depth := 1 + verifrt.Choice("depth", verifrt.Param("depth", 8))
	src, want = strings.Repeat("{|\n!h"+b+"\n|\n", depth), strings.Repeat("<table><tr><th>h"+b+"</th><td>", depth)
	src += "x" + strings.Repeat("\n|-\n|e\n|}", depth)
	want += "x" + strings.Repeat("</td></tr><tr><td>e</td></tr></table>", depth)
	verifTablePage(src, want)
}
