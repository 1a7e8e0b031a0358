package parser

import (
	"strings"

	"wiki2book/config"
	"wiki2book/verifrt"
)

func verifClean(content string) string {
	t := verifTokenizer(nil)
	r, err := t.clean(content)
	verifrt.Assert(err == nil, "no error")
	verifrt.Observe("cleaned", r)
	return r
}

// verifTrimLines removes blanks around lines, as the clean-up does.
func verifTrimLines(s string) string {
	lines := strings.Split(s, "\n")
	for i := range lines {
		lines[i] = strings.TrimSpace(lines[i])
	}
	return strings.Join(lines, "\n")
}

func verifOnlyListChars(line string) bool {
	for i := 0; i < len(line); i++ {
		if c := line[i]; c != '*' && c != '#' && c != ';' && c != ':' {
			return false
		}
	}
	return true
}

// verifSemi: a line that is entirely bold.
func verifSemi(line string) bool {
	return len(line) >= 7 && strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") && !strings.Contains(line[3:len(line)-3], "'''")
}

// verifNoSection: the line cannot be a (semi-)heading.
func verifNoSection(line string) bool {
	return !(strings.HasPrefix(line, "=") && strings.HasSuffix(line, "=")) && !verifSemi(line)
}

// VerifCleanText: text without comments, links, templates, headings and empty list entries is kept.
func VerifCleanText() {
	verifConfig()
	content := verifrt.StrMax("content", 0, verifrt.Param("n", 6), "")
	for i := 0; i < len(content); i++ {
		verifrt.Assume(content[i] < 0x80)
	}
	verifrt.Assume(!strings.Contains(content, "[["))
	verifrt.Assume(!strings.Contains(content, "{{"))
	verifrt.Assume(!strings.Contains(content, "-->"))
	for _, line := range strings.Split(content, "\n") {
		line = strings.TrimSpace(line)
		verifrt.Assume(line == "" || !verifOnlyListChars(line))
		verifrt.Assume(verifNoSection(line))
	}
	verifrt.Assert(verifClean(content) == verifTrimLines(content), "text without unwanted markup is unchanged")
	verifrt.Reach("text")
}

// VerifCleanBold: paragraphs that begin and end with bold text are kept.
func VerifCleanBold() {
	verifConfig()
	content := verifWords("w", verifrt.Param("k", 6), "a'", "?", "'''", "x", "\n", "\n\n", "== h ==")
	lines := strings.Split(verifTrimLines(content), "\n")
	got := "\n" + verifClean(content) + "\n"
	// every line that is neither blank nor a heading is kept
	pos := 0
	for _, line := range lines {
		if line == "" || line[0] == '=' || !verifNoSection(line) {
			continue
		}
		i := strings.Index(got[pos:], "\n"+line+"\n")
		verifrt.Assert(i >= 0, "every line of text is kept in order")
		if i < 0 {
			return
		}
		pos += i + len(line) + 1
	}
	verifrt.Reach("lines")
}

func verifIn(s string, set ...string) bool {
	for _, x := range set {
		if s == x {
			return true
		}
	}
	return false
}

// VerifCleanLinks: a link is removed exactly if one of the prefixes of its target is not allowed.
func VerifCleanLinks() {
	verifConfig()
	cat := true
	switch verifrt.Choice("configured", 3) {
	case 1:
		// a category is unwanted, even when the prefix is allowed
		config.Current.AllowedLinkPrefixes = []string{"a", "c"}
	case 2:
		config.Current.AllowedLinkPrefixes = []string{"a", "c"}
		config.Current.CategoryPrefixes = []string{"b"}
		cat = false
	}
	inner := verifWords("w", verifrt.Param("k", 5), "acfx:|# ", "?", ":", "|", "a", "C", "file", "x")
	verifrt.Assume(strings.Trim(inner, " ") != "")
	pre := verifrt.StrMax("pre", 0, 1, "x[ ")
	verifrt.Assume(pre != "[")
	post := verifrt.StrMax("post", 0, 1, "x ")
	content := "p" + pre + "[[" + inner + "]]" + post + "q"

	target := inner
	if i := strings.Index(target, "|"); i >= 0 {
		target = target[:i]
	}
	segments := strings.Split(target, ":")
	prefixes := segments[:len(segments)-1]
	keep := true
	if inner[0] == ':' || len(prefixes) > 0 && verifIn(strings.ToLower(prefixes[0]), "f", "file") {
		// links to categories etc. and files stay
	} else {
		for _, p := range prefixes {
			p = strings.ToLower(p)
			if p != "" && !verifIn(p, "f", "file", "a") && (cat || p != "c") {
				keep = false
			}
		}
	}
	want := content
	if !keep {
		want = "p" + pre + post + "q"
	}
	verifrt.Assert(verifClean(content) == want, "exactly the links with unwanted prefixes are removed")
	verifrt.Reach("links")
}

// VerifCleanNestedLinks: links within the caption of a file are cleaned as well, nothing else.
func VerifCleanNestedLinks() {
	verifConfig()
	in1 := verifrt.Str("in1", 3, "acx:|")
	verifrt.Assume(in1[0] != ':' && in1[0] != '|')
	content := "p[[f:x|y[[" + in1 + "]]z]]q[[" + in1 + "]]r"
	keep := true
	target := in1
	if i := strings.Index(target, "|"); i >= 0 {
		target = target[:i]
	}
	segments := strings.Split(target, ":")
	for _, p := range segments[:len(segments)-1] {
		if p != "" && p != "a" {
			keep = false
		}
	}
	want := content
	if !keep {
		want = "p[[f:x|yz]]qr"
	}
	verifrt.Assert(verifClean(content) == want, "unwanted links are removed at every place, wanted ones are kept")
	verifrt.Reach("nested")
}

// VerifCleanComments: exactly the comments disappear (and the line if there is nothing else in it).
func VerifCleanComments() {
	verifConfig()
	content := verifWords("w", verifrt.Param("k", 6), "<!-> x\n", "?", "<!--", "-->", "\n", "x", "y")
	verifrt.Assume(!strings.Contains(content, "<!-->"))
	verifrt.Assume(!strings.Contains(content, "<!--->"))
	// reference
	rest := content
	out := ""
	for {
		i := strings.Index(rest, "<!--")
		e := -1
		if i >= 0 {
			e = strings.Index(rest[i:], "-->")
		}
		if e < 0 {
			out += rest
			break
		}
		out += rest[:i]
		rest = rest[i+e+3:]
		if strings.HasSuffix(out, "\n") && (rest == "" || rest[0] == '\n') {
			out = out[:len(out)-1]
		}
	}
	verifrt.Assert(verifClean(content) == verifTrimLines(out), "exactly the comments are removed")
	verifrt.Reach("comments")
}

// VerifCleanLines: exactly empty list entries and empty sections are removed.
func VerifCleanLines() {
	verifConfig()
	var lines []string
	n := verifrt.Param("lines", 4)
	for i := 0; i < n; i++ {
		switch verifrt.Choice("kind", 6) {
		case 0:
			lines = append(lines, "")
		case 1:
			lines = append(lines, verifrt.StrMax("list", 1, 2, "*#:;"))
		case 2:
			lines = append(lines, verifrt.Str("item", 1, "*#:;")+verifrt.Str("text", 1, "x=':-"))
		case 3:
			d := 1 + verifrt.Choice("depth", 2)
			m := strings.Repeat("=", d)
			lines = append(lines, m+" h"+verifrt.Str("h", 1, "abc'*")+" "+m)
		case 4:
			lines = append(lines, "'''b'''")
		case 5:
			lines = append(lines, verifrt.Str("line", 2, "x=' -"))
			verifrt.Assume(verifNoSection(strings.TrimSpace(lines[i])))
		}
	}
	content := strings.Join(lines, "\n")

	// reference
	var kept []string
	for _, l := range strings.Split(verifTrimLines(content), "\n") {
		if l == "" || !verifOnlyListChars(l) {
			kept = append(kept, l)
		}
	}
	depth := func(l string) int {
		if strings.HasPrefix(l, "==") {
			return 2
		}
		if strings.HasPrefix(l, "= ") && strings.HasSuffix(l, " =") && len(l) > 3 {
			return 1
		}
		if l == "'''b'''" {
			return 10
		}
		return 0
	}
	var out []string
	for i := 0; i < len(kept); i++ {
		d := depth(kept[i])
		if d == 0 {
			out = append(out, kept[i])
			continue
		}
		// what is the next line with content?
		j := i + 1
		for j < len(kept) && kept[j] == "" {
			j++
		}
		if j >= len(kept) {
			if d == 10 && i == len(kept)-1 {
				out = append(out, kept[i])
			}
			break
		}
		if nd := depth(kept[j]); nd > 0 && nd <= d {
			i = j - 1
			continue
		}
		out = append(out, kept[i])
	}
	verifrt.Assert(verifClean(content) == strings.Join(out, "\n"), "exactly empty list entries and empty sections are removed")
	verifrt.Reach("cleaned")
}
