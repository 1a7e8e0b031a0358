package generator

import (
	"strconv"
	"strings"

	"wiki2book/verifrt"
)

// verifPageTree builds any page of nested markup and keeps track of the words it has to show.
type verifPageTree struct {
	letters   string
	budget    int
	words     int
	templates map[string]string
	shown     []string // in the text
	notes     []string // in references, shown in their list
}

const (
	verifNoLink = 1 << iota
	verifNoRef
	verifNoMedia
	verifNoBlocks
	verifInRef
	verifNoBold
	verifNoColon
	verifNoTemplate
)

// word is a new word; it is shown unless hidden.
func (t *verifPageTree) word(flags int, hidden bool) string {
	t.words++
	w := "Q" + strconv.Itoa(t.words) + verifrt.Str("letter", 1, t.letters)
	if !hidden {
		if flags&verifInRef != 0 {
			t.notes = append(t.notes, w)
		} else {
			t.shown = append(t.shown, w)
		}
	}
	return w
}

func (t *verifPageTree) template(content string) string {
	k := "{{t" + strconv.Itoa(len(t.templates)) + "}}"
	t.templates[k] = content
	return k
}

// inline is any sequence of words and inline markup, separated by blanks.
func (t *verifPageTree) inline(flags int) string {
	s := t.word(flags, false)
	for t.budget > 0 {
		k := verifrt.Choice("inline", 15)
		if k == 0 {
			break
		}
		t.budget--
		e := ""
		switch k {
		case 1:
			e = t.word(flags, false)
		case 2, 3, 4:
			verifrt.Assume(flags&verifNoBold == 0)
			q := []string{"''", "'''", "'''''"}[k-2]
			e = q + t.inline(flags|verifNoBold) + q
		case 5:
			verifrt.Assume(flags&verifNoLink == 0)
			e = "[[target|" + t.inline(flags|verifNoLink|verifNoMedia) + "]]"
		case 6:
			verifrt.Assume(flags&(verifNoLink|verifNoColon) == 0)
			e = "[http://x.y " + t.inline(flags|verifNoLink|verifNoMedia) + "]"
		case 7:
			verifrt.Assume(flags&verifNoRef == 0)
			e = "<ref>" + t.inline(flags|verifNoRef|verifInRef|verifNoMedia) + "</ref>"
		case 8:
			e = "<nowiki>" + t.word(flags, false) + " ''*</nowiki>"
		case 9:
			verifrt.Assume(flags&verifNoTemplate == 0)
			e = t.template(t.inline(flags | verifNoTemplate))
		case 10:
			e = "<!-- " + t.word(flags, true) + " -->"
		case 11:
			e = "<math>" + t.word(flags, true) + "</math>"
		case 12:
			e = "[[c:" + t.word(flags, true) + "]]"
			verifrt.Assume(flags&(verifNoLink|verifNoColon) == 0)
		case 13:
			verifrt.Assume(flags&(verifNoMedia|verifNoColon) == 0)
			e = "[[f:x.jpg|20px]]"
		case 14:
			e = "<sub>" + t.inline(flags) + "</sub>"
		}
		s += " " + e
	}
	return s
}

// blocks is any sequence of blocks.
func (t *verifPageTree) blocks(flags int) string {
	s := ""
	for t.budget > 0 {
		k := verifrt.Choice("block", 13)
		if k == 0 {
			break
		}
		t.budget--
		b := ""
		switch k {
		case 1:
			b = t.inline(flags)
		case 2:
			b = "* " + t.inline(flags|verifNoMedia) + "\n* " + t.inline(flags|verifNoMedia)
		case 3:
			b = "* " + t.inline(flags|verifNoMedia) + "\n*# " + t.inline(flags|verifNoMedia) + "\n*# " + t.word(flags, false) + "\n** " + t.word(flags, false)
		case 4:
			b = "; " + t.inline(flags|verifNoMedia|verifNoColon) + " : " + t.inline(flags|verifNoMedia) + "\n: " + t.word(flags, false)
		case 5:
			b = "{|\n! " + t.inline(flags|verifNoMedia) + " !! " + t.word(flags, false) + "\n|- class=x\n| colspan=2 | " + t.inline(flags|verifNoMedia) + "\n|}"
		case 6:
			verifrt.Assume(flags&verifNoBlocks == 0)
			b = "{| class=x\n| " + t.word(flags, false) + " || " + t.word(flags, false) + "\n|\n" + t.blocks(flags|verifNoBlocks) + "\n|}"
		case 7:
			b = "== " + t.inline(flags|verifNoMedia) + " ==\n" + t.word(flags, false)
			verifrt.Assume(flags&verifNoBlocks == 0)
		case 8:
			b = "[[f:x.jpg|mini|100px|" + t.inline(flags|verifNoMedia) + "]]"
		case 9:
			b = "<gallery>\nf:x.jpg|" + t.inline(flags|verifNoMedia|verifNoLink) + "\nf:y.jpg|" + t.word(flags, false) + "\n</gallery>"
		case 10:
			verifrt.Assume(flags&verifNoTemplate == 0)
			b = t.template(t.blocks(flags | verifNoBlocks | verifNoTemplate))
		case 11:
			b = "<!-- " + t.word(flags, true) + "\n -->"
		case 12:
			b = "# " + t.inline(flags|verifNoMedia) + "\n#: " + t.word(flags, false)
		}
		s += b + []string{"\n", "\n\n"}[verifrt.Choice("break", 2)]
	}
	return s
}

// verifWordsOf are the words shown by an HTML text.
func verifWordsOf(html string) string {
	s := ""
	for i := 0; i < len(html); i++ {
		if html[i] == 'Q' && i+2 < len(html) {
			n := 3
			if html[i+2] >= '0' && html[i+2] <= '9' {
				n = 4
			}
			s += html[i:i+n] + " "
		}
	}
	return s
}

func verifAllWords(blocks bool, budget int, letters string) {
	verifConfig()
	t := &verifPageTree{letters: letters, budget: budget, templates: map[string]string{}}
	page := ""
	if blocks {
		page = t.blocks(0)
	} else {
		page = t.inline(0)
	}
	t.show(page + "\n" + t.word(0, false) + "\n<references />")
}

// show converts the page and compares the shown words.
func (t *verifPageTree) show(page string) {
	verifrt.Observe("page", page)
	html, _, _, _, err := verifPageTemplates(page, func(s string) string { return t.templates[s] })
	verifrt.Assert(err == nil, "the page is converted")
	if err != nil {
		return
	}
	verifrt.Observe("html", html)
	want := strings.Join(append(t.shown, t.notes...), " ") + " "
	verifrt.Observe("want", want)
	verifrt.Assert(verifWordsOf(html) == want, "every word of the page is shown exactly once, in its order, and nothing else")
	verifrt.Reach("page")
}

// VerifWordsInline: any paragraph of nested inline markup.
func VerifWordsInline() {
	verifAllWords(false, verifrt.Param("budget", 3), "abcxyzABCXYZ")
}

// VerifWordsBlocks: any page of nested blocks.
func VerifWordsBlocks() {
	verifAllWords(true, verifrt.Param("budget", 3), "abcxyzABCXYZ")
}

// VerifWordsLetters: pages whose words end with any kind of character.
func VerifWordsLetters() {
	blocks := verifrt.Bool("blocks")
	budget := verifrt.Param("budget", 2)
	if blocks {
		budget--
	}
	verifAllWords(blocks, budget, "abcdefghijlmnopqrstuvwxyzABCDE.,?&()/-\"%+@^~_$#!")
}

// form is one block of any shape: tables with any rows, cells and caption, lists with any markers, galleries with any
// images, headings of any level.
func (t *verifPageTree) form(kind int) string {
	b := ""
	switch kind {
	case 0:
		b = "{|" + []string{"", " class=x"}[verifrt.Choice("attributes", 2)] + "\n"
		caption := []string(nil)
		if k := verifrt.Choice("caption", 3); k > 0 {
			// shown below the table
			b += []string{"|+ ", "|+ style=x | "}[k-1] + t.word(0, false) + "\n"
			caption = append(caption, t.shown[len(t.shown)-1])
			t.shown = t.shown[:len(t.shown)-1]
		}
		rows := verifrt.Int("rows", 0, 2)
		for i := 0; i < rows; i++ {
			b += []string{"|-\n", "|- class=x\n"}[verifrt.Choice("row", 2)]
			cells := verifrt.Int("cells", 0, 2)
			mark := []string{"|", "!"}[verifrt.Choice("mark", 2)]
			sameLine := cells == 2 && verifrt.Bool("same line")
			for j := 0; j < cells; j++ {
				if j == 0 || !sameLine {
					b += mark
				} else {
					b += mark + mark
				}
				b += []string{" ", " colspan=2 | "}[verifrt.Choice("cell", 2)] + t.word(0, false)
				if !sameLine || j == cells-1 {
					b += "\n"
				} else {
					b += " "
				}
			}
		}
		b += "|}"
		t.shown = append(t.shown, caption...)
	case 1:
		lines := verifrt.Int("lines", 1, 3)
		for i := 0; i < lines; i++ {
			b += []string{"*", "#", ":", ";", "**", "*#", "*:", "##", "::", "***"}[verifrt.Choice("prefix", 10)] + " " + t.word(0, false)
			if i < lines-1 {
				b += "\n"
			}
		}
	case 2:
		b = "<gallery" + []string{"", " mode=packed"}[verifrt.Choice("attributes", 2)] + ">\n"
		images := verifrt.Int("images", 0, 2)
		for i := 0; i < images; i++ {
			b += "f:x" + strconv.Itoa(i) + ".jpg"
			if verifrt.Bool("caption") {
				b += "|" + t.word(0, false)
			}
			b += "\n"
		}
		b += "</gallery>"
	case 3:
		headings := verifrt.Int("headings", 1, 2)
		for i := 0; i < headings; i++ {
			marks := "======"[:verifrt.Int("level", 1, 6)]
			b += marks + " " + t.word(0, false) + " " + marks + "\n"
			b += t.word(0, false) // sections without any text are left out
			if i < headings-1 {
				b += "\n"
			}
		}
	case 4:
		e := []string{"div", "blockquote", "center", "p", "pre"}[verifrt.Choice("element", 5)]
		b = "<" + e + ">" + []string{"", "\n"}[verifrt.Choice("inner break", 2)] + t.word(0, false) + "</" + e + ">"
	}
	return b
}

// VerifWordsForms: blocks of any shape, directly or with blank lines behind one another.
func VerifWordsForms() {
	verifConfig()
	t := &verifPageTree{letters: "abcxyzABCXYZ", templates: map[string]string{}}
	page := ""
	if verifrt.Bool("text before") {
		page = t.word(0, false) + []string{"\n", "\n\n"}[verifrt.Choice("break", 2)]
	}
	forms := verifrt.Int("forms", 1, verifrt.Param("forms", 1))
	for i := 0; i < forms; i++ {
		page += t.form(verifrt.Choice("form", 5)) + []string{"\n", "\n\n"}[verifrt.Choice("break", 2)]
	}
	t.show(page + t.word(0, false) + "\n<references />")
}
