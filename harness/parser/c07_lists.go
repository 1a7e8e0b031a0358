package parser

import (
	"strconv"
	"strings"

	"wiki2book/verifrt"
)

type verifListLine struct {
	item   bool
	prefix string // list characters, ";" and ":" of description lists written as ":" except for the last one
	text   string
	raw    string // the list characters as written
	lists  []int  // identities of the lists around the item, outermost first
}

// verifFlatten lists all items below a list token in the order in which they are shown.
func verifFlatten(a *Article, token Token, kinds string, lists []int, next *int, out *[]verifListLine) {
	var items []ListItemToken
	kind := ""
	switch l := token.(type) {
	case UnorderedListToken:
		items, kind = l.Items, "*"
	case OrderedListToken:
		items, kind = l.Items, "#"
	case DescriptionListToken:
		items, kind = l.Items, ":"
	default:
		verifrt.Assert(false, "a list consists of lists")
	}
	*next++
	lists = append(append([]int{}, lists...), *next)
	for _, item := range items {
		last := kind
		switch item.Type {
		case NORMAL_ITEM:
			verifrt.Assert(kind != ":", "no normal items in description lists")
		case DESCRIPTION_ITEM:
			verifrt.Assert(kind == ":", "description items are in description lists")
		case DESCRIPTION_HEAD:
			verifrt.Assert(kind == ":", "description heads are in description lists")
			last = ";"
		default:
			verifrt.Assert(false, "items have a known type")
		}
		if item.Content != "" || len(item.SubLists) == 0 {
			*out = append(*out, verifListLine{true, kinds + last, strings.Trim(verifResolve(a, item.Content), " "), "", lists})
		}
		for _, sub := range item.SubLists {
			verifFlatten(a, sub, kinds+kind, lists, next, out)
		}
	}
}

func verifKind(prefix string) string {
	r := ""
	for i := 0; i < len(prefix); i++ {
		c := prefix[i : i+1]
		if c == ";" && i < len(prefix)-1 {
			c = ":"
		}
		r += c
	}
	return r
}

// verifListPage checks the lists of a page against its lines.
func verifListPage(content string, want []verifListLine) {
	t := verifTokenizer(nil)
	article, err := t.Tokenize(content, "t")
	verifrt.Assert(err == nil, "no error")
	var got []verifListLine
	next := 0
	for _, line := range strings.Split(article.Content, "\n") {
		if token, ok := article.TokenMap[line]; ok {
			verifFlatten(article, token, "", nil, &next, &got)
		} else {
			got = append(got, verifListLine{text: line})
		}
	}
	verifrt.Assert(len(got) == len(want), "every line is kept exactly once")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		verifrt.Assert(got[i].item == want[i].item, "exactly the lines with list characters are items")
		verifrt.Assert(got[i].text == want[i].text, "the texts are kept in order")
		verifrt.Assert(got[i].prefix == want[i].prefix, "every item has its kind and nesting level")
		if i == 0 || len(got[i].lists) == 0 {
			continue
		}
		a, b := want[i-1].raw, want[i].raw
		for k := 0; k < len(a) && k < len(b) && a[k] == b[k]; k++ {
			verifrt.Assert(k < len(got[i-1].lists) && k < len(got[i].lists) && got[i-1].lists[k] == got[i].lists[k], "consecutive items with the same list characters are in the same list")
		}
	}
	verifrt.Reach("lists")
}

// VerifLists: any page of lines with any list prefixes.
func VerifLists() {
	verifConfig()
	n := verifrt.Param("lines", 3)
	depth := verifrt.Param("depth", 3)
	var src []string
	var want []verifListLine
	special := -1 // the line with blanks around and another letter at the end
	if k := verifrt.Choice("special", verifrt.Param("specials", 2)); k > 0 {
		special = n - k
	}
	for i := 0; i < n; i++ {
		prefix := verifrt.StrMax("prefix", 0, depth, "*#:;")
		text := "t" + string(rune('0'+i))
		lead := ""
		if i == special {
			lead = "  "
			if prefix != "" { // list characters behind a blank belong to the text
				text = verifrt.Str("behind", 1, "*a") + text
			}
			text = " " + text + verifrt.Str("text", 1, verifPlain+"*#; =-")
		}
		src = append(src, lead+prefix+text)
		want = append(want, verifListLine{prefix != "", verifKind(prefix), strings.Trim(text, " "), prefix, nil})
		if prefix == "" {
			// text lines stay as they are, apart from blanks around them
			want[i].text = strings.Trim(text, " ")
		}
	}
	verifListPage(strings.Join(src, "\n"), want)
}

// VerifListItems: one list with any item texts; "; head : item" is a head and an item.
func VerifListItems() {
	verifConfig()
	n := verifrt.Param("n", 4)
	prefix := verifrt.StrMax("prefix", 1, 2, "*#:;")
	text := verifrt.Str("first", 1, verifPlain+" =-") + verifrt.StrMax("text", 0, n, "a:;*# =-")
	trimmed := strings.Trim(text, " ")
	verifrt.Assume(trimmed != "")
	last := prefix[len(prefix)-1:]
	want := []verifListLine{{true, verifKind(prefix), trimmed, prefix, nil}}
	if i := strings.Index(text, ":"); i >= 0 && last == ";" {
		item := strings.Trim(text[i+1:], " ")
		head := strings.Trim(text[:i], " ")
		want[0].text = head
		want = append(want, verifListLine{true, verifKind(prefix[:len(prefix)-1] + ":"), item, prefix, nil})
	}
	content := "x\n" + prefix + text + "\ny"
	want = append([]verifListLine{{text: "x"}}, want...)
	want = append(want, verifListLine{text: "y"})
	verifListPage(content, want)
}

// VerifListsMany: long and deep lists.
func VerifListsMany() {
	verifConfig()
	verifrt.StepLimit(60000000)
	n := verifrt.Param("lines", 40)
	c := verifrt.Str("character", 1, "*#:;")
	d := verifrt.Str("other", 1, "*#:;")
	depth := 1 + verifrt.Choice("depth", 8)
	pattern := verifrt.Choice("pattern", 4)
	var src []string
	var want []verifListLine
	for i := 0; i < n; i++ {
		k := depth
		switch pattern {
		case 1:
			k = 1 + i%depth // deeper with every line
		case 2:
			k = 1 + (n-i)%depth // less deep with every line
		case 3:
			k = 1 + (i%2)*(depth-1)
		}
		prefix := strings.Repeat(c, k)
		if i%5 == 4 {
			prefix = prefix[:k-1] + d
		}
		text := "t" + strconv.Itoa(i)
		src = append(src, prefix+text)
		want = append(want, verifListLine{true, verifKind(prefix), text, prefix, nil})
	}
	verifListPage(strings.Join(src, "\n"), want)
}
