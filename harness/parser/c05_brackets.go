package parser

import (
	"strings"
	"wiki2book/verifrt"
)

// verifCloseIndex is the specification of bracket matching: cut the text into opening and closing
// markers from left to right and take the first closing marker that is not paired with an opening
// marker before it.
func verifCloseIndex(content string, start int, open string, close string) int {
	depth := 0
	for rest, at := content[start:], start; ; {
		o := -1
		if open != close {
			o = strings.Index(rest, open)
		}
		c := strings.Index(rest, close)
		if c < 0 {
			return -1
		}
		if o >= 0 && o <= c {
			depth++
			rest, at = rest[o+len(open):], at+o+len(open)
			continue
		}
		if depth == 0 {
			return at + c
		}
		depth--
		rest, at = rest[c+len(close):], at+c+len(close)
	}
}

var verifPairs = [][2]string{{"[", "]"}, {"{{", "}}"}, {"{|", "|}"}, {"$$", "$$"}, {"[[", "]]"}, {"<x", "</x>"}}

// VerifBrackets: any text, any start position, every pair of markers.
func VerifBrackets() {
	n := verifrt.Param("n", 6)
	p := verifPairs[verifrt.Choice("pair", len(verifPairs))]
	content := verifrt.StrMax("content", 0, n, "")
	start := verifrt.Choice("start", len(content)+1)
	got := FindCorrespondingCloseToken(content, start, p[0], p[1])
	want := verifCloseIndex(content, start, p[0], p[1])
	verifrt.ObserveInt("index", got)
	verifrt.Assert(got == want, "index of the corresponding closing marker")
	verifrt.Reach("brackets")
}

// VerifBracketsIgnoreCase: the case-insensitive variant equals the case-sensitive one on lower-cased text.
func VerifBracketsIgnoreCase() {
	n := verifrt.Param("n", 8)
	pairs := [][2]string{{"<ref", "</ref>"}, {"<a>", "</a>"}, {"<Ab", ">"}}
	p := pairs[verifrt.Choice("pair", len(pairs))]
	content := verifrt.StrMax("content", 0, n, "<>/aAbBrREef ")
	start := verifrt.Choice("start", 2)
	verifrt.Assume(start <= len(content))
	got := FindCorrespondingCloseTokenIgnoreCase(content, start, p[0], p[1])
	want := verifCloseIndex(strings.ToLower(content), start, strings.ToLower(p[0]), strings.ToLower(p[1]))
	verifrt.ObserveInt("index", got)
	verifrt.Assert(got == want, "index of the corresponding closing marker, ignoring case")
	verifrt.Reach("bracketsIgnoreCase")
}

// VerifBracketsWords: any sequence of up to k opening, closing and partial markers and bytes, for long markers.
func VerifBracketsWords() {
	pairs := [][2]string{{"<ref", "</ref>"}, {"<nowiki>", "</nowiki>"}, {"{{", "}}"}, {"[", "]"}, {"<ref", ">"}, {"$$$", "$$$"}, {"((", ")"}}
	p := pairs[verifrt.Choice("pair", len(pairs))]
	open, close := p[0], p[1]
	content := ""
	k := verifrt.Choice("len", verifrt.Param("k", 6)+1)
	for i := 0; i < k; i++ {
		switch verifrt.Choice("piece", 5) {
		case 0:
			content += open
		case 1:
			content += close
		case 2:
			content += open[:len(open)-1]
		case 3:
			content += close[:len(close)-1]
		case 4:
			content += verifrt.Str("byte", 1, "")
		}
	}
	start := verifrt.Choice("start", 2) * min(len(open), len(content))
	got := FindCorrespondingCloseToken(content, start, open, close)
	verifrt.ObserveInt("index", got)
	verifrt.Assert(got == verifCloseIndex(content, start, open, close), "index of the corresponding closing marker")
	ascii := true
	for i := 0; i < len(content); i++ {
		ascii = ascii && content[i] < 0x80
	}
	verifrt.Assume(ascii)
	got = FindCorrespondingCloseTokenIgnoreCase(content, start, open, close)
	verifrt.Assert(got == verifCloseIndex(strings.ToLower(content), start, open, close), "index of the corresponding closing marker, ignoring case")
	verifrt.Reach("words")
}
