package parser

import (
	"errors"
	"strings"

	"wiki2book/config"
	"wiki2book/verifrt"
	"wiki2book/wikipedia"
)

// verifTokenizer is a tokenizer whose templates evaluate to what eval returns (nil: evaluation fails).
func verifTokenizer(eval func(template, key string) (string, error)) Tokenizer {
	w := wikipedia.NewMockWikipediaService()
	if eval == nil {
		eval = func(template, key string) (string, error) { return "", errors.New("no template expected") }
	}
	w.EvaluateTemplateFunc = eval
	return NewTokenizer(w)
}

// verifConfig is the default configuration with short names, so that short texts reach all markup.
func verifConfig() {
	c := config.NewDefaultConfig()
	c.FilePrefixes = []string{"f", "file"}
	c.CategoryPrefixes = []string{"c"}
	c.AllowedLinkPrefixes = []string{"a"}
	c.IgnoredMediaTypes = []string{"g"}
	c.CommandTemplateSvgToPng = ""
	c.CommandTemplatePdfToPng = ""
	config.Current = c
}

const (
	verifAlnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	// ASCII characters without any meaning in wikitext (outside of tables and lists)
	verifPlain = verifAlnum + ".,()?!%&/\"+_@^~"
)

var _ = verifrt.Symbolic

// verifResolve puts texts kept verbatim in their place.
func verifResolve(a *Article, s string) string {
	out := ""
	for i := strings.Index(s, "$$TOKEN_"); i >= 0; i = strings.Index(s, "$$TOKEN_") {
		e := i + 2 + strings.Index(s[i+2:], "$$") + 2
		if t, ok := a.TokenMap[s[i:e]].(NowikiToken); ok {
			out += s[:i] + t.Content
		} else {
			out += s[:e]
		}
		s = s[e:]
	}
	return out + s
}

// verifWords is any sequence of up to k words of the vocabulary; "?" stands for one symbolic byte.
func verifWords(name string, k int, alphabet string, vocab ...string) string {
	s := ""
	n := verifrt.Choice(name+".len", k+1)
	for i := 0; i < n; i++ {
		w := vocab[verifrt.Choice(name, len(vocab))]
		if w == "?" {
			w = verifrt.Str(name+".byte", 1, alphabet)
		}
		s += w
	}
	return s
}
