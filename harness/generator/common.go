package generator

import (
	"errors"
	"strings"

	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/util"
	"wiki2book/verifrt"
	"wiki2book/wikipedia"
)

func verifConfig() {
	c := config.NewDefaultConfig()
	c.FilePrefixes = []string{"f", "file"}
	c.CategoryPrefixes = []string{"c"}
	c.AllowedLinkPrefixes = []string{"a"}
	c.IgnoredMediaTypes = []string{"g"}
	c.CommandTemplateSvgToPng = ""
	c.CommandTemplatePdfToPng = ""
	config.Current = c
}

// verifWords is any sequence of up to k words of the vocabulary; "?" stands for one symbolic byte.
func verifWords(name string, k int, alphabet string, vocab ...string) string {
	s := ""
	n := verifrt.Choice(name+".len", k+1)
	for i := 0; i < n; i++ {
		w := vocab[verifrt.Choice(name, len(vocab))]
		if w == "?" {
			w = verifrt.Str(name+".byte", 1, alphabet)
		}
		s += w
	}
	return s
}

// verifService evaluates templates to eval and formulas to an SVG file.
func verifService(eval func(string) string) *wikipedia.MockWikipediaService {
	w := wikipedia.NewMockWikipediaService()
	w.EvaluateTemplateFunc = func(template, key string) (string, error) {
		if eval == nil {
			return "", errors.New("no template expected")
		}
		return eval(template), nil
	}
	w.RenderMathFunc = func(math string) (string, string, error) {
		return "m.svg", config.Current.CacheDir + "/math/m.png", nil
	}
	fs := util.NewDefaultMockFilesystem()
	fs.ReadFileFunc = func(name string) ([]byte, error) {
		return []byte(`<svg width="1ex" height="2ex" style="s"></svg>`), nil
	}
	util.CurrentFilesystem = fs
	return w
}

// verifTokens lists the keys in a text.
func verifKeys(s string) []string {
	var keys []string
	for {
		i := strings.Index(s, "$$TOKEN_")
		if i < 0 {
			return keys
		}
		e := strings.Index(s[i+2:], "$$")
		if e < 0 {
			return append(keys, s[i:])
		}
		keys = append(keys, s[i:i+2+e+2])
		s = s[i+2+e+2:]
	}
}

// verifTexts returns all texts of a token in the order in which they are shown.
func verifTexts(t parser.Token) []string {
	var r []string
	switch t := t.(type) {
	case parser.HeadingToken:
		r = append(r, t.Content)
	case parser.ImageToken:
		r = append(r, t.Caption.Content)
	case parser.InternalLinkToken:
		r = append(r, t.LinkText)
	case parser.ExternalLinkToken:
		r = append(r, t.LinkText)
	case parser.StringToken:
		r = append(r, t.String)
	case parser.UnorderedListToken:
		r = verifItems(t.Items)
	case parser.OrderedListToken:
		r = verifItems(t.Items)
	case parser.DescriptionListToken:
		r = verifItems(t.Items)
	case parser.TableToken:
		for _, row := range t.Rows {
			for _, col := range row.Columns {
				r = append(r, col.Content)
			}
		}
		r = append(r, t.Caption.Content)
	case parser.RefDefinitionToken:
		r = append(r, t.Content)
	}
	return r
}

func verifItems(items []parser.ListItemToken) []string {
	var r []string
	for _, i := range items {
		r = append(r, i.Content)
		for _, s := range i.SubLists {
			r = append(r, verifTexts(s)...)
		}
	}
	return r
}
