package config

import (
	"os"
	"path/filepath"
	"strings"

	"wiki2book/verifrt"
)

// verifRejected validates a configuration and counts the errors.
func verifRejected(c *Configuration) int {
	n := 0
	old := defaultValidationErrorHandler
	defaultValidationErrorHandler = func(err error) {
		verifrt.Assert(err != nil, "rejected without an error")
		n++
	}
	c.AssertValidity()
	defaultValidationErrorHandler = old
	return n
}

func verifIn(s string, words ...string) bool {
	r := false
	for _, w := range words {
		r = verifrt.Or(r, s == w)
	}
	return r
}

// verifWord is one of the words, almost one of the words or any text.
func verifWord(name string, words ...string) string {
	n := verifrt.Param("n", 3)
	k := verifrt.Choice(name, len(words)+1)
	if k == len(words) {
		return verifrt.StrMax(name+" text", 0, n, "")
	}
	w := words[k]
	switch verifrt.Choice(name+" change", 4) {
	case 1: // another last character
		return w[:len(w)-1] + verifrt.Str(name+" last", 1, "")
	case 2: // another first character
		return verifrt.Str(name+" first", 1, "") + w[1:]
	case 3: // one more
		return w + verifrt.Str(name+" more", 1, "")
	}
	return w
}

// VerifValidityNumbers: all numbers at once, any value.
func VerifValidityNumbers() {
	c := NewDefaultConfig()
	c.TocDepth = verifrt.Int("toc-depth", -1<<62, 1<<62)
	c.WorkerThreads = verifrt.Int("worker-threads", -1<<62, 1<<62)
	c.CacheMaxSize = int64(verifrt.Int("cache-max-size", -1<<62, 1<<62))
	c.CacheMaxAge = int64(verifrt.Int("cache-max-age", -1<<62, 1<<62))
	valid := c.TocDepth >= 0 && c.TocDepth <= 6 && c.WorkerThreads >= 1 && c.CacheMaxSize > 0 && c.CacheMaxAge > 0
	rejected := verifRejected(c) > 0
	verifrt.ObserveBool("rejected", rejected)
	verifrt.Assert(rejected == !valid, "wrong decision about the numbers of a configuration")
}

// VerifValidityWords: settings with a list of allowed values.
func VerifValidityWords() {
	c := NewDefaultConfig()
	valid := true
	switch verifrt.Choice("setting", 3) {
	case 0:
		c.OutputType = verifWord("type", "epub2", "epub3", "stats-json", "stats-txt")
		c.OutputDriver = verifWord("driver", "pandoc", "internal")
		valid = verifrt.Or(verifrt.And(c.OutputDriver == "pandoc", verifIn(c.OutputType, "epub2", "epub3")),
			verifrt.And(c.OutputDriver == "internal", verifIn(c.OutputType, "epub3", "stats-json", "stats-txt")))
		err := VerifyOutputAndDriver(c.OutputType, c.OutputDriver)
		verifrt.Assert((err == nil) == valid, "wrong decision about output type and driver")
	case 1:
		c.MathConverter = verifWord("converter", "none", "wikimedia", "template")
		valid = verifIn(c.MathConverter, "none", "wikimedia", "template")
	case 2:
		c.CacheEvictionStrategy = verifWord("strategy", "none", "lru", "largest")
		valid = verifIn(c.CacheEvictionStrategy, "none", "lru", "largest")
	}
	c.TocDepth = verifrt.Int("toc-depth", -1, 7)
	rejected := verifRejected(c) > 0
	valid = verifrt.And(valid, verifrt.And(c.TocDepth >= 0, c.TocDepth <= 6))
	verifrt.ObserveBool("rejected", rejected)
	verifrt.Assert(rejected == verifrt.Not(valid), "wrong decision about the settings of a configuration")
}

// verifTemplate is a command out of up to k pieces.
func verifTemplate(name string, k int) string {
	pieces := []string{"", "{INPUT}", "{OUTPUT}", "{INPUT", "OUTPUT}", "{input}", " ", "*"}
	s := ""
	for i := 0; i < k; i++ {
		j := verifrt.Choice(name+" piece", len(pieces))
		if j == 0 {
			break
		}
		if pieces[j] == "*" {
			s += verifrt.Str(name+" byte", 1, "")
		} else {
			s += pieces[j]
		}
	}
	return s
}

// VerifValidityTemplates: each of the command templates.
func VerifValidityTemplates() {
	c := NewDefaultConfig()
	k := verifrt.Param("k", 3)
	s := verifTemplate("template", k)
	valid := strings.Contains(s, "{INPUT}") && strings.Contains(s, "{OUTPUT}")
	which := verifrt.Choice("which", 5)
	switch which {
	case 0:
		c.CommandTemplateSvgToPng = s
	case 1:
		c.CommandTemplateMathSvgToPng = s
	case 2:
		c.CommandTemplateImageProcessing = s
	case 3:
		c.CommandTemplatePdfToPng = s
	case 4:
		c.CommandTemplateWebpToPng = s
	}
	if s == "" && which != 1 { // no conversion
		valid = true
	}
	rejected := verifRejected(c) > 0
	verifrt.ObserveBool("rejected", rejected)
	verifrt.Assert(rejected == !valid, "wrong decision about a command template")
	verifrt.Assert(c.ShouldConvertSvgToPng() == (c.CommandTemplateSvgToPng != ""), "wrong conversion of SVG")
	verifrt.Assert(c.ShouldConvertPdfToPng() == (c.CommandTemplatePdfToPng != ""), "wrong conversion of PDF")
	verifrt.Assert(c.ShouldConvertWebpToPng() == (c.CommandTemplateWebpToPng != ""), "wrong conversion of WebP")
}

// VerifValidityRejects: loading or merging an invalid configuration reports it.
func VerifValidityRejects() {
	Current = NewDefaultConfig()
	n := 0
	defaultValidationErrorHandler = func(err error) { n++ }
	digits := verifrt.StrMax("digits", 1, 2, "0123456789")
	verifrt.Assume(len(digits) == 1 || digits[0] != '0')
	minus := verifrt.Choice("minus", 2) == 1
	small := len(digits) == 1 && digits[0] <= '6'
	zero := digits == "0"
	text := digits
	if minus {
		text = "-" + digits
	}
	name := []string{"toc-depth", "worker-threads", "cache-max-size", "cache-max-age"}[verifrt.Choice("setting", 4)]
	var valid bool
	if name == "toc-depth" {
		valid = small && (!minus || zero)
	} else {
		valid = !minus && !zero
	}
	content := `{"` + name + `": ` + text + `}`
	os.WriteFile("c.json", []byte(content), 0o666)
	if verifrt.Choice("project", 2) == 1 {
		p, err := LoadProject("c.json")
		verifrt.Assert(err == nil, "project not loaded")
		MergeIntoCurrentConfig(&p.Configuration)
	} else {
		err := LoadConfig("c.json")
		verifrt.Assert(err == nil || n > 0, "configuration not loaded")
	}
	verifrt.ObserveBool("rejected", n > 0)
	verifrt.Assert((n > 0) == !valid, "wrong decision about a loaded configuration")
}

// VerifConfigFileBroken: a file that is missing or not JSON yields an error.
func VerifConfigFileBroken() {
	Current = NewDefaultConfig()
	defaultValidationErrorHandler = func(err error) { panic(err) }
	texts := []string{"{}", " { } ", `{"toc-depth": 3}`, "", "{", "[]", "x", `{"toc-depth": "3"}`, `{"cache-dir": 3}`, `{"file-prefixes": "x"}`, `{"toc-depth": 3`}
	k := verifrt.Choice("text", len(texts))
	text := texts[k]
	missing := verifrt.Choice("missing", 2) == 1
	if !missing {
		os.WriteFile("c.json", []byte(text), 0o666)
	}
	ok := !missing && k < 3
	if verifrt.Choice("project", 2) == 1 {
		p, err := LoadProject("c.json")
		verifrt.Assert((err == nil) == ok, "wrong decision about a project file")
		verifrt.Assert(err != nil || p != nil, "no project")
	} else {
		err := LoadConfig("c.json")
		verifrt.Assert((err == nil) == ok, "wrong decision about a configuration file")
	}
}

// all printable ASCII characters without escaping in JSON
const verifPathText = " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// VerifConfigPaths: the paths of a configuration file.
func VerifConfigPaths() {
	Current = NewDefaultConfig()
	defaultValidationErrorHandler = func(err error) { panic(err) }
	d := verifrt.Dir()
	os.MkdirAll("conf/sub", 0o777)
	i := verifrt.Choice("file", 5)
	file := []string{"c.json", "conf/c.json", "./conf/sub/../c.json", d + "/conf/sub/c.json", "conf//sub/c.json"}[i]
	base := []string{d, d + "/conf", d + "/conf", d + "/conf/sub", d + "/conf/sub"}[i]

	text := verifrt.StrMax("path", 1, verifrt.Param("n", 3), verifPathText)
	abs := text[0] == '/'
	expected := text
	if !abs {
		expected = base + "/" + text
	}
	name := []string{"cache-dir", "style-file", "cover-image", "pandoc-data-dir", "font-files"}[verifrt.Choice("setting", 5)]
	value := `"` + text + `"`
	before, after := 0, 0
	if name == "font-files" {
		before, after = verifrt.Choice("fonts before", 2), verifrt.Choice("fonts after", 2)
		value = "["
		if before == 1 {
			value += `"/f/x.ttf", `
		}
		value += `"` + text + `"`
		if after == 1 {
			value += `, "y.ttf"`
		}
		value += "]"
	}
	os.WriteFile(file, []byte(`{"`+name+`": `+value+`}`), 0o666)
	err := LoadConfig(file)
	verifrt.Assert(err == nil, "configuration not loaded")

	def := NewDefaultConfig()
	check := func(setting, actual, old string) {
		e := old
		if setting == name {
			e = expected
		}
		if e == "" {
			verifrt.Assert(actual == "", "value for an empty path")
			return
		}
		verifrt.Assert(filepath.IsAbs(actual), "relative path after loading")
		verifrt.Assert(filepath.Clean(actual) == filepath.Clean(e), "wrong path for "+setting)
	}
	check("cache-dir", Current.CacheDir, def.CacheDir)
	check("style-file", Current.StyleFile, def.StyleFile)
	check("cover-image", Current.CoverImage, def.CoverImage)
	check("pandoc-data-dir", Current.PandocDataDir, def.PandocDataDir)
	f := Current.FontFiles
	if name != "font-files" {
		verifrt.Assert(len(f) == 0, "fonts out of nowhere")
		return
	}
	verifrt.Assert(len(f) == before+1+after, "wrong number of fonts")
	if before == 1 {
		verifrt.Assert(f[0] == "/f/x.ttf", "wrong path for an absolute font")
	}
	check("font-files", f[before], "")
	if after == 1 {
		verifrt.Assert(f[before+1] == base+"/y.ttf", "wrong path for a relative font")
	}
}
