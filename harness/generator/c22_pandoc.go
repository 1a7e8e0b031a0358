package generator

import (
	"os"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/verifrt"
)

// verifOptions splits the arguments of pandoc into options and page files. It fails for unknown options.
func verifOptions(args []string) (options [][2]string, files []string) {
	alias := map[string]string{"-f": "--from", "-t": "--to", "-o": "--output", "-r": "--from", "-w": "--to", "-M": "--metadata", "-c": "--css"}
	alone := map[string]bool{"--toc": true, "--table-of-contents": true}
	known := map[string]bool{"--from": true, "--to": true, "--output": true, "--metadata": true, "--toc-depth": true, "--data-dir": true, "--css": true, "--epub-cover-image": true, "--epub-embed-font": true}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			files = append(files, a)
			continue
		}
		if l, ok := alias[a]; ok {
			a = l
		}
		name, value := a, ""
		if alone[a] {
			options = append(options, [2]string{"--toc", ""})
			continue
		}
		if k := strings.Index(a, "="); k >= 0 {
			name, value = a[:k], a[k+1:]
		} else if i+1 < len(args) {
			i++
			value = args[i]
		}
		verifrt.Assert(known[name], "pandoc gets only options that belong to settings")
		options = append(options, [2]string{name, value})
	}
	return
}

// VerifPandoc: any settings and metadata, any pages, a failing or missing pandoc.
func VerifPandoc() {
	n := verifrt.Param("n", 2)
	pandoc := "pan"
	verifrt.FakeCommand("pan")
	fails := verifrt.Choice("fails", 3)
	verifrt.FailCommand("pan", fails == 1)
	if fails == 2 {
		pandoc = "no-such-command"
	}
	config.Current = config.NewDefaultConfig()
	c := config.Current
	c.CacheDir = verifrt.Dir() + "/c"
	os.MkdirAll(c.CacheDir, 0o777)
	c.PandocExecutable = pandoc
	c.OutputDriver = config.OutputDriverPandoc
	c.OutputType = []string{config.OutputTypeEpub2, config.OutputTypeEpub3}[verifrt.Choice("type", 2)]
	c.TocDepth = verifrt.Choice("depth", 7)
	c.StyleFile, c.CoverImage, c.PandocDataDir, c.FontFiles = "", "", "", []string{}
	want := map[string][]string{"--from": {"html"}, "--to": {c.OutputType}, "--output": {"/o x/b.epub"}}
	if verifrt.Choice("style", 2) == 1 {
		c.StyleFile = "/" + verifrt.StrMax("style", 1, n, "")
		want["--css"] = []string{c.StyleFile}
	}
	if verifrt.Choice("cover", 2) == 1 {
		c.CoverImage = "/" + verifrt.StrMax("cover", 1, n, "")
		want["--epub-cover-image"] = []string{c.CoverImage}
	}
	if verifrt.Choice("data", 2) == 1 {
		c.PandocDataDir = "/" + verifrt.StrMax("data", 1, n, "")
		want["--data-dir"] = []string{c.PandocDataDir}
	}
	fonts := verifrt.Choice("fonts", 3)
	for i := 0; i < fonts; i++ {
		c.FontFiles = append(c.FontFiles, "/"+verifrt.StrMax("font", 1, n, ""))
		want["--epub-embed-font"] = c.FontFiles
	}
	if c.TocDepth > 0 {
		want["--toc"] = []string{""}
		want["--toc-depth"] = []string{strconv.Itoa(c.TocDepth)}
	}
	m := config.Metadata{Title: verifrt.StrMax("title", 0, n, ""), Author: verifrt.StrMax("author", 0, n, ""), License: "CC, 4", Language: verifrt.StrMax("language", 0, n, ""), Date: "1. 2."}
	for _, s := range []string{c.StyleFile, c.CoverImage, c.PandocDataDir, m.Title, m.Author, m.Language, strings.Join(c.FontFiles, "")} {
		verifrt.Assume(!strings.Contains(s, "\x00"))
	}
	want["--metadata"] = []string{"title=" + m.Title, "author=" + m.Author, "rights=" + m.License, "language=" + m.Language, "date=" + m.Date}
	var pages []string
	k := verifrt.Choice("pages", verifrt.Param("pages", 2)+1)
	for i := 0; i < k; i++ {
		pages = append(pages, []string{"/c/html/a b.html", "/c/html/-x.html", "/c/html/=.html"}[verifrt.Choice("page", 3)])
	}

	err := GenerateEpub(pages, "/o x/b.epub", m)

	verifrt.Assert((err != nil) == (fails != 0), "exactly a failing pandoc is an error")
	log := verifrt.ExecLog()
	if fails == 2 {
		verifrt.Assert(len(log) == 0, "nothing else is executed")
		return
	}
	verifrt.Assert(len(log) == 1 && log[0][1] == "pan", "pandoc is executed once")
	options, files := verifOptions(log[0][2:])
	verifrt.Assert(len(files) == len(pages), "pandoc gets all pages")
	for i := range pages {
		verifrt.Assert(files[i] == pages[i], "pandoc gets the pages in order")
	}
	count := 0
	for _, w := range want {
		count += len(w)
	}
	verifrt.Assert(len(options) == count, "pandoc gets each setting once")
	seen := map[string]int{}
	for _, o := range options {
		name, value := o[0], o[1]
		if name == "--metadata" { // in any order
			found := false
			for _, w := range want[name] {
				found = verifrt.Or(found, value == w)
			}
			verifrt.Assert(found, "pandoc gets the metadata")
			key := value[:strings.Index(value, "=")]
			verifrt.Assert(seen[key] == 0, "each entry of the metadata is given once")
			seen[key]++
			continue
		}
		i := seen[name]
		seen[name]++
		verifrt.Assert(i < len(want[name]), "only the settings are given")
		verifrt.Assert(value == want[name][i], "each setting is given with its value")
	}
}
