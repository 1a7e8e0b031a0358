package main

import (
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"wiki2book/verifrt"
)

// verifInText is the text of an article with a heading of the highest level, formatting and an image.
func verifInText(i int, image string) string {
	return "Text no " + strconv.Itoa(i) + " '''b'''\\n\\n= Part =\\n\\n[[File:" + image + "|mini|cap " + strconv.Itoa(i) + "]]\\n\\nend " + strconv.Itoa(i)
}

// VerifInternalDriver: any book written by the internal output driver: any mode, titles, image names and optional files.
func VerifInternalDriver() {
	verifrt.Preempt(-1)
	d := verifrt.Dir()
	show := func(name, v string) { verifrt.Observe(name, strings.ReplaceAll(v, d, "~")) }
	mode := verifrt.Choice("mode", 3) // project, article, standalone
	n := 1
	if mode == 0 {
		n = 1 + verifrt.Choice("articles", verifrt.Param("articles", 3))
	}
	c := verifrt.Str("character", 1, " &'()+,;=@!%~aA0-")
	titles := []string{"A", "B " + c + "b", "C"}
	images := []string{"p" + c + "q.png", "own1.png", "p.jpg"}
	s := &verifWiki{texts: map[string]string{}}
	for i, t := range titles {
		s.texts[t] = verifInText(i, images[i])
	}
	verifrt.ServeHTTP(func(method, address, body string) (int, http.Header, string) {
		status, header, content := s.serve(method, address, body)
		if content == "image" {
			name, _ := url.PathUnescape(address[strings.LastIndex(address, "/")+1:])
			content += " " + name
		}
		return status, header, content
	})

	conf := `"cache-dir": "` + d + `/cache", "output-type": "epub3", "output-driver": "internal", "command-template-image-processing": "", "command-template-svg-to-png": ""`
	cover, style, fonts := verifrt.Bool("cover"), verifrt.Bool("style"), verifrt.Choice("fonts", 3)
	os.MkdirAll("files/other", 0o777)
	for _, f := range []string{"c.png", "s.css", "f.ttf", "other/f.ttf"} {
		os.WriteFile("files/"+f, []byte("content of "+f), 0o666)
	}
	if cover {
		conf += `, "cover-image": "files/c.png"`
	}
	if style {
		conf += `, "style-file": "files/s.css"`
	} else {
		conf += `, "style-file": ""`
	}
	conf += `, "font-files": ` + []string{"[]", `["files/f.ttf"]`, `["files/f.ttf", "files/other/f.ttf"]`}[fonts]

	var order []int
	title, author, language := "", "", ""
	switch mode {
	case 0:
		var articles []string
		for i := 0; i < n; i++ {
			k := verifrt.Choice("article", len(titles))
			order = append(order, k)
			articles = append(articles, titles[k])
		}
		title, author, language = "T "+c, "Me "+c, "de"
		conf += `, "metadata": {"title": "` + title + `", "author": "` + author + `", "language": "de"}, "articles": ` + verifJSON(articles)
		os.WriteFile("p.json", []byte("{"+conf+"}"), 0o666)
		show("configuration", conf)
		verifRun("project", "p.json", "-o", "o.epub")
	case 1:
		order = []int{verifrt.Choice("article", len(titles))}
		os.WriteFile("c.json", []byte("{"+conf+"}"), 0o666)
		verifRun("article", titles[order[0]], "-c", "c.json", "-o", "o.epub")
	case 2:
		order = []int{verifrt.Choice("article", len(titles))}
		title = titles[order[0]]
		os.WriteFile("c.json", []byte("{"+conf+"}"), 0o666)
		os.WriteFile(title+".wiki", []byte(strings.ReplaceAll(s.texts[title], "\\n", "\n")), 0o666)
		verifRun("-c", "c.json", "standalone", title+".wiki", "-o", "o.epub")
	}

	b, err := verifrt.OpenBook(d + "/o.epub")
	verifrt.Assert(err == nil, "the output file is an e-book")
	verifrt.Assert(len(verifrt.ExecLog()) == 0, "no command is executed")
	verifrt.Assert(b.Title == title && b.Author == author && b.Language == language, "wrong metadata")
	verifrt.Assert(len(b.Pages) == n, "every article is one page of the book")
	for i, k := range order {
		p := b.Pages[i]
		show("title", p.Title)
		verifrt.Assert(p.Title == titles[k], "the title of the article is the entry of the table of contents")
		verifrt.Assert(strings.Contains(p.Body, "<h1>"+titles[k]+"</h1>"), "the page starts with its title")
		at := 0
		for _, part := range []string{"Text no " + strconv.Itoa(k) + " <b>b</b>", "<h1>Part</h1>", ` src="`, "cap " + strconv.Itoa(k), "end " + strconv.Itoa(k)} {
			j := strings.Index(p.Body[at:], part)
			verifrt.Assert(j >= 0, "the page contains the whole article")
			at += j + len(part)
			if part == ` src="` {
				src := p.Body[at : at+strings.Index(p.Body[at:], `"`)]
				file, err := url.PathUnescape(src)
				verifrt.Assert(err == nil && strings.HasPrefix(file, "../"), "the image is part of the book")
				content, ok := b.Files[strings.TrimPrefix(file, "../")]
				verifrt.Assert(ok, "the image is part of the book ")
				verifrt.Assert(content == "image "+strings.ReplaceAll(strings.ToUpper(images[k][:1])+images[k][1:], " ", "_"), "the page shows its image")
			}
		}
		verifrt.Assert(strings.Count(p.Body, ` src="`) == 1, "the page contains nothing else")
		if style {
			verifrt.Assert(b.Files[strings.TrimPrefix(p.Style, "../")] == "content of s.css", "the page has the configured style")
		}
	}
	have := func(content string) (r bool) {
		for _, f := range b.Files {
			r = r || f == content
		}
		return r
	}
	verifrt.Assert((b.Cover != "") == cover, "the book has a cover exactly if there is one")
	if cover {
		verifrt.Assert(b.Files["images/"+b.Cover] == "content of c.png", "the cover is the configured one")
	}
	verifrt.Assert(have("content of s.css") == style, "the style is part of the book")
	verifrt.Assert(have("content of f.ttf") == (fonts > 0) && have("content of other/f.ttf") == (fonts > 1), "the fonts are part of the book")
	verifrt.Reach("book")
}
