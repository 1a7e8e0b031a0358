package main

import (
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifWiki is a small Wikipedia: articles with texts, images, templates and formulas.
type verifWiki struct {
	version  string // part of every content
	texts    map[string]string
	requests []string
	bad      []string
}

func (s *verifWiki) serve(method, address, body string) (int, http.Header, string) {
	s.requests = append(s.requests, method+" "+address+" "+body)
	wiki := "https://en.wikipedia.org/w/api.php?"
	commons := "https://commons.wikimedia.org/w/api.php?"
	switch {
	case strings.HasPrefix(address, wiki) || strings.HasPrefix(address, commons):
		isWiki := strings.HasPrefix(address, wiki)
		query := address[strings.Index(address, "?")+1:]
		if i := strings.Index(query, "&page="); i >= 0 {
			page, _ := url.QueryUnescape(query[i+len("&page="):])
			page = strings.ReplaceAll(page, "_", " ")
			text, ok := s.texts[page]
			if strings.HasPrefix(page, "File:") {
				// some images only exist in one of the wikis
				ok = isWiki == strings.Contains(page, "own")
			} else {
				ok = ok && isWiki
			}
			if !ok {
				return 200, http.Header{"Mediawiki-Api-Error": []string{"missingtitle"}}, "{}"
			}
			return 200, nil, `{"parse": {"title": "` + page + `", "wikitext": {"*": "` + text + s.version + `"}}}`
		}
		if i := strings.Index(query, "&text="); i >= 0 && isWiki {
			t, _ := url.QueryUnescape(query[i+len("&text="):])
			return 200, nil, `{"expandtemplates": {"wikitext": "(` + strings.Trim(t, "{}") + s.version + `)"}}`
		}
	case strings.HasPrefix(address, "https://upload.wikimedia.org/wikipedia/"):
		return 200, nil, "image" + s.version
	case method == "POST" && strings.HasSuffix(address, "/media/math/check/tex"):
		return 200, http.Header{"X-Resource-Location": []string{"m" + strconv.Itoa(len(body)) + body[len(body)-4:len(body)-3]}}, "{}"
	case strings.Contains(address, "/media/math/render/svg/m"):
		return 200, nil, `<svg width="1ex" height="2ex" style="x: ` + s.version + `"></svg>`
	case strings.Contains(address, "/media/math/render/png/m"):
		return 200, nil, "math" + s.version
	}
	s.bad = append(s.bad, address)
	return 404, nil, ""
}

var verifPieces = []string{"a", "[[File:p.png|20px]]", "[[File:own pic.jpg|mini|b]]", "[[File:s.svg]]", "[[File:w.webp]]", "{{tpl}}", "<math>x</math>", "<math>y</math>", "<ref>r {{inner}}</ref>", "<gallery>\\nFile:g.png|d\\n</gallery>", "{| \\n| <math>z</math>\\n|}"}

// verifBookResult are the pages of the book with their content and all images shown.
func verifBookResult(log [][]string) (pages []string, images map[string]string) {
	images = map[string]string{}
	verifrt.Assert(len(log) > 0 && log[len(log)-1][1] == "pandoc", "the book is generated")
	for _, f := range verifPages(log[len(log)-1]) {
		b, err := os.ReadFile(f)
		verifrt.Assert(err == nil, "every page of the book exists")
		page := string(b)
		pages = append(pages, page)
		for rest := page; ; {
			i := strings.Index(rest, ` src="`)
			if i < 0 {
				break
			}
			rest = rest[i+len(` src="`):]
			j := strings.Index(rest, `"`)
			src, err := url.PathUnescape(rest[:j])
			verifrt.Assert(err == nil, "image names are valid")
			content, err := os.ReadFile(filepath.Join("cache", src))
			verifrt.Assert(err == nil, "every image of the book exists")
			images[src] = string(content)
		}
	}
	return
}

// verifCacheFiles lists all files and folders of the cache.
func verifCacheFiles() []string {
	var l []string
	filepath.Walk("cache", func(p string, info os.FileInfo, err error) error {
		l = append(l, p)
		return nil
	})
	sort.Strings(l)
	return l
}

func verifCheckRequests(s *verifWiki, before []string) {
	verifrt.Assert(len(s.bad) == 0, "only existing addresses are requested")
	seen := map[string]bool{}
	for _, r := range s.requests {
		verifrt.Assert(!seen[r] || strings.Contains(r, "commons.wikimedia.org") && strings.Contains(r, "own"), "nothing is requested twice")
		seen[r] = true
	}
	if before != nil {
		for _, r := range s.requests {
			found := false
			for _, b := range before {
				found = found || b == r
			}
			verifrt.Assert(found, "another run requests nothing else")
		}
	}
}

// VerifAgain: any article, any converter, then a second run after any part of the cache was removed or got outdated.
func VerifAgain() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	verifrt.FakeConverter("conv")
	k := verifrt.Param("pieces", 2)
	text := ""
	for i := 0; i < k; i++ {
		if i > 0 {
			text += "\\n\\n"
		}
		text += verifPieces[verifrt.Choice("piece", len(verifPieces))]
	}
	s := &verifWiki{version: "v1", texts: map[string]string{"A": text}}
	verifrt.ServeHTTP(s.serve)

	conf := `"cache-dir": "cache", "output-file": "o.epub", "metadata": {"title": "T"}, "style-file": "style.css"`
	math := []string{"none", "wikimedia", "template"}[verifrt.Choice("math", 3)]
	conf += `, "math-converter": "` + math + `"`
	conf += `, "command-template-math-svg-to-png": "conv {INPUT} {OUTPUT}", "command-template-pdf-to-png": "conv {INPUT} {OUTPUT}"`
	convert := ""
	if verifrt.Choice("convert", 2) == 1 {
		convert = "conv {INPUT} {OUTPUT}"
	}
	conf += `, "command-template-svg-to-png": "` + convert + `", "command-template-webp-to-png": "` + convert + `", "command-template-image-processing": "` + convert + `"`
	strategy, article := "lru", "project"
	if k == 1 {
		strategy = []string{"none", "lru", "largest"}[verifrt.Choice("strategy", 3)]
		article = []string{"project", "article"}[verifrt.Choice("kind", 2)]
	}
	conf += `, "cache-eviction-strategy": "` + strategy + `"`
	var args []string
	os.WriteFile("style.css", []byte("x"), 0o666)
	if article == "project" {
		os.WriteFile("p.json", []byte(`{"articles": ["A"], `+conf+"}"), 0o666)
		args = []string{"project", "p.json"}
	} else {
		conf = strings.ReplaceAll(conf, `"output-file": "o.epub", "metadata": {"title": "T"}, `, "")
		os.WriteFile("c.json", []byte("{"+conf+"}"), 0o666)
		args = []string{"article", "A", "-c", "c.json", "-o", "o.epub"}
	}
	verifrt.Observe("configuration", conf)
	util.CurrentFilesystem = &util.OsFilesystem{}
	if strategy == "lru" && verifrt.Choice("forced from the beginning", 2) == 1 {
		args = append(args, "-r")
	}
	verifRun(args...)

	pages, images := verifBookResult(verifrt.ExecLog())
	verifrt.Assert(len(pages) == 1, "there is one page")
	verifCheckRequests(s, nil)
	before := s.requests
	converted := len(verifrt.ExecLog())

	// What happens between the runs.
	s.requests = nil
	entries := verifCacheFiles()
	event := verifrt.Choice("event", 4)
	outdated := false
	switch event {
	case 1: // "Feel free to remove the cache, a single folder within it or just a single file."
		removed := entries[verifrt.Choice("removed", len(entries))]
		verifShow("removed", removed)
		os.RemoveAll(removed)
		if strategy == "none" && verifrt.Choice("forced", 2) == 1 {
			args = append(args, "-r")
		}
	case 2:
		args = append(args, "-r")
	case 3: // everything has any age, meanwhile the wiki has changed
		s.version = "v2"
		age := verifrt.Int("age", 0, 100_000_000)
		outdated = age >= 40_321*60 // full minutes
		verifrt.Assume(verifrt.Or(age > 40_321*60+100, age < 40_321*60-100))
		old := time.Unix(time.Now().Unix()-int64(age), 0)
		for _, e := range entries {
			os.Chtimes(e, old, old)
		}
		verifrt.ObserveBool("outdated", outdated)
	}
	config.Current = config.NewDefaultConfig()
	verifRun(args...)

	log := verifrt.ExecLog()
	pages2, images2 := verifBookResult(log)
	verifCheckRequests(s, before)
	verifrt.Assert(len(images2) == len(images), "the same images are used")
	verifrt.Assert(len(pages2) == 1, "there is one page in the second book")
	if event != 1 && !outdated {
		verifrt.Assert(len(s.requests) == 0, "nothing is downloaded again")
		if event != 2 && math != "template" { // formulas are not said to be converted only once
			verifrt.Assert(len(log) == converted+1, "nothing is converted again")
		}
	}
	for i, p := range pages {
		if outdated {
			p = strings.ReplaceAll(p, "v1", "v2")
		}
		verifrt.Assert(pages2[i] == p, "the second book has the same pages")
	}
	for name, c := range images {
		if outdated {
			c = strings.ReplaceAll(c, "v1", "v2")
		}
		verifrt.Assert(images2[name] == c, "the second book has the same images")
	}
}
