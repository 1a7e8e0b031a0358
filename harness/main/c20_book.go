package main

import (
	"encoding/json"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifSlowFS delays the reading of articles, which makes any order of processing possible.
type verifSlowFS struct {
	util.Filesystem
	delay func(title string)
}

func (f *verifSlowFS) ReadFile(name string) ([]byte, error) {
	if filepath.Base(filepath.Dir(name)) == "articles" {
		f.delay(strings.TrimSuffix(filepath.Base(name), ".json"))
	}
	return f.Filesystem.ReadFile(name)
}

var verifTitles = []string{"A", "B b", "C/D", "E"}

// verifText is the text of an article, the lengths tell how often each of the articles was counted.
func verifText(title string) string {
	n := 1
	for _, t := range verifTitles {
		if t == title {
			break
		}
		n *= 5
	}
	return "Text of " + strings.ReplaceAll(title, "/", "-") + strings.Repeat("x", n)
}

// VerifBook: any list of articles, any number of workers, any duration of the processing of each article.
func VerifBook() {
	verifrt.Preempt(-1)
	verifBook(true)
}

// VerifBookSchedules: any order in which the waiting workers continue and any preemption.
func VerifBookSchedules() {
	verifrt.Preempt(verifrt.Param("preemptions", 1))
	verifBook(false)
}

func verifBook(delays bool) {
	verifrt.FakeCommand("pandoc")
	n := verifrt.Choice("articles", verifrt.Param("articles", 3)+1)
	workers := 1 + verifrt.Choice("workers", verifrt.Param("workers", 3))
	var titles []string
	for i := 0; i < n; i++ {
		titles = append(titles, verifTitles[verifrt.Choice("title", verifrt.Param("titles", 3))])
	}
	stats := verifrt.Choice("statistics", 2) == 1
	d := verifrt.Dir()
	for _, t := range verifTitles {
		verifArticle(d+"/cache", t, verifText(t))
	}
	reads := 0
	util.CurrentFilesystem = &verifSlowFS{Filesystem: &util.OsFilesystem{}, delay: func(title string) {
		if delays {
			// odd and even times: no two articles continue at the same time
			k := verifrt.Choice("duration", verifrt.Param("durations", 3))
			reads++
			verifrt.Pause(k*8 + reads)
		}
	}}

	project := `{"articles": ` + verifJSON(titles) + `, "metadata": {"title": "T"}, "cache-dir": "cache", "worker-threads": ` + strconv.Itoa(workers)
	if stats {
		project += `, "output-type": "stats-json", "output-driver": "internal", "output-file": "s.json"`
	} else {
		project += `, "output-file": "o.epub"`
	}
	os.WriteFile("p.json", []byte(project+"}"), 0o666)
	verifrt.Observe("project", project)
	verifRun("project", "p.json")

	log := verifrt.ExecLog()
	if stats {
		verifrt.Assert(len(log) == 0, "command executed")
		b, err := os.ReadFile("s.json")
		verifrt.Assert(err == nil, "no statistics")
		var m map[string]any
		verifrt.Assert(json.Unmarshal(b, &m) == nil, "invalid statistics")
		chars := 0
		for _, t := range titles {
			chars += len(verifText(t))
		}
		verifrt.Assert(strings.Contains(string(b), `: `+strconv.Itoa(chars)+","), "wrong number of characters in the statistics")
		return
	}
	verifrt.Assert(len(log) == 1, "not exactly one call of pandoc")
	files := verifPages(log[0])
	verifrt.Observe("pages", strings.ReplaceAll(verifJSON(files), d, "~"))
	verifrt.Assert(len(files) == n, "wrong number of pages in the book")
	for i, t := range titles {
		verifrt.Assert(files[i] != "", "empty page name")
		f := files[i]
		if !filepath.IsAbs(f) {
			f = filepath.Join(log[0][0], f)
		}
		b, err := os.ReadFile(f)
		verifrt.Assert(err == nil, "page does not exist")
		verifrt.Assert(strings.Contains(string(b), verifText(t)), "wrong page")
	}
}

// verifPages returns the arguments of pandoc that are no options.
func verifPages(cmd []string) []string {
	var files []string
	for i := 2; i < len(cmd); i++ {
		switch cmd[i] {
		case "-f", "-t", "-o", "--metadata", "--toc-depth", "--data-dir", "--css":
			i++
			continue
		}
		if !strings.HasPrefix(cmd[i], "--") {
			files = append(files, cmd[i])
		}
	}
	return files
}

// VerifBookMany: books of many articles with any number of workers, among them one article that occurs twice.
func VerifBookMany() {
	verifrt.Preempt(-1)
	verifrt.StepLimit(200_000_000)
	verifrt.FakeCommand("pandoc")
	n := []int{7, verifrt.Param("many", 23)}[verifrt.Choice("articles", 2)]
	workers := []int{1, 2, 5, 30}[verifrt.Choice("workers", 4)]
	d := verifrt.Dir()
	var titles []string
	for i := 0; i < n; i++ {
		t := "T" + strconv.Itoa(i)
		verifArticle(d+"/cache", t, "Text of "+t+".")
		titles = append(titles, t)
	}
	titles[[]int{0, 1, n / 2, n - 1}[verifrt.Choice("second place", 4)]] = titles[[]int{0, n / 2, n - 2}[verifrt.Choice("first place", 3)]]
	// one of the articles takes longer than all others
	slow := "T" + []string{"none", "0", "1", strconv.Itoa(n - 2)}[verifrt.Choice("slow", 4)]
	util.CurrentFilesystem = &verifSlowFS{Filesystem: &util.OsFilesystem{}, delay: func(title string) {
		if title == slow {
			verifrt.Pause(40)
		}
	}}
	os.WriteFile("p.json", []byte(`{"articles": `+verifJSON(titles)+`, "metadata": {"title": "T"}, "cache-dir": "cache", "worker-threads": `+strconv.Itoa(workers)+`, "output-file": "o.epub"}`), 0o666)
	verifRun("project", "p.json")
	log := verifrt.ExecLog()
	verifrt.Assert(len(log) == 1, "exactly one call of pandoc")
	files := verifPages(log[0])
	verifrt.Observe("pages", strings.ReplaceAll(verifJSON(files), d, "~"))
	verifrt.Assert(len(files) == n, "the book has a page per article")
	for i, t := range titles {
		b, err := os.ReadFile(files[i])
		verifrt.Assert(err == nil, "every page exists")
		verifrt.Assert(strings.Contains(string(b), "Text of "+t+"."), "the pages are in the order of the articles")
	}
	verifrt.Reach("book")
}

// VerifBookFailing: one of the articles cannot be fetched.
func VerifBookFailing() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	n := 1 + verifrt.Choice("articles", verifrt.Param("articles", 3))
	workers := 1 + verifrt.Choice("workers", 3)
	d := verifrt.Dir()
	failing := verifrt.Choice("failing", n+1)
	kind := verifrt.Choice("kind", 4)
	var titles []string
	for i := 0; i < n; i++ {
		t := "T" + strconv.Itoa(i)
		text := "Text of " + t + "."
		if i == failing {
			text += []string{"", " {{t}}", " <math>x</math>", " [[File:a.png]]"}[kind]
		}
		if i != failing || kind > 0 {
			verifArticle(d+"/cache", t, text)
		}
		titles = append(titles, t)
	}
	status := []int{0, 404, 500}[verifrt.Choice("status", 3)]
	verifrt.ServeHTTP(func(method, address, body string) (int, http.Header, string) {
		return status, nil, ""
	})
	util.CurrentFilesystem = &verifSlowFS{Filesystem: &util.OsFilesystem{}, delay: func(title string) {
		if failing < n && title == titles[failing] && verifrt.Bool("late") {
			verifrt.Pause(8)
		}
	}}
	os.WriteFile("p.json", []byte(`{"articles": `+verifJSON(titles)+`, "metadata": {"title": "T"}, "cache-dir": "cache", "worker-threads": `+strconv.Itoa(workers)+`, "output-file": "o.epub"}`), 0o666)
	if failing < n {
		verifrt.AllowExit()
	}
	verifRun("project", "p.json")
	verifrt.Assert(failing == n, "no book is generated without one of its articles")
	verifrt.Reach("book")
}
