package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifTreeOf lists all files (with content) and folders below a folder, except of the given one.
func verifTreeOf(root, except string) map[string]string {
	t := map[string]string{}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if p == except {
			return filepath.SkipDir
		}
		if info.IsDir() {
			t[p] = "/"
			return nil
		}
		b, _ := os.ReadFile(p)
		t[p] = "=" + string(b)
		return nil
	})
	return t
}

// Files of the cache that no run of this harness needs.
var verifKeptFiles = []string{"images/Z.jpg", "articles/Z.json", "html/Z.html", "stats/Z.json", "math/Z", "templates/Z", "Z"}

// VerifFiles: any mode, output type, place of the output and of the inputs.
func VerifFiles() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	verifrt.FakeConverter("conv")
	d := verifrt.Dir() + "/w"
	show := func(name, v string) { verifrt.Observe(name, strings.ReplaceAll(v, d, "~")) }
	for _, f := range []string{"cache/.tmp/x", "cache/tmp", "sub/dir", "dir", "other"} {
		os.MkdirAll(d+"/"+f, 0o777)
	}
	os.Chdir(d)
	mode := verifrt.Choice("mode", 4) // project, project in another folder, article, standalone
	types := 4
	if mode == 3 {
		types = 2 // statistics are not available
	}
	outputType := []string{"epub2", "epub3", "stats-json", "stats-txt"}[verifrt.Choice("type", types)]
	stats := strings.HasPrefix(outputType, "stats")
	internal := outputType == "epub3" && verifrt.Bool("internal driver")
	defaultName := map[string]string{"epub2": "ebook.epub", "epub3": "ebook.epub", "stats-json": "stats.json", "stats-txt": "stats.txt"}[outputType]

	user := []string{"notes.txt", "style.css", "in.wiki", "sub/notes.txt", "dir/keep", "sub/dir/keep", "old.out", "sub/old.out", "other/keep", "o", "x.epub.d"}
	if verifrt.Bool("defaults exist") {
		user = append(user, "ebook.epub", "stats.json", "stats.txt", "sub/ebook.epub", "dir/ebook.epub", "dir/stats.txt")
	}
	for _, f := range user {
		os.WriteFile(d+"/"+f, []byte("content of "+f+" {{t}} [[File:p.png|b]]"), 0o666)
	}
	os.WriteFile(d+"/cache/.tmp/x/junk", []byte("junk"), 0o666)
	os.WriteFile(d+"/cache/.tmp/junk", []byte("junk"), 0o666)
	s := &verifWiki{texts: map[string]string{"A": "text [[File:p.png|mini|b]] {{t}} <math>x</math>"}}
	verifrt.ServeHTTP(s.serve)
	for _, f := range verifKeptFiles {
		os.MkdirAll(filepath.Dir(d+"/cache/"+f), 0o777)
		os.WriteFile(d+"/cache/"+f, []byte("kept "+f), 0o666)
	}

	base := d
	if mode == 1 {
		base = d + "/sub"
	}
	letter := verifrt.Str("letter", 1, "pqr")
	place := verifrt.Choice("output", 8)
	given, want := "", base+"/"+defaultName
	cli := true
	if place > 0 && mode < 2 && verifrt.Bool("in project") {
		cli = false
	} else if place > 0 {
		base = d
	}
	switch place {
	case 1:
		given = letter + ".out"
		want = base + "/" + given
	case 2: // a folder
		given = "dir"
		if verifrt.Bool("slash") {
			given += "/"
		}
		want = base + "/dir/" + defaultName
	case 3: // missing folders
		given = "new/" + letter + "/o.out"
		want = base + "/" + given
	case 4:
		given = d + "/other/" + letter + ".out"
		want = given
	case 5: // an existing file
		given = "old.out"
		want = base + "/" + given
	case 6: // the default name at another place
		given = "dir/ebook.epub"
		want = base + "/dir/" + defaultName
	case 7:
		given = "./dir/../" + letter
		want = base + "/" + letter
	}
	processing := ""
	if verifrt.Bool("process images") {
		processing = "conv {INPUT} {OUTPUT}"
	}
	conf := `"cache-dir": "` + d + `/cache", "output-type": "` + outputType + `", "style-file": "` + d + `/style.css", "command-template-svg-to-png": "", "command-template-image-processing": "` + processing + `", "math-converter": "wikimedia"`
	if stats || internal {
		conf += `, "output-driver": "internal"`
	}
	if !cli {
		conf += `, "output-file": "` + given + `"`
	}
	var args []string
	switch mode {
	case 0, 1:
		dir := []string{"", "sub/"}[mode]
		conf += `, "articles": ["A"]`
		os.WriteFile(d+"/"+dir+"p.json", []byte("{"+conf+"}"), 0o666)
		args = []string{"project", dir + "p.json"}
	case 2:
		os.WriteFile(d+"/c.json", []byte("{"+conf+"}"), 0o666)
		args = []string{"article", "A", "-c", "c.json"}
	case 3:
		os.WriteFile(d+"/c.json", []byte("{"+conf+"}"), 0o666)
		args = []string{"-c", "c.json", "standalone", "in.wiki"}
	}
	if place > 0 && cli {
		args = append(args, "-o", given)
	}
	want = filepath.Clean(want)
	before := verifTreeOf(d, d+"/cache")
	show("configuration", conf)
	util.CurrentFilesystem = &util.OsFilesystem{}
	verifRun(args...)
	after := verifTreeOf(d, d+"/cache")

	verifrt.Reach("run")
	changed := []string{}
	for p, c := range after {
		if b, ok := before[p]; !ok || b != c {
			changed = append(changed, p)
		}
	}
	sort.Strings(changed)
	show("changed", verifJSON(changed))
	for p := range before {
		_, ok := after[p]
		verifrt.Assert(ok, "no file or folder is removed")
	}
	for _, p := range changed {
		isParent := after[p] == "/" && strings.HasPrefix(want, p+"/")
		verifrt.Assert(p == want || isParent, "nothing but the output file and its folders is created or changed")
	}
	log := verifrt.ExecLog()
	if stats {
		for _, l := range log {
			verifrt.Assert(l[1] == "conv", "no other command is executed")
		}
		content := after[want]
		verifrt.Assert(strings.HasPrefix(content, "=") && strings.Contains(content, "rticle"), "the statistics are in the output file")
	} else if internal {
		for _, l := range log {
			verifrt.Assert(l[1] == "conv", "no other command is executed")
		}
		_, err := verifrt.OpenBook(want)
		verifrt.Assert(err == nil, "the book is written to the output file")
	} else {
		out := ""
		for i, a := range log[len(log)-1] {
			if a == "-o" {
				out = log[len(log)-1][i+1]
			}
		}
		show("output", out)
		verifrt.Assert(out == want, "the book is written to the output file")
	}
	for _, f := range []string{"/cache/.tmp/junk", "/cache/.tmp/x/junk"} {
		_, err := os.Stat(d + f)
		verifrt.Assert(os.IsNotExist(err), "temporary files are removed")
	}
	left, _ := os.ReadDir(d + "/cache/.tmp")
	verifrt.Assert(len(left) == 0, "no temporary file is left")
	for _, f := range verifKeptFiles {
		b, err := os.ReadFile(d + "/cache/" + f)
		verifrt.Assert(err == nil && string(b) == "kept "+f, "files of the cache are kept")
	}
}
