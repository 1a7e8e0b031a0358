package main

import (
	"os"

	"wiki2book/util"
	"wiki2book/verifrt"
)

// VerifRaces: articles with any contents processed in parallel, with any outputs and converters.
func VerifRaces() {
	verifrt.Preempt(-1)
	verifRaces(-1)
}

// VerifRacesSchedules: the same contents in all articles, any schedule with the given number of preemptions.
func VerifRacesSchedules() {
	verifrt.Preempt(verifrt.Param("preemptions", 1))
	verifRaces(verifrt.Choice("piece", len(verifRacePieces)+1))
}

func verifRaces(all int) {
	verifrt.FakeCommand("pandoc")
	verifrt.FakeConverter("conv")
	n := verifrt.Param("articles", 2)
	s := &verifWiki{version: "v1", texts: map[string]string{}}
	var titles []string
	d := verifrt.Dir()
	cached := verifrt.Bool("cached")
	for i := 0; i < n; i++ {
		t := string(rune('A' + i))
		k := all
		if k < 0 {
			k = verifrt.Choice("piece", len(verifRacePieces)+1)
		}
		text := "q"
		if i == 0 {
			// any plain character and markup of a single character
			text += verifrt.Str("letter", 1, "abcxyz.,-*='|:")
		}
		text += "\\n\\n"
		for j, p := range verifRacePieces {
			// one of them, or all
			if k == j || k == len(verifRacePieces) {
				text += p + "\\n\\n"
			}
		}
		s.texts[t] = text
		if cached {
			verifArticle(d+"/cache", t, verifUnescape(text))
		}
		titles = append(titles, t)
	}
	verifrt.ServeHTTP(s.serve)
	conf := `"cache-dir": "cache", "metadata": {"title": "T"}, "worker-threads": 2`
	conf += `, "math-converter": "` + []string{"wikimedia", "template"}[verifrt.Choice("math", 2)] + `"`
	conf += `, "command-template-math-svg-to-png": "conv {INPUT} {OUTPUT}", "command-template-svg-to-png": "conv {INPUT} {OUTPUT}", "command-template-webp-to-png": "conv {INPUT} {OUTPUT}", "command-template-pdf-to-png": "conv {INPUT} {OUTPUT}", "command-template-image-processing": "conv {INPUT} {OUTPUT}"`
	conf += `, "cache-eviction-strategy": "` + []string{"lru", "none"}[verifrt.Choice("strategy", 2)] + `"`
	switch verifrt.Choice("output", 2) {
	case 0:
		conf += `, "output-file": "o.epub"`
	case 1:
		conf += `, "output-type": "stats-json", "output-driver": "internal", "output-file": "s.json"`
	}
	os.WriteFile("p.json", []byte(`{"articles": `+verifJSON(titles)+`, `+conf+"}"), 0o666)
	// every article takes its time, so the workers process them at the same time
	util.CurrentFilesystem = &verifSlowFS{Filesystem: &util.OsFilesystem{}, delay: func(title string) {
		verifrt.Pause(2)
	}}
	verifrt.DetectRaces()
	verifRun("project", "p.json")
	verifrt.Reach("book")
}

var verifRacePieces = append([]string{"== h ==\\n* i\\n* [[B|c]] [http://x.y z]", "'''b''' <nowiki>n</nowiki> &amp; <!-- c -->", "<ref name=a>r</ref><ref name=a /><references />"}, verifPieces...)

// verifUnescape resolves the line breaks of a JSON text.
func verifUnescape(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == 'n' {
			r += "\n"
			i++
			continue
		}
		r += s[i : i+1]
	}
	return r
}
