package main

import (
	"os"

	"wiki2book/config"
	"wiki2book/verifrt"
)

// verifPick chooses a value of the setting for the source, nil if the source doesn't set it.
func verifPick(source, name string, def any) any {
	d := verifrt.Dir()
	paths := map[string]string{"config": d + "/c1", "project": d + "/p1", "command line": d + "/a1"}
	k := 0
	if k = verifrt.Choice(source, 3); k == 0 {
		return nil
	} else if k == 1 {
		return def
	}
	switch name {
	case "force-regenerate-html", "svg-size-to-viewbox":
		return true
	case "output-type":
		return "epub3"
	case "output-driver":
		return "internal"
	case "cache-eviction-strategy":
		return []string{"largest", "none"}[verifrt.Choice(source+" strategy", 2)]
	case "math-converter":
		return []string{"none", "template"}[verifrt.Choice(source+" converter", 2)]
	case "toc-depth":
		return number(verifrt.Str(source+" value", 1, "013456"))
	case "worker-threads":
		return number(verifrt.Str(source+" value", 1, "123"))
	case "cache-max-size":
		return number(verifrt.Str(source+" value", 2, "123456789") + "000000000")
	case "cache-max-age":
		return number(verifrt.Str(source+" value", 2, "123456789") + "0000")
	case "cache-dir", "style-file", "cover-image", "pandoc-data-dir":
		return paths[source]
	case "font-files":
		if verifrt.Choice(source+" fonts", 2) == 0 {
			return []string{paths[source]}
		}
		return []string{paths[source], d + "/font"}
	case "pandoc-executable":
		return verifrt.FakeCommand(map[string]string{"config": "c2", "project": "p2", "command line": "a2"}[source])
	case "command-template-svg-to-png", "command-template-math-svg-to-png", "command-template-image-processing", "command-template-pdf-to-png",
		"command-template-webp-to-png":
		if name != "command-template-math-svg-to-png" && verifrt.Choice(source+" empty", 2) == 1 {
			return ""
		}
		return verifrt.Str(source+" value", 2, "abcd") + " {INPUT} {OUTPUT}"
	}
	if l, ok := def.([]string); ok {
		v := verifrt.Str(source+" value", 2, "abcd")
		switch verifrt.Choice(source+" list", 4) {
		case 0:
			return []string{v}
		case 1:
			return []string{"x", v}
		case 2:
			if len(l) < 2 {
				return []string{v, v}
			}
			// the same entries in another order
			return append(append([]string{}, l[1:]...), l[0])
		}
		if len(l) < 2 {
			return []string{"y"}
		}
		// as many entries, but one of them several times
		r := []string{}
		for range l {
			r = append(r, l[0])
		}
		return r
	}
	return verifrt.Str(source+" value", 2, "abcd")
}

// VerifConfigSources: one setting is given by any of the sources.
func VerifConfigSources() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	d := verifrt.Dir()
	for _, f := range []string{"c1", "p1", "a1", "font"} {
		os.MkdirAll(d+"/"+f, 0o777)
	}
	def := config.NewDefaultConfig()
	name := verifSettings[verifrt.Choice("setting", len(verifSettings))]
	verifrt.Assume(name != "output-driver") // see VerifConfigOutput

	conf := verifPick("config", name, verifValue(def, name))
	proj := verifPick("project", name, verifValue(def, name))
	cli := verifPick("command line", name, verifValue(def, name))
	if l, ok := cli.([]string); ok {
		verifrt.Assume(len(l) > 0) // cannot be expressed
	}

	confFile, projFile := "{", "{"
	if conf != nil {
		confFile += `"` + name + `": ` + verifJSON(conf)
	}
	if proj != nil {
		projFile += `"` + name + `": ` + verifJSON(proj) + `, `
	}
	os.WriteFile("config.json", []byte(confFile+"}"), 0o666)
	os.WriteFile("project.json", []byte(projFile+`"output-file": "`+d+`/out.epub"}`), 0o666)
	verifShow("configuration file", confFile+"}")
	verifShow("project file", projFile+"}")

	expected := verifValue(def, name)
	for _, v := range []any{conf, proj, cli} {
		if v != nil {
			expected = v
		}
	}

	args := []string{"--config", "config.json", "project", "project.json"}
	if cli != nil {
		args = append(args, verifFlags(name, cli)...)
	}
	verifRun(args...)

	verifShow("value", verifJSON(verifValue(config.Current, name)))
	verifrt.Assert(verifEqual(config.Current, name, expected), "the setting "+name+" does not have the value of the most specific source")
	for _, other := range verifSettings {
		if other != name {
			verifrt.Assert(verifEqual(config.Current, other, verifValue(def, other)), "setting "+name+" changes "+other)
		}
	}
}

// VerifConfigPairs: two settings are given by different sources.
func VerifConfigPairs() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	d := verifrt.Dir()
	for _, f := range []string{"c1", "p1", "a1", "font"} {
		os.MkdirAll(d+"/"+f, 0o777)
	}
	def := config.NewDefaultConfig()
	x := verifrt.Choice("first", len(verifSettings))
	y := verifrt.Choice("second", len(verifSettings))
	verifrt.Assume(x != y)
	first, second := verifSettings[x], verifSettings[y]
	verifrt.Assume(first != "output-driver" && second != "output-driver")

	v := verifOther("config", first, verifValue(def, first))
	os.WriteFile("config.json", []byte(`{"`+first+`": `+verifJSON(v)+`}`), 0o666)
	verifShow("configuration file", first+": "+verifJSON(v))
	args := []string{"--config", "config.json", "project", "project.json"}
	var u any
	projFile := "{"
	if verifrt.Choice("source of the second", 2) == 0 {
		u = verifOther("project", second, verifValue(def, second))
		projFile += `"` + second + `": ` + verifJSON(u) + `, `
		verifShow("project file", second+": "+verifJSON(u))
	} else {
		u = verifOther("command line", second, verifValue(def, second))
		args = append(args, verifFlags(second, u)...)
	}
	os.WriteFile("project.json", []byte(projFile+`"output-file": "`+d+`/out.epub"}`), 0o666)
	verifRun(args...)

	for _, name := range verifSettings {
		expected := verifValue(def, name)
		if name == first {
			expected = v
		} else if name == second {
			expected = u
		}
		verifrt.Assert(verifEqual(config.Current, name, expected), "the setting "+name+" does not have the value of the most specific source")
	}
}

// verifOther is a value of the setting different from the default.
func verifOther(source, name string, def any) any {
	d := verifrt.Dir()
	path := d + "/" + map[string]string{"config": "c1", "project": "p1", "command line": "a1"}[source]
	switch x := def.(type) {
	case bool:
		return !x
	case []string:
		if name == "font-files" {
			return []string{path}
		}
		return []string{"x" + source[:1], "y"}
	case number:
		return map[string]number{"toc-depth": "4", "worker-threads": "2", "cache-max-size": "123456789", "cache-max-age": "23456789"}[name]
	}
	switch name {
	case "output-type":
		return "epub3"
	case "cache-eviction-strategy":
		return "largest"
	case "math-converter":
		return "template"
	case "cache-dir", "style-file", "cover-image", "pandoc-data-dir":
		return path
	case "pandoc-executable":
		return verifrt.FakeCommand("other")
	case "command-template-svg-to-png", "command-template-math-svg-to-png", "command-template-image-processing", "command-template-pdf-to-png",
		"command-template-webp-to-png":
		return "my" + source[:1] + " {INPUT} {OUTPUT}"
	}
	return "my" + source[:1]
}

// VerifConfigOutput: output type, driver and file are given by any of the sources.
func VerifConfigOutput() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	types := []string{"", "epub2", "epub3", "stats-json", "stats-txt"}
	drivers := []string{"", "pandoc", "internal"}
	typ, driver, file := "epub2", "pandoc", ""
	var text [3]string
	args := []string{"--config", "config.json", "project", "project.json"}
	for i, source := range []string{"config", "project", "command line"} {
		t := types[verifrt.Choice(source+" type", len(types))]
		dr := drivers[verifrt.Choice(source+" driver", len(drivers))]
		f := ""
		if i > 0 && verifrt.Choice(source+" file", 2) == 1 {
			f = []string{"", "out.json", "result"}[i]
		}
		if t != "" {
			typ = t
			text[i] += `"output-type": "` + t + `", `
		}
		if dr != "" {
			driver = dr
			text[i] += `"output-driver": "` + dr + `", `
		}
		if f != "" {
			file = f
			text[i] += `"output-file": "` + f + `", `
		}
		if i == 2 {
			if t != "" {
				args = append(args, "--output-type", t)
			}
			if dr != "" {
				args = append(args, "--output-driver", dr)
			}
			if f != "" {
				args = append(args, "--output", f)
			}
		}
		// every source has to be valid together with the more general ones
		verifrt.Assume(driver == "pandoc" && (typ == "epub2" || typ == "epub3") || driver == "internal" && typ != "epub2")
	}
	verifrt.Assume(typ != "epub3" || driver == "pandoc") // no e-book by the library here
	os.WriteFile("config.json", []byte("{"+text[0]+`"toc-depth": 3}`), 0o666)
	os.WriteFile("project.json", []byte("{"+text[1]+`"articles": []}`), 0o666)
	verifrt.Observe("configuration file", text[0])
	verifrt.Observe("project file", text[1])
	if file == "" {
		file = map[string]string{"epub2": "ebook.epub", "epub3": "ebook.epub", "stats-json": "stats.json", "stats-txt": "stats.txt"}[typ]
	}
	verifRun(args...)

	verifrt.Assert(config.Current.OutputType == typ, "wrong output type")
	verifrt.Assert(config.Current.OutputDriver == driver, "wrong output driver")
	for _, name := range verifSettings {
		if name != "output-type" && name != "output-driver" && name != "toc-depth" {
			verifrt.Assert(verifEqual(config.Current, name, verifValue(config.NewDefaultConfig(), name)), "the output settings change "+name)
		}
	}
	log := verifrt.ExecLog()
	if driver == "pandoc" {
		verifrt.Assert(len(log) == 1, "not exactly one call of pandoc")
		to, out := "", ""
		for i, a := range log[0] {
			if a == "-t" {
				to = log[0][i+1]
			} else if a == "-o" {
				out = log[0][i+1]
			}
		}
		verifrt.Assert(to == typ, "wrong type handed to pandoc")
		verifrt.Assert(out == verifrt.Dir()+"/"+file, "wrong output file handed to pandoc")
	} else {
		verifrt.Assert(len(log) == 0, "pandoc called")
		b, err := os.ReadFile(file)
		verifrt.Assert(err == nil && len(b) > 0, "output file not written")
		verifrt.Assert((b[0] == '{') == (typ == "stats-json"), "wrong kind of output")
	}
}

// VerifConfigArticle: a single article is rendered with settings of the configuration file and the command line.
func VerifConfigArticle() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	d := verifrt.Dir()
	for _, f := range []string{"c1", "a1", "font"} {
		os.MkdirAll(d+"/"+f, 0o777)
	}
	def := config.NewDefaultConfig()
	name := verifSettings[verifrt.Choice("setting", len(verifSettings))]
	verifrt.Assume(name != "output-driver" && name != "worker-threads")
	standalone := verifrt.Choice("standalone", 2) == 1
	def.CacheDir = d + "/cache"
	conf := verifPick("config", name, verifValue(def, name))
	cli := verifPick("command line", name, verifValue(def, name))
	if l, ok := cli.([]string); ok {
		verifrt.Assume(len(l) > 0)
	}
	confFile := `{"cache-dir": "` + d + `/cache"`
	if conf != nil {
		confFile += `, "` + name + `": ` + verifJSON(conf)
	}
	os.WriteFile("config.json", []byte(confFile+"}"), 0o666)
	verifShow("configuration file", confFile+"}")
	expected := verifValue(def, name)
	for _, v := range []any{conf, cli} {
		if v != nil {
			expected = v
		}
	}
	dir := d + "/cache"
	if name == "cache-dir" {
		dir = expected.(string)
	}
	args := []string{"--config", "config.json", "-o", d + "/out.epub"}
	if standalone {
		os.WriteFile("page.txt", []byte("Text"), 0o666)
		args = append(args, "standalone", "page.txt")
	} else {
		verifArticle(dir, "A", "Text")
		args = append(args, "article", "A")
	}
	if cli != nil {
		args = append(args, verifFlags(name, cli)...)
	}
	verifRun(args...)
	verifrt.Assert(verifEqual(config.Current, name, expected), "the setting "+name+" does not have the value of the most specific source")
	for _, other := range verifSettings {
		if other != name {
			verifrt.Assert(verifEqual(config.Current, other, verifValue(def, other)), "setting "+name+" changes "+other)
		}
	}
	verifrt.Assert(len(verifrt.ExecLog()) == 1, "no e-book generated")
}
