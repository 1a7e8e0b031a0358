package main

import (
	"os"
	"path/filepath"

	"wiki2book/config"
	"wiki2book/verifrt"
)

// VerifProjectPaths: paths of the configuration file and the project file, both in folders of their own.
func VerifProjectPaths() {
	verifrt.Preempt(-1)
	verifrt.FakeCommand("pandoc")
	d := verifrt.Dir()
	for _, f := range []string{"x", "conf/a", "conf/b", "proj/a", "proj/b", "a", "b"} {
		os.MkdirAll(f, 0o777)
	}
	names := []string{"cache-dir", "style-file", "cover-image", "pandoc-data-dir", "font-files"}
	n := verifrt.Choice("setting", len(names))
	name := names[n]
	kind := func(source string) string {
		switch verifrt.Choice(source, 3) {
		case 1:
			return d + "/x"
		case 2:
			return []string{"", "./", "../" + source + "/"}[verifrt.Choice(source+" spelling", 3)] + verifrt.Str(source+" name", 1, "ab")
		}
		return ""
	}
	value := func(s string) string {
		if name == "font-files" {
			return `["` + s + `"]`
		}
		return `"` + s + `"`
	}
	conf, proj := kind("conf"), kind("proj")
	confFile, projFile := "{", `{"output-file": "out.epub"`
	expected := ""
	if conf != "" {
		confFile += `"` + name + `": ` + value(conf)
		expected = conf
		if expected[0] != '/' {
			expected = filepath.Join(d, "conf", conf)
		}
	}
	if proj != "" {
		projFile += `, "` + name + `": ` + value(proj)
		expected = proj
		if expected[0] != '/' {
			expected = filepath.Join(d, "proj", proj)
		}
	}
	os.WriteFile("conf/c.json", []byte(confFile+"}"), 0o666)
	os.WriteFile("proj/p.json", []byte(projFile+"}"), 0o666)
	output := d + "/proj/out.epub"
	args := []string{"-c", "conf/c.json", "project", "proj/p.json"}
	if verifrt.Choice("output", 2) == 1 {
		args = append(args, "-o", "sub/o.epub")
		output = d + "/sub/o.epub"
	}
	verifRun(args...)
	actual := verifValue(config.Current, name)
	if expected == "" {
		verifrt.Assert(verifEqual(config.Current, name, verifValue(config.NewDefaultConfig(), name)), "not the default value")
	} else if l, ok := actual.([]string); ok {
		verifrt.Assert(len(l) == 1 && filepath.Clean(l[0]) == expected, "wrong path of the font")
	} else {
		verifrt.Assert(filepath.IsAbs(actual.(string)) && filepath.Clean(actual.(string)) == expected, "wrong path for "+name)
	}
	log := verifrt.ExecLog()
	verifrt.Assert(len(log) == 1, "not exactly one call of pandoc")
	out := ""
	for i, a := range log[0] {
		if a == "-o" {
			out = log[0][i+1]
		}
	}
	verifrt.Assert(out == output, "wrong output file")
}

// VerifPandocPath: the executable of pandoc is given as a name, a relative or an absolute path by any of the sources.
func VerifPandocPath() {
	verifrt.Preempt(-1)
	d := verifrt.Dir()
	verifrt.FakeCommand("pandoc")
	for _, f := range []string{"", "conf/", "proj/sub/"} {
		os.MkdirAll(f+"a", 0o777)
		os.MkdirAll(f+"b", 0o777)
	}
	expected := "pandoc"
	kind := func(source, up string) string {
		path := verifrt.FakeCommand(source)
		v := ""
		switch verifrt.Choice(source, 5) {
		case 1:
			v = source
		case 2:
			v = path
		case 3:
			v = up + "bin/" + source
		case 4:
			v = "./" + verifrt.Str(source+" folder", 1, "ab") + "/../" + up + "bin//" + source
		default:
			return ""
		}
		expected = source
		return v
	}
	confFile, projFile := "{}", `{"output-file": "out.epub"}`
	if v := kind("c", "../"); v != "" {
		confFile = `{"pandoc-executable": "` + v + `"}`
	}
	inProject := verifrt.Choice("command", 2) == 0
	args := []string{"-c", "conf/c.json"}
	if inProject {
		if v := kind("p", "../../"); v != "" {
			projFile = `{"output-file": "out.epub", "pandoc-executable": "` + v + `"}`
		}
		args = append(args, "project", "proj/sub/p.json")
	} else {
		os.WriteFile("s.mediawiki", []byte("text"), 0o666)
		up := ""
		if v := kind("a", up); v != "" {
			args = append(args, "--pandoc-executable", v)
		}
		args = append(args, "standalone", "s.mediawiki", "-o", d+"/proj/out.epub")
	}
	os.WriteFile("conf/c.json", []byte(confFile), 0o666)
	os.WriteFile("proj/sub/p.json", []byte(projFile), 0o666)
	verifRun(args...)
	log := verifrt.ExecLog()
	verifrt.Assert(len(log) == 1 && log[0][1] == expected, "not the configured pandoc was called")
	verifrt.Reach("pandoc was called")
}
