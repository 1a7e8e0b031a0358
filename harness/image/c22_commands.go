package image

import (
	"os"
	"strings"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

var verifArgs = []string{"{INPUT}", "{OUTPUT}", "-q", "--in={INPUT}", "{OUTPUT}:{INPUT}", "600x600>", "'a"}

// verifPath is any path: any characters, also blanks and what looks like a placeholder.
func verifPath(name string) string {
	switch verifrt.Choice(name+" kind", 3) {
	case 1:
		return verifrt.Dir() + "/c/{OUTPUT} {INPUT}.svg"
	case 2:
		return "-x y"
	}
	// the characters of names in the cache
	p := verifrt.StrMax(name, 1, verifrt.Param("n", 3), "a \t\n.{}'$;&=-()`~,@")
	return verifrt.Dir() + "/" + p
}

// VerifCommands: any command template, any paths.
func VerifCommands() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = verifrt.Dir() + "/c d"
	os.MkdirAll(config.Current.CacheDir, 0o777)
	util.CurrentFilesystem = &util.OsFilesystem{}
	verifrt.FakeCommand("conv")
	fails := verifrt.Choice("fails", 2) == 1
	verifrt.FailCommand("conv", fails)
	resize := verifrt.Choice("resize", 2) == 1
	in := verifPath("input")
	out := in
	if !resize {
		out = verifPath("output")
	}

	template, want := "conv", []string{}
	k := verifrt.Choice("arguments", verifrt.Param("k", 3)+1)
	for i := 0; i < k; i++ {
		a := verifArgs[verifrt.Choice("argument", len(verifArgs))]
		template += []string{" ", "  "}[verifrt.Choice("separator", 2)] + a
		w := ""
		for a != "" { // the placeholders of the template, not those in paths
			switch {
			case strings.HasPrefix(a, "{INPUT}"):
				w, a = w+in, a[len("{INPUT}"):]
			case strings.HasPrefix(a, "{OUTPUT}"):
				w, a = w+out, a[len("{OUTPUT}"):]
			default:
				w, a = w+a[:1], a[1:]
			}
		}
		want = append(want, w)
	}
	template += []string{"", " "}[verifrt.Choice("blank at the end", 2)]
	verifrt.Observe("template", template)

	var err error
	if resize {
		err = NewImageProcessingService().ResizeAndCompressImage(in, template)
	} else {
		err = NewImageProcessingService().ConvertToPng(in, out, template)
	}
	verifrt.Assert((err != nil) == fails, "exactly failing commands are errors")
	log := verifrt.ExecLog()
	verifrt.Assert(len(log) == 1, "the command is executed once")
	verifrt.Assert(log[0][1] == "conv", "the configured command is executed")
	verifrt.Assert(len(log[0]) == 2+len(want), "the command gets the configured number of arguments")
	for i, w := range want {
		verifrt.Assert(log[0][2+i] == w, "the command gets the configured arguments")
	}
}

// VerifCommandMissing: a command that does not exist is an error.
func VerifCommandMissing() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = verifrt.Dir()
	util.CurrentFilesystem = &util.OsFilesystem{}
	name := "no-such-command-" + verifrt.StrMax("name", 0, 2, "abc/")
	var err error
	if verifrt.Choice("resize", 2) == 1 {
		err = NewImageProcessingService().ResizeAndCompressImage("a.png", name+" {INPUT} {OUTPUT}")
	} else {
		err = NewImageProcessingService().ConvertToPng("a.svg", "a.png", name+" {INPUT} {OUTPUT}")
	}
	verifrt.Assert(err != nil, "a missing command is an error")
}
