package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func srcDir() string { return filepath.Join(repoDir, "src") }

// overlayFiles maps paths inside the repository to harness files under /verif/harness.
// harness/<pkg>/*.go is added to package <pkg> ("main" is the root package).
func overlayFiles() map[string]string {
	m := map[string]string{}
	base := filepath.Join(verifDir, "harness")
	dirs, err := os.ReadDir(base)
	if err != nil {
		fatalf("%v", err)
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(base, d.Name(), "*.go"))
		for _, f := range files {
			dst := filepath.Join(srcDir(), d.Name(), "zz_verif_"+filepath.Base(f))
			if d.Name() == "main" {
				dst = filepath.Join(srcDir(), "zz_verif_"+filepath.Base(f))
			}
			m[dst] = f
		}
	}
	return m
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOSUMDB=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off")
}

// load builds the SSA form of the current repository tree together with the harnesses.
// Harness files which do not compile against the tree are dropped and returned.
func load() (*Shared, map[string]*ssa.Package, []string) {
	ov := overlayFiles()
	curInstrumented = instrumentedSources()
	var dropped []string
	for try := 0; ; try++ {
		overlay := map[string][]byte{}
		for dst, src := range ov {
			b, err := os.ReadFile(src)
			if err != nil {
				fatalf("%v", err)
			}
			overlay[dst] = b
		}
		for f, b := range curInstrumented {
			overlay[f] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: srcDir(), Overlay: overlay, Env: goEnv(), Fset: token.NewFileSet()}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			fatalf("loading the repository: %v", err)
		}
		bad := map[string]bool{}
		var other []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if _, ok := ov[f]; ok {
					bad[f] = true
					dropped = append(dropped, e.Error())
				} else {
					other = append(other, e.Error())
				}
			}
		}
		if len(bad) > 0 && try < 5 {
			for f := range bad {
				delete(ov, f)
			}
			continue
		}
		if len(other) > 0 && len(curInstrumented) > 0 {
			curInstrumented = nil // the program as it is, then
			continue
		}
		if len(other) > 0 {
			fatalf("repository does not compile:\n%s", strings.Join(other, "\n"))
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		sh := &Shared{prog: prog, repoPath: repoDir, trackFns: true}
		sh.comp = &compiler{m: map[*ssa.Function]*cfunc{}, prog: prog}
		sh.rtErrType = types.NewNamed(types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "Error·", nil), types.Typ[types.String], nil)
		byName := map[string]*ssa.Package{}
		for _, p := range prog.AllPackages() {
			byName[p.Pkg.Path()] = p
		}
		curOverlay = ov
		return sh, byName, dropped
	}
}

var curOverlay map[string]string

// buildReplay compiles the native replay binary: the real program plus the harnesses.
func buildReplay(dir string, hs []string) (string, error) {
	type hf struct{ pkg, fn string }
	imports := map[string]bool{}
	var reg []string
	for _, h := range hs {
		i := strings.LastIndexByte(h, '.')
		pkg, fn := h[:i], h[i+1:]
		q := fn
		if pkg != "main" {
			imports[pkg] = true
			q = "v" + pkg + "." + fn
		}
		reg = append(reg, fmt.Sprintf("\tverifrt.Register(%q, %s)", h, q))
	}
	sort.Strings(reg)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"wiki2book/verifrt\"\n")
	for p := range imports {
		fmt.Fprintf(&sb, "\tv%s \"wiki2book/%s\"\n", p, p)
	}
	sb.WriteString(")\n\nfunc init() {\n\tif os.Getenv(\"VERIF_REPLAY\") != \"1\" {\n\t\treturn\n\t}\n")
	sb.WriteString(strings.Join(reg, "\n"))
	sb.WriteString("\n\tverifrt.Main()\n}\n")
	gen := filepath.Join(dir, "zz_verif_replay.go")
	if err := os.WriteFile(gen, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	repl := map[string]string{filepath.Join(srcDir(), "zz_verif_zreplay.go"): gen}
	for d, s := range curOverlay {
		repl[d] = s
	}
	if err := writeInstrumented(dir, repl); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", out, ".")
	cmd.Dir = srcDir()
	cmd.Env = goEnv()
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary: %v\n%s", err, o)
	}
	return out, nil
}

// buildRace compiles the replay binary of buildReplay with the race detector.
func buildRace(dir string) (string, error) {
	out := filepath.Join(dir, "replay-race")
	cmd := exec.Command("go", "build", "-race", "-overlay", filepath.Join(dir, "overlay.json"), "-o", out, ".")
	cmd.Dir = srcDir()
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building with the race detector: %v\n%s", err, o)
	}
	return out, nil
}

var t0 = time.Now()

func logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] "+f+"\n", append([]any{time.Since(t0).Seconds()}, a...)...)
}
