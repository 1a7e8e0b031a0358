package main

import (
	"fmt"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "symx: "+f+"\n", a...)
	os.Exit(1)
}

// redirects maps operating system functions to the in-memory model in package verifrt.
var redirects = map[string]string{
	"os.Stat": "osStat", "os.Lstat": "osStat", "os.ReadFile": "osReadFile", "os.WriteFile": "osWriteFile", "os.MkdirAll": "osMkdirAll",
	"os.Mkdir": "osMkdir", "os.Remove": "osRemove", "os.RemoveAll": "osRemoveAll", "os.Rename": "osRename", "os.Link": "osLink", "os.Create": "osCreate",
	"os.Open": "osOpen", "os.CreateTemp": "osCreateTemp", "os.MkdirTemp": "osMkdirTemp", "os.Chtimes": "osChtimes", "os.Getwd": "osGetwd",
	"os.Chdir": "osChdir", "os.UserCacheDir": "osUserCacheDir", "os.UserHomeDir": "osUserHomeDir", "os.TempDir": "osTempDir",
	"os.Getenv": "osGetenv", "os.LookupEnv": "osLookupEnv", "os.IsNotExist": "osIsNotExist", "os.IsExist": "osIsExist", "os.IsPermission": "osIsPermission",
	"(*os.File).Name": "fileName", "(*os.File).Write": "fileWrite", "(*os.File).WriteString": "fileWriteString", "(*os.File).Read": "fileRead",
	"(*os.File).ReadFrom": "fileReadFrom", "(*os.File).Stat": "fileStat", "(*os.File).Close": "fileClose",
	"(*os.File).Sync": "fileSync", "(*os.File).Chmod": "fileChmod", "os.Chmod": "osChmod", "os.OpenFile": "osOpenFile", "os.ReadDir": "osReadDir",
	"path/filepath.Walk": "fpWalk", "path/filepath.WalkDir": "fpWalkDir", "os/exec.CommandContext": "execCommandContext",
	"(*os/exec.Cmd).Output": "cmdOutput", "(*os/exec.Cmd).CombinedOutput": "cmdOutput", "(*os/exec.Cmd).Start": "cmdRun", "(*os/exec.Cmd).Wait": "cmdWait",
	"os/exec.Command": "execCommand", "os/exec.LookPath": "execLookPath", "(*os/exec.ExitError).Error": "exitErrorText", "(*os.ProcessState).ExitCode": "exitCode", "(*os/exec.Cmd).StdoutPipe": "cmdPipe", "(*os/exec.Cmd).StderrPipe": "cmdPipe", "(*os.File).ReadAt": "fileReadAt", "(*os/exec.Cmd).Run": "cmdRun", "(*os/exec.Cmd).String": "cmdString",
	"crypto/sha1.New": "newSha1", "crypto/md5.New": "newMd5", "crypto/sha256.New": "newSha256", "errors.Is": "errorsIs", "context.WithValue": "ctxWithValue",
	"encoding/json.Unmarshal": "jsonUnmarshal", "encoding/json.Marshal": "jsonMarshal", "encoding/json.MarshalIndent": "jsonMarshalIndent",
	"(*encoding/xml.Decoder).Decode": "xmlDecode",
	"time.Now":                       "timeNow", "time.Sleep": "timeSleep",
	"wiki2book/verifrt.FakeCommand": "symFakeCommand", "wiki2book/verifrt.FakeConverter": "symFakeConverter", "wiki2book/verifrt.ServeHTTP": "symServeHTTP", "(*net/http.Client).Do": "httpDo",
	"wiki2book/verifrt.FailCommand": "symFailCommand", "wiki2book/verifrt.ExecLog": "symExecLog",
	"github.com/go-shiori/go-epub.NewEpub": "epubNew", "(*github.com/go-shiori/go-epub.Epub).SetAuthor": "epubSetAuthor",
	"(*github.com/go-shiori/go-epub.Epub).SetLang": "epubSetLang", "(*github.com/go-shiori/go-epub.Epub).SetTitle": "epubSetTitle",
	"(*github.com/go-shiori/go-epub.Epub).SetIdentifier": "epubSetIdentifier", "(*github.com/go-shiori/go-epub.Epub).SetDescription": "epubSetDescription",
	"(*github.com/go-shiori/go-epub.Epub).AddImage": "epubAddImage", "(*github.com/go-shiori/go-epub.Epub).AddCSS": "epubAddCSS",
	"(*github.com/go-shiori/go-epub.Epub).AddFont": "epubAddFont", "(*github.com/go-shiori/go-epub.Epub).SetCover": "epubSetCover",
	"(*github.com/go-shiori/go-epub.Epub).AddSection": "epubAddSection", "(*github.com/go-shiori/go-epub.Epub).EmbedImages": "epubEmbedImages",
	"(*github.com/go-shiori/go-epub.Epub).Write": "epubWrite", "wiki2book/verifrt.OpenBook": "symOpenBook",
	"(*sync.Map).Load":                               "smLoad",
	"(*sync.Map).Store":                              "smStore",
	"(*sync.Map).Swap":                               "smSwap",
	"(*sync.Map).LoadOrStore":                        "smLoadOrStore",
	"(*sync.Map).LoadAndDelete":                      "smLoadAndDelete",
	"(*sync.Map).Delete":                             "smDelete",
	"(*sync.Map).CompareAndSwap":                     "smCompareAndSwap",
	"(*sync.Map).CompareAndDelete":                   "smCompareAndDelete",
	"(*sync.Map).Clear":                              "smClear",
	"(*sync.Map).Range":                              "smRange",
	"(*sync/atomic.Value).Load":                      "avLoad",
	"(*sync/atomic.Value).Store":                     "avStore",
	"(*sync/atomic.Value).Swap":                      "avSwap",
	"(*sync/atomic.Value).CompareAndSwap":            "avCompareAndSwap",
	"(*sync.Cond).Wait":                              "condWait",
	"(*sync.Cond).Signal":                            "condSignal",
	"(*sync.Cond).Broadcast":                         "condBroadcast",
	"time.Since":                                     "timeSince",
	"time.Until":                                     "timeUntil",
	"time.After":                                     "timeAfter",
	"time.NewTimer":                                  "timeNewTimer",
	"time.AfterFunc":                                 "timeAfterFunc",
	"(*time.Timer).Stop":                             "timerStop",
	"(*time.Timer).Reset":                            "timerReset",
	"context.WithTimeout":                            "ctxWithTimeout",
	"context.WithDeadline":                           "ctxWithDeadline",
	"(*os.File).Seek":                                "fileSeek",
	"(*os.File).Truncate":                            "fileTruncate",
	"os.Truncate":                                    "osTruncate",
	"(*os.File).ReadDir":                             "fileReadDir",
	"(*os.File).Readdir":                             "fileReaddir",
	"(*os.File).Readdirnames":                        "fileReaddirnames",
	"path/filepath.Glob":                             "fpGlob",
	"os.Setenv":                                      "osSetenv",
	"os.Unsetenv":                                    "osUnsetenv",
	"encoding/json.NewEncoder":                       "jsonNewEncoder",
	"(*encoding/json.Encoder).SetIndent":             "jsonSetIndent",
	"(*encoding/json.Encoder).SetEscapeHTML":         "jsonSetEscapeHTML",
	"(*encoding/json.Encoder).Encode":                "jsonEncode",
	"encoding/json.NewDecoder":                       "jsonNewDecoder",
	"(*encoding/json.Decoder).Decode":                "jsonDecode",
	"(*encoding/json.Decoder).DisallowUnknownFields": "jsonDisallowUnknownFields",
	"(*encoding/json.Decoder).More":                  "jsonMore",
	"encoding/json.Valid":                            "jsonValid",
	"wiki2book/verifrt.Dir":                          "symDir", "wiki2book/verifrt.SetNow": "symSetNow",
}

func redirectIntr(target string) intrinsic {
	return func(w *W, fr *frame, fn *ssa.Function, args []Value) Value {
		pkg := w.prog.ImportedPackage("wiki2book/verifrt")
		t := pkg.Func(target)
		if t == nil {
			unsupported("verifrt.%s missing", target)
		}
		return w.callFn(fr, t, args, nil)
	}
}

func init() {
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range a[0].(Slice) {
			s, ok := x.(string)
			if !ok {
				return fallThru{}
			}
			ss = append(ss, s)
		}
		return filepath.Join(ss...)
	}, "path/filepath.Join")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return filepath.IsAbs(s)
		}
		return fallThru{}
	}, "path/filepath.IsAbs")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if !ok1 || !ok2 {
			return fallThru{}
		}
		r, err := filepath.Rel(x, y)
		if err != nil {
			w.curFrame = fr
			return Tuple{"", w.newErr(err.Error())}
		}
		return Tuple{r, nilErr}
	}, "path/filepath.Rel")
	// io.Copy without the 32 KB scratch buffer
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		pkg := w.prog.ImportedPackage("wiki2book/verifrt")
		return w.callFn(fr, pkg.Func("ioCopy"), a, nil)
	}, "io.Copy")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		pkg := w.prog.ImportedPackage("wiki2book/verifrt")
		return w.callFn(fr, pkg.Func("ioReadAll"), a, nil)
	}, "io.ReadAll")
}
