// Package verifrt is the interface between verification harnesses and the two worlds they run in:
// the symbolic engine (which replaces the functions of this file by intrinsics) and the native
// replay binary (which executes them on the values of one recorded case).
package verifrt

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Val struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []Val          `json:"values"`
}

type Report struct {
	Done    bool        `json:"done"`
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Stack   string      `json:"stack"`
	Desync  string      `json:"desync"`
	Assumed bool        `json:"assumed"` // an assumption did not hold
	Obs     [][2]string `json:"obs"`
}

var (
	cur     Case
	pos     int
	rep     Report
	repFile string
)

type stopCase struct{}

func next(name, kind string) string {
	if pos >= len(cur.Values) {
		rep.Desync = fmt.Sprintf("no value for %s", name)
		panic(stopCase{})
	}
	v := cur.Values[pos]
	pos++
	if v.N != name || v.K != kind {
		rep.Desync = fmt.Sprintf("expected %s/%s, case has %s/%s", name, kind, v.N, v.K)
		panic(stopCase{})
	}
	return v.V
}

// Str is any string of n bytes over the alphabet ("" = all bytes).
func Str(name string, n int, alphabet string) string {
	b, _ := hex.DecodeString(next(name, "s"))
	return string(b)
}

// StrMax is any string of min to max bytes over the alphabet.
func StrMax(name string, min, max int, alphabet string) string {
	next(name+".len", "c")
	return Str(name, 0, alphabet)
}

func Int(name string, lo, hi int) int {
	n, _ := strconv.Atoi(next(name, "i"))
	return n
}

func Bool(name string) bool { return next(name, "b") == "1" }

// Choice is one of 0..n-1, explored case by case.
func Choice(name string, n int) int {
	k, _ := strconv.Atoi(next(name, "c"))
	return k
}

func Assume(c bool) {
	if !c {
		rep.Assumed = true
		panic(stopCase{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		rep.Failed = append(rep.Failed, msg)
	}
}

func Reach(name string) {}

func Observe(name string, v string) {
	rep.Obs = append(rep.Obs, [2]string{name, hex.EncodeToString([]byte(v))})
}
func ObserveInt(name string, v int)   { Observe(name, strconv.Itoa(v)) }
func ObserveBool(name string, v bool) { Observe(name, strconv.FormatBool(v)) }
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// MapOrder makes map iteration order nondeterministic.
func MapOrder(b bool) {}

// Preempt allows up to n preemptions of goroutines.
func Preempt(n int) {}
func Yield()        {}

// Pause stops the goroutine for n units of time. In the symbolic world time passes only while all
// goroutines wait.
func Pause(n int) { time.Sleep(time.Duration(n) * 60 * time.Millisecond) }

// Settle lets another goroutine run until it closes done or is blocked.
func Settle(done <-chan bool) {
	select {
	case <-done:
	case <-time.After(100 * time.Millisecond):
	}
}
func AllowExit()      { allowExit = true }
func StepLimit(n int) {}

// DetectRaces looks for data races from here on: conflicting accesses that aren't ordered by synchronisation. In the
// native run this is up to the race detector.
func DetectRaces()   {}
func Symbolic() bool { return false }

var allowExit bool

func Or(a, b bool) bool  { return a || b }
func And(a, b bool) bool { return a && b }
func Not(a bool) bool    { return !a }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Dir is the scratch directory of the current case (the working directory).
func Dir() string {
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	return d
}

// ---- external commands ------------------------------------------------------------------------

// FakeCommand makes sure that running the command `name` only records its arguments.
// It returns the command to use.
func FakeCommand(name string) string {
	d := filepath.Join(scratch, "bin")
	os.MkdirAll(d, 0o755)
	log := filepath.Join(scratch, "exec.log")
	p := filepath.Join(d, name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	script := "#!/bin/sh\n{ printf '%s\\0' " + "\"$PWD\" '" + name + "' \"$@\"; printf '\\036\\0'; } >> '" + log + "'\n" +
		"if [ -e '" + filepath.Join(scratch, "exec.fail."+name) + "' ]; then for l; do o=$l; done; if [ -e '" + p + ".conv' ]; then printf broken > \"$o\"; fi; exit 3; fi\n"
	os.WriteFile(p, []byte(script), 0o755)
	if path := os.Getenv("PATH"); !strings.HasPrefix(path, d+":") {
		os.Setenv("PATH", d+":"+path)
	}
	return p
}

// FakeConverter is a fake command that also writes the file named by its last argument (from the one before).
func FakeConverter(name string) string {
	p := FakeCommand(name)
	f, _ := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0o755)
	f.WriteString("for l; do i=$o; o=$l; done\nc=$(cat \"$i\")\nprintf '<%s>' \"$c\" > \"$o\" || exit 2\n")
	f.Close()
	os.WriteFile(p+".conv", nil, 0o644)
	return p
}

// Server answers a request: status (0 is a failing connection), headers, body.
type Server func(method, url, body string) (int, http.Header, string)

var server Server

// ServeHTTP answers all requests of clients using the default transport.
func ServeHTTP(f Server) {
	server = f
	http.DefaultTransport = transport{}
}

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	if server == nil {
		return nil, errors.New("no network")
	}
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		body = string(b)
	}
	status, h, answer := server(r.Method, r.URL.String(), body)
	if status == 0 {
		return nil, errors.New("no connection")
	}
	if h == nil {
		h = http.Header{}
	}
	return &http.Response{StatusCode: status, Header: h, Body: io.NopCloser(strings.NewReader(answer)), Request: r}, nil
}

// FailCommand makes a fake command fail (exit with 3) from now on. A converter writes something broken then.
func FailCommand(name string, b bool) {
	p := filepath.Join(scratch, "exec.fail."+name)
	if b {
		os.WriteFile(p, nil, 0o644)
	} else {
		os.Remove(p)
	}
}

// ExecLog lists the recorded commands: working directory, command name, arguments.
func ExecLog() [][]string {
	b, _ := os.ReadFile(filepath.Join(scratch, "exec.log"))
	var out [][]string
	var rec []string
	for _, f := range strings.Split(string(b), "\x00") {
		if f == "\036" {
			out = append(out, rec)
			rec = nil
			continue
		}
		rec = append(rec, f)
	}
	return out
}

// SetNow sets the clock of the symbolic world (seconds); natively the real clock is used.
func SetNow(sec int) {}

var scratch string

// ---- native runner ------------------------------------------------------------------------------

var harnesses = map[string]func(){}

// Register makes a harness known to the replay binary.
func Register(name string, f func()) { harnesses[name] = f }

func Main() {
	if len(os.Args) < 4 {
		var n []string
		for k := range harnesses {
			n = append(n, k)
		}
		sort.Strings(n)
		fmt.Println(strings.Join(n, "\n"))
		os.Exit(0)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	repFile = os.Args[2]
	scratch = os.Args[3]
	os.Chdir(scratch)
	f := harnesses[cur.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown harness", cur.Harness)
		os.Exit(9)
	}
	writeRep()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				if e, ok := r.(error); ok {
					rep.Panic = "panic: " + e.Error()
				} else {
					rep.Panic = fmt.Sprintf("panic: %v", r)
				}
				rep.Stack = string(debug.Stack())
			}
		}()
		f()
	}()
	rep.Done = true
	writeRep()
	os.Exit(0)
}

func writeRep() {
	b, _ := json.Marshal(rep)
	os.WriteFile(repFile, b, 0o666)
}
