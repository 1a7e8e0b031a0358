package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type nativeReport struct {
	Done    bool        `json:"done"`
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Stack   string      `json:"stack"`
	Desync  string      `json:"desync"`
	Assumed bool        `json:"assumed"`
	Obs     [][2]string `json:"obs"`
	Timeout bool        `json:"-"`
	Exit    int         `json:"-"`
	Stderr  string      `json:"-"`
}

type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []ReplayVal    `json:"values"`
	Kind    string         `json:"kind,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Stack   string         `json:"stack,omitempty"`
}

var caseNo atomic.Int64

// runNative executes one case with the native replay binary, as an unprivileged user in a scratch
// directory of its own.
func runNative(bin, work string, c *Case, timeout time.Duration) *nativeReport {
	if c.Kind == "race" {
		return runRace(work, c, timeout)
	}
	return runNativeBin(bin, work, c, timeout)
}

var raceOnce sync.Once
var raceBin string
var raceErr error

// runRace runs the case with Go's race detector, which is right about the races it sees but may miss one.
func runRace(work string, c *Case, timeout time.Duration) *nativeReport {
	raceOnce.Do(func() { raceBin, raceErr = buildRace(work) })
	if raceErr != nil {
		logf("data races can't be confirmed: %v", raceErr)
		return &nativeReport{Desync: raceErr.Error()}
	}
	var r *nativeReport
	for i := 0; i < 8; i++ {
		r = runNativeBin(raceBin, work, c, 2*timeout)
		if nativeRace(c.Msg, r.Stderr) {
			break
		}
	}
	return r
}

// nativeRace tells whether the race detector reports a race in one of the functions named by the message.
func nativeRace(msg, stderr string) bool {
	var names []string
	for _, f := range strings.Fields(msg) {
		f = strings.TrimSuffix(f, ",")
		if strings.Contains(f, "wiki2book") {
			f = f[strings.LastIndexAny(f, "./)")+1:]
			if i := strings.IndexByte(f, '$'); i >= 0 {
				f = f[:i]
			}
			if f != "" {
				names = append(names, f)
			}
		}
	}
	// the functions of the repository doing the accesses
	access := false
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "Read at "), strings.HasPrefix(l, "Write at "), strings.HasPrefix(l, "Previous "):
			access = true
		case strings.HasPrefix(l, "Goroutine "), strings.HasPrefix(l, "==="):
			access = false
		case access && strings.HasSuffix(l, "()") && (strings.HasPrefix(l, "wiki2book/") || strings.HasPrefix(l, "main.")):
			access = false
			for _, n := range names {
				if strings.Contains(l, "."+n+"(") || strings.Contains(l, "."+n+".") {
					return true
				}
			}
		}
	}
	return false
}

func runNativeBin(bin, work string, c *Case, timeout time.Duration) *nativeReport {
	id := caseNo.Add(1)
	d := filepath.Join(work, fmt.Sprintf("case%d", id))
	scratch := filepath.Join(d, "s")
	os.MkdirAll(scratch, 0o777)
	os.Chmod(d, 0o777)
	os.Chmod(scratch, 0o777)
	defer os.RemoveAll(d)
	b, _ := json.Marshal(c)
	cf := filepath.Join(d, "case.json")
	rf := filepath.Join(d, "report.json")
	os.WriteFile(cf, b, 0o644)
	cmd := exec.Command(bin, cf, rf, scratch)
	cmd.Dir = scratch
	cmd.Env = []string{"VERIF_REPLAY=1", "PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "GOTRACEBACK=single", "GOMAXPROCS=4"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		os.Chown(scratch, 65534, 65534)
		os.Chown(d, 65534, 65534)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	var se strings.Builder
	cmd.Stderr = &limited{&se, 1 << 16}
	rep := &nativeReport{}
	if err := cmd.Start(); err != nil {
		rep.Stderr = err.Error()
		rep.Desync = "could not start: " + err.Error()
		return rep
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		rep.Timeout = true
	}
	if rb, err := os.ReadFile(rf); err == nil {
		json.Unmarshal(rb, rep)
	}
	rep.Exit = cmd.ProcessState.ExitCode()
	rep.Stderr = se.String()
	return rep
}

type limited struct {
	sb *strings.Builder
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}

// confirm decides whether the native run shows the violation found symbolically.
func confirm(v *Violation, r *nativeReport) (bool, string) {
	if v.Kind == "assert" && len(r.Failed) > 0 {
		// Natively the harness goes on after a failed assertion. What it asks for then (inputs the
		// symbolic path never got to) doesn't matter anymore: the assertion failed on a proper execution.
		return true, "native: " + strings.Join(r.Failed, "; ")
	}
	if v.Kind == "race" {
		if nativeRace(v.Msg, r.Stderr) {
			return true, "native: the race detector reports it"
		}
		return false, "not seen by the race detector natively"
	}
	if r.Desync != "" {
		return false, "desync: " + r.Desync
	}
	if r.Assumed {
		return false, "an assumption of the harness does not hold natively"
	}
	crashed := !r.Done && !r.Timeout && r.Exit != 0
	switch v.Kind {
	case "assert":
		if r.Panic != "" {
			return true, "native: " + r.Panic
		}
		if crashed || r.Timeout {
			return true, "native: crash or hang"
		}
	case "panic":
		if r.Panic != "" {
			return true, "native: " + r.Panic
		}
		if crashed {
			return true, "native: process crashed: " + firstLine(r.Stderr)
		}
	case "exit":
		if crashed {
			return true, fmt.Sprintf("native: process exited with %d", r.Exit)
		}
	case "limit", "deadlock":
		if r.Timeout {
			return true, "native: no result within the time limit"
		}
		if crashed && strings.Contains(r.Stderr, "deadlock") {
			return true, "native: deadlock"
		}
		if crashed && strings.Contains(r.Stderr, "stack overflow") {
			return true, "native: stack overflow"
		}
		if crashed && (strings.Contains(r.Stderr, "out of memory") || r.Exit == -1) {
			return true, "native: out of memory"
		}
	}
	return false, fmt.Sprintf("native run: done=%v exit=%d panic=%q failed=%v timeout=%v", r.Done, r.Exit, r.Panic, r.Failed, r.Timeout)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
