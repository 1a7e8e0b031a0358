package verifrt

// Models of parts of the standard library for the symbolic world: their originals rely on the runtime, on
// unsafe code or on reflection, which are not encoded.

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- errors ----------------------------------------------------------------------------------------------

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

// newWrapped is the result of fmt.Errorf with the given operands of %w verbs.
func newWrapped(msg string, errs []error) error {
	if len(errs) == 1 {
		return &wrapError{msg, errs[0]}
	}
	return &wrapErrors{msg, errs}
}

// errorsAs is errors.As; assign stores the error in the target if it has the type of the target.
func errorsAs(err error, target any, assign func(error, any) bool) bool {
	for err != nil {
		if assign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsAs(e, target, assign) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// errorsIs is errors.Is.
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if sameValue(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// sameValue is a == b, false for types without comparison (implemented by the engine).
func sameValue(a, b any) bool { panic("engine") }

// ---- sync ------------------------------------------------------------------------------------------------

type syncState struct {
	mu     sync.Mutex
	maps   map[*sync.Map]map[any]any
	values map[*atomic.Value]any
	conds  map[*sync.Cond][]chan bool
}

var syncs = &syncState{maps: map[*sync.Map]map[any]any{}, values: map[*atomic.Value]any{}, conds: map[*sync.Cond][]chan bool{}}

func symMap(m *sync.Map) map[any]any {
	if syncs.maps[m] == nil {
		syncs.maps[m] = map[any]any{}
	}
	return syncs.maps[m]
}

func smLoad(m *sync.Map, k any) (any, bool) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	v, ok := symMap(m)[k]
	return v, ok
}

func smStore(m *sync.Map, k, v any) { smSwap(m, k, v) }

func smSwap(m *sync.Map, k, v any) (any, bool) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	old, ok := symMap(m)[k]
	symMap(m)[k] = v
	return old, ok
}

func smLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	old, ok := symMap(m)[k]
	if ok {
		return old, true
	}
	symMap(m)[k] = v
	return v, false
}

func smLoadAndDelete(m *sync.Map, k any) (any, bool) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	old, ok := symMap(m)[k]
	delete(symMap(m), k)
	return old, ok
}

func smDelete(m *sync.Map, k any) { smLoadAndDelete(m, k) }

func smCompareAndSwap(m *sync.Map, k, old, v any) bool {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	x, ok := symMap(m)[k]
	if !ok || x != old {
		return false
	}
	symMap(m)[k] = v
	return true
}

func smCompareAndDelete(m *sync.Map, k, old any) bool {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	x, ok := symMap(m)[k]
	if !ok || x != old {
		return false
	}
	delete(symMap(m), k)
	return true
}

func smClear(m *sync.Map) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	clear(symMap(m))
}

func smRange(m *sync.Map, f func(k, v any) bool) {
	syncs.mu.Lock()
	var ks, vs []any
	for k, v := range symMap(m) {
		ks, vs = append(ks, k), append(vs, v)
	}
	syncs.mu.Unlock()
	for i, k := range ks {
		if !f(k, vs[i]) {
			return
		}
	}
}

func avLoad(a *atomic.Value) any {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	return syncs.values[a]
}

func avStore(a *atomic.Value, v any) { avSwap(a, v) }

func avSwap(a *atomic.Value, v any) any {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	old := syncs.values[a]
	syncs.values[a] = v
	return old
}

func avCompareAndSwap(a *atomic.Value, old, v any) bool {
	if v == nil {
		panic("sync/atomic: compare and swap of nil value into Value")
	}
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	if syncs.values[a] != old {
		return false
	}
	syncs.values[a] = v
	return true
}

func condWait(c *sync.Cond) {
	ch := make(chan bool, 1)
	syncs.mu.Lock()
	syncs.conds[c] = append(syncs.conds[c], ch)
	syncs.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func condSignal(c *sync.Cond) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	if l := syncs.conds[c]; len(l) > 0 {
		l[0] <- true
		syncs.conds[c] = l[1:]
	}
}

func condBroadcast(c *sync.Cond) {
	syncs.mu.Lock()
	defer syncs.mu.Unlock()
	for _, ch := range syncs.conds[c] {
		ch <- true
	}
	syncs.conds[c] = nil
}

// ---- time ------------------------------------------------------------------------------------------------

func timeSince(t time.Time) time.Duration { return timeNow().Sub(t) }
func timeUntil(t time.Time) time.Duration { return t.Sub(timeNow()) }

// timeAfter: the time passes whenever the reader waits.
func timeAfter(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go func() {
		timeSleep(d)
		c <- timeNow()
	}()
	return c
}

func timeNewTimer(d time.Duration) *time.Timer { return &time.Timer{C: timeAfter(d)} }

// timeAfterFunc: nothing takes that long.
func timeAfterFunc(d time.Duration, f func()) *time.Timer { return &time.Timer{} }
func timerStop(t *time.Timer) bool                        { return true }
func timerReset(t *time.Timer, d time.Duration) bool      { return true }

// Timeouts never happen.
func ctxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
func ctxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func ctxWithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}

// ---- files -----------------------------------------------------------------------------------------------

func fileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h := fileOf(f)
	o := int(offset)
	switch whence {
	case io.SeekCurrent:
		o += h.off
	case io.SeekEnd:
		o += len(h.node.data)
	}
	if o < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = o
	return int64(o), nil
}

func (n *memNode) truncate(size int) {
	if size <= len(n.data) {
		n.data = n.data[:size:size]
		return
	}
	n.data = append(n.data[:len(n.data):len(n.data)], make([]byte, size-len(n.data))...)
}

func fileTruncate(f *os.File, size int64) error {
	fileOf(f).node.truncate(int(size))
	return nil
}

func osTruncate(name string, size int64) error {
	m := ms()
	n := m.nodes[m.abs(name)]
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	if n.dir {
		return perr("truncate", name, syscall.EISDIR)
	}
	n.truncate(int(size))
	return nil
}

func fileReadDir(f *os.File, n int) ([]os.DirEntry, error) { return osReadDir(fileOf(f).name) }

func fileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	l, err := osReadDir(fileOf(f).name)
	if err != nil {
		return nil, err
	}
	var r []os.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, nil
}

func fileReaddirnames(f *os.File, n int) ([]string, error) {
	l, err := osReadDir(fileOf(f).name)
	if err != nil {
		return nil, err
	}
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, nil
}

// fpGlob handles patterns within the last element of the path.
func fpGlob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	if strings.ContainsAny(dir, `*?[\`) {
		panic("verifrt: pattern within a folder")
	}
	d := filepath.Clean(dir)
	l, err := osReadDir(d)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		if ok, _ := filepath.Match(file, e.Name()); ok {
			if dir == "" {
				r = append(r, e.Name())
			} else {
				r = append(r, filepath.Join(d, e.Name()))
			}
		}
	}
	return r, nil
}

func osSetenv(k, v string) error {
	ms().env[k] = v
	return nil
}

func osUnsetenv(k string) error {
	delete(ms().env, k)
	return nil
}

// ---- JSON ------------------------------------------------------------------------------------------------

type jsonEncoder struct {
	w              io.Writer
	prefix, indent string
	plain          bool
}

var jsonEncoders = map[*json.Encoder]*jsonEncoder{}

func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jsonEncoders[e] = &jsonEncoder{w: w}
	return e
}

func jsonSetIndent(e *json.Encoder, prefix, indent string) {
	jsonEncoders[e].prefix, jsonEncoders[e].indent = prefix, indent
}

func jsonSetEscapeHTML(e *json.Encoder, on bool) { jsonEncoders[e].plain = !on }

func jsonEncode(e *json.Encoder, v any) error {
	j := jsonEncoders[e]
	var b []byte
	var err error
	if j.prefix != "" || j.indent != "" {
		b, err = jsonMarshalIndent(v, j.prefix, j.indent)
	} else {
		b, err = jsonMarshal(v)
	}
	if err != nil {
		return err
	}
	s := string(b)
	if j.plain {
		s = strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(s)
	}
	_, err = j.w.Write([]byte(s + "\n"))
	return err
}

type jsonDecoder struct {
	r      io.Reader
	read   bool
	data   string
	strict bool
}

var jsonDecoders = map[*json.Decoder]*jsonDecoder{}

func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jsonDecoders[d] = &jsonDecoder{r: r}
	return d
}

func jsonDisallowUnknownFields(d *json.Decoder) { jsonDecoders[d].strict = true }

// rest is the text that is not decoded yet.
func (j *jsonDecoder) rest() (string, error) {
	if !j.read {
		b, err := io.ReadAll(j.r)
		if err != nil {
			return "", err
		}
		j.read, j.data = true, string(b)
	}
	return strings.TrimLeft(j.data, " \t\r\n"), nil
}

func jsonDecode(d *json.Decoder, v any) error {
	j := jsonDecoders[d]
	s, err := j.rest()
	if err != nil {
		return err
	}
	if s == "" {
		return io.EOF
	}
	p := &jparser{s: s}
	n, err := p.value()
	if err != nil {
		if p.pos >= len(s) {
			return io.ErrUnexpectedEOF
		}
		return err
	}
	j.data = s[p.pos:]
	if j.strict {
		if k := jsonUnknown(v, n); k != "" {
			return errors.New(k)
		}
	}
	if msg := jsonAssign(v, n); msg != "" {
		return errors.New(msg)
	}
	return nil
}

func jsonMore(d *json.Decoder) bool {
	s, err := jsonDecoders[d].rest()
	return err == nil && s != "" && s[0] != ']' && s[0] != '}'
}

func jsonValid(b []byte) bool {
	_, err := jsonParse(string(b))
	return err == nil
}

// ---- commands --------------------------------------------------------------------------------------------

func exitErrorText(e *exec.ExitError) string { return "exit status 3" }

// exitCode: only failed commands have a state.
func exitCode(p *os.ProcessState) int {
	if p == nil {
		return -1
	}
	return 0
}

func cmdPipe(c *exec.Cmd) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader("")), nil }

func execLookPath(file string) (string, error) {
	m := ms()
	name := file
	if m.cmds[name] {
		return "/scratch/bin/" + name, nil
	}
	if strings.Contains(name, "/") {
		if !filepath.IsAbs(name) {
			name = filepath.Join(m.cwd, name)
		}
		if strings.HasPrefix(name, "/scratch/bin/") && m.cmds[name[len("/scratch/bin/"):]] {
			return file, nil
		}
		return "", &exec.Error{Name: file, Err: fs.ErrNotExist}
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

func fileReadAt(f *os.File, p []byte, off int64) (int, error) {
	h := fileOf(f)
	if int(off) >= len(h.node.data) {
		return 0, io.EOF
	}
	n := copy(p, h.node.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
