package verifrt

// An in-memory operating system for the symbolic world. The engine redirects os.X, exec.X and
// time.X to the functions of this file; the native replay binary uses the real ones.

import (
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"hash"
	"io"
	"io/fs"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/go-shiori/go-epub"
)

type memNode struct {
	dir  bool
	data []byte
	mod  time.Time
}

type memHandle struct {
	name   string
	path   string
	node   *memNode
	off    int
	closed bool
}

type memState struct {
	nodes   map[string]*memNode
	order   []string
	handles map[*os.File]*memHandle
	cwd     string
	ntemp   int
	now     int64
	execs   [][]string
	fail    string // names of the failing commands
	env     map[string]string
	cmds    map[string]bool
	conv    string // names of the commands that write their last argument
	epubs   map[*epub.Epub]*memEpub
	books   []*Book
}

var mem *memState

func ms() *memState {
	if mem == nil {
		mem = &memState{nodes: map[string]*memNode{}, handles: map[*os.File]*memHandle{}, epubs: map[*epub.Epub]*memEpub{}, cwd: "/scratch", now: 1700000000, env: map[string]string{"HOME": "/home/user"}}
		for _, d := range []string{"/", "/scratch", "/tmp", "/home", "/home/user"} {
			mem.put(d, &memNode{dir: true, mod: time.Unix(mem.now, 0)})
		}
	}
	return mem
}

func (m *memState) put(p string, n *memNode) {
	if m.nodes[p] == nil {
		m.order = append(m.order, p)
	}
	m.nodes[p] = n
}

func (m *memState) del(p string) {
	delete(m.nodes, p)
	for i, o := range m.order {
		if o == p {
			m.order = append(append([]string{}, m.order[:i]...), m.order[i+1:]...)
			return
		}
	}
}

func (m *memState) abs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] == '/' {
		return filepath.Clean(p)
	}
	return filepath.Clean(m.cwd + "/" + p)
}

func (m *memState) children(p string) []string {
	var r []string
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	for _, o := range m.order {
		if strings.HasPrefix(o, pre) && o != p && !strings.Contains(o[len(pre):], "/") {
			r = append(r, o)
		}
	}
	// sorted, as filepath.Walk and ReadDir deliver them
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// parentErr checks that the parent directory of a path exists.
func (m *memState) parentErr(op, name, p string) error {
	if name == "" {
		return perr(op, name, syscall.ENOENT)
	}
	for i := 0; i < len(name); i++ {
		if name[i] == 0 {
			return perr(op, name, syscall.EINVAL)
		}
	}
	if len(filepath.Base(p)) > 255 {
		return perr(op, name, syscall.ENAMETOOLONG)
	}
	d := m.nodes[filepath.Dir(p)]
	if d == nil {
		return perr(op, name, syscall.ENOENT)
	}
	if !d.dir {
		return perr(op, name, syscall.ENOTDIR)
	}
	return nil
}

type memInfo struct {
	name string
	size int64
	mod  time.Time
	dir  bool
}

func (i *memInfo) Name() string       { return i.name }
func (i *memInfo) Size() int64        { return i.size }
func (i *memInfo) ModTime() time.Time { return i.mod }
func (i *memInfo) IsDir() bool        { return i.dir }
func (i *memInfo) Sys() any           { return nil }
func (i *memInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func info(p string, n *memNode) os.FileInfo {
	return &memInfo{name: filepath.Base(p), size: int64(len(n.data)), mod: n.mod, dir: n.dir}
}

func osStat(name string) (os.FileInfo, error) {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("stat", name, p); err != nil {
		return nil, err
	}
	n := m.nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info(p, n), nil
}

func osReadFile(name string) ([]byte, error) {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("open", name, p); err != nil {
		return nil, err
	}
	n := m.nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

func osWriteFile(name string, data []byte, perm os.FileMode) error {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("open", name, p); err != nil {
		return err
	}
	if n := m.nodes[p]; n != nil && n.dir {
		return perr("open", name, syscall.EISDIR)
	}
	m.put(p, &memNode{data: append([]byte{}, data...), mod: time.Unix(m.now, 0)})
	return nil
}

func osMkdirAll(name string, perm os.FileMode) error {
	m := ms()
	p := m.abs(name)
	if p == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	for i := 1; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			q := p[:i]
			n := m.nodes[q]
			if n == nil {
				m.put(q, &memNode{dir: true, mod: time.Unix(m.now, 0)})
			} else if !n.dir {
				return perr("mkdir", q, syscall.ENOTDIR)
			}
		}
	}
	return nil
}

func osMkdir(name string, perm os.FileMode) error {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("mkdir", name, p); err != nil {
		return err
	}
	if m.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	m.put(p, &memNode{dir: true, mod: time.Unix(m.now, 0)})
	return nil
}

func osRemove(name string) error {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("remove", name, p); err != nil {
		return err
	}
	n := m.nodes[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(m.children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	m.del(p)
	return nil
}

func osRemoveAll(name string) error {
	m := ms()
	if name == "" {
		return nil
	}
	p := m.abs(name)
	for _, o := range append([]string{}, m.order...) {
		if o == p || strings.HasPrefix(o, p+"/") {
			m.del(o)
		}
	}
	return nil
}

func osRename(from, to string) error {
	m := ms()
	p, q := m.abs(from), m.abs(to)
	n := m.nodes[p]
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if m.parentErr("rename", to, q) != nil {
		return lerr(syscall.ENOENT)
	}
	if t := m.nodes[q]; t != nil && t.dir && !n.dir {
		return lerr(syscall.EISDIR)
	}
	if p == q {
		return nil
	}
	if n.dir {
		if t := m.nodes[q]; t != nil && !t.dir {
			return lerr(syscall.ENOTDIR)
		}
		for _, o := range append([]string{}, m.order...) {
			if strings.HasPrefix(o, p+"/") {
				m.put(q+o[len(p):], m.nodes[o])
				m.del(o)
			}
		}
	}
	m.put(q, n)
	m.del(p)
	return nil
}

func osLink(from, to string) error {
	m := ms()
	p, q := m.abs(from), m.abs(to)
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	n := m.nodes[p]
	if n == nil || m.parentErr("link", to, q) != nil {
		return lerr(syscall.ENOENT)
	}
	if m.nodes[q] != nil {
		return lerr(syscall.EEXIST)
	}
	if n.dir {
		return lerr(syscall.EPERM)
	}
	m.put(q, n)
	return nil
}

func (m *memState) open(name, p string, n *memNode) *os.File {
	f := new(os.File)
	m.handles[f] = &memHandle{name: name, path: p, node: n}
	return f
}

func osCreate(name string) (*os.File, error) {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("open", name, p); err != nil {
		return nil, err
	}
	n := m.nodes[p]
	if n != nil && n.dir {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n == nil {
		n = &memNode{}
		m.put(p, n)
	}
	n.data = nil
	n.mod = time.Unix(m.now, 0)
	return m.open(name, p, n), nil
}

func osOpen(name string) (*os.File, error) {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("open", name, p); err != nil {
		return nil, err
	}
	n := m.nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	return m.open(name, p, n), nil
}

func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	m := ms()
	p := m.abs(name)
	if err := m.parentErr("open", name, p); err != nil {
		return nil, err
	}
	n := m.nodes[p]
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n == nil && flag&os.O_CREATE == 0 {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n != nil && n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n == nil {
		n = &memNode{mod: time.Unix(m.now, 0)}
		m.put(p, n)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
		n.mod = time.Unix(m.now, 0)
	}
	return m.open(name, p, n), nil
}

func osChmod(name string, mode os.FileMode) error {
	if _, err := osStat(name); err != nil {
		return err
	}
	return nil
}

func fileSync(f *os.File) error                    { return nil }
func fileChmod(f *os.File, mode os.FileMode) error { return nil }

func osReadDir(name string) ([]os.DirEntry, error) {
	m := ms()
	p := m.abs(name)
	n := m.nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var r []os.DirEntry
	for _, c := range m.children(p) {
		r = append(r, fs.FileInfoToDirEntry(info(c, m.nodes[c])))
	}
	return r, nil
}

func fpWalkDir(root string, fn fs.WalkDirFunc) error {
	return fpWalk(root, func(path string, info fs.FileInfo, err error) error {
		if info == nil {
			return fn(path, nil, err)
		}
		return fn(path, fs.FileInfoToDirEntry(info), err)
	})
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

func tempName(m *memState, dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	m.ntemp++
	return dir + "/" + pre + itoa(1000+m.ntemp) + suf
}

func osCreateTemp(dir, pattern string) (*os.File, error) {
	m := ms()
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	name := tempName(m, dir, pattern)
	return osCreate(name)
}

func osMkdirTemp(dir, pattern string) (string, error) {
	m := ms()
	name := tempName(m, dir, pattern)
	return name, osMkdir(name, 0o700)
}

func osChtimes(name string, atime, mtime time.Time) error {
	m := ms()
	n := m.nodes[m.abs(name)]
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.mod = mtime
	return nil
}

func osGetwd() (string, error) { return ms().cwd, nil }

func osChdir(name string) error {
	m := ms()
	p := m.abs(name)
	n := m.nodes[p]
	if n == nil {
		return perr("chdir", name, syscall.ENOENT)
	}
	if !n.dir {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	m.cwd = p
	return nil
}

func osUserCacheDir() (string, error) { return "/home/user/.cache", nil }
func osUserHomeDir() (string, error)  { return "/home/user", nil }
func osTempDir() string               { return "/tmp" }
func osGetenv(k string) string        { return ms().env[k] }
func osLookupEnv(k string) (string, bool) {
	v, ok := ms().env[k]
	return v, ok
}

func under(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	case *os.LinkError:
		return e.Err
	case *os.SyscallError:
		return e.Err
	}
	return err
}

func osIsNotExist(err error) bool {
	e := under(err)
	return e == fs.ErrNotExist || e == syscall.ENOENT
}

func osIsExist(err error) bool {
	e := under(err)
	return e == fs.ErrExist || e == syscall.EEXIST || e == syscall.ENOTEMPTY
}

func osIsPermission(err error) bool {
	e := under(err)
	return e == fs.ErrPermission || e == syscall.EACCES || e == syscall.EPERM
}

func fileOf(f *os.File) *memHandle { return ms().handles[f] }

func fileName(f *os.File) string { return fileOf(f).name }

func fileWrite(f *os.File, p []byte) (int, error) {
	if f == nil { // standard output
		return len(p), nil
	}
	h := fileOf(f)
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	h.node.data = append(append([]byte{}, h.node.data...), p...)
	h.node.mod = time.Unix(ms().now, 0)
	return len(p), nil
}

func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

func fileRead(f *os.File, p []byte) (int, error) {
	h := fileOf(f)
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if h.node.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.off >= len(h.node.data) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, h.node.data[h.off:])
	h.off += n
	return n, nil
}

func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := fileWrite(f, b)
	if err == nil {
		err = werr
	}
	return int64(n), err
}

func fileStat(f *os.File) (os.FileInfo, error) {
	h := fileOf(f)
	if h.closed {
		return nil, perr("stat", h.name, fs.ErrClosed)
	}
	return info(h.path, h.node), nil
}

func fileClose(f *os.File) error {
	h := fileOf(f)
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	return nil
}

func walk(m *memState, p, name string, fn filepath.WalkFunc) error {
	n := m.nodes[p]
	if n == nil {
		return fn(name, nil, perr("lstat", name, syscall.ENOENT))
	}
	err := fn(name, info(p, n), nil)
	if err != nil {
		if err == filepath.SkipDir && n.dir {
			return nil
		}
		return err
	}
	if !n.dir {
		return nil
	}
	for _, c := range m.children(p) {
		err := walk(m, c, filepath.Join(name, filepath.Base(c)), fn)
		if err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func fpWalk(root string, fn filepath.WalkFunc) error {
	m := ms()
	err := walk(m, m.abs(root), root, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

// ---- processes and clock ----------------------------------------------------------------------------

func execCommand(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func execCommandContext(_ context.Context, name string, arg ...string) *exec.Cmd {
	return execCommand(name, arg...)
}

func cmdOutput(c *exec.Cmd) ([]byte, error) { return nil, cmdRun(c) }
func cmdWait(c *exec.Cmd) error             { return nil }

func cmdString(c *exec.Cmd) string { return strings.Join(c.Args, " ") }

func cmdRun(c *exec.Cmd) error {
	m := ms()
	d := c.Dir
	if d == "" {
		d = m.cwd
	} else {
		d = m.abs(d)
	}
	if n := m.nodes[d]; n == nil || !n.dir {
		return perr("chdir", c.Dir, syscall.ENOENT)
	}
	name := c.Args[0]
	if m.cmds[name] { // found in PATH
		name = "/scratch/bin/" + name
	} else if strings.Contains(name, "/") && !filepath.IsAbs(name) { // relative to the working directory of the command
		name = filepath.Join(d, name)
	}
	if !strings.HasPrefix(name, "/scratch/bin/") {
		return &exec.Error{Name: name, Err: errors.New("executable file not found in $PATH")}
	}
	rec := append([]string{d, name[len("/scratch/bin/"):]}, c.Args[1:]...)
	m.execs = append(m.execs, rec)
	fail := strings.Contains(m.fail, "|"+rec[1]+"|")
	if strings.Contains(m.conv, "|"+rec[1]+"|") {
		last, in := c.Args[len(c.Args)-1], c.Args[len(c.Args)-2]
		if !filepath.IsAbs(last) {
			last = filepath.Join(d, last)
		}
		if !filepath.IsAbs(in) {
			in = filepath.Join(d, in)
		}
		b, _ := osReadFile(in)
		content := "<" + string(b) + ">"
		if fail {
			content = "broken"
		}
		if err := osWriteFile(last, []byte(content), 0o666); err != nil {
			return &exec.ExitError{}
		}
	}
	if fail {
		return &exec.ExitError{}
	}
	return nil
}

func symFakeConverter(name string) string {
	p := symFakeCommand(name)
	ms().conv += "|" + name + "|"
	return p
}

func symFakeCommand(name string) string {
	m := ms()
	c := map[string]bool{name: true}
	for k := range m.cmds {
		c[k] = true
	}
	m.cmds = c
	return "/scratch/bin/" + name
}
func symFailCommand(name string, b bool) {
	m := ms()
	m.fail = strings.ReplaceAll(m.fail, "|"+name+"|", "")
	if b {
		m.fail += "|" + name + "|"
	}
}
func symExecLog() [][]string    { return ms().execs }
func symDir() string            { return ms().cwd }
func symSetNow(sec int)         { ms().now = int64(sec) }
func timeNow() time.Time        { return time.Unix(ms().now, 0) }
func timeSleep(d time.Duration) {}

func ioReadAll(r io.Reader) ([]byte, error) {
	var out []byte
	for {
		buf := make([]byte, 64)
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// ioCopy behaves like io.Copy with a generic reader and writer.
func ioCopy(dst io.Writer, src io.Reader) (int64, error) {
	var written int64
	if wt, ok := src.(io.WriterTo); ok {
		return wt.WriteTo(dst)
	}
	for {
		buf := make([]byte, 64)
		n, err := src.Read(buf)
		if n > 0 {
			k, werr := dst.Write(buf[:n])
			written += int64(k)
			if werr != nil {
				return written, werr
			}
			if k != n {
				return written, io.ErrShortWrite
			}
		}
		if err == io.EOF {
			return written, nil
		}
		if err != nil {
			return written, err
		}
	}
}

// symHash is the incremental form of a hash function: it collects its input.
type symHash struct {
	data        []byte
	md5, sha256 bool
}

func newSha1() hash.Hash   { return &symHash{} }
func newMd5() hash.Hash    { return &symHash{md5: true} }
func newSha256() hash.Hash { return &symHash{sha256: true} }

func (h *symHash) Write(p []byte) (int, error) {
	h.data = append(h.data, p...)
	return len(p), nil
}
func (h *symHash) WriteString(p string) (int, error) {
	h.data = append(h.data, p...)
	return len(p), nil
}
func (h *symHash) Sum(b []byte) []byte {
	if h.md5 {
		s := md5.Sum(h.data)
		return append(b, s[:]...)
	}
	if h.sha256 {
		s := sha256.Sum256(h.data)
		return append(b, s[:]...)
	}
	s := sha1.Sum(h.data)
	return append(b, s[:]...)
}
func (h *symHash) Reset()         { h.data = nil }
func (h *symHash) Size() int      { return len(h.Sum(nil)) }
func (h *symHash) BlockSize() int { return 64 }

// ---- network ------------------------------------------------------------------------------------------

func symServeHTTP(f Server) { server = f }

func httpDo(c *http.Client, r *http.Request) (*http.Response, error) {
	return transport{}.RoundTrip(r)
}
