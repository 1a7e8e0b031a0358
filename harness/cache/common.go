package cache

import (
	"errors"
	"os"
	"time"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifFS counts the steps of the file system. One step may fail and one may be the last one
// before a crash; all other behaviour is the one of the real file system.
type verifFS struct {
	util.Filesystem
	steps     int
	fail      int // this step fails
	crash     int // the process ends at this step
	after     bool
	partial   bool // a failing write writes a part, a crashing write as well
	dead      bool
	failed    bool
	removed   []string
	onRemove  func(name string)
	hook      func(step int)
	lastTemp  string
	failTimes bool
}

type verifCrash struct{}

var errVerif = errors.New("injected failure")

// step performs one step, which may fail or crash before or after its effect.
func (f *verifFS) step(effect func() error) error {
	if f.dead {
		return errVerif
	}
	n := f.steps
	f.steps++
	if f.hook != nil {
		f.hook(n)
	}
	if n == f.crash {
		if f.after {
			effect()
		}
		f.dead = true
		panic(verifCrash{})
	}
	if n == f.fail {
		f.failed = true
		return errVerif
	}
	return effect()
}

func (f *verifFS) GetSizeInBytes(path string) (n int64, err error) {
	err = f.step(func() error { n, err = f.Filesystem.GetSizeInBytes(path); return err })
	return
}

func (f *verifFS) Rename(a, b string) error {
	return f.step(func() error { return f.Filesystem.Rename(a, b) })
}

func (f *verifFS) Remove(name string) error {
	return f.step(func() error {
		if f.onRemove != nil {
			f.onRemove(name)
		}
		err := f.Filesystem.Remove(name)
		if err == nil {
			f.removed = append(f.removed, name)
		}
		return err
	})
}

func (f *verifFS) Create(name string) (r util.FileLike, err error) {
	err = f.step(func() error { r, err = f.Filesystem.Create(name); return err })
	if err != nil {
		return nil, err
	}
	return &verifFile{f: f, r: r}, nil
}

func (f *verifFS) MkdirAll(path string) error {
	return f.step(func() error { return f.Filesystem.MkdirAll(path) })
}

func (f *verifFS) CreateTemp(dir, pattern string) (r util.FileLike, err error) {
	err = f.step(func() error { r, err = f.Filesystem.CreateTemp(dir, pattern); return err })
	if err != nil {
		return nil, err
	}
	f.lastTemp = r.Name()
	return &verifFile{f: f, r: r}, nil
}

func (f *verifFS) DirSizeInBytes(path string) (err error, n int64) {
	err = f.step(func() error { err, n = f.Filesystem.DirSizeInBytes(path); return err })
	return
}

func (f *verifFS) FindLargestFile(path, except string) (err error, n int64, p string) {
	err = f.step(func() error { err, n, p = f.Filesystem.FindLargestFile(path, except); return err })
	return
}

func (f *verifFS) FindLruFile(path, except string) (err error, n int64, p string) {
	err = f.step(func() error { err, n, p = f.Filesystem.FindLruFile(path, except); return err })
	return
}

func (f *verifFS) ReadFile(name string) (b []byte, err error) {
	err = f.step(func() error { b, err = f.Filesystem.ReadFile(name); return err })
	return
}

func (f *verifFS) Stat(name string) (i os.FileInfo, err error) {
	err = f.step(func() error { i, err = f.Filesystem.Stat(name); return err })
	return
}

func (f *verifFS) Chtimes(name string, a, m time.Time) error {
	return f.step(func() error { return f.Filesystem.Chtimes(name, a, m) })
}

type verifFile struct {
	f      *verifFS
	r      util.FileLike
	closed bool
}

func (v *verifFile) Name() string { return v.r.Name() }

func (v *verifFile) Write(p []byte) (n int, err error) {
	f := v.f
	if f.dead {
		return 0, errVerif
	}
	k := f.steps
	f.steps++
	if f.hook != nil {
		f.hook(k)
	}
	if (k == f.crash || k == f.fail) && f.partial && len(p) > 0 {
		n, _ = v.r.Write(p[:len(p)-1])
	}
	if k == f.crash {
		if f.after && !f.partial {
			v.r.Write(p)
		}
		f.dead = true
		panic(verifCrash{})
	}
	if k == f.fail {
		f.failed = true
		return n, errVerif
	}
	return v.r.Write(p)
}

func (v *verifFile) Stat() (i os.FileInfo, err error) {
	err = v.f.step(func() error { i, err = v.r.Stat(); return err })
	return
}

func (v *verifFile) Close() error {
	if v.f.dead {
		v.r.Close()
		return errVerif
	}
	if v.f.steps == v.f.fail && v.f.partial && !v.closed {
		// writing the last part of the content was delayed by the operating system and fails now
		if b, err := os.ReadFile(v.r.Name()); err == nil && len(b) > 0 {
			os.WriteFile(v.r.Name(), b[:len(b)-1], 0o600)
		}
	}
	v.closed = true
	return v.f.step(v.r.Close)
}

func (v *verifFile) Sync() error { return nil }

// verifCache prepares an empty cache folder and the configuration.
func verifCache() *verifFS {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "cache"
	os.RemoveAll("cache")
	os.MkdirAll(GetTempPath(), 0o755)
	f := &verifFS{Filesystem: &util.OsFilesystem{}, fail: -1, crash: -1}
	util.CurrentFilesystem = f
	return f
}

// verifPut stores a file that was used the given number of seconds after the start of the cache.
func verifPut(folder, name, content string, when int) {
	verifPutAt(folder, name, content, time.Unix(1600000000+int64(when), 0))
}

func verifPutAt(folder, name, content string, t time.Time) {
	os.MkdirAll(GetDirPathInCache(folder), 0o755)
	p := GetDirPathInCache(folder) + "/" + name
	os.WriteFile(p, []byte(content), 0o644)
	os.Chtimes(p, t, t)
}

// verifGet is the content of a file, or "-" if there is none.
func verifGet(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "-"
	}
	return "+" + string(b)
}

// verifCrashed runs f and tells whether it ended in a crash.
func verifCrashed(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verifCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f()
	return false
}

func verifStrategy(name string) string {
	switch verifrt.Choice(name, 3) {
	case 0:
		return config.CacheEvictionStrategyNone
	case 1:
		return config.CacheEvictionStrategyLargest
	}
	return config.CacheEvictionStrategyLru
}
