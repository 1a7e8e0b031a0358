package cache

import (
	"os"
	"path/filepath"
	"strings"
	"time"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifModel is a file system that only knows sizes and times, which may be symbolic.
type verifModel struct {
	util.Filesystem
	names  []string
	sizes  []int
	times  []int
	temp   bool
	write  int // size of the file being written
	target string
	none   bool
	check  func(name string, i int)
}

func (m *verifModel) index(name string) int {
	for i, n := range m.names {
		if n == name {
			return i
		}
	}
	return -1
}

func (m *verifModel) del(i int) {
	m.names = append(append([]string{}, m.names[:i]...), m.names[i+1:]...)
	m.sizes = append(append([]int{}, m.sizes[:i]...), m.sizes[i+1:]...)
	m.times = append(append([]int{}, m.times[:i]...), m.times[i+1:]...)
}

func (m *verifModel) GetSizeInBytes(path string) (int64, error) {
	if i := m.index(path); i >= 0 {
		return int64(m.sizes[i]), nil
	}
	return -1 << 63, os.ErrNotExist
}

func (m *verifModel) Rename(a, b string) error {
	verifrt.Assert(m.temp && a == "cache/.tmp/f1", "only the temporary file is renamed")
	if i := m.index(b); i >= 0 {
		m.del(i)
	}
	m.temp = false
	m.names = append(m.names, b)
	m.sizes = append(m.sizes, m.write)
	m.times = append(m.times, 1000)
	return nil
}

func (m *verifModel) Remove(name string) error {
	if name == "cache/.tmp/f1" {
		if !m.temp {
			return os.ErrNotExist
		}
		m.temp = false
		return nil
	}
	i := m.index(name)
	if i < 0 {
		return os.ErrNotExist
	}
	m.check(name, i)
	m.del(i)
	return nil
}

func (m *verifModel) Create(name string) (util.FileLike, error) { panic("not expected") }
func (m *verifModel) MkdirAll(path string) error                { return nil }
func (m *verifModel) CreateTemp(dir, pattern string) (util.FileLike, error) {
	verifrt.Assert(dir == "cache/.tmp", "a new file is written to the temporary folder")
	m.temp = true
	return &verifModelFile{m}, nil
}

func (m *verifModel) DirSizeInBytes(path string) (error, int64) {
	sum := 0
	for i, n := range m.names {
		if strings.HasPrefix(n, path+"/") {
			sum += m.sizes[i]
		}
	}
	if m.temp && strings.HasPrefix("cache/.tmp/f1", path+"/") {
		sum += m.write
	}
	return nil, int64(sum)
}

func (m *verifModel) find(better func(i, j int) bool) (error, int64, string) {
	best := -1
	for i := range m.names {
		if best < 0 || better(i, best) {
			best = i
		}
	}
	if best < 0 {
		return nil, 0, ""
	}
	return nil, int64(m.sizes[best]), m.names[best]
}

func (m *verifModel) FindLargestFile(path, except string) (error, int64, string) {
	verifrt.Assert(path == "cache" && except == ".tmp", "the victim is searched in the cache without temporary files")
	return m.find(func(i, j int) bool { return m.sizes[i] > m.sizes[j] })
}

func (m *verifModel) FindLruFile(path, except string) (error, int64, string) {
	verifrt.Assert(path == "cache" && except == ".tmp", "the victim is searched in the cache without temporary files")
	return m.find(func(i, j int) bool { return m.times[i] < m.times[j] })
}

func (m *verifModel) Stat(name string) (os.FileInfo, error) {
	i := m.index(name)
	if i < 0 {
		return nil, os.ErrNotExist
	}
	return verifInfo{name, m.sizes[i], m.times[i]}, nil
}

func (m *verifModel) Chtimes(name string, a, b time.Time) error { return nil }

type verifModelFile struct{ m *verifModel }

func (v *verifModelFile) Name() string                { return "cache/.tmp/f1" }
func (v *verifModelFile) Write(p []byte) (int, error) { return len(p), nil }
func (v *verifModelFile) Close() error                { return nil }
func (v *verifModelFile) Stat() (os.FileInfo, error) {
	return verifInfo{"f1", v.m.write, 1000}, nil
}

type verifInfo struct {
	name string
	size int
	time int
}

func (i verifInfo) Name() string       { return filepath.Base(i.name) }
func (i verifInfo) Size() int64        { return int64(i.size) }
func (i verifInfo) Mode() os.FileMode  { return 0o644 }
func (i verifInfo) ModTime() time.Time { return time.Unix(int64(i.time), 0) }
func (i verifInfo) IsDir() bool        { return false }
func (i verifInfo) Sys() any           { return nil }

// VerifEviction: any sizes, ages, limit and strategy for the given number of entries, one of which
// may be an old version of the file being stored.
func VerifEviction() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "cache"
	big := verifrt.Param("size", 1000000)
	m := &verifModel{}
	util.CurrentFilesystem = m
	k := verifrt.Choice("entries", verifrt.Param("entries", 3)+1)
	target := "cache/images/f"
	var names []string
	old := verifrt.Choice("old version", k+1) // position, k = none
	for i := 0; i < k; i++ {
		n := "cache/html/" + string(rune('p'+i))
		if i == old {
			n = target
		}
		names = append(names, n)
		m.names = append(m.names, n)
		m.sizes = append(m.sizes, verifrt.Int("size", 0, big))
		m.times = append(m.times, verifrt.Int("time", 0, 900))
	}
	m.write = verifrt.Int("new size", 0, big)
	limit := verifrt.Int("limit", 1, 4*big)
	config.Current.CacheMaxSize = int64(limit)
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	strategy := config.Current.CacheEvictionStrategy

	// size of the cache with the new file in place
	total := func() int {
		sum := m.write
		for i, n := range m.names {
			if n != target {
				sum += m.sizes[i]
			}
		}
		return sum
	}
	removed := 0
	m.check = func(name string, i int) {
		removed++
		verifrt.Assert(strategy != config.CacheEvictionStrategyNone, "nothing is evicted if eviction is disabled")
		verifrt.Assert(total() >= limit, "entries are only evicted if necessary")
		for j := range m.names {
			if strategy == config.CacheEvictionStrategyLargest {
				verifrt.Assert(m.sizes[j] <= m.sizes[i], "the largest entry is evicted")
			} else {
				verifrt.Assert(m.times[j] >= m.times[i], "the least recently used entry is evicted")
			}
		}
	}
	path, err := CacheToFile("images", "f", strings.NewReader("data"))
	verifrt.ObserveInt("removed", removed)
	verifrt.Assert(err == nil && path == target, "the file is stored")
	verifrt.Assert(m.index(target) >= 0 && !m.temp, "the file is in the cache")
	if strategy != config.CacheEvictionStrategyNone {
		verifrt.Assert(verifrt.Or(total() < limit, len(m.names) == 1), "the cache is within its limit or nothing is left to evict")
	} else {
		for _, n := range names {
			verifrt.Assert(m.index(n) >= 0, "nothing is lost if eviction is disabled")
		}
	}
}

// VerifEvictionFiles: the same with the real file system, any sizes up to the bound, any ages.
func VerifEvictionFiles() {
	f := verifCache()
	big := verifrt.Param("size", 3)
	type entry struct {
		path string
		size int
		time int
	}
	var entries []entry
	k := verifrt.Choice("entries", verifrt.Param("entries", 2)+1)
	old := verifrt.Choice("old version", k+1)
	// ages in seconds, or all within one second
	within := k > 1 && verifrt.Choice("unit", 2) == 1
	for i := 0; i < k; i++ {
		folder, name := []string{"html", "images", "articles"}[i%3], "e"+string(rune('0'+i))
		if i == old {
			folder, name = "images", "f"
		}
		e := entry{GetFilePathInCache(folder, name), verifrt.Choice("size", big+1), verifrt.Int("time", 1, 900)}
		for _, o := range entries {
			verifrt.Assume(o.time != e.time)
		}
		entries = append(entries, e)
		if within {
			verifPutAt(folder, name, strings.Repeat("x", e.size), time.Unix(1600000000, int64(e.time)))
		} else {
			verifPut(folder, name, strings.Repeat("x", e.size), e.time)
		}
	}
	// a temporary file of someone else, smaller and older than everything
	leftover := verifrt.Choice("leftover", 3)
	if leftover > 0 {
		verifPut(TempDirName, "left", strings.Repeat("y", leftover*leftover-1), 0)
	}
	size := verifrt.Choice("new size", big+1)
	limit := verifrt.Int("limit", 1, 100)
	config.Current.CacheMaxSize = int64(limit)
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	strategy := config.Current.CacheEvictionStrategy
	target := GetFilePathInCache("images", "f")

	left := func() (r []entry, total int) {
		total = size
		for _, e := range entries {
			if verifGet(e.path) != "-" {
				r = append(r, e)
				if e.path != target {
					total += e.size
				}
			}
		}
		return
	}
	f.onRemove = func(name string) {
		if filepath.Dir(name) == GetTempPath() {
			verifrt.Assert(filepath.Base(name) != "left", "files in the temporary folder are not evicted")
			return
		}
		verifrt.Assert(strategy != config.CacheEvictionStrategyNone, "nothing is evicted if eviction is disabled")
		now, total := left()
		waste := 0
		if leftover > 0 {
			waste = leftover*leftover - 1
		}
		verifrt.Assert(total+waste >= limit, "entries are only evicted if necessary")
		for _, v := range now {
			if v.path != name {
				continue
			}
			for _, e := range now {
				if strategy == config.CacheEvictionStrategyLargest {
					verifrt.Assert(e.size <= v.size, "the largest entry is evicted")
				} else {
					verifrt.Assert(e.time >= v.time, "the least recently used entry is evicted")
				}
			}
		}
	}
	path, err := CacheToFile("images", "f", strings.NewReader(strings.Repeat("z", size)))
	verifrt.Assert(err == nil && path == target, "the file is stored")
	verifrt.Assert(verifGet(target) == "+"+strings.Repeat("z", size), "the new file is complete")
	now, total := left()
	verifrt.ObserveInt("left", len(now))
	others := 0
	for _, e := range now {
		if e.path != target {
			others++
		}
	}
	if strategy == config.CacheEvictionStrategyNone {
		verifrt.Assert(len(now) == len(entries), "nothing is lost if eviction is disabled")
	} else {
		verifrt.Assert(total < limit || others == 0, "the cache is within its limit or nothing is left to evict")
	}
	if leftover > 0 {
		verifrt.Assert(verifGet(GetTempPath()+"/left") != "-", "files in the temporary folder are not evicted")
	}
}

// VerifEvictionHistory: histories of stores and lookups by name; the least recently used entry goes first.
func VerifEvictionHistory() {
	f := verifCache()
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyLru
	config.Current.CacheMaxSize = 4
	config.Current.CacheMaxAge = 1 << 40
	_ = f
	names := []string{"a", "b", "c"}
	var used []string // by last use
	use := func(n string) {
		for i, u := range used {
			if u == n {
				used = append(append([]string{}, used[:i]...), used[i+1:]...)
				break
			}
		}
		used = append(used, n)
	}
	steps := verifrt.Param("steps", 5)
	for i := 0; i < steps; i++ {
		n := names[verifrt.Choice("name", len(names))]
		now := 1600000000 + i*10
		verifrt.SetNow(now)
		if verifrt.Choice("operation", 2) == 0 {
			p, err := CacheToFile("html", n, strings.NewReader("x"))
			verifrt.Assert(err == nil, "the file is stored")
			use(n)
			os.Chtimes(p, time.Unix(int64(now), 0), time.Unix(int64(now), 0))
			if len(used) > 3 {
				used = used[1:]
			}
		} else {
			_, ok, err := GetFile("html", n)
			has := false
			for _, u := range used {
				has = has || u == n
			}
			verifrt.Assert(err == nil && ok == has, "exactly the entries that were not evicted are found")
			if has {
				use(n)
			}
		}
	}
}

// VerifConcurrentStores: another store or lookup runs at any step of a store (or waits for it).
func VerifConcurrentStores() {
	f := verifCache()
	verifrt.Preempt(0)
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	evicting := config.Current.CacheEvictionStrategy != config.CacheEvictionStrategyNone
	config.Current.CacheMaxSize = 5
	config.Current.CacheMaxAge = 1 << 40
	if verifrt.Choice("old", 2) == 1 {
		verifPut("html", "a", "0", 5)
	}
	if verifrt.Choice("old other", 2) == 1 {
		verifPut("html", "b", "99", 7)
	}
	at := verifrt.Int("step", 0, verifrt.Param("steps", 20))
	name := []string{"a", "b"}[verifrt.Choice("name", 2)]
	op := verifrt.Choice("operation", 2)

	done := make(chan bool)
	started := false
	var err2 error
	var seen string
	f.hook = func(n int) {
		if n != at || started {
			return
		}
		started = true
		f.hook = nil
		go func() {
			if op == 0 {
				_, err2 = CacheToFile("html", name, strings.NewReader("22"))
			} else {
				p, ok, err := GetFile("html", name)
				err2 = err
				if ok {
					seen = verifGet(p)
				}
			}
			close(done)
		}()
		verifrt.Settle(done)
	}
	_, err := CacheToFile("html", "a", strings.NewReader("111"))
	if !started {
		return
	}
	<-done
	verifrt.Reach("concurrent")
	verifrt.Assert(err == nil && err2 == nil, "concurrent operations on the cache succeed")
	a, b := verifGet(GetFilePathInCache("html", "a")), verifGet(GetFilePathInCache("html", "b"))
	verifrt.Observe("a", a)
	verifrt.Observe("b", b)
	total := 0
	for _, c := range []string{a, b} {
		if c != "-" {
			total += len(c) - 1
		}
	}
	verifrt.Assert(!evicting || total < 5, "the cache is within its limit after concurrent operations")
	verifrt.Assert(a == "+111" || op == 0 && name == "a" && a == "+22" || evicting && op == 0 && a == "-", "a stored entry is complete")
	verifrt.Assert(b == "-" && (evicting || op == 1 || name == "a") || b == "+99" || b == "+22" && op == 0 && name == "b", "other entries are complete or evicted")
	verifrt.Assert(seen == "" || seen == "-" && evicting || seen == "+0" || seen == "+111" || seen == "+99", "an entry that is looked up is complete")
	err3, tmp := f.Filesystem.DirSizeInBytes(GetTempPath())
	verifrt.Assert(err3 == nil && tmp == 0, "no temporary files are left")
}
