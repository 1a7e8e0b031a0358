package cache

import (
	"io"
	"os"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifReader delivers the content in pieces and may fail before one of them.
type verifReader struct {
	data   []byte
	chunk  int
	failAt int // fails when that many bytes were delivered
	eof    bool
}

func (r *verifReader) Read(p []byte) (int, error) {
	if r.failAt == 0 {
		return 0, errVerif
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.chunk
	if n > len(r.data) {
		n = len(r.data)
	}
	if r.failAt > 0 && n > r.failAt {
		n = r.failAt
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.failAt > 0 {
		r.failAt -= n
	}
	if r.eof && len(r.data) == 0 && r.failAt != 0 {
		return n, io.EOF
	}
	return n, nil
}

// VerifStoreFaults: any failing or last step of storing a file, any prior state.
func VerifStoreFaults() {
	f := verifCache()
	maxStep := verifrt.Param("steps", 14)
	const folder, name = "html", "f"
	entry := GetFilePathInCache(folder, name)
	other := GetFilePathInCache(folder, "other")

	old := ""
	before := "-"
	if verifrt.Choice("old", 2) == 1 {
		old = verifrt.StrMax("oldContent", 0, 2, "")
		verifPut(folder, name, old, verifrt.Choice("oldAge", 2))
		before = "+" + old
	}
	beforeOther := "-"
	if verifrt.Choice("other", 2) == 1 {
		verifPut(folder, "other", "xy", 1)
		beforeOther = "+xy"
	}
	content := verifrt.StrMax("content", 0, 3, "")
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	evicting := config.Current.CacheEvictionStrategy != config.CacheEvictionStrategyNone
	config.Current.CacheMaxSize = 1000
	if evicting {
		config.Current.CacheMaxSize = int64(verifrt.Int("limit", 1, 1000))
	}

	r := &verifReader{data: []byte(content), chunk: 2, failAt: -1, eof: verifrt.Choice("eof", 2) == 1}
	crash := false
	switch verifrt.Choice("fault", 4) {
	case 0:
	case 1:
		f.fail = verifrt.Int("failing step", 0, maxStep)
		f.partial = verifrt.Choice("partial", 2) == 1
	case 2:
		f.crash = verifrt.Int("last step", 0, maxStep)
		f.after = verifrt.Choice("after", 2) == 1
		f.partial = verifrt.Choice("partial", 2) == 1
		crash = true
	case 3:
		r.failAt = verifrt.Int("failing read", 0, len(content))
	}

	var path string
	var err error
	crashed := verifCrashed(func() { path, err = CacheToFile(folder, name, r) })
	verifrt.Assert(!crashed || crash, "no crash without reason")

	now := verifGet(entry)
	verifrt.Observe("entry", now)
	verifrt.ObserveBool("crashed", crashed)
	wanted := "+" + content
	verifrt.Assert(verifrt.Or(verifrt.Or(now == before, now == wanted), evicting && now == "-"), "the entry is as before, evicted, or holds the complete new content")
	nowOther := verifGet(other)
	verifrt.Assert(nowOther == beforeOther || evicting && nowOther == "-", "other entries are never changed")
	if !crashed {
		verifrt.ObserveBool("error", err != nil)
		if err == nil {
			verifrt.Assert(now == wanted, "success means that the complete content is stored")
			verifrt.Assert(path == entry, "the path of the entry is returned")
		}
		if !f.failed && r.failAt < 0 {
			verifrt.Assert(err == nil, "storing only fails if something goes wrong")
		}
		if r.failAt == 0 {
			verifrt.Assert(err != nil, "an incomplete source is an error")
		}
	}

	// a later attempt on the resulting state
	f.fail, f.crash, f.dead = -1, -1, false
	if crashed {
		os.RemoveAll(GetTempPath()) // as at every start
		os.MkdirAll(GetTempPath(), 0o755)
	}
	again, ok := verifStoreAgain(folder, name, content)
	verifrt.Assert(ok, "a later attempt succeeds")
	verifrt.Assert(again == "+"+content+"!", "a later attempt stores the complete content")
}

func verifStoreAgain(folder, name, content string) (string, bool) {
	p, err := CacheToFile(folder, name, &verifReader{data: []byte(content + "!"), chunk: 3, failAt: -1})
	return verifGet(p), err == nil
}

// VerifStoreOsFaults: like VerifStoreFaults, but with calls of the operating system itself failing: one
// of them (e.g. moving a file, because the folder lies on another device), always the same one or once,
// and the process may end at any later one.
func VerifStoreOsFaults() {
	verifCache()
	util.CurrentFilesystem = &util.OsFilesystem{}
	maxStep := verifrt.Param("steps", 12)
	const folder, name = "html", "f"
	entry := GetFilePathInCache(folder, name)
	before := "-"
	if verifrt.Choice("old", 2) == 1 {
		verifPut(folder, name, "old", 0)
		before = "+old"
	}
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	evicting := config.Current.CacheEvictionStrategy != config.CacheEvictionStrategyNone
	config.Current.CacheMaxSize = int64([]int{1000, 2}[verifrt.Choice("limit", 2)])
	fail, crash := -1, -1
	if verifrt.Choice("fails", 2) == 1 {
		fail = verifrt.Int("failing call", 0, maxStep)
	}
	again := verifrt.Choice("fails again", 2) == 1 // all calls of that kind
	if verifrt.Choice("ends", 2) == 1 {
		crash = verifrt.Int("last call", 0, maxStep)
	}
	step, failing := 0, ""
	failed := false
	verifrt.OsHook = func(op, path string) error {
		n := step
		step++
		if n == crash {
			verifrt.OsHook = nil
			panic(verifCrash{})
		}
		if n == fail || again && op == failing {
			failing, failed = op, true
			return errVerif
		}
		return nil
	}
	content := "new content"
	var path string
	var err error
	crashed := verifCrashed(func() {
		defer func() { verifrt.OsHook = nil }() // deferred functions don't run when the process ends
		path, err = CacheToFile(folder, name, &verifReader{data: []byte(content), chunk: 4, failAt: -1})
	})
	verifrt.Assert(!crashed || crash >= 0, "no crash without reason")
	now := verifGet(entry)
	verifrt.Observe("entry", now)
	verifrt.ObserveBool("crashed", crashed)
	wanted := "+" + content
	verifrt.Assert(now == before || now == wanted || evicting && now == "-", "the entry is as before, evicted, or holds the complete new content")
	if !crashed {
		verifrt.ObserveBool("error", err != nil)
		if err == nil {
			verifrt.Assert(now == wanted && path == entry, "success means that the complete content is stored")
		}
		if !failed {
			verifrt.Assert(err == nil, "storing only fails if something goes wrong")
		}
	}
	verifrt.Reach("stored")
}
