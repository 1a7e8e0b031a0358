package cache

import (
	"os"
	"time"

	"wiki2book/config"
	"wiki2book/verifrt"
)

// VerifLookup: any age (in seconds), maximum age (in minutes), strategy and failing step.
func VerifLookup() {
	f := verifCache()
	age := verifrt.Int("age", -3600, verifrt.Param("days", 4000)*86400)
	maxAge := verifrt.Int("max age", 0, verifrt.Param("days", 4000)*1440)
	config.Current.CacheMaxAge = int64(maxAge)
	huge := verifrt.Choice("huge", 6)
	if huge > 0 { // more minutes than a duration can have
		config.Current.CacheMaxAge = []int64{0, 153_722_867, 153_722_868, 307_445_735, 1 << 40, 1<<63 - 1}[huge]
	}
	config.Current.CacheEvictionStrategy = verifStrategy("strategy")
	lru := config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLru
	entry := GetFilePathInCache("html", "f")
	exists := verifrt.Choice("exists", 2) == 1
	var mod time.Time
	if exists {
		verifPut("html", "f", "content", 0)
		mod = time.Unix(time.Now().Unix()-int64(age), 0)
		os.Chtimes(entry, mod, mod)
	}
	verifPut("html", "g", "other", 0)
	fault := verifrt.Int("failing step", -1, verifrt.Param("steps", 10))
	f.fail = fault

	path, ok, err := GetFile("html", "f")

	verifrt.Assert(path == entry, "the path of the entry is returned")
	verifrt.Assert(verifGet(GetFilePathInCache("html", "g")) == "+other", "other entries are not touched")
	content := verifGet(entry)
	if !exists {
		verifrt.Assert(!ok, "entries that do not exist are not served")
		verifrt.Assert(err == nil || f.failed, "entries that do not exist are no error")
		verifrt.Assert(content == "-", "looking up creates no entry")
		return
	}
	verifrt.ObserveBool("ok", ok)
	outdated := verifrt.Not(age < (maxAge+1)*60) // older than the maximum age in full minutes
	fresh := verifrt.Not(age > maxAge*60)
	if huge > 0 {
		outdated, fresh = false, true
	}
	verifrt.Assert(verifrt.Not(verifrt.And(ok, outdated)), "outdated entries are never served")
	if ok {
		verifrt.Assert(err == nil, "a served entry is no error")
		verifrt.Assert(content == "+content", "a served entry exists unchanged")
		info, serr := os.Stat(entry)
		verifrt.Assert(serr == nil, "a served entry exists")
		if lru && !f.failed {
			verifrt.Assert(time.Now().Sub(info.ModTime()) < 10*time.Second && time.Now().Sub(info.ModTime()) > -10*time.Second, "a lookup marks the entry as just used")
		}
		if !lru {
			verifrt.Assert(info.ModTime().Unix() == mod.Unix(), "a lookup does not change the age of the entry")
		}
		return
	}
	if err == nil {
		verifrt.Assert(verifrt.Not(fresh), "fresh entries are always served")
		verifrt.Assert(content == "-", "an outdated entry is removed")
	} else {
		verifrt.Assert(f.failed, "looking up only fails if something goes wrong")
		verifrt.Assert(content == "+content" || content == "-", "a failing lookup does not damage the entry")
	}
}
