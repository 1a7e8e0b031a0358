package cache

import (
	"path/filepath"
	"strings"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

const verifUnsafe = "<>:\"/\\|?*"

var verifEscapes = []string{"%25", "%3C", "%3E", "%3A", "%22", "%2F", "%5C", "%7C", "%3F", "%2A"}

// verifDecode turns escape sequences back. The flag is false for a "%" that is none.
func verifDecode(s string) (string, bool) {
	const plain = "%<>:\"/\\|?*"
	r := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r = append(r, s[i])
			continue
		}
		if i+3 > len(s) {
			return "", false
		}
		found := false
		for k, e := range verifEscapes {
			if s[i:i+3] == e {
				r = append(r, plain[k])
				found = true
			}
		}
		if !found {
			return "", false
		}
		i += 2
	}
	return string(r), true
}

func verifCheckName(name, out string) {
	for i := 0; i < len(out); i++ {
		for k := 0; k < len(verifUnsafe); k++ {
			verifrt.Assert(out[i] != verifUnsafe[k], "a safe name contains no unsafe character")
		}
	}
	dec, ok := verifDecode(out)
	verifrt.Assert(ok, "a safe name contains only complete escape sequences")
	verifrt.Assert(dec == name, "decoding a safe name gives the original name")
	verifrt.Assert(util.IsSanitized(out), "a safe name is accepted as safe")
}

// VerifFileNames: any name of up to n bytes.
func VerifFileNames() {
	n := verifrt.Param("n", 3)
	name := verifrt.StrMax("name", 1, n, "")
	verifrt.Assume(verifrt.And(name != ".", name != ".."))
	verifrt.Assume(name[0] != 0)
	out := util.SanitizeFilename(name)
	verifCheckName(name, out)

	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "/cache/dir"
	p := GetFilePathInCache("images", name)
	verifrt.Observe("path", p)
	verifrt.Assert(p == "/cache/dir/images/"+out, "a cache entry lies directly inside its cache folder")
	verifrt.Assert(GetRelativeFilePathInCache("images", name) == "images/"+out, "the relative path of a cache entry is its folder and its name")
}

// VerifFileNamesDiffer: two different names never share a file.
func VerifFileNamesDiffer() {
	n := verifrt.Param("n", 3)
	const alphabet = "%:/25AF.a"
	a := verifrt.StrMax("a", 1, n, alphabet)
	b := verifrt.StrMax("b", 1, n, alphabet)
	verifrt.Assume(a != b)
	for _, x := range []string{a, b} {
		verifrt.Assume(verifrt.And(x != ".", x != ".."))
	}
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "c"
	x, y := GetFilePathInCache("html", a), GetFilePathInCache("html", b)
	verifrt.Assert(x != y, "different names never share a cache entry")
	verifrt.Assert(filepath.Dir(x) == filepath.Dir(y), "cache entries lie in their folder")
}

// VerifUnsafeNames: names are accepted as safe exactly if they contain no unsafe character.
func VerifUnsafeNames() {
	k := verifrt.Param("k", 4)
	vocab := []string{"%25", "%3C", "%3E", "%3A", "%22", "%2F", "%5C", "%7C", "%3F", "%2A", "%", "%2", "?"}
	s := ""
	n := verifrt.Choice("len", k) + 1
	for i := 0; i < n; i++ {
		w := vocab[verifrt.Choice("piece", len(vocab))]
		if w == "?" {
			w = verifrt.Str("byte", 1, "")
			verifrt.Assume(w != "/")
		}
		s += w
	}
	dec, ok := verifDecode(s)
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(verifUnsafe, s[i]) >= 0 {
			ok = false
		}
	}
	_ = dec
	verifrt.Observe("name", s)
	for _, p := range []string{s, "dir/" + s, s + "/file"} {
		verifrt.Assert(util.IsSanitized(p) == ok, "a name is accepted as safe exactly if it contains no unsafe character outside of escape sequences")
	}
}

// VerifFileNamesLong: names of up to n bytes which differ at one end only. One of the bytes there is arbitrary in each.
func VerifFileNamesLong() {
	n := verifrt.Param("n", 300)
	step := verifrt.Param("step", 7)
	fill := []string{"x", "?", "ä"}[verifrt.Choice("filler", 3)]
	length := verifrt.Choice("length", n/step+1)*step + verifrt.Choice("rest", 2)
	body := strings.Repeat(fill, length)
	a := verifrt.Str("a", 1, "")
	b := verifrt.Str("b", 1, "")
	verifrt.Assume(a != b)
	for _, c := range []byte{a[0], b[0]} {
		verifrt.Assume(verifrt.And(c != 0, c != '.'))
	}
	end := verifrt.Choice("end", 3)
	join := func(x string) string {
		switch end {
		case 0:
			return x + body
		case 1:
			return body + x
		}
		return body[:len(body)/2] + x + body[len(body)/2:]
	}
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "c"
	x, y := GetFilePathInCache("html", join(a)), GetFilePathInCache("html", join(b))
	verifrt.Assert(x != y, "different names never share a cache entry")
	verifCheckName(join(a), util.SanitizeFilename(join(a)))
}
