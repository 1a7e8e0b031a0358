package generator

import (
	"encoding/json"
	"os"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifStats are the documented fields of the statistics.
type verifStats struct {
	ArticleName                 string         `json:"article-name"`
	NumberOfCharacters          int            `json:"number-of-characters"`
	NumberOfWords               int            `json:"number-of-words"`
	NumberOfInternalLinks       int            `json:"number-of-internal-links"`
	NumberOfExternalLinks       int            `json:"number-of-external-links"`
	NumberOfImages              int            `json:"number-of-images"`
	NumberOfMath                int            `json:"number-of-math"`
	NumberOfRefDefinitions      int            `json:"number-of-ref-definitions"`
	NumberOfRefUsages           int            `json:"number-of-ref-usages"`
	InternalLinks               map[string]int `json:"internal-links"`
	UncoveredInternalLinks      map[string]int `json:"uncovered-internal-links"`
	Top10UncoveredInternalLinks map[string]int `json:"top-10-uncovered-internal-links"`
	EstimatedReadingTimeMinutes int            `json:"estimated-reading-time-minutes"`
}

func verifStatsConfig() {
	verifConfig()
	config.Current.CacheDir = "cache"
	config.Current.CacheMaxAge = 60
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyNone
	util.CurrentFilesystem = &util.OsFilesystem{}
	os.RemoveAll("cache")
	os.MkdirAll("cache/.tmp", 0o755)
	os.MkdirAll("cache/stats", 0o755)
}

func (s *verifStats) text(text string, tokens map[string]parser.Token) {
	for _, m := range []string{parser.MARKER_BOLD_OPEN, parser.MARKER_BOLD_CLOSE, parser.MARKER_ITALIC_OPEN, parser.MARKER_ITALIC_CLOSE, parser.MARKER_PARAGRAPH} {
		text = strings.ReplaceAll(text, m, "")
	}
	for _, k := range verifKeys(text) {
		i := strings.Index(text, k)
		s.plain(text[:i])
		text = text[i+len(k):]
		s.token(tokens[k], tokens)
	}
	s.plain(text)
}

func (s *verifStats) plain(text string) {
	s.NumberOfCharacters += len(text) // ASCII only
	word := false
	for i := 0; i < len(text); i++ {
		c := text[i] | 0x20
		alnum := c >= 'a' && c <= 'z' || text[i] >= '0' && text[i] <= '9'
		if alnum && !word {
			s.NumberOfWords++
		}
		word = alnum
	}
}

func (s *verifStats) token(t parser.Token, tokens map[string]parser.Token) {
	switch t := t.(type) {
	case parser.InternalLinkToken:
		s.NumberOfInternalLinks++
		s.InternalLinks[t.ArticleName]++
	case parser.ExternalLinkToken:
		s.NumberOfExternalLinks++
	case parser.ImageToken, parser.InlineImageToken:
		s.NumberOfImages++
	case parser.MathToken:
		s.NumberOfMath++
	case parser.RefDefinitionToken:
		s.NumberOfRefDefinitions++
	case parser.RefUsageToken:
		s.NumberOfRefUsages++
	case parser.NowikiToken:
		s.plain(t.Content)
	}
	for _, text := range verifTexts(t) {
		s.text(text, tokens)
	}
}

func verifSameCounts(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func verifReadStats(path string) *verifStats {
	b, err := os.ReadFile(path)
	verifrt.Assert(err == nil, "the statistics are written")
	s := &verifStats{}
	err = json.Unmarshal(b, s)
	verifrt.Assert(err == nil, "the statistics are valid JSON")
	return s
}

// VerifStats: any element tree is counted completely.
func VerifStats() {
	verifStatsConfig()
	t := &verifTree{tokens: map[string]parser.Token{}, budget: verifrt.Param("budget", 4), stats: true}
	src, _ := t.content(verifrt.Param("depth", 3))
	path, err := NewStatsGenerator(t.tokens).Generate(&parser.Article{Title: "T", Content: src, TokenMap: t.tokens})
	verifrt.Assert(err == nil, "no error")
	if err != nil {
		return
	}
	got := verifReadStats(path)
	want := &verifStats{InternalLinks: map[string]int{}}
	want.text(src, t.tokens)
	verifrt.ObserveInt("characters", got.NumberOfCharacters)
	verifrt.ObserveInt("words", got.NumberOfWords)
	verifrt.Assert(got.ArticleName == "T", "the statistics belong to the article")
	verifrt.Assert(got.NumberOfCharacters == want.NumberOfCharacters, "every character is counted once")
	verifrt.Assert(got.NumberOfWords == want.NumberOfWords, "every word is counted once")
	verifrt.Assert(got.NumberOfInternalLinks == want.NumberOfInternalLinks && got.NumberOfExternalLinks == want.NumberOfExternalLinks, "every link is counted once")
	verifrt.Assert(got.NumberOfImages == want.NumberOfImages, "every image is counted once")
	verifrt.Assert(got.NumberOfMath == want.NumberOfMath, "every formula is counted once")
	verifrt.Assert(got.NumberOfRefDefinitions == want.NumberOfRefDefinitions && got.NumberOfRefUsages == want.NumberOfRefUsages, "every reference is counted once")
	verifrt.Assert(verifSameCounts(got.InternalLinks, want.InternalLinks), "every link target is counted")
	verifrt.Reach("stats")
}

// VerifStatsSummary: any articles with any links, in any iteration order.
func VerifStatsSummary() {
	verifStatsConfig()
	n := 1 + verifrt.Choice("articles", verifrt.Param("articles", 2))
	targets := []string{"A", "B", "x", "y"}
	var files, names []string
	want := &verifStats{InternalLinks: map[string]int{}, UncoveredInternalLinks: map[string]int{}}
	for i := 0; i < n; i++ {
		name := string(rune('A' + i))
		if i > 0 && verifrt.Choice("same article", 2) == 1 {
			name, files = "A", append(files, files[0])
		} else {
			names = append(names, name)
			s := &verifStats{ArticleName: name, NumberOfCharacters: 8 + 4*i, NumberOfWords: 1 + i, NumberOfExternalLinks: 2 + i, NumberOfImages: 3 + i, NumberOfMath: 4 + i,
				NumberOfRefDefinitions: 5 + i, NumberOfRefUsages: 6 + i, EstimatedReadingTimeMinutes: 7 + i, InternalLinks: map[string]int{}}
			for j, k := 0, verifrt.Choice("links", verifrt.Param("links", 2)+1); j < k; j++ {
				target := targets[verifrt.Choice("target", len(targets))]
				s.InternalLinks[target]++
				s.NumberOfInternalLinks++
			}
			b, err := json.Marshal(s)
			verifrt.Assert(err == nil, "no error")
			file := "cache/stats/" + name + ".json"
			os.WriteFile(file, b, 0o644)
			files = append(files, file)
		}
		s := verifReadStats(files[i])
		want.NumberOfCharacters += s.NumberOfCharacters
		want.NumberOfWords += s.NumberOfWords
		want.NumberOfInternalLinks += s.NumberOfInternalLinks
		want.NumberOfExternalLinks += s.NumberOfExternalLinks
		want.NumberOfImages += s.NumberOfImages
		want.NumberOfMath += s.NumberOfMath
		want.NumberOfRefDefinitions += s.NumberOfRefDefinitions
		want.NumberOfRefUsages += s.NumberOfRefUsages
		want.EstimatedReadingTimeMinutes += s.EstimatedReadingTimeMinutes
		for k, v := range s.InternalLinks {
			want.InternalLinks[k] += v
		}
	}
	for _, k := range targets {
		covered := false
		for _, name := range names {
			covered = covered || name == k
		}
		if v, ok := want.InternalLinks[k]; ok && !covered {
			want.UncoveredInternalLinks[k] = v
		}
	}

	text := verifrt.Choice("text", 2) == 1
	config.Current.OutputType = config.OutputTypeStatsJson
	if text {
		config.Current.OutputType = config.OutputTypeStatsTxt
	}
	runs := 2
	if !verifrt.Symbolic() {
		runs = 50
	}
	first := ""
	for i := 0; i < runs; i++ {
		verifrt.MapOrder(i > 0)
		err := GenerateCombinedStats(files, "out")
		verifrt.MapOrder(false)
		verifrt.Assert(err == nil, "no error")
		b, _ := os.ReadFile("out")
		if i == 0 {
			first = string(b)
		}
		verifrt.Assert(string(b) == first, "the output depends on the articles only")
	}
	if !text {
		got := verifReadStats("out")
		verifrt.Assert(got.NumberOfCharacters == want.NumberOfCharacters && got.NumberOfWords == want.NumberOfWords && got.NumberOfInternalLinks == want.NumberOfInternalLinks && got.NumberOfExternalLinks == want.NumberOfExternalLinks &&
			got.NumberOfImages == want.NumberOfImages && got.NumberOfMath == want.NumberOfMath && got.NumberOfRefDefinitions == want.NumberOfRefDefinitions && got.NumberOfRefUsages == want.NumberOfRefUsages &&
			got.EstimatedReadingTimeMinutes == want.EstimatedReadingTimeMinutes, "the totals are the sums over all articles")
		verifrt.Assert(verifSameCounts(got.InternalLinks, want.InternalLinks), "the links of all articles are added up")
		verifrt.Assert(verifSameCounts(got.UncoveredInternalLinks, want.UncoveredInternalLinks), "the links to articles that are not in the book are listed")
		verifrt.Assert(verifSameCounts(got.Top10UncoveredInternalLinks, want.UncoveredInternalLinks), "the most frequent links are listed")
		return
	}
	lines := strings.Split(first, "\n")
	at := func(l string) int {
		for i, x := range lines {
			if x == l {
				return i
			}
		}
		return -1
	}
	verifrt.Assert(strings.Contains(first, ": "+strconv.Itoa(want.NumberOfCharacters)+"\n") && strings.Contains(first, ": "+strconv.Itoa(want.NumberOfInternalLinks)+"\n"), "the totals are the sums over all articles")
	last := at("Article:")
	for _, name := range names {
		i := at("  " + name)
		verifrt.Assert(i > last, "all articles are listed in their order")
		last = i
	}
	for _, k := range targets {
		for _, l := range targets {
			i, j := at("  "+k+" ("+strconv.Itoa(want.UncoveredInternalLinks[k])+")"), at("  "+l+" ("+strconv.Itoa(want.UncoveredInternalLinks[l])+")")
			verifrt.Assert((i > last) == (want.UncoveredInternalLinks[k] > 0), "the links to articles that are not in the book are listed")
			if i >= 0 && j >= 0 && want.UncoveredInternalLinks[k] > want.UncoveredInternalLinks[l] {
				verifrt.Assert(i < j, "more frequent links come first")
			}
		}
	}
}

// VerifStatsTop: only the most frequent links are listed, whatever their order and numbers.
func VerifStatsTop() {
	verifStatsConfig()
	n := 9 + verifrt.Choice("links", 4)
	limit := 10
	config.Current.OutputType = config.OutputTypeStatsJson
	if verifrt.Choice("text", 2) == 1 {
		n, limit = n+10, 20
		config.Current.OutputType = config.OutputTypeStatsTxt
	}
	s := &verifStats{ArticleName: "A", InternalLinks: map[string]int{}}
	name := func(i int) string { return "l" + string(rune('a'+i)) }
	for i := 0; i < n; i++ {
		s.InternalLinks[name(i)] = 10
	}
	low, high := name(verifrt.Choice("low", n)), name(verifrt.Choice("high", n))
	s.InternalLinks[high] = 11 + verifrt.Choice("more", 2)
	s.InternalLinks[low] = 9
	b, err := json.Marshal(s)
	verifrt.Assert(err == nil, "no error")
	os.WriteFile("cache/stats/A.json", b, 0o644)
	err = GenerateCombinedStats([]string{"cache/stats/A.json"}, "out")
	verifrt.Assert(err == nil, "no error")
	want := n
	if want > limit {
		want = limit
	}
	out, _ := os.ReadFile("out")
	listed := map[string]int{}
	if limit == 10 {
		listed = verifReadStats("out").Top10UncoveredInternalLinks
	} else {
		for _, l := range strings.Split(string(out), "\n") {
			if i := strings.Index(l, " ("); i > 0 && strings.HasPrefix(l, "  l") {
				listed[l[2:i]], _ = strconv.Atoi(strings.TrimSuffix(l[i+2:], ")"))
			}
		}
	}
	verifrt.ObserveInt("listed", len(listed))
	verifrt.Assert(len(listed) == want, "the most frequent links are listed")
	for k, v := range listed {
		verifrt.Assert(s.InternalLinks[k] == v, "links are listed with their numbers")
	}
	_, hasLow := listed[low]
	_, hasHigh := listed[high]
	verifrt.Assert(hasLow == (n <= limit), "less frequent links are left out")
	verifrt.Assert(hasHigh || high == low, "more frequent links are listed")
}

// VerifStatsText: texts of any script.
func VerifStatsText() {
	verifStatsConfig()
	type piece struct {
		text  string
		runes int
		word  bool
	}
	pieces := []piece{{"", 1, false}, {"ä", 1, true}, {"漢字", 2, true}, {"٣", 1, true}, {"\u00a0", 1, false}, {"–", 1, false}, {"🎉", 1, false}, {"Ⅷ", 1, true}, {"я", 1, true}, {"„", 1, false}, {"\u2009", 1, false}}
	src := ""
	characters, words, inWord := 0, 0, false
	n := verifrt.Choice("pieces", verifrt.Param("k", 4)+1)
	for i := 0; i < n; i++ {
		p := pieces[verifrt.Choice("piece", len(pieces))]
		if p.text == "" {
			p.text = verifrt.Str("byte", 1, verifASCII+"\n\t")
			c := p.text[0] | 0x20
			p.word = c >= 'a' && c <= 'z' || p.text[0] >= '0' && p.text[0] <= '9'
		}
		src += p.text
		characters += p.runes
		if p.word && !inWord {
			words++
		}
		inWord = p.word
	}
	path, err := NewStatsGenerator(nil).Generate(&parser.Article{Title: "T", Content: src})
	verifrt.Assert(err == nil, "no error")
	if err != nil {
		return
	}
	got := verifReadStats(path)
	verifrt.Observe("text", src)
	verifrt.ObserveInt("characters", got.NumberOfCharacters)
	verifrt.ObserveInt("words", got.NumberOfWords)
	verifrt.Assert(got.NumberOfCharacters == characters, "every character is counted once, whatever the number of its bytes")
	verifrt.Assert(got.NumberOfWords == words, "every word is counted once, whatever its script")
	verifrt.Reach("stats")
}
