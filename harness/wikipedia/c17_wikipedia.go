package wikipedia

import (
	"crypto/md5"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

var errVerif = errors.New("injected failure")

type verifCall struct{ url, folder, file, data string }

// verifHttp answers every request by the given function and stores the answers in the cache.
type verifHttp struct {
	calls  []verifCall
	answer func(c verifCall) (string, bool, bool) // content, freshly downloaded, ok
	post   func(c verifCall) (*http.Response, error)
}

func (h *verifHttp) DownloadAndCache(url, folder, file string) (string, bool, error) {
	c := verifCall{url: url, folder: folder, file: file}
	h.calls = append(h.calls, c)
	s, fresh, ok := h.answer(c)
	if !ok {
		return "", true, errVerif
	}
	p := cache.GetFilePathInCache(folder, file)
	if file == "" || file == "." || file == ".." || strings.Contains(file, "\x00") { // no file names
		p = cache.GetFilePathInCache(folder, "entry")
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		return "", true, err
	}
	return p, fresh, nil
}

func (h *verifHttp) PostFormEncoded(url, data string) (*http.Response, error) {
	c := verifCall{url: url, data: data}
	h.calls = append(h.calls, c)
	return h.post(c)
}

// verifImages records the image processing.
type verifImages struct {
	log  []string
	fail bool
}

func (v *verifImages) ResizeAndCompressImage(file string, command string) error {
	v.log = append(v.log, command+": resize "+file)
	if v.fail {
		return errVerif
	}
	return nil
}

func (v *verifImages) ConvertToPng(in string, out string, command string) error {
	v.log = append(v.log, command+": convert "+in+" "+out)
	if v.fail {
		return errVerif
	}
	return os.WriteFile(out, []byte("png"), 0o644)
}

func verifSetup() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "cache"
	config.Current.CacheMaxAge = 60
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyNone
	os.RemoveAll("cache")
	for _, d := range []string{".tmp", "html", "articles", "images", "math", "templates"} {
		os.MkdirAll("cache/"+d, 0o755)
	}
	util.CurrentFilesystem = &util.OsFilesystem{}
}

func verifService(h *verifHttp, i *verifImages, hosts []string) *DefaultWikipediaService {
	return NewWikipediaService("de", "wikipedia.org", hosts, "images.org", "https://math.org/rest", i, h)
}

// verifJson gives any kind of answer: well-formed with the given text, of another shape, or no JSON at all. Returns
// the answer, the text in it, and whether the answer can be interpreted.
func verifJson(name, before, text, after string, kinds int) (string, string, bool) {
	switch verifrt.Choice(name+" kind", kinds) {
	case 0:
		return before + text + after, text, true
	case 1:
		return "{}", "", true
	case 2:
		return `{"parse":`, "", false
	case 3:
		return `{"parse":null,"expandtemplates":null}`, "", true
	case 4:
		return `{"error":{"code":"missingtitle"}}`, "", true
	case 5:
		return "null", "", true
	case 6:
		return ``, "", false
	case 7:
		return `{"parse":{"title":5},"expandtemplates":5}`, "", false
	case 8:
		return `[]`, "", false
	case 9:
		return before + text + after + "x", "", false
	}
	return `"` + text + `"`, "", false
}

const verifJsonText = " :,.-_()+&%/?=#'abcFile"

// verifParam returns the given query parameter of the address.
func verifParam(address, name string) string {
	_, query, _ := strings.Cut(address, "?")
	for _, kv := range strings.Split(query, "&") {
		if k, v, _ := strings.Cut(kv, "="); k == name {
			s, err := url.QueryUnescape(v)
			verifrt.Assert(err == nil, "parameters are escaped")
			return s
		}
	}
	return "-"
}

// VerifArticle: any title, any answer of the API.
func VerifArticle() {
	verifSetup()
	n := verifrt.Param("n", 3)
	title := verifrt.StrMax("title", 0, n, "")
	content := verifrt.StrMax("content", 0, n, verifJsonText)
	body, want, valid := verifJson("answer", `{"parse":{"title":"T","wikitext":{"*":"`, content, `"}}}`, 11)
	ok := verifrt.Choice("download", 2) == 0
	h := &verifHttp{answer: func(c verifCall) (string, bool, bool) { return body, true, ok }}
	a, err := verifService(h, &verifImages{}, nil).DownloadArticle("host.org", title)

	verifrt.Assert(len(h.calls) == 1 && h.calls[0].folder == cache.ArticleCacheDirName, "there is one request")
	verifrt.Assert(strings.HasPrefix(h.calls[0].url, "https://host.org/w/api.php?"), "the request goes to the given host")
	verifrt.Assert(verifParam(h.calls[0].url, "page") == strings.ReplaceAll(title, " ", "_"), "the title is transferred unchanged")
	verifrt.Assert(verifParam(h.calls[0].url, "redirects") == "true" && verifParam(h.calls[0].url, "format") == "json", "the request has the other parameters")
	verifrt.Assert((err == nil) == (ok && valid), "an article or an error is returned")
	if err == nil {
		verifrt.Assert(a.Parse.OriginalTitle == title, "the given title is remembered")
		verifrt.Assert(a.Parse.Wikitext.Content == want, "the content is returned unchanged")
	}
}

// VerifTemplate: any template text, any answer of the API.
func VerifTemplate() {
	verifSetup()
	n := verifrt.Param("n", 3)
	template := verifrt.StrMax("template", 0, n, "")
	content := verifrt.StrMax("content", 0, n, verifJsonText)
	body, want, valid := verifJson("answer", `{"expandtemplates":{"wikitext":"`, content, `"}}`, 11)
	ok := verifrt.Choice("download", 2) == 0
	h := &verifHttp{answer: func(c verifCall) (string, bool, bool) { return body, true, ok }}
	s, err := verifService(h, &verifImages{}, nil).EvaluateTemplate(template, "file")

	verifrt.Assert(len(h.calls) == 1 && h.calls[0].folder == cache.TemplateCacheDirName && h.calls[0].file == "file", "there is one request stored under the given name")
	verifrt.Assert(strings.HasPrefix(h.calls[0].url, "https://de.wikipedia.org/w/api.php?"), "the request goes to the configured host")
	verifrt.Assert(verifParam(h.calls[0].url, "text") == template, "the template is transferred unchanged")
	verifrt.Assert((err == nil) == (ok && valid), "a text or an error is returned")
	if err == nil {
		verifrt.Assert(s == want, "the result is returned unchanged")
	}
}

var verifHosts = []string{"zh-yue.wikipedia.org", "commons.wikimedia.org", "wiki.example.org"}

// verifBehindPrefix returns the text behind the first colon, with underscores.
func verifBehindPrefix(s string) (string, bool) {
	_, rest, ok := strings.Cut(s, ":")
	return strings.ReplaceAll(rest, " ", "_"), ok
}

// VerifImageSources: any image name, any answers of the sources.
func VerifImageSources() {
	verifSetup()
	config.Current.CommandTemplateImageProcessing = ""
	config.Current.SvgSizeToViewbox = false
	config.Current.CommandTemplateSvgToPng, config.Current.CommandTemplatePdfToPng, config.Current.CommandTemplateWebpToPng = "", "", ""
	n := verifrt.Param("n", 2)
	hosts := verifHosts[:1+verifrt.Choice("hosts", verifrt.Param("hosts", 2))]
	name := []string{"File:", "", "x"}[verifrt.Choice("prefix", 3)] + verifrt.StrMax("name", 0, n, "a:/ %\xfc")
	rest, hasPrefix := verifBehindPrefix(name)

	type source struct {
		article, image, tried bool
		title                 string
	}
	sources := make([]source, len(hosts))
	at := -1
	order := true
	h := &verifHttp{}
	h.answer = func(c verifCall) (string, bool, bool) {
		if c.folder == cache.ArticleCacheDirName {
			at++
			verifrt.Assert(at < len(hosts), "every source is tried once")
			s := &sources[at]
			s.tried = true
			order = order && strings.HasPrefix(c.url, "https://"+hosts[at]+"/w/api.php?")
			if hasPrefix {
				verifrt.Assert(verifParam(c.url, "page") == "File:"+rest, "the article of the image is requested")
			}
			if verifrt.Choice("article request", 2) == 1 {
				return "", true, false
			}
			title := []string{"Datei:", ""}[verifrt.Choice("title prefix", 2)] + verifrt.StrMax("title", 0, verifrt.Param("title", 1), "b:/ %+")
			body, t, valid := verifJson("answer", `{"parse":{"title":"`, title, `","wikitext":{"*":"text"}}}`, 3)
			s.article, s.title = valid, t
			return body, true, true
		}
		verifrt.Assert(c.folder == cache.ImageCacheDirName && at >= 0 && sources[at].article, "an image is requested after its article")
		s := &sources[at]
		actual, _ := verifBehindPrefix(s.title)
		if hasPrefix {
			verifrt.Assert(c.file == rest, "the image is stored under the name used in the page")
		}
		prefix := "https://images.org/wikipedia/"
		if strings.Contains(hosts[at], ".wiki") {
			prefix += strings.Split(hosts[at], ".")[0]
		}
		verifrt.Assert(strings.HasPrefix(c.url, prefix+"/"), "the image is requested from the part of the image host that belongs to the source")
		sum := fmt.Sprintf("%x", md5.Sum([]byte(actual)))
		parts := strings.Split(strings.TrimPrefix(c.url, prefix+"/"), "/")
		verifrt.Assert(len(parts) == 3, "the name of the image is one path component")
		decoded, err := url.PathUnescape(parts[len(parts)-1])
		verifrt.Assert(err == nil && decoded == actual, "the name of the image is transferred unchanged")
		verifrt.Assert(parts[0] == sum[:1] && parts[1] == sum[:2], "the folder belongs to the name")
		s.image = verifrt.Choice("image request", 2) == 0
		return "image", true, s.image
	}
	err := verifService(h, &verifImages{}, hosts).DownloadImages([]string{name})

	verifrt.Assert(order, "sources are tried in their order")
	found := false
	for i, s := range sources {
		verifrt.Assert(s.tried == (!found && (hasPrefix || s.tried)), "sources are tried until the first success")
		if i == 0 && hasPrefix {
			verifrt.Assert(s.tried, "the first source is tried")
		}
		if s.image {
			found = true
		}
	}
	verifrt.Assert((err == nil) == found, "it is an error if no source has the image")
	if found {
		verifrt.Reach("found")
	} else {
		verifrt.Reach("not found")
	}
}

func verifIf(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// VerifImageProcessing: any file type, any conversion settings, any state of the cache.
func VerifImageProcessing() {
	verifSetup()
	ext := []string{".jpg", ".svg", ".SVG", ".pdf", ".Pdf", ".webp", ".WebP", ".png", ""}[verifrt.Choice("type", 9)]
	config.Current.SvgSizeToViewbox = false
	svg, pdf, webp := verifrt.Choice("svg", 2) == 1, verifrt.Choice("pdf", 2) == 1, verifrt.Choice("webp", 2) == 1
	config.Current.CommandTemplateSvgToPng = verifIf(svg, "svg")
	config.Current.CommandTemplatePdfToPng = verifIf(pdf, "pdf")
	config.Current.CommandTemplateWebpToPng = verifIf(webp, "webp")
	config.Current.CommandTemplateImageProcessing = []string{"", "shrink"}[verifrt.Choice("shrink", 2)]
	fresh := verifrt.Choice("fresh", 2) == 1
	png := verifrt.Choice("png exists", 2) == 1
	file := cache.GetFilePathInCache("images", "a"+ext)
	if png {
		os.WriteFile(file+".png", []byte("png"), 0o644)
	}
	im := &verifImages{fail: verifrt.Choice("command fails", 2) == 1}
	h := &verifHttp{answer: func(c verifCall) (string, bool, bool) {
		return `{"parse":{"title":"File:b"}}`, fresh || c.folder != "images", true
	}}
	err := verifService(h, im, verifHosts[:verifrt.Int("hosts", 1, 2)]).DownloadImages([]string{"File:a" + ext})

	low := strings.ToLower(ext)
	convert := low == ".svg" && svg || low == ".pdf" && pdf || low == ".webp" && webp
	want := []string{}
	result := file
	if convert {
		result = file + ".png"
		if !png || fresh { // an existing PNG belongs to the previous version of the image
			want = append(want, low[1:]+": convert "+file+" "+result)
		}
	}
	if (fresh || convert && !png) && config.Current.CommandTemplateImageProcessing != "" && (convert || low != ".svg" && low != ".pdf") {
		want = append(want, "shrink: resize "+result)
	}
	if im.fail && len(want) > 0 {
		verifrt.Assert(err != nil, "a failing conversion is an error")
		verifrt.Assert(len(im.log) == 1 && im.log[0] == want[0], "nothing is done after a failure")
		return
	}
	verifrt.Assert(err == nil, "the image is there")
	verifrt.Assert(strings.Join(im.log, "\n") == strings.Join(want, "\n"), "new images are converted and shrunk")
}

// VerifMath: any formula, any answer of the API, any converter.
func VerifMath() {
	verifSetup()
	formula := verifrt.StrMax("formula", 0, verifrt.Param("n", 3), "")
	converter := verifrt.Choice("converter", 3)
	config.Current.MathConverter = []string{config.MathConverterNone, config.MathConverterWikimedia, config.MathConverterTemplate}[converter]
	config.Current.CommandTemplateMathSvgToPng = "math"

	location := ""
	kind := verifrt.Choice("answer", 6)
	im := &verifImages{}
	requests := 0
	failing := ""
	h := &verifHttp{}
	h.post = func(c verifCall) (*http.Response, error) {
		verifrt.Assert(c.url == "https://math.org/rest/check/tex", "formulas are sent to the configured address")
		q, err := url.QueryUnescape(strings.TrimPrefix(c.data, "q="))
		verifrt.Assert(err == nil && strings.HasPrefix(c.data, "q=") && !strings.Contains(c.data, "&"), "formulas are escaped")
		verifrt.Assert(q == `{\displaystyle `+formula+`}`, "formulas are transferred unchanged")
		switch kind {
		case 0:
			location = verifrt.StrMax("location", 0, 2, "ab0")
			hd := http.Header{}
			hd.Set("x-resource-location", location)
			return &http.Response{StatusCode: 200, Header: hd, Body: io.NopCloser(strings.NewReader("body"))}, nil
		case 1:
			return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader("body"))}, nil
		case 2:
			return nil, errVerif
		case 3:
			return &http.Response{StatusCode: 500, Body: io.NopCloser(strings.NewReader("body"))}, nil
		case 4:
			hd := http.Header{}
			hd.Set("x-resource-location", "loc")
			location = "loc"
			return &http.Response{StatusCode: 200, Header: hd, Body: http.NoBody}, nil
		}
		return nil, nil
	}
	defer func() {
		for _, l := range im.log {
			verifrt.Assert(converter == 2 && strings.HasPrefix(l, "math: convert "), "formulas are converted by their own command")
		}
	}()
	h.answer = func(c verifCall) (string, bool, bool) {
		requests++
		verifrt.Assert(c.folder == cache.ImageCacheDirName, "formulas are stored as images")
		ext := ".svg"
		if requests == 2 {
			ext = ".png"
		}
		verifrt.Assert(c.url == "https://math.org/rest/render/"+ext[1:]+"/"+location && c.file == location+ext, "the rendered formula is requested")
		if verifrt.Choice("download", 2) == 1 {
			failing = "download"
			return "", true, false
		}
		return "image", true, true
	}
	im.fail = verifrt.Choice("command fails", 2) == 1
	svg, png, err := verifService(h, im, nil).RenderMath(formula)

	good := location != "" && failing == "" && !(converter == 2 && im.fail)
	verifrt.Assert((err == nil) == good, "a file or an error is returned")
	if err != nil {
		verifrt.Assert(svg == "" && png == "", "there are no files in case of an error")
		return
	}
	want := cache.GetFilePathInCache("images", location+".svg")
	verifrt.Assert(svg == want, "the svg file is returned")
	if converter > 0 {
		want = cache.GetFilePathInCache("images", location+".png")
	}
	verifrt.Assert(png == want, "the file of the chosen converter is returned")
	for _, f := range []string{svg, png} {
		_, serr := os.Stat(f)
		verifrt.Assert(serr == nil, "the files exist")
	}
	// once more
	h.calls = nil
	requests = 0
	svg2, png2, err2 := verifService(h, im, nil).RenderMath(formula)
	for _, c := range h.calls {
		verifrt.Assert(c.data == "", "a known formula is not sent again")
	}
	if failing == "" {
		verifrt.Assert(err2 == nil && svg2 == svg && png2 == png, "the same formula has the same files")
	}
}
