package generator

import (
	"errors"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/util"
	"wiki2book/verifrt"
	"wiki2book/wikipedia"
)

// verifStore stores every download in the cache, like the real service does (see C16).
type verifStore struct{ location string }

func (h *verifStore) DownloadAndCache(url, folder, file string) (string, bool, error) {
	body := `{"parse":{"title":"File:actual.xyz"}}`
	if folder == cache.ImageCacheDirName {
		body = `<svg width="1ex" height="2ex" style="s"></svg>`
	}
	p, err := cache.CacheToFile(folder, file, strings.NewReader(body))
	return p, true, err
}

func (h *verifStore) PostFormEncoded(url, data string) (*http.Response, error) {
	hd := http.Header{}
	hd.Set("x-resource-location", h.location)
	return &http.Response{StatusCode: 200, Header: hd, Body: http.NoBody}, nil
}

// verifConverter converts images by writing the output file.
type verifConverter struct{}

func (verifConverter) ResizeAndCompressImage(file string, command string) error {
	if _, err := os.Stat(file); err != nil {
		return errors.New("no image to resize")
	}
	return nil
}

func (verifConverter) ConvertToPng(in string, out string, command string) error {
	if _, err := os.Stat(in); err != nil {
		return errors.New("no image to convert")
	}
	return os.WriteFile(out, []byte("png"), 0o644)
}

var verifCacheDirs = []string{"cache", "./a/../cache/", "sub/cache", "ABS"}

func verifCacheConfig(dir int) string {
	verifConfig()
	c := verifCacheDirs[dir]
	if c == "ABS" {
		c = verifrt.Dir() + "/cache"
	}
	config.Current.CacheDir = c
	config.Current.CacheMaxAge = 60
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyNone
	config.Current.FilePrefixes = []string{"file", "datei"}
	config.Current.SvgSizeToViewbox = false
	util.CurrentFilesystem = &util.OsFilesystem{}
	os.RemoveAll("cache")
	os.RemoveAll("sub")
	os.MkdirAll("a", 0o755)
	for _, d := range []string{".tmp", "articles", "images", "math"} {
		os.MkdirAll(filepath.Join(c, d), 0o755)
	}
	return c
}

// verifSources returns the addresses of all images of the HTML text.
func verifSources(html string) []string {
	var r []string
	parts := strings.Split(html, `src="`)
	for _, p := range parts[1:] {
		i := strings.IndexByte(p, '"')
		verifrt.Assert(i >= 0, "image addresses end")
		if i < 0 {
			continue
		}
		r = append(r, p[:i])
	}
	return r
}

// verifShown checks that the address, relative to the cache, is the one of an existing file.
func verifShown(src, cacheDir string) string {
	path, err := url.PathUnescape(src)
	verifrt.Assert(err == nil, "image addresses are correctly escaped")
	verifrt.Assert(!strings.ContainsAny(src, "?#\"<>& '\\"), "image addresses contain no characters with another meaning")
	_, err = os.Stat(filepath.Join(cacheDir, path))
	verifrt.Assert(err == nil, "the image shown is stored at this path")
	return path
}

// VerifImagePaths: any image name, file type, conversion setting and cache folder.
func VerifImagePaths() {
	dir := verifCacheConfig(verifrt.Choice("cache", len(verifCacheDirs)))
	ext := []string{".jpg", ".svg", ".SVG", ".pdf", ".PDF", ".webp", ".Webp", ".Png"}[verifrt.Choice("type", 8)]
	config.Current.CommandTemplateSvgToPng, config.Current.CommandTemplatePdfToPng, config.Current.CommandTemplateWebpToPng = "", "", ""
	if verifrt.Choice("convert", 2) == 1 {
		config.Current.CommandTemplateSvgToPng, config.Current.CommandTemplatePdfToPng, config.Current.CommandTemplateWebpToPng = "svg", "pdf", "webp"
	}
	config.Current.CommandTemplateImageProcessing = "shrink"
	name := verifrt.StrMax("name", 1, verifrt.Param("n", 2), "a:%/+ \"&?'._\\*\xc3") + ext
	options := []string{"", "|mini|caption"}[verifrt.Choice("place", 2)]
	verifrt.Assume(name[0] != ' ' && name[0] != ':')

	service := wikipedia.NewWikipediaService("de", "wikipedia.org", []string{"en.wikipedia.org"}, "images.org", "https://math.org", verifConverter{}, &verifStore{})
	tokenizer := parser.NewTokenizer(service)
	article, err := tokenizer.Tokenize("x [[File:"+name+options+"]] y", "T")
	verifrt.Assert(err == nil, "the page is an article")
	if err != nil {
		return
	}
	err = service.DownloadImages(article.Images)
	verifrt.Assert(err == nil, "all images are stored")
	html, err := expand(&HtmlGenerator{TokenMap: article.TokenMap, WikipediaService: service}, article.Content)
	verifrt.Assert(err == nil, "the page is generated")
	verifrt.Observe("html", html)
	sources := verifSources(html)
	verifrt.Assert(len(sources) == 1, "the image is shown once")
	for _, s := range sources {
		path := verifShown(s, dir)
		verifrt.Observe("path", path)
		converted := config.Current.CommandTemplateSvgToPng != "" && ext != ".jpg" && ext != ".Png"
		verifrt.Assert(strings.HasSuffix(path, ".png") == converted, "the converted image is shown")
	}
}

// VerifMathPaths: any name of the rendered formula, converter and cache folder.
func VerifMathPaths() {
	dir := verifCacheConfig(verifrt.Choice("cache", len(verifCacheDirs)))
	config.Current.MathConverter = []string{config.MathConverterNone, config.MathConverterWikimedia, config.MathConverterTemplate}[verifrt.Choice("converter", 3)]
	config.Current.CommandTemplateMathSvgToPng = "math"
	store := &verifStore{location: verifrt.StrMax("location", 1, verifrt.Param("n", 3), "0aB%/_:+")}
	service := wikipedia.NewWikipediaService("de", "wikipedia.org", nil, "images.org", "https://math.org", verifConverter{}, store)
	html, err := expand(&HtmlGenerator{TokenMap: map[string]parser.Token{}, WikipediaService: service}, parser.MathToken{Content: "x^2"})
	verifrt.Assert(err == nil, "the formula is rendered")
	sources := verifSources(html)
	verifrt.Assert(len(sources) == 1, "the formula is shown once")
	for _, s := range sources {
		verifShown(s, dir)
	}
	verifrt.Assert(strings.Contains(html, "width: 1ex; height: 2ex; s"), "the formula has the size of its file")
}
