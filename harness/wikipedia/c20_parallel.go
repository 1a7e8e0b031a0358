package wikipedia

import (
	"net/http"
	"os"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"
	ownHttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifSlowImages lets commands take time and notices commands that work on the same file at the same time.
type verifSlowImages struct {
	image.ImageProcessingService
	busy    map[string]bool
	overlap bool
	delay   func(what string)
}

func (s *verifSlowImages) run(what, file string, f func() error) error {
	s.overlap = s.overlap || s.busy[file]
	s.busy[file] = true
	s.delay(what)
	err := f()
	s.busy[file] = false
	return err
}

func (s *verifSlowImages) ResizeAndCompressImage(path, template string) error {
	return s.run("resize", path, func() error { return s.ImageProcessingService.ResizeAndCompressImage(path, template) })
}

func (s *verifSlowImages) ConvertToPng(in, out, template string) error {
	return s.run("convert", out, func() error { return s.ImageProcessingService.ConvertToPng(in, out, template) })
}

// VerifParallel: articles that are processed at the same time need the same images or formulas. Whatever the time every
// step takes, each file in the cache is processed exactly once in the end.
func VerifParallel() {
	verifrt.Preempt(-1)
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = verifrt.Dir() + "/cache"
	config.Current.MathConverter = "template"
	config.Current.CommandTemplateMathSvgToPng = "conv {INPUT} {OUTPUT}"
	config.Current.CommandTemplateSvgToPng = "conv {INPUT} {OUTPUT}"
	config.Current.CommandTemplateWebpToPng = "conv {INPUT} {OUTPUT}"
	config.Current.CommandTemplatePdfToPng = ""
	config.Current.CommandTemplateImageProcessing = "size {INPUT} {OUTPUT}"
	util.CurrentFilesystem = &util.OsFilesystem{}
	verifrt.FakeConverter("conv")
	verifrt.FakeConverter("size")
	for _, d := range []string{".tmp", "articles", "images", "math", "templates"} {
		os.MkdirAll("cache/"+d, 0o777)
	}
	steps := 0
	delay := func(what string) {
		// no two steps end at the same time
		steps++
		k := verifrt.Choice(what+" takes", verifrt.Param("durations", 3))
		verifrt.Pause(k*6 + steps%6)
	}
	verifrt.ServeHTTP(func(method, address, body string) (int, http.Header, string) {
		switch {
		case strings.Contains(address, "page=File%3A"):
			if strings.Contains(address, "commons.") == strings.Contains(address, "other") {
				return 200, http.Header{"Mediawiki-Api-Error": []string{"missingtitle"}}, "{}"
			}
			return 200, nil, `{"parse": {"title": "` + "File:" + address[strings.Index(address, "File%3A")+7:] + `", "wikitext": {"*": ""}}}`
		case strings.HasPrefix(address, "https://upload.wikimedia.org/"):
			delay("download")
			return 200, nil, "image"
		case strings.HasSuffix(address, "/check/tex"):
			return 200, http.Header{"X-Resource-Location": []string{"m1"}}, ""
		case strings.Contains(address, "/render/svg/m1"):
			delay("download")
			return 200, nil, "svg"
		}
		return 404, nil, ""
	})
	images := &verifSlowImages{ImageProcessingService: image.NewImageProcessingService(), busy: map[string]bool{}, delay: delay}
	w := NewWikipediaService("en", "wikipedia.org", config.Current.WikipediaImageArticleHosts, config.Current.WikipediaImageHost, config.Current.WikipediaMathRestApi, images, ownHttp.NewDefaultHttpService())

	// The same file may be written differently.
	kind := verifrt.Choice("file", 4)
	names := [][]string{{"File:p q.png", "Image:p_q.png"}, {"File:w.webp", "File:w.webp"}, {"File:s.svg", "file:s.svg"}, nil}[kind]
	n := verifrt.Param("workers", 2)
	done := make(chan bool)
	for i := 0; i < n; i++ {
		go func(i int) {
			if names == nil {
				_, _, err := w.RenderMath("x")
				done <- err == nil
			} else {
				done <- w.DownloadImages([]string{names[i%2]}) == nil
			}
		}(i)
	}
	for i := 0; i < n; i++ {
		verifrt.Assert(<-done, "no error")
	}
	verifrt.Assert(!images.overlap, "no two commands work on the same file at the same time")
	file := []string{"p_q.png", "w.webp.png", "s.svg.png", "m1.png"}[kind]
	want := []string{"<image>", "<<image>>", "<<image>>", "<svg>"}[kind]
	b, err := os.ReadFile(cache.GetFilePathInCache(cache.ImageCacheDirName, file))
	verifrt.Assert(err == nil, "the image is in the cache")
	verifrt.Observe("image", string(b))
	verifrt.Assert(string(b) == want, "every image is processed exactly once")
	verifrt.Reach("images")
}
