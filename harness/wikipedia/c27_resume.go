package wikipedia

import (
	"net/http"
	"os"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"
	ownHttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifOps: everything needed for an article. A result is the content of the file, the text or the error.
var verifOps = []string{"article", "p.png", "w.webp", "s.svg", "d.pdf", "other.jpg", "template", "math"}

func verifContent(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "missing"
	}
	return string(b)
}

func verifDo(w *DefaultWikipediaService, op string) (string, error) {
	switch op {
	case "article":
		a, err := w.DownloadArticle("en.wikipedia.org", "A b")
		if err != nil {
			return "", err
		}
		return a.Parse.Wikitext.Content, nil
	case "template":
		return w.EvaluateTemplate("{{tpl}}", "tpl-file")
	case "math":
		svg, png, err := w.RenderMath("x")
		if err != nil {
			return "", err
		}
		return verifContent(svg) + " " + verifContent(png), nil
	}
	err := w.DownloadImages([]string{"File:" + op})
	if err != nil {
		return "", err
	}
	p := cache.GetFilePathInCache(cache.ImageCacheDirName, op)
	if op == "w.webp" && config.Current.ShouldConvertWebpToPng() || op == "s.svg" && config.Current.ShouldConvertSvgToPng() || op == "d.pdf" && config.Current.ShouldConvertPdfToPng() {
		p = util.GetPngPathForFile(p)
	}
	return verifContent(p), nil
}

// VerifResume: any things to download, any failing request and failing commands; another attempt gives the same as
// without failures.
func VerifResume() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = verifrt.Dir() + "/cache"
	config.Current.MathConverter = []string{"none", "wikimedia", "template"}[verifrt.Choice("math", 3)]
	config.Current.CommandTemplateMathSvgToPng = "conv {INPUT} {OUTPUT}"
	convert, resize := "", ""
	if verifrt.Choice("convert", 2) == 1 {
		convert = "conv {INPUT} {OUTPUT}"
	}
	if verifrt.Choice("resize", 2) == 1 {
		resize = "size {INPUT} {OUTPUT}"
	}
	config.Current.CommandTemplateSvgToPng = convert
	config.Current.CommandTemplateWebpToPng = convert
	config.Current.CommandTemplatePdfToPng = convert
	config.Current.CommandTemplateImageProcessing = resize
	util.CurrentFilesystem = &util.OsFilesystem{}
	verifrt.FakeConverter("conv")
	verifrt.FakeConverter("size")
	for _, d := range []string{".tmp", "articles", "images", "math", "templates"} {
		os.MkdirAll("cache/"+d, 0o777)
	}

	requests, failing, kind := 0, verifrt.Int("failing request", -1, verifrt.Param("requests", 8)), verifrt.Choice("failure", 3)
	verifrt.ServeHTTP(func(method, address, body string) (int, http.Header, string) {
		requests++
		if requests-1 == failing {
			switch kind {
			case 0:
				return 0, nil, ""
			case 1:
				return 500, nil, "failure"
			default:
				return 200, http.Header{"Mediawiki-Api-Error": []string{"internal"}}, `{"error": {}}`
			}
		}
		switch {
		case strings.Contains(address, "page=A_b"):
			return 200, nil, `{"parse": {"title": "A b", "wikitext": {"*": "text"}}}`
		case strings.Contains(address, "page=File%3A"):
			if strings.Contains(address, "commons.") == strings.Contains(address, "other") {
				return 200, http.Header{"Mediawiki-Api-Error": []string{"missingtitle"}}, "{}"
			}
			return 200, nil, `{"parse": {"title": "` + "File:" + address[strings.Index(address, "File%3A")+7:] + `", "wikitext": {"*": ""}}}`
		case strings.Contains(address, "expandtemplates"):
			return 200, nil, `{"expandtemplates": {"wikitext": "result"}}`
		case strings.HasPrefix(address, "https://upload.wikimedia.org/"):
			return 200, nil, "image"
		case strings.HasSuffix(address, "/check/tex"):
			return 200, http.Header{"X-Resource-Location": []string{"m1"}}, ""
		case strings.Contains(address, "/render/svg/m1"):
			return 200, nil, "svg"
		case strings.Contains(address, "/render/png/m1"):
			return 200, nil, "png"
		}
		return 404, nil, ""
	})
	service := func() *DefaultWikipediaService {
		return NewWikipediaService("en", "wikipedia.org", config.Current.WikipediaImageArticleHosts, config.Current.WikipediaImageHost, config.Current.WikipediaMathRestApi, image.NewImageProcessingService(), ownHttp.NewDefaultHttpService())
	}
	n := verifrt.Param("ops", 1)
	var ops []string
	for i := 0; i < n; i++ {
		ops = append(ops, verifOps[verifrt.Choice("operation", len(verifOps))])
	}

	// The first attempt.
	failConv, failSize := verifrt.Choice("conv fails", 2) == 1, verifrt.Choice("size fails", 2) == 1
	verifrt.FailCommand("conv", failConv)
	verifrt.FailCommand("size", failSize)
	w := service()
	for _, op := range ops {
		r, err := verifDo(w, op)
		verifrt.Observe("result", r)
		verifrt.ObserveBool("error", err != nil)
		if err != nil {
			break
		}
		verifrt.Assert(r == verifExpected(op, convert != "", resize != ""), "without error the result is complete")
	}

	// The next attempt without failures.
	verifrt.FailCommand("conv", false)
	verifrt.FailCommand("size", false)
	failing = -1
	w = service()
	for _, op := range ops {
		r, err := verifDo(w, op)
		verifrt.Observe("result", r)
		verifrt.Assert(err == nil, "another attempt succeeds")
		verifrt.Assert(r == verifExpected(op, convert != "", resize != ""), "another attempt gives the complete result")
	}
}

func verifExpected(op string, convert, resize bool) string {
	switch op {
	case "article":
		return "text"
	case "template":
		return "result"
	case "math":
		return "svg " + map[string]string{"none": "svg", "wikimedia": "png", "template": "<svg>"}[config.Current.MathConverter]
	}
	r := "image"
	png := strings.HasSuffix(op, "png") || strings.HasSuffix(op, "jpg")
	if op == "w.webp" {
		png = true
	}
	if convert && (op == "w.webp" || op == "s.svg" || op == "d.pdf") {
		r = "<" + r + ">"
		png = true
	}
	if resize && png {
		r = "<" + r + ">"
	}
	return r
}

// VerifImageList: several images that are available at any of the sources, possibly under another name there.
func VerifImageList() {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = verifrt.Dir() + "/cache"
	config.Current.CommandTemplateImageProcessing = ""
	config.Current.CommandTemplateSvgToPng, config.Current.CommandTemplateWebpToPng, config.Current.CommandTemplatePdfToPng = "", "", ""
	util.CurrentFilesystem = &util.OsFilesystem{}
	for _, d := range []string{".tmp", "articles", "images"} {
		os.MkdirAll("cache/"+d, 0o777)
	}
	all := []string{"en.wikipedia.org", "commons.wikimedia.org", "de.wikipedia.org"}
	hosts := all[:1+verifrt.Choice("hosts", verifrt.Param("hosts", 2))]
	n := 1 + verifrt.Choice("images", verifrt.Param("images", 2))
	var images []string
	for i := 0; i < n; i++ {
		images = append(images, string(rune('a'+verifrt.Choice("image", i+1))))
	}
	// 0: no page, 1: page but no image, 2: image, 3: page with another name but no image, 4: image under another name
	state := map[string]int{}
	names := map[string]string{}
	for i := range hosts {
		for j := 0; j < n; j++ {
			k := hosts[i] + " " + string(rune('a'+j))
			state[k] = verifrt.Choice("state", 5)
			names[k] = string(rune('a'+j)) + ".jpg"
			if state[k] > 2 {
				names[k] = "X" + string(rune('a'+j)) + string(rune('0'+i)) + ".jpg"
			}
		}
	}
	var log []string
	verifrt.ServeHTTP(func(method, address, body string) (int, http.Header, string) {
		host := strings.Split(strings.TrimPrefix(address, "https://"), "/")[0]
		if i := strings.Index(address, "page=File%3A"); i >= 0 {
			k := host + " " + address[i+12:i+13]
			if state[k] == 0 {
				return 200, http.Header{"Mediawiki-Api-Error": []string{"missingtitle"}}, "{}"
			}
			return 200, nil, `{"parse": {"title": "File:` + names[k] + `", "wikitext": {"*": ""}}}`
		}
		parts := strings.Split(address, "/")
		if host != "upload.wikimedia.org" || len(parts) < 8 {
			return 404, nil, ""
		}
		log = append(log, parts[4]+" "+parts[7])
		for k, s := range state {
			if strings.HasPrefix(k, parts[4]+".") && names[k] == parts[7] && s > 0 && s%2 == 0 {
				return 200, nil, "content " + k
			}
		}
		return 404, nil, ""
	})
	w := NewWikipediaService("en", "wikipedia.org", append([]string{}, hosts...), "upload.wikimedia.org", "https://math.org/rest", image.NewImageProcessingService(), ownHttp.NewDefaultHttpService())
	var list []string
	for _, i := range images {
		list = append(list, "File:"+i+".jpg")
	}
	err := w.DownloadImages(list)

	var want []string
	content := map[string]string{}
	found := true
	for _, i := range images {
		if content[i] != "" {
			continue
		}
		found = false
		for _, h := range hosts {
			k := h + " " + i
			if state[k] == 0 {
				continue
			}
			want = append(want, strings.Split(h, ".")[0]+" "+names[k])
			if state[k]%2 == 0 { // and not 0, see above
				content[i] = "content " + k
				found = true
				break
			}
		}
		if !found {
			break
		}
	}
	verifrt.Observe("requests", strings.Join(log, ", "))
	verifrt.Assert((err == nil) == found, "it is an error exactly if an image is at no source")
	verifrt.Assert(strings.Join(log, ", ") == strings.Join(want, ", "), "the image is requested from the sources in order, under its name there, until it is found")
	for i, c := range content {
		verifrt.Assert(verifContent("cache/images/"+i+".jpg") == c, "the image of the first source that has it is stored")
	}
}

// VerifSvgDownload: sizes of SVGs are made absolute exactly when they are downloaded and this is configured.
func VerifSvgDownload() {
	verifSetup()
	config.Current.CommandTemplateImageProcessing = ""
	config.Current.CommandTemplateSvgToPng, config.Current.CommandTemplateWebpToPng, config.Current.CommandTemplatePdfToPng = "", "", ""
	config.Current.SvgSizeToViewbox = verifrt.Choice("absolute sizes", 2) == 1
	ext := []string{".svg", ".SVG", ".Svg", ".jpg", ".svg.png", ""}[verifrt.Choice("type", 6)]
	contents := []string{
		`<svg width="100%" height="100%" viewBox="0 0 12 34"></svg>`,
		`<svg width="5" height="6" viewBox="0 0 12 34"></svg>`,
		`<svg width="100%" height="100%"></svg>`,
		`no svg`,
		``,
	}
	kind := verifrt.Choice("content", len(contents))
	fresh := verifrt.Choice("fresh", 2) == 1
	h := &verifHttp{answer: func(c verifCall) (string, bool, bool) {
		if c.folder == "images" {
			return contents[kind], fresh, true
		}
		return `{"parse":{"title":"File:b"}}`, true, true
	}}
	err := verifService(h, &verifImages{}, verifHosts[:1]).DownloadImages([]string{"File:a" + ext})
	verifrt.Assert(err == nil, "an image that cannot be interpreted is kept")
	want := contents[kind]
	if config.Current.SvgSizeToViewbox && fresh && kind == 0 && strings.ToLower(ext) == ".svg" {
		want = `<svg width="12pt" height="34pt" viewBox="0 0 12 34"></svg>`
	}
	verifrt.Assert(verifContent("cache/images/a"+ext) == want, "a downloaded SVG gets its absolute size if this is configured, all other files are unchanged")
}
