package main

import (
	"encoding/json"
	"os"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifJSON is the value as in a configuration file.
func verifJSON(v any) string {
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case number:
		return string(x)
	case string:
		return `"` + x + `"`
	case []string:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += ", "
			}
			s += `"` + e + `"`
		}
		return s + "]"
	}
	panic("unknown type")
}

type number string

// verifEqual compares the value of a setting with the one of the configuration.
func verifEqual(c *config.Configuration, name string, v any) bool {
	switch x := v.(type) {
	case bool:
		return *verifBool(c, name) == x
	case number:
		switch name {
		case "cache-max-size":
			return strconv.FormatInt(c.CacheMaxSize, 10) == string(x)
		case "cache-max-age":
			return strconv.FormatInt(c.CacheMaxAge, 10) == string(x)
		case "toc-depth":
			return strconv.Itoa(c.TocDepth) == string(x)
		case "worker-threads":
			return strconv.Itoa(c.WorkerThreads) == string(x)
		}
	case string:
		return *verifString(c, name) == x
	case []string:
		l := *verifList(c, name)
		ok := len(l) == len(x)
		for i := 0; ok && i < len(l); i++ {
			ok = l[i] == x[i]
		}
		return ok
	}
	panic("unknown setting " + name)
}

func verifBool(c *config.Configuration, name string) *bool {
	switch name {
	case "force-regenerate-html":
		return &c.ForceRegenerateHtml
	case "svg-size-to-viewbox":
		return &c.SvgSizeToViewbox
	}
	return nil
}

func verifString(c *config.Configuration, name string) *string {
	switch name {
	case "output-type":
		return &c.OutputType
	case "output-driver":
		return &c.OutputDriver
	case "cache-dir":
		return &c.CacheDir
	case "cache-eviction-strategy":
		return &c.CacheEvictionStrategy
	case "style-file":
		return &c.StyleFile
	case "cover-image":
		return &c.CoverImage
	case "command-template-svg-to-png":
		return &c.CommandTemplateSvgToPng
	case "command-template-math-svg-to-png":
		return &c.CommandTemplateMathSvgToPng
	case "command-template-image-processing":
		return &c.CommandTemplateImageProcessing
	case "command-template-pdf-to-png":
		return &c.CommandTemplatePdfToPng
	case "command-template-webp-to-png":
		return &c.CommandTemplateWebpToPng
	case "pandoc-executable":
		return &c.PandocExecutable
	case "pandoc-data-dir":
		return &c.PandocDataDir
	case "wikipedia-instance":
		return &c.WikipediaInstance
	case "wikipedia-host":
		return &c.WikipediaHost
	case "wikipedia-image-host":
		return &c.WikipediaImageHost
	case "wikipedia-math-rest-api":
		return &c.WikipediaMathRestApi
	case "math-converter":
		return &c.MathConverter
	case "user-agent-template":
		return &c.UserAgentTemplate
	}
	return nil
}

func verifList(c *config.Configuration, name string) *[]string {
	switch name {
	case "font-files":
		return &c.FontFiles
	case "ignored-templates":
		return &c.IgnoredTemplates
	case "trailing-templates":
		return &c.TrailingTemplates
	case "ignored-image-params":
		return &c.IgnoredImageParams
	case "ignored-media-types":
		return &c.IgnoredMediaTypes
	case "wikipedia-image-article-hosts":
		return &c.WikipediaImageArticleHosts
	case "file-prefixes":
		return &c.FilePrefixes
	case "allowed-link-prefixes":
		return &c.AllowedLinkPrefixes
	case "category-prefixes":
		return &c.CategoryPrefixes
	}
	return nil
}

var verifSettings = []string{
	"force-regenerate-html", "svg-size-to-viewbox", "output-type", "output-driver", "cache-dir", "cache-max-size", "cache-max-age",
	"cache-eviction-strategy", "style-file", "cover-image", "command-template-svg-to-png", "command-template-math-svg-to-png",
	"command-template-image-processing", "command-template-pdf-to-png", "command-template-webp-to-png", "pandoc-executable",
	"pandoc-data-dir", "font-files", "ignored-templates", "trailing-templates", "ignored-image-params", "ignored-media-types",
	"wikipedia-instance", "wikipedia-host", "wikipedia-image-host", "wikipedia-image-article-hosts", "wikipedia-math-rest-api",
	"file-prefixes", "allowed-link-prefixes", "category-prefixes", "math-converter", "toc-depth", "worker-threads", "user-agent-template",
}

// verifValue is the value of the setting in a configuration.
func verifValue(c *config.Configuration, name string) any {
	if p := verifBool(c, name); p != nil {
		return *p
	}
	if p := verifString(c, name); p != nil {
		return *p
	}
	if p := verifList(c, name); p != nil {
		return *p
	}
	switch name {
	case "cache-max-size":
		return number(strconv.FormatInt(c.CacheMaxSize, 10))
	case "cache-max-age":
		return number(strconv.FormatInt(c.CacheMaxAge, 10))
	case "toc-depth":
		return number(strconv.Itoa(c.TocDepth))
	case "worker-threads":
		return number(strconv.Itoa(c.WorkerThreads))
	}
	panic("unknown setting " + name)
}

// verifFlags is the value as command line arguments.
func verifFlags(name string, v any) []string {
	switch x := v.(type) {
	case bool:
		return []string{"--" + name + "=" + strconv.FormatBool(x)}
	case number:
		return []string{"--" + name, string(x)}
	case string:
		return []string{"--" + name, x}
	case []string:
		var a []string
		for _, e := range x {
			a = append(a, "--"+name, e)
		}
		return a
	}
	panic("unknown type")
}

// verifArticle stores the article in the cache folder, so that nothing has to be downloaded.
func verifArticle(cacheDir, title, text string) {
	os.MkdirAll(cacheDir+"/articles", 0o777)
	t, _ := json.Marshal(title)
	x, _ := json.Marshal(text)
	os.WriteFile(cacheDir+"/articles/"+util.SanitizeFilename(strings.ReplaceAll(title, " ", "_"))+".json", []byte(`{"parse": {"title": `+string(t)+`, "wikitext": {"*": `+string(x)+`}}}`), 0o666)
}

func verifRun(args ...string) {
	os.Args = append([]string{"wiki2book"}, args...)
	verifShow("arguments", verifJSON(os.Args))
	main()
}

// verifShow reports a value in which the scratch folder is written as "~".
func verifShow(name, v string) {
	v = strings.ReplaceAll(v, verifrt.Dir(), "~")
	verifrt.Observe(name, strings.ReplaceAll(v, "/home/user", "~"))
}
