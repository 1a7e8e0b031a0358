package main

import "time"

func p(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func q(sec int, kv ...any) Tier {
	return Tier{Params: p(kv...), Budget: time.Duration(sec) * time.Second}
}

var checks = []Check{
	{ID: "C01", H: []Harness{
		{Pkg: "parser", Fn: "VerifNoCrashMarkup", What: "any text of up to n characters out of the markup alphabet []{}|:'=*#LF blank f", Q: q(60, "n", 5), T: q(600, "n", 6)},
		{Pkg: "parser", Fn: "VerifNoCrashRefs", What: "any sequence of up to k pieces of reference markup, each possibly a symbolic byte", Q: q(60, "k", 3), T: q(600, "k", 5)},
		{Pkg: "parser", Fn: "VerifNoCrashTags", What: "any sequence of up to k pieces of tag-like markup, each possibly a symbolic byte", Q: q(60, "k", 3), T: q(600, "k", 4)},
		{Pkg: "parser", Fn: "VerifNoCrashMedia", What: "any sequence of up to k pieces of file links, galleries and image maps", Q: q(60, "k", 3), T: q(600, "k", 4)},
		{Pkg: "parser", Fn: "VerifNoCrashTemplates", What: "any sequence of up to k pieces of template and table markup", Q: q(60, "k", 4), T: q(600, "k", 5)},
		{Pkg: "parser", Fn: "VerifNoCrashTables", What: "any sequence of up to k pieces of table markup", Q: q(60, "k", 4), T: q(600, "k", 5)},
		{Pkg: "parser", Fn: "VerifNoCrashTokens", What: "any sequence of up to k pieces looking like internal placeholders", Q: q(60, "k", 3), T: q(600, "k", 5)},
		{Pkg: "parser", Fn: "VerifNoCrashQuotes", What: "any distribution of apostrophes over n characters", Q: q(60, "n", 13), T: q(600, "n", 18)},
		{Pkg: "parser", Fn: "VerifNoCrashQuoteRuns", What: "paragraphs of reps repetitions of any pattern of three apostrophe runs (step limit: no exponential search)", Q: q(60, "reps", 16), T: q(600, "reps", 60)},
		{Pkg: "parser", Fn: "VerifNoCrashMany", What: "any piece of markup repeated or nested the given number of times", Q: q(60, "many", 20), T: q(600, "many", 100)},
	}},
	{ID: "C02", H: []Harness{
		{Pkg: "parser", Fn: "VerifQuotes", What: "any text of up to n characters over apostrophe, letter, line break", Q: q(60, "n", 14), T: q(900, "n", 20)},
		{Pkg: "parser", Fn: "VerifQuoteRuns", What: "any sequence of up to k apostrophe runs of 0 to 6 with symbolic separators", Q: q(60, "k", 5), T: q(900, "k", 7)},
		{Pkg: "parser", Fn: "VerifQuotesWellFormed", What: "any sequence of up to k well-formed pieces", Q: q(60, "k", 4), T: q(900, "k", 6)},
	}},
	{ID: "C03", H: []Harness{
		{Pkg: "generator", Fn: "VerifTokensInline", What: "any sequence of up to k pieces of inline markup", Q: q(60, "k", 3), T: q(900, "k", 4)},
		{Pkg: "generator", Fn: "VerifTokensBlocks", What: "any sequence of up to k pieces of block markup", Q: q(60, "k", 3), T: q(900, "k", 4)},
		{Pkg: "generator", Fn: "VerifTokensBytes", What: "any text of up to n markup characters", Q: q(60, "n", 4), T: q(900, "n", 6)},
		{Pkg: "generator", Fn: "VerifTokensMany", What: "the given number of paragraphs of the same kind on one page", Q: q(60, "many", 104), T: q(900, "many", 1003)},
	}},
	{ID: "C04", H: []Harness{
		{Pkg: "parser", Fn: "VerifCleanText", What: "any text of up to n ASCII bytes without comments, links, templates, headings, empty list entries", Q: q(60, "n", 6), T: q(900, "n", 8)},
		{Pkg: "parser", Fn: "VerifCleanBold", What: "any sequence of up to k pieces of bold text, line breaks and headings", Q: q(60, "k", 6), T: q(900, "k", 8)},
		{Pkg: "parser", Fn: "VerifCleanLinks", What: "any link of up to k pieces (prefixes, colons, pipes)", Q: q(60, "k", 4), T: q(900, "k", 6)},
		{Pkg: "parser", Fn: "VerifCleanNestedLinks", What: "any link within the caption of a file and behind it", Q: q(60), T: q(60)},
		{Pkg: "parser", Fn: "VerifCleanComments", What: "any sequence of up to k pieces of comment markup", Q: q(60, "k", 6), T: q(900, "k", 7)},
		{Pkg: "parser", Fn: "VerifCleanLines", What: "any page of the given number of lines out of text, list items, (semi-)headings", Q: q(60, "lines", 3), T: q(900, "lines", 5)},
	}},
	{ID: "C05", H: []Harness{
		{Pkg: "parser", Fn: "VerifBrackets", What: "any content of up to n bytes"},
		{Pkg: "parser", Fn: "VerifBracketsIgnoreCase", What: "any content of up to n bytes, any letter case"},
		{Pkg: "parser", Fn: "VerifBracketsWords", What: "any sequence of up to k complete and partial markers and bytes, for all kinds of markers", Q: q(60, "k", 5), T: q(900, "k", 7)},
	}},
	{ID: "C08", H: []Harness{
		{Pkg: "parser", Fn: "VerifTables", What: "any table of up to the given number of rows and cells in any layout", Q: q(60, "rows", 2, "cells", 2), T: q(900, "rows", 2, "cells", 3)},
		{Pkg: "parser", Fn: "VerifTableCells", What: "any attributes and texts of cells next to each other", Q: q(60, "cells", 2), T: q(900, "cells", 3)},
		{Pkg: "parser", Fn: "VerifTableLine", What: "any line of cells of up to n characters", Q: q(60, "n", 7), T: q(900, "n", 10)},
		{Pkg: "parser", Fn: "VerifTablesAround", What: "any sequence of texts, indented, nested and empty tables", Q: q(60, "pieces", 3), T: q(900, "pieces", 5)},
		{Pkg: "parser", Fn: "VerifTablesMany", What: "tables nested the given number of times and with many rows", Q: q(60, "depth", 8), T: q(600, "depth", 14)},
	}},
	{ID: "C09", H: []Harness{
		{Pkg: "parser", Fn: "VerifHeadingLine", What: "any single line of up to n characters", Q: q(60, "n", 11), T: q(600, "n", 14)},
		{Pkg: "parser", Fn: "VerifHeadingDepths", What: "any page of the given number of lines with any heading depth and text", Q: q(60, "lines", 1, "text", 5), T: q(600, "lines", 2, "text", 2)},
		{Pkg: "generator", Fn: "VerifHeadingHtml", What: "any sequence of the given number of headings up to the HTML", Q: q(60, "headings", 2), T: q(600, "headings", 3)},
	}},
	{ID: "C06", H: []Harness{
		{Pkg: "parser", Fn: "VerifTemplates", What: "any nesting and sequence of template calls out of the given number of pieces", Q: q(60, "pieces", 7, "calls", 3), T: q(900, "pieces", 9, "calls", 4)},
		{Pkg: "parser", Fn: "VerifTemplatesOrder", What: "any order of results for nested and repeated calls", Q: q(60, "pieces", 5), T: q(900, "pieces", 6)},
		{Pkg: "parser", Fn: "VerifTemplatesBytes", What: "any text of up to n characters of template markup", Q: q(60, "n", 10), T: q(900, "n", 14)},
		{Pkg: "parser", Fn: "VerifTemplatesFailing", What: "any sequence of calls of which any may fail", Q: q(60, "pieces", 6), T: q(900, "pieces", 8)},
		{Pkg: "parser", Fn: "VerifTemplatesMoved", What: "any sequence of ignored, trailing and normal templates", Q: q(60, "pieces", 3), T: q(900, "pieces", 4)},
		{Pkg: "parser", Fn: "VerifTemplatesMany", What: "the given number of calls next to or within each other", Q: q(60, "many", 40), T: q(600, "many", 120)},
	}},
	{ID: "C07", H: []Harness{
		{Pkg: "parser", Fn: "VerifLists", What: "any list of the given number of lines and depth with any list characters", Q: q(90, "lines", 3, "depth", 2, "specials", 2), T: q(900, "lines", 3, "depth", 3, "specials", 2)},
		{Pkg: "parser", Fn: "VerifListItems", What: "any item text of up to n characters", Q: q(60, "n", 3), T: q(900, "n", 5)},
		{Pkg: "parser", Fn: "VerifListsMany", What: "lists with many lines", Q: q(60, "lines", 40), T: q(600, "lines", 120)},
	}},
	{ID: "C10", H: []Harness{
		{Pkg: "parser", Fn: "VerifReferences", What: "any sequence of up to k definitions, uses and lists of references", Q: q(90, "k", 3), T: q(900, "k", 4)},
		{Pkg: "parser", Fn: "VerifReferencesOneGroup", What: "any sequence of up to k references of one group", Q: q(60, "k", 4), T: q(900, "k", 5)},
		{Pkg: "parser", Fn: "VerifReferencesBlock", What: "any references block with the given number of definitions", Q: q(150, "definitions", 2), T: q(900, "definitions", 3)},
		{Pkg: "parser", Fn: "VerifReferenceNames", What: "any spelling of the name attribute with names of up to n characters", Q: q(60, "n", 3), T: q(900, "n", 4)},
		{Pkg: "parser", Fn: "VerifReferencesMany", What: "the given number of references on one page", Q: q(60, "many", 104), T: q(600, "many", 300)},
	}},
	{ID: "C11", H: []Harness{
		{Pkg: "parser", Fn: "VerifImageNames", What: "any file name of up to n characters, prefix spelling and place", Q: q(60, "n", 4), T: q(900, "n", 6)},
		{Pkg: "parser", Fn: "VerifImageNamePieces", What: "any file name of up to k pieces (encoded blanks, letters of other scripts, words, bytes)", Q: q(60, "k", 3), T: q(900, "k", 4)},
		{Pkg: "parser", Fn: "VerifImageSizes", What: "any width and height of up to four digits", Q: q(60), T: q(60)},
		{Pkg: "parser", Fn: "VerifImageOptions", What: "any sequence of up to k options and captions", Q: q(60, "k", 3), T: q(900, "k", 4)},
		{Pkg: "parser", Fn: "VerifGalleries", What: "any gallery of up to the given number of images in any layout", Q: q(90, "images", 2, "k", 1), T: q(900, "images", 2, "k", 1, "kmore", 1)},
		{Pkg: "parser", Fn: "VerifImageMaps", What: "any image maps in any layout", Q: q(60, "maps", 2), T: q(900, "maps", 3)},
		{Pkg: "parser", Fn: "VerifIgnoredMedia", What: "any media type, ignored types and conversion commands", Q: q(60), T: q(60)},
		{Pkg: "parser", Fn: "VerifImagesMany", What: "the given number of images on one page", Q: q(60, "many", 40), T: q(600, "many", 120)},
	}},
	{ID: "C12", H: []Harness{
		{Pkg: "cache", Fn: "VerifFileNames", What: "any name of up to n bytes", Q: q(60, "n", 3), T: q(900, "n", 4)},
		{Pkg: "cache", Fn: "VerifFileNamesDiffer", What: "any two different names of up to n characters", Q: q(60, "n", 3), T: q(900, "n", 4)},
		{Pkg: "cache", Fn: "VerifFileNamesLong", What: "any two names of up to n bytes that differ at one place only", Q: q(60, "n", 300, "step", 30), T: q(900, "n", 1200, "step", 20)},
		{Pkg: "cache", Fn: "VerifUnsafeNames", What: "any sequence of up to k escape sequences, parts of them and bytes", Q: q(60, "k", 4), T: q(900, "k", 5)},
	}},
	{ID: "C13", H: []Harness{
		{Pkg: "cache", Fn: "VerifStoreFaults", What: "any step of storing a file failing or being the last one, any content, prior state, strategy and limit", Q: q(120, "steps", 20), T: q(900, "steps", 30)},
		{Pkg: "cache", Fn: "VerifStoreOsFaults", What: "any call of the operating system failing, once or always, and any other one being the last one", Q: q(60, "steps", 12), T: q(60, "steps", 20)},
		{Pkg: "cache", Fn: "VerifConcurrentStores", What: "another store or lookup at any step of a store", Q: q(60, "steps", 20), T: q(60, "steps", 30)},
	}},
	{ID: "C14", H: []Harness{
		{Pkg: "cache", Fn: "VerifEviction", What: "any sizes, ages, limit and strategy for up to the given number of entries", Q: q(60, "entries", 3), T: q(900, "entries", 4)},
		{Pkg: "cache", Fn: "VerifEvictionFiles", What: "any sizes up to the bound, ages, limit and strategy with the real directory search", Q: q(90, "entries", 2, "size", 3), T: q(900, "entries", 3, "size", 3)},
		{Pkg: "cache", Fn: "VerifEvictionHistory", What: "any history of the given number of stores and lookups", Q: q(60, "steps", 5), T: q(900, "steps", 6)},
		{Pkg: "cache", Fn: "VerifConcurrentStores", What: "another store or lookup at any step of a store", Q: q(60, "steps", 20), T: q(60, "steps", 30)},
	}},
	{ID: "C15", H: []Harness{
		{Pkg: "cache", Fn: "VerifLookup", What: "any age, maximum age, strategy and failing step", Q: q(120), T: q(600)},
	}},
	{ID: "C16", H: []Harness{
		{Pkg: "http", Fn: "VerifDownload", What: "any sequence of responses up to the given number of throttled ones, any state of the cache", Q: q(60, "retries", 2, "body", 2), T: q(600, "retries", 4, "body", 4)},
		{Pkg: "http", Fn: "VerifSender", What: "any template of the user agent of up to k pieces, any responses", Q: q(60, "k", 3, "retries", 1, "body", 0), T: q(600, "k", 4, "retries", 2, "body", 1)},
		{Pkg: "http", Fn: "VerifPost", What: "any request data and sequence of responses", Q: q(60, "retries", 2, "body", 2), T: q(600, "retries", 4, "body", 4)},
	}},
	{ID: "C17", H: []Harness{
		{Pkg: "wikipedia", Fn: "VerifArticle", What: "any title of up to n bytes, any answer", Q: q(60, "n", 2), T: q(600, "n", 3)},
		{Pkg: "wikipedia", Fn: "VerifTemplate", What: "any template of up to n bytes, any answer", Q: q(60, "n", 3), T: q(600, "n", 4)},
		{Pkg: "wikipedia", Fn: "VerifImageSources", What: "any image name and title of up to n characters, any answers of the given number of sources", Q: q(120, "n", 2, "title", 1, "hosts", 2), T: q(900, "n", 3, "title", 2, "hosts", 3)},
		{Pkg: "wikipedia", Fn: "VerifImageList", What: "any list of images, each available at any of the sources under any name, with the real cache", Q: q(60, "hosts", 2, "images", 2), T: q(900, "hosts", 3, "images", 2)},
		{Pkg: "wikipedia", Fn: "VerifImageProcessing", What: "any file type, conversion settings and state of the cache", Q: q(60), T: q(60)},
		{Pkg: "wikipedia", Fn: "VerifMath", What: "any formula of up to n bytes, any answers, any converter", Q: q(60, "n", 3), T: q(600, "n", 4)},
	}},
	{ID: "C18", H: []Harness{
		{Pkg: "main", Fn: "VerifConfigSources", What: "any setting given by any of the sources with any values", Q: q(90), T: q(600)},
		{Pkg: "main", Fn: "VerifConfigPairs", What: "any two settings given by different sources", Q: q(60), T: q(600)},
		{Pkg: "main", Fn: "VerifConfigOutput", What: "any output type, driver and file given by any of the sources", Q: q(60), T: q(600)},
		{Pkg: "main", Fn: "VerifConfigArticle", What: "any setting for a single article and the standalone mode", Q: q(60), T: q(600)},
	}},
	{ID: "C19", H: []Harness{
		{Pkg: "config", Fn: "VerifValidityNumbers", What: "all numbers at once, any 62 bit value", Q: q(60), T: q(600)},
		{Pkg: "config", Fn: "VerifValidityWords", What: "any allowed, almost allowed and short value of the settings with a list of values", Q: q(60, "n", 3), T: q(600, "n", 7)},
		{Pkg: "config", Fn: "VerifValidityTemplates", What: "any command template of up to k pieces", Q: q(60, "k", 3), T: q(600, "k", 5)},
		{Pkg: "config", Fn: "VerifValidityRejects", What: "any number of up to two digits in a configuration or project file", Q: q(60), T: q(60)},
		{Pkg: "config", Fn: "VerifConfigFileBroken", What: "missing and broken files", Q: q(60), T: q(60)},
		{Pkg: "config", Fn: "VerifConfigPaths", What: "any path of up to n characters in configuration files at any place", Q: q(60, "n", 3), T: q(600, "n", 6)},
		{Pkg: "main", Fn: "VerifProjectPaths", What: "any path setting given in a configuration and a project file in different folders", Q: q(60), T: q(60)},
		{Pkg: "main", Fn: "VerifPandocPath", What: "the executable of pandoc as name, relative or absolute path in a configuration file, project file or argument", Q: q(60), T: q(60)},
	}},
	{ID: "C20", H: []Harness{
		{Pkg: "main", Fn: "VerifBook", What: "any list of articles, any number of workers, any order in which they finish", Q: q(90, "articles", 3, "workers", 3), T: q(900, "articles", 4, "workers", 4, "durations", 3)},
		{Pkg: "main", Fn: "VerifBookSchedules", What: "any scheduling of the workers with the given number of preemptions", Q: q(90, "articles", 2, "workers", 2, "titles", 2), T: q(900, "articles", 3, "workers", 3)},
		{Pkg: "main", Fn: "VerifBookMany", What: "books of 7 and of the given number of articles with 1 to 30 workers, with a repeated article and a slow one at different places", Q: q(60, "many", 23), T: q(900, "many", 101)},
		{Pkg: "main", Fn: "VerifBookFailing", What: "any one of the articles, or a template, formula or image in it, cannot be obtained", Q: q(60, "articles", 3), T: q(900, "articles", 5)},
		{Pkg: "wikipedia", Fn: "VerifParallel", What: "the same image or formula needed by several workers, any duration of downloads and commands", Q: q(60, "workers", 2, "durations", 3), T: q(900, "workers", 3, "durations", 3)},
	}},
	{ID: "C21", H: []Harness{
		{Pkg: "generator", Fn: "VerifStatsText", What: "any sequence of up to k pieces of ASCII characters and other scripts", Q: q(60, "k", 4), T: q(900, "k", 5)},
		{Pkg: "generator", Fn: "VerifStats", What: "any tree of tokens of the given size with symbolic texts", Q: q(90, "budget", 4), T: q(900, "budget", 5)},
		{Pkg: "generator", Fn: "VerifStatsSummary", What: "any statistics of up to the given number of articles, any links, any iteration order", Q: q(60, "articles", 2, "links", 2), T: q(900, "articles", 2, "links", 3)},
		{Pkg: "generator", Fn: "VerifStatsTop", What: "any position of the most and the least frequent link", Q: q(60), T: q(60)},
	}},
	{ID: "C22", H: []Harness{
		{Pkg: "image", Fn: "VerifCommands", What: "any command template of up to k arguments, any paths of up to n characters", Q: q(90, "k", 2, "n", 3), T: q(900, "k", 3, "n", 4)},
		{Pkg: "image", Fn: "VerifCommandMissing", What: "any missing command", Q: q(60), T: q(60)},
		{Pkg: "generator", Fn: "VerifPandoc", What: "any settings and metadata of up to n bytes, any pages", Q: q(90, "n", 1, "pages", 2), T: q(900, "n", 2, "pages", 3)},
		{Pkg: "wikipedia", Fn: "VerifImageProcessing", What: "any file type, conversion settings and state of the cache", Q: q(60), T: q(60)},
	}},
	{ID: "C23", H: []Harness{
		{Pkg: "image", Fn: "VerifSvgSize", What: "any size, view box and further attributes of the root element in any order and notation, any style of up to n characters", Q: q(120, "n", 1), T: q(900, "n", 3)},
		{Pkg: "image", Fn: "VerifSvgBroken", What: "a file that ends anywhere or has n wrong bytes anywhere", Q: q(60, "n", 1), T: q(900, "n", 2)},
		{Pkg: "wikipedia", Fn: "VerifSvgDownload", What: "any downloaded or cached image, any file type and content", Q: q(60), T: q(60)},
		{Pkg: "image", Fn: "VerifSvgAttributes", What: "any attributes of up to n characters", Q: q(60, "n", 3), T: q(600, "n", 6)},
	}},
	{ID: "C24", H: []Harness{
		{Pkg: "generator", Fn: "VerifHtmlTree", What: "any tree of tokens of the given size with symbolic texts", Q: q(90, "budget", 4), T: q(900, "budget", 5)},
		{Pkg: "generator", Fn: "VerifHtmlPage", What: "any title of up to n characters, content, style file and cache folder", Q: q(60, "budget", 1, "n", 2), T: q(900, "budget", 2, "n", 3)},
	}},
	{ID: "C25", H: []Harness{
		{Pkg: "generator", Fn: "VerifImagePaths", What: "any image name of up to n characters, type, conversion setting and cache folder", Q: q(120, "n", 2), T: q(900, "n", 3)},
		{Pkg: "generator", Fn: "VerifMathPaths", What: "any name of a rendered formula of up to n characters, converter and cache folder", Q: q(60, "n", 3), T: q(900, "n", 5)},
	}},
	{ID: "C26", H: []Harness{
		{Pkg: "parser", Fn: "VerifInternalLinks", What: "any inner text of an internal link of up to n characters", Q: q(60, "n", 6), T: q(900, "n", 8)},
		{Pkg: "parser", Fn: "VerifExternalLinks", What: "any scheme, address and text of an external link", Q: q(60), T: q(600)},
		{Pkg: "parser", Fn: "VerifLinkSequences", What: "any sequence of up to k links, brackets and texts, unclosed ones at the end", Q: q(60, "k", 4), T: q(900, "k", 5)},
		{Pkg: "generator", Fn: "VerifLinkAddress", What: "any address with k pieces of formatting, quotes, elements and links in it", Q: q(60, "k", 2), T: q(900, "k", 3)},
	}},
	{ID: "C27", H: []Harness{
		{Pkg: "main", Fn: "VerifAgain", What: "any article of k pieces, any removed part or age of the cache between the runs, forced or not", Q: q(100, "pieces", 1), T: q(900, "pieces", 2)},
		{Pkg: "wikipedia", Fn: "VerifResume", What: "any operations with any failing request and failing commands, then another attempt", Q: q(60, "ops", 1), T: q(900, "ops", 2, "requests", 8)},
	}},
	{ID: "C28", H: []Harness{
		{Pkg: "generator", Fn: "VerifVerbatimNowiki", What: "nowiki areas with any content of up to k words of markup at any of 18 places", Q: q(60, "k", 2), T: q(900, "k", 3)},
		{Pkg: "generator", Fn: "VerifVerbatimMath", What: "formulas with any content of up to k words of markup at any of 18 places", Q: q(60, "k", 2), T: q(900, "k", 3)},
		{Pkg: "generator", Fn: "VerifVerbatimBytes", What: "areas with any content of up to n arbitrary bytes", Q: q(60, "n", 2), T: q(900, "n", 3)},
		{Pkg: "generator", Fn: "VerifVerbatimPages", What: "any sequence of up to k areas, comments, templates, links and texts, possibly with an unclosed tag at the end", Q: q(60, "k", 4), T: q(900, "k", 5)},
	}},
	{ID: "C29", H: []Harness{
		{Pkg: "generator", Fn: "VerifParagraphKinds", What: "any sequence of up to k lines of 15 kinds, as page, table cell or reference", Q: q(90, "k", 4), T: q(900, "k", 5)},
		{Pkg: "generator", Fn: "VerifParagraphLong", What: "any sequence of up to n blank lines, text lines and lines consisting of one element, as page, table cell or reference", Q: q(60, "n", 8), T: q(900, "n", 10)},
	}},
	{ID: "C30", H: []Harness{
		{Pkg: "main", Fn: "VerifFiles", What: "any mode, output type, place of the output and existing files", Q: q(100), T: q(900)},
	}},
	{ID: "C31", H: []Harness{
		{Pkg: "generator", Fn: "VerifWordsInline", What: "any paragraph with up to the given number of nested and consecutive pieces of inline markup", Q: q(60, "budget", 3), T: q(900, "budget", 4)},
		{Pkg: "generator", Fn: "VerifWordsBlocks", What: "any page with up to the given number of nested and consecutive blocks and pieces of inline markup", Q: q(100, "budget", 3), T: q(900, "budget", 4)},
		{Pkg: "generator", Fn: "VerifWordsForms", What: "any tables, lists, galleries, headings and elements of any shape, behind one another", Q: q(40, "forms", 1), T: q(900, "forms", 2)},
		{Pkg: "generator", Fn: "VerifWordsLetters", What: "the same for words with any kind of character", Q: q(60, "budget", 2), T: q(900, "budget", 3)},
	}},
	{ID: "C32", H: []Harness{
		{Pkg: "main", Fn: "VerifInternalDriver", What: "any mode, list of articles, titles and image names with any special character, any combination of cover, style and fonts", Q: q(90, "articles", 3), T: q(900, "articles", 4)},
	}},
	{ID: "C33", H: []Harness{
		{Pkg: "main", Fn: "VerifRaces", What: "articles with any contents, processed by workers at the same time, any output, converter and cache setting", Q: q(90, "articles", 2), T: q(900, "articles", 3)},
		{Pkg: "main", Fn: "VerifRacesSchedules", What: "articles with the same contents and any schedule of the workers with one preemption", Q: q(60, "articles", 2, "preemptions", 1), T: q(900, "articles", 2, "preemptions", 2)},
	}},
}
