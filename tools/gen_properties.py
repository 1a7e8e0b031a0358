#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the text is easy to edit).
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Any page text is turned into an article or an error, never a crash or a hang",
 "For every wikitext page, however malformed, converting it into a token tree terminates and either yields an article or returns an error. It never panics, never terminates the process and never loops forever, even when markup is unclosed, empty or wrongly nested.",
 ["inputs"],"every page text (unclosed links, templates, tables, references, galleries, nowiki, comments, empty targets, missing last lines)",
 "Wikitext comes from arbitrary users and from template evaluation; the unit tests feed a few hundred well-formed snippets, while crashes sit in rare truncated/empty constructs.",
 ["src/parser/tokenizer.go","src/parser/cleaner.go","src/parser/link.go","src/parser/image.go","src/parser/table.go","src/parser/list.go","src/parser/reference.go","src/parser/template.go","src/parser/nowiki.go","src/parser/formatting.go"],
 [("fixpoint tokenization","src/parser/tokenizer.go Tokenize/tokenizeContent"),("clean-up","src/parser/cleaner.go clean"),("bracket matching","src/parser/util.go")],
 ["Tokenizer.Tokenize result or panic"])
p("C02","Bold and italic markup is always balanced, properly nested and loses no text",
 "However runs of apostrophes are distributed over a paragraph, the bold and italic start and end marks put into the output are balanced and properly nested. Removing the marks and the remaining apostrophes yields the original text without its apostrophes, and a well-formed ''x'', '''x''' or '''''x''''' yields exactly italic, bold and bold-italic around x.",
 ["inputs"],"every text over apostrophes, letters and line breaks",
 "The interaction of runs of 2, 3, 4, 5 and more apostrophes with crossing bold/italic regions is combinatorial; tests contain a few dozen combinations.",
 ["src/parser/formatting.go","src/generator/html.go"],
 [("recursive bold/italic disambiguation","src/parser/formatting.go tokenizeBoldAndItalic"),("marker expansion","src/generator/html.go expandMarker")],
 ["marker sequence in the tokenized text","HTML tags <b>/<i>"])
p("C03","Every piece of markup is represented by exactly one resolvable token",
 "After a page has been converted, every placeholder occurring anywhere in the resulting article resolves to exactly one stored element, no stored element is referenced twice, and turning the article into HTML succeeds without any placeholder or internal marker remaining in the output.",
 ["inputs"],"every page text built from links, images, lists, tables, headings, references, formulas, nowiki blocks and plain text, nested in each other, as long as the page itself contains no text spelled like an internal placeholder",
 "Unresolvable or dangling placeholders only appear for particular nestings of constructs and for texts that look like placeholders; tests use a single construct each.",
 ["src/parser/tokenizer.go","src/generator/expand.go","src/generator/html.go"],
 [("token keys and map","src/parser/tokenizer.go getToken/setRawToken"),("recursive expansion","src/generator/expand.go expandString")],
 ["Article.Content/TokenMap","generated HTML"],[("token map","placeholder -> element","src/parser/tokenizer.go")])
p("C04","Clean-up removes exactly the unwanted markup and keeps all other text",
 "Cleaning a page removes comments, links whose namespace is neither allowed nor a file prefix, blanks around lines, empty list entries and empty sections (headings or entirely bold lines followed by no text up to the next heading of the same or a higher level), and nothing else: all other characters are kept, unchanged and in order. A link without namespace, with an allowed namespace, or with a leading colon in front of its namespace is kept verbatim.",
 ["inputs","configurations"],"every page text and every configuration of allowed/ignored prefixes and media types",
 "Text is silently lost when a removal range is off by one or matches too much; tests sample a few snippets per removal rule.",
 ["src/parser/cleaner.go"],
 [("comment removal","removeComments"),("link removal","removeUnwantedInternalLinks"),("empty sections/lists","removeEmptySections/removeEmptyListEntries")],
 ["cleaned text"])
p("C05","Nested opening and closing brackets are matched correctly",
 "Searching the closing counterpart of an opening bracket returns the position of the first closing bracket at which all brackets opened in between are closed again, and reports absence exactly if there is none. The case-insensitive variant behaves like the case-sensitive one on letter-case-normalised text.",
 ["inputs"],"every text, start position and pair of opening/closing markers used by the parser",
 "Overlapping and nested markers at every offset cannot be enumerated by examples; all constructs depend on this function.",
 ["src/parser/util.go"],[("bracket scan","FindCorrespondingCloseToken, FindCorrespondingCloseTokenIgnoreCase")],["returned index"])
p("C06","Every template is evaluated exactly once, innermost first, and replaced in place",
 "Each template call of a page is replaced in place by the evaluation result of exactly its own text, in which nested calls are evaluated first and only replaced by their own results afterwards; ignored templates vanish, trailing templates are moved to the end of the page with all their parameters, and text outside templates is unchanged. No internal placeholder remains in the result, equal calls give equal results, and an evaluation failure is reported as an error instead of dropping text.",
 ["inputs","fault_sequences"],"every nesting and repetition of template calls, every evaluation result that holds no internal placeholder of its own, every failing evaluation",
 "Replacement order, repeated templates and results that contain further text interact; tests use at most one nested template and a constant mock result.",
 ["src/parser/template.go","src/parser/cleaner.go"],
 [("placeholder substitution","evaluateTemplates/replaceTemplateByPlaceholders"),("ignored/trailing templates","handleUnwantedAndTrailingTemplates")],
 ["text after template evaluation","calls of the template evaluation service"])
p("C07","Lists keep every item, its text, its order, its kind and its nesting level",
 "For every block of lines starting with list characters, the resulting lists contain each item exactly once in source order, with the kind given by its last list character and at the nesting level given by the number of its list characters. Lines that belong to no list stay in the text around the list unchanged.",
 ["inputs"],"every sequence of lines with arbitrary list prefixes and item texts that do not start with list characters themselves",
 "Prefix sequences of different depth and kind form a tree language; tests contain about a dozen shapes.",
 ["src/parser/list.go"],[("prefix driven recursion","tokenizeList, belongsToListPrefix")],["list tokens","HTML ul/ol/dl/li nesting"])
p("C08","Tables keep every row and cell with its text, kind and attributes",
 "For every table, rows and cells appear exactly once and in source order, with the cell's text, its heading-or-data kind and its row span and column span attributes; captions keep their text and nested tables become the content of the cell they are in. Text before and after the table is unchanged.",
 ["inputs"],"every table built from row separators, single-line and multi-line cells, headings, attributes, captions and nested tables",
 "Cell separators, attribute separators and multi-line cells interact; the tests and the integration test cover some dozens of layouts.",
 ["src/parser/table.go"],[("line driven table parsing","tokenizeTable, tokenizeTableRow, tokenizeTableEntry, tokenizeTableCaption")],["table tokens","HTML table"])
p("C09","Headings get the depth of their equals signs and keep their text",
 "A line consisting of n equals signs, a text and n equals signs (1 to 7) becomes a heading of depth n with exactly that text, and no other line becomes a heading. The HTML heading level of a heading is its depth.",
 ["inputs"],"every line over equals signs, blanks and inline text",
 "The seven regular expressions are applied one after another, so overlaps only show for particular inputs.",
 ["src/parser/heading.go","src/generator/html.go","src/parser/pattern.go"],[("heading expressions","parseHeadings, expandHeadings")],["heading tokens and HTML"])
p("C10","Reference numbers in the text match the numbered list of references",
 "Every use of a reference carries the number of the entry in the reference list that holds its text, uses of the same named reference carry the same number, and numbers are assigned in order of first appearance without gaps within a reference group. Each reference text is listed exactly once, in ascending number order.",
 ["inputs"],"every sequence of anonymous, named, re-used and grouped references, in any order of definition and use, as long as every used reference is defined and reference tags are closed and not nested",
 "Numbering depends on the whole history of references in a page; tests contain a few fixed sequences.",
 ["src/parser/reference.go"],[("counter and maps","parseReferences, parseNamedReferenceUsage, parseReferenceDefinition, parseReferenceEndPlaceholder")],["reference tokens","HTML"])
p("C11","Every image shown is also requested for download, and sizes and names are parsed right",
 "Every image occurring in the resulting article, whether from a file link, gallery, image map or table cell, is in the list of images to download under exactly the name the output refers to; media of ignored types occur in neither. Size options become exactly the given pixel width and height, in any option order, and the last parameter that is no option is the caption.",
 ["inputs","configurations"],"every file link with every prefix spelling, option order and caption, galleries and image maps, for file names without colons",
 "Name normalisation takes place in several passes at different places that must agree; tests check each pass separately.",
 ["src/parser/image.go","src/parser/cleaner.go"],[("name normalisation","escapeImages"),("option parsing","parseImages, parseGalleries, parseImageMaps")],["Article.Images","image tokens"])
p("C12","Generated file names are safe single path components and never collide",
 "A name made safe for the file system contains no path separator or other unsafe character, is accepted as safe (as opposed to names containing unsafe characters), and decoding it gives the original name. Every cache entry therefore lies directly inside its cache folder, and different names never share an entry, whatever the page, image or template is called.",
 ["inputs"],"every name except the reserved ones \".\" and \"..\", including separators, quotes, control characters and non-ASCII characters",
 "Names come from wiki editors; tests check a handful of characters.",
 ["src/util/files.go","src/cache/cache.go"],[("sanitising","SanitizeFilename, IsSanitized, RequireFilePathIsSanitized")],["returned names","paths passed to the file system"])
p("C13","A cache entry is always either absent, the old or the new complete content",
 "Whatever single step of storing a file in the cache fails or is the last one before a crash, the entry afterwards is either as before (or evicted to make room) or holds the complete new content, never a part of it. A failure is reported as an error to the caller, and success is only reported when the complete content is stored under the entry's name.",
 ["crash_points","fault_sequences"],"every file-system step failing or being the last one executed, every short write or read, every prior state of the entry",
 "Crash points and partial writes cannot be produced by the tests' mocks, which never fail midway.",
 ["src/cache/cache.go"],[("temporary file plus rename","CacheToFile")],["state of the file system after the fault"])
p("C14","After a successful store the cache is within its size limit",
 "Storing a file evicts old entries only if necessary, picking the least recently used or the largest entry as configured, never files in the temporary directory, until the total size including the new file is below the limit or nothing is left to evict. With eviction disabled nothing is deleted.",
 ["inputs","histories","configurations"],"every set of cached file sizes, access ages, new file size, pre-existing entry and limit",
 "The accounting depends on relative sizes of old, new and evicted files; tests use a few numbers and mocked sizes.",
 ["src/cache/cache.go","src/util/files.go"],[("eviction loop","deleteFilesFromCacheIfNeeded, deleteLargestFileFromCache, deleteLruFileFromCache"),("victim search","OsFilesystem.FindLargestFile, FindLruFile, DirSizeInBytes")],["files left in the cache"])
p("C15","Outdated cache entries are never served, fresh ones always are",
 "Looking up a cache entry returns it exactly if it exists and is not older than the configured maximum age; an outdated entry is removed so that it is fetched anew. A lookup of a fresh entry under the least-recently-used strategy marks it as just used and never changes its content.",
 ["inputs","configurations","fault_sequences"],"every entry age, maximum age and eviction strategy, and every failing file-system call",
 "Ages around the limit, unit conversions and failing calls are not reachable with fixed test files.",
 ["src/cache/cache.go"],[("age check","GetFile, isOutdated")],["returned path and existence flag"])
p("C16","Only complete successful responses are cached, and throttled requests are repeated unchanged",
 "A download is answered from the cache without any request if a fresh entry exists, otherwise exactly the response body of a successful request is stored. Any response with another status, an API error marker or a transport failure yields an error and leaves the cache untouched, and a response asking to slow down leads to waiting the requested time and sending the identical request again, including its body. Every request names its sender as configured.",
 ["fault_sequences","inputs"],"every sequence of responses (status, headers, bodies, transport errors) and every cache state",
 "Retry sequences and error statuses multiply; tests use one response each.",
 ["src/http/http.go"],[("retry loop","doRequest"),("cache gate","DownloadAndCache")],["requests sent","cache content"])
p("C17","Any API response is handled, and image sources are tried in their configured order",
 "Whatever JSON an API answers, the page, image, template and formula downloads return a result or an error and never crash. Image sources are tried in the configured order until the first success, an error is reported exactly if all fail, and names and formulas are escaped so that they are transferred unchanged.",
 ["inputs","fault_sequences","configurations"],"every decoded API response, every set of failing sources, every page, image and template name",
 "API responses with missing or odd fields do not occur in tests.",
 ["src/wikipedia/wikipedia.go"],[("source loop","downloadImageUsingAllSources"),("API access","DownloadArticle, downloadImage, EvaluateTemplate, RenderMath")],["requested URLs, results and errors"])
p("C18","Every setting takes the value of the most specific source that sets it",
 "For every setting, the effective value is the one from the command line if given there, else from the project file, else from the configuration file, else the default. Setting one option never changes another one.",
 ["configurations"],"every setting, every combination of sources setting it, and every value",
 "About forty settings are merged by hand-written per-field code; a single wrong or missing line only shows for that field and source combination.",
 ["src/config/config.go","src/config/project.go","src/main.go"],[("field-wise merge","MergeIntoCurrentConfig"),("layering","initialize, LoadConfig")],["config.Current after merging"])
p("C19","Invalid configurations are rejected, valid ones accepted, and paths resolved consistently",
 "A configuration is rejected before any work starts exactly if one of its constrained settings is outside its documented range, such as unknown output types or drivers, unusable combinations, or strategies. Relative paths in a configuration file (also of the e-book converter, unless it is only a name) are resolved against that file's folder and absolute paths are kept.",
 ["configurations"],"every value of every constrained setting, every relative or absolute path",
 "Each rule has several branches and combinations; tests take a few.",
 ["src/config/config.go"],[("validation","AssertValidity, VerifyOutputAndDriver"),("path resolution","makePathsAbsolute")],["validation errors","resolved paths"])
p("C20","Every article of a project ends up exactly once and in order in the book, for any schedule",
 "Whatever the number of workers and however they are scheduled, generating a book processes every article of the project and terminates, and the pages are handed to the e-book generation in project order, each exactly once per occurrence. The same holds for the statistics output. An image or formula that several articles need at the same time is processed exactly once, never by two commands at the same time. If an article or something it needs cannot be obtained, the run ends with an error and no book without that article is generated.",
 ["schedules","inputs"],"every interleaving of the worker threads, every worker count, any article list including repeated titles",
 "Scheduling is not controlled by tests; the assembly function is not covered by unit tests at all.",
 ["src/main.go","src/wikipedia/wikipedia.go"],[("worker pool and result slots","generateBookFromArticles"),("images needed by several articles","DownloadImages, RenderMath")],["files passed to the output driver","images in the cache"])
p("C21","Statistics count exactly what an article contains and add up in the summary",
 "The statistics of an article count each word (run of letters and digits of any script), character (whatever its number of bytes), link, image, table, list entry, reference and formula of the article exactly once at whatever nesting depth, and the summary's totals are the sums over all articles. Output depends only on the articles, not on iteration order.",
 ["inputs","schedules"],"every article structure and every set of per-article statistics, for any map iteration order",
 "Nested elements and iteration orders are not covered by the example articles.",
 ["src/generator/stats.go"],[("counting expansion handler","StatsGenerator"),("combination","GenerateCombinedStats")],["stats JSON and text"])
p("C22","External commands receive exactly the configured arguments",
 "A configured command line is executed with exactly its whitespace separated arguments in which the input and output placeholders are replaced by the file paths, each path staying one single argument whatever characters it contains. The e-book converter gets the settings and all page files in order, and a failing command is reported as an error.",
 ["inputs","configurations","fault_sequences"],"every path and every command template",
 "Paths contain the cache folder chosen by the user; tests use simple names.",
 ["src/image/image.go","src/util/cmd.go","src/generator/epub.go","src/wikipedia/wikipedia.go"],[("template substitution","ResizeAndCompressImage, ConvertToPng"),("process start","ExecuteCommandWithArgs, Execute"),("pandoc arguments","GenerateEpubWithPandoc")],["argument vector of started processes"])
p("C23","Relative SVG sizes are replaced by view-box sizes, everything else is untouched",
 "An SVG file whose width and height are relative gets the absolute size given by its view box and keeps every other byte; files with absolute sizes are left unchanged. Files that cannot be interpreted yield an error instead of a damaged file.",
 ["inputs"],"every root element with arbitrary width, height, view-box and style attributes",
 "Attribute order, missing attributes and percent signs combine; tests use a few files.",
 ["src/image/svg.go"],[("attribute replacement","MakeSvgSizeAbsolute, replaceRelativeSizeByViewboxSize")],["rewritten file"])
p("C24","HTML output is balanced and carries the article text in order",
 "For every article tree the generated HTML contains the tags of every element properly nested and closed, and all text pieces of the tree appear exactly once and in order. Elements map to their documented HTML counterpart, whatever the nesting.",
 ["inputs"],"every tree of tokens up to the bound with arbitrary text",
 "Trees nest arbitrarily; tests expand single tokens.",
 ["src/generator/html.go","src/generator/expand.go"],[("recursive expansion","HtmlGenerator, expandToken")],["HTML"])
p("C25","The image path written into a page is the path the image is stored at",
 "For every image name and conversion setting, decoding the image path written into the page yields exactly the path, relative to the cache, at which the downloaded and possibly converted image file is stored.",
 ["inputs","configurations"],"every image file name and every combination of conversion settings",
 "The path is computed independently by page generation and by the downloader; no test connects the two.",
 ["src/generator/html.go","src/wikipedia/wikipedia.go","src/util/files.go","src/cache/cache.go"],[("reference side","filenameToImagePath, escapePathComponents"),("storage side","downloadImage, postProcessImage")],["src attribute vs. stored path"])
p("C26","Links keep their target and their visible text",
 "Every internal link shows its display text, or its target (without leading colon and namespace) if there is none, and every external link with a text keeps its address, which ends where formatting, a quote or an element starts, and shows its text. Text around links, bracketed text that is no link, bare bracketed addresses and brackets that are never closed stay unchanged.",
 ["inputs"],"every link with arbitrary target, separators, display text and nested formatting",
 "Separators, nested brackets and empty parts interact; tests use a few links.",
 ["src/parser/link.go","src/generator/html.go"],[("link parsing","parseLink, parseInternalLinks, parseExternalLinks")],["link tokens and HTML"])
p("C27","Another run reuses what is there, fetches what is missing and gives the same book",
 "Running the tool again on the same inputs downloads nothing again and yields the same pages and images. If any part of the cache was removed in between, exactly the missing parts are downloaded and created again, once each, and the book is the same; if the cache is outdated, everything is renewed. Regenerating pages can be forced without downloads. An attempt in which a request or a command failed spoils no later attempt.",
 ["histories","fault_sequences","inputs"],"every article over text, images, templates, formulas, references, galleries and tables, every converter setting, every removed file or folder and every age of the cache between two runs, every failing request and failing command of the first run",
 "Tests run each function once on a fresh cache; reuse needs two runs whose results are compared.",
 ["src/main.go","src/http/http.go","src/cache/cache.go","src/wikipedia/wikipedia.go","src/image/image.go"],
 [("reuse of pages","processArticle, generateStandaloneEbook"),("reuse of downloads","DownloadAndCache, GetFile"),("reuse of converted images","postProcessImage, RenderMath")],["requests and commands of the second run","pages and images of the second book"])
p("C28","The content of nowiki and math tags is kept verbatim",
 "Wherever a nowiki area stands on a page (text, list, heading, table, caption, link text, reference, bold text, result of a template), its content appears in the book exactly as it is written: nothing within it is removed, evaluated, trimmed or treated as markup. The content of a math tag is handed to the renderer of formulas exactly as it is written. Everything outside of these areas is treated as if the area contained plain text; areas within comments are removed with them, areas within template calls are left to the template evaluation, and a tag that is never closed is normal text.",
 ["inputs"],"every content of nowiki and math tags, every place of them on a page, every sequence of such areas with comments, templates, links and text",
 "Every clean-up and parsing step runs over the whole page and can reach into such areas; tests contain plain words in the tags.",
 ["src/parser/nowiki.go","src/parser/math.go","src/parser/tokenizer.go","src/parser/cleaner.go","src/generator/html.go"],
 [("areas become tokens before anything else","src/parser/nowiki.go tokenizeVerbatimContent/parseNowiki, src/parser/math.go parseMath"),("output","src/generator/html.go expandNowiki, expandMath")],["generated HTML","formulas given to RenderMath","templates evaluated"])
p("C29","Blank lines, and only blank lines, separate paragraphs",
 "Two neighbouring lines of text of a page, table cell or reference are separated by exactly one paragraph break if there is at least one blank line between them (also one a template or comment leaves), however many there are, and by none otherwise. There is no paragraph break at the beginning or end or next to a line that consists of a single element (such as a table, list, heading, image or link), and no line of text is lost, repeated or moved.",
 ["inputs"],"every sequence of blank lines, text lines, lines consisting of a single element, comments and templates, as page, table cell or reference",
 "Which blank lines count depends on the lines before and after them and on repeated passes over the text; tests have a few sequences.",
 ["src/parser/formatting.go","src/parser/tokenizer.go","src/generator/html.go"],
 [("paragraph markers","src/parser/formatting.go parseParagraphs"),("marker expansion","src/generator/html.go expandMarker")],["generated HTML"])
p("C30","A run writes its output where it was asked to and touches no other file",
 "A successful run creates or replaces exactly one file outside of the cache folder: the output file at the place given on the command line (relative to the working directory) or in the project (relative to the project file), in the given folder under the default name of the output type if the place is a folder, or under the default name if no place is given; missing folders on the way are created. All other files and folders outside of the cache are the same before and after the run, files of the cache the run does not need are kept, and no temporary file, neither of this nor of an earlier run, is left.",
 ["inputs","histories"],"every mode (project, article, standalone), output type, place of the output (absent, file, existing file, folder, missing folders, absolute path, default name elsewhere) given on either side, project in another folder, with and without existing files of the default names, with and without image processing, left-over temporary files",
 "The run changes its working directory, clears folders and derives the output path from several places; the unit tests do not execute it and the integration tests use one invocation each.",
 ["src/main.go","src/config/config.go","src/util/file.go","src/cache/cache.go","src/generator/epub.go","src/generator/stats.go"],
 [("output path and cleaning of temporary files","src/main.go ensurePathsAndClearTempDir, generateProjectEbook"),("writing the output","GenerateEpub, GenerateCombinedStats")],["all files of the working directory before and after the run","output argument of the e-book generation"])
p("C31","Every word of a page is shown exactly once and in its order, however markup is nested",
 "However the constructs of a page are nested in and follow one another (bold and italic text, links, references, nowiki areas, templates, lists, tables, headings, images with captions, galleries, HTML tags), each of its visible words appears in the HTML exactly once, in the order of the page, words of references at the place of their list, those of a table's caption below the table; words of comments, formulas and category links do not appear.",
 ["inputs"],"every page of nested and consecutive constructs with arbitrary words",
 "Each construct is parsed by its own code which replaces parts of the page, in several passes; losses come from the interaction of constructs, of which tests contain only some combinations.",
 ["src/parser/tokenizer.go","src/parser/cleaner.go","src/parser/list.go","src/parser/table.go","src/parser/link.go","src/parser/image.go","src/parser/reference.go","src/parser/heading.go","src/parser/formatting.go","src/parser/template.go","src/generator/html.go","src/generator/expand.go"],
 [("passes over the page","src/parser/tokenizer.go tokenizeContent"),("expansion","src/generator/expand.go, html.go")],["words of the generated HTML"])
p("C32","The internal output driver writes complete e-books",
 "A book written with the internal output driver contains exactly the pages of the articles, in order and with their titles as entries of the table of contents, every image its pages show, the metadata of the project, and the cover, style and fonts that are configured, all of which are optional. No page of the book refers to an image outside of it.",
 ["inputs","configurations"],"every list of articles, every special character in titles and image names, every combination of optional files, every mode",
 "No test runs the internal driver at all.",
 ["src/generator/epub.go"],[("assembly of the e-book","GenerateEpubWithGoLibrary")],["content of the written e-book"])
p("C33","Workers never access shared data at the same time",
 "While several workers process the articles of a book, every two accesses to the same variable, field, element or map of the program from different goroutines, of which at least one writes, are ordered by synchronisation (locks, channels, wait groups), whatever the articles contain, whether they are already cached, and whichever output, converters and cache settings are configured.",
 ["inputs","schedules"],"every combination of contents of articles processed at the same time, output types, math converters, eviction strategies and cached or new articles, every schedule of the workers",
 "A race shows in rare schedules only; the tests don't process articles in parallel and don't run with the race detector.",
 ["src/main.go","src/wikipedia/wikipedia.go","src/http/http.go","src/cache/cache.go","src/image/image.go","src/parser/tokenizer.go","src/generator/html.go"],
 [("workers","src/main.go generateBookFromArticles"),("shared service and its locks","src/wikipedia/wikipedia.go lockFile"),("cache","src/cache/cache.go cacheWriteMutex")],["accesses to memory and synchronisation operations of all goroutines"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
