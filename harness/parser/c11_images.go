package parser

import (
	"fmt"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/verifrt"
)

type verifShown struct {
	article *Article
	names   []string // of all images, in the order of the page
}

// text writes a part of the page with all images spelled out; other elements only with the text they contain.
func (v *verifShown) text(s string) string {
	out := ""
	for {
		i := strings.Index(s, "$$TOKEN_")
		if i < 0 {
			return out + s
		}
		e := i + 2 + strings.Index(s[i+2:], "$$") + 2
		out += s[:i]
		switch t := v.article.TokenMap[s[i:e]].(type) {
		case ImageToken:
			v.names = append(v.names, t.Filename)
			out += "<img " + t.Filename + " " + strconv.Itoa(t.SizeX) + " " + strconv.Itoa(t.SizeY) + ">" + strings.TrimSpace(v.text(t.Caption.Content)) + "</img>"
		case NowikiToken:
			out += t.Content
		case InlineImageToken:
			v.names = append(v.names, t.Filename)
			out += "<inline " + t.Filename + " " + strconv.Itoa(t.SizeX) + " " + strconv.Itoa(t.SizeY) + ">"
		case InternalLinkToken:
			out += "<int " + t.ArticleName + ">" + v.text(t.LinkText) + "</int>"
		case ExternalLinkToken:
			out += "<ext " + t.URL + ">" + v.text(t.LinkText) + "</ext>"
		case HeadingToken:
			out += "<h>" + v.text(t.Content) + "</h>"
		case UnorderedListToken:
			for _, item := range t.Items {
				out += "<li>" + strings.TrimSpace(v.text(item.Content)) + "</li>"
			}
		case TableToken:
			for _, row := range t.Rows {
				for _, col := range row.Columns {
					out += "<td>" + strings.TrimSpace(v.text(col.Content)) + "</td>"
				}
			}
			out += v.text(t.Caption.Content)
		default:
			verifrt.Assert(false, fmt.Sprintf("no other element expected: %T", t))
		}
		s = s[e:]
	}
}

// verifImagePage checks the page, and that exactly the images shown are going to be downloaded.
func verifImagePage(src, want string) {
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	v := &verifShown{article: article}
	got := v.text(article.Content)
	verifrt.Observe("page", got)
	verifrt.Assert(got == want, "every image is shown with its name, size and caption, everything else is unchanged")
	for _, name := range v.names {
		found := false
		for _, image := range article.Images {
			found = verifrt.Or(found, strings.SplitN(image, ":", 2)[1] == name)
		}
		verifrt.Assert(found, "every shown image is requested for download")
	}
	for _, image := range article.Images {
		found := false
		for _, name := range v.names {
			found = verifrt.Or(found, strings.SplitN(image, ":", 2)[1] == name)
		}
		verifrt.Assert(found, "only shown images are requested for download")
	}
	verifrt.Reach("images")
}

// verifImageName is the name of the file as it is known to the wiki, "" if it is not shown.
func verifImageName(name string) string {
	name = strings.Trim(name, " ")
	if name == "" {
		return ""
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 && verifIn(name[i+1:], "g", "G") {
		return ""
	}
	out := ""
	for i := 0; i < len(name); {
		switch {
		case name[i] == ' ':
			out += "_"
			i++
		case strings.HasPrefix(name[i:], "%20"):
			out += "_"
			i += 3
		default:
			out += name[i : i+1]
			i++
		}
	}
	for _, letter := range []string{"äÄ", "éÉ", "жЖ"} {
		if strings.HasPrefix(out, letter[:2]) {
			return letter[2:] + out[2:]
		}
	}
	if out[0] >= 'a' && out[0] <= 'z' {
		out = string([]byte{out[0] - 'a' + 'A'}) + out[1:]
	}
	return out
}

func verifImageConfig() {
	verifConfig()
	config.Current.FilePrefixes = []string{"f", "file", "bild"}
	config.Current.IgnoredImageParams = []string{"alt", "left", "up"}
}

// VerifImageNames: any name of up to n characters with any spelling of the prefix at any place of a page.
func VerifImageNames() {
	verifImageConfig()
	prefix := []string{"f", "F", "file", "File", "FILE", "biLd"}[verifrt.Choice("prefix", 6)]
	name := verifrt.StrMax("name", 1, verifrt.Param("n", 4), "ag *._%20Z-\"")
	mini := verifrt.Bool("mini")
	src, want := "[["+prefix+":"+name, ""
	if mini {
		src += "|mini"
	}
	src += "]]"
	if shown := verifImageName(name); shown != "" {
		want = "<inline " + shown + " -1 -1>"
		if mini {
			want = "<img " + shown + " -1 -1></img>"
		}
	}
	switch verifrt.Choice("place", 6) {
	case 0:
		src, want = "x "+src+" y", "x "+want+" y"
	case 1:
		src, want = "* x "+src+" y", "<li>x "+want+" y</li>"
	case 2:
		src, want = "== x "+src+" y ==\nz", "<h>x "+want+" y</h>\nz"
	case 3:
		src, want = "{|\n| x "+src+" y\n|}", "<td>x "+want+" y</td>"
	case 4:
		src, want = "[[file:q.j|mini|x "+src+" y]]", "<img Q.j -1 -1>x "+want+" y</img>"
	case 5:
		src, want = src+" y [[file:q.j]] z", want+" y <inline Q.j -1 -1> z"
		if want[0] == ' ' {
			want = "\x00" // leading blanks are a matter of the clean-up
			verifrt.Assume(false)
		}
	}
	verifImagePage(src, want)
}

// VerifImageNamePieces: any name of up to k pieces.
func VerifImageNamePieces() {
	verifImageConfig()
	words := []string{"%20", " ", "_", "ä", "é", "ж", "漢", "file", "%2", "20", ",", "(", ")", "&", "=", "px", "left", "A", "b.j", "", "'"}
	name := ""
	for range verifrt.Int("pieces", 1, verifrt.Param("k", 3)) {
		w := words[verifrt.Choice("piece", len(words))]
		if w == "" {
			w = verifrt.Str("byte", 1, "aZ0-+~!@$.% \"")
		}
		name += w
	}
	verifrt.Assume(!strings.Contains(name, "''"))
	want := ""
	if shown := verifImageName(name); shown != "" {
		want = "<inline " + shown + " -1 -1>"
	}
	verifImagePage("x [[bild:"+name+"]] y", "x "+want+" y")
}

// VerifImageSizes: any width and height.
func VerifImageSizes() {
	verifImageConfig()
	digits := "0123456789"
	w, h := verifrt.StrMax("w", 0, 4, digits), verifrt.StrMax("h", 0, 4, digits)
	size, x, y := w+"px", -1, -1
	if w != "" {
		x = verifNumber(w)
	}
	if h != "" {
		size = w + "x" + h + "px"
		y = verifNumber(h)
	} else {
		verifrt.Assume(w != "")
	}
	mini := verifrt.Bool("mini")
	kind := "img"
	src := "a [[f:a.j|" + size + "|b]] c"
	if mini {
		src = "a [[f:a.j|" + size + "|mini|b]] c"
	} else if x < 100 && y < 50 {
		kind = "inline"
	}
	t := verifTokenizer(nil)
	article, err := t.Tokenize(src, "t")
	verifrt.Assert(err == nil, "no error")
	found := false
	for _, token := range article.TokenMap {
		switch t := token.(type) {
		case ImageToken:
			verifrt.Assert(kind == "img" && t.SizeX == x && t.SizeY == y, "the size is exactly the given one")
			found = true
		case InlineImageToken:
			verifrt.Assert(kind == "inline" && t.SizeX == x && t.SizeY == y, "the size is exactly the given one")
			found = true
		}
	}
	verifrt.Assert(found, "the image is shown")
	verifrt.Reach("sizes")
}

func verifNumber(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// verifOption is one parameter of an image: its text and what it means.
type verifOption struct {
	text    string
	kind    int // 0: ignored option, 1: mini, 2: size, 3: caption
	x, y    int
	caption string // as shown
}

const verifName = verifAlnum + ".,()!%&\"+_@^~-'" // in file names

func verifAnyOption(name string) verifOption {
	o := verifOption{kind: 3, x: -1, y: -1}
	switch verifrt.Choice(name, 15) {
	case 0:
		o.text, o.kind = "mini", 1
	case 1:
		o.text, o.kind = "thumb", 1
	case 2:
		o.text, o.kind = "left", 0
	case 3:
		o.text, o.kind = "alt="+verifrt.Str(name+".alt", 1, verifPlain+" =-"), 0
	case 4:
		o.text, o.kind = "up 1.3", 0
	case 5:
		o.text, o.kind, o.x = "12px", 2, 12
	case 6:
		o.text, o.kind, o.y = "x34px", 2, 34
	case 7:
		o.text, o.kind, o.x, o.y = "120x50px", 2, 120, 50
	case 8:
		o.text = "leftover " + verifrt.Str(name+".text", 1, verifPlain+"=-")
	case 9:
		o.text = "minimal"
	case 10:
		o.text = "thumb up"
	case 11:
		o.text = "1" + verifrt.Str(name+".text", 1, "aeiou.") + "px"
	case 12:
		o.text, o.caption = "a [[b|c]] d", "a <int b>c</int> d"
	case 14:
		o.text = verifrt.Str(name+".text", 1, "*#:;=") + " x" + verifrt.Str(name+".end", 1, verifPlain+"=")
	case 13:
		o.text = verifrt.StrMax(name+".text", 0, 2, "abcde.,!")
	}
	if o.kind == 3 && o.caption == "" {
		o.caption = o.text
	}
	return o
}

// verifImageWithOptions is an image with up to k parameters, alone or as a line of a gallery.
func verifImageWithOptions(k int, gallery bool) (string, string) {
	src, caption := "", ""
	x, y := -1, -1
	mini, sizes := gallery, 0
	n := verifrt.Choice("options", k+1)
	for i := 0; i < n; i++ {
		o := verifAnyOption("option")
		if verifrt.Choice("blanks", 2) == 1 {
			src += "| " + o.text + " "
		} else {
			src += "|" + o.text
		}
		switch o.kind {
		case 1:
			mini = true
		case 2:
			sizes++
			x, y = o.x, o.y
		case 3:
			caption = o.caption
		}
	}
	verifrt.Assume(sizes <= 1)
	size := " " + strconv.Itoa(x) + " " + strconv.Itoa(y) + ">"
	switch {
	case mini:
		return src, size + caption + "</img>"
	case x >= 100 || y >= 50:
		return src, size + "</img>"
	}
	return src, size
}

// VerifImageOptions: any up to k parameters in any order.
func VerifImageOptions() {
	verifImageConfig()
	src, want := verifImageWithOptions(verifrt.Param("k", 3), false)
	kind := "<inline"
	if strings.HasSuffix(want, "</img>") {
		kind = "<img"
	}
	verifImagePage("x [[file:a b.j"+src+"]] y", "x "+kind+" A_b.j"+want+" y")
}

// VerifGalleries: galleries of up to the given number of images in any layout, with text around them.
func VerifGalleries() {
	verifImageConfig()
	layout := verifrt.Choice("tag", 3)
	tag := []string{"<gallery>", "<GALLERY>", "<gallery mode=\"p\">"}[layout]
	endTag := []string{"</gallery>", "</Gallery>", "</gallery>"}[layout]
	b := verifrt.Str("before", 1, verifPlain)
	src, want := b+"\n"+tag, b+"\n"
	n := 1 + verifrt.Choice("images", verifrt.Param("images", 2))
	k := verifrt.Param("k", 2)
	if n > 1 {
		k = verifrt.Param("kmore", 0) // options of each image if there is more than one
	}
	for i := 0; i < n; i++ {
		if i > 0 || verifrt.Choice("firstline", 2) == 1 {
			src += "\n"
		}
		src += []string{"", "file:", "Bild:", " f:"}[verifrt.Choice("prefix", 4)]
		name := []string{"Minister.j", "ä 漢.j", "b" + verifrt.Str("name", 1, verifName+" ") + "c.j"}[verifrt.Choice("name", 3)]
		src += name
		shown := strings.ReplaceAll(name, " ", "_")
		shown = strings.ToUpper(shown[:1]) + shown[1:]
		if name == "ä 漢.j" {
			shown = "Ä_漢.j"
		}
		opts, text := verifImageWithOptions(k, true)
		src += opts
		want += "<img " + shown + text + "\n"
	}
	switch verifrt.Choice("end", 3) {
	case 0:
		src, want = src+"\n"+endTag+"\nafter", want+"after"
	case 1:
		src, want = src+"\n"+endTag+"after", want+"after"
	case 2:
		src, want = src+endTag+"\nafter", want+"after"
	}
	verifImagePage(src, want)
}

// VerifImageMaps: image maps in any layout, with text and another image map behind it.
func VerifImageMaps() {
	verifImageConfig()
	src, want := "", ""
	n := 1 + verifrt.Choice("maps", verifrt.Param("maps", 2))
	for i := 0; i < n; i++ {
		b := verifrt.Str("before", 1, verifPlain)
		src, want = src+b+"\n", want+b+"\n"
		layout := verifrt.Choice("tag", 3)
		src += []string{"<imagemap>", "<IMAGEMAP>", "<imagemap name=\"p\">"}[layout]
		endTag := []string{"</imagemap>", "</ImageMap>", "</imagemap>"}[layout]
		if verifrt.Choice("empty", 2) == 1 {
			src += "\n"
		} else {
			if verifrt.Choice("firstline", 2) == 1 {
				src += "\n"
			}
			src += []string{"file:", "Bild:", "F:"}[verifrt.Choice("prefix", 3)]
			c := verifrt.Str("name", 1, verifName)
			src += "b" + c + "c.j"
			options := 0
			if i == 0 {
				options = verifrt.Choice("options", 3)
			}
			src += []string{"", "|30px|alt=x", "|mini|20x10px|q"}[options]
			want += []string{"<inline B" + c + "c.j -1 -1>", "<inline B" + c + "c.j 30 -1>", "<img B" + c + "c.j 20 10>q</img>"}[options] + "\n"
			if verifrt.Choice("areas", 2) == 1 {
				src += "\npoly 1 2 3 [[u|v]]\ndesc none"
			}
			if verifrt.Choice("endline", 2) == 1 {
				src += "\n"
			}
		}
		src += endTag + "\n"
	}
	verifImagePage(src+"after", want+"after")
}

// VerifIgnoredMedia: any media type, ignored or not, with and without conversion commands, in all image constructs.
func VerifIgnoredMedia() {
	verifImageConfig()
	ext := []string{"pdf", "PDF", "svg", "Svg", "ogg", "j", "pdfx"}[verifrt.Choice("ext", 7)]
	ignored := []string{}
	for _, e := range []string{"pdf", "svg", "ogg"} {
		if verifrt.Bool("ignored." + e) {
			ignored = append(ignored, e)
		}
	}
	config.Current.IgnoredMediaTypes = ignored
	if verifrt.Bool("convert.pdf") {
		config.Current.CommandTemplatePdfToPng = "c {INPUT} {OUTPUT}"
	}
	if verifrt.Bool("convert.svg") {
		config.Current.CommandTemplateSvgToPng = "c {INPUT} {OUTPUT}"
	}
	lower := strings.ToLower(ext)
	shown := true
	for _, e := range ignored {
		if e == lower {
			shown = lower == "pdf" && config.Current.CommandTemplatePdfToPng != "" || lower == "svg" && config.Current.CommandTemplateSvgToPng != ""
		}
	}
	file := "f:a" + verifrt.Str("name", 1, verifName) + "." + ext
	name := "A" + file[3:]
	want := ""
	if shown {
		want = "<inline " + name + " -1 -1>"
	}
	switch verifrt.Choice("place", 3) {
	case 0:
		verifImagePage("x [["+file+"]] y", "x "+want+" y")
	case 1:
		verifImagePage("x [[f:q.j|mini|y [["+file+"]] z]]", "x <img Q.j -1 -1>y "+want+" z</img>")
	case 2:
		if shown {
			want = "<img " + name + " -1 -1></img>\n"
		}
		verifImagePage("<gallery>\nf:q.j\n"+file+"\nf:r.j\n</gallery>", "<img Q.j -1 -1></img>\n"+want+"<img R.j -1 -1></img>")
	}
}

// VerifImagesMany: pages and galleries with many images.
func VerifImagesMany() {
	verifImageConfig()
	verifrt.StepLimit(100000000)
	n := []int{3, 12, verifrt.Param("many", 40)}[verifrt.Choice("images", 3)]
	b := verifrt.Str("name", 1, verifName)
	kind := verifrt.Choice("kind", 4)
	similar := verifrt.Choice("similar", 4)
	src, want := "", ""
	if kind == 1 {
		src = "<gallery>\n"
	}
	for i := 0; i < n; i++ {
		name := "X" + b + strconv.Itoa(i/2) + ".j" // every image twice
		switch {
		case similar == 1 && i%2 == 0, similar == 2 && i%2 == 1:
			name += ".j" // the name of one image begins or ends like the one of another
		case similar == 3 && i%2 == 1:
			name = "X." + name
		}
		switch kind {
		case 0:
			src, want = src+"[[file:"+name+"|mini|1"+strconv.Itoa(i)+"px|c]] ", want+"<img "+name+" 1"+strconv.Itoa(i)+" -1>c</img> "
		case 1:
			src, want = src+"file:"+name+"|c\n", want+"<img "+name+" -1 -1>c</img>\n"
		case 2:
			src, want = src+"* [[file:"+name+"|1px]]\n", want+"<li><inline "+name+" 1 -1></li>"
		case 3:
			src, want = src+"<imagemap>file:"+name+"\n</imagemap>\n", want+"<inline "+name+" -1 -1>\n"
		}
	}
	if kind == 1 {
		src += "</gallery>\n"
	}
	if kind == 2 {
		want += "\n"
	}
	verifImagePage(src+"z", want+"z")
}
