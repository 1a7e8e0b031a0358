package image

import (
	"os"
	"strings"

	"wiki2book/util"
	"wiki2book/verifrt"
)

var verifSizes = []string{"100%", "50.5%", "12", "7px", ""}

type verifBox struct{ text, width, height string }

var verifBoxes = []verifBox{
	{"0 0 123 234", "123", "234"}, {"0,0,123,234", "123", "234"}, {"0, 0, 123, 234", "123", "234"}, {" 0  0\n12.5\t234 ", "12.5", "234"}, {"-1 -2.5 1e2 .25", "1e2", ".25"},
	{"0 0 1", "", ""}, {"0 0 1 2 3", "", ""}, {"", "", ""}, {"-", "", ""},
}

// verifSvg is any SVG file. size gives the value of the width and height attribute to use.
type verifSvg struct {
	prolog, quote, equals, gap, end string
	order                           int
	width, height                   string
	box                             verifBox
	style, extra, content           string
}

var verifOrders = []string{"whb", "bhw", "wbh"}

func (s *verifSvg) text(width, height, quote string) string {
	attribute := func(name, value, q string) string {
		if value == "" {
			return ""
		}
		return s.gap + name + s.equals + q + value + q
	}
	t := s.prolog + "<svg"
	t += s.extra
	for _, c := range verifOrders[s.order] {
		switch c {
		case 'w':
			q := quote
			if width == s.width {
				q = s.quote
			}
			t += attribute("width", width, q)
		case 'h':
			q := quote
			if height == s.height {
				q = s.quote
			}
			t += attribute("height", height, q)
		case 'b':
			if s.box.text != "-" {
				t += s.gap + "viewBox" + s.equals + s.quote + s.box.text + s.quote
			}
		}
	}
	return t + attribute("style", s.style, s.quote) + s.end + s.content
}

// VerifSvgSize: any root element with any attributes.
func VerifSvgSize() {
	s := &verifSvg{}
	variant := verifrt.Choice("variant", 9)
	s.quote, s.equals, s.gap, s.end, s.content = `"`, "=", " ", ">", "</svg>\n"
	switch variant {
	case 1:
		s.quote = "'"
	case 2:
		s.equals = " = "
	case 3:
		s.gap = "\n\t"
	case 4:
		s.end, s.content = "/>", ""
	case 5:
		s.prolog = "<?xml version=\"1.0\"?>\n"
	case 6:
		s.prolog = "<!-- <svg width=\"100%\" height=\"100%\" viewBox=\"0 0 5 6\"> -->\n"
	case 7:
		s.content = `<rect width="100%" height="50.5%"/><symbol viewBox="0 0 7 8"><svg width="100%" height="100%"/></symbol></svg>`
	case 8:
		s.content = "\xc3\xa4&amp;<![CDATA[<svg width=\"100%\">]]></svg>"
	}
	s.order = verifrt.Choice("order", len(verifOrders))
	s.width, s.height = verifSizes[verifrt.Choice("width", len(verifSizes))], verifSizes[verifrt.Choice("height", len(verifSizes))]
	s.box = verifBoxes[verifrt.Choice("view box", len(verifBoxes))]
	s.extra = []string{"", ` data-width="100%" line-height='100%'`, ` stroke-width="50.5%" xmlns="&ns_svg;"`, ` title="a width='100%' height='100%' viewBox='0 0 3 4' > b"`}[verifrt.Choice("more attributes", 4)]
	s.style = verifrt.StrMax("style", 0, verifrt.Param("n", 2), "a:; %>=/'")
	verifrt.Assume(s.quote == `"` || !strings.Contains(s.style, "'"))
	text := s.text(s.width, s.height, s.quote)
	os.WriteFile("a.svg", []byte(text), 0o644)
	util.CurrentFilesystem = &util.OsFilesystem{}
	verifrt.Observe("before", text)

	err := MakeSvgSizeAbsolute("a.svg")

	b, rerr := os.ReadFile("a.svg")
	verifrt.Assert(rerr == nil, "the file still exists")
	now := string(b)
	verifrt.Observe("after", now)
	verifrt.ObserveBool("error", err != nil)
	relative := func(v string) bool { return strings.HasSuffix(v, "%") }
	if relative(s.width) && relative(s.height) && s.box.width != "" {
		verifrt.Assert(err == nil, "the file is changed without error")
		verifrt.Assert(verifrt.Or(now == s.text(s.box.width+"pt", s.box.height+"pt", s.quote), now == s.text(s.box.width+"pt", s.box.height+"pt", `"`)), "exactly the relative sizes are replaced by those of the view box")
		return
	}
	if !relative(s.width) && !relative(s.height) || s.box.width == "" {
		verifrt.Assert(now == text, "other files are unchanged")
		return
	}
	// One absolute and one relative size.
	ok := now == text
	for _, q := range []string{s.quote, `"`} {
		ok = verifrt.Or(ok, now == s.text(verifSize(s.width, s.box.width), verifSize(s.height, s.box.height), q))
		w, h := s.width, s.height
		if relative(w) {
			w = s.box.width + "pt"
		} else {
			h = s.box.height + "pt"
		}
		ok = verifrt.Or(ok, now == s.text(w, h, q))
	}
	verifrt.Assert(ok, "nothing but sizes is replaced")
}

func verifSize(old, box string) string {
	if old == "" {
		return ""
	}
	return box + "pt"
}

// VerifSvgBroken: a file that breaks off anywhere, or that contains a wrong byte anywhere.
func VerifSvgBroken() {
	text := `<?xml version="1.0"?><svg width="100%" height="100%" viewBox="0 0 1 2"><g/></svg>`
	cut := verifrt.Choice("end", len(text))
	text = text[:cut]
	if verifrt.Choice("more", 2) == 1 {
		text += verifrt.StrMax("more", 1, verifrt.Param("n", 1), "")
	}
	util.CurrentFilesystem = &util.OsFilesystem{}
	os.WriteFile("a.svg", []byte(text), 0o644)
	verifrt.Observe("before", text)
	err := MakeSvgSizeAbsolute("a.svg")
	b, rerr := os.ReadFile("a.svg")
	verifrt.Assert(rerr == nil, "the file still exists")
	verifrt.ObserveBool("error", err != nil)
	if err != nil {
		verifrt.Assert(string(b) == text, "a file that can not be interpreted is unchanged")
	} else {
		verifrt.Reach("interpreted")
	}
	verifrt.Assert(MakeSvgSizeAbsolute("missing.svg") != nil, "a missing file is an error")
}

// VerifSvgAttributes: the attributes read from a file are those of the root element.
func VerifSvgAttributes() {
	s := &verifSvg{quote: []string{`"`, "'"}[verifrt.Choice("quote", 2)], equals: "=", gap: " ", end: ">", content: `<rect width="1" height="2" style="x"/></svg>`}
	s.order = verifrt.Choice("order", len(verifOrders))
	n := verifrt.Param("n", 3)
	alphabet := "a1.% :;-"
	s.width, s.height, s.style = verifrt.StrMax("width", 1, n, alphabet), verifrt.StrMax("height", 1, n, alphabet), verifrt.StrMax("style", 1, n, alphabet)
	s.box = verifBoxes[0]
	os.WriteFile("a.svg", []byte(s.text(s.width, s.height, s.quote)), 0o644)
	util.CurrentFilesystem = &util.OsFilesystem{}
	a, err := ReadSimpleAvgAttributes("a.svg")
	verifrt.Assert(err == nil, "the file can be read")
	verifrt.Assert(a.Width == s.width && a.Height == s.height && a.Style == s.style, "the attributes are those of the file")
}
