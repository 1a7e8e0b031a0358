package verifrt

import (
	"archive/zip"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/go-shiori/go-epub"
)

// Book is the content of an e-book.
type Book struct {
	Title, Author, Language string
	Cover                   string // name of the image
	Pages                   []BookPage
	Files                   map[string]string // content of all styles, fonts and images, like "images/a.png"
}

// BookPage is a page of an e-book with its entry in the table of contents and the name of its style.
type BookPage struct {
	Title, Style, Body string
}

// OpenBook reads an e-book written by the e-book library.
func OpenBook(name string) (*Book, error) {
	z, err := zip.OpenReader(name)
	if err != nil {
		return nil, err
	}
	defer z.Close()
	b := &Book{Files: map[string]string{}}
	all := map[string]string{}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		data, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		n := strings.TrimPrefix(f.Name, "EPUB/")
		all[n] = string(data)
		for _, d := range []string{"css/", "fonts/", "images/"} {
			if strings.HasPrefix(n, d) {
				b.Files[n] = string(data)
			}
		}
	}
	var p struct {
		Title    string `xml:"metadata>title"`
		Author   string `xml:"metadata>creator"`
		Language string `xml:"metadata>language"`
		Items    []struct {
			ID         string `xml:"id,attr"`
			Href       string `xml:"href,attr"`
			Properties string `xml:"properties,attr"`
		} `xml:"manifest>item"`
		Refs []struct {
			ID string `xml:"idref,attr"`
		} `xml:"spine>itemref"`
	}
	if err := xml.Unmarshal([]byte(all["package.opf"]), &p); err != nil {
		return nil, err
	}
	b.Title, b.Author, b.Language = p.Title, p.Author, p.Language
	hrefs := map[string]string{}
	for _, i := range p.Items {
		hrefs[i.ID] = i.Href
		if i.Properties == "cover-image" {
			b.Cover = path.Base(i.Href)
		}
	}
	var nav struct {
		Links []struct {
			Href string `xml:"href,attr"`
			Text string `xml:",chardata"`
		} `xml:"body>nav>ol>li>a"`
	}
	if err := xml.Unmarshal([]byte(all["nav.xhtml"]), &nav); err != nil {
		return nil, err
	}
	titles := map[string]string{}
	for _, l := range nav.Links {
		titles[l.Href] = l.Text
	}
	for _, r := range p.Refs {
		h := hrefs[r.ID]
		if path.Base(h) == "cover.xhtml" {
			continue
		}
		text := all[h]
		i, j := strings.Index(text, "<body dir=\"auto\">\n"), strings.LastIndex(text, "\n</body>")
		if i < 0 || j < 0 {
			return nil, errors.New("page " + h + " without content")
		}
		page := BookPage{Title: titles[h], Body: text[i+len("<body dir=\"auto\">\n") : j]}
		if m := regexp.MustCompile(`<link rel="stylesheet" type="text/css" href="([^"]*)"`).FindStringSubmatch(text[:i]); m != nil {
			page.Style = m[1]
		}
		b.Pages = append(b.Pages, page)
	}
	return b, nil
}

// ---- model of the e-book library ----------------------------------------------------------------

type memEpub struct {
	Book
	media []memMedia
}

type memMedia struct{ name, source string }

func epubOf(e *epub.Epub) *memEpub { return ms().epubs[e] }

func epubNew(title string) (*epub.Epub, error) {
	e := &epub.Epub{}
	ms().epubs[e] = &memEpub{Book: Book{Title: title, Language: "en"}}
	return e, nil
}

func epubSetAuthor(e *epub.Epub, s string)      { epubOf(e).Author = s }
func epubSetLang(e *epub.Epub, s string)        { epubOf(e).Language = s }
func epubSetTitle(e *epub.Epub, s string)       { epubOf(e).Title = s }
func epubSetIdentifier(e *epub.Epub, s string)  {}
func epubSetDescription(e *epub.Epub, s string) {}

func (b *memEpub) has(name string) bool {
	for _, m := range b.media {
		if m.name == name {
			return true
		}
	}
	return false
}

func (b *memEpub) add(dir, format, source, name string) (string, error) {
	if !strings.HasPrefix(source, "data:") {
		if _, err := os.ReadFile(source); err != nil {
			return "", &epub.FileRetrievalError{Source: source, Err: err}
		}
	}
	if name == "" {
		name = filepath.Base(source)
		if len(name) > 255 || name == "." || name == ".." || b.has(dir+"/"+name) {
			n := 1
			for _, m := range b.media {
				if strings.HasPrefix(m.name, dir+"/") {
					n++
				}
			}
			name = fmt.Sprintf(format, n, strings.ToLower(filepath.Ext(source)))
		}
	}
	if b.has(dir + "/" + name) {
		return "", &epub.FilenameAlreadyUsedError{Filename: name}
	}
	b.media = append(b.media, memMedia{dir + "/" + name, source})
	return path.Join("..", dir, name), nil
}

func epubAddImage(e *epub.Epub, source, name string) (string, error) {
	return epubOf(e).add("images", "image%04d%s", source, name)
}

func epubAddCSS(e *epub.Epub, source, name string) (string, error) {
	return epubOf(e).add("css", "css%04d%s", source, name)
}

func epubAddFont(e *epub.Epub, source, name string) (string, error) {
	return epubOf(e).add("fonts", "font%04d%s", source, name)
}

func epubSetCover(e *epub.Epub, image, css string) error {
	b := epubOf(e)
	b.Cover = filepath.Base(image)
	if css == "" {
		b.add("css", "css%04d%s", "data:cover", "cover.css")
	}
	return nil
}

func epubAddSection(e *epub.Epub, body, title, name, css string) (string, error) {
	b := epubOf(e)
	if name == "" {
		name = fmt.Sprintf("section%04d.xhtml", len(b.Pages)+1)
	}
	b.Pages = append(b.Pages, BookPage{title, css, body})
	return name, nil
}

// epubEmbedImages is the loop of the library with its way of replacing.
func epubEmbedImages(e *epub.Epub) {
	b := epubOf(e)
	r := regexp.MustCompile(`<img.*?src="(.*?)".*?>`)
	for i := range b.Pages {
		done := map[string]bool{}
		for _, m := range r.FindAllStringSubmatch(b.Pages[i].Body, -1) {
			tag, source := m[0], m[1]
			if strings.HasPrefix(source, "data:image/") || done[source] {
				continue
			}
			done[source] = true
			file, err := b.add("images", "image%04d%s", source, "")
			if err != nil {
				continue
			}
			b.Pages[i].Body = strings.ReplaceAll(b.Pages[i].Body, tag, strings.ReplaceAll(tag, source, file))
		}
	}
}

func epubWrite(e *epub.Epub, name string) error {
	b := epubOf(e)
	f, err := os.Create(name)
	if err != nil {
		return &epub.UnableToCreateEpubError{Path: name, Err: err}
	}
	f.Close()
	book := b.Book
	book.Files = map[string]string{}
	for _, m := range b.media {
		n := path.Clean(m.name)
		if strings.Count(n, "/") != 1 {
			return errors.New("unable to create file " + n)
		}
		if strings.HasPrefix(m.source, "data:") {
			book.Files[n] = m.source
			continue
		}
		data, err := os.ReadFile(m.source)
		if err != nil {
			return &epub.FileRetrievalError{Source: m.source, Err: err}
		}
		book.Files[n] = string(data)
	}
	s := ms()
	s.books = append(s.books, &book)
	return os.WriteFile(name, []byte(fmt.Sprintf("book %d", len(s.books)-1)), 0o666)
}

func symOpenBook(name string) (*Book, error) {
	data, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	for i, b := range ms().books {
		if string(data) == fmt.Sprintf("book %d", i) {
			return b, nil
		}
	}
	return nil, errors.New("no e-book")
}
