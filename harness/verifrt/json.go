package verifrt

// JSON for the symbolic world. Texts are parsed and rendered here (symbolically executed); the
// engine maps trees to Go values and back (jsonAssign, jsonTree), following encoding/json.

import (
	"encoding/xml"
	"errors"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	jNull = iota
	jBool
	jNum
	jStr
	jList
	jObj
	jInt
)

type jnode struct {
	kind int
	str  string // string, number literal, "true"
	num  int
	list []*jnode
	keys []string
}

type jparser struct {
	s   string
	pos int
	dep int
}

var errJSON = errors.New("invalid character in JSON")

func (p *jparser) ws() {
	for p.pos < len(p.s) {
		c := p.s[p.pos]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.pos++
	}
}

func (p *jparser) peek() (byte, error) {
	p.ws()
	if p.pos >= len(p.s) {
		return 0, errors.New("unexpected end of JSON input")
	}
	return p.s[p.pos], nil
}

func (p *jparser) lit(l string, n *jnode) (*jnode, error) {
	if strings.HasPrefix(p.s[p.pos:], l) {
		p.pos += len(l)
		return n, nil
	}
	return nil, errJSON
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func (p *jparser) number() (*jnode, error) {
	st := p.pos
	at := func() byte {
		if p.pos < len(p.s) {
			return p.s[p.pos]
		}
		return 0
	}
	if at() == '-' {
		p.pos++
	}
	if at() == '0' {
		p.pos++
	} else if isDigit(at()) {
		for isDigit(at()) {
			p.pos++
		}
	} else {
		return nil, errJSON
	}
	if at() == '.' {
		p.pos++
		if !isDigit(at()) {
			return nil, errJSON
		}
		for isDigit(at()) {
			p.pos++
		}
	}
	if at() == 'e' || at() == 'E' {
		p.pos++
		if at() == '+' || at() == '-' {
			p.pos++
		}
		if !isDigit(at()) {
			return nil, errJSON
		}
		for isDigit(at()) {
			p.pos++
		}
	}
	return &jnode{kind: jNum, str: p.s[st:p.pos]}, nil
}

func hex4(s string) (rune, bool) {
	if len(s) < 4 {
		return 0, false
	}
	var r rune
	for i := 0; i < 4; i++ {
		c := s[i]
		switch {
		case isDigit(c):
			r = r*16 + rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r*16 + rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r*16 + rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	return r, true
}

func (p *jparser) str() (string, error) {
	p.pos++
	out := ""
	for {
		if p.pos >= len(p.s) {
			return "", errors.New("unexpected end of JSON input")
		}
		c := p.s[p.pos]
		switch {
		case c == '"':
			p.pos++
			return out, nil
		case c < 0x20:
			return "", errJSON
		case c == '\\':
			if p.pos+1 >= len(p.s) {
				return "", errors.New("unexpected end of JSON input")
			}
			e := p.s[p.pos+1]
			p.pos += 2
			switch e {
			case '"', '\\', '/':
				out += string([]byte{e})
			case 'b':
				out += "\b"
			case 'f':
				out += "\f"
			case 'n':
				out += "\n"
			case 'r':
				out += "\r"
			case 't':
				out += "\t"
			case 'u':
				r, ok := hex4(p.s[p.pos:])
				if !ok {
					return "", errJSON
				}
				p.pos += 4
				if r >= 0xd800 && r < 0xe000 {
					ok2 := false
					if r < 0xdc00 && strings.HasPrefix(p.s[p.pos:], "\\u") {
						lo, ok := hex4(p.s[p.pos+2:])
						if ok && lo >= 0xdc00 && lo < 0xe000 {
							r = (r-0xd800)<<10 | (lo - 0xdc00) + 0x10000
							p.pos += 6
							ok2 = true
						}
					}
					if !ok2 {
						r = 0xfffd
					}
				}
				out += string(r)
			default:
				return "", errJSON
			}
		case c < 0x80:
			out += p.s[p.pos : p.pos+1]
			p.pos++
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.pos:])
			out += string(r)
			p.pos += n
		}
	}
}

func (p *jparser) value() (*jnode, error) {
	c, err := p.peek()
	if err != nil {
		return nil, err
	}
	switch c {
	case 'n':
		return p.lit("null", &jnode{kind: jNull})
	case 't':
		return p.lit("true", &jnode{kind: jBool, str: "true"})
	case 'f':
		return p.lit("false", &jnode{kind: jBool, str: "false"})
	case '"':
		s, err := p.str()
		return &jnode{kind: jStr, str: s}, err
	case '[':
		p.pos++
		n := &jnode{kind: jList}
		c, err := p.peek()
		if err != nil {
			return nil, err
		}
		if c == ']' {
			p.pos++
			return n, nil
		}
		for {
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			n.list = append(n.list, v)
			c, err := p.peek()
			if err != nil {
				return nil, err
			}
			p.pos++
			if c == ']' {
				return n, nil
			}
			if c != ',' {
				return nil, errJSON
			}
		}
	case '{':
		p.pos++
		n := &jnode{kind: jObj}
		c, err := p.peek()
		if err != nil {
			return nil, err
		}
		if c == '}' {
			p.pos++
			return n, nil
		}
		for {
			c, err := p.peek()
			if err != nil {
				return nil, err
			}
			if c != '"' {
				return nil, errJSON
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			c, err = p.peek()
			if err != nil {
				return nil, err
			}
			if c != ':' {
				return nil, errJSON
			}
			p.pos++
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k)
			n.list = append(n.list, v)
			c, err = p.peek()
			if err != nil {
				return nil, err
			}
			p.pos++
			if c == '}' {
				return n, nil
			}
			if c != ',' {
				return nil, errJSON
			}
		}
	}
	return p.number()
}

func jsonParse(s string) (*jnode, error) {
	p := &jparser{s: s}
	n, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.pos != len(p.s) {
		return nil, errors.New("invalid character after top-level value")
	}
	return n, nil
}

// implemented by the engine
func jsonAssign(v any, n *jnode) string { panic("engine") }

// jsonUnknown is the first key of n that v has no field for.
func jsonUnknown(v any, n *jnode) string { panic("engine") }
func jsonTree(v any) *jnode              { panic("engine") }
func xmlSet(v any, name []string, value []string) {
	panic("engine")
}

func jsonUnmarshal(data []byte, v any) error {
	n, err := jsonParse(string(data))
	if err != nil {
		return err
	}
	if msg := jsonAssign(v, n); msg != "" {
		return errors.New(msg)
	}
	return nil
}

func jsonQuote(s string) string {
	const hex = "0123456789abcdef"
	out := "\""
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				out += "\\" + s[i:i+1]
			case c == '\n':
				out += "\\n"
			case c == '\r':
				out += "\\r"
			case c == '\t':
				out += "\\t"
			case c == '\b':
				out += "\\b"
			case c == '\f':
				out += "\\f"
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				out += "\\u00" + string([]byte{hex[c>>4], hex[c&15]})
			default:
				out += s[i : i+1]
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			out += "\ufffd"
		case r == 0x2028:
			out += "\\u2028"
		case r == 0x2029:
			out += "\\u2029"
		default:
			out += s[i : i+n]
		}
		i += n
	}
	return out + "\""
}

func jsonRender(n *jnode, ind bool, nl, step string) string {
	switch n.kind {
	case jNull:
		return "null"
	case jBool, jNum:
		return n.str
	case jInt:
		return strconv.Itoa(n.num)
	case jStr:
		return jsonQuote(n.str)
	}
	open, cl := "[", "]"
	if n.kind == jObj {
		open, cl = "{", "}"
	}
	if len(n.list) == 0 {
		return open + cl
	}
	out := open
	for i, e := range n.list {
		if i > 0 {
			out += ","
		}
		if ind {
			out += nl + step
		}
		if n.kind == jObj {
			out += jsonQuote(n.keys[i]) + ":"
			if ind {
				out += " "
			}
		}
		out += jsonRender(e, ind, nl+step, step)
	}
	if ind {
		out += nl
	}
	return out + cl
}

// jsonSort brings the keys of maps (marked by num) into order.
func jsonSort(n *jnode) {
	if n.kind == jObj && n.num == 1 {
		for i := 1; i < len(n.keys); i++ {
			for j := i; j > 0 && n.keys[j] < n.keys[j-1]; j-- {
				n.keys[j], n.keys[j-1] = n.keys[j-1], n.keys[j]
				n.list[j], n.list[j-1] = n.list[j-1], n.list[j]
			}
		}
	}
	for _, e := range n.list {
		jsonSort(e)
	}
}

func jsonMarshal(v any) ([]byte, error) {
	n := jsonTree(v)
	jsonSort(n)
	return []byte(jsonRender(n, false, "", "")), nil
}

func jsonMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	n := jsonTree(v)
	jsonSort(n)
	return []byte(jsonRender(n, true, "\n"+prefix, indent)), nil
}

// xmlDecode is (*xml.Decoder).Decode for structures that only have attribute fields.
func xmlDecode(d *xml.Decoder, v any) error {
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		if st, ok := tok.(xml.StartElement); ok {
			var names, values []string
			for _, a := range st.Attr {
				names = append(names, a.Name.Local)
				values = append(values, a.Value)
			}
			xmlSet(v, names, values)
			break
		}
	}
	depth := 1
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return nil
			}
		}
	}
}
