package parser

import (
	"errors"
	"strconv"
	"strings"

	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

// verifEval is a template service which passes arguments through: {{x}} becomes pre + x + post.
type verifEval struct {
	pre, post string
	calls     []string
	failAt    int
	calledErr bool
}

func (e *verifEval) eval(template, key string) (string, error) {
	ok := strings.HasPrefix(template, "{{") && strings.HasSuffix(template, "}}")
	verifrt.Assert(ok, "the service gets one complete template call")
	verifrt.Assert(!strings.Contains(template[2:], "{{"), "nested calls are evaluated first")
	verifrt.Assert(key == util.Hash(template), "the cache key belongs to the evaluated text")
	e.calls = append(e.calls, template)
	if len(e.calls) == e.failAt {
		e.calledErr = true
		return "", errors.New("service failed")
	}
	return e.pre + template[2:len(template)-2] + e.post, nil
}

// verifTree is any text of up to *pieces letters and template calls (*calls of them, nested at most depth deep).
// It returns the source and its expansion.
func verifTree(e *verifEval, pieces, calls *int, depth int, alphabet string) (string, string) {
	src, want := "", ""
	for *pieces > 0 {
		kinds := 2
		if *calls > 0 && depth > 0 && *pieces > 1 {
			kinds = 3
		}
		switch verifrt.Choice("piece", kinds) {
		case 0:
			return src, want
		case 1:
			*pieces--
			b := verifrt.Str("text", 1, alphabet)
			src += b
			want += b
		case 2:
			*calls--
			*pieces--
			s, w := verifTree(e, pieces, calls, depth-1, alphabet)
			verifrt.Assume(s != "")
			src += "{{" + s + "}}"
			want += e.pre + w + e.post
		}
	}
	return src, want
}

// VerifTemplates: every call is replaced in place by its own result, at any nesting and repetition.
func VerifTemplates() {
	verifConfig()
	e := &verifEval{pre: verifrt.StrMax("pre", 0, 1, "<$x}"), post: verifrt.StrMax("post", 0, 1, ">$x{")}
	pieces, calls := verifrt.Param("pieces", 7), verifrt.Param("calls", 3)
	src, want := verifTree(e, &pieces, &calls, 3, "a| $\n")
	t := verifTokenizer(e.eval)
	got, err := t.evaluateTemplates(src)
	verifrt.Assert(err == nil, "evaluation succeeds")
	verifrt.Assert(got == want, "every template is replaced by its own result and nothing else changes")
	verifrt.Reach("evaluated")
}

// VerifTemplatesBytes: the same for any text of braces and letters, against a direct reading of the brackets.
func VerifTemplatesBytes() {
	verifConfig()
	src := verifrt.StrMax("src", 0, verifrt.Param("n", 10), "{}a$")
	verifrt.Assume(!strings.Contains(src, "{{{"))
	verifrt.Assume(!strings.Contains(src, "}}}") || strings.Count(src, "}}}") == strings.Count(src, "}}}}"))
	// reference: match pairs with a stack
	out := src
	want := ""
	var stack []string
	ok := true
	for i := 0; i < len(out); i++ {
		if strings.HasPrefix(out[i:], "{{") {
			stack = append(stack, want)
			want = ""
			i++
		} else if strings.HasPrefix(out[i:], "}}") && len(stack) > 0 {
			want = stack[len(stack)-1] + "<" + want + ">"
			stack = stack[:len(stack)-1]
			i++
		} else {
			want += out[i : i+1]
		}
	}
	for len(stack) > 0 {
		ok = false
		want = stack[len(stack)-1] + "{{" + want
		stack = stack[:len(stack)-1]
	}
	e := &verifEval{pre: "<", post: ">"}
	t := verifTokenizer(e.eval)
	got, err := t.evaluateTemplates(src)
	if !ok {
		verifrt.Assert(err != nil || got == want, "unclosed calls are reported or stay as they are")
		verifrt.Reach("unclosed")
		return
	}
	verifrt.Assert(err == nil, "evaluation succeeds")
	verifrt.Assert(got == want, "every template is replaced by its own result and nothing else changes")
	verifrt.Reach("evaluated")
}

// VerifTemplatesFailing: a failing evaluation is reported and nothing is returned instead of the page.
func VerifTemplatesFailing() {
	verifConfig()
	e := &verifEval{pre: "<", post: ">", failAt: 1 + verifrt.Choice("failing", 3)}
	pieces, calls := verifrt.Param("pieces", 6), 3
	src, _ := verifTree(e, &pieces, &calls, 3, "a|")
	t := verifTokenizer(e.eval)
	article, err := t.Tokenize(src, "t")
	if e.calledErr {
		verifrt.Assert(err != nil && article == nil, "a failing evaluation fails the page")
		verifrt.Reach("failed")
	} else {
		verifrt.Assert(err == nil && article != nil, "evaluation succeeds")
		verifrt.Reach("succeeded")
	}
}

// VerifTemplatesMoved: ignored templates vanish, trailing ones move to the end with all of their text.
func VerifTemplatesMoved() {
	verifConfig()
	config.Current.IgnoredTemplates = []string{"ig", "j"}
	config.Current.TrailingTemplates = []string{"tR", "u"}
	src, want, tail := "", "", ""
	n := verifrt.Param("pieces", 3)
	for i := 0; i < n; i++ {
		switch verifrt.Choice("piece", 3) {
		case 0:
			b := verifrt.Str("text", 1, "a|}$#")
			verifrt.Assume(b != "}" || len(src) == 0 || !strings.HasSuffix(src, "}"))
			src += b
			want += b
		case 1:
			lead := verifrt.StrMax("lead", 0, 1, " \n")
			name := verifrt.Str("name", 2, "iIgGjJtTrRuUx")
			rest := ""
			switch verifrt.Choice("rest", 4) {
			case 1:
				rest = "|" + verifrt.Str("arg", 1, "aI=") + "x"
			case 2:
				rest = " y"
			case 3:
				rest = "\n|z"
			}
			tpl := "{{" + lead + name + rest + "}}"
			src += tpl
			l := strings.ToLower(name)
			if strings.HasPrefix(l, "ig") || strings.HasPrefix(l, "j") {
			} else if strings.HasPrefix(l, "tr") || strings.HasPrefix(l, "u") {
				tail += "\n" + tpl
			} else {
				want += tpl
			}
		case 2:
			src += "{{x|{{ig}}b{{u|c}}}}"
			want += "{{x|b}}"
			tail += "\n{{u|c}}"
		}
	}
	t := verifTokenizer(nil)
	got := t.handleUnwantedAndTrailingTemplates(src)
	verifrt.Assert(got == want+tail, "ignored templates vanish, trailing ones are moved, the others stay")
	verifrt.Reach("moved")
}

// VerifTemplatesOrder: the result does not depend on the order in which placeholders are resolved.
func VerifTemplatesOrder() {
	verifrt.MapOrder(true)
	VerifTemplates()
}

// VerifTemplatesMany: many and deeply nested calls.
func VerifTemplatesMany() {
	verifConfig()
	verifrt.StepLimit(60000000)
	n := []int{2, 12, verifrt.Param("many", 40)}[verifrt.Choice("number", 3)]
	b := verifrt.Str("text", 1, "aZ0|$ \n")
	src, want := "", ""
	e := &verifEval{pre: "<", post: ">"}
	switch verifrt.Choice("kind", 3) {
	case 0: // equal calls
		src, want = strings.Repeat("{{"+b+"}}", n), strings.Repeat("<"+b+">", n)
	case 1: // nested calls
		src, want = strings.Repeat("{{x"+b, n)+strings.Repeat("}}", n), strings.Repeat("<x"+b, n)+strings.Repeat(">", n)
	case 2: // different calls
		for i := 0; i < n; i++ {
			src += "y{{" + strconv.Itoa(i) + b + "}}"
			want += "y<" + strconv.Itoa(i) + b + ">"
		}
	}
	t := verifTokenizer(e.eval)
	got, err := t.evaluateTemplates(src)
	verifrt.Assert(err == nil, "evaluation succeeds")
	verifrt.Assert(got == want, "every template is replaced by its own result and nothing else changes")
	verifrt.Reach("evaluated")
}
