package model

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"text/template"

	"github.com/libregraph/idm/zzverif/sym"
)

// Templates of text, comments, values, calls of functions with simple
// arguments, optionally piped, and if, with and range.

type tplState struct {
	funcs       template.FuncMap
	left, right string
	parts       []*tplPart
}

type tplPart struct {
	text string
	kind string     // if, with, range, or nothing
	cmds [][]string // pipeline of commands of words
	body []*tplPart
	rest []*tplPart // else
}

var tpls = map[*template.Template]*tplState{}

//verif:model text/template.New
func tplNew(name string) *template.Template {
	t := &template.Template{}
	tpls[t] = &tplState{funcs: template.FuncMap{}, left: "{{", right: "}}"}
	return t
}

//verif:model (*text/template.Template).Funcs
func tplFuncs(t *template.Template, m template.FuncMap) *template.Template {
	for k, v := range m {
		tpls[t].funcs[k] = v
	}
	return t
}

//verif:model (*text/template.Template).Delims
func tplDelims(t *template.Template, left, right string) *template.Template {
	s := tpls[t]
	s.left, s.right = left, right
	if left == "" {
		s.left = "{{"
	}
	if right == "" {
		s.right = "}}"
	}
	return t
}

type tplToken struct {
	text string
	act  bool
}

//verif:model (*text/template.Template).Parse
func tplParse(t *template.Template, text string) (*template.Template, error) {
	s := tpls[t]
	var toks []tplToken
	trim := false
	for {
		i := strings.Index(text, s.left)
		lit := text
		if i >= 0 {
			lit = text[:i]
		}
		if trim {
			lit = strings.TrimLeft(lit, " \t\r\n")
		}
		if i < 0 {
			toks = append(toks, tplToken{lit, false})
			break
		}
		text = text[i+len(s.left):]
		if strings.HasPrefix(text, "- ") {
			lit = strings.TrimRight(lit, " \t\r\n")
			text = text[2:]
		}
		toks = append(toks, tplToken{lit, false})
		j := strings.Index(text, s.right)
		if j < 0 {
			return nil, errors.New("template: unclosed action")
		}
		act := text[:j]
		text = text[j+len(s.right):]
		trim = strings.HasSuffix(act, " -")
		act = strings.TrimSuffix(act, " -")
		if strings.HasPrefix(act, "/*") {
			if !strings.HasSuffix(act, "*/") {
				return nil, errors.New("template: comment ends before closing delimiter")
			}
			continue
		}
		toks = append(toks, tplToken{act, true})
	}
	parts, rest, end, err := s.list(toks)
	if err != nil {
		return nil, err
	}
	if end != "" || len(rest) > 0 {
		return nil, errors.New("template: unexpected " + end)
	}
	s.parts = parts
	return t, nil
}

// list parses up to an end or else.
func (s *tplState) list(toks []tplToken) (parts []*tplPart, rest []tplToken, end string, err error) {
	for len(toks) > 0 {
		k := toks[0]
		toks = toks[1:]
		if !k.act {
			parts = append(parts, &tplPart{text: k.text})
			continue
		}
		cmds, err := tplWords(k.text)
		if err != nil {
			return nil, nil, "", err
		}
		first := cmds[0][0]
		switch first {
		case "end", "else":
			if len(cmds) > 1 || len(cmds[0]) > 1 {
				sym.Abandon("template action " + first)
			}
			return parts, toks, first, nil
		case "if", "with", "range":
			p := &tplPart{kind: first}
			cmds[0] = cmds[0][1:]
			if len(cmds[0]) == 0 {
				return nil, nil, "", errors.New("template: missing value for " + first)
			}
			if err := s.words(cmds); err != nil {
				return nil, nil, "", err
			}
			p.cmds = cmds
			var e string
			p.body, toks, e, err = s.list(toks)
			if err == nil && e == "else" {
				p.rest, toks, e, err = s.list(toks)
			}
			if err != nil {
				return nil, nil, "", err
			}
			if e != "end" {
				return nil, nil, "", errors.New("template: unexpected EOF")
			}
			parts = append(parts, p)
			continue
		}
		if err := s.words(cmds); err != nil {
			return nil, nil, "", err
		}
		parts = append(parts, &tplPart{cmds: cmds})
	}
	return parts, nil, "", nil
}

func (s *tplState) words(cmds [][]string) error {
	for k, c := range cmds {
		for w, x := range c {
			switch x[0] {
			case '"', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
				if w == 0 && k > 0 {
					return errors.New("template: non executable command in pipeline")
				}
			default:
				if s.funcs[x] == nil {
					switch x {
					case "define", "block", "template", "break", "continue", "nil", "true", "false",
						"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "html", "js", "urlquery", "call", "eq", "ne", "lt", "le", "gt", "ge":
						sym.Abandon("template action " + x)
					}
					return errors.New("template: function not defined")
				}
				if w > 0 {
					sym.Abandon("template function as argument")
				}
			}
		}
	}
	return nil
}

func tplWords(act string) ([][]string, error) {
	cmds := [][]string{nil}
	for {
		act = strings.TrimLeft(act, " \t\r\n")
		if act == "" {
			break
		}
		n := 0
		switch {
		case act[0] == '|':
			cmds = append(cmds, nil)
			act = act[1:]
			continue
		case act[0] == '"':
			n = 1
			for n < len(act) && act[n] != '"' {
				if act[n] == '\\' {
					n++
				}
				n++
			}
			if n >= len(act) {
				return nil, errors.New("template: unterminated quoted string")
			}
			n++
		default:
			for n < len(act) && (act[n] == '.' || act[n] == '_' || act[n] >= '0' && act[n] <= '9' || act[n] >= 'a' && act[n] <= 'z' || act[n] >= 'A' && act[n] <= 'Z') {
				n++
			}
			if n == 0 {
				sym.Abandon("template syntax")
			}
		}
		cmds[len(cmds)-1] = append(cmds[len(cmds)-1], act[:n])
		act = act[n:]
	}
	for _, c := range cmds {
		if len(c) == 0 {
			return nil, errors.New("template: missing value for command")
		}
	}
	return cmds, nil
}

//verif:model (*text/template.Template).Execute
func tplExecute(t *template.Template, w io.Writer, data any) error {
	s := tpls[t]
	return s.exec(s.parts, w, data)
}

func (s *tplState) exec(parts []*tplPart, w io.Writer, dot any) error {
	for _, p := range parts {
		out := p.text
		if p.cmds != nil {
			v, err := s.value(p.cmds, dot)
			if err != nil {
				return err
			}
			if p.kind != "" {
				if err := s.control(p, v, w, dot); err != nil {
					return err
				}
				continue
			}
			if v == nil {
				out = "<no value>"
			} else {
				out = fmt.Sprint(v)
			}
		}
		if _, err := io.WriteString(w, out); err != nil {
			return err
		}
	}
	return nil
}

func (s *tplState) control(p *tplPart, v any, w io.Writer, dot any) error {
	if p.kind == "range" {
		var l []any
		switch v := v.(type) {
		case nil:
		case []string:
			for _, x := range v {
				l = append(l, x)
			}
		case []any:
			l = v
		default:
			sym.Abandon("template range")
		}
		if len(l) == 0 {
			return s.exec(p.rest, w, dot)
		}
		for _, x := range l {
			if err := s.exec(p.body, w, x); err != nil {
				return err
			}
		}
		return nil
	}
	truth := false
	switch v := v.(type) {
	case nil:
	case bool:
		truth = v
	case string:
		truth = v != ""
	case int:
		truth = v != 0
	case int64:
		truth = v != 0
	case uint64:
		truth = v != 0
	case []string:
		truth = len(v) > 0
	default:
		sym.Abandon("template condition")
	}
	if !truth {
		return s.exec(p.rest, w, dot)
	}
	if p.kind == "with" {
		dot = v
	}
	return s.exec(p.body, w, dot)
}

// value is the value of a pipeline.
func (s *tplState) value(cmds [][]string, dot any) (v any, err error) {
	for k, c := range cmds {
		var args []any
		for i, x := range c {
			if i == 0 && s.funcs[x] != nil {
				args = append(args, nil)
				continue
			}
			a, err := tplValue(x, dot)
			if err != nil {
				return nil, err
			}
			args = append(args, a)
		}
		if k > 0 {
			args = append(args, v)
		}
		if c[0][0] == '"' || c[0][0] == '.' || c[0][0] >= '0' && c[0][0] <= '9' {
			if len(args) > 1 {
				return nil, errors.New("template: can't give argument to non-function")
			}
			v = args[0]
			continue
		}
		v, err = tplCall(s.funcs[c[0]], args[1:])
		if err != nil {
			return nil, err
		}
	}
	return v, nil
}

func tplValue(x string, dot any) (any, error) {
	switch {
	case x[0] == '"':
		s, err := strconv.Unquote(x)
		if err != nil {
			sym.Abandon("template string")
		}
		return s, nil
	case x == ".":
		return dot, nil
	case x[0] == '.':
		v := dot
		for i, f := range strings.Split(x[1:], ".") {
			switch m := v.(type) {
			case map[string]interface{}:
				v = m[f]
			case nil:
				if i > 0 {
					return nil, errors.New("template: nil data")
				}
			case string, int64, uint64, int, []string:
				return nil, errors.New("template: can't evaluate field")
			default:
				r, ok := sym.Field(v, f)
				if !ok {
					return nil, errors.New("template: can't evaluate field")
				}
				v = r
			}
		}
		return v, nil
	case x[0] >= '0' && x[0] <= '9':
		n, err := strconv.ParseUint(x, 0, 64)
		if err != nil {
			sym.Abandon("template number")
		}
		return n, nil
	}
	return nil, nil
}

func tplCall(f any, args []any) (any, error) {
	str := func(i int) (string, bool) {
		s, ok := args[i].(string)
		return s, ok
	}
	switch f := f.(type) {
	case func(string) string:
		if len(args) != 1 {
			return nil, errors.New("template: wrong number of args")
		}
		s, ok := str(0)
		if !ok {
			return nil, errors.New("template: wrong type for value")
		}
		return f(s), nil
	case func(string) (string, error):
		if len(args) != 1 {
			return nil, errors.New("template: wrong number of args")
		}
		s, ok := str(0)
		if !ok {
			return nil, errors.New("template: wrong type for value")
		}
		return f(s)
	case func(...uint64) uint64:
		var ns []uint64
		for _, a := range args {
			n, ok := a.(uint64)
			if !ok {
				return nil, errors.New("template: wrong type for value")
			}
			ns = append(ns, n)
		}
		return f(ns...), nil
	}
	sym.Abandon("template function type")
	return nil, nil
}
