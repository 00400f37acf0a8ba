package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- syntax of contract files ----

type Expr struct {
	op    string // num str id call field index bin un quant ite idxset tuple slice
	name  string
	args  []*Expr
	bvars [][2]string
	pats  [][]*Expr
	line  int
	file  string
}

type Clause struct {
	Kind string // requires ensures set havoc fresh inv always modifies assume
	Tags []string
	Name string
	LHS  *Expr
	E    *Expr
	Meta [][2]string // metavariables of inv
	Src  string
	Pos  string
	Cond *Expr
	Cases [][]*Expr
}

type Case struct {
	Name    string
	Clauses []*Clause
}

type FuncSpec struct {
	Key      string
	Extern   bool
	Params   []string
	Results  []string
	Props    []string
	Clauses  []*Clause
	Cases    []*Case
	Pure     bool
	NoPanic  []string
	Trusted  bool
	Callback string // parameter: a function called once before the cases; its result is the name result
	Pos      string
	Inline   bool
	Exit     bool
	Ignore   bool
	Strict   bool
	NoFrame  bool
}

func (f *FuncSpec) noPanicFor(p string) bool {
	for _, t := range f.NoPanic {
		if t == "*" || t == p {
			return true
		}
	}
	return false
}

func (c *Clause) applies(prop string) bool {
	if len(c.Tags) == 0 {
		return true
	}
	for _, t := range c.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

type FnDecl struct {
	Name   string
	Params []string // sorts
	PNames []string
	Ret    string
	Body   *Expr // rec / macro
	Fuel   int
	Pos    string
}

type AxDecl struct {
	Name   string
	Tags   []string
	E      *Expr
	Pos    string
	Lemma  bool
	Only   bool // proved, but not used in proofs
	Induct string
	Hints  []*Expr
	Using  []string
	BV     int
}

type Specs struct {
	Funcs  map[string]*FuncSpec
	Fns    map[string]*FnDecl
	Recs   map[string]*FnDecl
	Macros map[string]*FnDecl
	Ghosts map[string]string
	Consts map[string]string
	Axioms []*AxDecl
	Files  []string
	order  []string
}

func LoadSpecs(dir string) (*Specs, error) {
	s := &Specs{Funcs: map[string]*FuncSpec{}, Fns: map[string]*FnDecl{}, Recs: map[string]*FnDecl{}, Macros: map[string]*FnDecl{}, Ghosts: map[string]string{}, Consts: map[string]string{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s.Files = append(s.Files, f)
		if err := s.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return s, nil
}

// logical lines: indented continuation lines (starting with '|') are joined.
func (s *Specs) parseFile(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	raw := strings.Split(src, "\n")
	type ll struct {
		n    int
		text string
	}
	var lines []ll
	for i, l := range raw {
		if k := strings.Index(l, "//"); k >= 0 && strings.TrimSpace(l[:k]) == "" {
			l = ""
		}
		if k := strings.Index(l, " // "); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "|") && len(lines) > 0 {
			lines[len(lines)-1].text += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, ll{i + 1, t})
	}
	var cur *FuncSpec
	var cs *Case
	add := func(c *Clause) {
		if cs != nil && c.Kind != "inv" {
			cs.Clauses = append(cs.Clauses, c)
		} else {
			cur.Clauses = append(cur.Clauses, c)
		}
	}
	for _, l := range lines {
		pos := fmt.Sprintf("%s:%d", file, l.n)
		fail := func(m string) { panic(parseErr{pos + ": " + m + ": " + l.text}) }
		word, rest := l.text, ""
		if k := strings.IndexAny(l.text, " \t"); k >= 0 {
			word, rest = l.text[:k], strings.TrimSpace(l.text[k+1:])
		}
		switch word {
		case "ghost", "const":
			k := strings.Index(rest, ":")
			if k < 0 {
				fail("type expected")
			}
			m := s.Ghosts
			if word == "const" {
				m = s.Consts
			}
			for _, n := range strings.Split(rest[:k], ",") {
				m[strings.TrimSpace(n)] = strings.TrimSpace(rest[k+1:])
			}
			cur, cs = nil, nil
		case "fn", "rec", "macro":
			d := parseFnDecl(rest, pos, word)
			switch word {
			case "fn":
				s.Fns[d.Name] = d
			case "rec":
				s.Recs[d.Name] = d
			default:
				s.Macros[d.Name] = d
			}
			cur, cs = nil, nil
		case "axiom", "lemma", "theorem":
			name, tags, body := clauseHead(rest)
			if name == "" {
				fail("name expected")
			}
			a := &AxDecl{Name: name, Tags: tags, Pos: pos, Lemma: word != "axiom", Only: word == "theorem"}
			// options before the expression:  @induct n  @bv 64
			for strings.HasPrefix(body, "@") {
				k := strings.IndexByte(body, ' ')
				opt := body[1:k]
				body = strings.TrimSpace(body[k:])
				switch {
				case strings.HasPrefix(opt, "induct="):
					a.Induct = opt[7:]
				case strings.HasPrefix(opt, "using="):
					a.Using = strings.Split(opt[6:], ",")
				case strings.HasPrefix(opt, "bv="):
					fmt.Sscan(opt[3:], &a.BV)
				}
			}
			a.E = parseExpr(body, pos)
			s.Axioms = append(s.Axioms, a)
			cur, cs = nil, nil
		case "func", "extern":
			cur = parseSig(rest, pos)
			cur.Extern = word == "extern"
			cs = nil
			if s.Funcs[cur.Key] != nil {
				fail("duplicate contract")
			}
			s.Funcs[cur.Key] = cur
			s.order = append(s.order, cur.Key)
		default:
			if cur == nil {
				fail("clause outside a contract")
			}
			switch word {
			case "prop":
				cur.Props = append(cur.Props, strings.Fields(rest)...)
			case "pure":
				cur.Pure = true
			case "inline":
				cur.Inline = true
			case "exits":
				cur.Exit = true
			case "ignore":
				cur.Ignore = true
			case "strict":
				cur.Strict = true
			case "noframe":
				cur.NoFrame = true
			case "trusted":
				cur.Trusted = true
			case "callback":
				cur.Callback = strings.TrimSpace(rest)
			case "nopanic":
				t := strings.Fields(rest)
				if len(t) == 0 {
					t = []string{"*"}
				}
				cur.NoPanic = append(cur.NoPanic, t...)
			case "case":
				cs = &Case{Name: strings.TrimSuffix(rest, ":")}
				cur.Cases = append(cur.Cases, cs)
			case "requires", "ensures", "always", "assume", "assert":
				name, tags, body := clauseHead(rest)
				add(&Clause{Kind: word, Tags: tags, Name: name, E: parseExpr(body, pos), Src: body, Pos: pos})
			case "inv":
				name, tags, body := clauseHead(rest)
				c := &Clause{Kind: "inv", Tags: tags, Name: name, Src: body, Pos: pos}
				if k := strings.Index(body, "::"); k >= 0 && strings.HasPrefix(strings.TrimSpace(body), "$") {
					for _, m := range splitTop(body[:k], ',') {
						p := strings.SplitN(strings.TrimSpace(m), ":", 2)
						if len(p) != 2 {
							fail("metavariable type")
						}
						c.Meta = append(c.Meta, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
					}
					body = body[k+2:]
				}
				c.E = parseExpr(body, pos)
				add(c)
			case "set", "start":
				name, tags, body := clauseHead(rest)
				k := topIndex(body, ":=")
				if k < 0 {
					fail(":= expected")
				}
				add(&Clause{Kind: word, Tags: tags, Name: name, LHS: parseExpr(body[:k], pos), E: parseExpr(body[k+2:], pos), Src: body, Pos: pos})
			case "havoc", "modifies", "fresh":
				_, tags, body := clauseHead(rest)
				for _, p := range splitTop(body, ',') {
					add(&Clause{Kind: word, Tags: tags, LHS: parseExpr(p, pos), Src: p, Pos: pos})
				}
			default:
				fail("unknown clause")
			}
		}
	}
	return nil
}

// clauseHead parses "[tags] name: body"; the name is optional.
func clauseHead(s string) (name string, tags []string, body string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		k := strings.IndexByte(s, ']')
		if k > 0 && isTagList(s[1:k]) {
			tags = strings.FieldsFunc(s[1:k], func(r rune) bool { return r == ',' || r == ' ' })
			s = strings.TrimSpace(s[k+1:])
		}
	}
	j := 0
	for j < len(s) && (s[j] == '_' || s[j] == '-' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
		j++
	}
	if j > 0 && j < len(s) && s[j] == ':' && !(j+1 < len(s) && (s[j+1] == ':' || s[j+1] == '=')) {
		return s[:j], tags, strings.TrimSpace(s[j+1:])
	}
	return "", tags, s
}

func isTagList(s string) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		if len(f) != 3 || f[0] != 'C' {
			return false
		}
	}
	return true
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, q, st := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			q = !q
		case q:
		case s[i] == '(' || s[i] == '[' || s[i] == '{':
			d++
		case s[i] == ')' || s[i] == ']' || s[i] == '}':
			d--
		case s[i] == sep && d == 0:
			out = append(out, strings.TrimSpace(s[st:i]))
			st = i + 1
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func topIndex(s, sep string) int {
	d, q := 0, false
	for i := 0; i+len(sep) <= len(s); i++ {
		switch {
		case s[i] == '"':
			q = !q
		case q:
		case s[i] == '(' || s[i] == '[' || s[i] == '{':
			d++
		case s[i] == ')' || s[i] == ']' || s[i] == '}':
			d--
		case d == 0 && s[i:i+len(sep)] == sep:
			return i
		}
	}
	return -1
}

func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// parseSig parses "Key(p1, p2) (r1, r2)".
func parseSig(s, pos string) *FuncSpec {
	// the key may itself start with a parenthesised receiver
	i := 0
	if strings.HasPrefix(s, "(") {
		i = matchParen(s, 0) + 1
	}
	k := strings.IndexByte(s[i:], '(')
	if k < 0 {
		panic(parseErr{pos + ": parameters expected: " + s})
	}
	k += i
	e := matchParen(s, k)
	f := &FuncSpec{Key: strings.TrimSpace(s[:k]), Pos: pos}
	f.Params = splitTop(s[k+1:e], ',')
	rest := strings.TrimSpace(s[e+1:])
	if strings.HasPrefix(rest, "(") {
		f.Results = splitTop(rest[1:matchParen(rest, 0)], ',')
	} else if rest != "" {
		f.Results = []string{rest}
	}
	return f
}

func parseFnDecl(s, pos, kind string) *FnDecl {
	k := strings.IndexByte(s, '(')
	if k < 0 {
		panic(parseErr{pos + ": parameters expected: " + s})
	}
	e := matchParen(s, k)
	d := &FnDecl{Name: strings.TrimSpace(s[:k]), Pos: pos, Fuel: 2}
	for _, p := range splitTop(s[k+1:e], ',') {
		if kind == "fn" {
			d.Params = append(d.Params, p)
			continue
		}
		if j := strings.IndexByte(p, ':'); j >= 0 {
			d.PNames = append(d.PNames, strings.TrimSpace(p[:j]))
			d.Params = append(d.Params, strings.TrimSpace(p[j+1:]))
		} else {
			d.PNames = append(d.PNames, strings.TrimSpace(p))
			d.Params = append(d.Params, "")
		}
	}
	rest := strings.TrimSpace(s[e+1:])
	if kind == "fn" {
		d.Ret = rest
		return d
	}
	j := strings.Index(rest, "=")
	d.Ret = strings.TrimSpace(rest[:j])
	if fs := strings.Fields(d.Ret); len(fs) == 2 && strings.HasPrefix(fs[1], "fuel") {
		d.Ret = fs[0]
		fmt.Sscan(fs[1][4:], &d.Fuel)
	}
	d.Body = parseExpr(rest[j+1:], pos)
	return d
}

// ---- expression parser ----

type parseErr struct{ msg string }

type tok struct {
	k string // id num str op eof
	s string
}

type parser struct {
	t   []tok
	i   int
	pos string
	src string
}

func lex(s, pos string) []tok {
	var out []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					case '0':
						sb.WriteByte(0)
					case 'x':
						var v int
						fmt.Sscanf(s[j+1:j+3], "%x", &v)
						sb.WriteByte(byte(v))
						j += 2
					default:
						sb.WriteByte(s[j])
					}
				} else {
					sb.WriteByte(s[j])
				}
				j++
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
		case c == '`':
			j := strings.IndexByte(s[i+1:], '`') + i + 1
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '_' || c == '$' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			ops := []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "++"}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	return append(out, tok{"eof", ""})
}

func parseExpr(s, pos string) *Expr {
	p := &parser{t: lex(s, pos), pos: pos, src: s}
	e := p.expr(0)
	if p.t[p.i].k != "eof" {
		p.fail("unexpected " + p.t[p.i].s)
	}
	return e
}

func (p *parser) fail(m string) { panic(parseErr{p.pos + ": " + m + " in: " + p.src}) }
func (p *parser) peek() tok     { return p.t[p.i] }
func (p *parser) next() tok     { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s || p.t[p.i].k == "id" && p.t[p.i].s == s && s == "in"
}
func (p *parser) want(s string) {
	if !p.is(s) {
		p.fail("expected " + s + " before " + p.t[p.i].s)
	}
	p.i++
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == "op" && t.s == "?" && min <= 3 {
			p.next()
			a := p.expr(3)
			p.want(":")
			b := p.expr(3)
			l = &Expr{op: "ite", args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || t.k == "str" || (t.k == "id" && t.s != "in") || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 6 && l.op == "bin" && binPrec[l.name] == 6 && l.name != "in" && t.s != "in" && (strings.ContainsAny(t.s, "<>")) {
			l = &Expr{op: "bin", name: "&&", args: []*Expr{l, {op: "bin", name: t.s, args: []*Expr{l.args[1], r}}}}
			continue
		}
		if pr == 6 && l.op == "bin" && l.name == "&&" && len(l.args) == 2 && l.args[1].op == "bin" && binPrec[l.args[1].name] == 6 && strings.ContainsAny(t.s, "<>") && l.line == -1 {
			l = &Expr{op: "bin", name: "&&", line: -1, args: []*Expr{l, {op: "bin", name: t.s, args: []*Expr{l.args[1].args[1], r}}}}
			continue
		}
		l = &Expr{op: "bin", name: t.s, args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*", "&":
			p.next()
			return &Expr{op: "un", name: t.s, args: []*Expr{p.unary()}}
		case "(":
			p.next()
			e := p.expr(0)
			p.want(")")
			return p.post(e)
		}
		p.fail("unexpected " + t.s)
	}
	p.next()
	switch t.k {
	case "num":
		return &Expr{op: "num", name: t.s}
	case "str":
		return p.post(&Expr{op: "str", name: t.s})
	case "id":
		if t.s == "forall" || t.s == "exists" {
			e := &Expr{op: "quant", name: t.s}
			for {
				n := p.next()
				p.want(":")
				e.bvars = append(e.bvars, [2]string{n.s, p.typ()})
				if p.is(",") {
					p.next()
					continue
				}
				break
			}
			for p.is("{") {
				p.next()
				var ps []*Expr
				for {
					ps = append(ps, p.expr(0))
					if p.is(",") {
						p.next()
						continue
					}
					break
				}
				p.want("}")
				e.pats = append(e.pats, ps)
			}
			p.want("::")
			e.args = []*Expr{p.expr(0)}
			return e
		}
		return p.post(&Expr{op: "id", name: t.s})
	}
	p.fail("unexpected end")
	return nil
}

// typ reads a type: identifiers, dots, brackets.
func (p *parser) typ() string {
	var sb strings.Builder
	d := 0
	for {
		t := p.peek()
		if t.k == "id" || t.k == "num" || (t.k == "op" && (t.s == "." || t.s == "[" || t.s == "]" || t.s == "*" || t.s == "/")) {
			if t.s == "[" {
				d++
			}
			if t.s == "]" {
				d--
			}
			sb.WriteString(t.s)
			p.next()
			continue
		}
		return sb.String()
	}
}

func (p *parser) post(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			e = &Expr{op: "field", name: p.next().s, args: []*Expr{e}}
		case p.is("("):
			p.next()
			name := ""
			if e.op == "id" {
				name = e.name
			} else {
				p.fail("call of an expression")
			}
			c := &Expr{op: "call", name: name}
			if name == "as" || name == "istype" || name == "box" || name == "zero" || name == "closedchan" {
				// last argument is a type
				if name == "zero" {
					c.bvars = [][2]string{{"", p.typ()}}
					p.want(")")
					e = c
					continue
				}
				c.args = append(c.args, p.expr(0))
				p.want(",")
				c.bvars = [][2]string{{"", p.typ()}}
				p.want(")")
				e = c
				continue
			}
			for !p.is(")") {
				c.args = append(c.args, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.next()
			e = c
		case p.is("["):
			p.next()
			i := p.expr(0)
			if p.is(":=") {
				p.next()
				v := p.expr(0)
				p.want("]")
				e = &Expr{op: "idxset", args: []*Expr{e, i, v}}
				continue
			}
			if p.is(":") {
				p.next()
				j := p.expr(0)
				p.want("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, j}}
				continue
			}
			p.want("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}
