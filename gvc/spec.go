package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	kind  string // num id call field index slice un bin quant let if old
	name  string
	args  []*Expr
	vars  []Param
	trigs [][]*Expr
	num   *big.Int
	text  string
}

type Param struct{ name, typ string }

type FuncDecl struct {
	name   string
	kind   string // macro opaque rec uninterp
	params []Param
	ret    string
	body   *Expr
}

type Lemma struct {
	name     string
	params   []Param
	requires []*Expr
	ensures  []*Expr
	trigs    [][]*Expr
	auto     bool
	axiom    bool
	bv       bool
	induct   string
	general  map[string]bool // parameters over which the hypothesis is general
	itrigs   [][]*Expr
	reveal   []string
	uses     []*Expr
	haves    []bool
	order    int
}

type Clause struct {
	name string
	e    *Expr
}

type Stmt struct {
	kind string // ghost assert use assume
	name string
	e    *Expr
	idx  *Expr
	from []*Expr // assert e from: proved from these alone
	when *Expr   // use lemma when
}

type LoopSpec struct {
	inv       []Clause
	decreases *Expr
	havoc     []ModItem
	begin     []Stmt
	end       []Stmt
	entry     []Stmt
}

type ModItem struct {
	kind string // field all elems heap rows ghost map
	post bool
	e    *Expr
	name string
}

type Anchor struct {
	where string // entry return before after
	call  string
	n     int // -1: every
	stmts []Stmt
}

type Contract struct {
	name     string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	modifies []ModItem
	loops    map[int]*LoopSpec
	anchors  []Anchor
	trusted  bool
	pure     string
	bv       bool
	nopanic  bool
	inline   bool
	reveal   []string
	split    []*Expr
	decr     []*Expr
	file     string
}

type Spec struct {
	ghosts    map[string]string
	funcs     map[string]*FuncDecl
	fnOrder   []string
	lemmas    map[string]*Lemma
	lemOrder  []string
	contracts map[string]*Contract
	props     map[string][]string
}

type tok struct {
	k    string // id num punct str eof
	s    string
	line int
}

type parser struct {
	toks []tok
	p    int
	file string
	sp   *Spec
}

func lex(file, src string) []tok {
	var ts []tok
	line := 1
	rs := []rune(src)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$' || rs[j] == '\'') {
				j++
			}
			ts = append(ts, tok{"id", string(rs[i:j]), line})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			ts = append(ts, tok{"num", string(rs[i:j]), line})
			i = j
		default:
			done := false
			for _, op := range []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", ".*"} {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), op) {
					ts = append(ts, tok{"punct", op, line})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				ts = append(ts, tok{"punct", string(c), line})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts
}

// macros replaces @NAME by the tokens of "define NAME { tokens }".
func macros(ts []tok, defs map[string][]tok) []tok {
	var out []tok
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		if t.k == "id" && t.s == "define" && i+2 < len(ts) && ts[i+2].s == "{" {
			j, d := i+3, 1
			for ; j < len(ts); j++ {
				if ts[j].s == "{" {
					d++
				} else if ts[j].s == "}" {
					if d--; d == 0 {
						break
					}
				}
			}
			defs[ts[i+1].s] = macros(ts[i+3:j], defs)
			i = j
			continue
		}
		if t.s == "@" && i+1 < len(ts) {
			b, ok := defs[ts[i+1].s]
			if !ok {
				panic(fmt.Sprintf("line %d: no macro %s", t.line, ts[i+1].s))
			}
			out = append(out, b...)
			i++
			continue
		}
		out = append(out, t)
	}
	return out
}

func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s))
}
func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) is(s string) bool {
	return p.cur().s == s && p.cur().k != "eof"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	if p.cur().k != "id" {
		p.fail("identifier expected")
	}
	p.p++
	return p.toks[p.p-1].s
}

func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	}
	s := p.ident()
	for p.accept(".") {
		s += "." + p.ident()
	}
	return s
}

func (p *parser) params() []Param {
	var r []Param
	p.expect("(")
	for !p.is(")") {
		var names []string
		names = append(names, p.ident())
		for p.accept(",") {
			names = append(names, p.ident())
		}
		t := "int"
		if !p.is(")") && !p.is(";") {
			t = p.typ()
		}
		for _, n := range names {
			r = append(r, Param{n, t})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

// binary precedence
var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7, "&^": 7}

func (p *parser) expr() *Expr {
	st := p.p
	e := p.bin(1)
	var b strings.Builder
	for i := st; i < p.p; i++ {
		if i > st && p.toks[i].k != "punct" && p.toks[i-1].k != "punct" {
			b.WriteByte(' ')
		}
		b.WriteString(p.toks[i].s)
	}
	e.text = b.String()
	return e
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		op := p.cur().s
		pr, ok := prec[op]
		if !ok || p.cur().k != "punct" || pr < min {
			return l
		}
		p.p++
		var r *Expr
		if op == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{kind: "bin", name: op, args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return &Expr{kind: "un", name: "!", args: []*Expr{p.unary()}}
	case p.accept("-"):
		return &Expr{kind: "un", name: "-", args: []*Expr{p.unary()}}
	case p.is("forall") || p.is("exists"):
		k := p.ident()
		e := &Expr{kind: "quant", name: k}
		for {
			var names []string
			names = append(names, p.ident())
			for p.accept(",") {
				names = append(names, p.ident())
			}
			t := "int"
			if !p.is(":") && !p.is(";") {
				t = p.typ()
			}
			for _, n := range names {
				e.vars = append(e.vars, Param{n, t})
			}
			if !p.accept(";") {
				break
			}
		}
		p.expect(":")
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trigs = append(e.trigs, tr)
		}
		e.args = []*Expr{p.bin(1)}
		return e
	case p.is("let"):
		p.p++
		n := p.ident()
		p.expect(":=")
		v := p.expr()
		if !p.accept("in") {
			p.fail("in expected")
		}
		b := p.bin(1)
		return &Expr{kind: "let", name: n, args: []*Expr{v, b}}
	case p.is("if"):
		p.p++
		c := p.bin(1)
		if !p.accept("then") {
			p.fail("then expected")
		}
		a := p.bin(1)
		if !p.accept("else") {
			p.fail("else expected")
		}
		b := p.bin(1)
		return &Expr{kind: "if", args: []*Expr{c, a, b}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch {
	case t.k == "num":
		p.p++
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("number")
		}
		return &Expr{kind: "num", num: n}
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case t.k == "id":
		p.p++
		if p.is("(") {
			p.p++
			e := &Expr{kind: "call", name: t.s}
			for !p.is(")") {
				e.args = append(e.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{kind: "id", name: t.s}
	}
	p.fail("expression expected")
	return nil
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.p++
			n := p.ident()
			e = &Expr{kind: "field", name: n, args: []*Expr{e}}
		case p.is("["):
			p.p++
			i := p.expr()
			if p.accept(":") {
				e = &Expr{kind: "slice", args: []*Expr{e, i, p.expr()}}
				p.expect("]")
				continue
			}
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{kind: "upd", args: []*Expr{e, i, v}}
				continue
			}
			p.expect("]")
			e = &Expr{kind: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func (p *parser) stmts() []Stmt {
	var r []Stmt
	p.expect("{")
	for !p.accept("}") {
		switch k := p.ident(); k {
		case "ghost":
			n := p.ident()
			var ix *Expr
			if p.accept("[") {
				ix = p.expr()
				p.expect("]")
			}
			p.expect(":=")
			r = append(r, Stmt{kind: "ghost", name: n, idx: ix, e: p.expr()})
		case "assert", "use", "have", "assume":
			s := Stmt{kind: k, e: p.expr()}
			if k == "assert" && p.is("from") {
				p.p++
				s.from = append(s.from, p.expr())
				for p.accept(",") {
					s.from = append(s.from, p.expr())
				}
			}
			if k == "use" && p.is("when") {
				p.p++
				s.when = p.expr()
			}
			r = append(r, s)
		case "label":
			r = append(r, Stmt{kind: k, name: p.ident()})
		default:
			p.fail("statement %q", k)
		}
		p.expect(";")
	}
	return r
}

func (p *parser) clause() Clause {
	var n string
	if p.cur().k == "id" && p.toks[p.p+1].s == ":" {
		n = p.ident()
		p.expect(":")
	}
	e := p.expr()
	p.expect(";")
	return Clause{n, e}
}

func (p *parser) modItem() ModItem {
	m := ModItem{}
	if p.is("new") {
		p.p++
		m.post = true
	}
	switch {
	case p.is("heap"):
		p.p++
		m.kind = "heap"
		m.name = p.ident()
		for p.accept(".") {
			m.name += "." + p.ident()
		}
		return m
	case p.is("rows"):
		p.p++
		m.kind = "rows"
		m.name = p.typ()
		return m
	case p.is("elems") && p.toks[p.p+1].s == "(":
		p.p += 2
		m.kind = "elems"
		m.e = p.expr()
		p.expect(")")
		return m
	case p.is("mapof") && p.toks[p.p+1].s == "(":
		p.p += 2
		m.kind = "map"
		m.e = p.expr()
		p.expect(")")
		return m
	}
	e := p.bin(5)
	if p.accept(".*") {
		m.kind = "all"
		m.e = e
		return m
	}
	if e.kind == "id" {
		m.kind = "ghost"
		m.name = e.name
		m.e = e
		return m
	}
	m.kind = "field"
	m.e = e
	return m
}

func (p *parser) contract() {
	c := &Contract{loops: map[int]*LoopSpec{}, file: p.file}
	c.name = p.ident()
	for p.accept(".") {
		c.name += "." + p.ident()
	}
	p.expect("(")
	for !p.is(")") {
		c.params = append(c.params, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("(") {
		for !p.is(")") {
			c.results = append(c.results, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
	}
	p.expect("{")
	for !p.accept("}") {
		switch k := p.ident(); k {
		case "trusted":
			c.trusted = true
			p.expect(";")
		case "bv":
			c.bv = true
			p.expect(";")
		case "nopanic":
			c.nopanic = true
			p.expect(";")
		case "inline":
			c.inline = true
			p.expect(";")
		case "pure":
			c.pure = p.ident()
			p.expect(";")
		case "reveal":
			for {
				c.reveal = append(c.reveal, p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "split":
			c.split = append(c.split, p.expr())
			p.expect(";")
		case "decreases":
			for {
				c.decr = append(c.decr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "requires":
			c.requires = append(c.requires, p.clause())
		case "ensures":
			c.ensures = append(c.ensures, p.clause())
		case "modifies":
			for {
				c.modifies = append(c.modifies, p.modItem())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "loop":
			n := p.number()
			ls := &LoopSpec{}
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "invariant":
					ls.inv = append(ls.inv, p.clause())
				case "decreases":
					ls.decreases = p.expr()
					p.expect(";")
				case "begin":
					ls.begin = p.stmts()
				case "end":
					ls.end = p.stmts()
				case "entry":
					ls.entry = p.stmts()
				case "havoc":
					for {
						ls.havoc = append(ls.havoc, p.modItem())
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				default:
					p.fail("loop clause %q", k)
				}
			}
			c.loops[n] = ls
		case "at":
			a := Anchor{n: -1}
			a.where = p.ident()
			if a.where == "before" || a.where == "after" {
				a.call = p.ident()
				for p.accept(".") {
					a.call += "." + p.ident()
				}
				if p.cur().k == "num" {
					a.n = p.number()
				}
			}
			a.stmts = p.stmts()
			c.anchors = append(c.anchors, a)
		default:
			p.fail("clause %q", k)
		}
	}
	if p.sp.contracts[c.name] != nil {
		p.fail("second contract for %s", c.name)
	}
	p.sp.contracts[c.name] = c
}

func (p *parser) number() int {
	t := p.cur()
	if t.k != "num" {
		p.fail("number expected")
	}
	p.p++
	n := 0
	fmt.Sscanf(t.s, "%d", &n)
	return n
}

func (p *parser) file1() {
	sp := p.sp
	for p.cur().k != "eof" {
		k := p.ident()
		switch k {
		case "ghost":
			n := p.ident()
			sp.ghosts[n] = p.typ()
			p.expect(";")
		case "func", "opaque", "rec", "uninterp":
			if k != "func" {
				if p.ident() != "func" {
					p.fail("func expected")
				}
			}
			f := &FuncDecl{kind: k}
			if k == "func" {
				f.kind = "macro"
			}
			f.name = p.ident()
			f.params = p.params()
			f.ret = "bool"
			if !p.is("=") && !p.is(";") {
				f.ret = p.typ()
			}
			if p.accept("=") {
				f.body = p.expr()
			}
			p.expect(";")
			if sp.funcs[f.name] != nil {
				p.fail("second function %s", f.name)
			}
			sp.funcs[f.name] = f
			sp.fnOrder = append(sp.fnOrder, f.name)
		case "axiom", "lemma":
			l := &Lemma{axiom: k == "axiom", order: len(sp.lemOrder)}
			l.name = p.ident()
			l.params = p.params()
			if l.axiom {
				l.auto = true
			}
			p.expect("{")
			for !p.accept("}") {
				switch c := p.ident(); c {
				case "requires":
					l.requires = append(l.requires, p.expr())
				case "ensures":
					l.ensures = append(l.ensures, p.expr())
				case "auto":
					l.auto = true
					for p.accept("{") {
						var tr []*Expr
						for {
							tr = append(tr, p.expr())
							if !p.accept(",") {
								break
							}
						}
						p.expect("}")
						l.trigs = append(l.trigs, tr)
					}
				case "bv":
					l.bv = true
				case "induct":
					// induct x [over y, z] [{trigger}]...
					l.induct = p.ident()
					l.general = map[string]bool{}
					if p.accept("over") {
						for {
							l.general[p.ident()] = true
							if !p.accept(",") {
								break
							}
						}
					}
					for p.accept("{") {
						var tr []*Expr
						for {
							tr = append(tr, p.expr())
							if !p.accept(",") {
								break
							}
						}
						p.expect("}")
						l.itrigs = append(l.itrigs, tr)
					}
				case "reveal":
					for {
						l.reveal = append(l.reveal, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "use", "have":
					l.haves = append(l.haves, c == "have")
					l.uses = append(l.uses, p.expr())
				default:
					p.fail("lemma clause %q", c)
				}
				p.expect(";")
			}
			sp.lemmas[l.name] = l
			sp.lemOrder = append(sp.lemOrder, l.name)
		case "contract":
			p.contract()
		case "property":
			id := p.ident()
			p.expect("{")
			for !p.accept("}") {
				n := p.ident()
				for p.accept(".") {
					n += "." + p.ident()
				}
				sp.props[id] = append(sp.props[id], n)
				p.accept(",")
				p.accept(";")
			}
		default:
			p.fail("declaration %q", k)
		}
	}
}

func loadSpec(dir string) *Spec {
	sp := &Spec{ghosts: map[string]string{}, funcs: map[string]*FuncDecl{}, lemmas: map[string]*Lemma{}, contracts: map[string]*Contract{}, props: map[string][]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	defs := map[string][]tok{}
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			panic(e)
		}
		p := &parser{toks: macros(lex(f, string(b)), defs), file: filepath.Base(f), sp: sp}
		p.file1()
	}
	return sp
}
