package main

// A parser for the subset of PostgreSQL used by the repository. It parses the statements which the
// code under test actually sends; anything it does not know is reported as unsupported (no answer).

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

type sqlTok struct {
	k byte // 'i' identifier/keyword, 'n' number, 's' string, 'p' $n, ':' named, 'o' operator, 'e' end
	s string
	n int
}

type sqlParser struct {
	t []sqlTok
	i int
}

type sqlParseErr struct{ msg string }

func sqlLex(q string) []sqlTok {
	var out []sqlTok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '\'':
			var sb strings.Builder
			i++
			for i < len(q) {
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						sb.WriteByte('\'')
						i += 2
						continue
					}
					break
				}
				sb.WriteByte(q[i])
				i++
			}
			i++
			out = append(out, sqlTok{k: 's', s: sb.String()})
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				panic(sqlParseErr{"unterminated quoted identifier"})
			}
			out = append(out, sqlTok{k: 'i', s: q[i+1 : i+1+j]})
			i += j + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(q[i:j])
			out = append(out, sqlTok{k: 'n', s: q[i:j], n: n})
			i = j
		case c == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(q[i+1 : j])
			out = append(out, sqlTok{k: 'p', n: n})
			i = j
		case c == ':' && i+1 < len(q) && q[i+1] == ':':
			out = append(out, sqlTok{k: 'o', s: "::"})
			i += 2
		case c == ':' && i+1 < len(q) && (unicode.IsLetter(rune(q[i+1])) || q[i+1] == '_'):
			j := i + 1
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || q[j] == '_' || (q[j] >= '0' && q[j] <= '9')) {
				j++
			}
			out = append(out, sqlTok{k: ':', s: q[i+1 : j]})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || q[j] == '_' || (q[j] >= '0' && q[j] <= '9')) {
				j++
			}
			out = append(out, sqlTok{k: 'i', s: strings.ToLower(q[i:j])})
			i = j
		default:
			for _, op := range []string{"<>", "!=", "<=", ">=", "||"} {
				if strings.HasPrefix(q[i:], op) {
					out = append(out, sqlTok{k: 'o', s: op})
					i += 2
					goto next
				}
			}
			if !strings.ContainsRune("()[],;.=<>*+-?/", rune(c)) {
				panic(sqlParseErr{fmt.Sprintf("unexpected character %q", c)})
			}
			out = append(out, sqlTok{k: 'o', s: string(c)})
			i++
		next:
		}
	}
	return append(out, sqlTok{k: 'e'})
}

// ---- AST ----

type sqlEx interface{}

type (
	exConst struct{ v any } // int64, string, bool, nil
	exParam struct{ n int }
	exNamed struct{ s string }
	exCol   struct{ t, c string }
	exBin   struct {
		op   string
		a, b sqlEx
	}
	exNot    struct{ a sqlEx }
	exIsNull struct {
		a   sqlEx
		not bool
	}
	exIn struct {
		a    sqlEx
		list []sqlEx
		sel  *sqlSel
		not  bool
	}
	exAny struct {
		op  string
		a   sqlEx
		arr sqlEx
		sel *sqlSel
	}
	exFunc struct {
		name     string
		args     []sqlEx
		star     bool
		over     bool
		part     []sqlEx
		overOrd  []sqlOrd
		distinct bool
	}
	exSub    struct{ sel *sqlSel }
	exExists struct{ sel *sqlSel }
	exRow    struct{ l []sqlEx }
	exCase   struct {
		conds, vals []sqlEx
		els         sqlEx
	}
	exArr struct{ l []sqlEx }
)

type sqlOrd struct {
	e    sqlEx
	desc bool
}
type sqlItem struct {
	e         sqlEx
	alias     string
	star      bool
	starTable string
}
type sqlFrom struct {
	join    string // "comma", "inner", "left"
	table   string
	alias   string
	cols    []string
	sub     *sqlSel
	fn      *exFunc
	lateral bool
	on      sqlEx
	using   []string
}
type sqlCTE struct {
	name      string
	cols      []string
	sel       *sqlSel
	stmt      *sqlStmt
	recursive bool
}
type sqlSel struct {
	with       []sqlCTE
	distinct   bool
	distinctOn []sqlEx
	items      []sqlItem
	from       []sqlFrom
	where      sqlEx
	group      []sqlEx
	having     sqlEx
	order      []sqlOrd
	limit      sqlEx
	offset     sqlEx
	forUpdate  bool
	into       string
	union      *sqlSel
	unionAll   bool
	values     [][]sqlEx
}
type sqlSet struct {
	col string
	e   sqlEx
}
type sqlColDef struct {
	name    string
	typ     string
	notNull bool
	def     sqlEx
	hasDef  bool
}
type sqlStmt struct {
	kind        string
	name        string
	alias       string
	cols        []sqlColDef
	uniques     [][]string
	icols       []string
	rows        [][]sqlEx
	isel        *sqlSel
	hasConflict bool
	confCols    []string
	doUpdate    bool
	sets        []sqlSet
	confWhere   sqlEx
	where       sqlEx
	returning   []sqlItem
	using       []sqlFrom
	with        []sqlCTE
	sel         *sqlSel
	ifNotExists bool
}

func (p *sqlParser) peek() sqlTok { return p.t[p.i] }
func (p *sqlParser) peekN(n int) sqlTok {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return sqlTok{k: 'e'}
}
func (p *sqlParser) next() sqlTok { t := p.t[p.i]; p.i++; return t }
func (p *sqlParser) fail(msg string) {
	panic(sqlParseErr{fmt.Sprintf("%s near token %d %q", msg, p.i, p.peek().s)})
}
func (p *sqlParser) kw(s string) bool {
	if t := p.peek(); t.k == 'i' && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) isKw(s string) bool { t := p.peek(); return t.k == 'i' && t.s == s }
func (p *sqlParser) op(s string) bool {
	if t := p.peek(); t.k == 'o' && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) isOp(s string) bool { t := p.peek(); return t.k == 'o' && t.s == s }
func (p *sqlParser) needKw(s string) {
	if !p.kw(s) {
		p.fail("expected " + s)
	}
}
func (p *sqlParser) needOp(s string) {
	if !p.op(s) {
		p.fail("expected " + s)
	}
}
func (p *sqlParser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *sqlParser) identList() []string {
	p.needOp("(")
	var l []string
	for {
		l = append(l, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return l
}

var sqlCache sync.Map

func sqlParse(q string) (st []*sqlStmt, err error) {
	if c, ok := sqlCache.Load(q); ok {
		return c.([]*sqlStmt), nil
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlParseErr); ok {
				err = fmt.Errorf("%s in %q", e.msg, q)
				return
			}
			panic(r)
		}
	}()
	p := &sqlParser{t: sqlLex(q)}
	for {
		for p.op(";") {
		}
		if p.peek().k == 'e' {
			break
		}
		st = append(st, p.stmt())
	}
	sqlCache.Store(q, st)
	return st, nil
}

func (p *sqlParser) stmt() *sqlStmt {
	if p.kw("create") {
		return p.create()
	}
	if p.kw("alter") || p.kw("drop") || p.kw("set") || p.kw("analyze") {
		for !p.isOp(";") && p.peek().k != 'e' {
			p.i++
		}
		return &sqlStmt{kind: "nop"}
	}
	var with []sqlCTE
	if p.isKw("with") {
		with = p.with()
	}
	switch {
	case p.isKw("select") || p.isOp("("):
		s := p.selectStmt()
		s.with = append(with, s.with...)
		return &sqlStmt{kind: "select", sel: s}
	case p.kw("insert"):
		return p.insert(with)
	case p.kw("update"):
		s := &sqlStmt{kind: "update", name: p.ident(), with: with}
		s.alias = s.name
		if p.kw("as") {
			s.alias = p.ident()
		} else if !p.isKw("set") {
			s.alias = p.ident()
		}
		p.needKw("set")
		s.sets = p.sets()
		if p.kw("from") {
			s.using = p.fromList()
		}
		if p.kw("where") {
			s.where = p.expr()
		}
		if p.kw("returning") {
			s.returning = p.items()
		}
		return s
	case p.kw("delete"):
		p.needKw("from")
		s := &sqlStmt{kind: "delete", name: p.ident(), with: with}
		s.alias = s.name
		if p.kw("as") {
			s.alias = p.ident()
		}
		if p.kw("using") {
			s.using = p.fromList()
		}
		if p.kw("where") {
			s.where = p.expr()
		}
		if p.kw("returning") {
			s.returning = p.items()
		}
		return s
	}
	p.fail("unsupported statement")
	return nil
}

func (p *sqlParser) sets() []sqlSet {
	var l []sqlSet
	for {
		c := p.ident()
		p.needOp("=")
		l = append(l, sqlSet{c, p.expr()})
		if !p.op(",") {
			return l
		}
	}
}

func (p *sqlParser) insert(with []sqlCTE) *sqlStmt {
	p.needKw("into")
	s := &sqlStmt{kind: "insert", name: p.ident(), with: with}
	s.alias = s.name
	if p.kw("as") {
		s.alias = p.ident()
	}
	if p.isOp("(") {
		s.icols = p.identList()
	}
	if p.kw("values") {
		for {
			p.needOp("(")
			var r []sqlEx
			for {
				r = append(r, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			s.rows = append(s.rows, r)
			if !p.op(",") {
				break
			}
		}
	} else {
		s.isel = p.selectStmt()
	}
	if p.kw("on") {
		p.needKw("conflict")
		s.hasConflict = true
		if p.isOp("(") {
			s.confCols = p.identList()
		} else if p.kw("on") {
			p.fail("on conflict on constraint")
		}
		p.needKw("do")
		if p.kw("update") {
			s.doUpdate = true
			p.needKw("set")
			s.sets = p.sets()
			if p.kw("where") {
				s.confWhere = p.expr()
			}
		} else {
			p.needKw("nothing")
		}
	}
	if p.kw("returning") {
		s.returning = p.items()
	}
	return s
}

func (p *sqlParser) typeName() string {
	t := p.ident()
	if t == "timestamp" && p.kw("with") {
		p.needKw("time")
		p.needKw("zone")
	}
	if t == "double" {
		p.needKw("precision")
	}
	if p.op("(") {
		for !p.op(")") {
			p.i++
		}
	}
	for p.op("[") {
		p.needOp("]")
		t += "[]"
	}
	return t
}

func (p *sqlParser) create() *sqlStmt {
	skip := func() {
		for !p.isOp(";") && p.peek().k != 'e' {
			p.i++
		}
	}
	ine := func() bool {
		if p.kw("if") {
			p.needKw("not")
			p.needKw("exists")
			return true
		}
		return false
	}
	if p.kw("sequence") {
		s := &sqlStmt{kind: "createseq", ifNotExists: ine()}
		s.name = p.ident()
		skip()
		return s
	}
	if p.kw("index") {
		skip()
		return &sqlStmt{kind: "nop"}
	}
	if p.kw("unique") {
		p.needKw("index")
		ine()
		p.ident()
		p.needKw("on")
		s := &sqlStmt{kind: "unique", name: p.ident()}
		s.uniques = [][]string{p.identList()}
		if p.isKw("where") {
			p.fail("partial index")
		}
		return s
	}
	p.kw("temp")
	p.kw("unlogged")
	p.needKw("table")
	s := &sqlStmt{kind: "createtable", ifNotExists: ine()}
	s.name = p.ident()
	p.needOp("(")
	for {
		switch {
		case p.kw("unique"):
			s.uniques = append(s.uniques, p.identList())
		case p.isKw("primary"):
			p.i++
			p.needKw("key")
			l := p.identList()
			s.uniques = append(s.uniques, l)
			for _, c := range l {
				for i := range s.cols {
					if s.cols[i].name == c {
						s.cols[i].notNull = true
					}
				}
			}
		default:
			c := sqlColDef{name: p.ident()}
			c.typ = p.typeName()
			if c.typ == "bigserial" || c.typ == "serial" {
				p.fail("serial")
			}
			for !p.isOp(",") && !p.isOp(")") {
				switch {
				case p.kw("not"):
					p.needKw("null")
					c.notNull = true
				case p.kw("null"):
				case p.kw("primary"):
					p.needKw("key")
					c.notNull = true
					s.uniques = append(s.uniques, []string{c.name})
				case p.kw("unique"):
					s.uniques = append(s.uniques, []string{c.name})
				case p.kw("default"):
					c.def = p.primary()
					c.hasDef = true
				default:
					p.fail("column constraint")
				}
			}
			s.cols = append(s.cols, c)
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	skip()
	return s
}

func (p *sqlParser) with() []sqlCTE {
	p.needKw("with")
	rec := p.kw("recursive")
	var l []sqlCTE
	for {
		c := sqlCTE{name: p.ident(), recursive: rec}
		if p.isOp("(") {
			c.cols = p.identList()
		}
		p.needKw("as")
		p.kw("materialized")
		p.needOp("(")
		st := p.stmt()
		if st.kind == "select" {
			c.sel = st.sel
		} else {
			c.stmt = st
		}
		p.needOp(")")
		l = append(l, c)
		if !p.op(",") {
			return l
		}
	}
}

// selectStmt := selectCore [UNION [ALL] selectCore] [ORDER BY] [LIMIT]
func (p *sqlParser) selectStmt() *sqlSel {
	var with []sqlCTE
	if p.isKw("with") {
		with = p.with()
	}
	s := p.selectCore()
	s.with = append(with, s.with...)
	if p.kw("union") {
		s.unionAll = p.kw("all")
		s.union = p.selectStmt()
	}
	return s
}

func (p *sqlParser) selectCore() *sqlSel {
	if p.op("(") {
		s := p.selectStmt()
		p.needOp(")")
		// a parenthesised select with its own modifiers: wrap
		return &sqlSel{items: []sqlItem{{star: true}}, from: []sqlFrom{{join: "comma", sub: s, alias: "?"}}}
	}
	s := &sqlSel{}
	p.needKw("select")
	if p.kw("distinct") {
		if p.kw("on") {
			p.needOp("(")
			for {
				s.distinctOn = append(s.distinctOn, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
		} else {
			s.distinct = true
		}
	}
	s.items = p.items()
	if p.kw("into") {
		if !p.kw("temp") {
			p.kw("temporary")
		}
		p.kw("table")
		s.into = p.ident()
	}
	if p.kw("from") {
		s.from = p.fromList()
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("group") {
		p.needKw("by")
		for {
			e := p.expr()
			if r, ok := e.(*exRow); ok {
				s.group = append(s.group, r.l...)
			} else {
				s.group = append(s.group, e)
			}
			if !p.op(",") {
				break
			}
		}
		if p.kw("having") {
			s.having = p.expr()
		}
	}
	if p.kw("order") {
		p.needKw("by")
		s.order = p.orders()
	}
	for {
		if p.kw("limit") {
			s.limit = p.expr()
		} else if p.kw("offset") {
			s.offset = p.expr()
		} else {
			break
		}
	}
	if p.kw("for") {
		if !p.kw("update") {
			p.needKw("share")
		}
		s.forUpdate = true
	}
	return s
}

func (p *sqlParser) orders() []sqlOrd {
	var l []sqlOrd
	for {
		o := sqlOrd{e: p.expr()}
		if p.kw("desc") {
			o.desc = true
		} else {
			p.kw("asc")
		}
		l = append(l, o)
		if !p.op(",") {
			return l
		}
	}
}

var sqlReserved = map[string]bool{"from": true, "where": true, "group": true, "order": true, "limit": true, "on": true, "using": true, "join": true, "inner": true,
	"left": true, "union": true, "having": true, "into": true, "for": true, "returning": true, "and": true, "or": true, "set": true, "lateral": true, "as": true,
	"asc": true, "desc": true, "is": true, "not": true, "in": true, "cross": true, "right": true, "offset": true, "then": true, "else": true, "end": true, "when": true, "do": true}

func (p *sqlParser) items() []sqlItem {
	var l []sqlItem
	for {
		var it sqlItem
		if p.op("*") {
			it.star = true
		} else if p.peek().k == 'i' && p.peekN(1).s == "." && p.peekN(2).k == 'o' && p.peekN(2).s == "*" {
			it.star = true
			it.starTable = p.ident()
			p.i += 2
		} else {
			it.e = p.expr()
			if p.kw("as") {
				it.alias = p.ident()
			} else if t := p.peek(); t.k == 'i' && !sqlReserved[t.s] {
				it.alias = p.ident()
			}
		}
		l = append(l, it)
		if !p.op(",") {
			return l
		}
	}
}

func (p *sqlParser) fromItem(join string) sqlFrom {
	f := sqlFrom{join: join}
	if p.kw("lateral") {
		f.lateral = true
	}
	if p.op("(") {
		f.sub = p.selectStmt()
		p.needOp(")")
	} else {
		n := p.ident()
		if p.isOp("(") {
			p.i--
			fn, ok := p.primary().(*exFunc)
			if !ok {
				p.fail("from function")
			}
			f.fn = fn
			f.alias = n
		} else {
			f.table = n
			f.alias = n
		}
	}
	if p.kw("as") {
		f.alias = p.ident()
	} else if t := p.peek(); t.k == 'i' && !sqlReserved[t.s] {
		f.alias = p.ident()
	}
	if f.alias != "" && p.isOp("(") {
		f.cols = p.identList()
	}
	return f
}

func (p *sqlParser) fromList() []sqlFrom {
	l := []sqlFrom{p.fromItem("comma")}
	for {
		if p.op(",") {
			l = append(l, p.fromItem("comma"))
			continue
		}
		join := ""
		if p.kw("join") {
			join = "inner"
		} else if p.kw("inner") {
			p.needKw("join")
			join = "inner"
		} else if p.kw("left") {
			p.kw("outer")
			p.needKw("join")
			join = "left"
		} else if p.kw("cross") {
			p.needKw("join")
			l = append(l, p.fromItem("comma"))
			continue
		} else {
			return l
		}
		f := p.fromItem(join)
		if p.kw("on") {
			f.on = p.expr()
		} else if p.kw("using") {
			f.using = p.identList()
		} else {
			p.fail("join condition")
		}
		l = append(l, f)
	}
}

func (p *sqlParser) expr() sqlEx {
	a := p.andExpr()
	for p.kw("or") {
		a = &exBin{"or", a, p.andExpr()}
	}
	return a
}
func (p *sqlParser) andExpr() sqlEx {
	a := p.notExpr()
	for p.kw("and") {
		a = &exBin{"and", a, p.notExpr()}
	}
	return a
}
func (p *sqlParser) notExpr() sqlEx {
	if p.kw("not") {
		return &exNot{p.notExpr()}
	}
	return p.cmp()
}
func (p *sqlParser) cmp() sqlEx {
	a := p.add()
	for {
		switch {
		case p.kw("is"):
			not := p.kw("not")
			if p.kw("null") {
				a = &exIsNull{a, not}
			} else {
				p.fail("is")
			}
		case p.isKw("in") || (p.isKw("not") && p.peekN(1).s == "in"):
			not := p.kw("not")
			p.needKw("in")
			p.needOp("(")
			e := &exIn{a: a, not: not}
			if p.isKw("select") || p.isKw("with") {
				e.sel = p.selectStmt()
			} else {
				for {
					e.list = append(e.list, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			a = e
		case p.isKw("between"):
			p.i++
			lo := p.add()
			p.needKw("and")
			hi := p.add()
			a = &exBin{"and", &exBin{">=", a, lo}, &exBin{"<=", a, hi}}
		case p.isOp("=") || p.isOp("<>") || p.isOp("!=") || p.isOp("<") || p.isOp(">") || p.isOp("<=") || p.isOp(">="):
			op := p.next().s
			if op == "!=" {
				op = "<>"
			}
			if p.isKw("any") || p.isKw("all") {
				if p.kw("all") {
					p.fail("all")
				}
				p.i++
				p.needOp("(")
				e := &exAny{op: op, a: a}
				if p.isKw("select") || p.isKw("with") {
					e.sel = p.selectStmt()
				} else {
					e.arr = p.expr()
				}
				p.needOp(")")
				a = e
			} else {
				a = &exBin{op, a, p.add()}
			}
		default:
			return a
		}
	}
}
func (p *sqlParser) add() sqlEx {
	a := p.postfix()
	for {
		if p.op("+") {
			a = &exBin{"+", a, p.postfix()}
		} else if p.op("-") {
			a = &exBin{"-", a, p.postfix()}
		} else if p.op("||") {
			a = &exBin{"||", a, p.postfix()}
		} else {
			return a
		}
	}
}
func (p *sqlParser) postfix() sqlEx {
	a := p.primary()
	for p.op("::") {
		p.typeName()
	}
	return a
}
func (p *sqlParser) primary() sqlEx {
	t := p.next()
	switch t.k {
	case 'n':
		return &exConst{int64(t.n)}
	case 's':
		return &exConst{t.s}
	case 'p':
		return &exParam{t.n}
	case ':':
		return &exNamed{t.s}
	case 'o':
		switch t.s {
		case "(":
			if p.isKw("select") || p.isKw("with") {
				s := p.selectStmt()
				p.needOp(")")
				return &exSub{s}
			}
			l := []sqlEx{p.expr()}
			for p.op(",") {
				l = append(l, p.expr())
			}
			p.needOp(")")
			if len(l) == 1 {
				return l[0]
			}
			return &exRow{l}
		case "-":
			e := p.primary()
			if c, ok := e.(*exConst); ok {
				if n, ok := c.v.(int64); ok {
					return &exConst{-n}
				}
			}
			p.fail("unary minus")
		}
	case 'i':
		switch t.s {
		case "null":
			return &exConst{nil}
		case "true":
			return &exConst{true}
		case "false":
			return &exConst{false}
		case "exists":
			p.needOp("(")
			s := p.selectStmt()
			p.needOp(")")
			return &exExists{s}
		case "array":
			if p.op("[") {
				e := &exArr{}
				for !p.op("]") {
					e.l = append(e.l, p.expr())
					p.op(",")
				}
				return e
			}
		case "case":
			e := &exCase{}
			for p.kw("when") {
				e.conds = append(e.conds, p.expr())
				p.needKw("then")
				e.vals = append(e.vals, p.expr())
			}
			if p.kw("else") {
				e.els = p.expr()
			}
			p.needKw("end")
			return e
		}
		if p.op("(") {
			f := &exFunc{name: t.s}
			if p.op("*") {
				f.star = true
			} else if !p.isOp(")") {
				f.distinct = p.kw("distinct")
				for {
					f.args = append(f.args, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			if p.kw("over") {
				f.over = true
				p.needOp("(")
				if p.kw("partition") {
					p.needKw("by")
					for {
						f.part = append(f.part, p.expr())
						if !p.op(",") {
							break
						}
					}
				}
				if p.kw("order") {
					p.needKw("by")
					f.overOrd = p.orders()
				}
				p.needOp(")")
			}
			return f
		}
		if p.op(".") {
			return &exCol{t.s, p.ident()}
		}
		return &exCol{"", t.s}
	}
	p.i--
	p.fail("expression")
	return nil
}
