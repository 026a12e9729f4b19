package main

// A relational engine over symbolic values: the SQL text which the code under test sends through
// sqlx/database/sql is parsed (sqlparse.go) and evaluated here with PostgreSQL semantics. Rows are
// concrete in number, column values are terms; row predicates with symbolic operands fork the path.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sqlArr []value

type sqlCol struct{ t, c string }

type sqlRel struct {
	cols []sqlCol
	rows [][]value
}

type sqlTable struct {
	name    string
	cols    []sqlColDef
	uniques [][]int
	rows    [][]value
}

func (t *sqlTable) col(n string) int {
	for i := range t.cols {
		if t.cols[i].name == n {
			return i
		}
	}
	return -1
}

type sqlState struct {
	tables map[string]*sqlTable
	temp   map[string]bool
}

func (s *sqlState) copy() *sqlState {
	n := &sqlState{tables: map[string]*sqlTable{}, temp: map[string]bool{}}
	for k, v := range s.tables {
		n.tables[k] = v
	}
	for k := range s.temp {
		n.temp[k] = true
	}
	return n
}

func (s *sqlState) set(t *sqlTable, rows [][]value) {
	n := *t
	n.rows = rows
	s.tables[t.name] = &n
}

type sqlDB struct {
	cur    *sqlState
	seqs   map[string]int64
	faults int
	stmts  int
}

type sqlTx struct {
	base, st *sqlState
	wrote    bool
	done     bool
	aborted  bool
}

type sqlErr struct {
	msg   string
	noRow bool
}

type sqlEnv struct {
	cols   []sqlCol
	row    []value
	group  [][]value
	inAgg  bool
	parent *sqlEnv
	over   map[*exFunc]value
}

type sqlCtx struct {
	m      *machine
	fr     *frame
	db     *sqlDB
	st     *sqlState
	params []value
	named  func(string) (value, bool)
	ctes   map[string]*sqlRel
	wrote  bool
}

func (m *machine) sqlDB() *sqlDB {
	d, _ := m.side["sqldb"].(*sqlDB)
	if d == nil {
		d = &sqlDB{cur: &sqlState{tables: map[string]*sqlTable{}, temp: map[string]bool{}}, seqs: map[string]int64{}}
		m.side["sqldb"] = d
	}
	return d
}

func (c *sqlCtx) unsup(msg string) any { return c.m.unsupported("sql: " + msg) }

func sqlThrow(msg string, a ...any) { panic(sqlErr{msg: fmt.Sprintf(msg, a...)}) }

// ---- expressions ----

func (c *sqlCtx) lookup(env *sqlEnv, e *exCol) (value, bool) {
	for s := env; s != nil; s = s.parent {
		for i, col := range s.cols {
			if col.c == e.c && (e.t == "" || e.t == col.t) {
				row := s.row
				if row == nil && s.group != nil && len(s.group) > 0 {
					row = s.group[0]
				}
				if row == nil {
					return nil, true
				}
				return row[i], true
			}
		}
	}
	return nil, false
}

func (c *sqlCtx) boolE(v value) *Expr {
	if v == nil {
		return c.m.x.F
	}
	e, ok := v.(*Expr)
	if !ok || e.w != 0 {
		panic(c.unsup(fmt.Sprintf("boolean expected, got %T", v)))
	}
	return e
}

// cond decides whether a predicate is true (neither false nor NULL).
func (c *sqlCtx) cond(env *sqlEnv, e sqlEx) bool {
	if e == nil {
		return true
	}
	return c.m.branch(c.boolE(c.eval(env, e)))
}

func (c *sqlCtx) cmp(op string, a, b value) value {
	if a == nil || b == nil {
		return nil
	}
	m := c.m
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			panic(c.unsup(fmt.Sprintf("compare %T with %T", a, b)))
		}
		if x.w != y.w {
			panic(c.unsup("compare int with bool"))
		}
		switch op {
		case "=":
			return m.x.Eq(x, y)
		case "<>":
			return m.x.Not(m.x.Eq(x, y))
		}
		if x.w == 0 {
			panic(c.unsup("order of booleans"))
		}
		switch op {
		case "<":
			return m.x.Bin(OSlt, x, y)
		case "<=":
			return m.x.Bin(OSle, x, y)
		case ">":
			return m.x.Bin(OSlt, y, x)
		case ">=":
			return m.x.Bin(OSle, y, x)
		}
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			panic(c.unsup(fmt.Sprintf("compare %T with %T", a, b)))
		}
		switch op {
		case "=":
			return m.strEq(x, y)
		case "<>":
			return m.x.Not(m.strEq(x, y))
		}
		return m.liftStr([]*Str{x, y}, func(s []string) (value, bool) {
			r := strings.Compare(s[0], s[1])
			switch op {
			case "<":
				return m.x.Bool(r < 0), true
			case "<=":
				return m.x.Bool(r <= 0), true
			case ">":
				return m.x.Bool(r > 0), true
			}
			return m.x.Bool(r >= 0), true
		})
	case sqlArr:
		y, ok := b.(sqlArr)
		if ok && op == "=" {
			if len(x) != len(y) {
				return m.x.F
			}
			r := m.x.T
			for i := range x {
				r = m.x.And(r, c.boolE(c.cmp("=", x[i], y[i])))
			}
			return r
		}
	case structure: // timestamps
		y, ok := b.(structure)
		if ok && len(x) == 3 && len(y) == 3 {
			return c.cmp(op, x[1], y[1])
		}
	}
	panic(c.unsup(fmt.Sprintf("compare %T %s %T", a, op, b)))
}

func (c *sqlCtx) arr(v value) (sqlArr, bool) {
	if v == nil {
		return nil, false
	}
	a, ok := v.(sqlArr)
	if !ok {
		panic(c.unsup(fmt.Sprintf("array expected, got %T", v)))
	}
	return a, true
}

func (c *sqlCtx) anyOf(op string, a value, list []value) value {
	r := c.m.x.F
	null := false
	for _, e := range list {
		v := c.cmp(op, a, e)
		if v == nil {
			null = true
			continue
		}
		r = c.m.x.Or(r, v.(*Expr))
	}
	if null {
		if c.m.branch(r) {
			return c.m.x.T
		}
		return nil
	}
	return r
}

func (c *sqlCtx) col0(r *sqlRel) []value {
	var l []value
	for _, row := range r.rows {
		l = append(l, row[0])
	}
	return l
}

var sqlAggs = map[string]bool{"max": true, "min": true, "count": true, "sum": true, "array_agg": true, "bool_or": true}

func (c *sqlCtx) eval(env *sqlEnv, e sqlEx) value {
	m := c.m
	switch e := e.(type) {
	case *exConst:
		switch v := e.v.(type) {
		case nil:
			return nil
		case int64:
			return m.x.Int(v)
		case string:
			return mkStr(v)
		case bool:
			return m.x.Bool(v)
		}
	case *exParam:
		if e.n < 1 || e.n > len(c.params) {
			sqlThrow("pq: got %d parameters but the statement requires %d", len(c.params), e.n)
		}
		return c.params[e.n-1]
	case *exNamed:
		if c.named == nil {
			sqlThrow("could not find name %s", e.s)
		}
		v, ok := c.named(e.s)
		if !ok {
			sqlThrow("could not find name %s", e.s)
		}
		return v
	case *exCol:
		v, ok := c.lookup(env, e)
		if !ok {
			sqlThrow("pq: column %q does not exist", strings.TrimPrefix(e.t+"."+e.c, "."))
		}
		return v
	case *exBin:
		switch e.op {
		case "and", "or":
			a := c.eval(env, e.a)
			if a != nil {
				if ae := c.boolE(a); e.op == "and" && ae.isFalse() || e.op == "or" && ae.isTrue() {
					return ae
				}
			}
			b := c.eval(env, e.b)
			if a == nil || b == nil {
				if a == nil && b == nil {
					return nil
				}
				o := a
				if o == nil {
					o = b
				}
				t := m.branch(c.boolE(o))
				if e.op == "and" && !t {
					return m.x.F
				}
				if e.op == "or" && t {
					return m.x.T
				}
				return nil
			}
			if e.op == "and" {
				return m.x.And(c.boolE(a), c.boolE(b))
			}
			return m.x.Or(c.boolE(a), c.boolE(b))
		case "+", "-":
			a, b := c.eval(env, e.a), c.eval(env, e.b)
			if a == nil || b == nil {
				return nil
			}
			op := OAdd
			if e.op == "-" {
				op = OSub
			}
			return m.x.Bin(op, a.(*Expr), b.(*Expr))
		case "||":
			a, b := c.eval(env, e.a), c.eval(env, e.b)
			if a == nil || b == nil {
				return nil
			}
			if x, ok := a.(sqlArr); ok {
				if y, ok := b.(sqlArr); ok {
					return append(append(sqlArr{}, x...), y...)
				}
				return append(append(sqlArr{}, x...), b)
			}
			return m.strConcat(a.(*Str), b.(*Str))
		}
		if ra, ok := e.a.(*exRow); ok {
			rb, ok := e.b.(*exRow)
			if !ok || e.op != "=" || len(ra.l) != len(rb.l) {
				panic(c.unsup("row comparison"))
			}
			r := m.x.T
			for i := range ra.l {
				r = m.x.And(r, c.boolE(c.cmp("=", c.eval(env, ra.l[i]), c.eval(env, rb.l[i]))))
			}
			return r
		}
		return c.cmp(e.op, c.eval(env, e.a), c.eval(env, e.b))
	case *exNot:
		a := c.eval(env, e.a)
		if a == nil {
			return nil
		}
		return m.x.Not(c.boolE(a))
	case *exIsNull:
		a := c.eval(env, e.a)
		return m.x.Bool((a == nil) != e.not)
	case *exIn:
		var list []value
		if ra, ok := e.a.(*exRow); ok {
			var rows [][]value
			if e.sel != nil {
				rows = c.sel(env, e.sel).rows
			} else {
				for _, x := range e.list {
					rl, ok := x.(*exRow)
					if !ok {
						panic(c.unsup("row IN"))
					}
					var r []value
					for _, y := range rl.l {
						r = append(r, c.eval(env, y))
					}
					rows = append(rows, r)
				}
			}
			var av []value
			for _, x := range ra.l {
				av = append(av, c.eval(env, x))
			}
			r := m.x.F
			for _, row := range rows {
				q := m.x.T
				for i := range av {
					q = m.x.And(q, c.boolE(c.cmp("=", av[i], row[i])))
				}
				r = m.x.Or(r, q)
			}
			if e.not {
				r = m.x.Not(r)
			}
			return r
		}
		a := c.eval(env, e.a)
		if e.sel != nil {
			list = c.col0(c.sel(env, e.sel))
		} else {
			for _, x := range e.list {
				list = append(list, c.eval(env, x))
			}
		}
		if a == nil {
			if len(list) == 0 {
				return m.x.Bool(e.not)
			}
			return nil
		}
		v := c.anyOf("=", a, list)
		if v != nil && e.not {
			return m.x.Not(v.(*Expr))
		}
		return v
	case *exAny:
		a := c.eval(env, e.a)
		var list []value
		if e.sel != nil {
			list = c.col0(c.sel(env, e.sel))
		} else {
			l, ok := c.arr(c.eval(env, e.arr))
			if !ok {
				return nil
			}
			list = l
		}
		if a == nil {
			return nil
		}
		return c.anyOf(e.op, a, list)
	case *exSub:
		r := c.sel(env, e.sel)
		if len(r.rows) == 0 {
			return nil
		}
		if len(r.rows) > 1 {
			sqlThrow("pq: more than one row returned by a subquery used as an expression")
		}
		return r.rows[0][0]
	case *exExists:
		return m.x.Bool(len(c.sel(env, e.sel).rows) > 0)
	case *exCase:
		for i := range e.conds {
			if c.cond(env, e.conds[i]) {
				return c.eval(env, e.vals[i])
			}
		}
		if e.els != nil {
			return c.eval(env, e.els)
		}
		return nil
	case *exArr:
		l := sqlArr{}
		for _, x := range e.l {
			l = append(l, c.eval(env, x))
		}
		return l
	case *exFunc:
		return c.fn(env, e)
	}
	panic(c.unsup(fmt.Sprintf("expression %T", e)))
}

func (c *sqlCtx) fn(env *sqlEnv, e *exFunc) value {
	m := c.m
	if e.over {
		for s := env; s != nil; s = s.parent {
			if v, ok := s.over[e]; ok {
				return v
			}
		}
		panic(c.unsup("window function"))
	}
	if sqlAggs[e.name] {
		if env == nil || !env.inAgg {
			panic(c.unsup("aggregate outside select list"))
		}
		var vals []value
		for _, row := range env.group {
			if e.star {
				vals = append(vals, m.x.Int(1))
				continue
			}
			if v := c.eval(&sqlEnv{cols: env.cols, row: row, parent: env.parent}, e.args[0]); v != nil {
				vals = append(vals, v)
			}
		}
		if e.distinct {
			panic(c.unsup("aggregate distinct"))
		}
		switch e.name {
		case "count":
			return m.x.Int(int64(len(vals)))
		case "max", "min":
			var r value
			for _, v := range vals {
				if r == nil {
					r = v
					continue
				}
				op := ">"
				if e.name == "min" {
					op = "<"
				}
				g := c.cmp(op, v, r).(*Expr)
				if ve, ok := v.(*Expr); ok {
					r = m.x.Ite(g, ve, r.(*Expr))
				} else if m.branch(g) {
					r = v
				}
			}
			return r
		case "sum":
			if len(vals) == 0 {
				return nil
			}
			r := m.x.Int(0)
			for _, v := range vals {
				r = m.x.Bin(OAdd, r, v.(*Expr))
			}
			return r
		case "array_agg":
			if len(vals) == 0 {
				return nil
			}
			return sqlArr(vals)
		case "bool_or":
			if len(vals) == 0 {
				return nil
			}
			r := m.x.F
			for _, v := range vals {
				r = m.x.Or(r, c.boolE(v))
			}
			return r
		}
	}
	var args []value
	for _, a := range e.args {
		args = append(args, c.eval(env, a))
	}
	switch e.name {
	case "array_cat":
		a, _ := c.arr(args[0])
		b, _ := c.arr(args[1])
		return append(append(sqlArr{}, a...), b...)
	case "array_append":
		a, _ := c.arr(args[0])
		return append(append(sqlArr{}, a...), args[1])
	case "coalesce":
		for _, a := range args {
			if a != nil {
				return a
			}
		}
		return nil
	case "greatest", "least":
		var r value
		for _, v := range args {
			if v == nil {
				continue
			}
			if r == nil {
				r = v
				continue
			}
			op := ">"
			if e.name == "least" {
				op = "<"
			}
			r = m.x.Ite(c.cmp(op, v, r).(*Expr), v.(*Expr), r.(*Expr))
		}
		return r
	case "nextval":
		n := m.concretizeStr(args[0].(*Str))
		if _, ok := c.db.seqs[n]; !ok {
			sqlThrow("pq: relation %q does not exist", n)
		}
		c.db.seqs[n]++
		return m.x.Int(c.db.seqs[n])
	case "cardinality", "array_length":
		a, ok := c.arr(args[0])
		if !ok {
			return nil
		}
		if len(a) == 0 && e.name == "array_length" {
			return nil
		}
		return m.x.Int(int64(len(a)))
	case "lower":
		if args[0] == nil {
			return nil
		}
		return m.liftStr([]*Str{args[0].(*Str)}, func(s []string) (value, bool) { return mkStr(strings.ToLower(s[0])), true })
	}
	panic(c.unsup("function " + e.name))
}

func hasAgg(e sqlEx) bool {
	switch e := e.(type) {
	case *exFunc:
		if e.over {
			return false
		}
		if sqlAggs[e.name] {
			return true
		}
		for _, a := range e.args {
			if hasAgg(a) {
				return true
			}
		}
	case *exBin:
		return hasAgg(e.a) || hasAgg(e.b)
	case *exNot:
		return hasAgg(e.a)
	case *exIsNull:
		return hasAgg(e.a)
	}
	return false
}

func findOver(e sqlEx, out *[]*exFunc) {
	switch e := e.(type) {
	case *exFunc:
		if e.over {
			*out = append(*out, e)
		}
	case *exBin:
		findOver(e.a, out)
		findOver(e.b, out)
	}
}

func exName(e sqlEx) string {
	switch e := e.(type) {
	case *exCol:
		return e.c
	case *exFunc:
		return e.name
	case *exSub:
		if len(e.sel.items) == 1 && !e.sel.items[0].star {
			if e.sel.items[0].alias != "" {
				return e.sel.items[0].alias
			}
			return exName(e.sel.items[0].e)
		}
	}
	return "?column?"
}

// ---- select ----

func (c *sqlCtx) source(env *sqlEnv, f *sqlFrom) *sqlRel {
	var r *sqlRel
	switch {
	case f.sub != nil:
		r = c.sel(env, f.sub)
	case f.fn != nil:
		if f.fn.name != "unnest" {
			panic(c.unsup("from function " + f.fn.name))
		}
		r = &sqlRel{cols: []sqlCol{{"", f.alias}}}
		if a, ok := c.arr(c.eval(env, f.fn.args[0])); ok {
			for _, v := range a {
				r.rows = append(r.rows, []value{v})
			}
		}
	default:
		if cte, ok := c.ctes[f.table]; ok {
			r = cte
		} else {
			t := c.st.tables[f.table]
			if t == nil {
				sqlThrow("pq: relation %q does not exist", f.table)
			}
			r = &sqlRel{rows: t.rows}
			for _, col := range t.cols {
				r.cols = append(r.cols, sqlCol{"", col.name})
			}
		}
	}
	n := &sqlRel{rows: r.rows}
	for i, col := range r.cols {
		name := col.c
		if i < len(f.cols) {
			name = f.cols[i]
		}
		n.cols = append(n.cols, sqlCol{f.alias, name})
	}
	return n
}

func (c *sqlCtx) from(env *sqlEnv, fs []sqlFrom) *sqlRel {
	cur := &sqlRel{rows: [][]value{{}}}
	for i := range fs {
		f := &fs[i]
		next := &sqlRel{}
		var rel *sqlRel
		if !f.lateral && f.fn == nil {
			rel = c.source(env, f)
		}
		var cols []sqlCol
		for _, row := range cur.rows {
			rr := rel
			if rr == nil {
				rr = c.source(&sqlEnv{cols: cur.cols, row: row, parent: env}, f)
			}
			drop := map[int]bool{}
			for _, u := range f.using {
				for k, col := range rr.cols {
					if col.c == u {
						drop[k] = true
					}
				}
			}
			cols = append(append([]sqlCol{}, cur.cols...), nil...)
			for k, col := range rr.cols {
				if !drop[k] {
					cols = append(cols, col)
				}
			}
			matched := false
			for _, r2 := range rr.rows {
				ok := true
				for _, u := range f.using {
					a, _ := c.lookup(&sqlEnv{cols: cur.cols, row: row}, &exCol{c: u})
					b, _ := c.lookup(&sqlEnv{cols: rr.cols, row: r2}, &exCol{c: u})
					if !c.m.branch(c.boolE(c.cmp("=", a, b))) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				nr := append(append([]value{}, row...), nil...)
				for k, v := range r2 {
					if !drop[k] {
						nr = append(nr, v)
					}
				}
				if f.on != nil && !c.cond(&sqlEnv{cols: cols, row: nr, parent: env}, f.on) {
					continue
				}
				matched = true
				next.rows = append(next.rows, nr)
			}
			if !matched && f.join == "left" {
				nr := append([]value{}, row...)
				for k := range rr.cols {
					if !drop[k] {
						nr = append(nr, nil)
					}
				}
				next.rows = append(next.rows, nr)
			}
		}
		if cols == nil { // no rows on the left: the columns are still known
			cols = append([]sqlCol{}, cur.cols...)
			if rel == nil {
				rel = c.source(&sqlEnv{cols: cur.cols, row: make([]value, len(cur.cols)), parent: env}, f)
			}
			for _, col := range rel.cols {
				u := false
				for _, x := range f.using {
					u = u || x == col.c
				}
				if !u {
					cols = append(cols, col)
				}
			}
		}
		next.cols = cols
		cur = next
	}
	return cur
}

func (c *sqlCtx) withCTEs(env *sqlEnv, with []sqlCTE) func() {
	if len(with) == 0 {
		return func() {}
	}
	old := c.ctes
	n := map[string]*sqlRel{}
	for k, v := range old {
		n[k] = v
	}
	c.ctes = n
	rename := func(r *sqlRel, cols []string) *sqlRel {
		o := &sqlRel{rows: r.rows}
		for i, col := range r.cols {
			name := col.c
			if i < len(cols) {
				name = cols[i]
			}
			o.cols = append(o.cols, sqlCol{"", name})
		}
		return o
	}
	for _, w := range with {
		if w.stmt != nil {
			panic(c.unsup("data-modifying CTE"))
		}
		if w.recursive && w.sel.union != nil {
			base := *w.sel
			base.union = nil
			all := rename(c.sel(env, &base), w.cols)
			work := all
			for k := 0; len(work.rows) > 0; k++ {
				if k > 200 {
					panic(c.unsup("recursive CTE does not terminate"))
				}
				c.ctes[w.name] = work
				step := rename(c.sel(env, w.sel.union), w.cols)
				step.cols = all.cols
				all = &sqlRel{cols: all.cols, rows: append(append([][]value{}, all.rows...), step.rows...)}
				work = step
			}
			c.ctes[w.name] = all
			continue
		}
		c.ctes[w.name] = rename(c.sel(env, w.sel), w.cols)
	}
	return func() { c.ctes = old }
}

// perm applies the unspecified row order of the configuration.
func (c *sqlCtx) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 {
		return p
	}
	switch c.m.cfg.SQLOrder {
	case "reverse":
		for i := range p {
			p[i] = n - 1 - i
		}
	case "any":
		if c.m.sqlPerms < c.m.cfg.SQLPermLimit {
			c.m.sqlPerms++
			for i := 0; i < n-1; i++ {
				j := i + c.m.chooseSym("roworder", n-i)
				e := p[j]
				copy(p[i+1:j+1], p[i:j])
				p[i] = e
			}
		}
	}
	return p
}

type sqlOut struct {
	env *sqlEnv
	row []value
}

func (c *sqlCtx) sel(env *sqlEnv, s *sqlSel) *sqlRel {
	defer c.withCTEs(env, s.with)()
	m := c.m
	src := c.from(env, s.from)
	var rows [][]value
	for _, r := range src.rows {
		if c.cond(&sqlEnv{cols: src.cols, row: r, parent: env}, s.where) {
			rows = append(rows, r)
		}
	}
	agg := len(s.group) > 0 || s.having != nil && hasAgg(s.having)
	for _, it := range s.items {
		if !it.star && hasAgg(it.e) {
			agg = true
		}
	}
	var envs []*sqlEnv
	if agg {
		if len(s.group) == 0 {
			envs = append(envs, &sqlEnv{cols: src.cols, group: rows, inAgg: true, parent: env})
		} else {
			var keys [][]value
			var groups [][][]value
			for _, r := range rows {
				re := &sqlEnv{cols: src.cols, row: r, parent: env}
				var k []value
				for _, g := range s.group {
					k = append(k, c.eval(re, g))
				}
				found := -1
				for gi := range keys {
					if c.sameKey(keys[gi], k) {
						found = gi
						break
					}
				}
				if found < 0 {
					keys = append(keys, k)
					groups = append(groups, nil)
					found = len(keys) - 1
				}
				groups[found] = append(groups[found], r)
			}
			for _, g := range groups {
				envs = append(envs, &sqlEnv{cols: src.cols, group: g, inAgg: true, parent: env})
			}
		}
		if s.having != nil {
			var keep []*sqlEnv
			for _, e := range envs {
				if c.cond(e, s.having) {
					keep = append(keep, e)
				}
			}
			envs = keep
		}
	} else {
		for _, r := range rows {
			envs = append(envs, &sqlEnv{cols: src.cols, row: r, parent: env})
		}
	}
	// window functions
	var overs []*exFunc
	for _, it := range s.items {
		if !it.star {
			findOver(it.e, &overs)
		}
	}
	for _, f := range overs {
		if f.name != "row_number" {
			panic(c.unsup("window " + f.name))
		}
		var keys [][]value
		var parts [][]*sqlEnv
		for _, e := range envs {
			var k []value
			for _, p := range f.part {
				k = append(k, c.eval(e, p))
			}
			found := -1
			for i := range keys {
				if c.sameKey(keys[i], k) {
					found = i
				}
			}
			if found < 0 {
				keys = append(keys, k)
				parts = append(parts, nil)
				found = len(keys) - 1
			}
			parts[found] = append(parts[found], e)
		}
		for _, part := range parts {
			c.sortEnvs(part, f.overOrd)
			for i, e := range part {
				if e.over == nil {
					e.over = map[*exFunc]value{}
				}
				e.over[f] = m.x.Int(int64(i + 1))
			}
		}
	}
	// projection
	out := &sqlRel{}
	for _, it := range s.items {
		if it.star {
			for _, col := range src.cols {
				if it.starTable == "" || col.t == it.starTable {
					out.cols = append(out.cols, sqlCol{"", col.c})
				}
			}
			continue
		}
		n := it.alias
		if n == "" {
			n = exName(it.e)
		}
		out.cols = append(out.cols, sqlCol{"", n})
	}
	var res []sqlOut
	for _, e := range envs {
		var row []value
		unnest := -1
		var arrv sqlArr
		for _, it := range s.items {
			if it.star {
				for i, col := range src.cols {
					if it.starTable == "" || col.t == it.starTable {
						row = append(row, e.row[i])
					}
				}
				continue
			}
			if f, ok := it.e.(*exFunc); ok && f.name == "unnest" {
				if unnest >= 0 {
					panic(c.unsup("two unnest in a select list"))
				}
				unnest = len(row)
				arrv, _ = c.arr(c.eval(e, f.args[0]))
				row = append(row, nil)
				continue
			}
			row = append(row, c.eval(e, it.e))
		}
		if unnest >= 0 {
			for _, v := range arrv {
				r := append([]value{}, row...)
				r[unnest] = v
				res = append(res, sqlOut{e, r})
			}
			continue
		}
		res = append(res, sqlOut{e, row})
	}
	if s.union != nil {
		u := c.sel(env, s.union)
		for _, r := range u.rows {
			res = append(res, sqlOut{nil, r})
		}
		if !s.unionAll {
			panic(c.unsup("union distinct"))
		}
	}
	if s.distinct {
		var d []sqlOut
		for _, r := range res {
			dup := false
			for _, o := range d {
				if c.sameKey(o.row, r.row) {
					dup = true
					break
				}
			}
			if !dup {
				d = append(d, r)
			}
		}
		res = d
	}
	if !agg && len(s.from) > 0 {
		p := c.perm(len(res))
		nr := make([]sqlOut, len(res))
		for i, j := range p {
			nr[i] = res[j]
		}
		res = nr
	}
	if len(s.order) > 0 {
		keys := make([][]value, len(res))
		for i, r := range res {
			for _, o := range s.order {
				keys[i] = append(keys[i], c.orderKey(r, out, o.e))
			}
		}
		c.sortBy(len(res), s.order, func(i int) []value { return keys[i] }, func(i, j int) {
			res[i], res[j] = res[j], res[i]
			keys[i], keys[j] = keys[j], keys[i]
		})
	}
	if len(s.distinctOn) > 0 {
		var d []sqlOut
		var ks [][]value
		for _, r := range res {
			var k []value
			for _, e := range s.distinctOn {
				k = append(k, c.orderKey(r, out, e))
			}
			dup := false
			for _, o := range ks {
				if c.sameKey(o, k) {
					dup = true
					break
				}
			}
			if !dup {
				d = append(d, r)
				ks = append(ks, k)
			}
		}
		res = d
	}
	if s.offset != nil {
		panic(c.unsup("offset"))
	}
	if s.limit != nil {
		l := c.eval(env, s.limit)
		if l != nil {
			n := int64(m.concretize(l.(*Expr)))
			if n < 0 {
				sqlThrow("pq: LIMIT must not be negative")
			}
			if n < int64(len(res)) {
				res = res[:n]
			}
		}
	}
	for _, r := range res {
		out.rows = append(out.rows, r.row)
	}
	if s.into != "" {
		t := &sqlTable{name: s.into}
		for _, col := range out.cols {
			t.cols = append(t.cols, sqlColDef{name: col.c})
		}
		if c.st.tables[s.into] != nil {
			sqlThrow("pq: relation %q already exists", s.into)
		}
		t.rows = out.rows
		c.st.tables[s.into] = t
		c.st.temp[s.into] = true
		c.wrote = true
		out.rows = nil
	}
	return out
}

func (c *sqlCtx) sameKey(a, b []value) bool {
	r := c.m.x.T
	for i := range a {
		if a[i] == nil || b[i] == nil {
			if a[i] != nil || b[i] != nil {
				return false
			}
			continue
		}
		r = c.m.x.And(r, c.boolE(c.cmp("=", a[i], b[i])))
	}
	return c.m.branch(r)
}

func (c *sqlCtx) orderKey(r sqlOut, out *sqlRel, e sqlEx) value {
	if col, ok := e.(*exCol); ok && col.t == "" {
		for i := range out.cols {
			if out.cols[i].c == col.c {
				return r.row[i]
			}
		}
	}
	if k, ok := e.(*exConst); ok {
		if n, ok := k.v.(int64); ok {
			return r.row[n-1]
		}
	}
	return c.eval(r.env, e)
}

func (c *sqlCtx) sortEnvs(envs []*sqlEnv, ord []sqlOrd) {
	keys := make([][]value, len(envs))
	for i, e := range envs {
		for _, o := range ord {
			keys[i] = append(keys[i], c.eval(e, o.e))
		}
	}
	c.sortBy(len(envs), ord, func(i int) []value { return keys[i] }, func(i, j int) {
		envs[i], envs[j] = envs[j], envs[i]
		keys[i], keys[j] = keys[j], keys[i]
	})
}

// sortBy is a stable insertion sort; symbolic keys fork.
func (c *sqlCtx) sortBy(n int, ord []sqlOrd, key func(int) []value, swap func(i, j int)) {
	less := func(a, b []value) bool {
		for k, o := range ord {
			x, y := a[k], b[k]
			if o.desc {
				x, y = y, x
			}
			// NULLs sort last in ascending order
			if x == nil || y == nil {
				if (x == nil) == (y == nil) {
					continue
				}
				return y == nil
			}
			if c.m.branch(c.boolE(c.cmp("<", x, y))) {
				return true
			}
			if c.m.branch(c.boolE(c.cmp("<", y, x))) {
				return false
			}
		}
		return false
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(key(j), key(j-1)); j-- {
			swap(j, j-1)
		}
	}
}

// ---- data modification ----

func (c *sqlCtx) coerce(t *sqlTable, i int, v value) value {
	if v == nil {
		if t.cols[i].notNull {
			sqlThrow("pq: null value in column %q of relation %q violates not-null constraint", t.cols[i].name, t.name)
		}
		return nil
	}
	typ := t.cols[i].typ
	ok := true
	switch typ {
	case "bigint", "smallint", "integer", "int", "int8":
		e, is := v.(*Expr)
		ok = is && e.w != 0
	case "bool", "boolean":
		e, is := v.(*Expr)
		ok = is && e.w == 0
	case "text", "bytea", "varchar":
		_, ok = v.(*Str)
	}
	if strings.HasSuffix(typ, "[]") {
		_, ok = v.(sqlArr)
	}
	if !ok {
		panic(c.unsup(fmt.Sprintf("column %s.%s %s gets %T", t.name, t.cols[i].name, typ, v)))
	}
	return v
}

func (c *sqlCtx) conflict(t *sqlTable, rows [][]value, row []value, u []int, skip int) int {
	for i, r := range rows {
		if i == skip {
			continue
		}
		eq := c.m.x.T
		null := false
		for _, k := range u {
			if r[k] == nil || row[k] == nil {
				null = true
				break
			}
			eq = c.m.x.And(eq, c.boolE(c.cmp("=", r[k], row[k])))
		}
		if !null && c.m.branch(eq) {
			return i
		}
	}
	return -1
}

func (c *sqlCtx) returning(items []sqlItem, envs []*sqlEnv) *sqlRel {
	out := &sqlRel{}
	if items == nil {
		return out
	}
	for i, e := range envs {
		var row []value
		for _, it := range items {
			if it.star {
				for k, col := range e.cols {
					if i == 0 {
						out.cols = append(out.cols, sqlCol{"", col.c})
					}
					row = append(row, e.row[k])
				}
				continue
			}
			if i == 0 {
				n := it.alias
				if n == "" {
					n = exName(it.e)
				}
				out.cols = append(out.cols, sqlCol{"", n})
			}
			row = append(row, c.eval(e, it.e))
		}
		out.rows = append(out.rows, row)
	}
	if len(envs) == 0 {
		for _, it := range items {
			if !it.star {
				n := it.alias
				if n == "" {
					n = exName(it.e)
				}
				out.cols = append(out.cols, sqlCol{"", n})
			}
		}
	}
	return out
}

func (t *sqlTable) envCols(alias string) []sqlCol {
	var l []sqlCol
	for _, col := range t.cols {
		l = append(l, sqlCol{alias, col.name})
	}
	return l
}

func (c *sqlCtx) table(n string) *sqlTable {
	t := c.st.tables[n]
	if t == nil {
		sqlThrow("pq: relation %q does not exist", n)
	}
	return t
}

// exec runs one statement and returns the result relation and the number of affected rows.
func (c *sqlCtx) exec(s *sqlStmt, batch []func(string) (value, bool)) (*sqlRel, int) {
	m := c.m
	switch s.kind {
	case "nop":
		return &sqlRel{}, 0
	case "createseq":
		if _, ok := c.db.seqs[s.name]; !ok {
			c.db.seqs[s.name] = 0
		}
		return &sqlRel{}, 0
	case "createtable":
		if c.st.tables[s.name] != nil {
			if !s.ifNotExists {
				sqlThrow("pq: relation %q already exists", s.name)
			}
			return &sqlRel{}, 0
		}
		t := &sqlTable{name: s.name, cols: s.cols}
		for _, u := range s.uniques {
			var l []int
			for _, n := range u {
				l = append(l, t.col(n))
			}
			t.uniques = append(t.uniques, l)
		}
		c.st.tables[s.name] = t
		c.wrote = true
		return &sqlRel{}, 0
	case "unique":
		t := c.table(s.name)
		n := *t
		var l []int
		for _, u := range s.uniques[0] {
			l = append(l, t.col(u))
		}
		for _, u := range t.uniques {
			if fmt.Sprint(u) == fmt.Sprint(l) {
				return &sqlRel{}, 0
			}
		}
		n.uniques = append(append([][]int{}, t.uniques...), l)
		c.st.tables[s.name] = &n
		c.wrote = true
		return &sqlRel{}, 0
	case "select":
		r := c.sel(nil, s.sel)
		return r, len(r.rows)
	case "insert":
		defer c.withCTEs(nil, s.with)()
		return c.insert(s, batch)
	case "update":
		defer c.withCTEs(nil, s.with)()
		t := c.table(s.name)
		rows := append([][]value{}, t.rows...)
		var using *sqlRel
		if len(s.using) > 0 {
			using = c.from(nil, s.using)
		}
		var touched []int
		var envs []*sqlEnv
		for i, r := range t.rows {
			e := &sqlEnv{cols: t.envCols(s.alias), row: r}
			if using != nil {
				hit := false
				for _, ur := range using.rows {
					e2 := &sqlEnv{cols: append(t.envCols(s.alias), using.cols...), row: append(append([]value{}, r...), ur...)}
					if c.cond(e2, s.where) {
						e, hit = e2, true
						break
					}
				}
				if !hit {
					continue
				}
			} else if !c.cond(e, s.where) {
				continue
			}
			nr := append([]value{}, r...)
			for _, st := range s.sets {
				k := t.col(st.col)
				if k < 0 {
					sqlThrow("pq: column %q of relation %q does not exist", st.col, s.name)
				}
				nr[k] = c.coerce(t, k, c.eval(e, st.e))
			}
			rows[i] = nr
			touched = append(touched, i)
			envs = append(envs, &sqlEnv{cols: t.envCols(s.alias), row: nr})
		}
		for _, i := range touched {
			for _, u := range t.uniques {
				changed := false
				for _, st := range s.sets {
					for _, k := range u {
						changed = changed || t.cols[k].name == st.col
					}
				}
				if changed && c.conflict(t, rows, rows[i], u, i) >= 0 {
					sqlThrow("pq: duplicate key value violates unique constraint on %q", s.name)
				}
			}
		}
		if len(touched) > 0 {
			c.st.set(t, rows)
			c.wrote = true
		}
		p := c.perm(len(envs))
		pe := make([]*sqlEnv, len(envs))
		for i, j := range p {
			pe[i] = envs[j]
		}
		return c.returning(s.returning, pe), len(touched)
	case "delete":
		defer c.withCTEs(nil, s.with)()
		t := c.table(s.name)
		var using *sqlRel
		if len(s.using) > 0 {
			using = c.from(nil, s.using)
		}
		var rows [][]value
		var envs []*sqlEnv
		for _, r := range t.rows {
			e := &sqlEnv{cols: t.envCols(s.alias), row: r}
			hit := false
			if using != nil {
				for _, ur := range using.rows {
					e2 := &sqlEnv{cols: append(t.envCols(s.alias), using.cols...), row: append(append([]value{}, r...), ur...)}
					if c.cond(e2, s.where) {
						hit = true
						break
					}
				}
			} else {
				hit = c.cond(e, s.where)
			}
			if hit {
				envs = append(envs, e)
			} else {
				rows = append(rows, r)
			}
		}
		if len(envs) > 0 {
			c.st.set(t, rows)
			c.wrote = true
		}
		return c.returning(s.returning, envs), len(envs)
	}
	panic(m.unsupported("sql: statement " + s.kind))
}

func (c *sqlCtx) insert(s *sqlStmt, batch []func(string) (value, bool)) (*sqlRel, int) {
	t := c.table(s.name)
	rows := append([][]value{}, t.rows...)
	icols := s.icols
	if icols == nil {
		for _, col := range t.cols {
			icols = append(icols, col.name)
		}
	}
	var news [][]value
	given := make([]bool, len(t.cols))
	var idx []int
	for _, n := range icols {
		k := t.col(n)
		if k < 0 {
			sqlThrow("pq: column %q of relation %q does not exist", n, s.name)
		}
		idx = append(idx, k)
		given[k] = true
	}
	add := func(vals []value) {
		if len(vals) != len(idx) {
			sqlThrow("pq: INSERT has %d expressions and %d target columns", len(vals), len(idx))
		}
		nr := make([]value, len(t.cols))
		for i, k := range idx {
			nr[k] = vals[i]
		}
		for k := range t.cols {
			if !given[k] && t.cols[k].hasDef {
				nr[k] = c.eval(nil, t.cols[k].def)
			}
			nr[k] = c.coerce(t, k, nr[k])
		}
		news = append(news, nr)
	}
	if s.isel != nil {
		r := c.sel(nil, s.isel)
		for _, row := range r.rows {
			add(row)
		}
	} else if batch != nil {
		for _, b := range batch {
			c.named = b
			for _, vr := range s.rows {
				var vals []value
				for _, e := range vr {
					vals = append(vals, c.eval(nil, e))
				}
				add(vals)
			}
		}
		c.named = nil
	} else {
		for _, vr := range s.rows {
			var vals []value
			for _, e := range vr {
				vals = append(vals, c.eval(nil, e))
			}
			add(vals)
		}
	}
	confU := -1
	if s.hasConflict && s.confCols != nil {
		want := map[int]bool{}
		for _, n := range s.confCols {
			want[t.col(n)] = true
		}
		for ui, u := range t.uniques {
			if len(u) == len(want) {
				ok := true
				for _, k := range u {
					ok = ok && want[k]
				}
				if ok {
					confU = ui
					break
				}
			}
		}
		if confU < 0 {
			sqlThrow("pq: there is no unique or exclusion constraint matching the ON CONFLICT specification")
		}
	}
	var envs []*sqlEnv
	touched := map[int]bool{}
	n := 0
	for _, nr := range news {
		done := false
		for ui, u := range t.uniques {
			at := c.conflict(t, rows, nr, u, -1)
			if at < 0 {
				continue
			}
			if !s.hasConflict || (confU >= 0 && ui != confU) {
				sqlThrow("pq: duplicate key value violates unique constraint on %q", s.name)
			}
			done = true
			if !s.doUpdate {
				break
			}
			if touched[at] {
				sqlThrow("pq: ON CONFLICT DO UPDATE command cannot affect row a second time")
			}
			old := rows[at]
			e := &sqlEnv{cols: t.envCols(s.alias), row: old, parent: &sqlEnv{cols: t.envCols("excluded"), row: nr}}
			if s.confWhere != nil && !c.cond(e, s.confWhere) {
				touched[at] = true
				break
			}
			up := append([]value{}, old...)
			for _, st := range s.sets {
				k := t.col(st.col)
				if k < 0 {
					sqlThrow("pq: column %q of relation %q does not exist", st.col, s.name)
				}
				up[k] = c.coerce(t, k, c.eval(e, st.e))
			}
			rows[at] = up
			touched[at] = true
			n++
			envs = append(envs, &sqlEnv{cols: t.envCols(s.alias), row: up})
			break
		}
		if done {
			continue
		}
		rows = append(rows, nr)
		touched[len(rows)-1] = true
		n++
		envs = append(envs, &sqlEnv{cols: t.envCols(s.alias), row: nr})
	}
	c.st.set(t, rows)
	c.wrote = true
	return c.returning(s.returning, envs), n
}

// ---- database/sql and sqlx on top ----

type sqlRows struct {
	rel *sqlRel
	i   int
}

// sqlRun executes a query string. tx == nil means autocommit.
func (m *machine) sqlRun(fr *frame, tx *sqlTx, query *Str, params []value, batch []func(string) (value, bool), named func(string) (value, bool)) (rel *sqlRel, n int, err value) {
	db := m.sqlDB()
	q := m.concretizeStr(query)
	if tx != nil && tx.done {
		return nil, 0, pkgVar(m, "database/sql", "ErrTxDone")
	}
	if tx != nil && tx.aborted {
		return nil, 0, m.mkError("pq: current transaction is aborted, commands ignored until end of transaction block")
	}
	db.stmts++
	if db.fault(m) {
		if tx != nil {
			tx.aborted = true
		}
		if m.cfg.Trace {
			fmt.Println("FAULT", q)
		}
		return nil, 0, m.mkError("pq: injected fault")
	}
	stmts, perr := sqlParse(q)
	if perr != nil {
		panic(m.unsupported("sql: " + perr.Error()))
	}
	var st *sqlState
	if tx != nil {
		if !tx.wrote && tx.base != db.cur { // read committed
			tx.base = db.cur
			tx.st = db.cur
		}
		st = tx.st.copy()
	} else {
		st = db.cur.copy()
	}
	c := &sqlCtx{m: m, fr: fr, db: db, st: st, params: params, named: named, ctes: map[string]*sqlRel{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(sqlErr)
			if !ok {
				panic(r)
			}
			if tx != nil {
				tx.aborted = true
			}
			rel, n, err = nil, 0, m.mkError(e.msg)
		}
	}()
	for _, s := range stmts {
		rel, n = c.exec(s, batch)
	}
	if c.wrote {
		if tx != nil {
			tx.st = st
			tx.wrote = true
		} else {
			db.cur = st
		}
	}
	return rel, n, iface{}
}

func isErr(v value) bool { i, ok := v.(iface); return ok && i.t != nil }

func typeIs(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// sqlParam converts a Go value to a SQL value.
func (m *machine) sqlParam(v value, t types.Type) value {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return nil
		}
		return m.sqlParam(i.v, i.t)
	}
	t = types.Unalias(t)
	if nt, ok := t.(*types.Named); ok {
		o := nt.Obj()
		if o.Pkg() != nil && o.Pkg().Path() == "database/sql" {
			st := v.(structure)
			// NullString, NullInt64, NullBool, ...: value, Valid
			if !m.branch(st[1].(*Expr)) {
				return nil
			}
			return m.sqlParam(st[0], nt.Underlying().(*types.Struct).Field(0).Type())
		}
		if typeIs(t, "time", "Time") {
			return copyVal(v)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			return nil
		}
		return m.sqlParam(*p, u.Elem())
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return x
		case *Expr:
			if x.w == 0 {
				return x
			}
			_, signed := m.intWidth(t)
			return m.x.Resize(x, 64, signed)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if isNilSlice(v) {
				return nil
			}
			return m.bytesToStr(v)
		}
		s, _ := v.(sliceV)
		if s == nil {
			return nil
		}
		a := sqlArr{}
		for _, e := range s {
			a = append(a, m.sqlParam(e, u.Elem()))
		}
		return a
	}
	panic(m.unsupported(fmt.Sprintf("sql parameter of type %v", t)))
}

func (m *machine) sqlParams(v value) []value {
	var out []value
	for _, a := range anyArgs(v) {
		out = append(out, m.sqlParam(a, anyT))
	}
	return out
}

// sqlAssign scans a SQL value into *p of type t.
func (m *machine) sqlAssign(p *value, t types.Type, v value) value {
	t = types.Unalias(t)
	if nt, ok := t.(*types.Named); ok {
		o := nt.Obj()
		if o.Pkg() != nil && o.Pkg().Path() == "database/sql" && strings.HasPrefix(o.Name(), "Null") {
			st := nt.Underlying().(*types.Struct)
			z := m.zero(t).(structure)
			if v != nil {
				var f value = z[0]
				if e := m.sqlAssign(&f, st.Field(0).Type(), v); isErr(e) {
					return e
				}
				z[0] = f
				z[1] = m.x.T
			}
			storeTo(p, z)
			return iface{}
		}
		if typeIs(t, "time", "Time") {
			if s, ok := v.(structure); ok {
				storeTo(p, copyVal(s))
				return iface{}
			}
			return m.mkError("sql: Scan error: unsupported time")
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v == nil {
			*p = (*value)(nil)
			return iface{}
		}
		var n value = m.zero(u.Elem())
		if e := m.sqlAssign(&n, u.Elem(), v); isErr(e) {
			return e
		}
		*p = &n
		return iface{}
	case *types.Interface:
		if v == nil {
			*p = iface{}
			return iface{}
		}
	case *types.Basic:
		if v == nil {
			return m.mkError(fmt.Sprintf("sql: Scan error: converting NULL to %s is unsupported", t))
		}
		switch x := v.(type) {
		case *Str:
			if u.Info()&types.IsString != 0 {
				*p = x
				return iface{}
			}
		case *Expr:
			if u.Info()&types.IsBoolean != 0 && x.w == 0 {
				*p = x
				return iface{}
			}
			if u.Info()&types.IsInteger != 0 && x.w != 0 {
				w, _ := m.intWidth(t)
				*p = m.x.Resize(x, w, true)
				return iface{}
			}
		}
	case *types.Slice:
		if v == nil {
			*p = sliceV(nil)
			return iface{}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if x, ok := v.(*Str); ok {
				*p = bytesV{x}
				return iface{}
			}
			break
		}
		if a, ok := v.(sqlArr); ok {
			out := sliceV{}
			for _, e := range a {
				var n value = m.zero(u.Elem())
				if er := m.sqlAssign(&n, u.Elem(), e); isErr(er) {
					return er
				}
				out = append(out, n)
			}
			*p = out
			return iface{}
		}
	}
	panic(m.unsupported(fmt.Sprintf("sql: scan of %T into %v", v, t)))
}

// dbPath finds the field which sqlx maps to a column.
func dbPath(t types.Type, name string) ([]int, bool) {
	type node struct {
		t    *types.Struct
		path []int
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	q := []node{{st, nil}}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for i := 0; i < n.t.NumFields(); i++ {
			f := n.t.Field(i)
			path := append(append([]int{}, n.path...), i)
			tag := reflect.StructTag(n.t.Tag(i)).Get("db")
			if tag == "-" {
				continue
			}
			if f.Anonymous() && tag == "" {
				ft := f.Type().Underlying()
				if p, ok := ft.(*types.Pointer); ok {
					ft = p.Elem().Underlying()
				}
				if s, ok := ft.(*types.Struct); ok {
					q = append(q, node{s, path})
				}
				continue
			}
			if tag == name || (tag == "" && f.Exported() && strings.ToLower(f.Name()) == name) {
				return path, true
			}
		}
	}
	return nil, false
}

func (m *machine) dbField(p *value, t types.Type, path []int, alloc bool) (*value, types.Type) {
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			q, _ := (*p).(*value)
			if q == nil {
				if !alloc {
					return nil, nil
				}
				var n value = m.zero(pt.Elem())
				q = &n
				*p = q
			}
			p, t = q, pt.Elem()
		}
		st := t.Underlying().(*types.Struct)
		s := (*p).(structure)
		p, t = &s[i], st.Field(i).Type()
	}
	return p, t
}

func (m *machine) scannable(t types.Type) bool {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if p := n.Obj().Pkg().Path(); p == "database/sql" || p == "time" || p == "github.com/lib/pq" {
			return true
		}
	}
	_, isStruct := t.Underlying().(*types.Struct)
	return !isStruct
}

func (m *machine) scanRow(p *value, t types.Type, rel *sqlRel, row []value) value {
	if m.scannable(t) {
		if len(rel.cols) != 1 {
			return m.mkError(fmt.Sprintf("scannable dest type %v with >1 columns (%d) in result", t, len(rel.cols)))
		}
		return m.sqlAssign(p, t, row[0])
	}
	for i, col := range rel.cols {
		path, ok := dbPath(t, col.c)
		if !ok {
			return m.mkError(fmt.Sprintf("missing destination name %s in %v", col.c, t))
		}
		fp, ft := m.dbField(p, t, path, true)
		if e := m.sqlAssign(fp, ft, row[i]); isErr(e) {
			return e
		}
	}
	return iface{}
}

func (m *machine) sqlSelectInto(dest iface, rel *sqlRel) value {
	pt := dest.t.Underlying().(*types.Pointer)
	p := dest.v.(*value)
	stt, ok := pt.Elem().Underlying().(*types.Slice)
	if !ok {
		panic(m.unsupported("sql Select into non-slice"))
	}
	cur, _ := (*p).(sliceV)
	out := append(sliceV{}, cur...)
	if len(out) == 0 && cur == nil && len(rel.rows) == 0 {
		// sqlx leaves the slice alone when there are no rows
		return iface{}
	}
	et := stt.Elem()
	ptr := false
	if q, ok := et.Underlying().(*types.Pointer); ok && !m.scannable(q.Elem()) {
		ptr = true
		et = q.Elem()
	}
	for _, row := range rel.rows {
		var n value = m.zero(et)
		if e := m.scanRow(&n, et, rel, row); isErr(e) {
			return e
		}
		if ptr {
			q := n
			out = append(out, &q)
		} else {
			out = append(out, n)
		}
	}
	*p = out
	return iface{}
}

func (m *machine) namedOf(p *value, t types.Type) func(string) (value, bool) {
	return func(name string) (value, bool) {
		tt, pp := t, p
		if q, ok := tt.Underlying().(*types.Pointer); ok {
			pp = (*pp).(*value)
			tt = q.Elem()
		}
		if mp, ok := tt.Underlying().(*types.Map); ok {
			e := m.mapFind((*pp).(*mapV), mkStr(name))
			if e == nil {
				return nil, false
			}
			return m.sqlParam(e.v, mp.Elem()), true
		}
		path, ok := dbPath(tt, name)
		if !ok {
			return nil, false
		}
		fp, ft := m.dbField(pp, tt, path, false)
		if fp == nil {
			return nil, true
		}
		return m.sqlParam(*fp, ft), true
	}
}

func (m *machine) sqlNamed(fr *frame, tx *sqlTx, q *Str, arg iface) (*sqlRel, int, value) {
	if s, ok := arg.t.Underlying().(*types.Slice); ok {
		l, _ := arg.v.(sliceV)
		if len(l) == 0 {
			return nil, 0, m.mkError("length of array is 0")
		}
		var b []func(string) (value, bool)
		for i := range l {
			b = append(b, m.namedOf(&l[i], s.Elem()))
		}
		return m.sqlRun(fr, tx, q, nil, b, nil)
	}
	v := arg.v
	return m.sqlRun(fr, tx, q, nil, nil, m.namedOf(&v, arg.t))
}

func init() {
	I := intrinsics
	H := harnessIntrinsics
	const sx = "github.com/jmoiron/sqlx"
	txOf := func(m *machine, recv value) *sqlTx {
		t, _ := m.side[[2]any{"sqltx", recv}].(*sqlTx)
		return t
	}
	newObj := func(m *machine, pkg, name string) (*value, structure) {
		var st value = m.zero(m.prog.typeNamed(pkg, name))
		return &st, st.(structure)
	}
	fieldIdx := func(m *machine, pkg, name, field string) int {
		st := m.prog.typeNamed(pkg, name).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return i
			}
		}
		panic(m.unsupported("no field " + field))
	}
	mkResult := func(m *machine, n int) value {
		return iface{t: m.prog.typeNamed("database/sql/driver", "RowsAffected"), v: m.x.Int(int64(n))}
	}
	mkRows := func(m *machine, rel *sqlRel) *value {
		p, _ := newObj(m, "database/sql", "Rows")
		m.side[[2]any{"sqlrows", p}] = &sqlRows{rel: rel}
		return p
	}
	mkXRows := func(m *machine, rel *sqlRel) *value {
		p, st := newObj(m, sx, "Rows")
		st[fieldIdx(m, sx, "Rows", "Rows")] = mkRows(m, rel)
		return p
	}
	// recv kinds: *sql.DB, *sql.Tx, *sqlx.DB, *sqlx.Tx; off = number of leading arguments to skip (context)
	for _, k := range []struct {
		ty string
		tx bool
	}{{"(*database/sql.DB)", false}, {"(*database/sql.Tx)", true}, {"(*" + sx + ".DB)", false}, {"(*" + sx + ".Tx)", true}} {
		k := k
		rtx := func(m *machine, recv value) *sqlTx {
			if !k.tx {
				return nil
			}
			t := txOf(m, recv)
			if t == nil {
				panic(m.unsupported("sql: unknown transaction"))
			}
			return t
		}
		for _, ctx := range []struct {
			suf string
			off int
		}{{"", 0}, {"Context", 1}} {
			off := ctx.off
			I[k.ty+".Exec"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				_, n, err := fr.m.sqlRun(fr, rtx(fr.m, a[0]), a[1+off].(*Str), fr.m.sqlParams(a[2+off]), nil, nil)
				if isErr(err) {
					return tuple{iface{}, err}
				}
				return tuple{mkResult(fr.m, n), iface{}}
			}
			I[k.ty+".Query"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				rel, _, err := fr.m.sqlRun(fr, rtx(fr.m, a[0]), a[1+off].(*Str), fr.m.sqlParams(a[2+off]), nil, nil)
				if isErr(err) {
					return tuple{(*value)(nil), err}
				}
				return tuple{mkRows(fr.m, rel), iface{}}
			}
			I[k.ty+".QueryRow"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				m := fr.m
				rel, _, err := m.sqlRun(fr, rtx(m, a[0]), a[1+off].(*Str), m.sqlParams(a[2+off]), nil, nil)
				p, _ := newObj(m, "database/sql", "Row")
				if isErr(err) {
					m.side[[2]any{"sqlrowerr", p}] = err
				} else {
					m.side[[2]any{"sqlrows", p}] = &sqlRows{rel: rel}
				}
				return p
			}
			I[k.ty+".Select"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				rel, _, err := fr.m.sqlRun(fr, rtx(fr.m, a[0]), a[2+off].(*Str), fr.m.sqlParams(a[3+off]), nil, nil)
				if isErr(err) {
					return err
				}
				return fr.m.sqlSelectInto(a[1+off].(iface), rel)
			}
			I[k.ty+".Get"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				rel, _, err := fr.m.sqlRun(fr, rtx(fr.m, a[0]), a[2+off].(*Str), fr.m.sqlParams(a[3+off]), nil, nil)
				if isErr(err) {
					return err
				}
				if len(rel.rows) == 0 {
					return pkgVar(fr.m, "database/sql", "ErrNoRows")
				}
				d := a[1+off].(iface)
				return fr.m.scanRow(d.v.(*value), d.t.Underlying().(*types.Pointer).Elem(), rel, rel.rows[0])
			}
			I[k.ty+".NamedExec"+ctx.suf] = func(fr *frame, fn *ssa.Function, a []value) value {
				_, n, err := fr.m.sqlNamed(fr, rtx(fr.m, a[0]), a[1+off].(*Str), a[2+off].(iface))
				if isErr(err) {
					return tuple{iface{}, err}
				}
				return tuple{mkResult(fr.m, n), iface{}}
			}
		}
		I[k.ty+".NamedQuery"] = func(fr *frame, fn *ssa.Function, a []value) value {
			rel, _, err := fr.m.sqlNamed(fr, rtx(fr.m, a[0]), a[1].(*Str), a[2].(iface))
			if isErr(err) {
				return tuple{(*value)(nil), err}
			}
			return tuple{mkXRows(fr.m, rel), iface{}}
		}
		I[k.ty+".MustExec"] = func(fr *frame, fn *ssa.Function, a []value) value {
			_, n, err := fr.m.sqlRun(fr, rtx(fr.m, a[0]), a[1].(*Str), fr.m.sqlParams(a[2]), nil, nil)
			if isErr(err) {
				fr.m.rtPanic(fr, "MustExec: "+fr.m.describe(err))
			}
			return mkResult(fr.m, n)
		}
		I[k.ty+".Rebind"] = func(fr *frame, fn *ssa.Function, a []value) value {
			q := fr.m.concretizeStr(a[1].(*Str))
			var sb strings.Builder
			n := 0
			for i := 0; i < len(q); i++ {
				if q[i] == '?' {
					n++
					fmt.Fprintf(&sb, "$%d", n)
				} else {
					sb.WriteByte(q[i])
				}
			}
			return mkStr(sb.String())
		}
	}
	begin := func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		db := m.sqlDB()
		if db.fault(m) {
			return tuple{(*value)(nil), m.mkError("pq: injected fault")}
		}
		t := &sqlTx{base: db.cur, st: db.cur}
		inner, _ := newObj(m, "database/sql", "Tx")
		m.side[[2]any{"sqltx", inner}] = t
		if !strings.Contains(fn.String(), sx) {
			return tuple{inner, iface{}}
		}
		p, st := newObj(m, sx, "Tx")
		st[fieldIdx(m, sx, "Tx", "Tx")] = inner
		m.side[[2]any{"sqltx", p}] = t
		return tuple{p, iface{}}
	}
	I["(*"+sx+".DB).Beginx"], I["(*"+sx+".DB).BeginTxx"], I["(*database/sql.DB).Begin"], I["(*database/sql.DB).BeginTx"] = begin, begin, begin, begin
	I["(*database/sql.Tx).Commit"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		t := txOf(m, a[0])
		if t.done {
			return pkgVar(m, "database/sql", "ErrTxDone")
		}
		t.done = true
		if t.aborted {
			return m.mkError("pq: Could not complete operation in a failed transaction")
		}
		db := m.sqlDB()
		if db.fault(m) {
			return m.mkError("pq: injected fault")
		}
		if t.wrote {
			if db.cur != t.base {
				panic(m.unsupported("sql: concurrent write transactions"))
			}
			st := t.st.copy()
			for n := range st.temp {
				delete(st.tables, n)
			}
			st.temp = map[string]bool{}
			db.cur = st
		}
		return iface{}
	}
	I["(*database/sql.Tx).Rollback"] = func(fr *frame, fn *ssa.Function, a []value) value {
		t := txOf(fr.m, a[0])
		if t.done {
			return pkgVar(fr.m, "database/sql", "ErrTxDone")
		}
		t.done = true
		return iface{}
	}
	I["(*database/sql.DB).Close"] = retNil
	rowsOf := func(m *machine, p value) *sqlRows {
		r, _ := m.side[[2]any{"sqlrows", p}].(*sqlRows)
		if r == nil {
			panic(m.unsupported("sql: unknown rows"))
		}
		return r
	}
	scanInto := func(m *machine, dests value, rel *sqlRel, row []value) value {
		ds := anyArgs(dests)
		if len(ds) != len(rel.cols) {
			return m.mkError(fmt.Sprintf("sql: expected %d destination arguments in Scan, not %d", len(rel.cols), len(ds)))
		}
		for i, d := range ds {
			x := d.(iface)
			if e := m.sqlAssign(x.v.(*value), x.t.Underlying().(*types.Pointer).Elem(), row[i]); isErr(e) {
				return e
			}
		}
		return iface{}
	}
	I["(*database/sql.Rows).Next"] = func(fr *frame, fn *ssa.Function, a []value) value {
		r := rowsOf(fr.m, a[0])
		if r.i >= len(r.rel.rows) {
			return fr.m.x.F
		}
		r.i++
		return fr.m.x.T
	}
	I["(*database/sql.Rows).Scan"] = func(fr *frame, fn *ssa.Function, a []value) value {
		r := rowsOf(fr.m, a[0])
		return scanInto(fr.m, a[1], r.rel, r.rel.rows[r.i-1])
	}
	I["(*database/sql.Rows).Close"] = func(fr *frame, fn *ssa.Function, a []value) value {
		r := rowsOf(fr.m, a[0])
		r.i = len(r.rel.rows)
		return iface{}
	}
	I["(*database/sql.Rows).Err"] = func(fr *frame, fn *ssa.Function, a []value) value { return iface{} }
	I["(*database/sql.Row).Scan"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		if e, ok := m.side[[2]any{"sqlrowerr", a[0]}]; ok {
			return e
		}
		r := rowsOf(m, a[0])
		if len(r.rel.rows) == 0 {
			return pkgVar(m, "database/sql", "ErrNoRows")
		}
		return scanInto(m, a[1], r.rel, r.rel.rows[0])
	}
	I["(*database/sql.Row).Err"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if e, ok := fr.m.side[[2]any{"sqlrowerr", a[0]}]; ok {
			return e
		}
		return iface{}
	}
	I[sx+".Select"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		q := a[0].(iface)
		rel, _, err := m.sqlRun(fr, txOf(m, q.v), a[2].(*Str), m.sqlParams(a[3]), nil, nil)
		if isErr(err) {
			return err
		}
		return m.sqlSelectInto(a[1].(iface), rel)
	}
	I[sx+".In"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		q := m.concretizeStr(a[0].(*Str))
		args := anyArgs(a[1])
		var out sliceV
		var sb strings.Builder
		k := 0
		for i := 0; i < len(q); i++ {
			if q[i] != '?' {
				sb.WriteByte(q[i])
				continue
			}
			if k >= len(args) {
				return tuple{m.emptyStr, sliceV(nil), m.mkError("number of bindVars exceeds arguments")}
			}
			x := args[k].(iface)
			k++
			expand := false
			var et types.Type
			if x.t != nil {
				if s, ok := x.t.Underlying().(*types.Slice); ok {
					b, isB := s.Elem().Underlying().(*types.Basic)
					expand = m.methodOn(x.t, "Value") == nil && !(isB && b.Kind() == types.Uint8)
					et = s.Elem()
				}
			}
			if !expand {
				sb.WriteByte('?')
				out = append(out, x)
				continue
			}
			l, _ := x.v.(sliceV)
			if len(l) == 0 {
				return tuple{m.emptyStr, sliceV(nil), m.mkError("empty slice passed to 'in' query")}
			}
			for j, e := range l {
				if j > 0 {
					sb.WriteString(", ")
				}
				sb.WriteByte('?')
				if ie, ok := e.(iface); ok {
					out = append(out, ie)
				} else {
					out = append(out, iface{t: et, v: e})
				}
			}
		}
		if k < len(args) {
			return tuple{m.emptyStr, sliceV(nil), m.mkError("number of bindVars less than number arguments")}
		}
		return tuple{mkStr(sb.String()), out, iface{}}
	}
	H["vDB"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		m.sqlDB()
		p, st := newObj(m, sx, "DB")
		inner, _ := newObj(m, "database/sql", "DB")
		st[fieldIdx(m, sx, "DB", "DB")] = inner
		return p
	}
	H["vNewSession"] = func(fr *frame, fn *ssa.Function, a []value) value { return nil }
	H["vSQLFaults"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.sqlDB().faults = int(fr.m.concretize(a[0].(*Expr)))
		return nil
	}
	H["vSQLFaultsLeft"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.m.x.Int(int64(fr.m.sqlDB().faults))
	}
}

// fault: does the next statement fail? -1: the process may end here, whereafter (-2) nothing works any more.
func (db *sqlDB) fault(m *machine) bool {
	switch {
	case db.faults == -2:
		return true
	case db.faults == 0 || !m.sqlFault():
		return false
	}
	db.faults--
	return true
}

// sqlFault decides whether the next statement fails; the choice is an input, so that it can be replayed.
func (m *machine) sqlFault() bool {
	c := m.chooseSym("sqlfault", 2)
	m.inputs = append(m.inputs, inputRec{name: "sqlfault", kind: "int", e: m.x.Int(int64(c))})
	return c == 1
}
