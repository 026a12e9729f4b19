package main

// Hash-consed SMT terms over booleans and bit-vectors, with constant folding.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OTrunc
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Expr is a term. w == 0 means Bool, otherwise the bit-vector width.
type Expr struct {
	op       Op
	w        uint8
	id       int32
	size     int32
	c        uint64 // constant value (bool: 0/1)
	a        [3]*Expr
	name     string
	rs       uint8
	rlo, rhi int64
}

type exprKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Expr
	name    string
}

// ExprCtx is the per-worker intern table.
type ExprCtx struct {
	tab  map[exprKey]*Expr
	next int32
	T, F *Expr
	vars map[string]*Expr
}

func newExprCtx() *ExprCtx {
	x := &ExprCtx{tab: map[exprKey]*Expr{}, vars: map[string]*Expr{}}
	x.T = x.Const(0, 1)
	x.F = x.Const(0, 0)
	return x
}

func (x *ExprCtx) mk(op Op, w uint8, c uint64, a, b, d *Expr, name string) *Expr {
	k := exprKey{op, w, c, a, b, d, name}
	if e, ok := x.tab[k]; ok {
		return e
	}
	x.next++
	e := &Expr{op: op, w: w, c: c, a: [3]*Expr{a, b, d}, name: name, id: x.next, size: 1}
	for _, y := range e.a {
		if y != nil {
			e.size += y.size
			if e.size > 1<<28 {
				e.size = 1 << 28
			}
		}
	}
	x.tab[k] = e
	return e
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (x *ExprCtx) Const(w uint8, v uint64) *Expr {
	return x.mk(OConst, w, v&mask(w), nil, nil, nil, "")
}
func (x *ExprCtx) Bool(b bool) *Expr {
	if b {
		return x.T
	}
	return x.F
}
func (x *ExprCtx) Int(i int64) *Expr { return x.Const(64, uint64(i)) }

func (x *ExprCtx) Var(name string, w uint8) *Expr {
	if v, ok := x.vars[name]; ok {
		if v.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, v.w))
		}
		return v
	}
	v := x.mk(OVar, w, 0, nil, nil, nil, name)
	x.vars[name] = v
	return v
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.c == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.c == 0 }
func (e *Expr) sval() int64   { return sext(e.c, e.w) }

func (x *ExprCtx) Not(a *Expr) *Expr {
	switch {
	case a.isConst():
		return x.Bool(a.c == 0)
	case a.op == ONot:
		return a.a[0]
	}
	return x.mk(ONot, 0, 0, a, nil, nil, "")
}

func (x *ExprCtx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return x.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a == x.Not(b) {
		return x.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAnd, 0, 0, a, b, nil, "")
}

func (x *ExprCtx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return x.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a == x.Not(b) {
		return x.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OOr, 0, 0, a, b, nil, "")
}

func (x *ExprCtx) Eq(a, b *Expr) *Expr {
	if a == b {
		return x.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return x.Bool(a.c == b.c)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return x.Not(a)
		}
	}
	if a.w > 1 {
		al, ah, ok1 := a.rng()
		bl, bh, ok2 := b.rng()
		if ok1 && ok2 {
			if ah < bl || bh < al {
				return x.F
			}
			if k := sbitsFor(min(al, bl), max(ah, bh)); k < a.w {
				return x.Eq(x.narrow(a, k), x.narrow(b, k))
			}
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.c > mask(a.a[0].w) {
				return x.F
			}
			return x.Eq(a.a[0], x.Const(a.a[0].w, b.c))
		case OAdd:
			if a.a[1].isConst() {
				return x.Eq(a.a[0], x.Const(a.w, b.c-a.a[1].c))
			}
		case OIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				return x.Ite(a.a[0], x.Eq(a.a[1], b), x.Eq(a.a[2], b))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, 0, 0, a, b, nil, "")
}

func (x *ExprCtx) Ite(c, a, b *Expr) *Expr {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return x.Or(c, b)
		}
		if a.isFalse() {
			return x.And(x.Not(c), b)
		}
		if b.isTrue() {
			return x.Or(x.Not(c), a)
		}
		if b.isFalse() {
			return x.And(c, a)
		}
	}
	return x.mk(OIte, a.w, 0, c, a, b, "")
}

func (x *ExprCtx) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w && op != OShl && op != OLShr && op != OAShr {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	rw := w
	switch op {
	case OUlt, OUle, OSlt, OSle:
		rw = 0
	}
	if a.isConst() && b.isConst() {
		return x.Const(rw, evalBin(op, w, a.c, b.c))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return x.Bin(OAdd, a.a[0], x.Const(w, a.a[1].c+b.c))
			}
		}
	case OSub:
		if a == b {
			return x.Const(w, 0)
		}
		if b.isConst() {
			return x.Bin(OAdd, a, x.Const(w, -b.c))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OUlt, OSlt:
		if a == b {
			return x.F
		}
		if e := x.narrowCmp(op, a, b); e != nil {
			return e
		}
		if op == OUlt && b.isConst() && b.c == 0 {
			return x.F
		}
	case OUle, OSle:
		if a == b {
			return x.T
		}
		if e := x.narrowCmp(op, a, b); e != nil {
			return e
		}
		if op == OUle && a.isConst() && a.c == 0 {
			return x.T
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a.isConst() && a.c == 0 {
			return a
		}
		if b.isConst() && b.c == 0 {
			return b
		}
	case OBOr:
		if a == b {
			return a
		}
		if a.isConst() && a.c == 0 {
			return b
		}
		if b.isConst() && b.c == 0 {
			return a
		}
	}
	return x.mk(op, rw, 0, a, b, nil, "")
}

func (x *ExprCtx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return x.Const(a.w, ^a.c)
	}
	return x.mk(OBNot, a.w, 0, a, nil, nil, "")
}

// Resize converts to width w (sign- or zero-extending by `signed`).
func (x *ExprCtx) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return x.Const(w, uint64(sext(a.c, a.w)))
		}
		return x.Const(w, a.c)
	}
	if w < a.w {
		return x.mk(OTrunc, w, 0, a, nil, nil, "")
	}
	if signed {
		return x.mk(OSExt, w, 0, a, nil, nil, "")
	}
	return x.mk(OZExt, w, 0, a, nil, nil, "")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	sa, sb := sext(a, w), sext(b, w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		if b == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sa < sb)
	case OSle:
		return b2u(sa <= sb)
	}
	panic("evalBin")
}

// Model maps variable names to values; missing variables read as zero.
type Model map[string]uint64

// Eval evaluates e under m.
func (e *Expr) Eval(m Model, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OVar:
		return m[e.name] & mask(e.w)
	}
	if e.size > 8 {
		if v, ok := memo[e]; ok {
			return v
		}
	}
	var r uint64
	switch e.op {
	case ONot:
		r = 1 - e.a[0].Eval(m, memo)
	case OAnd:
		if e.a[0].Eval(m, memo) == 0 {
			r = 0
		} else {
			r = e.a[1].Eval(m, memo)
		}
	case OOr:
		if e.a[0].Eval(m, memo) == 1 {
			r = 1
		} else {
			r = e.a[1].Eval(m, memo)
		}
	case OEq:
		r = b2u(e.a[0].Eval(m, memo) == e.a[1].Eval(m, memo))
	case OIte:
		if e.a[0].Eval(m, memo) == 1 {
			r = e.a[1].Eval(m, memo)
		} else {
			r = e.a[2].Eval(m, memo)
		}
	case OBNot:
		r = ^e.a[0].Eval(m, memo) & mask(e.w)
	case OZExt:
		r = e.a[0].Eval(m, memo)
	case OSExt:
		r = uint64(sext(e.a[0].Eval(m, memo), e.a[0].w)) & mask(e.w)
	case OTrunc:
		r = e.a[0].Eval(m, memo) & mask(e.w)
	default:
		r = evalBin(e.op, e.a[0].w, e.a[0].Eval(m, memo), e.a[1].Eval(m, memo))
	}
	if e.size > 8 {
		memo[e] = r
	}
	return r
}

func constStr(w uint8, c uint64) string {
	if w == 0 {
		if c == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(c, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// write prints e as SMT-LIB; name(e) may supply a defined symbol for shared nodes.
func (e *Expr) write(sb *strings.Builder, named func(*Expr) string) {
	switch e.op {
	case OConst:
		sb.WriteString(constStr(e.w, e.c))
		return
	case OVar:
		sb.WriteString("|" + e.name + "|")
		return
	}
	if n := named(e); n != "" {
		sb.WriteString(n)
		return
	}
	e.writeTop(sb, named)
}

func (e *Expr) writeTop(sb *strings.Builder, named func(*Expr) string) {
	sb.WriteByte('(')
	switch e.op {
	case OZExt:
		fmt.Fprintf(sb, "(_ zero_extend %d)", e.w-e.a[0].w)
	case OSExt:
		fmt.Fprintf(sb, "(_ sign_extend %d)", e.w-e.a[0].w)
	case OTrunc:
		fmt.Fprintf(sb, "(_ extract %d 0)", e.w-1)
	default:
		sb.WriteString(opName[e.op])
	}
	for _, y := range e.a {
		if y != nil {
			sb.WriteByte(' ')
			y.write(sb, named)
		}
	}
	sb.WriteByte(')')
}

func bitsFor(n uint64) uint8 { // bits to represent values 0..n
	b := bits.Len64(n)
	if b == 0 {
		b = 1
	}
	return uint8(b)
}

const rngLim = int64(1) << 40

// rng is a conservative range of e's signed value; ok only when it is small.
func (e *Expr) rng() (lo, hi int64, ok bool) {
	switch e.rs {
	case 1:
		return e.rlo, e.rhi, true
	case 2:
		return 0, 0, false
	}
	lo, hi, ok = e.rng0()
	if ok && (lo < -rngLim || hi > rngLim) {
		ok = false
	}
	if ok && e.w < 64 {
		// must be representable without wrap-around in w bits (signed)
		if lo < -(int64(1)<<(e.w-1)) || hi > int64(1)<<(e.w-1)-1 {
			ok = false
		}
	}
	if ok {
		e.rs, e.rlo, e.rhi = 1, lo, hi
	} else {
		e.rs = 2
	}
	return
}

func (e *Expr) rng0() (lo, hi int64, ok bool) {
	if e.w == 0 {
		return 0, 0, false
	}
	switch e.op {
	case OConst:
		v := e.sval()
		return v, v, true
	case OZExt:
		if e.a[0].w == 0 {
			return 0, 1, true
		}
		if e.a[0].w < 40 && e.a[0].w < e.w {
			if l, h, ok := e.a[0].rng(); ok && l >= 0 {
				return l, h, true
			}
			return 0, int64(mask(e.a[0].w)), true
		}
	case OSExt:
		if l, h, ok := e.a[0].rng(); ok {
			return l, h, true
		}
		if e.a[0].w > 0 && e.a[0].w < 40 {
			k := int64(1) << (e.a[0].w - 1)
			return -k, k - 1, true
		}
	case OVar:
		if e.w < 40 {
			k := int64(1) << (e.w - 1)
			return -k, k - 1, true
		}
	case OAdd, OSub:
		l1, h1, ok1 := e.a[0].rng()
		l2, h2, ok2 := e.a[1].rng()
		if ok1 && ok2 {
			if e.op == OAdd {
				return l1 + l2, h1 + h2, true
			}
			return l1 - h2, h1 - l2, true
		}
	case OIte:
		l1, h1, ok1 := e.a[1].rng()
		l2, h2, ok2 := e.a[2].rng()
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
	}
	return 0, 0, false
}

func sbitsFor(lo, hi int64) uint8 {
	k := uint8(1)
	for lo < -(int64(1)<<(k-1)) || hi > int64(1)<<(k-1)-1 {
		k++
	}
	return k
}

// narrow is e truncated to k bits, pushed towards the leaves.
func (x *ExprCtx) narrow(e *Expr, k uint8) *Expr {
	if e.w == k {
		return e
	}
	switch e.op {
	case OConst:
		return x.Const(k, e.c)
	case OZExt:
		if e.a[0].w == 0 {
			break
		}
		if e.a[0].w <= k {
			return x.Resize(e.a[0], k, false)
		}
		return x.narrow(e.a[0], k)
	case OSExt:
		if e.a[0].w <= k {
			return x.Resize(e.a[0], k, true)
		}
		return x.narrow(e.a[0], k)
	case OAdd, OSub:
		return x.Bin(e.op, x.narrow(e.a[0], k), x.narrow(e.a[1], k))
	case OIte:
		return x.Ite(e.a[0], x.narrow(e.a[1], k), x.narrow(e.a[2], k))
	}
	return x.Resize(e, k, false)
}

// narrowCmp decides or narrows a comparison from the operands' ranges.
func (x *ExprCtx) narrowCmp(op Op, a, b *Expr) *Expr {
	al, ah, ok1 := a.rng()
	bl, bh, ok2 := b.rng()
	if !ok1 || !ok2 {
		return nil
	}
	if op == OUlt || op == OUle {
		if al < 0 || bl < 0 {
			return nil
		}
	}
	strict := op == OUlt || op == OSlt
	switch {
	case ah < bl, !strict && ah <= bl:
		return x.T
	case al > bh, strict && al >= bh:
		return x.F
	}
	if k := sbitsFor(min(al, bl), max(ah, bh)); k < a.w {
		so := OSle
		if strict {
			so = OSlt
		}
		return x.Bin(so, x.narrow(a, k), x.narrow(b, k))
	}
	return nil
}
