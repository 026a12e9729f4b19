package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *machine) fltToInt(f flt) *Expr {
	if f.i != nil {
		return f.i
	}
	return m.x.Int(int64(f.v))
}

func (m *machine) binop(fr *frame, op token.Token, t types.Type, x, y value, yt types.Type) value {
	switch op {
	case token.EQL:
		return m.eqTyped(fr, t, x, y)
	case token.NEQ:
		return m.x.Not(m.eqTyped(fr, t, x, y))
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return m.strConcat(a, b)
		}
		return m.liftStr([]*Str{a, b}, func(s []string) (value, bool) {
			var r bool
			switch op {
			case token.LSS:
				r = s[0] < s[1]
			case token.LEQ:
				r = s[0] <= s[1]
			case token.GTR:
				r = s[0] > s[1]
			case token.GEQ:
				r = s[0] >= s[1]
			}
			return m.x.Bool(r), true
		})
	case flt:
		b := y.(flt)
		if a.i == nil && b.i == nil {
			switch op {
			case token.ADD:
				return flt{v: a.v + b.v}
			case token.SUB:
				return flt{v: a.v - b.v}
			case token.MUL:
				return flt{v: a.v * b.v}
			case token.QUO:
				return flt{v: a.v / b.v}
			case token.LSS:
				return m.x.Bool(a.v < b.v)
			case token.LEQ:
				return m.x.Bool(a.v <= b.v)
			case token.GTR:
				return m.x.Bool(a.v > b.v)
			case token.GEQ:
				return m.x.Bool(a.v >= b.v)
			}
		}
		ok := func(f flt) bool { return f.i != nil || f.v == math.Trunc(f.v) && math.Abs(f.v) < 1<<53 }
		if ok(a) && ok(b) {
			p, q := m.fltToInt(a), m.fltToInt(b)
			switch op {
			case token.LSS:
				return m.x.Bin(OSlt, p, q)
			case token.LEQ:
				return m.x.Bin(OSle, p, q)
			case token.GTR:
				return m.x.Bin(OSlt, q, p)
			case token.GEQ:
				return m.x.Bin(OSle, q, p)
			case token.ADD:
				return flt{i: m.x.Bin(OAdd, p, q)}
			case token.SUB:
				return flt{i: m.x.Bin(OSub, p, q)}
			}
		}
		panic(m.unsupported("float op on symbolic value"))
	case *Expr:
		b := y.(*Expr)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return m.x.And(a, b)
			case token.OR, token.LOR:
				return m.x.Or(a, b)
			}
			panic(m.unsupported("bool op " + op.String()))
		}
		signed := isSigned(t)
		pick := func(s, u Op) Op {
			if signed {
				return s
			}
			return u
		}
		switch op {
		case token.ADD:
			return m.x.Bin(OAdd, a, b)
		case token.SUB:
			return m.x.Bin(OSub, a, b)
		case token.MUL:
			return m.x.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if m.branch(m.x.Eq(b, m.x.Const(b.w, 0))) {
				m.rtPanic(fr, "integer divide by zero")
			}
			if op == token.QUO {
				return m.x.Bin(pick(OSDiv, OUDiv), a, b)
			}
			return m.x.Bin(pick(OSRem, OURem), a, b)
		case token.AND:
			return m.x.Bin(OBAnd, a, b)
		case token.OR:
			return m.x.Bin(OBOr, a, b)
		case token.XOR:
			return m.x.Bin(OBXor, a, b)
		case token.AND_NOT:
			return m.x.Bin(OBAnd, a, m.x.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) && m.branch(m.x.Bin(OSlt, b, m.x.Const(b.w, 0))) {
				m.rtPanic(fr, "negative shift amount")
			}
			if b.w > a.w {
				big := m.x.Not(m.x.Bin(OUlt, b, m.x.Const(b.w, uint64(a.w))))
				b = m.x.Ite(big, m.x.Const(a.w, uint64(a.w)), m.x.Resize(b, a.w, false))
			} else {
				b = m.x.Resize(b, a.w, false)
			}
			if op == token.SHL {
				return m.x.Bin(OShl, a, b)
			}
			return m.x.Bin(pick(OAShr, OLShr), a, b)
		case token.LSS:
			return m.x.Bin(pick(OSlt, OUlt), a, b)
		case token.LEQ:
			return m.x.Bin(pick(OSle, OUle), a, b)
		case token.GTR:
			return m.x.Bin(pick(OSlt, OUlt), b, a)
		case token.GEQ:
			return m.x.Bin(pick(OSle, OUle), b, a)
		}
	}
	panic(m.unsupported(fmt.Sprintf("binop %T %s", x, op)))
}

func (m *machine) eqTyped(fr *frame, t types.Type, x, y value) *Expr {
	switch t.Underlying().(type) {
	case *types.Slice:
		return m.x.Bool(isNilSlice(x) && isNilSlice(y))
	case *types.Map:
		a, _ := x.(*mapV)
		b, _ := y.(*mapV)
		return m.x.Bool(a == nil && b == nil)
	case *types.Signature:
		return m.x.Bool(isNilFunc(x) && isNilFunc(y))
	}
	if i, ok := x.(iface); ok {
		if j, ok := y.(iface); ok && i.t != nil && j.t != nil && types.Identical(i.t, j.t) && !types.Comparable(i.t) {
			m.rtPanic(fr, "comparing uncomparable type")
		}
	}
	return m.equals(x, y)
}

func isNilSlice(v value) bool {
	s, ok := v.(sliceV)
	return ok && s == nil
}

func (m *machine) convert(fr *frame, dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.TypeParam); ok {
		ud = tp.Underlying()
	}
	switch d := ud.(type) {
	case *types.Basic:
		switch {
		case d.Kind() == types.UnsafePointer:
			return x
		case d.Info()&types.IsInteger != 0:
			w, _ := m.intWidth(d)
			switch v := x.(type) {
			case *Expr:
				return m.x.Resize(v, w, isSigned(src))
			case flt:
				if v.i != nil {
					return m.x.Resize(v.i, w, true)
				}
				return m.x.Const(w, uint64(int64(v.v)))
			case *value:
				return m.x.Const(w, 1)
			}
		case d.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case *Expr:
				if v.isConst() {
					if isSigned(src) {
						return flt{v: float64(v.sval())}
					}
					return flt{v: float64(v.c)}
				}
				return flt{i: m.x.Resize(v, 64, isSigned(src))}
			case flt:
				if d.Kind() == types.Float32 && v.i == nil {
					return flt{v: float64(float32(v.v))}
				}
				return v
			}
		case d.Info()&types.IsString != 0:
			switch v := x.(type) {
			case *Str:
				return v
			case *Expr:
				return mkStr(string(rune(int64(m.concretize(v)))))
			case bytesV:
				return v.s
			case sliceV:
				if et := us.(*types.Slice).Elem().Underlying().(*types.Basic); et.Kind() == types.Byte {
					return m.bytesToStr(v)
				}
				var rs []rune
				for _, e := range v {
					rs = append(rs, rune(int32(m.concretize(e.(*Expr)))))
				}
				return mkStr(string(rs))
			}
		}
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			if et := d.Elem().Underlying().(*types.Basic); et.Kind() == types.Byte {
				return bytesV{s}
			}
			c := m.concretizeStr(s)
			r := sliceV{}
			for _, ch := range c {
				r = append(r, m.x.Const(32, uint64(uint32(ch))))
			}
			return r
		}
		return x
	case *types.Pointer:
		return x
	}
	if types.Identical(ud, us) {
		return x
	}
	panic(m.unsupported(fmt.Sprintf("convert %v -> %v (%T)", src, dst, x)))
}

// ---- iteration ----

type iter interface{ next(m *machine) tuple }

type mapIter struct {
	mp   *mapV
	keys []*mapEntry
	i    int
	seen map[*mapEntry]bool
	kz   value
	vz   value
}

func (it *mapIter) next(m *machine) tuple {
	for it.i < len(it.keys) {
		e := it.keys[it.i]
		it.i++
		if e.dead {
			continue
		}
		return tuple{m.x.T, copyVal(e.k), copyVal(e.v)}
	}
	return tuple{m.x.F, it.kz, it.vz}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next(m *machine) tuple {
	if it.i >= len(it.s) {
		return tuple{m.x.F, m.x.Int(0), m.x.Const(32, 0)}
	}
	r, n := utf8.DecodeRuneInString(it.s[it.i:])
	i := it.i
	it.i += n
	return tuple{m.x.T, m.x.Int(int64(i)), m.x.Const(32, uint64(uint32(r)))}
}

func (m *machine) rangeIter(x value, t types.Type) iter {
	switch x := x.(type) {
	case *mapV:
		mt := t.Underlying().(*types.Map)
		return &mapIter{mp: x, keys: m.mapOrder(x), kz: m.zero(mt.Key()), vz: m.zero(mt.Elem())}
	case *Str:
		return &strIter{s: m.concretizeStr(x)}
	}
	panic(m.unsupported(fmt.Sprintf("range over %T", x)))
}

// ---- builtins ----

func (m *machine) lenOf(v value) *Expr {
	switch v := v.(type) {
	case *Str:
		return m.strLen(v)
	case bytesV:
		return m.strLen(v.s)
	case sliceV:
		return m.x.Int(int64(len(v)))
	case array:
		return m.x.Int(int64(len(v)))
	case *value:
		return m.x.Int(int64(len((*v).(array))))
	case *mapV:
		if v == nil {
			return m.x.Int(0)
		}
		return m.x.Int(int64(v.n))
	case *chanV:
		if v == nil {
			return m.x.Int(0)
		}
		return m.x.Int(int64(len(v.buf)))
	}
	panic(m.unsupported(fmt.Sprintf("len of %T", v)))
}

func (m *machine) callBuiltin(fr *frame, fn *ssa.Builtin, args []value) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if s, ok := args[1].(*Str); ok {
			args[1] = bytesV{s}
		}
		if b, ok := args[1].(bytesV); ok {
			if d, ok := args[0].(sliceV); ok && len(d) == 0 {
				return b
			}
			return bytesV{m.strConcat(m.bytesToStr(args[0]), b.s)}
		}
		if _, ok := args[0].(bytesV); ok {
			add := args[1].(sliceV)
			if len(add) == 0 {
				return args[0]
			}
			return append(m.bytesElems(args[0]), add...)
		}
		src := args[1].(sliceV)
		dst := args[0].(sliceV)
		if len(src) == 0 {
			return dst
		}
		cp := make([]value, len(src))
		for i := range src {
			cp[i] = copyVal(src[i])
		}
		if len(dst)+len(cp) <= cap(dst) {
			n := len(dst)
			dst = dst[: n+len(cp) : cap(dst)]
			for i := range cp {
				dst[n+i] = cp[i]
			}
			return dst
		}
		return append(dst, cp...)
	case "copy":
		if s, ok := args[1].(*Str); ok {
			args[1] = bytesV{s}
		}
		dst := m.bytesElems(args[0])
		if b, ok := args[1].(bytesV); ok {
			// copying a document into a fresh slice of the modelled length
			if b.s.doc != nil || b.s.blob != nil {
				panic(m.unsupported("copy of symbolic document bytes"))
			}
		}
		src := m.bytesElems(args[1])
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			dst[i] = tmp[i]
		}
		return m.x.Int(int64(n))
	case "len":
		return m.lenOf(args[0])
	case "cap":
		switch v := args[0].(type) {
		case sliceV:
			return m.x.Int(int64(cap(v)))
		case *chanV:
			return m.x.Int(int64(v.cap))
		}
		return m.lenOf(args[0])
	case "delete":
		mp, _ := args[0].(*mapV)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		if mp, ok := args[0].(*mapV); ok && mp != nil {
			for _, e := range mp.entries {
				m.mapRemove(mp, e)
			}
			mp.entries = nil
		}
		return nil
	case "close":
		m.chanClose(fr, args[0])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], where: fr.where()})
	case "recover":
		// fr is the frame of the deferred function; its caller is the panicking frame
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Expr), a.(*Expr)
			c := m.x.Bin(OSlt, y, x)
			if fn.Name() == "max" {
				c = m.x.Bin(OSlt, x, y)
			}
			r = m.x.Ite(c, y, x)
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(*value)
		if !ok || p == nil {
			m.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	}
	panic(m.unsupported("builtin " + fn.Name()))
}

func (m *machine) doRecover(fr *frame) value {
	if fr == nil || fr.caller == nil || !fr.caller.panicking {
		return iface{}
	}
	tp := fr.caller.panicVal.(targetPanic)
	fr.caller.panicking = false
	v := tp.v
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{t: types.Typ[types.String], v: mkStr("panic")}
}
