package main

// Values of the symbolic interpreter. The heap shape is concrete, scalars are terms.

import (
	"bytes"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value any

type (
	tuple     []value
	structure []value
	array     []value
)

// sliceV is a Go slice value: []value shares backing store natively; nil means nil slice.
type sliceV = []value

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

type closure struct {
	Fn  *ssa.Function
	Env []value
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	fn   func(fr *frame, args []value) value
}

// flt is a concrete float, or a float that is exactly the conversion of a symbolic int64.
type flt struct {
	v float64
	i *Expr // if non-nil, value is float64(i), i signed 64-bit
}

// bytesV is an immutable byte slice whose content is a string term.
type bytesV struct{ s *Str }

type strCase struct {
	g *Expr
	s string
}

// Str is a string: concrete, a finite case split, or a JSON document with symbolic leaves.
type Str struct {
	c     string
	cases []strCase
	doc   *Doc
	blob  *blob
}

// blob is an opaque serialisation (cbor) of a deep-copied value.
type blob struct {
	t types.Type
	v value
}

func mkStr(s string) *Str { return &Str{c: s} }

func (s *Str) concrete() bool { return s.cases == nil && s.doc == nil && s.blob == nil }

func (s *Str) String() string {
	switch {
	case s.doc != nil:
		return "<doc>"
	case s.blob != nil:
		return "<blob>"
	case s.cases != nil:
		var l []string
		for _, c := range s.cases {
			l = append(l, fmt.Sprintf("%q", c.s))
		}
		return "{" + strings.Join(l, "|") + "}"
	}
	return s.c
}

type mapEntry struct {
	k       value
	v       value
	dead    bool
	concKey string
	isConc  bool
}

type mapV struct {
	kt      types.Type
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	nsym    int
	n       int
}

func newMap(kt types.Type) *mapV { return &mapV{kt: kt, idx: map[string]*mapEntry{}} }

// concKey returns a canonical key for fully concrete comparable values.
func concKey(v value) (string, bool) {
	switch v := v.(type) {
	case *Expr:
		if v.isConst() {
			return fmt.Sprintf("i%d:%d", v.w, v.c), true
		}
		return "", false
	case *Str:
		if v.concrete() {
			return "s" + v.c, true
		}
		return "", false
	case flt:
		if v.i == nil {
			return fmt.Sprintf("f%v", v.v), true
		}
		return "", false
	case structure:
		var b bytes.Buffer
		b.WriteByte('{')
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s;", len(k), k)
		}
		return b.String(), true
	case array:
		var b bytes.Buffer
		b.WriteByte('[')
		for _, f := range v {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s;", len(k), k)
		}
		return b.String(), true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := concKey(v.v)
		return "I" + types.TypeString(v.t, nil) + "|" + k, ok
	case *value:
		return fmt.Sprintf("p%p", v), true
	case *chanV:
		return fmt.Sprintf("c%p", v), true
	case nil:
		return "nil", true
	}
	return "", false
}

type noopVal struct{} // result of a call into a stubbed-out package, when a pointer is expected

// isNilable zero values
func (m *machine) zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return m.x.F
		case t.Info()&types.IsInteger != 0:
			w, _ := m.intWidth(t)
			return m.x.Const(w, 0)
		case t.Info()&types.IsFloat != 0:
			return flt{}
		case t.Info()&types.IsString != 0:
			return m.emptyStr
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsComplex != 0:
			return flt{}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = m.zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return sliceV(nil)
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		if t.Len() == 1 {
			return m.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = m.zero(t.At(i).Type())
		}
		return s
	}
	panic(m.unsupported(fmt.Sprintf("zero of %v", t)))
}

func (m *machine) intWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(m.unsupported(fmt.Sprintf("intWidth %v", t)))
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	panic(m.unsupported(fmt.Sprintf("intWidth %v", t)))
}

// copyVal copies aggregates (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		a := make(structure, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	case array:
		a := make(array, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	}
	return v
}

// storeTo writes v through p, preserving addresses of fields.
func storeTo(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*p).(structure); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if dst, ok := (*p).(array); ok && len(dst) == len(v) {
			for i := range v {
				storeTo(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings ----

func (m *machine) normCases(cs []strCase) *Str {
	// merge identical strings, drop false guards
	idx := map[string]int{}
	var out []strCase
	for _, c := range cs {
		if c.g.isFalse() {
			continue
		}
		if i, ok := idx[c.s]; ok {
			out[i].g = m.x.Or(out[i].g, c.g)
			continue
		}
		idx[c.s] = len(out)
		out = append(out, c)
	}
	if len(out) == 1 {
		return mkStr(out[0].s)
	}
	if len(out) == 0 {
		panic(m.unsupported("string with no cases"))
	}
	return &Str{cases: out}
}

func (m *machine) strCases(s *Str) []strCase {
	if s.concrete() {
		return []strCase{{m.x.T, s.c}}
	}
	if s.cases != nil {
		return s.cases
	}
	if s.doc != nil {
		return m.docCases(s.doc)
	}
	panic(m.unsupported("string cases of a blob"))
}

func (m *machine) strEq(a, b *Str) *Expr {
	if a == b {
		return m.x.T
	}
	if a.blob != nil || b.blob != nil {
		if a.blob != nil && b.blob != nil && types.Identical(a.blob.t, b.blob.t) {
			return m.deepEq(a.blob.v, b.blob.v)
		}
		return m.x.F
	}
	if a.doc != nil && b.doc != nil {
		return m.docEq(a.doc, b.doc)
	}
	if a.doc != nil {
		a, b = b, a
	}
	if b.doc != nil {
		if a.concrete() {
			if a.c == "" {
				return m.x.F
			}
			d, ok := m.parseDoc(a.c)
			if !ok {
				return m.x.F
			}
			return m.docEq(d, b.doc)
		}
	}
	if a.concrete() && b.concrete() {
		return m.x.Bool(a.c == b.c)
	}
	r := m.x.F
	bi := map[string]*Expr{}
	for _, c := range m.strCases(b) {
		bi[c.s] = c.g
	}
	for _, c := range m.strCases(a) {
		if g, ok := bi[c.s]; ok {
			r = m.x.Or(r, m.x.And(c.g, g))
		}
	}
	return r
}

// lift applies f pointwise to string arguments.
func (m *machine) liftStr(args []*Str, f func([]string) (value, bool)) value {
	type pt struct {
		g *Expr
		a []string
	}
	pts := []pt{{m.x.T, nil}}
	for i, a := range args {
		cs := m.strCases(a)
		if len(pts)*len(cs) > 512 {
			s := m.concretizeStr(a)
			args[i] = mkStr(s)
			cs = []strCase{{m.x.T, s}}
		}
		var np []pt
		for _, p := range pts {
			for _, c := range cs {
				g := m.x.And(p.g, c.g)
				if g.isFalse() {
					continue
				}
				np = append(np, pt{g, append(append([]string{}, p.a...), c.s)})
			}
		}
		pts = np
	}
	var res []value
	for _, p := range pts {
		v, ok := f(p.a)
		if !ok {
			return nil
		}
		res = append(res, v)
	}
	var merge func(vs []value) value
	merge = func(vs []value) value {
		switch v0 := vs[0].(type) {
		case *Str:
			var cs []strCase
			for i, v := range vs {
				cs = append(cs, strCase{pts[i].g, v.(*Str).c})
			}
			return m.normCases(cs)
		case *Expr:
			r := vs[len(vs)-1].(*Expr)
			for i := len(vs) - 2; i >= 0; i-- {
				r = m.x.Ite(pts[i].g, vs[i].(*Expr), r)
			}
			return r
		case tuple:
			out := make(tuple, len(v0))
			for k := range v0 {
				var col []value
				for _, v := range vs {
					col = append(col, v.(tuple)[k])
				}
				out[k] = merge(col)
			}
			return out
		}
		if len(vs) == 1 {
			return vs[0]
		}
		// aggregates: decide which case we are in
		for i := range pts {
			if i == len(pts)-1 || m.branch(pts[i].g) {
				return vs[i]
			}
		}
		panic("unreachable")
	}
	if len(res) == 1 {
		return res[0]
	}
	return merge(res)
}

func (m *machine) strConcat(a, b *Str) *Str {
	if a.concrete() && b.concrete() {
		return mkStr(a.c + b.c)
	}
	if a.concrete() && a.c == "" {
		return b
	}
	if b.concrete() && b.c == "" {
		return a
	}
	return m.liftStr([]*Str{a, b}, func(s []string) (value, bool) { return mkStr(s[0] + s[1]), true }).(*Str)
}

func (m *machine) strLen(a *Str) *Expr {
	if a.doc != nil || a.blob != nil {
		return m.x.Int(int64(16)) // a serialised document is never empty; its exact length is not modelled
	}
	return m.liftStr([]*Str{a}, func(s []string) (value, bool) { return m.x.Int(int64(len(s[0]))), true }).(*Expr)
}

// ---- equality ----

func (m *machine) equals(a, b value) *Expr {
	switch a := a.(type) {
	case *Expr:
		return m.x.Eq(a, b.(*Expr))
	case *Str:
		return m.strEq(a, b.(*Str))
	case flt:
		bb := b.(flt)
		if a.i == nil && bb.i == nil {
			return m.x.Bool(a.v == bb.v)
		}
		return m.x.Eq(m.fltToInt(a), m.fltToInt(bb))
	case structure:
		bb := b.(structure)
		r := m.x.T
		for i := range a {
			r = m.x.And(r, m.equals(a[i], bb[i]))
		}
		return r
	case array:
		bb := b.(array)
		r := m.x.T
		for i := range a {
			r = m.x.And(r, m.equals(a[i], bb[i]))
		}
		return r
	case iface:
		bb, ok := b.(iface)
		if !ok {
			return m.x.F
		}
		if a.t == nil || bb.t == nil {
			return m.x.Bool(a.t == nil && bb.t == nil)
		}
		if !types.Identical(a.t, bb.t) {
			return m.x.F
		}
		return m.equals(a.v, bb.v)
	case *value:
		bb, ok := b.(*value)
		return m.x.Bool(ok && a == bb)
	case *chanV:
		bb, ok := b.(*chanV)
		return m.x.Bool(ok && a == bb)
	case *mapV:
		bb, ok := b.(*mapV)
		return m.x.Bool(ok && a == bb)
	case sliceV:
		if bb, ok := b.(sliceV); ok {
			if a == nil || bb == nil {
				return m.x.Bool(a == nil && bb == nil)
			}
		}
		if _, ok := b.(bytesV); ok {
			return m.x.F
		}
	case bytesV:
		return m.x.F // only compared with nil
	case *ssa.Function:
		return m.x.Bool(a == nil && isNilFunc(b))
	case *closure, *nativeFn, *ssa.Builtin:
		return m.x.Bool(false)
	case noopVal:
		_, ok := b.(noopVal)
		return m.x.Bool(ok)
	case nil:
		return m.x.Bool(b == nil)
	case *opaque:
		bb, ok := b.(*opaque)
		return m.x.Bool(ok && a == bb)
	}
	panic(m.unsupported(fmt.Sprintf("equals %T %T", a, b)))
}

func isNilFunc(v value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

// deepEq is reflect.DeepEqual.
func (m *machine) deepEq(a, b value) *Expr {
	switch a := a.(type) {
	case structure:
		bb := b.(structure)
		r := m.x.T
		for i := range a {
			r = m.x.And(r, m.deepEq(a[i], bb[i]))
		}
		return r
	case array:
		bb := b.(array)
		r := m.x.T
		for i := range a {
			r = m.x.And(r, m.deepEq(a[i], bb[i]))
		}
		return r
	case iface:
		bb := b.(iface)
		if a.t == nil || bb.t == nil {
			return m.x.Bool(a.t == nil && bb.t == nil)
		}
		if !types.Identical(a.t, bb.t) {
			return m.x.F
		}
		return m.deepEq(a.v, bb.v)
	case *value:
		bb := b.(*value)
		if a == bb {
			return m.x.T
		}
		if a == nil || bb == nil {
			return m.x.F
		}
		return m.deepEq(*a, *bb)
	case bytesV:
		if bb, ok := b.(bytesV); ok {
			return m.strEq(a.s, bb.s)
		}
		if bb, ok := b.(sliceV); ok && bb == nil {
			return m.x.F
		}
		return m.strEq(a.s, m.bytesToStr(b))
	case sliceV:
		if bb, ok := b.(bytesV); ok {
			if a == nil {
				return m.x.F
			}
			return m.strEq(m.bytesToStr(a), bb.s)
		}
		bb := b.(sliceV)
		if (a == nil) != (bb == nil) || len(a) != len(bb) {
			return m.x.F
		}
		r := m.x.T
		for i := range a {
			r = m.x.And(r, m.deepEq(a[i], bb[i]))
		}
		return r
	case *mapV:
		bb := b.(*mapV)
		if a == bb {
			return m.x.T
		}
		if a == nil || bb == nil {
			return m.x.F
		}
		if a.n != bb.n {
			return m.x.F
		}
		r := m.x.T
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			f := m.mapFind(bb, e.k)
			if f == nil {
				return m.x.F
			}
			r = m.x.And(r, m.deepEq(e.v, f.v))
		}
		return r
	}
	return m.equals(a, b)
}

func (m *machine) bytesToStr(v value) *Str {
	switch v := v.(type) {
	case bytesV:
		return v.s
	case sliceV:
		bs := make([]byte, len(v))
		for i, e := range v {
			ex := e.(*Expr)
			if !ex.isConst() {
				bs[i] = byte(m.concretize(ex))
			} else {
				bs[i] = byte(ex.c)
			}
		}
		return mkStr(string(bs))
	}
	panic(m.unsupported(fmt.Sprintf("bytesToStr %T", v)))
}

func (m *machine) bytesElems(v value) sliceV {
	switch v := v.(type) {
	case sliceV:
		return v
	case bytesV:
		s := m.concretizeStr(v.s)
		r := make(sliceV, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.x.Const(8, uint64(s[i]))
		}
		return r
	}
	panic(m.unsupported("bytesElems"))
}

// ---- maps ----

// mapFind returns the entry for key k, branching on symbolic equality.
func (m *machine) mapFind(mp *mapV, k value) *mapEntry {
	if mp == nil {
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := mp.idx[ck]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead || (conc && e.isConc) {
			continue
		}
		if m.branch(m.equals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *machine) mapSet(mp *mapV, k, v value) {
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	ck, conc := concKey(k)
	e := &mapEntry{k: k, v: v, concKey: ck, isConc: conc}
	mp.entries = append(mp.entries, e)
	mp.n++
	if conc {
		mp.idx[ck] = e
	} else {
		mp.nsym++
	}
}

func (m *machine) mapDelete(mp *mapV, k value) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapRemove(mp, e)
}

func (m *machine) mapRemove(mp *mapV, e *mapEntry) {
	if e.dead {
		return
	}
	e.dead = true
	mp.n--
	if e.isConc {
		delete(mp.idx, e.concKey)
	} else {
		mp.nsym--
	}
	if len(mp.entries) > 16 && mp.n*2 < len(mp.entries) {
		var ne []*mapEntry
		for _, e := range mp.entries {
			if !e.dead {
				ne = append(ne, e)
			}
		}
		mp.entries = ne
	}
}

// mapOrder returns the live entries in the iteration order chosen for this run.
func (m *machine) mapOrder(mp *mapV) []*mapEntry {
	if mp == nil {
		return nil
	}
	var l []*mapEntry
	for _, e := range mp.entries {
		if !e.dead {
			l = append(l, e)
		}
	}
	if len(l) < 2 {
		return l
	}
	switch m.cfg.MapOrder {
	case "reverse":
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case "any":
		if m.mapPerms < m.cfg.MapPermLimit {
			m.mapPerms++
			for i := 0; i < len(l)-1; i++ {
				j := i + m.chooseSym("maporder", len(l)-i)
				e := l[j]
				copy(l[i+1:j+1], l[i:j])
				l[i] = e
			}
		}
	case "sorted":
		sort.SliceStable(l, func(i, j int) bool { return l[i].concKey < l[j].concKey })
	}
	return l
}
