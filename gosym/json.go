package main

// JSON documents with symbolic leaves, and the models of encoding/json, gjson and sjson
// that operate on them.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type dkind int

const (
	dNull dkind = iota
	dBool
	dNum
	dStr
	dArr
	dObj
)

type docField struct {
	k *Str
	v *Doc
	p *Expr // presence guard; nil = always present
}

type Doc struct {
	kind   dkind
	b      *Expr
	n      *Expr // integer number
	num    float64
	raw    string // raw text of non-integer numbers
	s      *Str
	elems  []*Doc
	fields []docField
}

func (m *machine) docFromNative(x any) *Doc {
	switch v := x.(type) {
	case nil:
		return &Doc{kind: dNull}
	case bool:
		return &Doc{kind: dBool, b: m.x.Bool(v)}
	case json.Number:
		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return &Doc{kind: dNum, n: m.x.Int(i)}
		}
		f, _ := v.Float64()
		return &Doc{kind: dNum, num: f, raw: string(v)}
	case string:
		return &Doc{kind: dStr, s: mkStr(v)}
	}
	panic("docFromNative")
}

// parseDoc parses concrete JSON text preserving member order.
func (m *machine) parseDoc(s string) (*Doc, bool) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	d, err := m.parseTok(dec)
	if err != nil {
		return nil, false
	}
	if _, err := dec.Token(); err == nil {
		return nil, false
	}
	return d, true
}

func (m *machine) parseTok(dec *json.Decoder) (*Doc, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	if dl, ok := t.(json.Delim); ok {
		switch dl {
		case '{':
			d := &Doc{kind: dObj}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := m.parseTok(dec)
				if err != nil {
					return nil, err
				}
				d.fields = append(d.fields, docField{k: mkStr(k.(string)), v: v})
			}
			_, err := dec.Token()
			return d, err
		case '[':
			d := &Doc{kind: dArr}
			for dec.More() {
				v, err := m.parseTok(dec)
				if err != nil {
					return nil, err
				}
				d.elems = append(d.elems, v)
			}
			_, err := dec.Token()
			return d, err
		}
		return nil, fmt.Errorf("bad delim")
	}
	return m.docFromNative(t), nil
}

// docOf returns the document a string denotes, forking over cases; ok=false if not JSON.
func (m *machine) docOf(s *Str) (*Doc, bool) {
	if s.doc != nil {
		return s.doc, true
	}
	if s.blob != nil {
		return nil, false
	}
	return m.parseDoc(m.concretizeStr(s))
}

func (m *machine) docEq(a, b *Doc) *Expr {
	if a == b {
		return m.x.T
	}
	if a.kind != b.kind {
		return m.x.F
	}
	switch a.kind {
	case dNull:
		return m.x.T
	case dBool:
		return m.x.Eq(a.b, b.b)
	case dNum:
		if a.n != nil && b.n != nil {
			return m.x.Eq(a.n, b.n)
		}
		return m.x.Bool(a.n == nil && b.n == nil && a.num == b.num)
	case dStr:
		return m.strEq(a.s, b.s)
	case dArr:
		if len(a.elems) != len(b.elems) {
			return m.x.F
		}
		r := m.x.T
		for i := range a.elems {
			r = m.x.And(r, m.docEq(a.elems[i], b.elems[i]))
		}
		return r
	}
	// objects: textual order matters for byte equality
	fa, fb := m.resolved(a), m.resolved(b)
	if len(fa) != len(fb) {
		return m.x.F
	}
	r := m.x.T
	for i := range fa {
		r = m.x.And(r, m.x.And(m.strEq(fa[i].k, fb[i].k), m.docEq(fa[i].v, fb[i].v)))
	}
	return r
}

// resolved decides the presence of every optional field.
func (m *machine) resolved(d *Doc) []docField {
	var out []docField
	for _, f := range d.fields {
		if f.p == nil || m.branch(f.p) {
			out = append(out, docField{k: f.k, v: f.v})
		}
	}
	return out
}

func (m *machine) docConcrete(d *Doc) bool {
	switch d.kind {
	case dBool:
		return d.b.isConst()
	case dNum:
		return d.n == nil || d.n.isConst()
	case dStr:
		return d.s.concrete()
	case dArr:
		for _, e := range d.elems {
			if !m.docConcrete(e) {
				return false
			}
		}
	case dObj:
		for _, f := range d.fields {
			if f.p != nil || !f.k.concrete() || !m.docConcrete(f.v) {
				return false
			}
		}
	}
	return true
}

// docText serialises d, forking over every symbolic leaf.
func (m *machine) docText(d *Doc, sb *strings.Builder) {
	switch d.kind {
	case dNull:
		sb.WriteString("null")
	case dBool:
		if m.branch(d.b) {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case dNum:
		if d.n != nil {
			sb.WriteString(strconv.FormatInt(int64(m.concretize(d.n)), 10))
		} else {
			sb.WriteString(d.raw)
		}
	case dStr:
		b, _ := json.Marshal(m.concretizeStr(d.s))
		sb.Write(b)
	case dArr:
		sb.WriteByte('[')
		for i, e := range d.elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			m.docText(e, sb)
		}
		sb.WriteByte(']')
	case dObj:
		sb.WriteByte('{')
		for i, f := range m.resolved(d) {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(m.concretizeStr(f.k))
			sb.Write(b)
			sb.WriteByte(':')
			m.docText(f.v, sb)
		}
		sb.WriteByte('}')
	}
}

func (m *machine) docCases(d *Doc) []strCase {
	var sb strings.Builder
	m.docText(d, &sb)
	return []strCase{{m.x.T, sb.String()}}
}

func docStr(d *Doc) *Str { return &Str{doc: d} }

// field finds an object member, branching on presence and symbolic keys.
func (m *machine) docField(d *Doc, key *Str) *Doc {
	if d == nil || d.kind != dObj {
		return nil
	}
	// gjson returns the first match
	for _, f := range d.fields {
		eq := m.strEq(f.k, key)
		if eq.isFalse() {
			continue
		}
		c := eq
		if f.p != nil {
			c = m.x.And(c, f.p)
		}
		if m.branch(c) {
			return f.v
		}
	}
	return nil
}

// splitPath parses a gjson/sjson path of plain (possibly escaped) components.
func (m *machine) splitPath(p string) []string {
	var out []string
	var cur strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch c {
		case '\\':
			i++
			if i < len(p) {
				cur.WriteByte(p[i])
			}
		case '.':
			out = append(out, cur.String())
			cur.Reset()
		case '*', '?', '|', '@', '!', '{', '}', '[', ']', '(', ')':
			if c == '*' || c == '?' || c == '|' {
				panic(m.unsupported("gjson path " + p))
			}
			cur.WriteByte(c)
		default:
			cur.WriteByte(c)
		}
	}
	return append(out, cur.String())
}

// gjson wildcard components: * in a component matches; we only support literal components.
func (m *machine) docGet(d *Doc, path string) *Doc {
	return m.docGetParts(d, m.splitPath(path))
}

func (m *machine) docGetParts(d *Doc, parts []string) *Doc {
	for i, c := range parts {
		if d == nil {
			return nil
		}
		switch d.kind {
		case dObj:
			d = m.docField(d, mkStr(c))
		case dArr:
			if c == "#" {
				if i == len(parts)-1 {
					return &Doc{kind: dNum, n: m.x.Int(int64(len(d.elems)))}
				}
				out := &Doc{kind: dArr}
				for _, e := range d.elems {
					if x := m.docGetParts(e, parts[i+1:]); x != nil {
						out.elems = append(out.elems, x)
					}
				}
				return out
			}
			k, err := strconv.Atoi(c)
			if err != nil || k < 0 || k >= len(d.elems) {
				return nil
			}
			d = d.elems[k]
		default:
			return nil
		}
	}
	return d
}

// gjson.Result: struct {Type; Raw; Str; Num; Index; Indexes}
func (m *machine) gjsonResult(d *Doc) value {
	t := 0 // Null
	raw := m.emptyStr
	str := m.emptyStr
	num := flt{}
	if d != nil {
		raw = docStr(d)
		if m.docConcrete(d) {
			var sb strings.Builder
			m.docText(d, &sb)
			raw = mkStr(sb.String())
		}
		switch d.kind {
		case dBool:
			if m.branch(d.b) {
				t = 4 // True
			} else {
				t = 1 // False
			}
		case dNum:
			t = 2
			if d.n != nil {
				num = flt{i: d.n}
				if d.n.isConst() {
					num = flt{v: float64(d.n.sval())}
				}
			} else {
				num = flt{v: d.num}
			}
		case dStr:
			t = 3
			str = d.s
		case dArr, dObj:
			t = 5
		}
	}
	return structure{m.x.Int(int64(t)), raw, str, num, m.x.Int(0), sliceV(nil)}
}

// resultDoc recovers the document of a gjson.Result.
func (m *machine) resultDoc(v value) *Doc {
	st := v.(structure)
	raw := st[1].(*Str)
	if raw.concrete() && raw.c == "" {
		// synthesised results such as gjson.Result{Type: gjson.String, Str: ...}
		switch st[0].(*Expr).c {
		case 3:
			return &Doc{kind: dStr, s: st[2].(*Str)}
		}
		return nil
	}
	d, ok := m.docOf(raw)
	if !ok {
		return nil
	}
	return d
}

func (m *machine) docString(d *Doc) *Str {
	if d == nil {
		return m.emptyStr
	}
	switch d.kind {
	case dStr:
		return d.s
	case dNull:
		return m.emptyStr
	}
	if m.docConcrete(d) {
		var sb strings.Builder
		m.docText(d, &sb)
		return mkStr(sb.String())
	}
	return docStr(d)
}

func (m *machine) docInt(d *Doc) *Expr {
	if d == nil {
		return m.x.Int(0)
	}
	switch d.kind {
	case dBool:
		return m.x.Ite(d.b, m.x.Int(1), m.x.Int(0))
	case dNum:
		if d.n != nil {
			return d.n
		}
		return m.x.Int(int64(d.num))
	case dStr:
		return m.liftStr([]*Str{d.s}, func(s []string) (value, bool) {
			i, _ := strconv.ParseInt(s[0], 10, 64)
			return m.x.Int(i), true
		}).(*Expr)
	}
	return m.x.Int(0)
}

// docSet is sjson.Set: replace or append a member along a path.
func (m *machine) docSet(d *Doc, parts []string, v *Doc) *Doc {
	if len(parts) == 0 {
		return v
	}
	nd := &Doc{kind: dObj}
	if d != nil && d.kind == dArr {
		k, err := strconv.Atoi(parts[0])
		if err != nil {
			panic(m.unsupported("sjson array path"))
		}
		na := &Doc{kind: dArr, elems: append([]*Doc{}, d.elems...)}
		if k < len(na.elems) {
			na.elems[k] = m.docSet(na.elems[k], parts[1:], v)
		} else {
			na.elems = append(na.elems, m.docSet(nil, parts[1:], v))
		}
		return na
	}
	done := false
	if d != nil && d.kind == dObj {
		for _, f := range d.fields {
			if !done && m.branch(m.strEq(f.k, mkStr(parts[0]))) && (f.p == nil || m.branch(f.p)) {
				nd.fields = append(nd.fields, docField{k: f.k, v: m.docSet(f.v, parts[1:], v)})
				done = true
				continue
			}
			nd.fields = append(nd.fields, f)
		}
	}
	if !done {
		nd.fields = append(nd.fields, docField{k: mkStr(parts[0]), v: m.docSet(nil, parts[1:], v)})
	}
	return nd
}

func (m *machine) docDelete(d *Doc, parts []string) *Doc {
	if d == nil || d.kind != dObj {
		return d
	}
	nd := &Doc{kind: dObj}
	for _, f := range d.fields {
		if m.branch(m.strEq(f.k, mkStr(parts[0]))) {
			if len(parts) == 1 {
				continue
			}
			nd.fields = append(nd.fields, docField{k: f.k, v: m.docDelete(f.v, parts[1:]), p: f.p})
			continue
		}
		nd.fields = append(nd.fields, f)
	}
	return nd
}

// ---- encoding/json ----

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	asString  bool
	depth     int
	tagged    bool
}

func jsonFields(t *types.Struct, prefix []int, depth int) []jfield {
	var out []jfield
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		idx := append(append([]int{}, prefix...), i)
		ft := f.Type()
		if f.Anonymous() && parts[0] == "" {
			u := ft.Underlying()
			if st, ok := u.(*types.Struct); ok {
				out = append(out, jsonFields(st, idx, depth+1)...)
				continue
			}
			if pt, ok := u.(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					_ = st
					// embedded pointers: not modelled
				}
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), idx: idx, t: ft, depth: depth}
		if parts[0] != "" {
			jf.name = parts[0]
			jf.tagged = true
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omitempty = true
			}
			if o == "string" {
				jf.asString = true
			}
		}
		out = append(out, jf)
	}
	if depth == 0 {
		// shallower fields win
		best := map[string]int{}
		for _, f := range out {
			if d, ok := best[f.name]; !ok || f.depth < d {
				best[f.name] = f.depth
			}
		}
		var o2 []jfield
		for _, f := range out {
			if best[f.name] == f.depth {
				o2 = append(o2, f)
			}
		}
		out = o2
	}
	return out
}

func (m *machine) methodOn(t types.Type, name string) *methodRef {
	ms := m.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			if fn, ok := s.Obj().(*types.Func); ok {
				return &methodRef{t, fn}
			}
		}
	}
	return nil
}

type methodRef struct {
	t  types.Type
	fn *types.Func
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "encoding/json" || strings.HasSuffix(n.Obj().Pkg().Path(), "gomatrixserverlib/spec"))
}

func (m *machine) isEmptyVal(v value) *Expr {
	switch v := v.(type) {
	case *Expr:
		if v.w == 0 {
			return m.x.Not(v)
		}
		return m.x.Eq(v, m.x.Const(v.w, 0))
	case *Str:
		return m.x.Eq(m.strLen(v), m.x.Int(0))
	case flt:
		return m.x.Eq(m.fltToInt(v), m.x.Int(0))
	case sliceV:
		return m.x.Bool(len(v) == 0)
	case bytesV:
		return m.x.Eq(m.strLen(v.s), m.x.Int(0))
	case *mapV:
		return m.x.Bool(v == nil || v.n == 0)
	case *value:
		return m.x.Bool(v == nil)
	case iface:
		return m.x.Bool(v.t == nil)
	case array:
		return m.x.Bool(len(v) == 0)
	}
	return m.x.F
}

// marshal returns the document for v of static type t; err is an interpreted error.
func (m *machine) marshal(fr *frame, v value, t types.Type) (*Doc, value) {
	if isRawMessage(t) {
		if isNilSlice(v) {
			return &Doc{kind: dNull}, nil
		}
		d, ok := m.docOf(m.bytesToStr(v))
		if !ok {
			return nil, m.mkError("json: error calling MarshalJSON for type json.RawMessage")
		}
		return d, nil
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		_ = i
		x := v.(iface)
		if x.t == nil {
			return &Doc{kind: dNull}, nil
		}
		return m.marshal(fr, x.v, x.t)
	}
	if p, ok := v.(*value); ok && p == nil {
		return &Doc{kind: dNull}, nil
	}
	if _, isNamed := types.Unalias(t).(*types.Named); isNamed || isPtr(t) {
		if mr := m.methodOn(t, "MarshalJSON"); mr != nil {
			f := m.prog.lookupMethod(t, mr.fn)
			r := m.call(fr, f, []value{copyVal(v)}).(tuple)
			if e := r[1].(iface); e.t != nil {
				return nil, e
			}
			d, ok := m.docOf(m.bytesToStr(r[0]))
			if !ok {
				return nil, m.mkError("json: invalid MarshalJSON output")
			}
			return d, nil
		}
		if mr := m.methodOn(t, "MarshalText"); mr != nil {
			f := m.prog.lookupMethod(t, mr.fn)
			r := m.call(fr, f, []value{copyVal(v)}).(tuple)
			if e := r[1].(iface); e.t != nil {
				return nil, e
			}
			return &Doc{kind: dStr, s: m.bytesToStr(r[0])}, nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*value)
		return m.marshal(fr, *p, u.Elem())
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return &Doc{kind: dStr, s: x}, nil
		case flt:
			if x.i != nil {
				return &Doc{kind: dNum, n: x.i}, nil
			}
			b, _ := json.Marshal(x.v)
			d, _ := m.parseDoc(string(b))
			return d, nil
		case *Expr:
			if x.w == 0 {
				return &Doc{kind: dBool, b: x}, nil
			}
			return &Doc{kind: dNum, n: m.x.Resize(x, 64, isSigned(t))}, nil
		}
	case *types.Struct:
		st := v.(structure)
		d := &Doc{kind: dObj}
		for _, f := range jsonFields(u, nil, 0) {
			fv := value(st)
			for _, i := range f.idx {
				fv = fv.(structure)[i]
			}
			if f.omitempty {
				if m.branch(m.isEmptyVal(fv)) {
					continue
				}
			}
			x, err := m.marshal(fr, fv, f.t)
			if err != nil {
				return nil, err
			}
			d.fields = append(d.fields, docField{k: mkStr(f.name), v: x})
		}
		return d, nil
	case *types.Map:
		mp := v.(*mapV)
		if mp == nil {
			return &Doc{kind: dNull}, nil
		}
		d := &Doc{kind: dObj}
		for _, e := range mp.entries {
			if e.dead {
				continue
			}
			x, err := m.marshal(fr, e.v, u.Elem())
			if err != nil {
				return nil, err
			}
			var k *Str
			switch kk := e.k.(type) {
			case *Str:
				k = kk
			case *Expr:
				k = mkStr(strconv.FormatInt(int64(m.concretize(kk)), 10))
			default:
				panic(m.unsupported("json map key"))
			}
			d.fields = append(d.fields, docField{k: k, v: x})
		}
		allc := true
		for _, f := range d.fields {
			if !f.k.concrete() {
				allc = false
			}
		}
		if allc {
			sort.SliceStable(d.fields, func(i, j int) bool { return d.fields[i].k.c < d.fields[j].k.c })
		}
		return d, nil
	case *types.Slice:
		if isNilSlice(v) {
			return &Doc{kind: dNull}, nil
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			panic(m.unsupported("json of []byte"))
		}
		d := &Doc{kind: dArr}
		for _, e := range v.(sliceV) {
			x, err := m.marshal(fr, e, u.Elem())
			if err != nil {
				return nil, err
			}
			d.elems = append(d.elems, x)
		}
		return d, nil
	case *types.Array:
		d := &Doc{kind: dArr}
		for _, e := range v.(array) {
			x, err := m.marshal(fr, e, u.Elem())
			if err != nil {
				return nil, err
			}
			d.elems = append(d.elems, x)
		}
		return d, nil
	}
	panic(m.unsupported(fmt.Sprintf("json.Marshal of %v", t)))
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// unmarshal stores d into *p of type t; returns nil or an interpreted error.
func (m *machine) unmarshal(fr *frame, d *Doc, p *value, t types.Type) value {
	if isRawMessage(t) {
		*p = bytesV{m.canonStr(d)}
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if d.kind == dNull {
			*p = (*value)(nil)
			return nil
		}
		q, _ := (*p).(*value)
		if q == nil {
			var nv value = m.zero(pt.Elem())
			q = &nv
			*p = q
		}
		return m.unmarshal(fr, d, q, pt.Elem())
	}
	if _, isNamed := types.Unalias(t).(*types.Named); isNamed {
		if mr := m.methodOn(types.NewPointer(t), "UnmarshalJSON"); mr != nil {
			f := m.prog.lookupMethod(mr.t, mr.fn)
			r := m.call(fr, f, []value{p, bytesV{m.canonStr(d)}})
			if e, ok := r.(iface); ok && e.t != nil {
				return e
			}
			return nil
		}
	}
	typeErr := func() value {
		return m.mkError(fmt.Sprintf("json: cannot unmarshal into Go value of type %v", t))
	}
	if d.kind == dNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface:
			*p = m.zero(t)
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if d.kind != dStr {
				return typeErr()
			}
			*p = d.s
			return nil
		case u.Info()&types.IsBoolean != 0:
			if d.kind != dBool {
				return typeErr()
			}
			*p = d.b
			return nil
		case u.Info()&types.IsInteger != 0:
			if d.kind != dNum || d.n == nil {
				return typeErr()
			}
			w, _ := m.intWidth(u)
			*p = m.x.Resize(d.n, w, true)
			return nil
		case u.Info()&types.IsFloat != 0:
			if d.kind != dNum {
				return typeErr()
			}
			if d.n != nil {
				if d.n.isConst() {
					*p = flt{v: float64(d.n.sval())}
				} else {
					*p = flt{i: d.n}
				}
			} else {
				*p = flt{v: d.num}
			}
			return nil
		}
	case *types.Struct:
		if d.kind != dObj {
			return typeErr()
		}
		st := (*p).(structure)
		fields := jsonFields(u, nil, 0)
		var firstErr value
		for _, df := range m.resolved(d) {
			name := m.concretizeStr(df.k)
			var hit *jfield
			for i := range fields {
				if fields[i].name == name {
					hit = &fields[i]
					break
				}
			}
			if hit == nil {
				for i := range fields {
					if strings.EqualFold(fields[i].name, name) {
						hit = &fields[i]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			cur := st
			for _, i := range hit.idx[:len(hit.idx)-1] {
				cur = cur[i].(structure)
			}
			if err := m.unmarshal(fr, df.v, &cur[hit.idx[len(hit.idx)-1]], hit.t); err != nil && firstErr == nil {
				firstErr = err
			}
		}
		return firstErr
	case *types.Map:
		if d.kind != dObj {
			return typeErr()
		}
		mp, _ := (*p).(*mapV)
		if mp == nil {
			mp = newMap(u.Key())
			*p = mp
		}
		var firstErr value
		for _, df := range m.resolved(d) {
			var ev value = m.zero(u.Elem())
			if err := m.unmarshal(fr, df.v, &ev, u.Elem()); err != nil && firstErr == nil {
				firstErr = err
			}
			var k value = df.k
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				w, _ := m.intWidth(b)
				i, _ := strconv.ParseInt(m.concretizeStr(df.k), 10, 64)
				k = m.x.Const(w, uint64(i))
			}
			m.mapSet(mp, k, ev)
		}
		return firstErr
	case *types.Slice:
		if d.kind != dArr {
			return typeErr()
		}
		out := make(sliceV, 0, len(d.elems))
		var firstErr value
		for _, e := range d.elems {
			var ev value = m.zero(u.Elem())
			if err := m.unmarshal(fr, e, &ev, u.Elem()); err != nil && firstErr == nil {
				firstErr = err
			}
			out = append(out, ev)
		}
		*p = out
		return firstErr
	case *types.Array:
		if d.kind != dArr {
			return typeErr()
		}
		arr := (*p).(array)
		var firstErr value
		for i := range arr {
			if i < len(d.elems) {
				if err := m.unmarshal(fr, d.elems[i], &arr[i], u.Elem()); err != nil && firstErr == nil {
					firstErr = err
				}
			} else {
				arr[i] = m.zero(u.Elem())
			}
		}
		return firstErr
	case *types.Interface:
		*p = m.docToAny(d)
		return nil
	}
	panic(m.unsupported(fmt.Sprintf("json.Unmarshal into %v", t)))
}

func (m *machine) canonStr(d *Doc) *Str {
	if m.docConcrete(d) {
		var sb strings.Builder
		m.docText(d, &sb)
		return mkStr(sb.String())
	}
	return docStr(d)
}

var anyT = types.NewInterfaceType(nil, nil)
var mapAnyT = types.NewMap(types.Typ[types.String], anyT)
var sliceAnyT = types.NewSlice(anyT)

func (m *machine) docToAny(d *Doc) value {
	switch d.kind {
	case dNull:
		return iface{}
	case dBool:
		return iface{types.Typ[types.Bool], d.b}
	case dNum:
		if d.n != nil && !d.n.isConst() {
			return iface{types.Typ[types.Float64], flt{i: d.n}}
		}
		if d.n != nil {
			return iface{types.Typ[types.Float64], flt{v: float64(d.n.sval())}}
		}
		return iface{types.Typ[types.Float64], flt{v: d.num}}
	case dStr:
		return iface{types.Typ[types.String], d.s}
	case dArr:
		s := sliceV{}
		for _, e := range d.elems {
			s = append(s, m.docToAny(e))
		}
		return iface{sliceAnyT, s}
	}
	mp := newMap(types.Typ[types.String])
	for _, f := range m.resolved(d) {
		m.mapSet(mp, f.k, m.docToAny(f.v))
	}
	return iface{mapAnyT, mp}
}
