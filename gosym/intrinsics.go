package main

import (
	"crypto/sha256"
	"bytes"
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, fn *ssa.Function, args []value) value

// natives are pure library functions evaluated on concrete arguments, lifted over string cases.
var natives = map[string]any{
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Index": strings.Index, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.IndexByte": strings.IndexByte,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.Repeat": strings.Repeat,
	"strings.Compare": strings.Compare, "strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex, "strings.Title": strings.Title,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.Cut": strings.Cut,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.FormatInt": strconv.FormatInt, "strconv.Quote": strconv.Quote,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.FormatBool": strconv.FormatBool, "strconv.FormatUint": strconv.FormatUint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode.IsSpace": unicode.IsSpace, "unicode.ToLower": unicode.ToLower,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsPunct": unicode.IsPunct, "unicode.IsUpper": unicode.IsUpper,
	"net/url.QueryEscape": url.QueryEscape, "net/url.PathEscape": url.PathEscape, "math.Floor": math.Floor, "math.Ceil": math.Ceil,
	"encoding/hex.EncodeToString": hex.EncodeToString,
}

func nativeIntrinsic(key string, f any) intrinsic {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(fr *frame, fn *ssa.Function, args []value) value {
		m := fr.m
		// gather string arguments (including []string elements) for lifting
		var strs []*Str
		type slot struct {
			kind byte // 's' string, 'l' list, 'c' concrete
			n    int
			v    reflect.Value
		}
		var slots []slot
		for i, a := range args {
			pt := rt.In(i)
			switch pt.Kind() {
			case reflect.String:
				strs = append(strs, a.(*Str))
				slots = append(slots, slot{kind: 's', n: 1})
			case reflect.Slice:
				if pt.Elem().Kind() == reflect.Uint8 {
					slots = append(slots, slot{kind: 'c', v: reflect.ValueOf([]byte(m.concretizeStr(m.bytesToStr(a))))})
					continue
				}
				l := a.(sliceV)
				for _, e := range l {
					strs = append(strs, e.(*Str))
				}
				slots = append(slots, slot{kind: 'l', n: len(l)})
			case reflect.Bool:
				slots = append(slots, slot{kind: 'c', v: reflect.ValueOf(m.branch(a.(*Expr)))})
			case reflect.Float64:
				fl := a.(flt)
				if fl.i != nil {
					panic(m.unsupported("native " + key + " on symbolic float"))
				}
				slots = append(slots, slot{kind: 'c', v: reflect.ValueOf(fl.v)})
			default:
				e := a.(*Expr)
				c := m.concretize(e)
				nv := reflect.New(pt).Elem()
				switch pt.Kind() {
				case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
					nv.SetInt(sext(c, e.w))
				default:
					nv.SetUint(c)
				}
				slots = append(slots, slot{kind: 'c', v: nv})
			}
		}
		return m.liftStr(strs, func(ss []string) (value, bool) {
			var in []reflect.Value
			k := 0
			for _, s := range slots {
				switch s.kind {
				case 's':
					in = append(in, reflect.ValueOf(ss[k]))
					k++
				case 'l':
					in = append(in, reflect.ValueOf(append([]string{}, ss[k:k+s.n]...)))
					k += s.n
				default:
					in = append(in, s.v)
				}
			}
			out := rv.Call(in)
			var vs []value
			for _, o := range out {
				vs = append(vs, m.fromNative(o))
			}
			if len(vs) == 1 {
				return vs[0], true
			}
			return tuple(vs), true
		})
	}
}

func (m *machine) fromNative(o reflect.Value) value {
	switch o.Kind() {
	case reflect.String:
		return mkStr(o.String())
	case reflect.Bool:
		return m.x.Bool(o.Bool())
	case reflect.Int, reflect.Int64:
		return m.x.Int(o.Int())
	case reflect.Int32:
		return m.x.Const(32, uint64(o.Int()))
	case reflect.Uint64, reflect.Uint:
		return m.x.Const(64, o.Uint())
	case reflect.Float64:
		return flt{v: o.Float()}
	case reflect.Slice:
		s := sliceV{}
		for i := 0; i < o.Len(); i++ {
			s = append(s, m.fromNative(o.Index(i)))
		}
		return s
	case reflect.Interface:
		if o.IsNil() {
			return iface{}
		}
		return m.mkError(fmt.Sprint(o.Interface()))
	}
	panic(m.unsupported("fromNative " + o.Kind().String()))
}

// mkError builds an error value of type *errors.errorString.
func (m *machine) mkError(msg string) value { return m.mkErrorStr(mkStr(msg)) }

func (m *machine) mkErrorStr(msg *Str) value {
	t := m.prog.typeNamed("errors", "errorString")
	var st value = structure{msg}
	return iface{t: types.NewPointer(t), v: &st}
}

func pkgVar(m *machine, pkg, name string) value {
	q := m.prog.byPath[pkg]
	if q == nil || q.Var(name) == nil {
		return iface{}
	}
	return *m.global(q.Var(name))
}

// format implements fmt verbs over symbolic arguments by case-lifting.
func (m *machine) format(fr *frame, f string, args sliceV) *Str {
	out := mkStr("")
	ai := 0
	nextArg := func() (value, types.Type) {
		if ai >= len(args) {
			return mkStr("%!(MISSING)"), types.Typ[types.String]
		}
		x := args[ai].(iface)
		ai++
		return x.v, x.t
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = m.strConcat(out, mkStr(f[i:i+j]))
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j
		if verb == '%' {
			out = m.strConcat(out, mkStr("%"))
			continue
		}
		v, t := nextArg()
		if verb == 'T' {
			out = m.strConcat(out, mkStr(fmt.Sprint(t)))
			continue
		}
		out = m.strConcat(out, m.fmtVal(fr, spec, v, t, 0))
	}
	return out
}

func (m *machine) fmtVal(fr *frame, spec string, v value, t types.Type, depth int) *Str {
	verb := spec[len(spec)-1]
	if t == nil {
		return mkStr("<nil>")
	}
	if depth > 4 {
		return mkStr("...")
	}
	if verb == 'v' || verb == 's' || verb == 'w' {
		if mr := m.methodOn(t, "Error"); mr != nil {
			if p, ok := v.(*value); !ok || p != nil {
				if f := m.prog.lookupMethod(t, mr.fn); f != nil {
					return m.call(fr, f, []value{copyVal(v)}).(*Str)
				}
			}
		}
		if mr := m.methodOn(t, "String"); mr != nil && mr.fn.Type().(*types.Signature).Params().Len() == 0 {
			if p, ok := v.(*value); !ok || p != nil {
				if f := m.prog.lookupMethod(t, mr.fn); f != nil {
					if s, ok := m.call(fr, f, []value{copyVal(v)}).(*Str); ok {
						return s
					}
				}
			}
		}
	}
	if verb == 'w' {
		spec = spec[:len(spec)-1] + "v"
	}
	switch x := v.(type) {
	case *Str:
		if spec == "%s" || spec == "%v" {
			return x
		}
		return m.liftStr([]*Str{x}, func(s []string) (value, bool) { return mkStr(fmt.Sprintf(spec, s[0])), true }).(*Str)
	case bytesV:
		return m.fmtVal(fr, spec, x.s, types.Typ[types.String], depth)
	case *Expr:
		if x.w == 0 {
			return mkStr(fmt.Sprintf(spec, m.branch(x)))
		}
		c := m.concretize(x)
		if isSigned(t) {
			return mkStr(fmt.Sprintf(spec, sext(c, x.w)))
		}
		return mkStr(fmt.Sprintf(spec, c))
	case flt:
		if x.i != nil {
			return mkStr(fmt.Sprintf(spec, float64(int64(m.concretize(x.i)))))
		}
		return mkStr(fmt.Sprintf(spec, x.v))
	case iface:
		return m.fmtVal(fr, spec, x.v, x.t, depth)
	case *value:
		if x == nil {
			return mkStr("<nil>")
		}
		return m.strConcat(mkStr("&"), m.fmtVal(fr, spec, *x, t.Underlying().(*types.Pointer).Elem(), depth+1))
	case sliceV:
		r := mkStr("[")
		et := t.Underlying().(*types.Slice).Elem()
		for i, e := range x {
			if i > 0 {
				r = m.strConcat(r, mkStr(" "))
			}
			r = m.strConcat(r, m.fmtVal(fr, spec, e, et, depth+1))
		}
		return m.strConcat(r, mkStr("]"))
	case array:
		r := mkStr("[")
		et := t.Underlying().(*types.Array).Elem()
		for i, e := range x {
			if i > 0 {
				r = m.strConcat(r, mkStr(" "))
			}
			r = m.strConcat(r, m.fmtVal(fr, spec, e, et, depth+1))
		}
		return m.strConcat(r, mkStr("]"))
	}
	return mkStr(fmt.Sprintf("<%T>", v))
}

var intrinsics map[string]intrinsic
var harnessIntrinsics map[string]intrinsic

func retNil(fr *frame, fn *ssa.Function, args []value) value { return fr.m.noopResult(fn.Signature) }

func anyArgs(v value) sliceV {
	s, _ := v.(sliceV)
	return s
}

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics
	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.lock(fr, a[0]); return nil }
	I["(*sync.Mutex).Unlock"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.unlock(fr, a[0]); return nil }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.rlock(fr, a[0]); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.runlock(fr, a[0]); return nil }
	I["(*sync.Mutex).TryLock"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l := fr.m.lockOf(a[0])
		if l.writer == nil && l.readers == 0 {
			l.writer = fr.m.cur
			return fr.m.x.T
		}
		return fr.m.x.F
	}
	type wgState struct{ n int64 }
	wg := func(m *machine, p value) *wgState {
		k := [2]any{"wg", p}
		s, _ := m.side[k].(*wgState)
		if s == nil {
			s = &wgState{}
			m.side[k] = s
		}
		return s
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := wg(fr.m, a[0])
		s.n += int64(fr.m.concretize(a[1].(*Expr)))
		if s.n < 0 {
			fr.m.rtPanic(fr, "negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := wg(fr.m, a[0])
		s.n--
		if s.n < 0 {
			fr.m.rtPanic(fr, "negative WaitGroup counter")
		}
		fr.m.yield(fr)
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, fn *ssa.Function, a []value) value {
		s := wg(fr.m, a[0])
		fr.m.block(fr, func() bool { return s.n == 0 }, "WaitGroup.Wait")
		return nil
	}
	I["(*sync.Once).Do"] = func(fr *frame, fn *ssa.Function, a []value) value {
		k := [2]any{"once", a[0]}
		if fr.m.side[k] == nil {
			fr.m.side[k] = true
			fr.m.call(fr, a[1], nil)
		}
		return nil
	}
	smap := func(m *machine, p value) *mapV {
		k := [2]any{"syncmap", p}
		s, _ := m.side[k].(*mapV)
		if s == nil {
			s = newMap(anyT)
			m.side[k] = s
		}
		return s
	}
	I["(*sync.Map).Store"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.yield(fr)
		fr.m.mapSet(smap(fr.m, a[0]), a[1], a[2])
		return nil
	}
	I["(*sync.Map).Load"] = func(fr *frame, fn *ssa.Function, a []value) value {
		e := fr.m.mapFind(smap(fr.m, a[0]), a[1])
		if e == nil {
			return tuple{iface{}, fr.m.x.F}
		}
		return tuple{e.v, fr.m.x.T}
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.yield(fr)
		mp := smap(fr.m, a[0])
		e := fr.m.mapFind(mp, a[1])
		if e == nil {
			fr.m.mapSet(mp, a[1], a[2])
			return tuple{a[2], fr.m.x.F}
		}
		return tuple{e.v, fr.m.x.T}
	}
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.yield(fr)
		mp := smap(fr.m, a[0])
		e := fr.m.mapFind(mp, a[1])
		if e == nil {
			return tuple{iface{}, fr.m.x.F}
		}
		fr.m.mapRemove(mp, e)
		return tuple{e.v, fr.m.x.T}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.yield(fr)
		fr.m.mapDelete(smap(fr.m, a[0]), a[1])
		return nil
	}
	I["(*sync.Map).Range"] = func(fr *frame, fn *ssa.Function, a []value) value {
		for _, e := range fr.m.mapOrder(smap(fr.m, a[0])) {
			if e.dead {
				continue
			}
			if !fr.m.branch(fr.m.call(fr, a[1], []value{e.k, e.v}).(*Expr)) {
				break
			}
		}
		return nil
	}
	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		_ = w
		I["sync/atomic.Add"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			*p = fr.m.x.Bin(OAdd, (*p).(*Expr), a[1].(*Expr))
			return *p
		}
		I["sync/atomic.Load"+ty] = func(fr *frame, fn *ssa.Function, a []value) value { return *a[0].(*value) }
		I["sync/atomic.Store"+ty] = func(fr *frame, fn *ssa.Function, a []value) value { *a[0].(*value) = a[1]; return nil }
		I["sync/atomic.CompareAndSwap"+ty] = func(fr *frame, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			if fr.m.branch(fr.m.equals(*p, a[1])) {
				*p = a[2]
				return fr.m.x.T
			}
			return fr.m.x.F
		}
		// typed atomics: the value is the last field
		last := func(p value) *value { st := (*p.(*value)).(structure); return &st[len(st)-1] }
		I["(*sync/atomic."+ty+").Add"] = func(fr *frame, fn *ssa.Function, a []value) value {
			p := last(a[0])
			*p = fr.m.x.Bin(OAdd, (*p).(*Expr), a[1].(*Expr))
			return *p
		}
		I["(*sync/atomic."+ty+").Load"] = func(fr *frame, fn *ssa.Function, a []value) value { return *last(a[0]) }
		I["(*sync/atomic."+ty+").Store"] = func(fr *frame, fn *ssa.Function, a []value) value { *last(a[0]) = a[1]; return nil }
	}
	I["(*sync/atomic.Bool).Load"] = func(fr *frame, fn *ssa.Function, a []value) value {
		st := (*a[0].(*value)).(structure)
		return fr.m.x.Not(fr.m.x.Eq(st[len(st)-1].(*Expr), fr.m.x.Const(32, 0)))
	}
	I["(*sync/atomic.Bool).Store"] = func(fr *frame, fn *ssa.Function, a []value) value {
		st := (*a[0].(*value)).(structure)
		st[len(st)-1] = fr.m.x.Ite(a[1].(*Expr), fr.m.x.Const(32, 1), fr.m.x.Const(32, 0))
		return nil
	}
	// ---- fmt / errors ----
	I["fmt.Sprintf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.m.format(fr, fr.m.concretizeStr(a[0].(*Str)), anyArgs(a[1]))
	}
	I["fmt.Sprint"] = func(fr *frame, fn *ssa.Function, a []value) value {
		r := mkStr("")
		for _, x := range anyArgs(a[0]) {
			r = fr.m.strConcat(r, fr.m.fmtVal(fr, "%v", x, anyT, 0))
		}
		return r
	}
	I["fmt.Errorf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		f := m.concretizeStr(a[0].(*Str))
		args := anyArgs(a[1])
		// error texts are not part of any modelled observable: keep the format only
		if i := strings.Index(f, "%w"); i >= 0 {
			n := 0
			for j := 0; j < i; j++ {
				if f[j] == '%' {
					if f[j+1] == '%' {
						j++
					} else {
						n++
					}
				}
			}
			if n < len(args) {
				t := m.prog.typeNamed("fmt", "wrapError")
				w, ok := args[n].(iface)
				if ok && w.t != nil {
					var st value = structure{mkStr(f), w}
					return iface{t: types.NewPointer(t), v: &st}
				}
			}
		}
		return m.mkError(f)
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		I[n] = retNil
	}
	I["errors.Is"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		e := a[0].(iface)
		tgt := a[1].(iface)
		for d := 0; d < 20 && e.t != nil; d++ {
			if m.branch(m.equals(e, tgt)) {
				return m.x.T
			}
			mr := m.methodOn(e.t, "Unwrap")
			if mr == nil {
				return m.x.F
			}
			r, ok := m.call(fr, m.prog.lookupMethod(e.t, mr.fn), []value{e.v}).(iface)
			if !ok {
				return m.x.F
			}
			e = r
		}
		return m.x.Bool(e.t == nil && tgt.t == nil)
	}
	I["errors.As"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		e := a[0].(iface)
		tgt := a[1].(iface)
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		for d := 0; d < 20 && e.t != nil; d++ {
			ok := false
			if it, isI := pt.Underlying().(*types.Interface); isI {
				if types.Implements(e.t, it) {
					*tgt.v.(*value) = e
					ok = true
				}
			} else if types.Identical(e.t, pt) {
				*tgt.v.(*value) = e.v
				ok = true
			}
			if ok {
				return m.x.T
			}
			mr := m.methodOn(e.t, "Unwrap")
			if mr == nil {
				return m.x.F
			}
			r, isI := m.call(fr, m.prog.lookupMethod(e.t, mr.fn), []value{e.v}).(iface)
			if !isI {
				return m.x.F
			}
			e = r
		}
		return m.x.F
	}
	I["reflect.ValueOf"] = func(fr *frame, fn *ssa.Function, a []value) value {
		z := fr.m.zero(fn.Signature.Results().At(0).Type()).(structure)
		z[1] = a[0].(iface)
		return z
	}
	I["(reflect.Value).Kind"] = func(fr *frame, fn *ssa.Function, a []value) value {
		i, _ := a[0].(structure)[1].(iface)
		return fr.m.x.Const(64, uint64(kindOf(i.t)))
	}
	I["(reflect.Value).IsValid"] = func(fr *frame, fn *ssa.Function, a []value) value {
		i, _ := a[0].(structure)[1].(iface)
		return fr.m.x.Bool(i.t != nil)
	}
	I["(reflect.Value).IsNil"] = func(fr *frame, fn *ssa.Function, a []value) value {
		i, _ := a[0].(structure)[1].(iface)
		if i.t == nil {
			fr.m.rtPanic(fr, "reflect: call of reflect.Value.IsNil on zero Value")
		}
		switch v := i.v.(type) {
		case nil:
			return fr.m.x.T
		case *value:
			return fr.m.x.Bool(v == nil)
		case sliceV:
			return fr.m.x.Bool(v == nil)
		case *mapV:
			return fr.m.x.Bool(v == nil)
		case iface:
			return fr.m.x.Bool(v.t == nil)
		}
		panic(fr.m.unsupported(fmt.Sprintf("reflect IsNil of %T", i.v)))
	}
	I["reflect.DeepEqual"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.deepEq(a[0], a[1]) }
	I["bytes.Equal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.m.strEq(fr.m.bytesToStr(a[0]), fr.m.bytesToStr(a[1]))
	}
	I["bytes.NewBuffer"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		var st value = m.zero(m.prog.typeNamed("bytes", "Buffer"))
		m.side[[2]any{"buf", &st}] = m.bytesToStr(a[0])
		return &st
	}
	// ---- sort ----
	lessSort := func(fr *frame, s sliceV, less func(i, j int) bool) {
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				a, b := copyVal(s[j]), copyVal(s[j-1])
				s[j], s[j-1] = b, a
			}
		}
	}
	ss := func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		s := a[0].(iface).v.(sliceV)
		lessSort(fr, s, func(i, j int) bool {
			return m.branch(m.call(fr, a[1], []value{m.x.Int(int64(i)), m.x.Int(int64(j))}).(*Expr))
		})
		return nil
	}
	I["sort.Slice"] = ss
	I["sort.SliceStable"] = ss
	prim := func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		s := a[0].(sliceV)
		lessSort(fr, s, func(i, j int) bool {
			switch x := s[i].(type) {
			case *Str:
				return m.branch(m.liftStr([]*Str{x, s[j].(*Str)}, func(p []string) (value, bool) { return m.x.Bool(p[0] < p[1]), true }).(*Expr))
			case *Expr:
				return m.branch(m.x.Bin(OSlt, x, s[j].(*Expr)))
			}
			panic(m.unsupported("sort elem"))
		})
		return nil
	}
	I["sort.Strings"], I["sort.Ints"], I["slices.Sort"], I["golang.org/x/exp/slices.Sort"] = prim, prim, prim, prim
	sf := func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		s := a[0].(sliceV)
		lessSort(fr, s, func(i, j int) bool {
			r := m.call(fr, a[1], []value{copyVal(s[i]), copyVal(s[j])}).(*Expr)
			if r.w == 0 {
				return m.branch(r)
			}
			return m.branch(m.x.Bin(OSlt, r, m.x.Const(r.w, 0)))
		})
		return nil
	}
	I["slices.SortFunc"], I["slices.SortStableFunc"], I["golang.org/x/exp/slices.SortFunc"], I["golang.org/x/exp/slices.SortStableFunc"] = sf, sf, sf, sf
	// ---- hashes (of concrete strings; a symbolic string is split into its values) ----
	type shaState struct{ b []byte }
	sha := func(m *machine, p value) *shaState {
		t, _ := m.side["sha"].(map[value]*shaState)
		if t == nil {
			t = map[value]*shaState{}
			m.side["sha"] = t
		}
		if t[p] == nil {
			t[p] = &shaState{}
		}
		return t[p]
	}
	I["(*crypto/sha256.digest).Write"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		st := sha(m, a[0])
		s := m.concretizeStr(m.bytesToStr(a[1]))
		st.b = append(st.b, s...)
		return tuple{m.x.Int(int64(len(s))), iface{}}
	}
	I["(*crypto/sha256.digest).Reset"] = func(fr *frame, fn *ssa.Function, a []value) value {
		sha(fr.m, a[0]).b = nil
		return nil
	}
	I["(*crypto/sha256.digest).Sum"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		h := sha256.Sum256(sha(m, a[0]).b)
		in := ""
		if a[1] != nil {
			in = m.concretizeStr(m.bytesToStr(a[1]))
		}
		return bytesV{s: mkStr(in + string(h[:]))}
	}
	// ---- time ----
	// time does not pass: Now is always the same instant, far from the zero Time. With vClock, arithmetic on
	// times is exact (in nanoseconds); without, it is not modelled.
	const now = 1 << 60
	clock := func(m *machine) bool { return m.side["clock"] != nil }
	ext := func(v value) *Expr { return v.(structure)[1].(*Expr) }
	I["time.Now"] = func(fr *frame, fn *ssa.Function, a []value) value {
		t := fr.m.zero(fr.m.prog.typeNamed("time", "Time")).(structure)
		t[1] = fr.m.x.Int(now)
		return t
	}
	sinceZero := func(v value) bool { // a zero Time?
		st, ok := v.(structure)
		if !ok {
			return false
		}
		e, ok := st[1].(*Expr)
		return ok && e.isConst() && e.c == 0
	}
	I["time.Since"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if sinceZero(a[len(a)-1]) {
			return fr.m.x.Int(1<<63 - 1)
		}
		if clock(fr.m) {
			return fr.m.x.Bin(OSub, fr.m.x.Int(now), ext(a[len(a)-1]))
		}
		return fr.m.x.Int(0)
	}
	I["time.Until"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if clock(fr.m) {
			return fr.m.x.Bin(OSub, ext(a[len(a)-1]), fr.m.x.Int(now))
		}
		return fr.m.x.Int(0)
	}
	I["(time.Time).Sub"] = func(fr *frame, fn *ssa.Function, a []value) value {
		z0, z1 := sinceZero(a[0]), sinceZero(a[1])
		if z1 && !z0 {
			return fr.m.x.Int(1<<63 - 1)
		}
		if clock(fr.m) {
			return fr.m.x.Bin(OSub, ext(a[0]), ext(a[1]))
		}
		return fr.m.x.Int(0)
	}
	I["time.Sleep"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.yield(fr); return nil }
	I["(time.Time).Add"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if clock(fr.m) {
			t := copyVal(a[0]).(structure)
			t[1] = fr.m.x.Bin(OAdd, ext(a[0]), a[1].(*Expr))
			return t
		}
		return a[0]
	}
	I["(time.Time).Unix"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.x.Int(1700000000) }
	I["(time.Time).UnixMilli"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if clock(fr.m) && ext(a[0]).isConst() {
			return fr.m.x.Int(1700000000000 + (ext(a[0]).sval()-now)/1000000)
		}
		return fr.m.x.Int(1700000000000)
	}
	I["(time.Time).UnixNano"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.x.Int(1700000000000000000) }
	I["(time.Time).Before"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if clock(fr.m) {
			return fr.m.x.Bin(OSlt, ext(a[0]), ext(a[1]))
		}
		return fr.m.x.F
	}
	I["(time.Time).After"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if clock(fr.m) {
			return fr.m.x.Bin(OSlt, ext(a[1]), ext(a[0]))
		}
		return fr.m.x.F
	}
	timerChan := func(m *machine, d value) *chanV {
		ch := &chanV{cap: 1, timer: true, zero: m.zero(m.prog.typeNamed("time", "Time"))}
		if e, ok := d.(*Expr); ok && e.isConst() {
			ch.dur = e.sval()
		}
		ts, _ := m.side["timers"].([]*chanV)
		m.side["timers"] = append(ts, ch)
		return ch
	}
	I["time.After"] = func(fr *frame, fn *ssa.Function, a []value) value { return timerChan(fr.m, a[0]) }
	I["time.NewTimer"] = func(fr *frame, fn *ssa.Function, a []value) value {
		var st value = fr.m.zero(fr.m.prog.typeNamed("time", "Timer"))
		st.(structure)[0] = timerChan(fr.m, a[0])
		return &st
	}
	I["time.NewTicker"] = func(fr *frame, fn *ssa.Function, a []value) value {
		var st value = fr.m.zero(fr.m.prog.typeNamed("time", "Ticker"))
		ch := timerChan(fr.m, a[0])
		ch.ticks = true
		st.(structure)[0] = ch
		return &st
	}
	I["time.AfterFunc"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		var st value = m.zero(m.prog.typeNamed("time", "Timer"))
		l, _ := m.side["afterfuncs"].([]value)
		m.side["afterfuncs"] = append(l, a[1])
		return &st
	}
	I["(*time.Timer).Stop"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.x.T }
	I["(*time.Ticker).Stop"] = retNil
	I["(*time.Timer).Reset"] = I["(*time.Timer).Stop"]
	// ---- context ----
	I["context.WithValue"] = func(fr *frame, fn *ssa.Function, a []value) value {
		t := fr.m.prog.typeNamed("context", "valueCtx")
		var st value = structure{a[0], a[1], a[2]}
		return iface{t: types.NewPointer(t), v: &st}
	}
	withCancel := func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		parent := a[0]
		done := &chanV{zero: structure{}}
		cancelled := false
		o := &opaque{kind: "ctx"}
		pcall := func(fr *frame, name string, args ...value) value {
			p := parent.(iface)
			if po, ok := p.v.(*opaque); ok {
				return m.call(fr, po.method(m, name), args)
			}
			ct := m.prog.typeNamed("context", "Context").Underlying().(*types.Interface)
			for i := 0; i < ct.NumMethods(); i++ {
				if ct.Method(i).Name() == name {
					return m.call(fr, m.prog.lookupMethod(p.t, ct.Method(i)), append([]value{p.v}, args...))
				}
			}
			panic("ctx method")
		}
		if strings.Contains(fn.Name(), "Timeout") || strings.Contains(fn.Name(), "Deadline") {
			done.timer = true
			ts, _ := m.side["timers"].([]*chanV)
			m.side["timers"] = append(ts, done)
		}
		o.methods = map[string]func(fr *frame, args []value) value{
			"Done": func(fr *frame, args []value) value { return done },
			"Err": func(fr *frame, args []value) value {
				if cancelled {
					return pkgVar(m, "context", "Canceled")
				}
				if done.fired {
					done.closed = true
					return pkgVar(m, "context", "Canceled")
				}
				return pcall(fr, "Err")
			},
			"Value":    func(fr *frame, args []value) value { return pcall(fr, "Value", args...) },
			"Deadline": func(fr *frame, args []value) value { return m.noopResult(ctxDeadlineSig(m)) },
		}
		cancel := &nativeFn{"cancel", func(fr *frame, args []value) value {
			if !cancelled {
				cancelled = true
				done.closed = true
			}
			return nil
		}}
		t := m.prog.typeNamed("context", "cancelCtx")
		return tuple{iface{t: types.NewPointer(t), v: o}, cancel}
	}
	I["context.WithCancel"], I["context.WithTimeout"], I["context.WithDeadline"] = withCancel, withCancel, withCancel
	// ---- repo tracing helpers ----
	spanRet := func(fr *frame, fn *ssa.Function, a []value) value {
		return tuple{a[0], fr.m.noopVal(fn.Signature.Results().At(1).Type())}
	}
	I[repoModule+"/internal.StartSpan"] = spanRet
	I[repoModule+"/internal.StartTask"] = spanRet
	I[repoModule+"/internal.Logf"] = retNil
	I["(*"+repoModule+"/internal.RuntimeTraceOTLPSpan).End"] = retNil
	I[repoModule+"/internal.GetSentryHubFromContextOrDefault"] = retNil
	I[repoModule+"/internal.Assert"] = retNil
	I[repoModule+"/internal.AssertWithContext"] = retNil
	I[repoModule+"/internal.DecorateLogger"] = retNil
	I[repoModule+"/internal.SetRequestContextResponseInfo"] = retNil
	I[repoModule+"/internal.SetConnBufferInfo"] = retNil
	I[repoModule+"/internal.SetAttributeOnContext"] = func(fr *frame, fn *ssa.Function, a []value) value { return a[0] }
	// ---- encoding/json ----
	I["encoding/json.Marshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		x := a[0].(iface)
		if x.t == nil {
			return tuple{bytesV{mkStr("null")}, iface{}}
		}
		d, err := m.marshal(fr, x.v, x.t)
		if err != nil {
			return tuple{sliceV(nil), err}
		}
		return tuple{bytesV{m.canonStr(d)}, iface{}}
	}
	I["encoding/json.Unmarshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		x := a[1].(iface)
		d, ok := m.docOf(m.bytesToStr(a[0]))
		if !ok {
			return m.mkError("invalid JSON")
		}
		p := x.v.(*value)
		if err := m.unmarshal(fr, d, p, x.t.Underlying().(*types.Pointer).Elem()); err != nil {
			return err
		}
		return iface{}
	}
	I["encoding/json.Valid"] = func(fr *frame, fn *ssa.Function, a []value) value {
		_, ok := fr.m.docOf(fr.m.bytesToStr(a[0]))
		return fr.m.x.Bool(ok)
	}
	// ---- cbor ----
	I["github.com/fxamacker/cbor/v2.Marshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x := a[0].(iface)
		return tuple{bytesV{&Str{blob: &blob{x.t, deepCopy(x.v, map[any]value{})}}}, iface{}}
	}
	I["github.com/fxamacker/cbor/v2.Unmarshal"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		s := m.bytesToStr(a[0])
		if s.blob == nil {
			return m.mkError("cbor: invalid data")
		}
		x := a[1].(iface)
		p := x.v.(*value)
		pt := x.t.Underlying().(*types.Pointer).Elem()
		v := deepCopy(s.blob.v, map[any]value{})
		st := s.blob.t
		if sp, ok := st.Underlying().(*types.Pointer); ok {
			v = *(v.(*value))
			st = sp.Elem()
		}
		if pp, ok := pt.Underlying().(*types.Pointer); ok {
			nv := v
			*p = &nv
			pt = pp.Elem()
		} else {
			storeTo(p, v)
		}
		if !types.Identical(pt, st) {
			panic(m.unsupported(fmt.Sprintf("cbor type mismatch %v %v", pt, st)))
		}
		return iface{}
	}
	// ---- gjson ----
	g := "github.com/tidwall/gjson."
	parse := func(fr *frame, s *Str) value {
		d, ok := fr.m.docOf(s)
		if !ok {
			d = nil
		}
		return fr.m.gjsonResult(d)
	}
	I[g+"Parse"] = func(fr *frame, fn *ssa.Function, a []value) value { return parse(fr, a[0].(*Str)) }
	I[g+"ParseBytes"] = func(fr *frame, fn *ssa.Function, a []value) value { return parse(fr, fr.m.bytesToStr(a[0])) }
	I[g+"ValidBytes"] = func(fr *frame, fn *ssa.Function, a []value) value {
		_, ok := fr.m.docOf(fr.m.bytesToStr(a[0]))
		return fr.m.x.Bool(ok)
	}
	I[g+"Valid"] = func(fr *frame, fn *ssa.Function, a []value) value {
		_, ok := fr.m.docOf(a[0].(*Str))
		return fr.m.x.Bool(ok)
	}
	gget := func(fr *frame, s *Str, path *Str) value {
		d, ok := fr.m.docOf(s)
		if !ok {
			return fr.m.gjsonResult(nil)
		}
		return fr.m.gjsonResult(fr.m.docGet(d, fr.m.concretizeStr(path)))
	}
	I[g+"GetBytes"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return gget(fr, fr.m.bytesToStr(a[0]), a[1].(*Str))
	}
	I[g+"Get"] = func(fr *frame, fn *ssa.Function, a []value) value { return gget(fr, a[0].(*Str), a[1].(*Str)) }
	r := "(github.com/tidwall/gjson.Result)."
	I[r+"Get"] = func(fr *frame, fn *ssa.Function, a []value) value {
		d := fr.m.resultDoc(a[0])
		if d == nil {
			return fr.m.gjsonResult(nil)
		}
		return fr.m.gjsonResult(fr.m.docGet(d, fr.m.concretizeStr(a[1].(*Str))))
	}
	I[r+"Exists"] = func(fr *frame, fn *ssa.Function, a []value) value {
		st := a[0].(structure)
		raw := st[1].(*Str)
		return fr.m.x.Bool(st[0].(*Expr).c != 0 || raw.doc != nil || raw.c != "")
	}
	I[r+"String"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.docString(fr.m.resultDoc(a[0])) }
	I[r+"Int"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.docInt(fr.m.resultDoc(a[0])) }
	I[r+"Uint"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		e := m.docInt(m.resultDoc(a[0]))
		return m.x.Ite(m.x.Bin(OSlt, e, m.x.Int(0)), m.x.Int(0), e)
	}
	I[r+"Bool"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		d := m.resultDoc(a[0])
		if d == nil {
			return m.x.F
		}
		switch d.kind {
		case dBool:
			return d.b
		case dNum:
			return m.x.Not(m.x.Eq(m.docInt(d), m.x.Int(0)))
		case dStr:
			return m.liftStr([]*Str{d.s}, func(s []string) (value, bool) {
				b, _ := strconv.ParseBool(strings.ToLower(s[0]))
				return m.x.Bool(b), true
			})
		}
		return m.x.F
	}
	I[r+"IsArray"] = func(fr *frame, fn *ssa.Function, a []value) value {
		d := fr.m.resultDoc(a[0])
		return fr.m.x.Bool(d != nil && d.kind == dArr)
	}
	I[r+"IsObject"] = func(fr *frame, fn *ssa.Function, a []value) value {
		d := fr.m.resultDoc(a[0])
		return fr.m.x.Bool(d != nil && d.kind == dObj)
	}
	I[r+"IsBool"] = func(fr *frame, fn *ssa.Function, a []value) value {
		d := fr.m.resultDoc(a[0])
		return fr.m.x.Bool(d != nil && d.kind == dBool)
	}
	I[r+"Array"] = func(fr *frame, fn *ssa.Function, a []value) value {
		d := fr.m.resultDoc(a[0])
		out := sliceV{}
		if d == nil || d.kind == dNull {
			return out
		}
		if d.kind != dArr {
			return append(out, a[0])
		}
		for _, e := range d.elems {
			out = append(out, fr.m.gjsonResult(e))
		}
		return out
	}
	I[r+"Map"] = func(fr *frame, fn *ssa.Function, a []value) value {
		mp := newMap(types.Typ[types.String])
		d := fr.m.resultDoc(a[0])
		if d != nil && d.kind == dObj {
			for _, f := range fr.m.resolved(d) {
				fr.m.mapSet(mp, f.k, fr.m.gjsonResult(f.v))
			}
		}
		return mp
	}
	I[r+"ForEach"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		d := m.resultDoc(a[0])
		if d == nil {
			return nil
		}
		switch d.kind {
		case dObj:
			for _, f := range m.resolved(d) {
				if !m.branch(m.call(fr, a[1], []value{m.gjsonResult(&Doc{kind: dStr, s: f.k}), m.gjsonResult(f.v)}).(*Expr)) {
					return nil
				}
			}
		case dArr:
			for i, e := range d.elems {
				if !m.branch(m.call(fr, a[1], []value{m.gjsonResult(&Doc{kind: dNum, n: m.x.Int(int64(i))}), m.gjsonResult(e)}).(*Expr)) {
					return nil
				}
			}
		default:
			m.call(fr, a[1], []value{m.gjsonResult(nil), a[0]})
		}
		return nil
	}
	// ---- sjson ----
	sj := "github.com/tidwall/sjson."
	set := func(fr *frame, s *Str, path *Str, v iface, raw bool) (*Str, value) {
		m := fr.m
		d, ok := m.docOf(s)
		if !ok {
			if s.concrete() && s.c == "" {
				d = nil
			} else {
				return nil, m.mkError("sjson: invalid json")
			}
		}
		var vd *Doc
		if raw {
			x, ok := m.docOf(v.v.(*Str))
			if !ok {
				return nil, m.mkError("sjson: invalid raw")
			}
			vd = x
		} else if v.t == nil {
			vd = &Doc{kind: dNull}
		} else {
			x, err := m.marshal(fr, v.v, v.t)
			if err != nil {
				return nil, err
			}
			vd = x
		}
		return m.canonStr(m.docSet(d, m.splitPath(m.concretizeStr(path)), vd)), nil
	}
	I[sj+"SetBytes"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x, err := set(fr, fr.m.bytesToStr(a[0]), a[1].(*Str), a[2].(iface), false)
		if err != nil {
			return tuple{sliceV(nil), err}
		}
		return tuple{bytesV{x}, iface{}}
	}
	I[sj+"Set"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x, err := set(fr, a[0].(*Str), a[1].(*Str), a[2].(iface), false)
		if err != nil {
			return tuple{fr.m.emptyStr, err}
		}
		return tuple{x, iface{}}
	}
	I[sj+"SetRawBytes"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x, err := set(fr, fr.m.bytesToStr(a[0]), a[1].(*Str), iface{v: fr.m.bytesToStr(a[2])}, true)
		if err != nil {
			return tuple{sliceV(nil), err}
		}
		return tuple{bytesV{x}, iface{}}
	}
	I[sj+"SetRaw"] = func(fr *frame, fn *ssa.Function, a []value) value {
		x, err := set(fr, a[0].(*Str), a[1].(*Str), iface{v: a[2].(*Str)}, true)
		if err != nil {
			return tuple{fr.m.emptyStr, err}
		}
		return tuple{x, iface{}}
	}
	I[sj+"DeleteBytes"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		d, ok := m.docOf(m.bytesToStr(a[0]))
		if !ok {
			return tuple{a[0], iface{}}
		}
		return tuple{bytesV{m.canonStr(m.docDelete(d, m.splitPath(m.concretizeStr(a[1].(*Str)))))}, iface{}}
	}
	// ---- ttlcache (no expiry within the bound) ----
	tc := "(*github.com/ReneKroon/ttlcache/v2.Cache)."
	cache := func(m *machine, p value) *mapV {
		k := [2]any{"ttl", p}
		s, _ := m.side[k].(*mapV)
		if s == nil {
			s = newMap(types.Typ[types.String])
			m.side[k] = s
		}
		return s
	}
	I["github.com/ReneKroon/ttlcache/v2.NewCache"] = func(fr *frame, fn *ssa.Function, a []value) value {
		var st value = fr.m.zero(fr.m.prog.typeNamed("github.com/ReneKroon/ttlcache/v2", "Cache"))
		return &st
	}
	I[tc+"SetTTL"] = retNil
	I[tc+"SkipTTLExtensionOnHit"] = retNil
	I[tc+"SetExpirationReasonCallback"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.side[[2]any{"ttlcb", a[0]}] = a[1]
		return nil
	}
	I[tc+"SetExpirationCallback"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.side[[2]any{"ttlcb1", a[0]}] = a[1]
		return nil
	}
	I[tc+"Get"] = func(fr *frame, fn *ssa.Function, a []value) value {
		e := fr.m.mapFind(cache(fr.m, a[0]), a[1])
		if e == nil {
			return tuple{iface{}, pkgVar(fr.m, "github.com/ReneKroon/ttlcache/v2", "ErrNotFound")}
		}
		return tuple{e.v, iface{}}
	}
	I[tc+"Set"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.mapSet(cache(fr.m, a[0]), a[1], a[2])
		return iface{}
	}
	I[tc+"Remove"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		c := cache(m, a[0])
		e := m.mapFind(c, a[1])
		if e == nil {
			return pkgVar(m, "github.com/ReneKroon/ttlcache/v2", "ErrNotFound")
		}
		m.mapRemove(c, e)
		// callbacks run in goroutines of their own
		if cb, ok := m.side[[2]any{"ttlcb", a[0]}]; ok {
			m.spawn(fr, cb, []value{e.k, m.x.Int(0), e.v})
		}
		if cb, ok := m.side[[2]any{"ttlcb1", a[0]}]; ok {
			m.spawn(fr, cb, []value{e.k, e.v})
		}
		return iface{}
	}
	I[tc+"GetKeys"] = func(fr *frame, fn *ssa.Function, a []value) value {
		out := sliceV{}
		for _, e := range fr.m.mapOrder(cache(fr.m, a[0])) {
			out = append(out, e.k)
		}
		return out
	}
	I[tc+"Count"] = func(fr *frame, fn *ssa.Function, a []value) value {
		return fr.m.x.Int(int64(cache(fr.m, a[0]).n))
	}
	I[tc+"Close"] = retNil

	// ---- harness primitives ----
	harnessIntrinsics = map[string]intrinsic{}
	H := harnessIntrinsics
	H["vInt"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		name := m.concretizeStr(a[0].(*Str))
		e := m.freshInt(name, int64(m.concretize(a[1].(*Expr))), int64(m.concretize(a[2].(*Expr))))
		m.inputs = append(m.inputs, inputRec{name: name, kind: "int", e: e})
		return e
	}
	H["vBool"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		name := m.concretizeStr(a[0].(*Str))
		v := m.freshVar(name, 1)
		e := m.x.Eq(v, m.x.Const(1, 1))
		m.inputs = append(m.inputs, inputRec{name: name, kind: "bool", e: e})
		return e
	}
	H["vStr"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		name := m.concretizeStr(a[0].(*Str))
		pool := a[1].(sliceV)
		var ps []string
		for _, p := range pool {
			ps = append(ps, m.concretizeStr(p.(*Str)))
		}
		v := m.freshVar(name, uint64(len(ps)-1))
		var cs []strCase
		for i, p := range ps {
			cs = append(cs, strCase{m.x.Eq(v, m.x.Const(v.w, uint64(i))), p})
		}
		s := m.normCases(cs)
		m.inputs = append(m.inputs, inputRec{name: name, kind: "str", s: s})
		return s
	}
	H["vChoose"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		name := m.concretizeStr(a[0].(*Str))
		n := int64(m.concretize(a[1].(*Expr)))
		e := m.freshInt(name, 0, n-1)
		c := int64(m.concretize(e))
		m.inputs = append(m.inputs, inputRec{name: name, kind: "int", e: m.x.Int(c)})
		return m.x.Int(c)
	}
	H["vAssume"] = func(fr *frame, fn *ssa.Function, a []value) value { fr.m.assume(a[0].(*Expr)); return nil }
	H["vAssert"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.assert(a[0].(*Expr), fr.m.concretizeStr(a[1].(*Str)))
		return nil
	}
	H["vCover"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.covered = append(fr.m.covered, fr.m.concretizeStr(a[0].(*Str)))
		return nil
	}
	H["vTier"] = func(fr *frame, fn *ssa.Function, a []value) value { return fr.m.x.Int(int64(fr.m.cfg.Tier)) }
	H["vConcrete"] = func(fr *frame, fn *ssa.Function, a []value) value {
		e := a[0].(*Expr)
		return fr.m.x.Const(e.w, fr.m.concretize(e))
	}
	H["vConcreteStr"] = func(fr *frame, fn *ssa.Function, a []value) value { return mkStr(fr.m.concretizeStr(a[0].(*Str))) }
	H["vDebug"] = func(fr *frame, fn *ssa.Function, a []value) value {
		if fr.m.cfg.Trace {
			for _, x := range anyArgs(a[0]) {
				fmt.Print(fr.m.describe(x), " ")
			}
			fmt.Println()
		}
		return nil
	}
	H["vClock"] = func(fr *frame, fn *ssa.Function, a []value) value {
		fr.m.side["clock"] = true
		return nil
	}
	H["vFireTimers"] = func(fr *frame, fn *ssa.Function, a []value) value {
		l, _ := fr.m.side["afterfuncs"].([]value)
		fr.m.side["afterfuncs"] = []value(nil)
		for _, f := range l {
			fr.m.call(fr, f, nil)
		}
		// timers which nothing but time would fire
		ts, _ := fr.m.side["timers"].([]*chanV)
		for _, t := range ts {
			if (!t.fired || t.ticks) && t.nrecv > 0 && t.dur >= 30*60*1000000000 && len(t.buf) == 0 {
				t.fired = true
				t.buf = append(t.buf, t.zero)
			}
		}
		return nil
	}
	H["vSettle"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		self := m.cur
		m.block(fr, func() bool {
			for _, g := range m.gs {
				if g != self && !g.done && (g.wait == nil || g.wait()) {
					return false
				}
			}
			return true
		}, "settle")
		return nil
	}
	H["vObj"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		d := &Doc{kind: dObj}
		for _, f := range anyArgs(a[0]) {
			st := f.(structure)
			on := st[2].(*Expr)
			if on.isFalse() {
				continue
			}
			df := docField{k: st[0].(*Str), v: m.anyDoc(fr, st[1].(iface))}
			if !on.isTrue() {
				df.p = on
			}
			d.fields = append(d.fields, df)
		}
		return bytesV{m.canonStr(d)}
	}
	H["vArr"] = func(fr *frame, fn *ssa.Function, a []value) value {
		m := fr.m
		d := &Doc{kind: dArr}
		for _, f := range anyArgs(a[0]) {
			d.elems = append(d.elems, m.anyDoc(fr, f.(iface)))
		}
		return bytesV{m.canonStr(d)}
	}
}

func ctxDeadlineSig(m *machine) *types.Signature {
	ct := m.prog.typeNamed("context", "Context").Underlying().(*types.Interface)
	for i := 0; i < ct.NumMethods(); i++ {
		if ct.Method(i).Name() == "Deadline" {
			return ct.Method(i).Type().(*types.Signature)
		}
	}
	return nil
}

func (m *machine) anyDoc(fr *frame, x iface) *Doc {
	if x.t == nil {
		return &Doc{kind: dNull}
	}
	d, err := m.marshal(fr, x.v, x.t)
	if err != nil {
		panic(m.unsupported("harness document"))
	}
	return d
}

func deepCopy(v value, memo map[any]value) value {
	switch x := v.(type) {
	case structure:
		a := make(structure, len(x))
		for i := range x {
			a[i] = deepCopy(x[i], memo)
		}
		return a
	case array:
		a := make(array, len(x))
		for i := range x {
			a[i] = deepCopy(x[i], memo)
		}
		return a
	case sliceV:
		if x == nil {
			return x
		}
		a := make(sliceV, len(x))
		for i := range x {
			a[i] = deepCopy(x[i], memo)
		}
		return a
	case *value:
		if x == nil {
			return x
		}
		if c, ok := memo[x]; ok {
			return c
		}
		var nv value
		memo[x] = &nv
		nv = deepCopy(*x, memo)
		return &nv
	case *mapV:
		if x == nil {
			return x
		}
		n := newMap(x.kt)
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			ne := &mapEntry{k: e.k, v: deepCopy(e.v, memo), concKey: e.concKey, isConc: e.isConc}
			n.entries = append(n.entries, ne)
			n.n++
			if ne.isConc {
				n.idx[ne.concKey] = ne
			} else {
				n.nsym++
			}
		}
		return n
	case iface:
		return iface{x.t, deepCopy(x.v, memo)}
	}
	return v
}

var _ = bytes.Equal
var _ = sort.Strings

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Array:
		return reflect.Array
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			return reflect.String
		case u.Kind() == types.Bool:
			return reflect.Bool
		case u.Kind() == types.Int:
			return reflect.Int
		case u.Kind() == types.Int64:
			return reflect.Int64
		case u.Kind() == types.Uint64:
			return reflect.Uint64
		case u.Kind() == types.Float64:
			return reflect.Float64
		}
	}
	return reflect.Uintptr
}
