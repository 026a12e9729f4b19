package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx    map[ssa.Value]int
	n      int
	intr   intrinsic
	noop   bool
	isRepo bool
}

type frame struct {
	m         *machine
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	panicVal  any
	visits    map[*ssa.BasicBlock]int
	instr     ssa.Instruction
	recovered bool
	depth     int
}

type deferred struct {
	fn   value
	args []value
	next *deferred
}

func (fr *frame) where() string {
	s := ""
	n := 0
	for f := fr; f != nil && n < 6; f = f.caller {
		p := token.NoPos
		if f.instr != nil {
			p = f.instr.Pos()
		}
		pos := f.m.prog.Fset.Position(p)
		s += fmt.Sprintf("%s(%s:%d) < ", f.fn.String(), shortFile(pos.Filename), pos.Line)
		n++
	}
	return s
}

func shortFile(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

var infoMu sync.RWMutex
var infos = map[*ssa.Function]*fnInfo{}

func (m *machine) info(fn *ssa.Function) *fnInfo {
	infoMu.RLock()
	i := infos[fn]
	infoMu.RUnlock()
	if i != nil {
		return i
	}
	m.prog.ensureBuilt(fn)
	i = &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	i.intr, i.noop = m.prog.lookupIntrinsic(fn)
	infoMu.Lock()
	if o := infos[fn]; o != nil {
		i = o
	} else {
		infos[fn] = i
	}
	infoMu.Unlock()
	return i
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Function, *ssa.Builtin:
		return v
	case *ssa.Const:
		return fr.m.constVal(v)
	case *ssa.Global:
		return fr.m.global(v)
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fr.m.unsupported("no register for " + v.Name()))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

func (m *machine) global(g *ssa.Global) *value {
	m.initPkg(g.Pkg)
	p := m.globals[g]
	if p == nil {
		var v value = m.zero(g.Type().(*types.Pointer).Elem())
		p = &v
		m.globals[g] = p
	}
	return p
}

// initPkg runs a package's variable initialisers lazily (imports are initialised on demand).
func (m *machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if m.prog.noInit(p) {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	m.prog.ensureBuilt(f)
	m.runInit(p, f)
}

func (m *machine) runInit(p *ssa.Package, f *ssa.Function) {
	save := m.lastPos
	defer func() { m.lastPos = save }()
	fr := &frame{m: m, fn: f, info: m.info(f)}
	fr.env = make([]value, fr.info.n)
	guard := p.Var("init$guard")
	fr.block = f.Blocks[0]
	for {
	block:
		for _, ins := range fr.block.Instrs {
			fr.instr = ins
			// skip other packages' initialisers and init() functions of stubbed packages
			if c, ok := ins.(*ssa.Call); ok {
				if callee := c.Call.StaticCallee(); callee != nil && (callee.Name() == "init" || len(callee.Name()) > 5 && callee.Name()[:5] == "init#") && callee.Signature.Recv() == nil {
					if callee.Pkg != p {
						continue
					}
					if !m.prog.isRepo(p) {
						continue
					}
				}
			}
			if u, ok := ins.(*ssa.UnOp); ok && guard != nil && u.X == ssa.Value(guard) {
				fr.set(u, m.x.F)
				continue
			}
			if ifi, ok := ins.(*ssa.If); ok {
				c := fr.get(ifi.Cond).(*Expr)
				if c.isTrue() {
					fr.jump(fr.block.Succs[0])
				} else {
					fr.jump(fr.block.Succs[1])
				}
				break block
			}
			if st, ok := ins.(*ssa.Store); ok {
				// globals of this package must not recurse
				_ = st
			}
			cont := func() (k continuation) {
				if m.prog.isRepo(p) {
					return fr.visit(ins)
				}
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case unsupportedErr, targetPanic:
							// initialiser outside the supported subset: leave zero
							if v, ok := ins.(ssa.Value); ok {
								func() {
									defer func() { recover() }()
									fr.set(v, m.zero(v.Type()))
								}()
							}
							k = kNext
							return
						}
						panic(r)
					}
				}()
				return fr.visit(ins)
			}()
			switch cont {
			case kReturn:
				return
			case kJump:
				break block
			}
		}
	}
}

func (m *machine) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return m.x.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w, signed := m.intWidth(b)
			v := constant.ToInt(c.Value)
			if signed {
				i, _ := constant.Int64Val(v)
				return m.x.Const(w, uint64(i))
			}
			u, ok := constant.Uint64Val(v)
			if !ok {
				i, _ := constant.Int64Val(v)
				u = uint64(i)
			}
			return m.x.Const(w, u)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return flt{v: f}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return mkStr(string(rune(i)))
		}
	}
	panic(m.unsupported(fmt.Sprintf("const %v", c)))
}

type continuation int

const (
	kNext continuation = iota
	kReturn
	kJump
)

func (m *machine) callFunc(caller *frame, fn *ssa.Function, args []value) value {
	return m.callSSA(caller, fn, args, nil)
}

// call invokes any function value.
func (m *machine) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			m.rtPanic(caller, "call of nil function")
		}
		return m.callSSA(caller, fn, args, nil)
	case *closure:
		return m.callSSA(caller, fn.Fn, args, fn.Env)
	case *ssa.Builtin:
		return m.callBuiltin(caller, fn, args)
	case *nativeFn:
		return fn.fn(caller, args)
	}
	panic(m.unsupported(fmt.Sprintf("call of %T", fn)))
}

func (m *machine) callSSA(caller *frame, fn *ssa.Function, args []value, env []value) value {
	info := m.info(fn)
	if info.intr != nil {
		m.initPkgIfRepo(fn)
		return info.intr(caller, fn, args)
	}
	if info.noop {
		return m.noopResult(fn.Signature)
	}
	if len(fn.Blocks) == 0 {
		panic(m.unsupported("no body: " + fn.String()))
	}
	m.depth++
	if m.depth > m.cfg.Depth {
		panic(unsupportedErr{"call depth bound exceeded in " + fn.String()})
	}
	m.w.eng.note(fn)
	fr := &frame{m: m, caller: caller, fn: fn, info: info, depth: m.depth}
	fr.env = make([]value, info.n)
	for i, p := range fn.Params {
		fr.env[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[info.idx[p]] = env[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	m.depth--
	m.lastPos = caller
	return fr.result
}

func (m *machine) initPkgIfRepo(fn *ssa.Function) {}

func (m *machine) noopResult(sig *types.Signature) value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.noopVal(r.At(0).Type())
	}
	t := make(tuple, r.Len())
	for i := range t {
		t[i] = m.noopVal(r.At(i).Type())
	}
	return t
}

// noopVal is a benign non-nil dummy for pointers to stubbed types, zero otherwise.
func (m *machine) noopVal(t types.Type) value {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		var v value = noopVal{}
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						v = noopVal{}
					}
				}()
				v = m.zero(p.Elem())
			}()
		}
		return &v
	}
	return m.zero(t)
}

// run executes fr until it returns or panics, handling defers.
func (fr *frame) run() {
	m := fr.m
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r) // engine control flow
		}
		m.depth = fr.depth
		m.lastPos = fr
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no named results: return zero values
			fr.result = nil
			res := fr.fn.Signature.Results()
			if res.Len() > 0 {
				fr.result = m.zero(res)
			}
		}
	}()
	for {
		if fr.visits == nil {
			fr.visits = map[*ssa.BasicBlock]int{}
		}
		fr.visits[fr.block]++
		if fr.visits[fr.block] > m.cfg.Loop {
			panic(pathLoopBound(fr))
		}
	block:
		for _, ins := range fr.block.Instrs {
			m.steps++
			if m.steps > m.cfg.Steps {
				panic(unsupportedErr{"step bound exceeded at " + fr.where()})
			}
			fr.instr = ins
			m.lastPos = fr
			switch fr.visit(ins) {
			case kReturn:
				return
			case kJump:
				break block
			}
		}
	}
}

func pathLoopBound(fr *frame) any {
	return unsupportedErr{"UNWIND: loop bound exceeded at " + fr.where()}
}

func (fr *frame) runDefers() {
	m := fr.m
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		func() {
			depth := m.depth
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					m.depth = depth
					fr.panicking = true
					fr.panicVal = tp
				}
			}()
			m.call(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (m *machine) rtPanic(fr *frame, msg string) {
	if m.inMerge {
		panic(mergeAbort{})
	}
	w := ""
	if fr != nil {
		w = fr.where()
	}
	panic(targetPanic{v: iface{t: m.prog.runtimeErrT, v: mkStr("runtime error: " + msg)}, where: w})
}

func (fr *frame) visit(ins ssa.Instruction) continuation {
	m := fr.m
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(ins, fr.unop(ins))
	case *ssa.BinOp:
		fr.set(ins, m.binop(fr, ins.Op, ins.X.Type(), fr.get(ins.X), fr.get(ins.Y), ins.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&ins.Call)
		r := m.call(fr, fn, args)
		m.lastPos = fr
		fr.set(ins, r)
	case *ssa.ChangeInterface:
		fr.set(ins, fr.get(ins.X))
	case *ssa.ChangeType:
		fr.set(ins, fr.get(ins.X))
	case *ssa.Convert:
		fr.set(ins, m.convert(fr, ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.MultiConvert:
		fr.set(ins, m.convert(fr, ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.SliceToArrayPointer:
		panic(m.unsupported("SliceToArrayPointer"))
	case *ssa.MakeInterface:
		fr.set(ins, iface{t: ins.X.Type(), v: copyVal(fr.get(ins.X))})
	case *ssa.Extract:
		fr.set(ins, fr.get(ins.Tuple).(tuple)[ins.Index])
	case *ssa.Slice:
		fr.set(ins, fr.slice(ins))
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(ins.Results[0]))
		default:
			var res tuple
			for _, r := range ins.Results {
				res = append(res, copyVal(fr.get(r)))
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{v: fr.get(ins.X), where: fr.where()})
	case *ssa.Send:
		m.chanSend(fr, fr.get(ins.Chan), fr.get(ins.X))
	case *ssa.Store:
		p, ok := fr.get(ins.Addr).(*value)
		if !ok || p == nil {
			m.rtPanic(fr, "nil pointer dereference (store)")
		}
		storeTo(p, fr.get(ins.Val))
	case *ssa.If:
		c := fr.get(ins.Cond).(*Expr)
		if !c.isConst() && !m.cfg.NoMerge && fr.tryMerge(c) {
			return kJump
		}
		s := 1
		if m.branch(c) {
			s = 0
		}
		fr.jump(fr.block.Succs[s])
		return kJump
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&ins.Call)
		if ins.DeferStack != nil {
			panic(m.unsupported("range-over-func defer"))
		}
		fr.defers = &deferred{fn: fn, args: args, next: fr.defers}
	case *ssa.Go:
		fn, args := fr.prepareCall(&ins.Call)
		m.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := m.concretize(fr.get(ins.Size).(*Expr))
		fr.set(ins, &chanV{cap: int(n), zero: m.zero(ins.Type().Underlying().(*types.Chan).Elem())})
	case *ssa.Alloc:
		// both heap and stack cells; stack cells in loops are fresh each time, which is safe
		var v value = m.zero(ins.Type().Underlying().(*types.Pointer).Elem())
		if ins.Heap {
			fr.set(ins, &v)
		} else {
			if p, ok := fr.env[fr.info.idx[ins]].(*value); ok && p != nil {
				*p = v
			} else {
				fr.set(ins, &v)
			}
		}
	case *ssa.MakeSlice:
		ln := fr.get(ins.Len).(*Expr)
		cp := fr.get(ins.Cap).(*Expr)
		ln = m.x.Resize(ln, 64, true)
		cp = m.x.Resize(cp, 64, true)
		if m.branch(m.x.Bin(OSlt, ln, m.x.Int(0))) {
			m.rtPanic(fr, "makeslice: len out of range")
		}
		if m.branch(m.x.Bin(OSlt, cp, ln)) {
			m.rtPanic(fr, "makeslice: cap out of range")
		}
		n := int64(m.concretize(ln))
		c := int64(m.concretize(cp))
		if c > 1<<20 {
			panic(m.unsupported(fmt.Sprintf("makeslice of %d", c)))
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make(sliceV, c)
		for i := range s {
			s[i] = m.zero(et)
		}
		fr.set(ins, s[:n])
	case *ssa.MakeMap:
		fr.set(ins, newMap(ins.Type().Underlying().(*types.Map).Key()))
	case *ssa.Range:
		fr.set(ins, m.rangeIter(fr.get(ins.X), ins.X.Type()))
	case *ssa.Next:
		fr.set(ins, fr.get(ins.Iter).(iter).next(m))
	case *ssa.FieldAddr:
		p, ok := fr.get(ins.X).(*value)
		if !ok || p == nil {
			m.rtPanic(fr, "nil pointer dereference (field)")
		}
		st, ok := (*p).(structure)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("FieldAddr of %T (%s)", *p, ins.X.Type())))
		}
		fr.set(ins, &st[ins.Field])
	case *ssa.Field:
		st, ok := fr.get(ins.X).(structure)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("Field of %T", fr.get(ins.X))))
		}
		fr.set(ins, st[ins.Field])
	case *ssa.IndexAddr:
		x := fr.get(ins.X)
		idx := m.x.Resize(fr.get(ins.Index).(*Expr), 64, isSigned(ins.Index.Type()))
		switch x := x.(type) {
		case sliceV:
			i := m.index(fr, idx, len(x))
			fr.set(ins, &x[i])
		case *value:
			if x == nil {
				m.rtPanic(fr, "nil pointer dereference (index)")
			}
			a := (*x).(array)
			i := m.index(fr, idx, len(a))
			fr.set(ins, &a[i])
		case bytesV:
			el := m.bytesElems(x)
			i := m.index(fr, idx, len(el))
			fr.set(ins, &el[i])
		default:
			panic(m.unsupported(fmt.Sprintf("IndexAddr of %T", x)))
		}
	case *ssa.Index:
		idx := m.x.Resize(fr.get(ins.Index).(*Expr), 64, isSigned(ins.Index.Type()))
		switch x := fr.get(ins.X).(type) {
		case array:
			fr.set(ins, x[m.index(fr, idx, len(x))])
		case *Str:
			fr.set(ins, m.strIndex(fr, x, idx))
		default:
			panic(m.unsupported(fmt.Sprintf("Index of %T", x)))
		}
	case *ssa.Lookup:
		fr.set(ins, fr.lookup(ins))
	case *ssa.MapUpdate:
		mp, _ := fr.get(ins.Map).(*mapV)
		if mp == nil {
			panic(targetPanic{v: iface{t: m.prog.runtimeErrT, v: mkStr("assignment to entry in nil map")}, where: fr.where()})
		}
		m.mapSet(mp, copyVal(fr.get(ins.Key)), copyVal(fr.get(ins.Value)))
	case *ssa.TypeAssert:
		fr.set(ins, fr.typeAssert(ins))
	case *ssa.MakeClosure:
		var env []value
		for _, b := range ins.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(ins, &closure{ins.Fn.(*ssa.Function), env})
	case *ssa.Phi:
		// evaluated on the incoming edge
	case *ssa.Select:
		fr.set(ins, m.doSelect(fr, ins))
	default:
		panic(m.unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return kNext
}

// jump transfers control and evaluates the phis of the target in parallel.
func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	fr.doPhis()
}

func (fr *frame) doPhis() {
	var vals []value
	var phis []*ssa.Phi
	for _, ins := range fr.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range fr.block.Preds {
			if p == fr.prev {
				vals = append(vals, fr.get(phi.Edges[i]))
				break
			}
		}
		phis = append(phis, phi)
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (m *machine) index(fr *frame, idx *Expr, n int) int {
	if idx.isConst() {
		i := int64(idx.c)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	oob := m.x.Not(m.x.Bin(OUlt, idx, m.x.Int(int64(n))))
	if m.branch(oob) {
		m.rtPanic(fr, fmt.Sprintf("index out of range [sym] with length %d", n))
	}
	return int(m.concretize(idx))
}

func (m *machine) strIndex(fr *frame, s *Str, idx *Expr) value {
	c := m.concretizeStr(s)
	i := m.index(fr, idx, len(c))
	return m.x.Const(8, uint64(c[i]))
}

func (fr *frame) unop(ins *ssa.UnOp) value {
	m := fr.m
	x := fr.get(ins.X)
	switch ins.Op {
	case token.MUL:
		p, ok := x.(*value)
		if !ok || p == nil {
			m.rtPanic(fr, "nil pointer dereference (load)")
		}
		return copyVal(*p)
	case token.NOT:
		return m.x.Not(x.(*Expr))
	case token.SUB:
		if f, ok := x.(flt); ok {
			if f.i != nil {
				return flt{i: m.x.Bin(OSub, m.x.Int(0), f.i)}
			}
			return flt{v: -f.v}
		}
		e := x.(*Expr)
		return m.x.Bin(OSub, m.x.Const(e.w, 0), e)
	case token.XOR:
		return m.x.BNot(x.(*Expr))
	case token.ARROW:
		v, ok := m.chanRecv(fr, x)
		if ins.CommaOk {
			return tuple{v, m.x.Bool(ok)}
		}
		return v
	}
	panic(m.unsupported("unop " + ins.Op.String()))
}

func (fr *frame) lookup(ins *ssa.Lookup) value {
	m := fr.m
	x := fr.get(ins.X)
	if s, ok := x.(*Str); ok {
		return m.strIndex(fr, s, m.x.Resize(fr.get(ins.Index).(*Expr), 64, isSigned(ins.Index.Type())))
	}
	mp, _ := x.(*mapV)
	e := m.mapFind(mp, fr.get(ins.Index))
	var v value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = m.zero(ins.X.Type().Underlying().(*types.Map).Elem())
	}
	if ins.CommaOk {
		return tuple{v, m.x.Bool(e != nil)}
	}
	return v
}

func (fr *frame) slice(ins *ssa.Slice) value {
	m := fr.m
	x := fr.get(ins.X)
	opt := func(v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		return m.x.Resize(fr.get(v).(*Expr), 64, isSigned(v.Type()))
	}
	lo, hi, mx := opt(ins.Low), opt(ins.High), opt(ins.Max)
	if s, ok := x.(*Str); ok {
		if lo == nil && hi == nil {
			return s
		}
		if s.doc != nil || s.blob != nil {
			s = mkStr(m.concretizeStr(s))
		}
		cl := int64(0)
		if lo != nil {
			cl = int64(m.concretize(lo))
		}
		if hi != nil && !hi.isConst() && s.cases != nil {
			// typical s[:len(s)-1]
			s = mkStr(m.concretizeStr(s))
		}
		if hi != nil {
			ch := int64(m.concretize(hi))
			if s.cases != nil {
				s = mkStr(m.concretizeStr(s))
			}
			if cl < 0 || ch < cl || ch > int64(len(s.c)) {
				m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", cl, ch, len(s.c)))
			}
			return mkStr(s.c[cl:ch])
		}
		for _, c := range m.strCases(s) {
			if cl < 0 || cl > int64(len(c.s)) {
				if m.branch(c.g) {
					m.rtPanic(fr, "slice bounds out of range")
				}
			}
		}
		return m.liftStr([]*Str{s}, func(a []string) (value, bool) {
			if cl > int64(len(a[0])) {
				return mkStr(""), true
			}
			return mkStr(a[0][cl:]), true
		})
	}
	if b, ok := x.(bytesV); ok {
		if lo == nil && hi == nil && mx == nil {
			return b
		}
		x = m.bytesElems(b)
	}
	var s []value
	var capn int64
	isNil := false
	switch x := x.(type) {
	case sliceV:
		s = x
		isNil = x == nil
	case *value:
		if x == nil {
			m.rtPanic(fr, "nil pointer dereference (slice)")
		}
		s = []value((*x).(array))
	default:
		panic(m.unsupported(fmt.Sprintf("slice of %T", x)))
	}
	capn = int64(cap(s))
	L := m.x.Int(0)
	if lo != nil {
		L = lo
	}
	H := m.x.Int(int64(len(s)))
	if hi != nil {
		H = hi
	}
	M := m.x.Int(capn)
	if mx != nil {
		M = mx
	}
	bad := m.x.Or(m.x.Or(m.x.Bin(OSlt, L, m.x.Int(0)), m.x.Bin(OSlt, H, L)), m.x.Or(m.x.Bin(OSlt, M, H), m.x.Bin(OSlt, m.x.Int(capn), M)))
	if m.branch(bad) {
		m.rtPanic(fr, fmt.Sprintf("slice bounds out of range (cap %d)", capn))
	}
	l := int(m.concretize(L))
	h := int(m.concretize(H))
	mm := int(m.concretize(M))
	if isNil {
		return sliceV(nil)
	}
	return sliceV(s[l:h:mm])
}

func (fr *frame) typeAssert(ins *ssa.TypeAssert) value {
	m := fr.m
	x := fr.get(ins.X).(iface)
	ok := false
	var v value
	if x.t != nil {
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(x.t, it) {
				ok = true
				v = x
			}
		} else if types.Identical(x.t, ins.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !ins.CommaOk {
			m.rtPanic(fr, fmt.Sprintf("interface conversion: %v is not %v", x.t, ins.AssertedType))
		}
		return tuple{m.zero(ins.AssertedType), m.x.F}
	}
	if ins.CommaOk {
		return tuple{v, m.x.T}
	}
	return v
}

func (fr *frame) prepareCall(c *ssa.CallCommon) (fn value, args []value) {
	m := fr.m
	v := fr.get(c.Value)
	if c.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("invoke on %T", v)))
		}
		if recv.t == nil {
			// a nil interface of a stubbed package type: calls are no-ops
			if m.prog.noopPkg(c.Method.Pkg()) {
				sig := c.Method.Type().(*types.Signature)
				return &nativeFn{"noop", func(*frame, []value) value { return m.noopResult(sig) }}, nil
			}
			m.rtPanic(fr, "nil pointer dereference (method "+c.Method.Name()+" on nil interface)")
		}
		if op, ok := recv.v.(*opaque); ok {
			f := op.method(m, c.Method.Name())
			if f == nil {
				panic(m.unsupported("opaque " + op.kind + " has no method " + c.Method.Name()))
			}
			fn = f
		} else {
			f := m.prog.lookupMethod(recv.t, c.Method)
			if f == nil {
				panic(m.unsupported(fmt.Sprintf("method %v not found on %v", c.Method, recv.t)))
			}
			fn = f
			args = append(args, copyVal(recv.v))
		}
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return
}
