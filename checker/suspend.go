package main

// C18: suspended work resumes where it stopped, once

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Objects that keep processes between calls
type holder struct {
	p       *Program
	r       *Report
	typ     *types.Named // of the objects
	process *types.Named
	command bool           // objects are commands, called again by themselves
	fields  map[int]string // "process", "result" or "scalar"
	consts  map[string]*ssa.Const
	reached map[string]bool // states that objects are left in
	queue   []string
	ran     map[string]bool // states from which a process is run
	bad     map[string]bool
	good    map[string]*ssa.Function
}

func (p *Program) processType() *types.Named {
	for _, n := range p.namedT {
		if n.Obj().Name() == "Process" && p.isModPkg(n.Obj().Pkg()) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return n
			}
		}
	}
	return nil
}

func (p *Program) holders(r *Report) []*holder {
	proc := p.processType()
	if proc == nil {
		return nil
	}
	var l []*holder
	for _, n := range p.namedT {
		s, ok := n.Underlying().(*types.Struct)
		if !ok || p.test(n.Obj().Pos()) {
			continue
		}
		h := &holder{p: p, r: r, typ: n, process: proc, fields: map[int]string{}, consts: map[string]*ssa.Const{}, reached: map[string]bool{}, ran: map[string]bool{}, bad: map[string]bool{}, good: map[string]*ssa.Function{}}
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			switch b := t.Underlying().(type) {
			case *types.Pointer:
				if types.Identical(b.Elem(), proc) {
					h.fields[i] = "process"
				}
			case *types.Basic:
				if b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
					h.fields[i] = "scalar"
				}
			case *types.Struct:
				if isCoreResult(t) {
					h.fields[i] = "result"
				}
			}
		}
		has := false
		for _, k := range h.fields {
			has = has || k == "process"
		}
		if !has {
			continue
		}
		h.command = p.executeOf(types.NewPointer(n)) != nil
		l = append(l, h)
	}
	return l
}

func (p *Program) test(pos token.Pos) bool {
	return strings.HasSuffix(p.fset.Position(pos).Filename, "_test.go")
}

// Method of a command type
func (p *Program) methodNamed(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.prog.MethodValue(ms.At(i))
			if f != nil && len(f.Blocks) > 0 {
				return f
			}
		}
	}
	return nil
}

func (p *Program) executeOf(t types.Type) *ssa.Function {
	f := p.methodNamed(t, "Execute")
	if f == nil || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 || !isCoreResult(f.Signature.Results().At(0).Type()) {
		return nil
	}
	if s, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice); !ok || !strings.HasSuffix(s.Elem().String(), "core.Value") {
		return nil
	}
	return f
}

func (h *holder) fieldName(i int) string {
	return h.typ.Underlying().(*types.Struct).Field(i).Name()
}

// State of the object, by fields
func (h *holder) parse(s string) map[int]string {
	m := map[int]string{}
	for _, e := range strings.Split(s, ";") {
		k, v, ok := strings.Cut(e, "=")
		if ok {
			i, _ := strconv.Atoi(k)
			m[i] = v
		}
	}
	return m
}

func (h *holder) show(s string) string {
	m := h.parse(s)
	var l []string
	for i := range m {
		v := m[i]
		if h.fields[i] == "scalar" {
			if k := h.consts[v]; k != nil {
				v = constName(h.p, k)
			}
		}
		if h.fields[i] == "result" {
			n, _ := strconv.Atoi(v)
			v = codeSet(uint8(n))
		}
		l = append(l, h.fieldName(i)+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// Name of a constant of an enumerated type
func constName(p *Program, k *ssa.Const) string {
	if n, ok := k.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		sc := n.Obj().Pkg().Scope()
		for _, x := range sc.Names() {
			if c, ok := sc.Lookup(x).(*types.Const); ok && types.Identical(c.Type(), n) && constant.Compare(c.Val(), token.EQL, k.Value) {
				return x
			}
		}
	}
	return k.Value.String()
}

// Current state of the object
func (h *holder) state(st *xstate) string {
	var l []string
	for i, k := range h.fields {
		v := st.facts[fmt.Sprintf("o%d", i)]
		if k == "process" {
			v = st.facts["p"+v]
			if v == "" {
				v = "none"
			}
		}
		l = append(l, fmt.Sprintf("%03d=%s", i, v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (h *holder) load(st *xstate, s string) {
	for i, v := range h.parse(s) {
		if h.fields[i] == "process" {
			pid := fmt.Sprintf("in%d", i)
			st.facts["p"+pid] = v
			if v == "none" {
				delete(st.facts, "p"+pid)
				pid = ""
			}
			v = pid
		}
		st.facts[fmt.Sprintf("o%d", i)] = v
	}
}

func (h *holder) zero() string {
	var l []string
	s := h.typ.Underlying().(*types.Struct)
	for i, k := range h.fields {
		v := "none"
		if k == "result" {
			v = strconv.Itoa(int(codeOK))
		}
		if k == "scalar" {
			c := ssa.NewConst(constant.MakeInt64(0), s.Field(i).Type())
			if b := s.Field(i).Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
				c = ssa.NewConst(constant.MakeBool(false), s.Field(i).Type())
			}
			v = h.konst(c)
		}
		l = append(l, fmt.Sprintf("%03d=%s", i, v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (h *holder) konst(k *ssa.Const) string {
	key := k.Value.ExactString() + ":" + k.Type().String()
	h.consts[key] = k
	return key
}

func (h *holder) reach(s string) {
	if !h.reached[s] {
		h.reached[s] = true
		h.queue = append(h.queue, s)
	}
}

func (h *holder) fail(st *xstate, in ssa.Instruction, what string) {
	st.halt = true
	key := shortFn(in.Parent()) + " " + what
	h.bad[h.p.instrPos(in)] = true
	h.r.fail("process", in.Parent(), key, h.p.instrPos(in), what+" in "+shortFn(in.Parent())+", given "+h.show(st.facts["entry"]))
}

func (h *holder) judge(st *xstate, in ssa.Instruction, ok bool, what, msg string) bool {
	if !ok {
		h.fail(st, in, msg)
		return false
	}
	h.good[h.p.instrPos(in)+"\x00"+shortFn(in.Parent())+": "+what] = in.Parent()
	return true
}

// Field of the object at an address
func (h *holder) field(x *explorer, st *xstate, a ref) (int, bool) {
	fa, ok := a.v.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), h.typ) {
		return 0, false
	}
	if _, ok := h.fields[fa.Field]; !ok {
		return 0, false
	}
	o := x.resolve(st, ref{fa.X, a.fr})
	if _, ok := o.v.(*ssa.Phi); ok {
		return 0, false
	}
	id := x.id(o)
	if st.facts["obj"] == "" {
		if st.facts["entry"] == "" {
			return 0, false
		}
		st.facts["obj"] = id
		h.load(st, st.facts["entry"])
	}
	return fa.Field, st.facts["obj"] == id
}

// Process that a value is
func (h *holder) pid(x *explorer, st *xstate, r ref) string {
	r = x.resolve(st, r)
	if k, ok := r.v.(*ssa.Const); ok && k.IsNil() {
		return ""
	}
	if p, ok := st.facts["l"+x.id(r)]; ok {
		return p
	}
	return x.id(r)
}

func (h *holder) isProcess(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), h.process)
}

func (h *holder) enters(f *ssa.Function) bool {
	if fnPkg(f) != h.typ.Obj().Pkg() {
		return false
	}
	if rv := f.Signature.Recv(); rv != nil && types.Identical(deref(rv.Type()), h.process) {
		return false
	}
	if f.Parent() != nil {
		return true
	}
	for _, pa := range f.Params {
		if h.isProcess(pa.Type()) || types.Identical(deref(pa.Type()), h.typ) {
			return true
		}
		if _, ok := pa.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// Is a value the object, as an interface?
func (h *holder) boxed(x *explorer, st *xstate, r ref) bool {
	m, ok := r.v.(*ssa.MakeInterface)
	return ok && st.facts["obj"] != "" && types.Identical(deref(m.X.Type()), h.typ) && x.id(x.resolve(st, ref{m.X, r.fr})) == st.facts["obj"]
}

// Is the object handed over with a result?
func (h *holder) handed(x *explorer, st *xstate, r ref) bool {
	r = x.resolve(st, r)
	if u, ok := r.v.(*ssa.UnOp); ok {
		r.v = u.X
	}
	return st.facts["h"+x.id(r)] != ""
}

// Boolean that a successful result holds, if known
func (h *holder) answer(x *explorer, st *xstate, r ref) (bool, bool) {
	r = x.resolve(st, r)
	for n := 0; n < 4; n++ {
		switch y := r.v.(type) {
		case *ssa.Call:
			if len(y.Call.Args) != 1 || y.Call.StaticCallee() == nil {
				return false, false
			}
			r = x.resolve(st, ref{y.Call.Args[0], r.fr})
			continue
		case *ssa.MakeInterface:
			r = x.resolve(st, ref{y.X, r.fr})
			continue
		case *ssa.Convert:
			r = x.resolve(st, ref{y.X, r.fr})
			continue
		case *ssa.BinOp:
			a, ok1 := x.resolve(st, ref{y.X, r.fr}).v.(*ssa.Const)
			b, ok2 := x.resolve(st, ref{y.Y, r.fr}).v.(*ssa.Const)
			if !ok1 || !ok2 || a.Value == nil || b.Value == nil || a.Value.Kind() != b.Value.Kind() {
				return false, false
			}
			switch y.Op {
			case token.EQL, token.NEQ:
				return constant.Compare(a.Value, y.Op, b.Value), true
			}
			return false, false
		case *ssa.Const:
			if y.Value != nil && y.Value.Kind() == constant.Bool {
				return constant.BoolVal(y.Value), true
			}
			return false, false
		}
		return false, false
	}
	return false, false
}

// Explore a function from a state of the object
func (h *holder) explore(fn *ssa.Function, entry string) {
	p := h.p
	x := newExplorer(p)
	x.purge = true
	x.enter = h.enters
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return true
		}
		a, b := x.resolve(st, ref{bo.X, c.fr}), x.resolve(st, ref{bo.Y, c.fr})
		if _, ok := a.v.(*ssa.Const); ok {
			a, b = b, a
		}
		k, ok := b.v.(*ssa.Const)
		if !ok {
			return true
		}
		if k.Value == nil {
			// Process compared with nil
			if h.isProcess(a.v.Type()) {
				pid := h.pid(x, st, a)
				_, known := st.facts["p"+pid]
				if pid == "" || known {
					return (pid == "") == ((bo.Op == token.EQL) == truth)
				}
			}
			return true
		}
		if k.Value.Kind() == constant.String && (bo.Op == token.EQL) == truth {
			st.facts["sub"] = constant.StringVal(k.Value)
		}
		// Code of a result of the object
		if u, ok := a.v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == 0 && isCoreResult(deref(fa.X.Type())) {
				if i, ok := h.field(x, st, ref{fa.X, a.fr}); ok && h.fields[i] == "result" {
					key := fmt.Sprintf("o%d", i)
					n, _ := strconv.Atoi(st.facts[key])
					bit := uint8(1) << uint(k.Int64())
					m := uint8(n)
					if (bo.Op == token.EQL) == truth {
						m &= bit
					} else {
						m &^= bit
					}
					if m == 0 {
						return false
					}
					st.facts[key] = strconv.Itoa(int(m))
				}
			}
		}
		return true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Alloc:
			if types.Identical(deref(y.Type()), h.typ) && st.facts["obj"] == "" && st.facts["entry"] == "" {
				st.facts["obj"] = x.id(ref{y, fr})
				h.load(st, h.zero())
			}
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return
			}
			i, ok := h.field(x, st, x.resolve(st, ref{y.X, fr}))
			if !ok {
				return
			}
			v := st.facts[fmt.Sprintf("o%d", i)]
			id := x.id(ref{y, fr})
			switch h.fields[i] {
			case "scalar":
				delete(st.vals, id)
				if k := h.consts[v]; k != nil {
					st.vals[id] = ref{k, nil}
				}
			case "process":
				st.facts["l"+id] = v
			case "result":
				n, _ := strconv.Atoi(v)
				st.codes[id] = uint8(n)
			}
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if h.boxed(x, st, x.resolve(st, ref{a, fr})) {
					st.facts["h"+x.id(ref{y, fr})] = "1"
				}
			}
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok && h.boxed(x, st, x.resolve(st, ref{y.Val, fr})) {
				st.facts["h"+x.id(x.resolve(st, ref{fa.X, fr}))] = "1"
			}
			i, ok := h.field(x, st, x.resolve(st, ref{y.Addr, fr}))
			if !ok {
				return
			}
			key := fmt.Sprintf("o%d", i)
			switch h.fields[i] {
			case "scalar":
				v := x.resolve(st, ref{y.Val, fr}).v
				if k, ok := v.(*ssa.Const); ok && k.Value != nil {
					st.facts[key] = h.konst(k)
				} else {
					st.facts[key] = "?"
				}
			case "process":
				pid := h.pid(x, st, ref{y.Val, fr})
				old := st.facts[key]
				if old != pid && old != "" && (st.facts["p"+old] == "yielded" || st.facts["p"+old] == "resumed" || st.facts["p"+old] == "running") {
					h.fail(st, in, "a "+strings.Replace(st.facts["p"+old], "yielded", "suspended", 1)+" process is replaced")
					return
				}
				st.facts[key] = pid
				if pid != "" && st.facts["p"+pid] == "" {
					st.facts["p"+pid] = "fresh"
				}
			case "result":
				st.facts[key] = strconv.Itoa(int(x.codeOf(st, ref{y.Val, fr})))
			}
		}
	}
	x.model = func(x *explorer, st *xstate, fr *xframe, c *ssa.Call) ([]*xstate, bool) {
		f := c.Call.StaticCallee()
		if f == nil {
			return nil, false
		}
		if h.isProcess(c.Type()) {
			// New process
			st.facts["p"+x.id(ref{c, fr})] = "fresh"
			return nil, false
		}
		rv := f.Signature.Recv()
		if rv == nil || !types.Identical(deref(rv.Type()), h.process) || st.facts["obj"] == "" {
			return nil, false
		}
		pid := h.pid(x, st, ref{c.Call.Args[0], fr})
		status := st.facts["p"+pid]
		if pid == "" {
			status = "none"
		}
		if status == "" {
			return nil, false // another process
		}
		switch {
		case isCoreResult(c.Type()):
			if !h.judge(st, c, status != "none", "run", "a process that doesn't exist is run") || !h.judge(st, c, status != "running", "run", "a process is run while it is already running") {
				return nil, true
			}
			h.ran[entry] = true
			if h.command && status != "ended" {
				// It may call the command again
				n := st.clone()
				n.facts["p"+pid] = "running"
				if st.facts["entry"] == "" || entry != h.state(n) {
					h.reach(h.state(n))
				}
			}
			id := x.id(ref{c, fr})
			var out []*xstate
			if status != "ended" {
				y := st.clone()
				y.facts["p"+pid] = "yielded"
				y.codes[id] = codeYIELD
				out = append(out, y)
			}
			e := st.clone()
			e.facts["p"+pid] = "ended"
			e.codes[id] = codeAny &^ codeYIELD
			return append(out, e), true
		case len(c.Call.Args) == 2 && f.Name() == "YieldBack":
			if !h.judge(st, c, status == "yielded" || status == "resumed", "yield back", "a value is yielded back to a process that isn't suspended") {
				return nil, true
			}
			st.facts["p"+pid] = "resumed"
			return []*xstate{st}, true
		}
		return nil, false
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		if st.facts["obj"] == "" {
			return
		}
		s := h.state(st)
		m := h.parse(s)
		for i, k := range h.fields {
			if k == "process" && m[i] == "resumed" {
				h.fail(st, in, "a value is yielded back to a process that isn't run")
				return
			}
		}
		if !h.command {
			if len(res) == 0 || !h.handed(x, st, res[0]) {
				return
			}
			ok := false
			for i, k := range h.fields {
				ok = ok || k == "process" && m[i] == "yielded"
			}
			if !h.judge(st, in, ok, "suspended", "a suspension is returned though no process is suspended") {
				return
			}
			h.reach(s)
			return
		}
		was := h.parse(entry)
		for i, k := range h.fields {
			if k == "process" && was[i] == "running" && s != entry {
				h.fail(st, in, "the command changes while its process is running")
				return
			}
		}
		h.reach(s)
		// What commands say about their process
		if len(res) == 1 && (st.facts["sub"] == "done" || st.facts["sub"] == "active") && x.codeOf(st, res[0]) == codeOK {
			b, known := h.answer(x, st, res[0])
			if !known {
				return
			}
			done, active := false, false
			for i, k := range h.fields {
				if k == "process" {
					done = done || m[i] == "ended"
					active = active || m[i] != "ended" && m[i] != "none"
				}
			}
			want := done
			if st.facts["sub"] == "active" {
				want = active
			}
			h.judge(st, in, b == want, st.facts["sub"], fmt.Sprintf("%q is %v, which is wrong", st.facts["sub"], b))
		}
	}
	st := newXstate()
	st.facts["entry"] = entry
	if entry == "" {
		delete(st.facts, "entry")
	}
	if !x.tryRun(fn, st) {
		h.r.excluded("process", fn, shortFn(fn), "too many paths")
	}
}

func (h *holder) check() {
	p := h.p
	var makers, entries []*ssa.Function
	for _, fn := range p.funcs {
		if fnPkg(fn) != h.typ.Obj().Pkg() || p.test(fn.Pos()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Alloc:
					if types.Identical(deref(y.Type()), h.typ) && !contains2(makers, fn) {
						makers = append(makers, fn)
					}
				case *ssa.TypeAssert:
					if types.Identical(deref(y.AssertedType), h.typ) && !h.command && !contains2(entries, fn) {
						entries = append(entries, fn)
					}
				}
			}
		}
	}
	if h.command {
		for _, n := range []string{"Execute", "Resume"} {
			if f := p.methodNamed(types.NewPointer(h.typ), n); f != nil {
				entries = append(entries, f)
			}
		}
	}
	for _, f := range makers {
		h.explore(f, "")
	}
	for len(h.queue) > 0 {
		s := h.queue[0]
		h.queue = h.queue[1:]
		for _, f := range entries {
			h.explore(f, s)
		}
	}
	// Suspended work can be resumed
	var states []string
	for s := range h.reached {
		states = append(states, s)
	}
	sort.Strings(states)
	for _, s := range states {
		m := h.parse(s)
		running, left := false, h.command
		for i, k := range h.fields {
			if k == "process" {
				running = running || m[i] == "running"
				left = left || m[i] == "yielded"
				if m[i] == "ended" && h.command {
					left = false
				}
			}
		}
		if running || !left || len(entries) == 0 {
			continue
		}
		if !h.ran[s] {
			h.r.fail("process", entries[0], "stuck "+h.show(s), p.pos(entries[0]), shortFn(entries[0])+" never runs the process again, given "+h.show(s))
			continue
		}
		h.r.ok("process", entries[0], shortFn(entries[0])+" can go on, given "+h.show(s))
	}
	var keys []string
	for k := range h.good {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		pos, what, _ := strings.Cut(k, "\x00")
		if !h.bad[pos] {
			h.r.ok("process", h.good[k], what)
		}
	}
}

func init() {
	checks["C18"] = func(r *Report, thorough bool) {
		r.rule("process", "processes kept by commands are run or given values in states that allow it only, whatever the order of calls, and remain reachable until they end", 10)
		r.rule("resume", "commands that execute other commands keep their suspensions, and resume them with the value given and their own state, again after each suspension", 12)
		r.rule("executor", "programs stop at the command that is suspended, and resume it first, with its own result; they go on after commands that succeed only", 3)
		r.rule("stack", "processes run the last of their programs, which hasn't ended, with the result of the one that it ran; programs that are suspended are kept, continuations are run", 4)
		r.p.wrappers(r)
		if s := r.p.processStack(); s != nil {
			s.check(r)
		} else {
			for i := 0; i < 4; i++ {
				r.excluded("stack", nil, "process", "no stack of programs")
			}
		}
		r.p.machine().evaluation(r).check()
		for _, h := range r.p.holders(r) {
			h.check()
		}
	}
}
