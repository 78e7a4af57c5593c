package main

// C18: commands that execute other commands can be suspended with them

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wrapper struct {
	p         *Program
	typ       types.Type
	exec, res *ssa.Function
	reaches   map[*ssa.Function]bool // functions that execute or resume commands
	kept      map[string]bool        // types of the states that suspensions are kept in
}

// Target of a call to Execute or Resume of a command: "*" if known at run time
func (p *Program) commandCall(c ssa.CallInstruction, name string) (string, bool) {
	cc := c.Common()
	if cc.IsInvoke() {
		if cc.Method.Name() == name && cc.Signature().Results().Len() == 1 && isCoreResult(cc.Signature().Results().At(0).Type()) && strings.HasPrefix(cc.Value.Type().String(), "helena/core.") {
			return "*", true
		}
		return "", false
	}
	f := cc.StaticCallee()
	if f == nil || f.Name() != name || f.Signature.Recv() == nil || !p.inModule[f] {
		return "", false
	}
	t := f.Signature.Recv().Type()
	if p.executeOf(t) == nil || p.methodNamed(t, "Resume") == nil && p.methodNamed(types.NewPointer(deref(t)), "Resume") == nil {
		return "", false
	}
	return deref(t).String(), true
}

func (p *Program) reachesCommands(fn *ssa.Function, pkg *types.Package, seen map[*ssa.Function]bool) bool {
	if v, ok := seen[fn]; ok {
		return v
	}
	seen[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := p.commandCall(c, "Execute"); ok {
				r = true
			} else if _, ok := p.commandCall(c, "Resume"); ok {
				r = true
			} else if f := c.Common().StaticCallee(); f != nil && fnPkg(f) == pkg && p.reachesCommands(f, pkg, seen) {
				r = true
			}
		}
	}
	seen[fn] = r
	return r
}

// Fields of a structure that a value is loaded from, boxed or not
func literalFields(v ssa.Value) (types.Type, map[int]ssa.Value) {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	switch y := v.(type) {
	case *ssa.Alloc, *ssa.TypeAssert:
	case *ssa.Extract:
		if _, ok := y.Tuple.(*ssa.TypeAssert); !ok {
			return nil, nil
		}
	default:
		return nil, nil
	}
	a := v
	if _, ok := deref(a.Type()).Underlying().(*types.Struct); !ok || !isPtr(a.Type()) {
		return nil, nil
	}
	m := map[int]ssa.Value{}
	for _, u := range *a.Referrers() {
		if fa, ok := u.(*ssa.FieldAddr); ok {
			for _, w := range *fa.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					m[fa.Field] = st.Val
				}
			}
		}
	}
	return deref(a.Type()), m
}

// Suspension that a result is: the type it is kept as, and the result and value
// it keeps
func (w *wrapper) suspension(x *explorer, st *xstate, r ref) (state types.Type, kept, command, value ref, ok bool) {
	r = x.resolve(st, r)
	var data, val ssa.Value
	switch y := r.v.(type) {
	case *ssa.Call:
		f := y.Call.StaticCallee()
		if f == nil || len(y.Call.Args) != 2 || fnPkg(f) != w.p.core().Pkg || !isCoreResult(y.Type()) {
			return
		}
		val, data = y.Call.Args[0], y.Call.Args[1]
	case *ssa.UnOp:
		t, m := literalFields(y)
		if t == nil || !isCoreResult(t) {
			return
		}
		val, data = m[1], m[2]
	}
	if data == nil || val == nil {
		return
	}
	d := x.resolve(st, ref{data, r.fr})
	mi, isMi := d.v.(*ssa.MakeInterface)
	if !isMi {
		return
	}
	state = mi.X.Type()
	inner := x.resolve(st, ref{mi.X, d.fr})
	t, m := literalFields(inner.v)
	if t == nil {
		return
	}
	for _, v := range m {
		if isCoreResult(v.Type()) {
			kept = x.resolve(st, ref{v, inner.fr})
		} else if types.IsInterface(v.Type()) && strings.HasPrefix(v.Type().String(), "helena/core.") {
			command = x.resolve(st, ref{v, inner.fr})
		}
	}
	return state, kept, command, x.resolve(st, ref{val, r.fr}), kept.v != nil
}

// Is a value the value of a result?
func (w *wrapper) valueOf(x *explorer, st *xstate, v, r ref, field int) bool {
	v = x.resolve(st, v)
	switch y := v.v.(type) {
	case *ssa.Field:
		return y.Field == field && x.same(st, ref{y.X, v.fr}, r)
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && fa.Field == field {
			a := x.resolve(st, ref{fa.X, v.fr})
			if s, ok := st.vals[x.id(a)]; ok {
				return x.same(st, s, r)
			}
		}
	}
	return false
}

func (w *wrapper) explore(r *Report, fn *ssa.Function, resume bool) {
	p := w.p
	name := "Execute"
	if resume {
		name = "Resume"
	}
	bad := false
	n := 0
	fail := func(in ssa.Instruction, msg string) {
		bad = true
		r.fail("resume", fn, shortFn(fn)+" "+msg, p.instrPos(in), shortFn(fn)+": "+msg)
	}
	x := newExplorer(p)
	x.enter = func(f *ssa.Function) bool {
		if _, ok := w.reaches[f]; !ok || !w.reaches[f] {
			return false
		}
		return f.Name() != "Execute" && f.Name() != "Resume"
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		t, ok := p.commandCall(c, name)
		if !ok {
			return
		}
		n++
		id := x.id(ref{c, fr})
		st.facts["call"] = id
		st.facts["target"] = t
		delete(st.codes, id)
		delete(st.rets, id)
		if !resume {
			return
		}
		// Result that is resumed
		args := c.Call.Args
		if !c.Call.IsInvoke() {
			args = args[1:]
		}
		given := ref{fn.Params[len(fn.Params)-2], x.frame(fn, nil, nil)}
		a := x.resolve(st, ref{args[0], fr})
		if t != "*" {
			if !x.same(st, a, given) {
				if _, ok := a.v.(*ssa.Parameter); ok || a.v == nil {
					return
				}
				switch y := a.v.(type) {
				case *ssa.Call:
					if f := y.Call.StaticCallee(); f != nil && fnPkg(f) == p.core().Pkg && len(y.Call.Args) < 2 {
						fail(c, "the command is resumed without the state that it was suspended with")
					}
				case *ssa.UnOp:
					if typ, m := literalFields(a.v); typ != nil && isCoreResult(typ) && m != nil && m[2] == nil {
						fail(c, "the command is resumed without the state that it was suspended with")
					}
				}
			}
			return
		}
		if x.same(st, a, given) {
			fail(c, "the command is resumed with the suspension of the one that executes it, not with its own")
			return
		}
		typ, m := literalFields(a.v)
		if typ == nil || !isCoreResult(typ) {
			return
		}
		if v := m[1]; v == nil || !w.valueOf(x, st, ref{v, a.fr}, given, 1) {
			fail(c, "the command isn't resumed with the value that is given")
		}
		if base := wholeStore(a.v); m[2] == nil && base != nil && !x.same(st, ref{base, a.fr}, given) {
			return
		}
		if d := m[2]; d == nil || w.valueOf(x, st, ref{d, a.fr}, given, 2) {
			fail(c, "the command is resumed without its own state")
		}
	}
	checked := map[string]bool{}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		id := st.facts["call"]
		if len(res) == 0 || id == "" {
			return
		}
		got := x.resolve(st, res[0])
		// What the command gave
		var call ref
		for _, f := range x.frames {
			for _, b := range f.fn.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok && x.id(ref{c, f}) == id {
						call = ref{c, f}
					}
				}
			}
		}
		if call.v == nil || x.codeOf(st, call)&codeYIELD == 0 {
			return
		}
		dyn := st.facts["target"] == "*"
		if x.id(got) == id {
			if x.codeOf(st, got)&codeYIELD == 0 {
				return
			}
			if w.res == nil {
				fail(in, "the command that is executed may be suspended but this one can't be resumed")
			} else if dyn {
				fail(in, "the suspension of the command that is executed is returned as such")
			}
			checked["passed"] = true
			return
		}
		if w.stale(x, st, got) {
			fail(in, "the state that the command was resumed from is kept instead of the new one")
			return
		}
		state, kept, command, value, ok := w.suspension(x, st, got)
		if !ok {
			if x.codeOf(st, got)&codeYIELD != 0 {
				r.excluded("resume", fn, shortFn(fn), "kind of result")
				return
			}
			fail(in, "the suspension of the command that is executed is lost")
			return
		}
		if w.res == nil {
			fail(in, "the command that is executed may be suspended but this one can't be resumed")
			return
		}
		if x.id(kept) != id {
			fail(in, "another result than that of the command is kept to resume it")
			return
		}
		if !w.valueOf(x, st, value, call, 1) {
			fail(in, "the value yielded isn't that of the command")
			return
		}
		if c := call.v.(*ssa.Call); dyn && command.v != nil && c.Call.IsInvoke() {
			switch w.sameThing(x, st, command, ref{c.Call.Value, call.fr}) {
			case -1:
				fail(in, "another command than the one that is suspended is kept to be resumed")
				return
			case 0:
				r.excluded("resume", fn, shortFn(fn), "command that is kept")
			}
		}
		w.kept[state.String()] = true
		checked["kept"] = true
	}
	if !x.tryRun(fn, newXstate()) {
		r.excluded("resume", fn, shortFn(fn), "too many paths")
		return
	}
	if bad {
		return
	}
	var l []string
	for k := range checked {
		l = append(l, k)
	}
	sort.Strings(l)
	r.ok("resume", fn, fmt.Sprintf("%s: suspensions are %s", shortFn(fn), strings.Join(l, ", ")))
}

// Targets of the calls made by a function and those it calls
func (w *wrapper) targets(fn *ssa.Function, name string, seen map[*ssa.Function]bool, out map[string]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if t, ok := w.p.commandCall(c, name); ok {
				out[t] = true
			} else if f := c.Common().StaticCallee(); f != nil && w.reaches[f] {
				w.targets(f, name, seen, out)
			}
		}
	}
}

func (p *Program) wrappers(r *Report) {
	for _, n := range p.namedT {
		if p.test(n.Obj().Pos()) {
			continue
		}
		t := types.Type(types.NewPointer(n))
		exec := p.methodOf(t, "Execute")
		if p.executeOf(t) == nil || exec == nil || len(exec.Blocks) == 0 {
			continue
		}
		w := &wrapper{p: p, typ: t, exec: exec, reaches: map[*ssa.Function]bool{}, kept: map[string]bool{}}
		if !p.reachesCommands(exec, n.Obj().Pkg(), w.reaches) {
			continue
		}
		if p.methodNamed(t, "Resume") != nil {
			w.res = p.methodOf(t, "Resume")
			p.reachesCommands(w.res, n.Obj().Pkg(), w.reaches)
		}
		w.explore(r, w.exec, false)
		if w.res == nil {
			continue
		}
		made := w.kept
		w.kept = map[string]bool{}
		w.explore(r, w.res, true)
		for k := range w.kept {
			made[k] = true
		}
		// Every command executed is resumed
		ex, re := map[string]bool{}, map[string]bool{}
		w.targets(w.exec, "Execute", map[*ssa.Function]bool{}, ex)
		w.targets(w.res, "Resume", map[*ssa.Function]bool{}, re)
		for k := range ex {
			if !re[k] {
				r.fail("resume", w.res, shortFn(w.res)+" "+k, p.pos(w.res), shortFn(w.res)+" doesn't resume the command that "+shortFn(w.exec)+" executes")
			}
		}
		// States have the type that is expected
		for _, b := range w.res.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && len(made) > 0 && ofResult(ta.X) {
					if !made[ta.AssertedType.String()] {
						r.fail("resume", w.res, shortFn(w.res)+" state", p.instrPos(in), shortFn(w.res)+" expects states of type "+ta.AssertedType.String()+", which are never made")
					}
				}
			}
		}
	}
}

// Is a value loaded from a result?
func ofResult(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Field:
		return isCoreResult(y.X.Type())
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			return isCoreResult(deref(fa.X.Type()))
		}
	}
	return false
}

// Is the state of a suspension the one that the command is resumed from, with
// nothing changed?
func (w *wrapper) stale(x *explorer, st *xstate, r ref) bool {
	r = x.resolve(st, r)
	y, ok := r.v.(*ssa.Call)
	if !ok || y.Call.StaticCallee() == nil || len(y.Call.Args) != 2 || fnPkg(y.Call.StaticCallee()) != w.p.core().Pkg {
		return false
	}
	d := x.resolve(st, ref{y.Call.Args[1], r.fr})
	if mi, ok := d.v.(*ssa.MakeInterface); ok {
		d = x.resolve(st, ref{mi.X, d.fr})
	}
	if u, ok := d.v.(*ssa.UnOp); ok {
		if a, ok := u.X.(*ssa.Alloc); ok {
			var whole ssa.Value
			for _, i := range *a.Referrers() {
				switch z := i.(type) {
				case *ssa.Store:
					if z.Addr != ssa.Value(a) || whole != nil {
						return false
					}
					whole = z.Val
				case *ssa.FieldAddr:
					for _, j := range *z.Referrers() {
						if l, ok := j.(*ssa.UnOp); !ok || l.X != ssa.Value(z) {
							return false
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			if whole == nil {
				return false
			}
			d = x.resolve(st, ref{whole, d.fr})
		}
	}
	if e, ok := d.v.(*ssa.Extract); ok {
		if _, m := literalFields(e); len(m) > 0 {
			return false
		}
		d = x.resolve(st, ref{e.Tuple, d.fr})
	}
	if _, m := literalFields(d.v); len(m) > 0 {
		return false
	}
	if ta, ok := d.v.(*ssa.TypeAssert); ok {
		return ofResult(ta.X)
	}
	return d.v != nil && ofResult(d.v)
}

// Are two values the same: 1 if so, -1 if they aren't, 0 if that isn't known
func (w *wrapper) sameThing(x *explorer, st *xstate, a, b ref) int {
	strip := func(r ref) ref {
		for {
			r = x.resolve(st, r)
			switch y := r.v.(type) {
			case *ssa.MakeInterface:
				r.v = y.X
			case *ssa.ChangeInterface:
				r.v = y.X
			case *ssa.TypeAssert:
				r.v = y.X
			case *ssa.Extract:
				ta, ok := y.Tuple.(*ssa.TypeAssert)
				if !ok {
					return r
				}
				r.v = ta.X
			default:
				return r
			}
		}
	}
	a, b = strip(a), strip(b)
	if x.same(st, a, b) {
		return 1
	}
	field := func(r ref) (ref, int, bool) {
		switch y := r.v.(type) {
		case *ssa.Field:
			return ref{y.X, r.fr}, y.Field, true
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				return ref{fa.X, r.fr}, fa.Field, true
			}
		}
		return ref{}, 0, false
	}
	ra, fa, oka := field(a)
	rb, fb, okb := field(b)
	if oka && okb {
		if ra.v.Type().String() == rb.v.Type().String() && fa != fb {
			return -1
		}
		if fa == fb {
			return w.sameThing(x, st, ra, rb)
		}
		return 0
	}
	ca, oka2 := a.v.(*ssa.Call)
	cb, okb2 := b.v.(*ssa.Call)
	if oka2 && okb2 {
		if ca.Call.IsInvoke() && cb.Call.IsInvoke() && ca.Call.Method == cb.Call.Method && len(ca.Call.Args) == 0 {
			return w.sameThing(x, st, ref{ca.Call.Value, a.fr}, ref{cb.Call.Value, b.fr})
		}
		fa, fb := ca.Call.StaticCallee(), cb.Call.StaticCallee()
		if fa != nil && fa == fb && len(ca.Call.Args) == 1 && len(cb.Call.Args) == 1 {
			return w.sameThing(x, st, ref{ca.Call.Args[0], a.fr}, ref{cb.Call.Args[0], b.fr})
		}
		return 0
	}
	_, pa := a.v.(*ssa.Parameter)
	_, pb := b.v.(*ssa.Parameter)
	if pa && (pb || okb || okb2) || pb && (oka || oka2) {
		return -1
	}
	return 0
}

// Value that the structure that a value is loaded from is copied from
func wholeStore(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var r ssa.Value
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			if r != nil {
				return nil
			}
			r = st.Val
		}
	}
	return r
}
