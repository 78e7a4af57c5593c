package main

// C18: the evaluation of programs stops at suspended commands and goes on from
// there; processes run programs that haven't ended only

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type evaluation struct {
	m       *machine
	p       *Program
	r       *Report
	command int // fields of the state
	result  int
	enters  map[*ssa.Function]bool
	entry   ref // result on entry
	entryC  ref // command on entry
}

// Does a function satisfy a condition, or one that it calls in its package?
func (p *Program) reaches(fn *ssa.Function, is func(in ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if v, ok := seen[fn]; ok {
		return v
	}
	seen[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				r = true
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg && p.reaches(f, is, seen) {
				r = true
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if p.reaches(f, is, seen) {
			r = true
		}
	}
	seen[fn] = r
	return r
}

func (m *machine) evaluation(r *Report) *evaluation {
	e := &evaluation{m: m, p: m.p, r: r, command: -1, result: -1, enters: map[*ssa.Function]bool{}}
	s := m.state.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if isCoreResult(t) {
			e.result = i
		} else if types.IsInterface(t) && strings.HasSuffix(t.String(), "helena/core.Command") {
			e.command = i
		}
	}
	return e
}

func (e *evaluation) isInvoke(in ssa.Instruction, name string) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != name || !isCoreResult(c.Type()) || len(c.Call.Args) != 2 {
		return nil
	}
	if !strings.HasPrefix(c.Call.Value.Type().String(), "helena/core.") {
		return nil
	}
	return c
}

func (e *evaluation) check() {
	p, m, r := e.p, e.m, e.r
	if e.command < 0 || e.result < 0 {
		for i := 0; i < 3; i++ {
			r.excluded("executor", nil, "state", "no single field for the command and its result")
		}
		return
	}
	isFetch := func(in ssa.Instruction) bool { return m.fetch(in) != nil && e.isExec(in.Parent()) }
	loops := map[*ssa.Function]bool{}
	field := func(in ssa.Instruction) bool {
		if e.isInvoke(in, "Execute") != nil || e.isInvoke(in, "Resume") != nil || m.fetch(in) != nil {
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if f, ok := m.field(st.Addr); ok && (f == e.command || f == e.result) {
				return true
			}
		}
		return false
	}
	touches := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if fnPkg(fn) == p.core().Pkg {
			p.reaches(fn, isFetch, loops)
			p.reaches(fn, field, touches)
		}
	}
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		if !loops[fn] || fn.Signature.Results().Len() != 1 || !isCoreResult(fn.Signature.Results().At(0).Type()) || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		takes := false
		for _, pa := range fn.Params {
			if types.Identical(deref(pa.Type()), m.state) {
				takes = true
			}
		}
		if takes {
			roots = append(roots, fn)
		}
	}
	if len(roots) == 0 {
		for i := 0; i < 3; i++ {
			r.excluded("executor", nil, "roots", "no function executes programs")
		}
	}
	for _, fn := range roots {
		e.explore(fn, touches)
	}
}

// Does a function (or one it calls) execute commands?
func (e *evaluation) isExec(fn *ssa.Function) bool {
	if v, ok := e.enters[fn]; ok {
		return v
	}
	v := e.p.reaches(fn, func(in ssa.Instruction) bool { return e.isInvoke(in, "Execute") != nil }, map[*ssa.Function]bool{})
	e.enters[fn] = v
	return v
}

func (e *evaluation) explore(root *ssa.Function, touches map[*ssa.Function]bool) {
	p, m, r := e.p, e.m, e.r
	bad := map[string]bool{}
	seen := map[string]bool{}
	fail := func(in ssa.Instruction, msg string) {
		if k := p.instrPos(in) + msg; !bad[k] {
			bad[k] = true
			r.fail("executor", root, shortFn(root)+" "+msg, p.instrPos(in), shortFn(root)+": "+msg)
		}
	}
	e.entry = ref{&ssa.FreeVar{}, nil}
	e.entryC = ref{&ssa.FreeVar{}, nil}
	x := newExplorer(p)
	x.enter = func(f *ssa.Function) bool { return touches[f] }
	refs := map[string]ref{"": {}, "entry": e.entry, "entryC": e.entryC}
	set := func(st *xstate, name string, v ref) {
		refs[x.id(v)] = v
		st.facts[name] = x.id(v)
	}
	strip := func(st *xstate, v ref) ref {
		for {
			v = x.resolve(st, v)
			switch y := v.v.(type) {
			case *ssa.ChangeInterface:
				v.v = y.X
			case *ssa.MakeInterface:
				v.v = y.X
			case *ssa.TypeAssert:
				v.v = y.X
			case *ssa.Extract:
				ta, ok := y.Tuple.(*ssa.TypeAssert)
				if !ok {
					return v
				}
				v.v = ta.X
			default:
				return v
			}
		}
	}
	// Nothing is executed before the suspended command is resumed
	ready := func(st *xstate, in ssa.Instruction, what string) {
		if st.facts["ready"] != "" {
			return
		}
		st.facts["ready"] = "1"
		if st.facts["lost"] != "" {
			fail(in, "the suspension of the last command is lost before the command is resumed")
		}
		if x.codeOf(st, refs[st.facts["result"]])&codeYIELD != 0 && st.facts["once"] == "" {
			fail(in, what+" before the command that is suspended is resumed")
		}
	}
	// The result of the last command is kept, and is fine
	done := func(st *xstate, in ssa.Instruction, what string) {
		id := st.facts["call"]
		if id == "" {
			return
		}
		c := refs[id]
		if x.codeOf(st, c)&^codeOK != 0 {
			fail(in, what+" though the last command didn't succeed")
		} else if st.facts["result"] != id {
			fail(in, what+" but the result of the last command isn't kept")
		} else {
			seen[what] = true
		}
	}
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		var cond ssa.Value = c.v
		if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && !truth && x.id(strip(st, ref{ta.X, c.fr})) == x.id(e.entryC) {
				st.facts["once"] = "1"
			}
		}
		if b, ok := cond.(*ssa.BinOp); ok {
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				k, isK := q[1].(*ssa.Const)
				if isK && k.IsNil() && (b.Op == token.EQL) == truth && x.id(strip(st, ref{q[0], c.fr})) == x.id(e.entryC) {
					st.facts["once"] = "1"
				}
			}
		}
		return true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		if st.facts["result"] == "" {
			set(st, "result", e.entry)
			set(st, "command", e.entryC)
		}
		if m.fetch(in) != nil {
			ready(st, in, "the program goes on")
			done(st, in, "the program goes on")
			// Forget everything else
			st.codes, st.rets = map[string]uint8{}, map[string][]ref{}
			for k, v := range st.vals {
				if _, ok := v.v.(*ssa.Parameter); !ok && v.fr != nil {
					delete(st.vals, k)
				}
			}
			st.facts = map[string]string{"ready": "1", "result": "", "command": "loop"}
			fresh := ref{in.(*ssa.UnOp), fr}
			refs[x.id(fresh)] = fresh
			st.facts["result"] = x.id(fresh)
			st.facts["command"] = x.id(fresh)
			return
		}
		switch y := in.(type) {
		case *ssa.FieldAddr:
			if f, ok := m.field(y); ok && f == e.result {
				st.vals[x.id(ref{y, fr})] = refs[st.facts["result"]]
			}
		case *ssa.UnOp:
			if f, ok := m.field(y.X); ok && y.Op == token.MUL {
				if f == e.result {
					st.vals[x.id(ref{y, fr})] = refs[st.facts["result"]]
				} else if f == e.command {
					st.vals[x.id(ref{y, fr})] = refs[st.facts["command"]]
				}
			}
		case *ssa.Store:
			if f, ok := m.field(y.Addr); ok {
				if f == e.result {
					base := x.resolve(st, ref{y.Addr.(*ssa.FieldAddr).X, fr})
					if _, ok := base.v.(*ssa.Parameter); ok && st.facts["ready"] == "" && x.codeOf(st, refs[st.facts["result"]])&codeYIELD != 0 {
						st.facts["lost"] = "1"
					}
					set(st, "result", x.resolve(st, ref{y.Val, fr}))
				} else if f == e.command {
					set(st, "command", strip(st, ref{y.Val, fr}))
				}
			}
		case *ssa.Call:
			if c := e.isInvoke(in, "Execute"); c != nil {
				ready(st, in, "a command is executed")
				done(st, in, "a command is executed")
				id := x.id(ref{c, fr})
				delete(st.codes, id)
				delete(st.rets, id)
				set(st, "call", ref{c, fr})
				set(st, "executed", strip(st, ref{c.Call.Value, fr}))
			} else if c := e.isInvoke(in, "Resume"); c != nil {
				if st.facts["ready"] != "" {
					fail(in, "a command is resumed though another one was executed")
				}
				if st.facts["command"] != x.id(strip(st, ref{c.Call.Value, fr})) {
					fail(in, "another command than the last one is resumed")
				}
				if x.id(x.resolve(st, ref{c.Call.Args[0], fr})) != st.facts["result"] {
					fail(in, "the command is resumed with another result than its own")
				}
				if x.codeOf(st, refs[st.facts["result"]])&^codeYIELD != 0 {
					fail(in, "a command that isn't suspended may be resumed")
				}
				st.facts["ready"] = "1"
				id := x.id(ref{c, fr})
				delete(st.codes, id)
				delete(st.rets, id)
				set(st, "call", ref{c, fr})
				st.facts["executed"] = st.facts["command"]
				seen["resume"] = true
			}
		}
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		id := st.facts["call"]
		if len(res) == 0 {
			return
		}
		if id == "" {
			return
		}
		c := refs[id]
		if x.codeOf(st, c) == codeOK {
			return
		}
		if x.codeOf(st, c)&codeYIELD == 0 {
			return
		}
		if x.id(x.resolve(st, res[0])) != id {
			fail(in, "the result of a command that doesn't succeed isn't returned")
			return
		}
		if st.facts["result"] != id {
			fail(in, "the suspension of a command isn't kept")
			return
		}
		if st.facts["command"] != st.facts["executed"] {
			fail(in, "the command that is suspended isn't kept")
			return
		}
		seen["suspended"] = true
	}
	if !x.tryRun(root, newXstate()) {
		r.excluded("executor", root, shortFn(root), "too many paths")
		return
	}
	if len(bad) > 0 {
		return
	}
	var l []string
	for k := range seen {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		r.ok("executor", root, fmt.Sprintf("%s: %s", shortFn(root), k))
	}
}
