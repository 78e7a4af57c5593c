package main

// Variables, constants and locals (C13)

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tables of names of a scope, by role
type scopeTables struct {
	all                                 []string
	slots, values, constants, variables string
}

func (p *Program) scopeTables() (*scopeTables, string) {
	t := &scopeTables{}
	pk := p.pkg("helena_dialect")
	o := pk.Pkg.Scope().Lookup("Scope")
	if o == nil {
		return nil, "no Scope type"
	}
	var walk func(ty types.Type, d int)
	seen := map[string]bool{}
	walk = func(ty types.Type, d int) {
		ty = deref(ty)
		n, ok := ty.(*types.Named)
		if !ok || n.Obj().Pkg() != pk.Pkg || seen[n.Obj().Name()] {
			return
		}
		seen[n.Obj().Name()] = true
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := storeKey(n, f.Name())
			switch f.Type().String() {
			case "map[string]uint":
				t.slots = k
				t.all = append(t.all, k)
			case "[]helena/core.Value":
				t.values = k
				t.all = append(t.all, k)
			case "map[string]helena/core.Value":
				t.all = append(t.all, k)
			default:
				walk(f.Type(), d+1)
			}
		}
	}
	walk(o.Type(), 0)
	if t.slots == "" || t.values == "" || len(t.all) < 4 {
		return nil, "the tables of names of Scope are not told apart"
	}
	return t, ""
}

// Contents of a scope for a name
type nameState struct{ local, empty, constant, variable, invalid bool }

func (s nameState) String() string {
	var l []string
	switch {
	case s.invalid:
		return "not text"
	case s.empty:
		l = append(l, "an unset local")
	case s.local:
		l = append(l, "a local")
	}
	if s.constant {
		l = append(l, "a constant")
	}
	if s.variable {
		l = append(l, "a variable")
	}
	if len(l) == 0 {
		return "not defined"
	}
	return strings.Join(l, " and ")
}

var nameStates = func() []nameState {
	var out []nameState
	for _, l := range [][2]bool{{false, false}, {true, false}, {true, true}} {
		for _, v := range [][2]bool{{false, false}, {true, false}, {false, true}} {
			out = append(out, nameState{l[0], l[1], v[0], v[1], false})
		}
	}
	return append(out, nameState{invalid: true})
}()

func (t *scopeTables) world(s nameState) *aWorld {
	w := newWorld(map[string]bool{})
	for _, k := range t.all {
		w.stores[k] = false
	}
	w.stores[t.slots] = s.local
	w.stores[t.values] = s.local
	w.null[t.values] = s.empty
	w.invalid = s.invalid
	if t.constants != "" {
		w.stores[t.constants] = s.constant
	}
	if t.variables != "" {
		w.stores[t.variables] = s.variable
	}
	return w
}

type tableOutcome struct {
	res aRes
	eff []aEffect
}

// Evaluate a function in a state; arguments of type Value are arg1 (the name) and arg2
func (p *Program) inWorld(w *aWorld, fn *ssa.Function, args []aval) tableOutcome {
	e := newAeval(p)
	e.world = w
	e.sub = aName{}
	w.kinds[1] = p.valueKind("STRING")
	r := e.eval(fn, args, nil)
	o := tableOutcome{}
	if x, ok := r.(aRes); ok {
		o.res = x
	}
	o.eff = w.eff[fmt.Sprintf("%p|%s|%s", fn, aKey(aTuple(args)), aKey(aTuple(nil)))]
	return o
}

func (p *Program) valueKind(name string) int64 {
	if c, ok := p.core().Pkg.Scope().Lookup("ValueType_" + name).(*types.Const); ok {
		if n, ok := constant.Int64Val(c.Val()); ok {
			return n
		}
	}
	return -1
}

func (o tableOutcome) effects() string {
	m := map[string]bool{}
	for _, x := range o.eff {
		s := x.String()
		if !x.must {
			s = "maybe " + s
		}
		m[s] = true
	}
	return strings.Join(sortedKeys(m), "; ")
}

// Failure whatever the text, or the value of a success
func (o tableOutcome) outcome() string {
	m := map[string]bool{}
	for _, a := range o.res {
		switch a.codes {
		case codeERROR:
			m["error"] = true
		case codeOK:
			m["OK "+aKey(a.val)] = true
		default:
			m[codeSet(a.codes)] = true
		}
	}
	return strings.Join(sortedKeys(m), " or ")
}

func showOutcome(out, eff string, t *scopeTables) string {
	rep := strings.NewReplacer("arg2", "its value", "bound:"+t.values, "the local's value", "bound:"+t.constants, "the constant's value",
		"bound:"+t.variables, "the variable's value", "g:helena/core.NIL", "nil")
	s := rep.Replace(out)
	if eff == "" {
		return s + ", nothing changed"
	}
	return s + " with " + rep.Replace(eff)
}

// Command of the dialect registered under a name, told from methods of
// other commands by its usage
func (p *Program) builtin(name string) *unit {
	for _, u := range p.commandUnits() {
		if !contains(u.regs, name) || fnPkg(u.fn).Name() != "helena_dialect" {
			continue
		}
		e := newAeval(p)
		args := make([]aval, len(u.fn.Params))
		for i, pa := range u.fn.Params {
			args[i] = aTop{}
			if isValueSlice(pa.Type()) {
				args[i] = aSlice{aArg(0)}
			}
		}
		r, _ := e.eval(u.fn, args, nil).(aRes)
		for _, a := range r {
			if s, ok := a.val.(string); ok && strings.Contains(s, `"`+name+` `) {
				return u
			}
		}
	}
	return nil
}

func (p *Program) runBuiltin(u *unit, t *scopeTables, s nameState, k int) tableOutcome {
	frame := aSlice{}
	for i := 0; i < k; i++ {
		frame = append(frame, aArg(i))
	}
	args := make([]aval, len(u.fn.Params))
	for i, pa := range u.fn.Params {
		args[i] = aTop{}
		if isValueSlice(pa.Type()) {
			args[i] = frame
		}
	}
	return p.inWorld(t.world(s), u.fn, args)
}

// Table a command writes the value of an undefined name to
func writtenTable(o tableOutcome) string {
	out := ""
	for _, x := range o.eff {
		if x.key != "name" || strings.Contains(x.what, " ") || out != "" && out != x.what {
			return ""
		}
		out = x.what
	}
	return out
}

func nameRules(r *Report) {
	p := r.p
	p.secondPass = map[*ssa.Call]bool{}
	r.rule("names", "Commands on variables: the outcome of let, set, unset, get and exists on a name, for each combination of local (set or not), constant and variable of that name in the scope, is the specified one: result, and table written or left alone", 40)
	r.rule("writes", "Functions writing to the tables of names of scopes: no constant is written over a local, constant or variable, no variable over a local or constant, no local that isn't declared, and a function asked to check only writes nothing and fails whenever the write would be refused", 5)
	r.rule("checked", "Writes that don't check names by themselves, and writes of several names: done only once the same names have passed the checks, all of them", 3)
	r.rule("last", "Once a name is written, no failure can follow in the same function", 5)
	t, err := p.scopeTables()
	if err != "" {
		r.fail("names", nil, "tables", "", err)
		return
	}
	cmds := map[string]*unit{}
	for _, n := range []string{"let", "set", "unset", "get", "exists"} {
		u := p.builtin(n)
		if u == nil {
			r.fail("names", nil, n, "", "command "+n+" not found")
			return
		}
		cmds[n] = u
	}
	t.constants = writtenTable(p.runBuiltin(cmds["let"], t, nameState{}, 3))
	t.variables = writtenTable(p.runBuiltin(cmds["set"], t, nameState{}, 3))
	if t.constants == "" || t.variables == "" || t.constants == t.variables {
		for _, n := range []string{"let", "set"} {
			o := p.runBuiltin(cmds[n], t, nameState{}, 3)
			r.fail("names", cmds[n].fn, n, p.pos(cmds[n].fn), fmt.Sprintf("%s of a name not defined: %s", n, showOutcome(o.outcome(), o.effects(), t)))
		}
		return
	}
	value := func(s nameState) string {
		switch {
		case s.empty:
			return ""
		case s.local:
			return "bound:" + t.values
		case s.constant:
			return "bound:" + t.constants
		case s.variable:
			return "bound:" + t.variables
		}
		return ""
	}
	spec := map[string]func(s nameState, k int) (string, string){
		"let": func(s nameState, k int) (string, string) {
			if s.invalid {
				return "error", ""
			}
			if s.local || s.constant || s.variable {
				return "error", ""
			}
			return "OK arg2", t.constants + "[name]=arg2"
		},
		"set": func(s nameState, k int) (string, string) {
			if s.invalid {
				return "error", ""
			}
			if s.local || s.constant {
				return "error", ""
			}
			return "OK arg2", t.variables + "[name]=arg2"
		},
		"unset": func(s nameState, k int) (string, string) {
			if s.invalid {
				return "error", ""
			}
			if s.local || s.constant || !s.variable {
				return "error", ""
			}
			return "OK g:helena/core.NIL", "delete " + t.variables + "[name]"
		},
		"get": func(s nameState, k int) (string, string) {
			if s.invalid {
				return "error", ""
			}
			if v := value(s); v != "" {
				return "OK " + v, ""
			}
			if k == 3 {
				return "OK arg2", ""
			}
			return "error", ""
		},
		"exists": func(s nameState, k int) (string, string) {
			return fmt.Sprintf("OK %v", value(s) != ""), ""
		},
	}
	for _, n := range sortedKeys(cmds) {
		u := cmds[n]
		for k := 2; k <= 3; k++ {
			if (n == "let" || n == "set") && k == 2 || (n == "unset" || n == "exists") && k == 3 {
				continue
			}
			for _, s := range nameStates {
				o := p.runBuiltin(u, t, s, k)
				out, eff := spec[n](s, k)
				what := n
				if n == "get" && k == 3 {
					what = "get with a default"
				}
				if o.outcome() != out || o.effects() != eff {
					r.fail("names", u.fn, fmt.Sprintf("%s of %s", what, s), p.pos(u.fn), fmt.Sprintf("%s of a name that is %s: %s, should be %s", what, s, showOutcome(o.outcome(), o.effects(), t), showOutcome(out, eff, t)))
				} else {
					r.ok("names", u.fn, fmt.Sprintf("%s, %s: %s", what, s, showOutcome(out, eff, t)))
				}
			}
		}
	}
	writeRules(r, t)
}

// Function taking a name, and possibly told to check only
type nameWriter struct {
	fn       *ssa.Function
	boolIdx  int
	deferred bool // writes without checking by itself
}

// May an effect be made on a name in a state?
func (t *scopeTables) allowed(x aEffect, s nameState) bool {
	if s.invalid {
		return false
	}
	switch x.what {
	case t.constants:
		return !s.local && !s.constant && !s.variable
	case t.variables:
		return !s.local && !s.constant
	case "delete " + t.variables:
		return !s.local && !s.constant
	case t.values:
		return s.local
	}
	return false
}

func writeRules(r *Report, t *scopeTables) {
	p := r.p
	w := t.world(nameState{})
	d := newFlow(p)
	writers := map[*ssa.Function]*nameWriter{}
	raw := map[*ssa.Function]string{} // writing to a table the names they are given, whatever they are
	sites := map[*ssa.Function][]ssa.Instruction{}
	var work []*ssa.Function
	for _, fn := range p.funcs {
		for _, in := range tableWrites(fn) {
			k := p.writesStore(in, w)
			if k == "" || k == t.slots && isFieldStore(in) {
				continue
			}
			sites[fn] = append(sites[fn], in)
		}
		if len(sites[fn]) > 0 {
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if what := rawWriter(r, t, fn, sites[fn]); what != "" {
			raw[fn] = what
			for _, c := range p.callers[fn] {
				if c.Parent() != fn {
					work = append(work, c.Parent())
					sites[c.Parent()] = append(sites[c.Parent()], c)
				}
			}
			continue
		}
		if nw := writerRule(r, t, fn, sites[fn]); nw != nil {
			writers[fn] = nw
		}
		for _, in := range sites[fn] {
			if bad := failureAfter(d, fn, in); bad != nil {
				r.fail("last", fn, "write", p.instrPos(in), shortFn(fn)+" may fail after writing a name, at "+p.instrPos(bad))
			} else {
				r.ok("last", fn, shortFn(fn))
			}
			if inLoop(in.Block()) && !wholesale(in) {
				if why := checkedLoop(r, d, t, fn, in, raw); why != "" {
					r.fail("checked", fn, "write", p.instrPos(in), shortFn(fn)+" writes several names: "+why)
				} else {
					r.ok("checked", fn, shortFn(fn)+" writes in a loop")
				}
			}
		}
	}
	phaseRules(r, d, t, writers)
}

func isFieldStore(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	_, ok = s.Addr.(*ssa.FieldAddr)
	return ok
}

// Replacement or clearing of a table
func wholesale(in ssa.Instruction) bool {
	if isFieldStore(in) {
		return true
	}
	if c, ok := in.(*ssa.Call); ok {
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "clear"
	}
	return false
}

// Is the structure a field is stored in just created?
func freshStruct(in ssa.Instruction) bool {
	s := in.(*ssa.Store)
	fa := s.Addr.(*ssa.FieldAddr)
	v := fa.X
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Call:
			sc := x.Call.StaticCallee()
			if sc == nil {
				return false
			}
			for _, b := range sc.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if _, ok := rt.Results[0].(*ssa.Alloc); !ok {
						return false
					}
				}
			}
			return true
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			v = singleStore(al)
		default:
			return false
		}
	}
	return false
}

// Table a function that isn't told to check writes a name it is given to,
// without checking it: its callers answer for it
func rawWriter(r *Report, t *scopeTables, fn *ssa.Function, sites []ssa.Instruction) string {
	p := r.p
	if p.addrTaken[fn] || fn.Parent() != nil || len(p.callers[fn]) == 0 {
		return ""
	}
	args := make([]aval, len(fn.Params))
	names, vals := 0, 2
	for i, pa := range fn.Params {
		args[i] = aTop{}
		switch {
		case isString(pa.Type()):
			args[i] = aName{}
			names++
		case pa.Type().String() == "helena/core.Value":
			args[i] = aArg(vals)
			vals++
		case pa.Type().String() == "bool":
			return ""
		}
	}
	if names != 1 {
		return ""
	}
	what := ""
	for _, s := range nameStates {
		if s.invalid {
			continue
		}
		o := p.inWorld(t.world(s), fn, append([]aval{}, args...))
		if len(o.eff) != 1 || o.eff[0].key != "name" && o.eff[0].key != "slot:"+t.slots || !o.eff[0].must {
			return ""
		}
		what = o.eff[0].what
	}
	return what
}

// Check a function writing to tables in every state
func writerRule(r *Report, t *scopeTables, fn *ssa.Function, sites []ssa.Instruction) *nameWriter {
	p := r.p
	named := sites[:0:0]
	for _, in := range sites {
		k := p.writesStore(in, t.world(nameState{}))
		switch {
		case isFieldStore(in):
			if freshStruct(in) {
				r.ok("writes", fn, shortFn(fn)+" sets up a new scope")
			} else {
				r.fail("writes", fn, "replace "+k, p.instrPos(in), shortFn(fn)+" replaces the table "+k+" of an existing scope")
			}
		case wholesale(in):
			if k == t.values {
				r.ok("writes", fn, shortFn(fn)+" clears locals")
			} else {
				r.fail("writes", fn, "clear "+k, p.instrPos(in), shortFn(fn)+" clears the table "+k)
			}
		case inLoop(in.Block()):
			// see the rule on several names
		default:
			named = append(named, in)
		}
	}
	if len(named) == 0 {
		return nil
	}
	nw := &nameWriter{fn: fn, boolIdx: -1}
	args := make([]aval, len(fn.Params))
	nval, hasName := 1, false
	for _, pa := range fn.Params {
		if isString(pa.Type()) {
			hasName = true
		}
	}
	if hasName {
		nval = 2
	}
	strs := 0
	for i, pa := range fn.Params {
		args[i] = aTop{}
		switch {
		case isString(pa.Type()):
			if strs == 0 {
				args[i] = aName{}
			}
			strs++
		case pa.Type().String() == "helena/core.Value":
			args[i] = aArg(nval)
			nval++
		case pa.Type().String() == "bool":
			nw.boolIdx = i
		}
	}
	modes := []aval{nil}
	if nw.boolIdx >= 0 {
		modes = []aval{true, false}
	}
	table := ""
	for _, s := range nameStates {
		if nw.boolIdx >= 0 {
			args[nw.boolIdx] = false
		}
		for _, x := range p.inWorld(t.world(s), fn, append([]aval{}, args...)).eff {
			table = x.what
		}
	}
	for _, s := range nameStates {
		if s.invalid && hasName {
			continue
		}
		for _, m := range modes {
			if nw.boolIdx >= 0 {
				args[nw.boolIdx] = m
			}
			o := p.inWorld(t.world(s), fn, append([]aval{}, args...))
			label := shortFn(fn)
			bad := ""
			for _, x := range o.eff {
				if !t.allowed(x, s) || x.key != "name" && x.key != "slot:"+t.slots {
					bad = x.String()
				}
			}
			switch {
			case m == nil && bad != "":
				r.fail("writes", fn, "of "+s.String(), p.pos(fn), fmt.Sprintf("%s on a name that is %s: %s", label, s, showOutcome(o.outcome(), bad, t)))
			case (m == nil && table != "" && !t.allowed(aEffect{what: table}, s) || s.invalid) && o.outcome() != "error" && fn.Signature.Results().Len() == 1:
				r.fail("writes", fn, "of "+s.String(), p.pos(fn), fmt.Sprintf("%s on a name that is %s: %s, should fail", label, s, showOutcome(o.outcome(), o.effects(), t)))
			case m == aval(true):
				f := o
				args[nw.boolIdx] = false
				g := p.inWorld(t.world(s), fn, append([]aval{}, args...))
				wbad := false
				for _, x := range g.eff {
					if !t.allowed(x, s) {
						wbad = true
					}
				}
				refused := wbad || !strings.HasPrefix(g.outcome(), "OK") || strings.Contains(g.outcome(), " or ")
				switch {
				case len(f.eff) > 0:
					r.fail("writes", fn, "checking "+s.String(), p.pos(fn), fmt.Sprintf("%s writes while it is asked to check a name that is %s: %s", label, s, o.effects()))
				case refused && o.outcome() != "error":
					r.fail("writes", fn, "checking "+s.String(), p.pos(fn), fmt.Sprintf("%s accepts a name that is %s: %s, and then %s", label, s, o.outcome(), showOutcome(g.outcome(), g.effects(), t)))
				case !refused && o.outcome() == "error":
					r.fail("writes", fn, "checking "+s.String(), p.pos(fn), fmt.Sprintf("%s refuses a name that is %s", label, s))
				default:
					r.ok("writes", fn, fmt.Sprintf("%s checks a name that is %s: %s", label, s, o.outcome()))
				}
			case m == aval(false):
				if bad != "" {
					nw.deferred = true
				}
			default:
				r.ok("writes", fn, fmt.Sprintf("%s, %s: %s", label, s, showOutcome(o.outcome(), o.effects(), t)))
			}
		}
	}
	return nw
}

// Failure a function may return once it has written
func failureAfter(d *flow, fn *ssa.Function, in ssa.Instruction) ssa.Instruction {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || !d.isRes(rs.At(0).Type()) {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if st := d.before(fn, rt); st != nil && d.codeOf(rt.Results[0], st)&codeERROR != 0 {
				bad = rt
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if rt, ok := in.Block().Instrs[len(in.Block().Instrs)-1].(*ssa.Return); ok {
		if st := d.before(fn, rt); st != nil && d.codeOf(rt.Results[0], st)&codeERROR != 0 {
			return rt
		}
	}
	for _, s := range in.Block().Succs {
		walk(s)
	}
	return bad
}

// Loop over all the elements of a slice or map
type fullLoop struct {
	header, exit *ssa.BasicBlock
	latches      []*ssa.BasicBlock
	blocks       map[*ssa.BasicBlock]bool
	idx          ssa.Value
	over         ssa.Value
}

func loopsOf(fn *ssa.Function) []*fullLoop {
	byHeader := map[*ssa.BasicBlock]*fullLoop{}
	var out []*fullLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHeader[s]
			if l == nil {
				l = &fullLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHeader[s] = l
				out = append(out, l)
			}
			l.latches = append(l.latches, b)
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, q := range x.Preds {
					add(q)
				}
			}
			add(b)
		}
	}
	for _, l := range out {
		l.traversal()
	}
	return out
}

// Recognise traversals from the condition in the header of a loop
func (l *fullLoop) traversal() {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return
	}
	switch c := br.Cond.(type) {
	case *ssa.Extract:
		if n, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && n.Block() == l.header {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				l.idx, l.over, l.exit = n, rg.X, l.header.Succs[1]
			}
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		switch c.Op {
		case token.LSS, token.NEQ:
		case token.GTR:
			x, y = y, x
		default:
			return
		}
		ln, ok := y.(*ssa.Call)
		if !ok {
			return
		}
		if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return
		}
		// counter from 0 (or from -1, incremented first), by 1
		phi, _ := x.(*ssa.Phi)
		start := int64(0)
		if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && isInt(add.Y, 1) {
			phi, _ = add.X.(*ssa.Phi)
			start = -1
		}
		if phi == nil || phi.Block() != l.header {
			return
		}
		for i, e := range phi.Edges {
			if l.blocks[l.header.Preds[i]] {
				add, ok := e.(*ssa.BinOp)
				if !ok || add.Op != token.ADD || !(add.X == phi && isInt(add.Y, 1) || add.Y == phi && isInt(add.X, 1)) {
					return
				}
			} else if !isInt(e, start) {
				return
			}
		}
		l.idx, l.over, l.exit = x, ln.Call.Args[0], l.header.Succs[1]
	}
}

func isInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == n
}

func inLoop(b *ssa.BasicBlock) bool {
	for _, l := range loopsOf(b.Parent()) {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

// Paths of values where indexes of full traversals are alike, and parameters
// stand for the arguments of a call
func loopPath(d *flow, loops []*fullLoop, v ssa.Value) string { return boundPath(d, loops, v, nil) }

func boundPath(d *flow, loops []*fullLoop, v ssa.Value, params map[ssa.Value]string) string {
	var path func(v ssa.Value) string
	path = func(v ssa.Value) string {
		for _, l := range loops {
			if l.idx == v {
				return "each(" + path(l.over) + ")"
			}
		}
		if s, ok := params[v]; ok {
			return s
		}
		switch x := v.(type) {
		case *ssa.Extract:
			if n, ok := x.Tuple.(*ssa.Next); ok {
				for _, l := range loops {
					if l.idx == n {
						return fmt.Sprintf("each%d(%s)", x.Index, path(l.over))
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.IndexAddr:
					return path(a.X) + "[" + path(a.Index) + "]"
				case *ssa.FieldAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						if s := singleStore(al); s != nil {
							return path(s) + comp(a.X.Type(), a.Field)
						}
					}
				case *ssa.Alloc:
					if s := singleStore(a); s != nil {
						return path(s)
					}
				}
			}
		case *ssa.TypeAssert:
			return path(x.X)
		case *ssa.MakeInterface:
			return path(x.X)
		case *ssa.ChangeInterface:
			return path(x.X)
		case *ssa.Field:
			return path(x.X) + comp(x.X.Type(), x.Field)
		case *ssa.Lookup:
			return path(x.X) + "[" + path(x.Index) + "]"
		}
		return d.path(v)
	}
	return path(v)
}

// Condition as an equality where it can be, and whether it is negated
func condPath(d *flow, loops []*fullLoop, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s, n := condPath(d, loops, x.X)
			return s, !n
		}
	case *ssa.BinOp:
		op, neg := x.Op, false
		if op == token.NEQ {
			op, neg = token.EQL, true
		}
		return "(" + loopPath(d, loops, x.X) + op.String() + loopPath(d, loops, x.Y) + ")", neg
	}
	return loopPath(d, loops, v), false
}

// Do all the iterations of a loop go through the success of a call, but
// those skipped on conditions that skip the other instruction too?
func (l *fullLoop) allPass(d *flow, loops []*fullLoop, c *ssa.Call, other ssa.Instruction) bool {
	fn := c.Parent()
	// blocks from which the call can still be reached in the iteration
	reach := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if reach[b] || !l.blocks[b] {
			return
		}
		reach[b] = true
		if b == l.header {
			return
		}
		for _, q := range b.Preds {
			back(q)
		}
	}
	back(c.Block())
	for b := range reach {
		if b == c.Block() || b == l.header {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range b.Succs {
			if reach[s] && s != l.header || !l.leadsBack(s) {
				continue
			}
			if !skippedToo(d, loops, br.Cond, i, other) {
				return false
			}
		}
	}
	// given up only with a failure
	if rs := fn.Signature.Results(); rs.Len() > 0 && d.isRes(rs.At(0).Type()) {
		for b := range l.blocks {
			for _, s := range b.Succs {
				if l.blocks[s] || b == l.header {
					continue
				}
				rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
				if !ok {
					return false
				}
				if st := d.before(fn, rt); st != nil && d.codeOf(rt.Results[0], st)&codeOK != 0 {
					return false
				}
			}
		}
	}
	// after the call, only success goes on
	for _, la := range l.latches {
		if !c.Block().Dominates(la) {
			if reach[la] {
				continue
			}
			if !l.mayFollow(c.Block(), la) {
				continue
			}
		}
		st := d.states(fn)[la]
		if st == nil {
			continue
		}
		end := d.transferBlock(fn, la, st.clone(), nil)
		ok := true
		for i, s := range la.Succs {
			if s == l.header {
				if es := d.edge(fn, la, i, end.clone()); es != nil && d.codeOf(c, es) != codeOK {
					ok = false
				}
			}
		}
		if !ok {
			// the latch may also be the target of skipped iterations
			if c.Block().Dominates(la) || !l.onlyOKFollows(d, c, la) {
				return false
			}
		}
	}
	return true
}

// Can an iteration be completed from a block?
func (l *fullLoop) leadsBack(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == l.header {
			return true
		}
		if seen[x] || !l.blocks[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

func (l *fullLoop) mayFollow(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{l.header: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == to {
			return true
		}
		if seen[x] || !l.blocks[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range from.Succs {
		if walk(s) {
			return true
		}
	}
	return from == to
}

// Is every edge from the part of an iteration after a call to the block where
// it joins skipped iterations taken on success?
func (l *fullLoop) onlyOKFollows(d *flow, c *ssa.Call, la *ssa.BasicBlock) bool {
	fn := c.Parent()
	after := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		if c.Block().Dominates(b) {
			after[b] = true
		}
	}
	for b := range after {
		st := d.states(fn)[b]
		if st == nil {
			continue
		}
		end := d.transferBlock(fn, b, st.clone(), nil)
		for i, s := range b.Succs {
			if after[s] && s != l.header || !l.leadsBack(s) {
				continue
			}
			if es := d.edge(fn, b, i, end.clone()); es != nil && d.codeOf(c, es) != codeOK {
				return false
			}
		}
	}
	return true
}

// Is an instruction excluded by the outcome i of a condition?
func skippedToo(d *flow, loops []*fullLoop, cond ssa.Value, i int, in ssa.Instruction) bool {
	if in == nil {
		return false
	}
	want, neg := condPath(d, loops, cond)
	for _, b := range in.Parent().Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, n := condPath(d, loops, br.Cond)
		if c != want {
			continue
		}
		other := 1 - i
		if n != neg {
			other = i
		}
		if s := b.Succs[other]; len(s.Preds) == 1 && s.Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// Does a function fail in every state where a write would be refused?
func (r *Report) refuses(t *scopeTables, fn *ssa.Function, what string) bool {
	if fn == nil || !r.p.inModule[fn] || fn.Signature.Results().Len() != 1 {
		return false
	}
	args := make([]aval, len(fn.Params))
	n := 0
	for i, pa := range fn.Params {
		args[i] = aTop{}
		if isString(pa.Type()) {
			args[i] = aName{}
			n++
		}
	}
	if n != 1 {
		return false
	}
	for _, s := range nameStates {
		if s.invalid || t.allowed(aEffect{what: what}, s) {
			continue
		}
		if o := r.p.inWorld(t.world(s), fn, append([]aval{}, args...)); o.outcome() != "error" || len(o.eff) > 0 {
			return false
		}
	}
	return true
}

// Is a write in a loop done after a loop checking the same names?
func checkedLoop(r *Report, d *flow, t *scopeTables, fn *ssa.Function, in ssa.Instruction, raw map[*ssa.Function]string) string {
	loops := loopsOf(fn)
	var key ssa.Value
	what := r.p.writesStore(in, t.world(nameState{}))
	switch x := in.(type) {
	case *ssa.MapUpdate:
		key = x.Key
	case *ssa.Call:
		if sc := x.Call.StaticCallee(); sc != nil {
			what = raw[sc]
			for _, a := range x.Call.Args {
				if isString(a.Type()) {
					key = a
				}
			}
			break
		}
		key = x.Call.Args[1]
		what = "delete " + what
	}
	if key == nil {
		return "the element written is not told"
	}
	k := loopPath(d, loops, key)
	if !strings.HasPrefix(k, "each") {
		return "the names written are not those of a traversal"
	}
	for _, l := range loops {
		if l.idx == nil {
			continue
		}
		for b := range l.blocks {
			for _, x := range b.Instrs {
				c, ok := x.(*ssa.Call)
				if !ok || !r.refuses(t, c.Call.StaticCallee(), what) {
					continue
				}
				same := false
				for _, a := range c.Call.Args {
					if isString(a.Type()) && loopPath(d, loops, a) == k {
						same = true
					}
				}
				if same && !l.blocks[in.Block()] && onlyFrom(l) && l.exit.Dominates(in.Block()) && l.allPass(d, loops, c, in) {
					return ""
				}
			}
		}
	}
	return "they are not all checked before"
}

// Is the exit of a loop reached from its header only?
func onlyFrom(l *fullLoop) bool {
	for _, q := range l.exit.Preds {
		if q != l.header {
			return false
		}
	}
	return true
}

// Writes in two phases
func phaseRules(r *Report, d *flow, t *scopeTables, writers map[*ssa.Function]*nameWriter) {
	p := r.p
	// functions told to check or write by a parameter
	phased := map[*ssa.Function]int{}
	deferred := map[*ssa.Function]bool{}
	for fn, w := range writers {
		if w.boolIdx >= 0 {
			phased[fn] = w.boolIdx
			deferred[fn] = w.deferred
		}
	}
	sigs := map[string]int{} // function values
	target := func(c ssa.CallInstruction) (int, bool, bool) {
		cc := c.Common()
		if sc := cc.StaticCallee(); sc != nil {
			i, ok := phased[sc]
			return i, ok, deferred[sc]
		}
		if cc.IsInvoke() {
			return 0, false, false
		}
		i, ok := sigs[cc.Value.Type().Underlying().String()]
		return i, ok, ok
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					i, ok, def := target(c)
					if !ok {
						continue
					}
					pa, ok := c.Call.Args[i].(*ssa.Parameter)
					if !ok {
						continue
					}
					if _, ok := phased[fn]; !ok || def && !deferred[fn] && !inLoop(c.Block()) {
						phased[fn] = paramIndex(fn, pa)
						deferred[fn] = def
						changed = true
					}
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					m := boundMethod(mc.Fn.(*ssa.Function))
					i, ok := phased[m]
					if m == nil || !ok {
						continue
					}
					k := mc.Fn.(*ssa.Function).Signature.String()
					if _, ok := sigs[k]; !ok {
						sigs[k] = i - 1
						changed = true
					}
				}
			}
			if i, ok := phased[fn]; ok && fn.Parent() != nil {
				k := fn.Signature.String()
				if _, ok := sigs[k]; !ok {
					sigs[k] = i
					changed = true
				}
			}
		}
	}
	// writing calls, and functions making them without a check of their own
	sitesOf := func(fn *ssa.Function, phase func(v ssa.Value) bool) []phaseCall {
		var out []phaseCall
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if i, ok, _ := target(c); ok && phase(c.Call.Args[i]) {
						out = append(out, phaseCall{c, i})
					}
				}
			}
		}
		return out
	}
	isTrue := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == "true"
	}
	writing := func(fn *ssa.Function) []phaseCall {
		var out []phaseCall
		for _, s := range sitesOf(fn, func(v ssa.Value) bool {
			_, own := v.(*ssa.Parameter)
			return !own && !isTrue(v)
		}) {
			_, _, def := target(s.c)
			if def || inLoop(s.c.Block()) {
				out = append(out, s)
			}
		}
		return out
	}
	argPaths := func(loops []*fullLoop, c *ssa.Call, skip int) string {
		s := ""
		for i, a := range c.Call.Args {
			if i != skip {
				s += loopPath(d, loops, a) + ","
			}
		}
		return s
	}
	calleeOf := func(loops []*fullLoop, c *ssa.Call, params map[ssa.Value]string) string {
		if f := c.Call.StaticCallee(); f != nil {
			return "call of " + f.String() + " "
		}
		return "call of value " + boundPath(d, loops, c.Call.Value, params) + " "
	}
	sitePath := func(s phaseCall, params map[ssa.Value]string) string {
		loops := loopsOf(s.c.Parent())
		t := calleeOf(loops, s.c, params)
		for i, a := range s.c.Call.Args {
			if i != s.skip {
				t += boundPath(d, loops, a, params) + ","
			}
		}
		return t
	}
	bind := func(c ssa.CallInstruction) map[ssa.Value]string {
		m := map[ssa.Value]string{}
		f := c.Common().StaticCallee()
		loops := loopsOf(c.Parent())
		for i, a := range c.Common().Args {
			if i < len(f.Params) {
				m[f.Params[i]] = boundPath(d, loops, a, nil)
			}
		}
		return m
	}
	// what is known to have been checked before an instruction
	guarded := func(at ssa.Instruction, want string) bool {
		fn := at.Parent()
		loops := loopsOf(fn)
		st := d.before(fn, at)
		if st == nil {
			return true
		}
		for _, c := range sitesOf(fn, isTrue) {
			if sitePath(c, nil) != want {
				continue
			}
			if c.c.Block().Dominates(at.Block()) && d.codeOf(c.c, st) == codeOK {
				return true
			}
			for _, l := range loops {
				if l.idx != nil && l.blocks[c.c.Block()] && !l.blocks[at.Block()] && onlyFrom(l) && l.exit.Dominates(at.Block()) && l.allPass(d, loops, c.c, at) {
					return true
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !b.Dominates(at.Block()) || c == at {
					continue
				}
				k := c.Call.StaticCallee()
				if k == nil || k == fn || !p.inModule[k] || !d.isRes(c.Type()) || d.codeOf(c, st) != codeOK {
					continue
				}
				for _, x := range sitesOf(k, isTrue) {
					if sitePath(x, bind(c)) == want && successesFrom(d, k, map[*ssa.Call]bool{x.c: true}) {
						return true
					}
				}
			}
		}
		return false
	}
	unguarded := map[*ssa.Function][]phaseCall{}
	for _, fn := range p.funcs {
		for _, s := range writing(fn) {
			if guarded(s.c, sitePath(s, nil)) {
				p.secondPass[s.c] = true
				r.ok("checked", fn, fmt.Sprintf("%s: %s", shortFn(fn), p.instrPos(s.c)))
			} else {
				unguarded[fn] = append(unguarded[fn], s)
			}
		}
	}
	// functions writing without checks: their callers check
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if len(unguarded[fn]) > 0 {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		ws := unguarded[fn]
		if p.addrTaken[fn] || fn.Parent() != nil || len(p.callers[fn]) == 0 {
			for _, s := range ws {
				r.fail("checked", fn, "write", p.instrPos(s.c), shortFn(fn)+" writes names without checking them first")
			}
			continue
		}
		for _, cs := range p.callers[fn] {
			caller := cs.Parent()
			if caller == fn {
				continue
			}
			done := true
			for _, s := range ws {
				done = done && guarded(cs, sitePath(s, bind(cs)))
			}
			if c, ok := cs.(*ssa.Call); ok && !done {
				st := d.before(caller, c)
				for _, k := range checkersFor(d, fn, caller) {
					if st == nil || !k.Block().Dominates(c.Block()) || d.codeOf(k, st) != codeOK {
						continue
					}
					loops := loopsOf(caller)
					if argPaths(loops, k, -1) == argPaths(loops, c, -1) && covers(d, k.Call.StaticCallee(), fn, sitesOf(k.Call.StaticCallee(), isTrue), ws, argPaths) {
						done = true
					}
				}
			}
			for _, s := range ws {
				if _, known := p.secondPass[s.c]; !known || !done {
					p.secondPass[s.c] = done
				}
			}
			if done {
				r.ok("checked", caller, fmt.Sprintf("%s checks, then calls %s", shortFn(caller), shortFn(fn)))
			} else {
				r.fail("checked", caller, "call of "+shortFn(fn), p.instrPos(cs), fmt.Sprintf("%s calls %s, which writes names that have not been checked first", shortFn(caller), shortFn(fn)))
			}
		}
	}
}

// Calls, in a caller, of functions with the same parameters that return a result
func checkersFor(d *flow, fn, caller *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, b := range caller.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			k := c.Call.StaticCallee()
			if k == nil || k == fn || !d.p.inModule[k] || len(k.Params) != len(fn.Params) || !d.isRes(c.Type()) {
				continue
			}
			out = append(out, c)
		}
	}
	return out
}

// Call of a function told to check or write, with the index of that argument
type phaseCall struct {
	c    *ssa.Call
	skip int
}

// Does the success of k mean that all that fn writes was checked?
func covers(d *flow, k, fn *ssa.Function, checks, writes []phaseCall, argPaths func(loops []*fullLoop, c *ssa.Call, skip int) string) bool {
	recursive := func(f *ssa.Function) []phaseCall {
		var out []phaseCall
		for _, c := range d.p.callers[f] {
			if x, ok := c.(*ssa.Call); ok && c.Parent() == f {
				out = append(out, phaseCall{x, -1})
			}
		}
		return out
	}
	kl, fl := loopsOf(k), loopsOf(fn)
	used := map[*ssa.Call]bool{}
	match := func(as, cs []phaseCall) bool {
		for _, a := range as {
			found := false
			for _, c := range cs {
				if argPaths(kl, c.c, c.skip) == argPaths(fl, a.c, a.skip) && inLoop(c.c.Block()) == inLoop(a.c.Block()) {
					found = true
					used[c.c] = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	if len(writes) == 0 || !match(writes, checks) || !match(recursive(fn), recursive(k)) {
		return false
	}
	return successesFrom(d, k, used)
}

// Does a function succeed only if given calls have?
func successesFrom(d *flow, k *ssa.Function, used map[*ssa.Call]bool) bool {
	kl := loopsOf(k)
	for _, b := range k.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		st := d.before(k, rt)
		if st == nil || d.codeOf(rt.Results[0], st)&codeOK == 0 {
			continue
		}
		fine := false
		for c := range used {
			if !inLoop(c.Block()) && d.path(rt.Results[0]) == d.path(c) {
				fine = true
			}
			if !inLoop(c.Block()) && c.Block().Dominates(b) && d.codeOf(c, st) == codeOK {
				fine = true
			}
			for _, l := range kl {
				if l.idx != nil && l.blocks[c.Block()] && onlyFrom(l) && l.exit.Dominates(b) && l.allPass(d, kl, c, nil) {
					fine = true
				}
			}
		}
		if !fine {
			return false
		}
	}
	return true
}

// Is a call the second pass of a check-then-write, whose failures show in the first?
func (p *Program) isSecondPass(c ssa.Instruction) bool {
	if p.secondPass == nil {
		nameRules(newReport("C13", p))
	}
	x, ok := c.(*ssa.Call)
	return ok && p.secondPass[x]
}

func init() {
	checks["C13"] = func(r *Report, thorough bool) { nameRules(r) }
}
