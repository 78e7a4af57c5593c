package main

// C17: programs emitted by the compiler

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	manyValues = 9 // any number
	exactLimit = 4 // larger numbers are not told apart
)

// Numbers of values on a frame
type depth struct{ lo, hi int }

func (d depth) add(lo, hi int) depth {
	n := depth{d.lo + lo, d.hi + hi}
	if d.hi == manyValues || hi >= manyValues {
		n.hi = manyValues
	}
	if n.hi > exactLimit {
		n.hi = manyValues
	}
	if n.lo > exactLimit {
		n.lo = exactLimit
	}
	if n.lo < -exactLimit {
		n.lo = -exactLimit
	}
	if n.hi < -exactLimit {
		n.hi = -exactLimit
	}
	return n
}
func (d depth) String() string {
	if d.hi == manyValues {
		return fmt.Sprintf("%d or more", d.lo)
	}
	if d.lo == d.hi {
		return strconv.Itoa(d.lo)
	}
	return fmt.Sprintf("%d to %d", d.lo, d.hi)
}

// Evaluation frames of the program emitted so far
type opState struct {
	frames []depth
	need   int  // values needed from the caller
	closed bool // a frame was just closed
}

func (s opState) String() string {
	return fmt.Sprintf("%v/%d/%v", s.frames, s.need, s.closed)
}

func (s opState) clone() opState {
	s.frames = append([]depth{}, s.frames...)
	return s
}

// Consume values of the current frame
func (s *opState) take(n int, exact bool) string {
	t := s.frames[len(s.frames)-1]
	if t.lo >= n {
		return ""
	}
	if len(s.frames) > 1 || exact {
		return fmt.Sprintf("%d values are needed but the frame may hold only %d", n, t.lo)
	}
	if n-t.lo > s.need {
		s.need = n - t.lo
	}
	if s.need > exactLimit {
		return "too many values are needed"
	}
	return ""
}

// Apply an opcode, returning what is wrong
func (s *opState) apply(l []opEffect, exact bool) string {
	if len(l) == 0 {
		return "is not executed"
	}
	e := l[0]
	lo, hi, need := e.net, e.net, 0
	for _, v := range l {
		lo, hi = min(lo, v.net), max(hi, v.net)
		need = max(need, v.need)
		if v.plus {
			hi = manyValues
		}
	}
	if e.use != s.closed {
		if e.use {
			return "uses the values of a frame but no frame was just closed"
		}
		return "the values of the frame just closed are lost"
	}
	s.closed = false
	if e.open > 0 {
		s.frames = append(s.frames, depth{})
		return ""
	}
	if e.open < 0 {
		if len(s.frames) < 2 {
			return "closes a frame that was not opened"
		}
		s.frames = s.frames[:len(s.frames)-1]
		s.closed = true
		return ""
	}
	if m := s.take(need, exact); m != "" {
		return m
	}
	i := len(s.frames) - 1
	s.frames[i] = s.frames[i].add(lo, hi)
	return ""
}

type emission struct {
	d       depth
	need    int
	closed  bool
	emitted bool
}

func (e emission) String() string {
	if !e.emitted {
		return "nothing"
	}
	t := e.d.String() + " values"
	if e.d.lo < 0 {
		t = fmt.Sprintf("%d to %d values less", -e.d.hi, -e.d.lo)
		if e.d.hi == manyValues {
			t = "any number of values"
		}
	}
	if e.need > 0 {
		t += fmt.Sprintf(", given %d", e.need)
	}
	if e.closed {
		t += ", and a closed frame"
	}
	return t
}

type emitSummary struct {
	fn    *ssa.Function
	args  map[int]*ssa.Const
	exits map[emission]bool
}

type emitter struct {
	m         *machine
	r         *Report
	emits     map[*ssa.Function]bool
	roots     []*ssa.Function
	recursive map[*ssa.Function]bool
	sums      map[string]*emitSummary
	states    map[string]opState
	report    bool
	changed   bool
	bad       map[string]bool
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

func (e *emitter) takesProgram(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isPtrTo(p.Type(), e.m.program) {
			return true
		}
	}
	return false
}
func (e *emitter) givesProgram(f *ssa.Function) bool {
	l := f.Signature.Results()
	for i := 0; i < l.Len(); i++ {
		if isPtrTo(l.At(i).Type(), e.m.program) {
			return true
		}
	}
	return false
}
func (e *emitter) isRoot(f *ssa.Function) bool {
	return e.givesProgram(f) && !e.takesProgram(f) && f.Parent() == nil
}

// Field of a program that is appended to, with the values
func (e *emitter) append(in ssa.Instruction) (string, *ssa.Call) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return "", nil
	}
	role := e.m.progAddr(s.Addr)
	if role == "" || !isAppend(s.Val) {
		return "", nil
	}
	return role, s.Val.(*ssa.Call)
}

func (e *emitter) callees(f *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil {
					l = append(l, g)
				}
				for _, a := range x.Common().Args {
					if g, ok := a.(*ssa.Function); ok {
						l = append(l, g)
					}
				}
			case *ssa.MakeClosure:
				l = append(l, x.Fn.(*ssa.Function))
			}
		}
	}
	return l
}

func (m *machine) emitter(r *Report) *emitter {
	e := &emitter{m: m, r: r, emits: map[*ssa.Function]bool{}, recursive: map[*ssa.Function]bool{}, sums: map[string]*emitSummary{}, states: map[string]opState{}, bad: map[string]bool{}}
	for _, fn := range m.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if role, _ := e.append(in); role != "" {
					e.emits[fn] = true
				}
			}
		}
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range m.p.funcs {
		calls[fn] = e.callees(fn)
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range m.p.funcs {
			if e.emits[fn] {
				continue
			}
			for _, g := range calls[fn] {
				if e.emits[g] && !e.isRoot(g) {
					e.emits[fn] = true
					changed = true
					break
				}
			}
		}
	}
	for _, fn := range m.p.funcs {
		if !e.emits[fn] {
			continue
		}
		if e.isRoot(fn) {
			e.roots = append(e.roots, fn)
		}
		// Does it reach itself?
		done := map[*ssa.Function]bool{}
		var reach func(f *ssa.Function)
		reach = func(f *ssa.Function) {
			for _, g := range calls[f] {
				if e.emits[g] && !done[g] {
					done[g] = true
					reach(g)
				}
			}
		}
		reach(fn)
		if done[fn] && fn.Parent() == nil {
			e.recursive[fn] = true
		}
	}
	return e
}

func (e *emitter) state(st *xstate) opState { return e.states[st.facts["ops"]].clone() }
func (e *emitter) set(st *xstate, s opState) {
	k := s.String()
	if _, ok := e.states[k]; !ok {
		e.states[k] = s.clone()
	}
	st.facts["ops"] = k
}

func (e *emitter) fail(st *xstate, in ssa.Instruction, what string) {
	st.halt = true
	if !e.report {
		return
	}
	fn := in.Parent()
	e.bad[shortFn(fn)] = true
	e.r.fail("emission", fn, shortFn(fn)+" "+what, e.m.p.instrPos(in), shortFn(fn)+": "+what)
}

func (e *emitter) lost(st *xstate, in ssa.Instruction, why string) {
	st.halt = true
	if e.report {
		e.r.excluded("emission", in.Parent(), shortFn(in.Parent()), why)
	}
}

// Values of a list of variadic arguments or of a table, in order
func listValues(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.IsNil() {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	l := make([]ssa.Value, arr.Len())
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, w := range *ia.Referrers() {
			if sto, ok := w.(*ssa.Store); ok && sto.Addr == ssa.Value(ia) {
				if l[k.Int64()] != nil {
					return nil, false
				}
				l[k.Int64()] = sto.Val
			}
		}
	}
	return l, true
}

// Explore a function, adding its exits
func (e *emitter) run(fn *ssa.Function, args map[int]*ssa.Const, root bool, exits map[emission]bool) {
	p := e.m.p
	x := newExplorer(p)
	x.purge, x.lists = true, true
	x.enter = func(f *ssa.Function) bool {
		if fnPkg(f) != e.m.op.Obj().Pkg() {
			return false
		}
		if e.recursive[f] {
			// Functions given as arguments are not part of summaries
			for _, pa := range f.Params {
				if _, ok := pa.Type().Underlying().(*types.Signature); ok {
					return true
				}
			}
			return false
		}
		if e.emits[f] || e.givesProgram(f) || e.takesProgram(f) {
			return true
		}
		for _, pa := range f.Params {
			if _, ok := pa.Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		return types.Identical(f.Signature.Results(), types.NewTuple()) == false && e.givesOpcode(f)
	}
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return true
		}
		k, isK := bo.Y.(*ssa.Const)
		if isK && k.IsNil() && e.m.progField(bo.X) == "positions" {
			v := "no"
			if (bo.Op == token.NEQ) == truth {
				v = "yes"
			}
			if was := st.facts["capture"]; was != "" {
				return was == v
			}
			st.facts["capture"] = v
			if v == "no" {
				if fint(st, "positions") > 0 {
					return false
				}
				delete(st.facts, "positions")
			}
		}
		return true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		sto, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		role := e.m.progAddr(sto.Addr)
		if role == "" {
			return
		}
		_, c := e.append(in)
		if c == nil {
			a := x.resolve(st, ref{sto.Addr.(*ssa.FieldAddr).X, fr})
			if _, fresh := a.v.(*ssa.Alloc); !fresh || st.facts["emitted"] != "" {
				e.lost(st, in, "the list of "+role+" is replaced")
			}
			return
		}
		if len(c.Call.Args) < 2 {
			return
		}
		list, ok := listValues(x.resolve(st, ref{c.Call.Args[1], fr}).v)
		lfr := x.resolve(st, ref{c.Call.Args[1], fr}).fr
		if !ok {
			e.lost(st, in, "number of "+role+" added")
			return
		}
		switch role {
		case "positions":
			if st.facts["capture"] == "no" {
				e.fail(st, in, "positions are added to a program that does not capture them")
				return
			}
			fadd(st, "positions", len(list))
		case "constants":
			fadd(st, "constants", len(list))
		case "opcodes":
			st.facts["emitted"] = "1"
			s := e.state(st)
			for _, v := range list {
				k, ok := x.resolve(st, ref{v, lfr}).v.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					e.lost(st, in, "opcode known at run time only")
					return
				}
				name := e.m.names[k.Int64()]
				if name == "" {
					e.fail(st, in, "undefined opcode "+k.Value.String())
					return
				}
				if msg := s.apply(e.m.effects[k.Int64()], root); msg != "" {
					// The construct that emits it
					at := in
					for q := fr; q.parent != nil && !e.recursive[q.fn] && q.fn != fn && q.fn.Parent() == nil; q = q.parent {
						at = q.site
					}
					e.fail(st, at, "emits "+name+": "+msg)
					return
				}
				fadd(st, "constants", -e.m.effects[k.Int64()][0].consts)
				fadd(st, "positions", -1)
			}
			e.set(st, s)
		}
		for _, k := range []string{"constants", "positions"} {
			if n := fint(st, k); n > exactLimit || n < -exactLimit {
				if k == "constants" || st.facts["capture"] == "yes" {
					e.fail(st, in, "opcodes and "+k+" are not paired")
					return
				}
				st.facts[k] = strconv.Itoa(-exactLimit)
			}
		}
		for _, k := range []string{"constants", "positions"} {
			if fint(st, k) == 0 || k == "positions" && st.facts["capture"] == "no" {
				delete(st.facts, k)
			}
		}
	}
	x.model = func(x *explorer, st *xstate, fr *xframe, c *ssa.Call) ([]*xstate, bool) {
		f := c.Call.StaticCallee()
		if f == nil {
			if _, b := c.Call.Value.(*ssa.Builtin); b {
				return nil, false
			}
		}
		if f == nil || !e.recursive[f] {
			if f != nil && !e.emits[f] {
				return nil, false
			}
			for _, a := range c.Call.Args {
				if isPtrTo(a.Type(), e.m.program) {
					e.lost(st, c, "call to a function known at run time only")
					return nil, true
				}
			}
			if f != nil || !c.Call.IsInvoke() {
				if f == nil && c.Call.Signature().Results().Len() > 0 {
					return nil, false
				}
				e.lost(st, c, "call to a function known at run time only")
				return nil, true
			}
			return nil, false
		}
		args := map[int]*ssa.Const{}
		key := f.String()
		for i, a := range c.Call.Args {
			k, ok := x.resolve(st, ref{a, fr}).v.(*ssa.Const)
			if !ok || k.Value == nil || i >= len(f.Params) {
				continue
			}
			if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				args[i] = k
				key += fmt.Sprintf("/%d=%s", i, k.Value)
			}
		}
		sum := e.sums[key]
		if sum == nil {
			sum = &emitSummary{f, args, map[emission]bool{}}
			e.sums[key] = sum
			e.changed = true
		}
		if fint(st, "constants") != 0 {
			e.fail(st, c, "the constant of the last opcode comes after those of "+f.Name())
			return nil, true
		}
		var out []*xstate
		for _, ex := range sortedExits(sum.exits) {
			n := st.clone()
			if ex.emitted {
				n.facts["emitted"] = "1"
				s := e.state(n)
				if s.closed {
					e.fail(st, c, "calls "+f.Name()+": the values of the frame just closed are lost")
					return nil, true
				}
				if msg := s.take(ex.need, root); msg != "" {
					e.fail(st, c, "calls "+f.Name()+": "+msg)
					return nil, true
				}
				i := len(s.frames) - 1
				s.frames[i] = s.frames[i].add(ex.d.lo, ex.d.hi)
				s.closed = ex.closed
				e.set(n, s)
			}
			out = append(out, n)
		}
		return out, true
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, _ []ref) {
		s := e.state(st)
		if len(s.frames) > 1 {
			e.fail(st, in, "a frame is left open")
			return
		}
		if n := fint(st, "constants"); n != 0 {
			what := "a constant is added that no opcode uses"
			if n < 0 {
				what = "an opcode is emitted without its constant"
			}
			e.fail(st, in, what)
			return
		}
		if fint(st, "positions") != 0 {
			e.fail(st, in, "opcodes and positions are not aligned")
			return
		}
		if root && s.closed {
			e.fail(st, in, "the values of the last frame are lost")
			return
		}
		ex := emission{s.frames[0], s.need, s.closed, st.facts["emitted"] != ""}
		if exits[ex] {
			return
		}
		if root && ex.emitted {
			if msg := e.wrongCount(fn, ex.d); msg != "" {
				e.fail(st, in, msg)
			}
		}
		exits[ex] = true
		e.changed = true
	}
	st := newXstate()
	e.set(st, opState{frames: []depth{{}}})
	fr := x.frame(fn, nil, nil)
	for i, k := range args {
		st.vals[x.id(ref{fn.Params[i], fr})] = ref{k, nil}
	}
	if !x.tryRun(fn, st) && e.report {
		e.r.excluded("emission", fn, shortFn(fn), "too many paths")
	}
}

func (e *emitter) givesOpcode(f *ssa.Function) bool {
	l := f.Signature.Results()
	for i := 0; i < l.Len(); i++ {
		if types.Identical(l.At(i).Type(), e.m.op) {
			return true
		}
	}
	return false
}

// Scripts, lists of sentences, words and constants have one value; a word that
// expands may have any number
func (e *emitter) wrongCount(fn *ssa.Function, d depth) string {
	one := depth{1, 1}
	switch fn.Name() {
	case "CompileScript", "CompileSentences", "CompileConstant":
		if d != one {
			return "the program leaves " + d.String() + " values instead of one"
		}
	case "CompileWord":
		if d != one && d.hi != manyValues {
			return "the program leaves " + d.String() + " values instead of one"
		}
	}
	return ""
}

func sortedExits(m map[emission]bool) []emission {
	var l []emission
	for e := range m {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

func (e *emitter) check() {
	roots := map[*ssa.Function]map[emission]bool{}
	for _, f := range e.roots {
		roots[f] = map[emission]bool{}
	}
	pass := func() {
		for _, f := range e.roots {
			e.run(f, nil, true, roots[f])
		}
		var keys []string
		for k := range e.sums {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s := e.sums[k]
			e.run(s.fn, s.args, false, s.exits)
		}
	}
	for n := 0; ; n++ {
		e.changed = false
		pass()
		if !e.changed || n > 100 {
			break
		}
	}
	e.report = true
	// Exits are checked again
	for f := range roots {
		roots[f] = map[emission]bool{}
	}
	pass()
	show := func(fn *ssa.Function, k string, exits map[emission]bool) {
		if e.bad[shortFn(fn)] {
			return
		}
		var l []string
		for _, x := range sortedExits(exits) {
			l = append(l, x.String())
		}
		if len(l) > 4 {
			l = append(l[:4], fmt.Sprintf("%d more", len(l)-4))
		}
		e.r.ok("emission", fn, shortFn(fn)+": "+strings.Join(l, "; "))
	}
	for _, f := range e.roots {
		show(f, "", roots[f])
	}
	var keys []string
	for k := range e.sums {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		show(e.sums[k].fn, k, e.sums[k].exits)
	}
}

// Tables of opcodes loaded as programs
func (m *machine) tables(r *Report) {
	p := m.p
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || !p.inModule[f] || f.Signature.Results().Len() != 1 || !isPtrTo(f.Signature.Results().At(0).Type(), m.program) {
					continue
				}
				ops, consts := -1, -1
				for i, pa := range f.Params {
					sl, ok := pa.Type().Underlying().(*types.Slice)
					if !ok {
						continue
					}
					if types.Identical(sl.Elem(), m.op) {
						ops = i
					} else if strings.HasSuffix(sl.Elem().String(), "core.Value") {
						consts = i
					}
				}
				if ops < 0 || consts < 0 {
					continue
				}
				m.table(r, fn, in, c.Common().Args[ops], c.Common().Args[consts])
			}
		}
	}
}

// Value that a package variable always has
func (p *Program) onlyValue(g *ssa.Global) ssa.Value {
	var v ssa.Value
	var fns []*ssa.Function
	fns = append(fns, p.funcs...)
	if i := g.Pkg.Func("init"); i != nil {
		fns = append(fns, i)
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					if v != nil {
						return nil
					}
					v = s.Val
				}
			}
		}
	}
	return v
}

func (m *machine) table(r *Report, fn *ssa.Function, in ssa.Instruction, ops, consts ssa.Value) {
	name := shortFn(fn)
	if u, ok := ops.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			ops = m.p.onlyValue(g)
		}
	}
	if ops == nil {
		r.excluded("table", fn, name, "table with several values")
		return
	}
	l, ok := listValues(ops)
	if !ok {
		r.excluded("table", fn, name, "opcodes known at run time only")
		return
	}
	s := opState{frames: []depth{{}}}
	n := 0
	var names []string
	for i, v := range l {
		var op int64
		if v != nil {
			k, ok := v.(*ssa.Const)
			if !ok {
				r.excluded("table", fn, name, "opcodes known at run time only")
				return
			}
			op = k.Int64()
		}
		names = append(names, strings.TrimPrefix(m.names[op], "OpCode_"))
		bad := ""
		if m.names[op] == "" {
			bad = "undefined opcode"
		} else if bad = s.apply(m.effects[op], true); bad == "" {
			n += m.effects[op][0].consts
		}
		if bad != "" {
			r.fail("table", fn, fmt.Sprintf("%s opcode %d", name, i), m.p.instrPos(in), fmt.Sprintf("%s: opcode %d (%s): %s", name, i, m.names[op], bad))
			return
		}
	}
	bad := ""
	if len(s.frames) > 1 {
		bad = "a frame is left open"
	} else if s.closed {
		bad = "the values of the last frame are lost"
	} else if s.frames[0] != (depth{1, 1}) {
		bad = "the program leaves " + s.frames[0].String() + " values instead of one"
	} else if c, ok := listValues(consts); ok && len(c) != n {
		bad = fmt.Sprintf("%d constants are given but the opcodes take %d", len(c), n)
	}
	if bad != "" {
		r.fail("table", fn, name+" "+bad, m.p.instrPos(in), name+": "+bad)
		return
	}
	r.ok("table", fn, name+": "+strings.Join(names, " "))
}

func init() {
	checks["C17"] = func(r *Report, thorough bool) {
		r.rule("executor", "every opcode has a successful execution, whose effect on values, frames, constants and counters is the same on all paths", 14)
		r.rule("emission", "the opcodes emitted for any script, sentences, word or constant find the values, frames and constants they need, leave no frame open and no value unused, and programs leave the values they are compiled for", 12)
		r.rule("table", "the programs loaded from tables of opcodes are well-formed and given the constants they take", 2)
		m := r.p.machine()
		if !m.derive(r) {
			for i := 0; i < 12; i++ {
				r.excluded("emission", nil, "opcodes", "effects are not known")
				r.excluded("table", nil, "opcodes", "effects are not known")
			}
			return
		}
		e := m.emitter(r)
		e.check()
		m.tables(r)
	}
}
