package main

// C17: compiled programs are well-formed

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect of an opcode on the evaluation stack
type opEffect struct {
	need   int  // values needed on the current frame
	net    int  // values added to (or removed from) the current frame
	plus   bool // any number of values added
	open   int  // frames opened, or closed if negative
	use    bool // uses the values of the frame just closed
	consts int  // constants consumed
}

func (e opEffect) String() string {
	s := fmt.Sprintf("needs %d, adds %d", e.need, e.net)
	if e.plus {
		s += " or more"
	}
	if e.open > 0 {
		s += ", opens a frame"
	}
	if e.open < 0 {
		s += ", closes a frame"
	}
	if e.use {
		s += ", uses the closed frame"
	}
	if e.consts > 0 {
		s += ", takes a constant"
	}
	return s
}

type machine struct {
	p        *Program
	op       *types.Named // type of opcodes
	state    *types.Named // of the evaluation
	program  *types.Named
	names    map[int64]string
	role     map[int]string // fields of the state
	progRole map[int]string // fields of programs
	effects  map[int64][]opEffect
	touches  map[*ssa.Function]bool // writes the state of the evaluation
}

func (p *Program) machine() *machine {
	m := &machine{p: p, names: map[int64]string{}, role: map[int]string{}, progRole: map[int]string{}, effects: map[int64][]opEffect{}, touches: map[*ssa.Function]bool{}}
	sc := p.core().Pkg.Scope()
	get := func(n string) *types.Named {
		o := sc.Lookup(n)
		if o == nil {
			panic("no type " + n)
		}
		return o.Type().(*types.Named)
	}
	m.op, m.state, m.program = get("OpCode"), get("ProgramState"), get("Program")
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), m.op) {
			v, _ := constant.Int64Val(c.Val())
			m.names[v] = n
		}
	}
	s := m.program.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		switch {
		case types.Identical(sl.Elem(), m.op):
			m.progRole[i] = "opcodes"
		case strings.HasSuffix(sl.Elem().String(), "core.Value"):
			m.progRole[i] = "constants"
		case strings.HasSuffix(sl.Elem().String(), "SourcePosition"):
			m.progRole[i] = "positions"
		}
	}
	m.findRoles()
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if m.touches[fn] || fnPkg(fn) != m.op.Obj().Pkg() {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					hit := false
					switch x := in.(type) {
					case *ssa.FieldAddr:
						hit = types.Identical(deref(x.X.Type()), m.state)
					case ssa.CallInstruction:
						f := x.Common().StaticCallee()
						hit = f != nil && m.touches[f]
					case *ssa.MakeClosure:
						hit = m.touches[x.Fn.(*ssa.Function)]
					}
					if hit && !m.touches[fn] {
						m.touches[fn] = true
						changed = true
					}
				}
			}
		}
	}
	return m
}

// Fields of the evaluation state, by their use
func (m *machine) findRoles() {
	s := m.state.Underlying().(*types.Struct)
	var values []int
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			switch {
			case isCoreResult(t.Elem()):
				m.role[i] = "results"
			case t.Elem().Underlying().String() == "int":
				m.role[i] = "frames"
			default:
				values = append(values, i)
			}
		}
	}
	for _, fn := range m.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if f, ok := m.field(x.Addr); ok && isAppend(x.Val) {
						for _, v := range values {
							if v == f {
								m.role[f] = "stack"
							}
						}
					}
				case *ssa.IndexAddr:
					if u, ok := x.Index.(*ssa.UnOp); ok {
						if f, ok := m.field(u.X); ok {
							if r := m.progField(x.X); r == "opcodes" {
								m.role[f] = "pc"
							} else if r == "constants" {
								m.role[f] = "cc"
							}
						}
					}
				}
			}
		}
	}
	for _, v := range values {
		if m.role[v] == "" {
			m.role[v] = "last"
		}
	}
	have := map[string]bool{}
	for _, r := range m.role {
		have[r] = true
	}
	for _, r := range []string{"stack", "frames", "last", "pc", "cc"} {
		if !have[r] {
			panic("no field of the evaluation state is the " + r)
		}
	}
}

func isAppend(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func (m *machine) field(a ssa.Value) (int, bool) {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), m.state) {
		return 0, false
	}
	return fa.Field, true
}

// Role of the field that a slice is loaded from
func (m *machine) progField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	return m.progAddr(u.X)
}
func (m *machine) progAddr(a ssa.Value) string {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), m.program) {
		return ""
	}
	return m.progRole[fa.Field]
}
func (m *machine) stateField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	if f, ok := m.field(u.X); ok {
		return m.role[f]
	}
	return ""
}

// Is an instruction the fetch of the next opcode?
func (m *machine) fetch(in ssa.Instruction) *ssa.UnOp {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !types.Identical(u.Type(), m.op) {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || m.progField(ia.X) != "opcodes" {
		return nil
	}
	return u
}

// Number of values appended by append(s, v, ...), -1 if unknown
func appended(c *ssa.Call) int {
	if len(c.Call.Args) < 2 {
		return 0
	}
	s, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return -1
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok || s.Low != nil || s.High != nil {
		return -1
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	if !ok {
		return -1
	}
	return int(arr.Len())
}

// Elements removed by s[:len(s)-k], -1 if cut elsewhere
func dropped(sl *ssa.Slice, same func(v ssa.Value) bool) int {
	b, ok := sl.High.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || sl.Low != nil {
		return -1
	}
	k, ok := b.Y.(*ssa.Const)
	if !ok {
		return -1
	}
	c, ok := b.X.(*ssa.Call)
	if !ok {
		return -1
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" || !same(c.Call.Args[0]) {
		return -1
	}
	return int(k.Int64())
}

func fint(st *xstate, k string) int {
	n, _ := strconv.Atoi(st.facts[k])
	return n
}
func fadd(st *xstate, k string, n int) { st.facts[k] = strconv.Itoa(fint(st, k) + n) }

// Derive the effects of the opcodes from the executor
func (m *machine) derive(r *Report) bool {
	p := m.p
	var loops []*ssa.Function
	for _, fn := range p.funcs {
		if !m.touches[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m.fetch(in) != nil && !contains2(loops, fn) {
					loops = append(loops, fn)
				}
			}
		}
	}
	// The functions that execute the opcodes they fetch
	for n := 0; n < 5; n++ {
		var up []*ssa.Function
		for _, fn := range loops {
			if m.dispatches(fn, map[*ssa.Function]bool{}) {
				if !contains2(up, fn) {
					up = append(up, fn)
				}
				continue
			}
			for _, g := range p.funcs {
				if m.touches[g] && m.calls(g, fn) && !contains2(up, g) {
					up = append(up, g)
				}
			}
		}
		loops = up
	}
	if len(loops) != 1 {
		for i := 0; i < 14; i++ {
			r.excluded("executor", nil, "opcodes", "not executed by a single function")
		}
		return false
	}
	loop := loops[0]
	var ops []int64
	for k := range m.names {
		ops = append(ops, k)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i] < ops[j] })
	for _, op := range ops {
		m.deriveOp(r, loop, op)
	}
	return true
}

func (m *machine) calls(g, fn *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// Are opcodes told apart by a function or those it calls?
func (m *machine) dispatches(fn *ssa.Function, done map[*ssa.Function]bool) bool {
	if done[fn] || !m.touches[fn] {
		return false
	}
	done[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp:
				if y.Op == token.EQL && types.Identical(y.X.Type(), m.op) {
					return true
				}
			case ssa.CallInstruction:
				if f := y.Common().StaticCallee(); f != nil && m.dispatches(f, done) {
					return true
				}
			}
		}
	}
	return false
}

func contains2(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}

func (m *machine) deriveOp(r *Report, loop *ssa.Function, op int64) {
	p := m.p
	name := m.names[op]
	seen := map[opEffect]bool{}
	bad := false
	fail := func(in ssa.Instruction, msg string) {
		bad = true
		r.fail("executor", in.Parent(), name+" "+msg, p.instrPos(in), name+": "+msg)
	}
	finish := func(st *xstate, in ssa.Instruction) {
		e := opEffect{need: fint(st, "need"), net: fint(st, "d"), plus: st.facts["plus"] != "", open: fint(st, "frames"), use: st.facts["use"] != "", consts: fint(st, "cc")}
		if fint(st, "pc") != 1 {
			fail(in, "the program counter advances by "+strconv.Itoa(fint(st, "pc")))
		}
		if fint(st, "constant") != fint(st, "cc") {
			fail(in, fmt.Sprintf("%d constants are read but the counter advances by %d", fint(st, "constant"), fint(st, "cc")))
		}
		if m.hasRole("results") && fint(st, "results") != e.open {
			fail(in, "frames and their results are no longer paired")
		}
		if e.open < 0 && (st.facts["cut"] == "" || st.facts["last"] != "set") {
			fail(in, "closing a frame must remove its values and keep them as the last frame")
		}
		if e.open >= 0 && (st.facts["cut"] != "" || st.facts["last"] == "set") {
			fail(in, "values of the frame are removed though it is still open")
		}
		if e.open < 0 {
			e.net, e.need = 0, 0
		}
		seen[e] = true
	}
	x := newExplorer(p)
	x.enter = func(f *ssa.Function) bool { return m.touches[f] }
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			return true
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			a, k := x.resolve(st, ref{pair[0], c.fr}), x.resolve(st, ref{pair[1], c.fr})
			kc, ok := k.v.(*ssa.Const)
			if ai, isIn := a.v.(ssa.Instruction); ok && isIn && m.fetch(ai) != nil && kc.Value != nil && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				return ((kc.Int64() == op) == (bo.Op == token.EQL)) == truth
			}
		}
		return true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		if m.fetch(in) != nil {
			if st.facts["in"] != "" {
				finish(st, in)
				st.halt = true
				return
			}
			st.facts = map[string]string{"in": "1"}
			return
		}
		if st.facts["in"] == "" {
			return
		}
		switch y := in.(type) {
		case *ssa.UnOp:
			if m.stateField(y) == "last" {
				if st.facts["last"] == "" {
					st.facts["use"] = "1"
				}
				if st.facts["pushed"] != "" {
					fail(in, "the last frame is read after values were pushed over it")
				}
			}
		case *ssa.IndexAddr:
			if m.progField(y.X) == "constants" {
				fadd(st, "constant", 1)
			}
			if m.stateField(y.X) == "stack" && fint(st, "d") < 1 {
				// Last value
				m.need(st, 1)
			}
		case *ssa.Store:
			f, ok := m.field(y.Addr)
			if !ok {
				return
			}
			switch role := m.role[f]; role {
			case "stack":
				if isAppend(y.Val) {
					n := appended(y.Val.(*ssa.Call))
					if n < 0 {
						st.facts["plus"] = "1"
					} else if fadd(st, "d", n); fint(st, "d") > exactLimit {
						st.facts["plus"] = "1"
						st.facts["d"] = strconv.Itoa(exactLimit)
					}
					st.facts["pushed"] = "1"
					return
				}
				if sl, ok := y.Val.(*ssa.Slice); ok {
					if n := dropped(sl, func(v ssa.Value) bool { return m.stateField(v) == "stack" }); n >= 0 {
						m.need(st, n)
						fadd(st, "d", -n)
					} else {
						st.facts["cut"] = "1"
					}
					return
				}
				fail(in, "the stack is replaced")
			case "frames", "results":
				if isAppend(y.Val) {
					fadd(st, role, appended(y.Val.(*ssa.Call)))
				} else if sl, ok := y.Val.(*ssa.Slice); ok {
					if n := dropped(sl, func(v ssa.Value) bool { return m.stateField(v) == "frames" || m.stateField(v) == "results" }); n >= 0 {
						fadd(st, role, -n)
					} else {
						fail(in, "frames are reset")
					}
				} else {
					fail(in, "frames are replaced")
				}
			case "last":
				if k, ok := y.Val.(*ssa.Const); ok && k.IsNil() {
					st.facts["last"] = "nil"
				} else {
					st.facts["last"] = "set"
				}
			case "pc", "cc":
				b, ok := y.Val.(*ssa.BinOp)
				k, isK := (*ssa.Const)(nil), false
				if ok && b.Op == token.ADD {
					k, isK = b.Y.(*ssa.Const)
				}
				if !isK || m.stateField(b.X) != role {
					fail(in, "the "+role+" is replaced")
					return
				}
				fadd(st, role, int(k.Int64()))
			}
		}
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		if st.facts["in"] == "" || len(res) == 0 {
			return
		}
		if x.codeOf(st, res[0]) == codeOK {
			finish(st, in)
		}
	}
	if !x.tryRun(loop, newXstate()) {
		r.excluded("executor", loop, name, "too many paths")
		bad = true
	}
	var l []opEffect
	for e := range seen {
		l = append(l, e)
	}
	if len(l) == 0 {
		bad = true
		r.fail("executor", loop, name, p.pos(loop), name+" has no successful execution")
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	m.effects[op] = l
	plus := false
	for _, e := range l {
		plus = plus || e.plus
	}
	for i, e := range l {
		if i > 0 && (e.open != l[0].open || e.use != l[0].use || e.consts != l[0].consts || e.net != l[0].net && !plus) {
			bad = true
			r.fail("executor", loop, name+" paths", p.pos(loop), fmt.Sprintf("%s has different effects on different paths: %s; %s", name, l[0], e))
		}
	}
	if !bad {
		var s []string
		for _, e := range l {
			s = append(s, e.String())
		}
		r.ok("executor", loop, name+": "+strings.Join(s, "; or "))
	}
}

func (m *machine) hasRole(role string) bool {
	for _, r := range m.role {
		if r == role {
			return true
		}
	}
	return false
}

// n values are expected on the frame
func (m *machine) need(st *xstate, n int) {
	if k := n - fint(st, "d"); k > fint(st, "need") {
		st.facts["need"] = strconv.Itoa(k)
	}
}
