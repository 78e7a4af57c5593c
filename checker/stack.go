package main

// C18: processes run programs that haven't ended only, and keep those that are
// suspended

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stacked struct {
	p       *Program
	r       *Report
	state   *types.Named // of programs
	ctx     *types.Named // element of the stack
	owner   *types.Named // type whose field is the stack
	field   int
	process *types.Named
	last    int // field of the process for the last result, or -1
}

func (p *Program) processStack() *stacked {
	s := &stacked{p: p, last: -1}
	m := p.machine()
	s.state = m.state
	has := func(t types.Type, is func(t types.Type) bool) int {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1
		}
		for i := 0; i < st.NumFields(); i++ {
			if is(st.Field(i).Type()) {
				return i
			}
		}
		return -1
	}
	for _, n := range p.namedT {
		if p.test(n.Obj().Pos()) {
			continue
		}
		if has(n, func(t types.Type) bool { return isPtr(t) && types.Identical(deref(t), m.state) }) >= 0 {
			s.ctx = n
		}
	}
	if s.ctx == nil {
		return nil
	}
	for _, n := range p.namedT {
		i := has(n, func(t types.Type) bool {
			l, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(deref(l.Elem()), s.ctx)
		})
		if i >= 0 {
			s.owner, s.field = n, i
		}
	}
	if s.owner == nil {
		return nil
	}
	s.process = s.owner
	for _, n := range p.namedT {
		if i := has(n, func(t types.Type) bool { return types.Identical(deref(t), s.owner) }); i >= 0 {
			s.process = n
		}
	}
	s.last = has(s.process, func(t types.Type) bool { return isCoreResult(t) })
	return s
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// Is a value the stack?
func (s *stacked) isStack(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	return s.isField(u.X)
}
func (s *stacked) isField(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && fa.Field == s.field && types.Identical(deref(fa.X.Type()), s.owner)
}

// Is an index the last one of the stack?
func (s *stacked) isLast(x *explorer, st *xstate, r ref) bool {
	r = x.resolve(st, r)
	b, ok := r.v.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return false
	}
	k, ok := b.Y.(*ssa.Const)
	return ok && k.Value != nil && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1)) && s.isLen(x, st, ref{b.X, r.fr})
}
func (s *stacked) isLen(x *explorer, st *xstate, r ref) bool {
	for {
		r = x.resolve(st, r)
		c, ok := r.v.(*ssa.Convert)
		if !ok {
			break
		}
		r.v = c.X
	}
	c, ok := r.v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && s.isStack(x.resolve(st, ref{c.Call.Args[0], r.fr}).v)
}

// Context that an address or value belongs to
func (s *stacked) ctxKey(x *explorer, st *xstate, r ref) string {
	for n := 0; n < 20; n++ {
		r = x.resolve(st, r)
		switch y := r.v.(type) {
		case *ssa.Alloc:
			v, ok := st.vals[x.id(r)]
			if !ok {
				return x.id(r)
			}
			r = v
		case *ssa.UnOp:
			r.v = y.X
		case *ssa.FieldAddr:
			r.v = y.X
		default:
			return x.id(r)
		}
	}
	return ""
}

// Field of a context that a value is loaded from
func (s *stacked) ctxField(x *explorer, st *xstate, r ref) (string, types.Type) {
	r = x.resolve(st, r)
	switch y := r.v.(type) {
	case *ssa.Field:
		if types.Identical(y.X.Type(), s.ctx) {
			return s.ctxKey(x, st, ref{y.X, r.fr}), y.Type()
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), s.ctx) {
			return s.ctxKey(x, st, ref{fa.X, r.fr}), y.Type()
		}
	}
	return "", nil
}

// Result that a value is a field of
func (s *stacked) resultField(x *explorer, st *xstate, r ref) (ref, int) {
	r = x.resolve(st, r)
	switch y := r.v.(type) {
	case *ssa.Field:
		if isCoreResult(y.X.Type()) {
			return x.resolve(st, ref{y.X, r.fr}), y.Field
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && isCoreResult(deref(fa.X.Type())) {
			a := x.resolve(st, ref{fa.X, r.fr})
			if v, ok := st.vals[x.id(a)]; ok {
				return x.resolve(st, v), fa.Field
			}
		}
	}
	return ref{}, -1
}

func (s *stacked) check(r *Report) {
	s.r = r
	p := s.p
	isOp := func(in ssa.Instruction) bool {
		switch y := in.(type) {
		case *ssa.Store:
			return s.isField(y.Addr)
		case *ssa.UnOp:
			return s.isField(y.X)
		case *ssa.FieldAddr:
			return types.Identical(deref(y.X.Type()), s.ctx)
		case *ssa.Field:
			return types.Identical(y.X.Type(), s.ctx)
		}
		return false
	}
	touches := map[*ssa.Function]bool{}
	n := 0
	for _, fn := range p.funcs {
		if fnPkg(fn) == s.ctx.Obj().Pkg() {
			p.reaches(fn, isOp, touches)
		}
	}
	for _, fn := range p.funcs {
		if fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), s.process) || len(fn.Blocks) == 0 || !touches[fn] || p.test(fn.Pos()) {
			continue
		}
		res := fn.Signature.Results()
		pops := p.reaches(fn, func(in ssa.Instruction) bool {
			sto, ok := in.(*ssa.Store)
			if !ok || !s.isField(sto.Addr) {
				return false
			}
			_, ok = sto.Val.(*ssa.Slice)
			return ok
		}, map[*ssa.Function]bool{})
		if res.Len() == 1 && isCoreResult(res.At(0).Type()) && pops && fn.Object() != nil && fn.Object().Exported() {
			n++
			s.run(fn, touches)
		}
		if res.Len() == 0 && !pops {
			s.give(fn)
		}
	}
	if n == 0 {
		for i := 0; i < 4; i++ {
			r.excluded("stack", nil, "run", "no method runs processes")
		}
	}
}

func (s *stacked) run(root *ssa.Function, touches map[*ssa.Function]bool) {
	p, r := s.p, s.r
	bad := map[string]bool{}
	seen := map[string]bool{}
	odd := ""
	fail := func(in ssa.Instruction, msg string) {
		if k := p.instrPos(in) + msg; !bad[k] {
			bad[k] = true
			r.fail("stack", root, shortFn(root)+" "+msg, p.instrPos(in), shortFn(root)+": "+msg)
		}
	}
	x := newExplorer(p)
	refs := map[string]ref{}
	x.enter = func(f *ssa.Function) bool { return touches[f] && fnPkg(f) == s.ctx.Obj().Pkg() && f != root }
	drop := func(st *xstate, prefix string) {
		for k := range st.facts {
			if strings.HasPrefix(k, prefix) {
				delete(st.facts, k)
			}
		}
	}
	current := func(st *xstate) ref { return refs[st.facts["R"]] }
	// Is a value the current result?
	isR := func(st *xstate, v ref) bool {
		return st.facts["R"] != "" && x.id(x.resolve(st, v)) == st.facts["R"]
	}
	// Did the last program run give the current result, or pass it on?
	active := func(st *xstate) bool {
		return st.facts["ran"] != "" || st.facts["popped"] != "" && st.facts["R"] != "" && (st.facts["cont"] == "y" || x.codeOf(st, current(st))&codeOK == 0)
	}
	start := func(st *xstate, v ref) {
		id := x.id(v)
		refs[id] = v
		delete(st.codes, id)
		delete(st.rets, id)
		st.facts["R"] = id
		delete(st.facts, "cont")
	}
	x.branch = func(x *explorer, st *xstate, c ref, truth bool) bool {
		switch y := c.v.(type) {
		case *ssa.Extract:
			// Is the result a continuation?
			ta, ok := y.Tuple.(*ssa.TypeAssert)
			if !ok || y.Index != 1 {
				return true
			}
			if o, f := s.resultField(x, st, ref{ta.X, c.fr}); f == 1 && isR(st, o) && s.continuation(ta.AssertedType) {
				v := "n"
				if truth {
					v = "y"
				}
				if st.facts["cont"] != "" && st.facts["cont"] != v {
					return false
				}
				st.facts["cont"] = v
			}
		case *ssa.BinOp:
			for i, q := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
				k, ok := x.resolve(st, ref{q[1], c.fr}).v.(*ssa.Const)
				if !ok {
					continue
				}
				if k.IsNil() && (y.Op == token.EQL || y.Op == token.NEQ) {
					key, t := s.ctxField(x, st, ref{q[0], c.fr})
					if t == nil || st.facts["top:"+key] == "" {
						continue
					}
					if _, ok := t.Underlying().(*types.Signature); !ok {
						continue
					}
					v := "set"
					if (y.Op == token.EQL) == truth {
						v = "nil"
					}
					if st.facts["cb0"] != "" && st.facts["cb0"] != v {
						return false
					}
					st.facts["cb0"] = v
				}
				if k.Value != nil && k.Value.Kind() == constant.Int && s.isLen(x, st, ref{q[0], c.fr}) {
					op := y.Op
					if i == 1 {
						op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
					}
					// Depths 0 and more than 0 that agree
					z := constant.Compare(constant.MakeInt64(0), op, k.Value) == truth
					pos := false
					for _, d := range []int64{1, 2, 3} {
						if constant.Compare(constant.MakeInt64(d), op, k.Value) == truth {
							pos = true
						}
					}
					switch st.facts["depth"] {
					case "0":
						if !z {
							return false
						}
					case "+":
						if !pos {
							return false
						}
					}
					if z && !pos {
						st.facts["depth"] = "0"
					} else if pos && !z {
						st.facts["depth"] = "+"
					}
				}
			}
		}
		return true
	}
	// Forget the values of the functions that have returned
	clean := func(st *xstate, fr *xframe) {
		live := map[string]bool{}
		for f := fr; f != nil; f = f.parent {
			live[fmt.Sprint(f.id)] = true
		}
		dead := func(k string) bool {
			i := strings.LastIndex(k, ".")
			return i >= 0 && !live[k[i+1:]]
		}
		for k := range st.vals {
			if dead(k) {
				delete(st.vals, k)
			}
		}
		for k := range st.rets {
			if dead(k) {
				delete(st.rets, k)
			}
		}
		for k := range st.codes {
			if k != st.facts["R"] {
				delete(st.codes, k)
			}
		}
	}
	push := func(st *xstate, in ssa.Instruction, fr *xframe, c *ssa.Call) {
		if st.facts["cont"] != "y" {
			fail(in, "a program is run that isn't that of a continuation")
		}
		drop(st, "top:")
		if l, ok := listValues(c.Call.Args[1]); ok && len(l) == 1 && l[0] != nil {
			st.facts["top:"+s.ctxKey(x, st, ref{l[0], fr})] = "1"
			// Its program is that of the continuation
			if _, m := literalFields(l[0]); m != nil {
				for f, v := range m {
					t := s.ctx.Underlying().(*types.Struct).Field(f).Type()
					if isPtr(t) && types.Identical(deref(t), s.state) {
						continue
					}
					o := x.resolve(st, ref{v, fr})
					var base ref
					if u, ok := o.v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							base = x.resolve(st, ref{fa.X, o.fr})
						}
					}
					if base.v == nil {
						if k, ok := o.v.(*ssa.Const); ok && k.IsNil() {
							fail(in, "continuations are run without their "+s.ctx.Underlying().(*types.Struct).Field(f).Name())
						}
						continue
					}
					if e, ok := base.v.(*ssa.Extract); ok {
						if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
							if q, n := s.resultField(x, st, ref{ta.X, base.fr}); n == 1 && !isR(st, q) {
								fail(in, "another continuation than the last one is run")
							}
						}
					}
				}
			}
		} else {
			odd = "form of push"
		}
		for _, k := range []string{"ran", "cb", "cb0", "set", "R", "cont", "below", "popped"} {
			delete(st.facts, k)
		}
		st.facts["new"] = "1"
		st.facts["depth"] = "+"
		seen["continuations are run"] = true
	}
	x.visit = func(x *explorer, st *xstate, fr *xframe, in ssa.Instruction) {
		if st.facts["begun"] == "" {
			st.facts["begun"] = "1"
			st.facts["start"] = "1"
		}
		switch y := in.(type) {
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok && fa.Field == s.last && st.facts["stored"] != "" && types.Identical(deref(fa.X.Type()), s.process) {
				st.vals[x.id(ref{y, fr})] = refs[st.facts["stored"]]
			}
		case *ssa.IndexAddr:
			if s.isStack(x.resolve(st, ref{y.X, fr}).v) {
				if !s.isLast(x, st, ref{y.Index, fr}) {
					odd = "index of the stack"
					return
				}
				st.facts["top:"+x.id(ref{y, fr})] = "1"
			}
		case *ssa.Store:
			if isCoreResult(y.Val.Type()) {
				// Other result with the same code and value
				if v := x.resolve(st, ref{y.Val, fr}); st.facts["R"] != "" && x.id(v) != st.facts["R"] {
					if t, m := literalFields(v.v); t != nil && m != nil && isCoreResult(t) {
						if _, ok := y.Addr.(*ssa.Alloc); ok {
							same := 0
							for f := 0; f < 2; f++ {
								if m[f] == nil {
									continue
								}
								if o, n := s.resultField(x, st, ref{m[f], v.fr}); n == f && isR(st, o) {
									same++
								}
							}
							if same == 2 {
								codes := x.codeOf(st, current(st))
								id := x.id(v)
								refs[id] = v
								st.codes[id] = codes
								st.facts["R"] = id
							}
						}
					}
				}
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && fa.Field == s.last && types.Identical(deref(fa.X.Type()), s.process) {
					v := x.resolve(st, ref{y.Val, fr})
					st.facts["stored"] = x.id(v)
					refs[x.id(v)] = v
				}
			}
			if !s.isField(y.Addr) {
				return
			}
			if isAppend(y.Val) {
				push(st, in, fr, y.Val.(*ssa.Call))
				return
			}
			sl, ok := y.Val.(*ssa.Slice)
			if !ok || dropped(sl, s.isStack) != 1 {
				odd = "change of the stack"
				return
			}
			// Pop
			clean(st, fr)
			codes := uint8(codeAny)
			if st.facts["R"] != "" {
				codes = x.codeOf(st, current(st))
			}
			switch {
			case !active(st):
				fail(in, "a program is removed that isn't the last one that was run")
			case st.facts["cb"] != "":
			case codes&codeYIELD != 0 && st.facts["cont"] == "y":
				fail(in, "a program is removed though it only runs another one")
			case codes&codeYIELD != 0:
				fail(in, "a program that is suspended is removed")
			case st.facts["cb0"] != "nil":
				fail(in, "a program is removed before its callback is called")
			}
			drop(st, "top:")
			for _, k := range []string{"ran", "cb", "cb0", "set", "new", "start", "depth"} {
				delete(st.facts, k)
			}
			st.facts["popped"] = "1"
			seen["programs that have ended are removed"] = true
		case *ssa.Call:
			if x.target(st, fr, y) != nil {
				return
			}
			args := y.Call.Args
			// Programs run with their state
			run, given := -1, -1
			for i, a := range args {
				if isPtr(a.Type()) && types.Identical(deref(a.Type()), s.state) {
					run = i
				}
				if isCoreResult(a.Type()) {
					given = i
				}
			}
			sig := y.Call.Signature()
			returns := sig.Results().Len() == 1 && isCoreResult(sig.Results().At(0).Type())
			if run >= 0 && given >= 0 && !returns {
				// Result set
				key, _ := s.ctxField(x, st, ref{args[run], fr})
				if st.facts["top:"+key] == "" {
					fail(in, "the result of a program is given to another one than that which ran it")
				}
				if !isR(st, ref{args[given], fr}) {
					fail(in, "another result than that of the program that has ended is given to the one that ran it")
				} else {
					if x.codeOf(st, current(st))&^codeOK != 0 {
						fail(in, "programs go on though the one that they ran didn't succeed")
					}
					if st.facts["cont"] != "n" {
						fail(in, "a continuation is given to a program instead of being run")
					}
				}
				st.facts["set"] = "1"
				return
			}
			if run >= 0 && returns {
				key, _ := s.ctxField(x, st, ref{args[run], fr})
				if st.facts["top:"+key] == "" {
					fail(in, "the program that is run isn't the last one of the process")
				}
				for _, a := range args {
					if k, t := s.ctxField(x, st, ref{a, fr}); t != nil && k != key {
						fail(in, "a program is run with the state of another one")
					}
				}
				switch {
				case st.facts["new"] != "", st.facts["start"] != "":
				case st.facts["popped"] == "":
					fail(in, "a program that has ended is run again")
				case st.facts["set"] == "":
					fail(in, "a program goes on without the result of the one that it ran")
				}
				for _, k := range []string{"new", "start", "popped", "set", "cb", "cb0", "stored"} {
					delete(st.facts, k)
				}
				st.facts["ran"] = "1"
				st.facts["depth"] = "+"
				start(st, ref{y, fr})
				clean(st, fr)
				seen["programs are run"] = true
				return
			}
			if returns && !y.Call.IsInvoke() && y.Call.StaticCallee() == nil {
				key, t := s.ctxField(x, st, ref{y.Call.Value, fr})
				if t == nil {
					return
				}
				if st.facts["top:"+key] == "" || !active(st) {
					fail(in, "the callback of another program is called")
				}
				if st.facts["cb"] != "" {
					fail(in, "the callback of a program is called again")
				}
				if given < 0 || !isR(st, ref{args[given], fr}) {
					fail(in, "the callback of a program is called with another result than its own")
				} else if x.codeOf(st, current(st))&codeYIELD != 0 {
					fail(in, "the callback of a program is called while it is suspended")
				}
				st.facts["cb"], st.facts["ran"] = "1", "1"
				start(st, ref{y, fr})
				seen["callbacks are called"] = true
			}
		}
	}
	x.end = func(x *explorer, st *xstate, in ssa.Instruction, res []ref) {
		if len(res) != 1 {
			return
		}
		if st.facts["start"] != "" {
			// Process that had ended
			if st.facts["depth"] != "0" {
				fail(in, "processes that haven't ended may not run")
			}
			if u, ok := x.resolve(st, res[0]).v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == s.last {
					seen["processes that have ended give their last result"] = true
				}
			}
			return
		}
		if !isR(st, res[0]) {
			fail(in, "another result than the last one is returned")
			return
		}
		codes := x.codeOf(st, current(st))
		if st.facts["ran"] != "" || st.facts["depth"] == "+" && active(st) {
			if codes&^codeYIELD != 0 {
				fail(in, "the process returns though its program has neither ended nor been suspended")
			} else if st.facts["cont"] != "n" {
				fail(in, "a continuation is returned instead of being run")
			} else {
				seen["programs that are suspended are kept"] = true
			}
			return
		}
		if st.facts["depth"] != "0" {
			fail(in, "the process returns though programs remain to be run")
			return
		}
		if s.last >= 0 && st.facts["stored"] != st.facts["R"] {
			fail(in, "the result of a process that has ended isn't kept")
			return
		}
		seen["processes end with their last program"] = true
	}
	if !x.tryRun(root, newXstate()) {
		odd = "too many paths"
	}
	if odd != "" {
		r.excluded("stack", root, shortFn(root), odd)
		return
	}
	if len(bad) > 0 {
		return
	}
	var l []string
	for k := range seen {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		r.ok("stack", root, fmt.Sprintf("%s: %s", shortFn(root), k))
	}
}

// Type of the values that stand for programs to run
func (s *stacked) continuation(t types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || !isPtr(t) {
		return false
	}
	c := s.ctx.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		for j := 0; j < c.NumFields(); j++ {
			if types.Identical(st.Field(i).Type(), c.Field(j).Type()) {
				n++
				break
			}
		}
	}
	return n >= 3
}

// Values given to suspended programs replace the one that they yielded
func (s *stacked) give(fn *ssa.Function) {
	var given *ssa.Parameter
	for _, pa := range fn.Params[1:] {
		if types.IsInterface(pa.Type()) && pa.Type().String() == "helena/core.Value" {
			given = pa
		}
	}
	if given == nil {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || len(c.Call.Args) != 2 || !isCoreResult(c.Call.Args[1].Type()) || !isPtr(c.Call.Args[0].Type()) {
				continue
			}
			if !types.Identical(deref(c.Call.Args[0].Type()), s.state) {
				continue
			}
			t, m := literalFields(c.Call.Args[1])
			if t == nil || m == nil {
				if call, ok := c.Call.Args[1].(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && fnPkg(f) == s.p.core().Pkg && len(call.Call.Args) == 1 {
						s.r.fail("stack", fn, shortFn(fn), s.p.instrPos(c), shortFn(fn)+": the state of the command that is suspended is lost when a value is given to it")
						continue
					}
				}
				s.r.excluded("stack", fn, shortFn(fn), "result that is set")
				continue
			}
			a := c.Call.Args[1].(*ssa.UnOp).X.(*ssa.Alloc)
			whole := false
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					whole = true
				}
			}
			fine := true
			fail := func(msg string) {
				fine = false
				s.r.fail("stack", fn, shortFn(fn), s.p.instrPos(c), shortFn(fn)+": "+msg)
			}
			if m[1] != ssa.Value(given) {
				fail("the value given to a program isn't the one that it goes on with")
			}
			if !whole {
				if m[2] == nil || !ofResult(m[2]) {
					fail("the state of the command that is suspended is lost when a value is given to it")
				} else if m[0] == nil {
					fail("the command is no longer suspended when a value is given to it")
				}
			}
			if fine {
				s.r.ok("stack", fn, shortFn(fn)+": the value replaces the one that was yielded")
			}
		}
	}
}
