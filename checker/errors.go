package main

// Error discipline: a failed operation fails the operation that relies on it.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type resultCall struct {
	c    *ssa.Call
	idx  int       // index of the result among the values returned
	val  ssa.Value // the result, nil if not extracted
	mask uint8
}

// Calls returning results that may carry something else than success
func fallibleCalls(d *flow, fn *ssa.Function, states map[*ssa.BasicBlock]*factState) []resultCall {
	var out []resultCall
	for _, b := range fn.Blocks {
		if states[b] == nil {
			continue
		}
		st := states[b].clone()
		for _, in := range b.Instrs {
			d.step(fn, in, st)
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if d.isRes(c.Type()) {
				out = append(out, resultCall{c, 0, c, d.callCodes(c, 0, st)})
				continue
			}
			tp, ok := c.Type().(*types.Tuple)
			if !ok {
				continue
			}
			for i := 0; i < tp.Len(); i++ {
				if !d.isRes(tp.At(i).Type()) {
					continue
				}
				rc := resultCall{c, i, nil, d.callCodes(c, i, st)}
				for _, ref := range *c.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
						rc.val = e
					}
				}
				out = append(out, rc)
			}
		}
	}
	return out
}

// Uses of a value, through variables assigned once
func usesOf(v ssa.Value, through func(st *ssa.Store) bool, f func(use ssa.Instruction, v ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, ref := range *refs {
			switch x := ref.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && singleStore(al) != nil {
					if through != nil && !through(x) {
						continue
					}
					for _, r2 := range *al.Referrers() {
						switch y := r2.(type) {
						case *ssa.UnOp:
							walk(y)
						case *ssa.FieldAddr:
							for _, r3 := range *y.Referrers() {
								if u, ok := r3.(*ssa.UnOp); ok {
									f(u, y)
								} else {
									f(r3, y)
								}
							}
						case *ssa.MakeClosure:
							f(y, al)
						}
					}
					continue
				}
			}
			f(ref, v)
		}
	}
	walk(v)
}

// Is what is stored in a variable read before being overwritten?
func storeRead(s *ssa.Store) bool {
	switch a := s.Addr.(type) {
	case *ssa.Alloc:
		return reachesRead(s, a)
	case *ssa.FreeVar:
		// variable of an outer function: read anywhere there?
		fn := a.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == a {
				idx = i
			}
		}
		if fn.Parent() == nil {
			return true
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					al, ok := mc.Bindings[idx].(*ssa.Alloc)
					if !ok {
						return true
					}
					return reachesRead(mc, al) || anyRead(a)
				}
			}
		}
	}
	return true
}
func anyRead(addr ssa.Value) bool {
	for _, ref := range *addr.Referrers() {
		if readsVar(ref, addr) {
			return true
		}
	}
	return false
}

// Does an instruction read a variable, or let others do?
func readsVar(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return x.Val == addr
	case *ssa.DebugRef:
		return false
	case *ssa.FieldAddr:
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); !ok || st.Addr != x {
				return true
			}
		}
		return false
	case *ssa.MakeClosure:
		// read by the closure
		for i, b := range x.Bindings {
			if b == addr && anyRead(x.Fn.(*ssa.Function).FreeVars[i]) {
				return true
			}
		}
		return false
	}
	return true
}
func reachesRead(from ssa.Instruction, al *ssa.Alloc) bool {
	refs := map[ssa.Instruction]bool{}
	for _, r := range *al.Referrers() {
		refs[r] = true
		if mc, ok := r.(*ssa.MakeClosure); ok && readsVar(mc, al) {
			return true // captured by a closure reading it
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, i int) bool
	scan = func(b *ssa.BasicBlock, i int) bool {
		for _, in := range b.Instrs[i:] {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == al {
				if readsVar(fa, al) {
					return true
				}
				continue
			}
			if !refs[in] {
				continue
			}
			if st, ok := in.(*ssa.Store); ok && st.Addr == al && st.Val != al {
				return false // overwritten
			}
			if readsVar(in, al) {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return scan(b, i+1)
		}
	}
	return true
}

func isField(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(x.X.Type(), x.Field) == name
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field) == name
	}
	return false
}

func errorRules(r *Report) {
	p := r.p
	d := newFlow(p)
	for _, fn := range p.funcs {
		if pk := fnPkg(fn); pk != nil && pk.Path() == "helena/benchmarks" {
			continue
		}
		states := d.states(fn)
		calls := fallibleCalls(d, fn, states)
		at := func(in ssa.Instruction) *factState {
			if states[in.Block()] == nil {
				return nil
			}
			return d.transferBlock(fn, in.Block(), states[in.Block()].clone(), in)
		}
		for _, rc := range calls {
			if rc.mask&codeERROR == 0 {
				continue
			}
			callee := calleeName(rc.c)
			what := callee + " in " + shortFn(fn)
			// dropped?
			consulted := false
			var uses []ssa.Instruction
			if rc.val != nil {
				usesOf(rc.val, nil, func(use ssa.Instruction, v ssa.Value) {
					if isField(v, "Value") || isField(v, "Data") {
						uses = append(uses, use)
						return
					}
					if f, ok := use.(*ssa.Field); ok && (isField(f, "Value") || isField(f, "Data")) {
						uses = append(uses, use)
						return
					}
					if fa, ok := use.(*ssa.FieldAddr); ok && (isField(fa, "Value") || isField(fa, "Data")) {
						uses = append(uses, use)
						return
					}
					if s, ok := use.(*ssa.Store); ok && s.Val == v && !storeRead(s) {
						if _, ok := s.Addr.(*ssa.FreeVar); ok {
							r.fail("dropped", fn, what+" kept", p.instrPos(s), "outcome of "+callee+" is kept in a variable that is not read afterwards")
						}
						return
					}
					consulted = true
				})
			}
			if !consulted {
				if why := errorExempt(p, "dropped", rc.c, callee); why != "" {
					r.excluded("dropped", fn, what, why)
				} else if keywordOnly(rc) || constantCall(rc.c) {
					r.ok("dropped", fn, p.instrPos(rc.c)+" "+what)
				} else {
					r.fail("dropped", fn, what, p.instrPos(rc.c), "outcome of "+callee+" is not checked in "+shortFn(fn))
				}
				continue
			}
			r.ok("dropped", fn, p.instrPos(rc.c)+" "+what)
			// companions and values used before the outcome is known
			path := d.path(rc.val)
			for _, ref := range *rc.c.Referrers() {
				e, ok := ref.(*ssa.Extract)
				if !ok || e.Index == rc.idx {
					continue
				}
				usesOf(e, func(s *ssa.Store) bool {
					// kept once known to have succeeded?
					st := at(s)
					return st == nil || st.codes[path] != codeOK
				}, func(use ssa.Instruction, v ssa.Value) {
					switch u := use.(type) {
					case *ssa.Phi, *ssa.Store:
						return
					case *ssa.Return:
						for _, v := range u.Results {
							if d.isRes(v.Type()) {
								return // along with the outcome
							}
						}
					case *ssa.BinOp:
						if c, ok := u.Y.(*ssa.Const); ok && c.Value == nil {
							return
						}
					}
					if _, ok := use.(*ssa.If); ok {
						if f := rc.c.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 &&
							d.flagCodes(f, rc.idx, e.Index, true)&d.flagCodes(f, rc.idx, e.Index, false) == 0 {
							return // tells success from failure
						}
					}
					uses = append(uses, use)
				})
			}
			bad := false
			for _, u := range uses {
				st := at(u)
				if st == nil {
					continue
				}
				m, ok := st.codes[path]
				if !ok {
					m = codeAny
				}
				if m&codeERROR == 0 || m&codeOK == 0 {
					continue // succeeded, or known not to: the error itself is used
				}
				if errorExempt(p, "unchecked", rc.c, callee) != "" {
					continue
				}
				bad = true
				r.fail("unchecked", fn, what, p.instrPos(u), "what "+callee+" yields is used in "+shortFn(fn)+" although it may have failed", "call at "+p.instrPos(rc.c))
			}
			if !bad {
				r.ok("unchecked", fn, p.instrPos(rc.c)+" "+what)
			}
			// failure answered by success
			if rc.mask&codeOK == 0 {
				continue
			}
			swallow := func(in ssa.Instruction, msg string) {
				if why := errorExempt(p, "swallowed", rc.c, callee); why != "" {
					return
				}
				r.fail("swallowed", fn, what, p.instrPos(in), msg, "call at "+p.instrPos(rc.c))
			}
			for _, b := range fn.Blocks {
				if states[b] == nil {
					continue
				}
				end := d.transferBlock(fn, b, states[b].clone(), nil)
				m, ok := end.codes[path]
				if rt, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
					if !ok || m&codeOK != 0 || m&codeERROR == 0 {
						continue
					}
					for i, v := range rt.Results {
						if d.isRes(fn.Signature.Results().At(i).Type()) && succeeds(d.codeOf(v, end), m) {
							swallow(rt, shortFn(fn)+" may succeed although "+callee+" failed")
						}
					}
					continue
				}
				for si, s := range b.Succs {
					e := d.edge(fn, b, si, end.clone())
					if e == nil || states[s] == nil {
						continue
					}
					em, ok1 := e.codes[path]
					if !ok1 || em&codeOK != 0 || em&codeERROR == 0 {
						continue
					}
					if ok && m == em {
						continue // known before this branch
					}
					last := b.Instrs[len(b.Instrs)-1]
					if sm, ok2 := states[s].codes[path]; ok2 && sm&codeOK != 0 {
						swallow(last, "failure of "+callee+" joins the normal path of "+shortFn(fn))
						continue
					}
					// may the function still succeed?
					d.phis(fn, b, s, e)
					after := d.runFrom(fn, s, e)
					for _, b2 := range fn.Blocks {
						rt, isRet := b2.Instrs[len(b2.Instrs)-1].(*ssa.Return)
						if !isRet || after[b2] == nil {
							continue
						}
						end := d.transferBlock(fn, b2, after[b2].clone(), nil)
						if m2, ok := end.codes[path]; ok && m2&(codeOK|codeERROR) == 0 {
							continue // neither: another outcome
						}
						for i, v := range rt.Results {
							if d.isRes(fn.Signature.Results().At(i).Type()) && succeeds(d.codeOf(v, end), em) {
								swallow(last, shortFn(fn)+" may succeed although "+callee+" failed")
							}
						}
					}
				}
			}
			r.ok("swallowed", fn, p.instrPos(rc.c)+" "+what)
		}
	}
}

// May a returned result be a success, or a continuation, given the codes of
// the failed one?
func succeeds(m, failed uint8) bool {
	return m&codeOK != 0 || m&codeYIELD != 0 && m&codeERROR == 0 && failed&codeYIELD == 0
}

func calleeName(c *ssa.Call) string {
	if f := c.Call.StaticCallee(); f != nil {
		return shortFn(f)
	}
	if c.Call.IsInvoke() {
		return shortT(c.Call.Value.Type()) + "." + c.Call.Method.Name()
	}
	return "callback"
}

// Sites where a failure is itself the outcome looked for
var errorExemptions = map[string]string{}

// Number of calls an exemption covers
var errorBudget = map[string]int{}
var errorUsed = map[string]map[ssa.Instruction]bool{}

func init() {
	add := func(reason string, keys ...string) {
		for _, k := range keys {
			errorExemptions[k] = reason
		}
	}
	add("the outcome is displayed whatever it is", "swallowed cli.run helena_dialect.Process.Run")
	add("outcomes are handed to the callbacks of the contexts below, which may handle them: see C10 and C18", "swallowed helena_dialect.Process.Run *")
	add("the error message of a failed program", "dropped cli.processResult core.ValueToString")
	add("the outcome of the body selects the handler", "swallowed helena_dialect.catchCmd.Execute helena_dialect.Process.Run",
		"unchecked helena_dialect.catchCmd.Execute helena_dialect.Process.Run")
	add("reads the result of a frame, doesn't perform anything", "dropped * core.ProgramState.lastFrameResult")
	add("placeholder for the names of commands that aren't strings", "dropped helena_dialect.USAGE_PREFIX core.ValueToStringOrDefault")
	add("a name and a guard or default in either position, one of both being a string",
		"swallowed helena_dialect.buildArgument core.ValueToString", "unchecked helena_dialect.buildArgument core.ValueToString")
	add("only fails for undeclared locals, the index being declared with the scope", "dropped * helena_dialect.Scope.SetNamedLocal")
	add("arguments that aren't strings are not options", "swallowed helena_dialect.ArgspecValue.findSlots core.ValueToString",
		"swallowed helena_dialect.isOption core.ValueToString")
	errorBudget["unchecked helena_dialect.buildArgument core.ValueToString"] = 2
	errorBudget["swallowed helena_dialect.ArgspecValue.findSlots core.ValueToString"] = 2
	add("validated by checkArgs", "dropped helena_dialect.catchCmd.run core.ValueToString")
	add("default value of get", "swallowed helena_dialect.getCmd.Execute helena_dialect.Scope.ResolveValue")
	add("picol values are strings", "dropped picol_dialect.PicolScope.resolveCommand core.ValueToString", "dropped picol_dialect.asString core.ValueToString")
}

func errorExempt(p *Program, rule string, call ssa.Instruction, callee string) string {
	if rule == "dropped" && p.isSecondPass(call) {
		return "second pass over names checked by the first one"
	}
	c := strings.NewReplacer("(", "", ")", "", "*", "").Replace(callee)
	if s := errorExemptions[rule+" * "+c]; s != "" {
		return s
	}
	return p.covered(call.Parent(), func(name string) string {
		k := rule + " " + name + " " + c
		if s := errorExemptions[rule+" "+name+" *"]; s != "" {
			return s
		}
		s := errorExemptions[k]
		if s == "" {
			return ""
		}
		if errorUsed[k] == nil {
			errorUsed[k] = map[ssa.Instruction]bool{}
		}
		errorUsed[k][call] = true
		if n := max(1, errorBudget[k]); len(errorUsed[k]) > n {
			return ""
		}
		return s
	}, 0)
}

// Is a conversion only looked for a keyword? Failed ones yield an empty string.
func keywordOnly(rc resultCall) bool {
	found := false
	for _, ref := range *rc.c.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index == rc.idx {
			continue
		}
		if !isString(e.Type()) {
			return false
		}
		ok = true
		usesOf(e, nil, func(use ssa.Instruction, v ssa.Value) {
			b, isBin := use.(*ssa.BinOp)
			if !isBin || (b.Op != token.EQL && b.Op != token.NEQ) {
				ok = false
				return
			}
			o := b.Y
			if o == v {
				o = b.X
			}
			k, isK := o.(*ssa.Const)
			if !isK || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) == "" {
				ok = false
			}
			found = true
		})
		if !ok {
			return false
		}
	}
	return found
}

// Is a value built from constants only?
func constantValue(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return constantValue(x.X, depth+1)
	case *ssa.ChangeType:
		return constantValue(x.X, depth+1)
	case *ssa.ChangeInterface:
		return constantValue(x.X, depth+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(f.FreeVars) > 0 {
			return false
		}
		for _, a := range x.Call.Args {
			if !constantValue(a, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && !constantValue(st.Val, depth+1) {
						return false
					}
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}
func constantCall(c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		if !constantValue(a, 0) {
			return false
		}
	}
	return c.Call.StaticCallee() != nil && len(c.Call.Args) > 0
}

// Errors of library functions: tested, and what comes with them only used when nil
func libraryErrors(r *Report) {
	p := r.p
	for _, fn := range p.funcs {
		if pk := fnPkg(fn); pk != nil && pk.Path() == "helena/benchmarks" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || f.Pkg == nil || strings.HasPrefix(f.Pkg.Pkg.Path(), "helena") || f.Pkg.Pkg.Path() == "fmt" || f.Signature.Recv() != nil {
					continue
				}
				res := f.Signature.Results()
				if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
					continue
				}
				what := f.String() + " in " + shortFn(fn)
				var err ssa.Value
				var others []ssa.Value
				if res.Len() == 1 {
					err = c
				} else {
					for _, ref := range *c.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok {
							if e.Index == res.Len()-1 {
								err = e
							} else {
								others = append(others, e)
							}
						}
					}
				}
				if err == nil || len(*err.Referrers()) == 0 {
					r.fail("library", fn, what, p.instrPos(c), "error of "+f.String()+" is not checked in "+shortFn(fn))
					continue
				}
				var succ []*ssa.BasicBlock
				passed := false
				usesOf(err, nil, func(use ssa.Instruction, v ssa.Value) {
					bo, ok := use.(*ssa.BinOp)
					if !ok {
						if _, isRet := use.(*ssa.Return); isRet {
							passed = true
						}
						return
					}
					for _, ref := range *bo.Referrers() {
						iff, ok := ref.(*ssa.If)
						if !ok {
							passed = true // test returned or combined
							continue
						}
						if bo.Op == token.NEQ {
							succ = append(succ, iff.Block().Succs[1])
						} else if bo.Op == token.EQL {
							succ = append(succ, iff.Block().Succs[0])
						}
					}
				})
				if len(succ) == 0 && !passed {
					r.fail("library", fn, what, p.instrPos(c), "error of "+f.String()+" is not checked in "+shortFn(fn))
					continue
				}
				bad := false
				for _, o := range others {
					usesOf(o, nil, func(use ssa.Instruction, v ssa.Value) {
						switch use.(type) {
						case *ssa.Return, *ssa.Store, *ssa.Phi:
							if passed || use.(ssa.Instruction).Block() == c.Block() {
								return
							}
						}
						for _, s := range succ {
							if len(s.Preds) == 1 && s.Dominates(use.Block()) {
								return
							}
						}
						bad = true
						r.fail("library", fn, what, p.instrPos(use), "what "+f.String()+" yields is used in "+shortFn(fn)+" although it may have failed", "call at "+p.instrPos(c))
					})
				}
				if !bad {
					r.ok("library", fn, p.instrPos(c)+" "+what)
				}
			}
		}
	}
}

func init() {
	checks["C08"] = func(r *Report, thorough bool) {
		r.rule("dropped", "the outcome of every fallible operation is consulted", 150)
		r.rule("unchecked", "what a fallible operation yields is only used where it is known to have succeeded", 150)
		r.rule("swallowed", "an operation relying on a failed one doesn't report success", 150)
		r.rule("library", "errors of library functions are tested before using what comes with them", 8)
		errorRules(r)
		libraryErrors(r)
	}
}
