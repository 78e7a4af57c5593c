package main

// Fate of the results of scripts run by commands: what each construct makes of
// return, break, continue, error and custom results.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a function returns when one of its calls yields a given code: possible
// codes, whether it is always the very same result
func (d *flow) outcomes(fn *ssa.Function, c *ssa.Call, k uint8) (uint8, bool, bool) {
	st := d.states(fn)[c.Block()]
	if st == nil {
		return 0, true, false
	}
	d.force = map[*ssa.Call]uint8{c: k}
	defer func() { d.force = nil }()
	var m uint8
	same := true
	rets := false
	path := d.path(c)
	for b, in := range d.runFrom(fn, c.Block(), st.clone()) {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rets = true
		end := d.transferBlock(fn, b, in.clone(), nil)
		for i, v := range rt.Results {
			if d.isRes(fn.Signature.Results().At(i).Type()) {
				m |= d.codeOf(v, end)
				if !d.sameResult(v, path, end, k, 0) {
					same = false
				}
			}
		}
	}
	return m, same, rets
}

// Is a value the result at a path, possibly handed back by a helper?
func (d *flow) sameResult(v ssa.Value, path string, st *factState, k uint8, depth int) bool {
	if p := d.path(v); p == path || st.holds[p] == path {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || d.path(e) == path {
				continue
			}
			if m, ok := st.codes[d.path(e)]; ok && m&k == 0 {
				continue // another outcome
			}
			return false
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := singleStore(al); s != nil {
				return d.sameResult(s, path, st, k, depth)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return d.handedBack(c, x.Index, path, st, k, depth)
		}
	case *ssa.Call:
		return d.handedBack(x, 0, path, st, k, depth)
	}
	return false
}
func (d *flow) handedBack(x *ssa.Call, idx int, path string, st *factState, k uint8, depth int) bool {
	f := x.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || depth > 3 {
		return false
	}
	{
		for i, pa := range f.Params {
			if i >= len(x.Call.Args) || !d.isRes(pa.Type()) || !d.sameResult(x.Call.Args[i], path, st, k, depth+1) {
				continue
			}
			pp := fmt.Sprintf("P%d", i)
			all, any := true, false
			for b, in := range d.run(f, func(st *factState) { st.codes[pp] = k }, false) {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
					any = true
					end := d.transferBlock(f, b, in.clone(), nil)
					all = all && d.sameResult(rt.Results[idx], pp, end, k, depth+1)
				}
			}
			if all && any {
				return true
			}
		}
	}
	return false
}

// Same for a callback given a result
func (d *flow) callbackOutcomes(fn *ssa.Function, k uint8) (m uint8, same bool, states map[*ssa.BasicBlock]*factState) {
	same = true
	states = d.run(fn, func(st *factState) { st.codes["P0"] = k }, false)
	for b, in := range states {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		end := d.transferBlock(fn, b, in.clone(), nil)
		m |= d.codeOf(rt.Results[0], end)
		if !d.sameResult(rt.Results[0], "P0", end, k, 0) {
			same = false
		}
	}
	return
}

func (d *flow) isCallback(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && d.isRes(s.Params().At(0).Type()) &&
		d.isRes(s.Results().At(0).Type()) && len(fn.Blocks) > 0
}

// Functions able to create continuations, directly or not
func (p *Program) continuing() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Call:
						if openCall(x) {
							continue
						}
						if f := x.Call.StaticCallee(); f != nil && f.Name() == "NewContinuationValue" {
							out[fn] = true
						}
						for _, f := range p.callees(x) {
							if out[f] {
								out[fn] = true
							}
						}
					}
				}
			}
			if out[fn] {
				changed = true
			}
		}
	}
	return out
}

// How constructs treat the results of the scripts they run
const (
	forwardsAll = iota // every interruption is passed on
	callable           // return gives the value, others are errors
	looping            // break and continue control the iteration
	outcomeData        // the outcome is data
	rejects            // anything but a value is an error
	suspends           // return and yield give the value, others are errors
	handling           // passed on, but for the custom code pass
	picolLoop          // break and continue may control an iteration
	picolProc          // only errors are passed on
)

var resultClasses = map[string]int{
	"helena_dialect.procCommand.Execute":  callable,
	"helena_dialect.namespaceCmd.Execute": callable,
	"helena_dialect.scopeCmd.Execute":     callable,
	"helena_dialect.ensembleCmd.Execute":  callable,

	"helena_dialect.loopCmdBody":            looping,
	"helena_dialect.loopCmdNextSource":      looping,
	"helena_dialect.whileCmdLoop":           looping,
	"helena_dialect.whileCmdTest":           looping,
	"helena_dialect.listForeachCmd.Execute": looping,
	"helena_dialect.dictForeachCmd.Execute": looping,

	"helena_dialect.catchCmd.Execute":     outcomeData,
	"helena_dialect.catchCmd.run":         outcomeData,
	"helena_dialect.coroutineCommand.run": suspends,

	"picol_dialect.procCommand.Execute": picolProc,

	"helena_dialect.createModule":                         rejects,
	"helena_dialect.ArgspecValue.setSlotValues":           rejects,
	"helena_dialect.ArgspecValue.setPositionalSlotValues": rejects,
	"helena_dialect.ArgspecValue.setSlotValue":            forwardsAll,
	"helena_dialect.ValueToArray":                         rejects,
}

func (p *Program) resultClass(fn *ssa.Function) int {
	s := p.covered(fn, func(name string) string {
		if c, ok := resultClasses[name]; ok {
			return fmt.Sprint(c)
		}
		return ""
	}, 0)
	c := forwardsAll
	fmt.Sscan(s, &c)
	return c
}

var classNames = []string{"passes interruptions on", "body of a callable", "body of a loop", "outcome as data", "only accepts values", "suspendable body", "handler", "picol command", "picol procedure"}

// Does an outcome fit a class?
func fits(class int, k uint8, m uint8, same bool) string {
	if same {
		if class == callable && k != codeERROR {
			return "is passed on"
		}
		if class == suspends && k != codeERROR {
			return "is passed on"
		}
		return ""
	}
	switch class {
	case outcomeData:
		return ""
	case handling:
		if k == codeCUSTOM {
			return ""
		}
	case picolProc:
		if k != codeERROR {
			return ""
		}
	case looping, picolLoop:
		if k == codeBREAK || k == codeCONTINUE {
			return ""
		}
	case callable, suspends:
		if k == codeRETURN || class == suspends && k == codeYIELD {
			if m&(codeRETURN|codeBREAK|codeCONTINUE|codeCUSTOM) != 0 {
				return "may give " + codeSet(m)
			}
			if m&(codeOK|codeYIELD) == 0 {
				return "gives " + codeSet(m)
			}
			return ""
		}
		if k != codeERROR && m&^codeERROR == 0 {
			return ""
		}
	case rejects:
		if m&^codeERROR == 0 {
			return ""
		}
	}
	if k == codeYIELD && m == codeYIELD {
		return ""
	}
	return "gives " + codeSet(m) + " instead"
}

// Program run by the continuation a callback is given to
func continuationProgram(fn *ssa.Function) ssa.Value {
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			var prog ssa.Value
			has := false
			for _, a := range c.Call.Args {
				if strings.HasSuffix(a.Type().String(), "core.Program") {
					prog = a
				}
				for {
					if ct, ok := a.(*ssa.ChangeType); ok {
						a = ct.X
						continue
					}
					break
				}
				if a == fn {
					has = true
				}
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn {
					has = true
				}
			}
			if has {
				return prog
			}
		}
	}
	return nil
}

// Is a program the condition of a loop?
func isTest(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		return isField(u.X, "testProgram")
	}
	return false
}

func resultRules(r *Report) {
	p := r.p
	d := newFlow(p)
	cont := p.continuing()
	for _, fn := range p.funcs {
		if pk := fnPkg(fn); pk != nil && (pk.Path() == "helena/benchmarks" || pk.Path() == "helena/cli") {
			continue
		}
		if d.isCallback(fn) {
			class := p.resultClass(fn)
			prog := continuationProgram(fn)
			if class == looping && isTest(prog) {
				class = forwardsAll // condition
			}
			for k := codeRETURN; k <= codeCUSTOM; k <<= 1 {
				if k == codeYIELD {
					continue // not passed to callbacks
				}
				what := codeSet(k) + " given to " + shortFn(fn)
				m, same, states := d.callbackOutcomes(fn, k)
				if why := fits(class, k, m, same); why != "" {
					r.fail("callback", fn, what, p.pos(fn), fmt.Sprintf("%s of a script run by %s %s (%s)", codeSet(k), shortFn(fn), why, classNames[class]))
					continue
				}
				r.ok("callback", fn, p.pos(fn)+" "+what+" -> "+codeSet(m))
				if class != looping || prog == nil || k != codeBREAK && k != codeCONTINUE {
					continue
				}
				// break ends the iteration, continue goes on
				for b, in := range states {
					st := in.clone()
					var ret *ssa.Return
					for _, i := range b.Instrs {
						if c, ok := i.(*ssa.Call); ok && k == codeBREAK {
							for _, f := range p.callees(c) {
								if cont[f] || f.Name() == "NewContinuationValue" {
									r.fail("loop", fn, what, p.instrPos(c), "a loop may go on in "+shortFn(fn)+" after a break")
								}
							}
						}
						if rt, ok := i.(*ssa.Return); ok {
							ret = rt
						}
						d.step(fn, i, st)
					}
					if ret == nil || k != codeCONTINUE {
						continue
					}
					c, ok := ret.Results[0].(*ssa.Call)
					goesOn := false
					if ok {
						for _, f := range p.callees(c) {
							goesOn = goesOn || cont[f]
						}
					}
					if !goesOn {
						r.fail("loop", fn, what, p.instrPos(ret), "a loop may end in "+shortFn(fn)+" after a continue")
					}
				}
				r.ok("loop", fn, p.pos(fn)+" "+what)
			}
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !d.isRes(c.Type()) || d.states(fn)[b] == nil {
					continue
				}
				n := ""
				if f := c.Call.StaticCallee(); f != nil {
					n = f.Name()
				} else if c.Call.IsInvoke() {
					n = c.Call.Method.Name()
				}
				switch n {
				case "Run", "EvaluateScript", "EvaluateSentence", "Execute", "Resume", "ExecuteUntil":
				default:
					continue
				}
				returns := false
				for i := 0; i < fn.Signature.Results().Len(); i++ {
					returns = returns || d.isRes(fn.Signature.Results().At(i).Type())
				}
				if !returns {
					continue
				}
				if p.covered(fn, func(name string) string {
					if name == "helena_dialect.Process.Run" || name == "core.Executor.ExecuteUntil" {
						return "see delivery, and C18"
					}
					return ""
				}, 0) != "" {
					continue
				}
				class := p.resultClass(fn)
				if class == outcomeData && n == "Run" && len(c.Call.Args) == 1 {
					if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && isField(u.X, "process") {
						class = handling
					}
				}
				if pk := fnPkg(fn); pk != nil && pk.Path() == "helena/picol_dialect" && class == forwardsAll {
					class = picolLoop
				}
				for k := codeRETURN; k <= codeCUSTOM; k <<= 1 {
					what := codeSet(k) + " from " + calleeName(c) + " in " + shortFn(fn)
					m, same, rets := d.outcomes(fn, c, k)
					if !rets {
						r.fail("run", fn, what, p.instrPos(c), "no outcome for "+what)
						continue
					}
					if why := fits(class, k, m, same); why != "" {
						r.fail("run", fn, what, p.instrPos(c), fmt.Sprintf("%s from %s in %s %s (%s)", codeSet(k), calleeName(c), shortFn(fn), why, classNames[class]))
						continue
					}
					r.ok("run", fn, p.instrPos(c)+" "+what+" -> "+codeSet(m))
				}
			}
		}
	}
}

// Interrupted programs are only resumed with values
func deliveryRules(r *Report) {
	p := r.p
	d := newFlow(p)
	for _, fn := range p.funcs {
		if plainFn(fn) != "helena_dialect.Process.Run" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || f.Name() != "SetResult" {
					continue
				}
				st := d.before(fn, c)
				if st == nil {
					continue
				}
				v := c.Call.Args[len(c.Call.Args)-1]
				if m := d.codeOf(v, st); m != codeOK {
					r.fail("delivery", fn, "SetResult", p.instrPos(c), "a program may be resumed with "+codeSet(m))
				} else {
					r.ok("delivery", fn, p.instrPos(c))
				}
			}
		}
	}
}

func init() {
	checks["C10"] = func(r *Report, thorough bool) {
		r.rule("callback", "what the callback of a script makes of each interruption", 60)
		r.rule("loop", "break ends an iteration, continue resumes it", 4)
		r.rule("run", "what a function running a program or command makes of each interruption", 100)
		r.rule("delivery", "interrupted programs are only resumed with values", 1)
		resultRules(r)
		deliveryRules(r)
	}
}
