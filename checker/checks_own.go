package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Is write reachable from pub without going through the allocation again?
func (o *own) writtenAfter(pub, write ssa.Instruction, v, site ssa.Value) bool {
	// variable the container is read from, reset when declared again
	var al *ssa.Alloc
	if u, ok := v.(*ssa.UnOp); ok {
		al = rootAlloc(u.X)
	}
	var siteIn ssa.Instruction
	if si, ok := site.(ssa.Instruction); ok {
		siteIn = si
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{pub.Block(), instrIndex(pub) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			in := w.b.Instrs[i]
			if in == write {
				return true
			}
			if st, ok := in.(*ssa.Store); ok && al != nil && st.Addr == al {
				stop = true
				break
			}
			if in == siteIn || al != nil && in == ssa.Instruction(al) {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return false
}

// The dispatcher of ensembles rearranges its frame, then restores it
func frameWriter(fn *ssa.Function) bool {
	return shortFn(fn) == "(*helena_dialect.EnsembleCommand).Execute"
}

func (o *own) writeProblem(og originSet, isFrame bool) string {
	for k := range og {
		switch k.kind {
		case oPayload:
			return "content of an existing value (" + k.name + ")"
		case oParam:
			if !isFrame && o.p.isFrameParam(k.site.(*ssa.Parameter)) {
				return "argument frame of the caller"
			}
		}
	}
	return ""
}

func init() {
	checks["C05"] = func(r *Report, thorough bool) {
		r.rule("write", "no element, entry or spare capacity of a slice or map held by an existing value, script or argument frame is written: every written container was allocated by the operation itself", 60)
		r.rule("after-publication", "a container is no longer written once it has become part of a value", 30)
		p := r.p
		o := newOwn(p)
		for _, fn := range p.funcs {
			if o.isTestSupport(fn) {
				continue
			}
			check := func(w ownWrite) {
				og := o.origins(w.v, map[ssa.Value]bool{})
				what := fmt.Sprintf("%s in %s", w.how, shortFn(fn))
				if w.via != "" {
					what += " through " + w.via
				}
				if pb := o.writeProblem(og, w.frame || frameWriter(fn)); pb != "" {
					r.fail("write", fn, what, p.instrPos(w.in), "writes into "+pb+": "+what, "origins: "+og.String())
				} else {
					r.ok("write", fn, p.instrPos(w.in)+" "+what+" ("+og.String()+")")
				}
			}
			var all []ownWrite
			all = append(all, o.writes[fn]...)
			o.calls(fn, func(c ssa.CallInstruction, f *ssa.Function, i int, a ssa.Value) {
				if w := o.mutates[f.Params[i]]; w != nil && sliceOrMap(a.Type()) {
					all = append(all, ownWrite{c, a, w.how, shortFn(f), p.isFrameParam(f.Params[i])})
				}
			})
			for _, w := range all {
				check(w)
			}
			o.publications(fn, func(s ownSink) {
				og := o.origins(s.v, map[ssa.Value]bool{})
				bad := false
				for k := range og {
					if k.kind != oFresh {
						continue
					}
					for _, w := range all {
						if w.in == s.in || !o.origins(w.v, map[ssa.Value]bool{})[k] {
							continue
						}
						if o.writtenAfter(s.in, w.in, w.v, k.site) {
							bad = true
							r.fail("after-publication", fn, shortFn(fn)+" "+w.how, p.instrPos(w.in), w.how+" of a container that is already part of a value", "published at "+p.instrPos(s.in)+" "+s.how)
						}
					}
				}
				if !bad {
					r.ok("after-publication", fn, p.instrPos(s.in)+" "+s.how)
				}
			})
		}
	}
	checks["C06"] = func(r *Report, thorough bool) {
		r.rule("frame-escape", "arguments of a command become part of a value only through a copy", 30)
		p := r.p
		o := newOwn(p)
		for _, fn := range p.funcs {
			if o.isTestSupport(fn) {
				continue
			}
			seen := map[ssa.Instruction]bool{}
			pub := false
			visit := func(s ownSink) {
				if seen[s.in] {
					return
				}
				seen[s.in] = true
				og := o.origins(s.v, map[ssa.Value]bool{})
				frame := false
				state := ""
				for k := range og {
					if k.kind == oParam && p.isFrameParam(k.site.(*ssa.Parameter)) {
						frame = true
					}
					if k.kind == oState && o.inPlace[k.name] != "" && pub {
						state = k.name
					}
				}
				if state != "" {
					r.fail("frame-escape", fn, shortFn(fn)+" "+state+" "+s.how, p.instrPos(s.in), state+", which is reused in place, "+s.how+" without a copy in "+shortFn(fn), "written at "+o.inPlace[state])
				} else if frame {
					r.fail("frame-escape", fn, shortFn(fn)+" "+s.how, p.instrPos(s.in), "argument frame "+s.how+" without a copy in "+shortFn(fn), og.String())
				} else {
					r.ok("frame-escape", fn, p.instrPos(s.in)+" "+s.how+" ("+og.String()+")")
				}
			}
			o.retentions(fn, visit)
			pub = true
			seen = map[ssa.Instruction]bool{}
			o.publications(fn, visit)
		}
	}
}

func (o *own) isTestSupport(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && pk.Path() == "helena/benchmarks"
}
