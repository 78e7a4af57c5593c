package main

// Usage messages, arity checks, help and subcommand lists (C11)

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxFrame = 14

// Numbers of words a signature stands for, as a set of counts up to maxFrame+2
func sigCounts(tokens []string) map[int]bool {
	counts := map[int]bool{0: true}
	add := func(k int) map[int]bool {
		out := map[int]bool{}
		for n := range counts {
			if n+k <= maxFrame+2 {
				out[n+k] = true
			}
		}
		return out
	}
	group, lastGroup := 0, 0
	inGroup := false
	depth := 0
	repeat := func(k int) {
		for again := k > 0; again; {
			again = false
			for n := range add(k) {
				if !counts[n] {
					counts[n] = true
					again = true
				}
			}
		}
	}
	closeGroup := func(rep bool) {
		if rep {
			repeat(group)
		} else {
			for n := range add(group) {
				counts[n] = true
			}
		}
		lastGroup, group, inGroup = group, 0, false
	}
	for _, t := range tokens {
		if depth > 0 || strings.HasPrefix(t, "{") {
			depth += strings.Count(t, "{") - strings.Count(t, "}")
			if depth == 0 {
				if inGroup {
					group++
				} else {
					counts = add(1)
				}
			}
			continue
		}
		if t == "?...?" {
			repeat(lastGroup)
			continue
		}
		if !inGroup && strings.HasPrefix(t, "?") && len(t) > 1 {
			inGroup = true
			group = 0
			t = t[1:]
		}
		if !inGroup {
			counts = add(1)
			continue
		}
		end := strings.HasSuffix(t, "?")
		if end {
			t = t[:len(t)-1]
		}
		rep := t == "..."
		if !rep {
			group++
		}
		if end {
			closeGroup(rep)
		}
	}
	return counts
}

// A command implementation: what runs, helps and how it is registered
type unit struct {
	fn   *ssa.Function
	help *ssa.Function
	name string
	regs []string // names under which it is registered
}

// What a call may do with a given number of arguments
type arityOutcome struct {
	sigs    map[string]bool // usage messages of arity errors, "" when none is given
	texts   map[string]bool // texts returned
	globs   map[string]bool // globals returned
	other   bool
	unknown bool // every outcome is an unknown name
}

var unknownMessage = regexp.MustCompile(`^(unknown subcommand|unsupported method)`)

var arityMessage = regexp.MustCompile(`^wrong # ?(args|operands)`)

const usageMark = `should be "`

func (e *aeval) outcome(fn *ssa.Function, n int) *arityOutcome {
	frame := make(aSlice, n)
	for i := range frame {
		frame[i] = aArg(i)
	}
	args := make([]aval, len(fn.Params))
	for i, pa := range fn.Params {
		if isValueSlice(pa.Type()) {
			args[i] = frame
		}
	}
	o := &arityOutcome{map[string]bool{}, map[string]bool{}, map[string]bool{}, false, true}
	switch r := e.eval(fn, args, nil).(type) {
	case aRes:
		for _, a := range r {
			s, isText := a.val.(string)
			if a.codes == codeERROR && isText && arityMessage.MatchString(s) {
				if i := strings.Index(s, usageMark); i >= 0 {
					o.sigs[strings.TrimSuffix(s[i+len(usageMark):], `"`)] = true
				} else {
					o.sigs[""] = true
				}
				o.unknown = false
				continue
			}
			o.other = true
			if !(a.codes == codeERROR && isText && unknownMessage.MatchString(s)) {
				o.unknown = false
			}
			if a.codes == codeOK && isText {
				o.texts[s] = true
			}
			if g, ok := a.val.(aGlob); ok && a.codes == codeOK {
				o.globs[string(g)] = true
			}
		}
	case nil:
		o.unknown = false
	default:
		o.unknown = false
		o.other = true
	}
	return o
}

// Every implementation of a command of the module
func (p *Program) commandUnits() []*unit {
	var out []*unit
	byType := map[string]*unit{}
	for _, fn := range p.funcs {
		sig := fn.Signature
		if sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isValueSlice(sig.Params().At(0).Type()) {
			continue
		}
		if sig.Results().At(0).Type().String() != "helena/core.Result" || sig.Params().At(1).Type().String() != "any" {
			continue
		}
		u := &unit{fn: fn, name: shortFn(fn)}
		if rv := sig.Recv(); rv != nil {
			if fn.Name() != "Execute" {
				continue
			}
			u.help = p.methodOf(rv.Type(), "Help")
			byType[rv.Type().String()] = u
			u.name = strings.TrimPrefix(strings.TrimPrefix(rv.Type().String(), "*"), "helena/")
		} else if fn.Parent() == nil && !p.addrTaken[fn] {
			continue
		}
		out = append(out, u)
	}
	// registrations by constant names
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := c.Call.StaticCallee()
				if cal == nil || !strings.HasPrefix(baseName(cal), "Register") {
					continue
				}
				name, t := "", ""
				for _, a := range c.Call.Args {
					if k, ok := a.(*ssa.Const); ok && isString(k.Type()) && k.Value != nil {
						name = strings.Trim(k.Value.ExactString(), `"`)
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						t = mi.X.Type().String()
					}
				}
				if u := byType[t]; u != nil && name != "" {
					u.regs = append(u.regs, name)
				}
			}
		}
	}
	return out
}

// Names a Subcommands variable is initialised with
func (p *Program) subcommandLists() map[string][]string {
	out := map[string][]string{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				v := st.Val
				c, ok := v.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range c.Call.Args {
					if sl, ok := a.(*ssa.Slice); ok && isStringSlice(sl.Type()) {
						if l, ok := constStrings(sl); ok {
							out[g.String()] = l
						}
					}
				}
			}
		}
	}
	return out
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// Constants of a slice literal
func constStrings(sl *ssa.Slice) ([]string, bool) {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []string
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				k, ok := st.Val.(*ssa.Const)
				if !ok || k.Value == nil {
					return nil, false
				}
				out = append(out, constText(k))
			}
		}
	}
	return out, true
}

func usageRules(r *Report) {
	p := r.p
	r.rule("arity", "a call is rejected for its number of arguments exactly when the usage message says so, for each subcommand and each count up to 14", 120)
	r.rule("help", "help shows the usage message of arity errors, and rejects exactly the requests with more arguments than it allows", 80)
	r.rule("subcommands", "the listed subcommands are those that are dispatched, and those that help knows", 8)
	r.rule("names", "the name in a usage message is the one under which the command is registered", 60)
	lists := p.subcommandLists()
	for _, u := range p.commandUnits() {
		checkUsage(r, u, lists)
	}
}

func checkUsage(r *Report, u *unit, lists map[string][]string) {
	p := r.p
	names := dispatchedNames(p, u.fn)
	variants := append([]string{""}, sortedKeys(names)...)
	usages := map[string]map[string]bool{} // subcommand -> usage messages
	for _, s := range variants {
		e := newAeval(p)
		lo := 1
		if s != "" {
			e.sub = s
			lo = 2
		} else {
			e.sub = "\x01"
		}
		out := map[int]*arityOutcome{}
		sigs := map[string]bool{}
		undecided := false
		for n := lo; n <= maxFrame; n++ {
			o := e.outcome(u.fn, n)
			out[n] = o
			for t := range o.sigs {
				if t != "" {
					sigs[t] = true
				}
			}
			if len(o.sigs) > 0 && o.other {
				undecided = true
			}
		}
		usages[s] = sigs
		label := u.name
		if s != "" {
			label += " " + s
		}
		pos := p.pos(u.fn)
		for t := range sigs {
			acc, ok := acceptedCounts(u, t, s)
			if !ok {
				r.excluded("arity", u.fn, label, "usage message "+show(t)+" depends on an argument specification")
				continue
			}
			var rejected, accepted []string
			for n := lo; n <= maxFrame; n++ {
				o := out[n]
				switch {
				case o.sigs[t] && !o.other && len(o.sigs) == 1 && acc[n]:
					rejected = append(rejected, fmt.Sprint(n))
				case len(o.sigs) == 0 && o.other && !acc[n] && !(s == "" && len(names) > 0 && n > 1):
					accepted = append(accepted, fmt.Sprint(n))
				}
			}
			if len(rejected) > 0 {
				r.fail("arity", u.fn, label+" rejects", pos,
					fmt.Sprintf("%s: calls with %s words are rejected although the usage is %q", label, strings.Join(rejected, ", "), show(t)))
			}
			if len(accepted) > 0 {
				r.fail("arity", u.fn, label+" accepts", pos,
					fmt.Sprintf("%s: calls with %s words are accepted although the usage is %q", label, strings.Join(accepted, ", "), show(t)))
			}
			if len(rejected)+len(accepted) == 0 {
				if undecided {
					r.excluded("arity", u.fn, label, "counts accepted depend on the contents of the arguments")
				} else {
					r.ok("arity", u.fn, label+": "+show(t))
				}
			}
			if len(u.regs) > 0 {
				okName := false
				toks := strings.Fields(t)
				for _, reg := range u.regs {
					for i, w := range toks {
						if w == reg && i < 3 || strings.Contains(w, unknownText) {
							okName = true
						}
					}
				}
				if okName {
					r.ok("names", u.fn, strings.Join(u.regs, ", "))
				} else {
					r.fail("names", u.fn, label+" name", pos, fmt.Sprintf("%s is registered as %s but its usage is %q", u.name, strings.Join(u.regs, ", "), show(t)))
				}
			}
		}
	}
	var helpNames map[string]bool
	if u.help != nil && len(u.help.Blocks) > 0 && p.inModule[u.help] {
		helpNames = dispatchedNames(p, u.help)
		for _, s := range sortedKeys(helpNames) {
			checkHelp(r, u, s, usages[s])
		}
		checkHelp(r, u, "", usages[""])
	}
	if !names["subcommands"] {
		return
	}
	// list
	e := newAeval(p)
	e.sub = "subcommands"
	o := e.outcome(u.fn, 2)
	pos := p.pos(u.fn)
	for g := range o.globs {
		g = strings.TrimSuffix(g, ".List")
		l, ok := lists[g]
		if !ok {
			continue
		}
		listed := map[string]bool{}
		for _, n := range l {
			listed[n] = true
		}
		compareNames(r, u, pos, listed, "listed", names, "dispatched")
		if helpNames != nil && len(helpNames) > 0 {
			compareNames(r, u, p.pos(u.help), helpNames, "documented by help", names, "dispatched")
		}
	}
	if len(o.globs) == 0 {
		r.excluded("subcommands", u.fn, u.name, "the list is computed when requested")
	}
}

func compareNames(r *Report, u *unit, pos string, a map[string]bool, what string, b map[string]bool, than string) {
	bad := false
	for _, n := range sortedKeys(a) {
		if !b[n] {
			bad = true
			r.fail("subcommands", u.fn, u.name+" "+what+" "+n, pos, fmt.Sprintf("%s: subcommand %q is %s but not %s", u.name, n, what, than))
		}
	}
	for _, n := range sortedKeys(b) {
		if !a[n] {
			bad = true
			r.fail("subcommands", u.fn, u.name+" not "+what+" "+n, pos, fmt.Sprintf("%s: subcommand %q is %s but not %s", u.name, n, than, what))
		}
	}
	if !bad {
		r.ok("subcommands", u.fn, u.name+": "+strings.Join(sortedKeys(b), " "))
	}
}

func checkHelp(r *Report, u *unit, s string, usage map[string]bool) {
	p := r.p
	e := newAeval(p)
	lo := 1
	if s != "" {
		e.sub = s
		lo = 2
	} else {
		e.sub = "\x01"
	}
	label := u.name + " help"
	if s != "" {
		label += " " + s
	}
	pos := p.pos(u.help)
	texts := map[string]bool{}
	out := map[int]*arityOutcome{}
	for n := lo; n <= maxFrame; n++ {
		o := e.outcome(u.help, n)
		if s == "" && n > 1 && o.other && len(o.texts) == 0 {
			continue // unknown subcommand
		}
		out[n] = o
		if s == "" && len(o.texts) > 1 {
			r.excluded("help", u.help, label, "the position of the subcommand name is not known")
			return
		}
		for t := range o.texts {
			texts[t] = true
		}
		for t := range o.sigs {
			texts[t] = true
		}
	}
	if len(texts) == 0 {
		return
	}
	if len(texts) > 1 {
		r.fail("help", u.help, label+" texts", pos, fmt.Sprintf("%s gives different usages: %s", label, showAll(texts)))
		return
	}
	t := sortedKeys(texts)[0]
	bad := false
	for _, x := range sortedKeys(usage) {
		if !sameUsage(x, t) && s+"|" != "|" || s == "" && len(usage) > 0 && !sameUsage(x, t) && !strings.Contains(t, "?subcommand?") {
			bad = true
			r.fail("help", u.help, label+" differs", pos, fmt.Sprintf("%s gives %q but arity errors give %q", label, show(t), show(x)))
		}
	}
	acc, ok := acceptedCounts(u, t, s)
	if !ok {
		r.excluded("help", u.help, label, "usage "+show(t)+" depends on an argument specification")
		return
	}
	most := 0
	for n := range acc {
		if n > most {
			most = n
		}
	}
	for n := lo; n <= maxFrame; n++ {
		o := out[n]
		if o == nil {
			continue
		}
		switch {
		case len(o.sigs) > 0 && !o.other && n <= most:
			bad = true
			r.fail("help", u.help, fmt.Sprintf("%s rejects %d", label, n), pos, fmt.Sprintf("%s with %d words is rejected although the usage is %q", label, n, show(t)))
		case len(o.sigs) == 0 && o.other && n > most:
			bad = true
			r.fail("help", u.help, fmt.Sprintf("%s accepts %d", label, n), pos, fmt.Sprintf("%s with %d words is accepted although the usage is %q", label, n, show(t)))
		}
	}
	if !bad {
		r.ok("help", u.help, label+": "+show(t))
	}
}

func sameUsage(a, b string) bool {
	if a == b {
		return true
	}
	// unknown parts stand for anything
	pattern := func(p, t string) bool {
		var parts []string
		for _, x := range strings.Split(p, unknownText) {
			parts = append(parts, regexp.QuoteMeta(x))
		}
		return regexp.MustCompile("^" + strings.Join(parts, "(?s:.*)") + "$").MatchString(t)
	}
	ua, ub := strings.Contains(a, unknownText), strings.Contains(b, unknownText)
	switch {
	case ua && ub:
		i, j := strings.Index(a, unknownText), strings.Index(b, unknownText)
		i2, j2 := strings.LastIndex(a, unknownText), strings.LastIndex(b, unknownText)
		return (strings.HasPrefix(a[:i], b[:j]) || strings.HasPrefix(b[:j], a[:i])) &&
			(strings.HasSuffix(a[i2:], b[j2+len(unknownText):]) || strings.HasSuffix(b[j2:], a[i2+len(unknownText):]))
	case ua:
		return pattern(a, b)
	case ub:
		return pattern(b, a)
	}
	return false
}

func show(t string) string { return strings.ReplaceAll(t, unknownText, "…") }
func showAll(m map[string]bool) string {
	var l []string
	for _, t := range sortedKeys(m) {
		l = append(l, fmt.Sprintf("%q", show(t)))
	}
	return strings.Join(l, ", ")
}

// Subcommand names a function compares its first argument with
func dispatchedNames(p *Program, fn *ssa.Function) map[string]bool {
	e := newAeval(p)
	e.sub = aSub{}
	for n := 2; n <= 6; n++ {
		e.outcome(fn, n)
	}
	delete(e.names, "")
	out := map[string]bool{}
	for _, s := range sortedKeys(e.names) {
		e := newAeval(p)
		e.sub = s
		for n := 2; n <= 6 && !out[s]; n++ {
			out[s] = !e.outcome(fn, n).unknown
		}
		if !out[s] {
			delete(out, s)
		}
	}
	return out
}

// Lengths of frames described by a usage message for a subcommand
func acceptedCounts(u *unit, t, sub string) (map[int]bool, bool) {
	toks := strings.Fields(t)
	base := 0
	rest := toks
	if sub != "" {
		for i, w := range toks {
			if i > 0 && w == sub {
				rest = toks[i+1:]
				base = 2
				break
			}
		}
	}
	if base == 0 {
		// commands of an ensemble receive the value but not the name
		if sub != "" && strings.Contains(t, unknownText) {
			return nil, false // the name is not told apart
		}
		shift := 0
		if len(u.regs) > 0 && len(toks) > 0 && !contains(u.regs, toks[0]) && !strings.Contains(toks[0], unknownText) {
			shift = -1
		}
		base = shift
		if len(toks) > 0 && toks[0] == unknownText && len(toks) > 1 && strings.HasPrefix(toks[1], "?sub") {
			return nil, false
		}
	}
	for _, w := range rest {
		if w == unknownText && base == 2 {
			return nil, false
		}
	}
	if t == unknownText || t == "" {
		return nil, false
	}
	acc := map[int]bool{}
	for n := range sigCounts(rest) {
		acc[n+base] = true
	}
	return acc, true
}

func init() {
	checks["C11"] = func(r *Report, thorough bool) { usageRules(r) }
}
