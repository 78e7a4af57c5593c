package main

// Terms, constraints and constraint sets of the demand-driven backward
// analysis (see engine.go)

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	parent *Ctx
	call   ssa.CallInstruction
	fn     *ssa.Function
	depth  int
	id     int
}

type TK uint8

const (
	tVal TK = iota
	tConst
	tLen
	tProj
	tMem
	tFieldAddr
	tIndexAddr
	tUnbox
	tBox
	tTypeOf
	tBin
	tNot
	tNeg
	tCommaOk
	tIsT
	tSlice
	tAppend
	tMakeSlice
	tStr // opaque string/struct constructions: conv
	tZero
)

type Term struct {
	k    TK
	ctx  *Ctx
	v    ssa.Value
	a    *Term
	b    *Term
	c    *Term
	n    int
	op   token.Token
	typ  types.Type
	cv   constant.Value // constants; nil constant = nil value
	key  string
	leaf map[*Term]bool // leaf Val terms
}

type terms struct {
	tab map[string]*Term
	ids map[any]int
}

func newTerms() *terms { return &terms{tab: map[string]*Term{}, ids: map[any]int{}} }

func (ts *terms) id(x any) int {
	if i, ok := ts.ids[x]; ok {
		return i
	}
	i := len(ts.ids) + 1
	ts.ids[x] = i
	return i
}

func (ts *terms) mk(t Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", t.k)
	if t.ctx != nil {
		fmt.Fprintf(&b, "@%d", t.ctx.id)
	}
	if t.v != nil {
		fmt.Fprintf(&b, "v%d", ts.id(t.v))
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteString("(" + x.key + ")")
		} else {
			b.WriteString("_")
		}
	}
	if t.n != 0 {
		fmt.Fprintf(&b, "n%d", t.n)
	}
	if t.op != 0 {
		fmt.Fprintf(&b, "o%d", t.op)
	}
	if t.typ != nil && t.k != tVal {
		fmt.Fprintf(&b, "t%s", t.typ.String())
	}
	if t.cv != nil {
		b.WriteString("c" + t.cv.ExactString())
	}
	k := b.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	t.key = fmt.Sprintf("#%d", len(ts.tab))
	x := &t
	x.leaf = map[*Term]bool{}
	if x.k == tVal {
		x.leaf[x] = true
	}
	for _, y := range []*Term{t.a, t.b, t.c} {
		if y != nil {
			for l := range y.leaf {
				x.leaf[l] = true
			}
		}
	}
	ts.tab[k] = x
	return x
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	switch t.k {
	case tVal:
		s := t.v.Name()
		if t.ctx != nil && t.ctx.parent != nil {
			s += fmt.Sprintf("@%d", t.ctx.id)
		}
		return s
	case tConst:
		if t.cv == nil {
			return "nil"
		}
		return t.cv.String()
	case tLen:
		return "len(" + t.a.String() + ")"
	case tProj:
		return fmt.Sprintf("%s.%d", t.a, t.n)
	case tMem:
		return "*" + t.a.String()
	case tFieldAddr:
		return fmt.Sprintf("&%s.%s", t.a, fieldName(t.a.typ, t.n))
	case tIndexAddr:
		return fmt.Sprintf("&%s[%s]", t.a, t.b)
	case tUnbox:
		return fmt.Sprintf("%s.(%s)", t.a, shortT(t.typ))
	case tBox:
		return fmt.Sprintf("box(%s)", t.a)
	case tTypeOf:
		return fmt.Sprintf("type(%s)", t.a)
	case tBin:
		return fmt.Sprintf("(%s%s%s)", t.a, t.op, t.b)
	case tNot:
		return "!" + t.a.String()
	case tNeg:
		return "-" + t.a.String()
	case tCommaOk:
		return fmt.Sprintf("%s.(%s,ok)", t.a, shortT(t.typ))
	case tIsT:
		return fmt.Sprintf("(%s is %s)", t.a, shortT(t.typ))
	case tSlice:
		return fmt.Sprintf("%s[%s:%s]", t.a, t.b, t.c)
	case tAppend:
		return fmt.Sprintf("append(%s,%s)", t.a, t.b)
	case tMakeSlice:
		return fmt.Sprintf("make(%s)", t.a)
	case tZero:
		return "zero"
	}
	return "?" + t.key
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t types.Type, n int) string {
	if t == nil {
		return fmt.Sprint(n)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && n < st.NumFields() {
		return st.Field(n).Name()
	}
	return fmt.Sprint(n)
}

// Linear constraint: sum(k*t) <= c
type LinTerm struct {
	t *Term
	k int64
}
type Lin struct {
	ts []LinTerm
	c  int64
	k  string
}

const BIG = int64(1) << 55

func (l Lin) key() string {
	if l.k != "" || len(l.ts) == 0 {
		return l.k
	}
	return linKey(l.ts)
}
func linKey(ts []LinTerm) string {
	b := make([]byte, 0, 12*len(ts))
	for _, t := range ts {
		b = strconv.AppendInt(b, t.k, 10)
		b = append(b, t.t.key...)
		b = append(b, '+')
	}
	return string(b)
}
func (l Lin) neg() Lin {
	m := Lin{c: -l.c}
	for _, t := range l.ts {
		m.ts = append(m.ts, LinTerm{t.t, -t.k})
	}
	m.k = linKey(m.ts)
	return m
}
func (l Lin) String() string {
	var b strings.Builder
	for i, t := range l.ts {
		if i > 0 {
			b.WriteString(" + ")
		}
		if t.k != 1 {
			fmt.Fprintf(&b, "%d*", t.k)
		}
		b.WriteString(t.t.String())
	}
	if len(l.ts) == 0 {
		b.WriteString("0")
	}
	fmt.Fprintf(&b, " <= %d", l.c)
	return b.String()
}

// linear expression: sum + c
type LinExpr struct {
	m map[*Term]int64
	c int64
}

func (e LinExpr) add(o LinExpr, k int64) LinExpr {
	r := LinExpr{m: map[*Term]int64{}, c: e.c + k*o.c}
	for t, v := range e.m {
		r.m[t] = v
	}
	for t, v := range o.m {
		r.m[t] += k * v
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

// expression <= 0 as a constraint
func (e LinExpr) le0() Lin {
	l := Lin{c: -e.c}
	for t, v := range e.m {
		if v != 0 {
			l.ts = append(l.ts, LinTerm{t, v})
		}
	}
	sortLin(l.ts)
	l = l.normalize()
	l.k = linKey(l.ts)
	return l
}
func sortLin(ts []LinTerm) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].t.key < ts[j-1].t.key; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
func (l Lin) normalize() Lin {
	if len(l.ts) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.ts {
		g = gcd(g, abs64(t.k))
	}
	if g > 1 {
		for i := range l.ts {
			l.ts[i].k /= g
		}
		l.c = floorDiv(l.c, g)
	}
	return l
}
func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Relational atoms between non numeric terms: a == b / a != b
type Rel struct {
	a, b *Term
	neq  bool
}

func (r Rel) key() string {
	x, y := r.a.key, r.b.key
	if x > y {
		x, y = y, x
	}
	if r.neq {
		return "N" + x + "," + y
	}
	return "E" + x + "," + y
}
func (r Rel) String() string {
	op := " == "
	if r.neq {
		op = " != "
	}
	return r.a.String() + op + r.b.String()
}

// Type atoms: dynamic type of a is (not) t
type TypeAtom struct {
	a   *Term
	t   types.Type
	not bool
}

func (r TypeAtom) key() string {
	s := "I"
	if r.not {
		s = "J"
	}
	return s + r.a.key + r.t.String()
}
func (r TypeAtom) String() string {
	if r.not {
		return fmt.Sprintf("%s is not %s", r.a, shortT(r.t))
	}
	return fmt.Sprintf("%s is %s", r.a, shortT(r.t))
}

// Conjunction of atoms
type Cons struct {
	lins  map[string]Lin // tightest constant per coefficient vector
	rels  map[string]Rel
	tys   map[string]TypeAtom
	nes   map[string]Lin // sum(k*t) != c
	false bool
	ck    string
	lv    map[*Term]bool
	cl    map[string]Lin
}

func newCons() *Cons {
	return &Cons{lins: map[string]Lin{}, rels: map[string]Rel{}, tys: map[string]TypeAtom{}, nes: map[string]Lin{}}
}
func (c *Cons) clone() *Cons {
	n := newCons()
	for k, v := range c.lins {
		n.lins[k] = v
	}
	for k, v := range c.rels {
		n.rels[k] = v
	}
	for k, v := range c.tys {
		n.tys[k] = v
	}
	for k, v := range c.nes {
		n.nes[k] = v
	}
	n.false = c.false
	return n
}
func (c *Cons) addLin(l Lin) {
	if len(l.ts) == 0 {
		if l.c < 0 {
			c.false = true
		}
		return
	}
	k := l.key()
	if o, ok := c.lins[k]; !ok || l.c < o.c {
		c.lins[k] = l
		c.reset()
	}
}
func (c *Cons) addNe(l Lin) {
	if len(l.ts) == 0 {
		if l.c == 0 {
			c.false = true
		}
		return
	}
	if l.ts[0].k < 0 {
		m := Lin{c: -l.c}
		for _, t := range l.ts {
			m.ts = append(m.ts, LinTerm{t.t, -t.k})
		}
		l = m
	}
	c.nes[fmt.Sprintf("%s!=%d", l.key(), l.c)] = l
	c.reset()
}
func (c *Cons) reset()    { c.ck, c.lv, c.cl = "", nil, nil }
func (c *Cons) size() int { return len(c.lins) + len(c.rels) + len(c.tys) + len(c.nes) }
func (c *Cons) key() string {
	if c.ck != "" {
		return c.ck
	}
	var ks []string
	for k, l := range c.lins {
		ks = append(ks, fmt.Sprintf("%s<=%d", k, l.c))
	}
	for k := range c.rels {
		ks = append(ks, k)
	}
	for k := range c.tys {
		ks = append(ks, k)
	}
	for k := range c.nes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.ck = strings.Join(ks, ";")
	if c.ck == "" {
		c.ck = "-"
	}
	return c.ck
}
func (c *Cons) String() string {
	var ks []string
	for _, l := range c.lins {
		ks = append(ks, l.String())
	}
	for _, r := range c.rels {
		ks = append(ks, r.String())
	}
	for _, r := range c.tys {
		ks = append(ks, r.String())
	}
	for _, r := range c.nes {
		ks = append(ks, strings.Replace(r.String(), "<=", "!=", 1))
	}
	sort.Strings(ks)
	return strings.Join(ks, " && ")
}

// c subsumes d when every atom of c is implied by (syntactically) an atom of
// d: the states of d are included in the states of c
func (c *Cons) subsumes(d *Cons) bool {
	if len(c.rels) > len(d.rels) || len(c.tys) > len(d.tys) || len(c.lins) > len(d.lins) {
		return false
	}
	for k, l := range c.lins {
		o, ok := d.lins[k]
		if !ok || o.c > l.c {
			return false
		}
	}
	for k := range c.rels {
		if _, ok := d.rels[k]; !ok {
			return false
		}
	}
	for k := range c.tys {
		if _, ok := d.tys[k]; !ok {
			return false
		}
	}
	for k := range c.nes {
		if _, ok := d.nes[k]; !ok {
			return false
		}
	}
	return true
}
func (c *Cons) leaves() map[*Term]bool {
	if c.lv != nil {
		return c.lv
	}
	m := map[*Term]bool{}
	c.lv = m
	add := func(t *Term) {
		for l := range t.leaf {
			m[l] = true
		}
	}
	for _, l := range c.lins {
		for _, t := range l.ts {
			add(t.t)
		}
	}
	for _, l := range c.nes {
		for _, t := range l.ts {
			add(t.t)
		}
	}
	for _, r := range c.rels {
		add(r.a)
		add(r.b)
	}
	for _, r := range c.tys {
		add(r.a)
	}
	return m
}
