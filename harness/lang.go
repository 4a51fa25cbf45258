package main

// The source language as abstract syntax: printer and reference interpreter.
// The interpreter is a plain sequential, lexically scoped evaluation over the scalar field.

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
)

// E is an expression: op is n number, v name, + - * /, c call, i array element
type E struct {
	op byte
	s  string
	a  []*E
}

func N(s string) *E              { return &E{op: 'n', s: s} }
func V(s string) *E              { return &E{op: 'v', s: s} }
func B(op byte, l, r *E) *E      { return &E{op: op, a: []*E{l, r}} }
func C(f string, a ...*E) *E     { return &E{op: 'c', s: f, a: a} }
func I(arr string, idx ...*E) *E { return &E{op: 'i', s: arr, a: idx} }
func (e *E) isBin() bool         { return e.op == '+' || e.op == '-' || e.op == '*' || e.op == '/' }
func prec(op byte) int {
	switch op {
	case '+', '-':
		return 1
	case '*', '/':
		return 2
	}
	return 3
}

// text prints with as few parentheses as the grammar allows; full prints every pair
func (e *E) text(full bool) string {
	var sb strings.Builder
	e.print(&sb, full)
	return sb.String()
}
func (e *E) print(sb *strings.Builder, full bool) {
	switch e.op {
	case 'n', 'v':
		sb.WriteString(e.s)
	case 'c':
		sb.WriteString(e.s + "(")
		for i, x := range e.a {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.print(sb, full)
		}
		sb.WriteByte(')')
	case 'i':
		sb.WriteString(e.s)
		for _, x := range e.a {
			sb.WriteByte('[')
			x.print(sb, full)
			sb.WriteByte(']')
		}
	case '(': // redundant parentheses, for C08 only
		sb.WriteByte('(')
		e.a[0].print(sb, full)
		sb.WriteByte(')')
	default:
		p := prec(e.op)
		sub := func(x *E, paren bool) {
			if paren {
				sb.WriteByte('(')
			}
			x.print(sb, full)
			if paren {
				sb.WriteByte(')')
			}
		}
		l, r := e.a[0], e.a[1]
		sub(l, l.isBin() && (full || prec(l.op) < p))
		sb.WriteByte(e.op)
		sub(r, r.isBin() && (full || prec(r.op) <= p))
	}
}

// rename replaces a variable
func (e *E) rename(from, to string) *E {
	c := *e
	if c.op == 'v' && c.s == from {
		c.s = to
	}
	c.a = make([]*E, len(e.a))
	for i, a := range e.a {
		c.a[i] = a.rename(from, to)
	}
	return &c
}

// Cond is a comparison
type Cond struct {
	op   string
	l, r *E
}

// S is a statement
type S struct {
	k      byte // d var, D array, f func (statement form), F func (var form), a assign, i if, l loop, r return, q equal, c call, s split, p public
	name   string
	e, e2  *E
	idx    []*E
	elems  []*E
	params []string
	body   []*S
	conds  []*Cond // nil entry: else
	bodies [][]*S
	inc    *S
	pub    []string
}

func Decl(n string, e *E) *S                   { return &S{k: 'd', name: n, e: e} }
func DeclArr(n string, el ...*E) *S            { return &S{k: 'D', name: n, elems: el} }
func Fn(n string, params []string, b ...*S) *S { return &S{k: 'f', name: n, params: params, body: b} }
func FnVar(n string, params []string, b ...*S) *S {
	return &S{k: 'F', name: n, params: params, body: b}
}
func Asg(n string, e *E) *S               { return &S{k: 'a', name: n, e: e} }
func AsgIdx(n string, i *E, e *E) *S      { return &S{k: 'a', name: n, idx: []*E{i}, e: e} }
func Ret(e *E) *S                         { return &S{k: 'r', e: e} }
func Eq(l, r *E) *S                       { return &S{k: 'q', e: l, e2: r} }
func CallS(e *E) *S                       { return &S{k: 'c', e: e} }
func Split(e *E) *S                       { return &S{k: 's', e: e} }
func Public(n ...string) *S               { return &S{k: 'p', pub: n} }
func For(c *Cond, inc *S, b ...*S) *S     { return &S{k: 'l', conds: []*Cond{c}, inc: inc, body: b} }
func Cmp(l *E, op string, r *E) *Cond     { return &Cond{op, l, r} }
func If(conds []*Cond, bodies ...[]*S) *S { return &S{k: 'i', conds: conds, bodies: bodies} }

// P is a program
type P struct {
	globals []*S     // variables and functions, printed around main
	params  []string // printed as they are, arrays included: "x[2]"
	body    []*S
	mainAt  int // position of main between the globals
}

type style struct{ full bool }

func (p *P) text(st style) string {
	var sb strings.Builder
	m := func() {
		sb.WriteString("func main(" + strings.Join(p.params, ",") + "){\n")
		printBody(&sb, p.body, "\t", st)
		sb.WriteString("}\n")
	}
	for i, g := range p.globals {
		if i == p.mainAt {
			m()
		}
		printBody(&sb, []*S{g}, "", st)
	}
	if p.mainAt >= len(p.globals) {
		m()
	}
	return sb.String()
}
func printBody(sb *strings.Builder, b []*S, ind string, st style) {
	for _, s := range b {
		sb.WriteString(ind)
		s.print(sb, ind, st)
		sb.WriteByte('\n')
	}
}
func (c *Cond) text(st style) string { return c.l.text(st.full) + c.op + c.r.text(st.full) }
func (s *S) print(sb *strings.Builder, ind string, st style) {
	ex := func(e *E) string { return e.text(st.full) }
	list := func(a []*E) string {
		t := make([]string, len(a))
		for i, e := range a {
			t[i] = ex(e)
		}
		return strings.Join(t, ",")
	}
	switch s.k {
	case 'd':
		sb.WriteString("var " + s.name + "=" + ex(s.e))
	case 'D':
		sb.WriteString("var " + s.name + "[]={" + list(s.elems) + "}")
	case 'f', 'F':
		if s.k == 'f' {
			sb.WriteString("func " + s.name + "(")
		} else {
			sb.WriteString("var " + s.name + "=func(")
		}
		sb.WriteString(strings.Join(s.params, ",") + "){\n")
		printBody(sb, s.body, ind+"\t", st)
		sb.WriteString(ind + "}")
	case 'a':
		sb.WriteString(s.name)
		for _, i := range s.idx {
			sb.WriteString("[" + ex(i) + "]")
		}
		sb.WriteString("=" + ex(s.e))
	case 'r':
		sb.WriteString("return")
		if s.e != nil {
			sb.WriteString(" " + ex(s.e))
		}
	case 'q':
		sb.WriteString("equal(" + ex(s.e) + "," + ex(s.e2) + ")")
	case 'c':
		sb.WriteString(ex(s.e))
	case 's':
		sb.WriteString("SPLIT(" + ex(s.e) + ")")
	case 'p':
		sb.WriteString("public{" + strings.Join(s.pub, ",") + "}")
	case 'l':
		sb.WriteString("for(" + s.conds[0].text(st) + ";")
		s.inc.print(sb, "", st)
		sb.WriteString("){\n")
		printBody(sb, s.body, ind+"\t", st)
		sb.WriteString(ind + "}")
	case 'i':
		for i, b := range s.bodies {
			if i > 0 {
				sb.WriteString("else ")
			}
			if i < len(s.conds) && s.conds[i] != nil {
				sb.WriteString("if " + s.conds[i].text(st))
			}
			sb.WriteString("{\n")
			printBody(sb, b, ind+"\t", st)
			sb.WriteString(ind + "}")
		}
	}
}

// ---------------------------------------------------------------- reference interpreter

type val struct {
	n      *big.Int // nil for functions
	static bool
	fn     *closure
	sv     *symv // symbolic value, if the interpreter tracks them
}
type closure struct {
	name   string
	params []string
	body   []*S
	env    *env
	bound  []*val
}
type env struct {
	vars   map[string]*val
	parent *env
}

func newEnv(p *env) *env { return &env{vars: map[string]*val{}, parent: p} }
func (e *env) find(n string) (*env, *val) {
	for ; e != nil; e = e.parent {
		if v, ok := e.vars[n]; ok {
			return e, v
		}
	}
	return nil, nil
}

var errDivZero = errors.New("division by zero")
var errStaticDivZero = errors.New("division by the constant zero")

type interp struct {
	q       *big.Int
	inputs  map[string]*big.Int
	ok      bool // all assertions so far hold
	asserts int
	steps   int
	claims  map[string]bool // inputs that take whatever value they are first compared with
	choose  func() *big.Int // value of 0/0, if set
	split   map[string]bool
	states  func(string)
	gate    func(kind byte, l, r *big.Int) // told about every non constant product
	curve   func(e *big.Int) *big.Int
	nonlin  map[string]bool
	bit     func(v *val, i int) *big.Int // bit i of a split value, if set
	sym     *symtab
	ret     *val // what main returned
}

type interpPanic struct{ err error }

// refusal: the program has no meaning, the tool chain has to refuse it
type refusal struct{ s string }

func (r refusal) Error() string { return r.s }

func (in *interp) fail(format string, a ...interface{}) {
	panic(interpPanic{refusal{fmt.Sprintf(format, a...)}})
}

func (in *interp) mod(v *big.Int) *big.Int { return v.Mod(v, in.q) }

// run executes the program; err != nil if the program is not meaningful (or divides by zero)
func (in *interp) run(p *P) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ip, ok := r.(interpPanic); ok {
				err = ip.err
				return
			}
			panic(r)
		}
	}()
	in.ok = true
	in.asserts, in.steps = 0, 0
	g := newEnv(nil)
	for _, s := range p.globals { // functions are visible everywhere
		if s.k == 'f' {
			g.vars[s.name] = &val{fn: &closure{name: s.name, params: s.params, body: s.body, env: g}}
		}
	}
	for _, s := range p.globals {
		if s.k != 'f' {
			in.stmt(s, g)
		}
	}
	m := newEnv(g)
	for _, n := range expandParams(p.params) {
		m.vars[n] = &val{n: in.inputs[n]}
		if in.sym != nil {
			m.vars[n].sv = in.sym.input(n)
		}
		if in.inputs[n] == nil {
			m.vars[n] = &val{n: nil}
			if !in.claims[n] {
				return fmt.Errorf("no value for %v", n)
			}
		}
	}
	in.ret, _ = in.exec(p.body, m)
	return nil
}

func expandParams(ps []string) (r []string) {
	for _, p := range ps {
		i := strings.IndexByte(p, '[')
		if i < 0 {
			r = append(r, p)
			continue
		}
		names := []string{p[:i]}
		for _, d := range strings.Split(strings.TrimSuffix(p[i+1:], "]"), "][") {
			n := 0
			fmt.Sscan(d, &n)
			var next []string
			for _, b := range names {
				for k := 0; k < n; k++ {
					next = append(next, fmt.Sprintf("%s[%d]", b, k))
				}
			}
			names = next
		}
		r = append(r, names...)
	}
	return
}

func (in *interp) exec(b []*S, e *env) (*val, bool) {
	for _, s := range b { // functions of a body can be used before their definition
		if s.k == 'f' {
			e.vars[s.name] = &val{fn: &closure{name: s.name, params: s.params, body: s.body, env: e}}
		}
	}
	for _, s := range b {
		if v, ret := in.stmt(s, e); ret {
			return v, true
		}
	}
	return nil, false
}

func (in *interp) index(s string, idx []*E, e *env) string {
	for _, i := range idx {
		v := in.num(i, e)
		if !v.static {
			in.fail("dynamic index")
		}
		s += "[" + v.n.String() + "]"
	}
	return s
}

func (in *interp) cond(c *Cond, e *env) bool {
	l, r := in.num(c.l, e), in.num(c.r, e)
	if !l.static || !r.static {
		in.fail("dynamic condition")
	}
	d := l.n.Cmp(r.n)
	switch c.op {
	case "==":
		return d == 0
	case "!=":
		return d != 0
	case "<":
		return d < 0
	case "<=":
		return d <= 0
	case ">":
		return d > 0
	case ">=":
		return d >= 0
	}
	panic(c.op)
}

func (in *interp) stmt(s *S, e *env) (*val, bool) {
	in.steps++
	if in.steps > 20000 {
		in.fail2(errors.New("too many steps"))
	}
	if in.states != nil {
		in.states(e.key())
	}
	switch s.k {
	case 'd':
		e.vars[s.name] = in.eval(s.e, e)
	case 'D':
		for i, x := range s.elems {
			e.vars[fmt.Sprintf("%s[%d]", s.name, i)] = in.eval(x, e)
		}
	case 'f':
	case 'F':
		e.vars[s.name] = &val{fn: &closure{name: s.name, params: s.params, body: s.body, env: e}}
	case 'a':
		n := in.index(s.name, s.idx, e)
		v := in.eval(s.e, e)
		sc, _ := e.find(n)
		if sc == nil {
			in.fail("assignment to undeclared %s", n)
		}
		sc.vars[n] = v
	case 'r':
		if s.e == nil {
			r := &val{n: big.NewInt(1), static: true}
			if in.sym != nil {
				r.sv = symConst(r.n)
			}
			return r, true
		}
		return in.eval(s.e, e), true
	case 'q':
		in.equal(s.e, s.e2, e)
	case 'c':
		in.call(s.e, e, true)
	case 's':
		in.num(s.e, e)
	case 'p':
	case 'l':
		for in.cond(s.conds[0], e) {
			if v, r := in.exec(s.body, newEnv(e)); r {
				return v, true
			}
			in.stmt(s.inc, e)
		}
	case 'i':
		for i, b := range s.bodies {
			if i >= len(s.conds) || s.conds[i] == nil || in.cond(s.conds[i], e) {
				return in.exec(b, newEnv(e))
			}
		}
	}
	return nil, false
}

func (in *interp) equal(le, re *E, e *env) {
	in.asserts++
	for _, side := range [][2]*E{{le, re}, {re, le}} {
		if c := side[1]; c.op == 'v' && in.claims[c.s] {
			if sc, v := e.find(c.s); v != nil && v.n == nil && v.fn == nil {
				l := in.num(side[0], e)
				in.inputs[c.s] = l.n
				sc.vars[c.s] = &val{n: l.n}
				return
			}
		}
	}
	l, r := in.num(le, e), in.num(re, e)
	if in.sym != nil {
		in.sym.slack++
	}
	if l.n.Cmp(r.n) != 0 {
		in.ok = false
	}
}

func (in *interp) num(x *E, e *env) *val {
	v := in.eval(x, e)
	if v == nil || v.n == nil {
		in.fail("not a value: %s", x.text(false))
	}
	return v
}

func (in *interp) eval(x *E, e *env) *val {
	switch x.op {
	case 'n':
		v, ok := new(big.Int).SetString(x.s, 10)
		if !ok {
			in.fail("number")
		}
		r := &val{n: in.mod(v), static: true}
		if in.sym != nil {
			r.sv = symConst(r.n)
		}
		return r
	case 'v':
		_, v := e.find(x.s)
		if v == nil {
			in.fail("undeclared %s", x.s)
		}
		return in.read(v)
	case 'i':
		n := in.index(x.s, x.a, e)
		_, v := e.find(n)
		if v == nil {
			_, b := e.find(x.s)
			if b != nil && b.n != nil && len(x.a) == 1 { // a bit of a split value
				i := in.num(x.a[0], e)
				if in.bit != nil {
					return &val{n: in.bit(b, int(i.n.Int64()))}
				}
				return &val{n: big.NewInt(int64(b.n.Bit(int(i.n.Int64()))))}
			}
			in.fail("undeclared %s", n)
		}
		return in.read(v)
	case 'c':
		return in.call(x, e, false)
	}
	l, r := in.num(x.a[0], e), in.num(x.a[1], e)
	st := l.static && r.static
	z := new(big.Int)
	switch x.op {
	case '+':
		z.Add(l.n, r.n)
	case '-':
		z.Sub(l.n, r.n)
	case '*':
		z.Mul(l.n, r.n)
	case '/':
		if r.n.Sign() == 0 {
			if r.static {
				in.fail2(errStaticDivZero)
			}
			if in.choose == nil || l.n.Sign() != 0 {
				in.fail2(errDivZero)
			}
			z.Set(in.choose())
		} else {
			z.Mul(l.n, new(big.Int).ModInverse(r.n, in.q))
		}
	}
	res := &val{n: in.mod(z), static: st}
	if in.sym != nil {
		res.sv = in.sym.op(x.op, l.sv, r.sv)
	}
	return res
}
func (in *interp) read(v *val) *val {
	if in.sym == nil || v.sv == nil {
		return v
	}
	c := *v
	c.sv = v.sv.read()
	return &c
}
func (in *interp) fail2(err error) { panic(interpPanic{err}) }

func (in *interp) call(x *E, e *env, stmt bool) *val {
	switch x.s {
	case "equal":
		in.equal(x.a[0], x.a[1], e)
		return nil
	case "addGateConstraint":
		l, r := in.num(x.a[0], e), in.num(x.a[1], e)
		res := &val{n: in.mod(new(big.Int).Add(l.n, r.n))}
		if in.sym != nil {
			res.sv = in.sym.addGate(l.sv, r.sv)
		}
		return res
	case "scalarBaseMultiply":
		v := in.num(x.a[0], e)
		return &val{n: refScalarBaseX(v.n)}
	}
	_, f := e.find(x.s)
	if f == nil || f.fn == nil {
		in.fail("call of undeclared %s", x.s)
	}
	args := append([]*val{}, f.fn.bound...)
	for _, a := range x.a {
		v := in.eval(a, e)
		if v == nil {
			in.fail("argument without value")
		}
		args = append(args, v)
	}
	c := *f.fn
	if len(args) > len(c.params) {
		in.fail("too many arguments")
	}
	if len(args) < len(c.params) {
		c.bound = args
		return &val{fn: &c}
	}
	sc := newEnv(c.env)
	for i, p := range c.params {
		sc.vars[p] = args[i]
	}
	in.steps++
	v, _ := in.exec(c.body, sc)
	return v
}

func (e *env) key() string {
	var sb strings.Builder
	for d := e; d != nil; d = d.parent {
		names := make([]string, 0, len(d.vars))
		for n := range d.vars {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			v := d.vars[n]
			sb.WriteString(n)
			sb.WriteByte('=')
			if v == nil {
				sb.WriteByte('?')
			} else if v.n != nil {
				sb.WriteString(v.n.String())
			} else if v.fn != nil {
				fmt.Fprintf(&sb, "f%s/%d", v.fn.name, len(v.fn.bound))
			}
			sb.WriteByte(';')
		}
		sb.WriteByte('|')
	}
	return sb.String()
}

// reference evaluates the program on the inputs (canonical field elements, in header order; nil entries are claims
// to be filled in). It returns the completed inputs and whether a satisfying execution exists.
func reference(p *P, in []*big.Int, q *big.Int, states func(string)) (full []*big.Int, accept bool, err error) {
	names := expandParams(p.params)
	it := &interp{q: q, inputs: map[string]*big.Int{}, claims: map[string]bool{}, states: states}
	for i, n := range names {
		if in[i] != nil {
			it.inputs[n] = in[i]
		} else {
			it.claims[n] = true
		}
	}
	err = it.run(p)
	full = make([]*big.Int, len(names))
	for i, n := range names {
		full[i] = it.inputs[n]
		if full[i] == nil {
			full[i] = new(big.Int)
		}
	}
	return full, err == nil && it.ok, err
}
