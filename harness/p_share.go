package main

// C26: the number of constraints a program compiles to, compared with what a symbolic execution counts.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// lc is a linear combination; atom "" is the constant
type lc map[string]*big.Int

func (a lc) isConst() bool {
	for k := range a {
		if k != "" {
			return false
		}
	}
	return true
}
func (a lc) add(b lc, f *big.Int) lc {
	r := lc{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		s := new(big.Int).Mul(v, f)
		if r[k] != nil {
			s.Add(s, r[k])
		}
		s.Mod(s, refOrder)
		if s.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = s
		}
	}
	return r
}
func (a lc) scale(f *big.Int) lc { return lc{}.add(a, f) }
func (a lc) names() (n []string) {
	for k := range a {
		n = append(n, k)
	}
	sort.Strings(n)
	return
}

// norm splits the combination into a scalar and a canonical multiple
func (a lc) norm() (*big.Int, string) {
	n := a.names()
	if len(n) == 0 {
		return new(big.Int), "0"
	}
	lead := a[n[len(n)-1]]
	inv := new(big.Int).ModInverse(lead, refOrder)
	var sb strings.Builder
	for _, k := range n {
		v := new(big.Int).Mul(a[k], inv)
		fmt.Fprintf(&sb, "%s*%s+", v.Mod(v, refOrder), k)
	}
	return lead, sb.String()
}

// symv is a value seen from both sides: lo identifies everything that is equal up to a scalar (the least number of
// constraints), tree and single identify only what the property promises to share (the largest number).
type symv struct {
	lo     lc
	tree   string
	single string // the value is this variable or product, scaled by constants
	pure   bool   // and not even scaled
	cons   *big.Int
}

func symConst(v *big.Int) *symv {
	return &symv{lo: lc{}.add(lc{"": bi(1)}, v), tree: v.String(), cons: v}
}

func (s *symv) read() *symv {
	if s.cons != nil || strings.HasPrefix(s.tree, "R") {
		return s
	}
	c := *s
	c.tree = "R(" + s.tree + ")"
	return &c
}

func (s *symv) id() string {
	if s.single != "" {
		return "@" + s.single
	}
	return s.tree
}

type symtab struct {
	least map[string]string // product or quotient -> atom
	most  map[string]bool
	short map[string]string
	slack int // constraints of assertions, which the property does not count
	n     int
}

func newSymtab() *symtab {
	return &symtab{least: map[string]string{}, most: map[string]bool{}, short: map[string]string{}}
}

func (t *symtab) input(n string) *symv {
	return &symv{lo: lc{n: bi(1)}, tree: "R" + n, single: n, pure: true}
}

// intern gives a term a short name
func (t *symtab) intern(k string) string {
	if t.short[k] == "" {
		t.short[k] = fmt.Sprintf("T%d", len(t.short))
	}
	return t.short[k]
}

func (t *symtab) atom(key string) string {
	if t.least[key] == "" {
		t.least[key] = fmt.Sprintf("#%d", len(t.least))
	}
	return t.least[key]
}

func (t *symtab) addGate(l, r *symv) *symv {
	t.slack++
	t.n++
	return &symv{lo: l.lo.add(r.lo, bi(1)), tree: fmt.Sprintf("Rgate%d", t.n), single: fmt.Sprintf("gate%d", t.n), pure: true}
}

func (t *symtab) op(op byte, l, r *symv) *symv {
	res := &symv{tree: t.intern("(" + l.tree + string(op) + r.tree + ")")}
	if l.cons != nil && r.cons != nil {
		z := new(big.Int)
		switch op {
		case '+':
			z.Add(l.cons, r.cons)
		case '-':
			z.Sub(l.cons, r.cons)
		case '*':
			z.Mul(l.cons, r.cons)
		case '/':
			z.Mul(l.cons, new(big.Int).ModInverse(r.cons, refOrder))
		}
		return symConst(z.Mod(z, refOrder))
	}
	switch op {
	case '+':
		res.lo = l.lo.add(r.lo, bi(1))
		return res
	case '-':
		res.lo = l.lo.add(r.lo, qm1)
		return res
	}
	// the least number
	inv := func(v *big.Int) *big.Int { return new(big.Int).ModInverse(v, refOrder) }
	switch {
	case op == '*' && l.lo.isConst():
		res.lo = lc{}
		if c := l.lo[""]; c != nil {
			res.lo = r.lo.scale(c)
		}
	case op == '*' && r.lo.isConst():
		res.lo = lc{}
		if c := r.lo[""]; c != nil {
			res.lo = l.lo.scale(c)
		}
	case op == '*':
		cl, kl := l.lo.norm()
		cr, kr := r.lo.norm()
		if kl > kr {
			kl, kr = kr, kl
		}
		res.lo = lc{t.atom(kl + "*" + kr): bi(1)}.scale(mod(new(big.Int).Mul(cl, cr)))
	case len(l.lo) == 0:
		res.lo = lc{}
	case r.lo.isConst():
		res.lo = lc{}
		if c := r.lo[""]; c != nil {
			res.lo = l.lo.scale(inv(c))
		}
	default:
		cl, kl := l.lo.norm()
		cr, kr := r.lo.norm()
		res.lo = lc{t.atom(kl + "/" + kr): bi(1)}.scale(mod(new(big.Int).Mul(cl, inv(cr))))
	}
	// the largest
	switch {
	case op == '*' && l.cons != nil:
		if l.cons.Sign() != 0 {
			res.single = r.single
		}
	case r.cons != nil:
		if r.cons.Sign() != 0 {
			res.single = l.single
		}
	default:
		a, b := l.id(), r.id()
		if op == '*' && a > b {
			a, b = b, a
		}
		k := t.intern(a + " " + string(op) + " " + b)
		t.most[k] = true
		res.single, res.pure = k, l.pure && r.pure
	}
	return res
}

// bounds of the number of constraints of a program; err if it has no meaning or divides by zero
func (p *P) shareBounds() (least, most int, err error) {
	it := &interp{q: refOrder, inputs: map[string]*big.Int{}, sym: newSymtab()}
	for i, n := range expandParams(p.params) {
		it.inputs[n] = new(big.Int).Exp(bi(int64(1000003+2*i)), bi(9), refOrder)
	}
	if err = it.run(p); err != nil {
		return
	}
	least, most = len(it.sym.least), len(it.sym.most)+it.sym.slack
	if v := it.ret; v != nil && v.sv != nil && v.sv.cons == nil && !v.sv.pure {
		most++
	}
	return
}

func (x *X) shareCase(p *P) {
	src := p.text(style{})
	x.Case(clip(src), func() error {
		least, most, err := p.shareBounds()
		if err == errDivZero || err == errStaticDivZero {
			x.Count("programs dividing by zero (no claim)", 1)
			return nil
		}
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		c, err := compile(src, false)
		if err != nil {
			return err
		}
		x.Eval(2)
		x.Trace(1)
		x.Trans(most)
		n := c.dense.NumberOfGates
		x.State(fmt.Sprint(least, most, n, len(src)))
		if least == most {
			x.Count("programs with an exact count", 1)
		}
		if least > 0 {
			x.Nontrivial(src)
		}
		if n > most || n < least {
			return fmt.Errorf("%d constraints, there are %d to %d distinct products, quotients and other constraints\n%s", n, least, most, clip(matrixKey(c)))
		}
		if len(c.dense.L) != n || len(c.sparse.L) != c.sparse.NumberOfGates || c.sparse.NumberOfGates != n {
			return fmt.Errorf("%d constraints are counted, there are %d dense and %d sparse rows", n, len(c.dense.L), len(c.sparse.L))
		}
		return nil
	})
}

func init() {
	register("C26", c26)
	metas["C26"] = meta{
		rule: "a symbolic execution of the reference interpreter counts the distinct products and quotients of a program in two ways: identifying everything equal up to a scalar (fewest) and only what the property promises to share (most). The number of constraints of the compiled system has to lie between. " +
			"Where both counts agree (counter) it is exact. Non-trivial: the program has a product or quotient",
		bounds:         "all expressions with up to 3 operators over {x,y,2}, all pairs of definitions with up to 2 operators over {x,y,3} with + - * and 1 operator with /, three definitions over earlier ones, functions with all one-operator bodies called with all pairs of arguments, assignments, loops; programs that grow to sizes of 100; up to 530 products, five kinds of other constraints, the products again; products alike as text",
		boundsThorough: "as quick with expressions of 4 operators over {x,y}, pairs of definitions with 2 operators + - * /, three definitions over {x,y,2} with + - * /",
		assumptions:    []string{"constraints of assertions and of the addition gate are allowed, not demanded; a returned value that is not a variable or product may take one"},
	}
}

func c26(x *X) {
	xy := []string{"x", "y"}
	lv := leaves("x y 2")
	ret := func(b ...*S) *P { return &P{params: xy, body: b} }
	for n := 0; n <= 3; n++ {
		trees(n, "+-*/", lv, func(e *E) {
			x.shareCase(ret(Decl("v", e), Ret(nil)))
			if n < 3 {
				x.shareCase(ret(Ret(e)))
				x.shareCase(ret(Decl("v", e), Ret(V("v"))))
				x.shareCase(ret(Decl("v", e), Decl("w", V("v")), Asg("v", B('*', V("w"), V("x"))), Decl("u", B('*', V("x"), e)), Ret(nil)))
				x.shareCase(ret(Eq(e, V("y")), Decl("v", B('*', V("y"), e)), Ret(nil)))
			}
		})
	}
	pairs := func(ops, base string, n, m int) {
		trees(n, ops, leaves(base), func(a *E) {
			trees(m, ops, leaves(base), func(b *E) {
				x.shareCase(ret(Decl("a", a), Decl("b", b), Ret(nil)))
			})
		})
	}
	pairs("+-*", "x y 3", 2, 2)
	pairs("+-*/", "x y 3", 1, 2)
	hist := func(ops, base string) {
		trees(1, ops, leaves(base), func(e1 *E) {
			trees(1, ops, leaves(base+" a"), func(e2 *E) {
				trees(1, ops, leaves(base+" a b"), func(e3 *E) {
					x.shareCase(ret(Decl("a", e1), Decl("b", e2), Decl("c", e3), Ret(nil)))
				})
			})
		})
	}
	hist("+-*/", "x 2")
	hist("+-*", "x y")
	// scaled variables: every pair of scalings of the operands of the same product
	var sc []*E
	for _, s := range []string{"x", "2*x", "x*3", "x/2", "x*2*3", "x/5*7"} {
		sc = append(sc, mustExpr(s))
	}
	sc = append(sc, B('*', N(qm1.String()), V("x")))
	sub := func(e *E) *E { return renameVar(e, "x", "y") }
	for _, a := range sc {
		for _, b := range sc {
			for _, c := range sc {
				for _, op := range []byte("*/") {
					x.shareCase(ret(Decl("v", B('*', V("x"), V("y"))), Decl("a", B(op, a, sub(b))), Decl("b", B(op, sub(c), a)), Decl("c", B(op, c, sub(b))), Ret(nil)))
					x.shareCase(ret(Decl("s", a), Decl("t", sub(b)), Decl("v", B(op, V("s"), V("t"))), Decl("w", B(op, c, V("t"))), Decl("u", B(op, V("t"), c)), Ret(nil)))
				}
			}
		}
	}
	// many different products next to each other: none may be taken for another one
	for _, params := range [][]string{{"a[12]"}, {"a[2][6]"}, {"a", "aa", "b", "ab", "ba", "a1", "a11", "b1", "c[12]"}} {
		var vars []*E
		for _, n := range expandParams(params) {
			if k := strings.IndexByte(n, '['); k >= 0 {
				var idx []*E
				for _, i := range strings.Split(strings.TrimSuffix(n[k+1:], "]"), "][") {
					idx = append(idx, N(i))
				}
				vars = append(vars, I(n[:k], idx...))
			} else {
				vars = append(vars, V(n))
			}
		}
		for _, op := range []byte("*/") {
			p := &P{params: params}
			q := &P{params: params}
			k := 0
			for i, a := range vars {
				for j, b := range vars {
					p.body = append(p.body, Decl(fmt.Sprintf("v%d", k), B(op, a, b)))
					q.body = append(q.body, Decl(fmt.Sprintf("v%d", k), B(op, B('+', a, B('*', N(fmt.Sprint(j+1)), b)), B('-', b, N(fmt.Sprint(i))))))
					k++
				}
			}
			p.body = append(p.body, Ret(nil))
			q.body = append(q.body, Ret(nil))
			x.shareCase(p)
			x.shareCase(q)
		}
	}
	ks := []string{"0", "1", "2", "10", "11", "110", "4294967296", "18446744073709551616", "18446744073709551617", qm1.String(), new(big.Int).Rsh(refOrder, 1).String()}
	var lin []*E
	for _, k := range ks {
		lin = append(lin, B('+', V("x"), B('*', N(k), V("y"))), B('+', V("x"), N(k)), B('-', V("x"), B('*', N(k), V("y"))), B('-', V("y"), N(k)))
	}
	for i, a := range lin {
		for j := 0; j <= i; j++ {
			for _, op := range []byte("*/") {
				x.shareCase(ret(Decl("a", B(op, V("x"), a)), Decl("b", B(op, V("x"), lin[j])), Ret(nil)))
				x.shareCase(ret(Decl("a", B(op, a, V("y"))), Decl("b", B(op, lin[j], V("y"))), Ret(nil)))
				x.shareCase(ret(Decl("a", B(op, a, lin[j])), Decl("b", B(op, lin[j], a)), Ret(nil)))
			}
		}
	}
	hashCollisions(func(p *P) { x.shareCase(p) })
	nameCollisions(x.Thorough, func(p *P) { x.shareCase(p) })
	scaledPrograms(x.Thorough, "ecf", func(name string, p *P) { x.shareCase(p) })
	// functions and loops
	args := [][]*E{{V("x"), V("y")}, {V("y"), V("x")}, {mustExpr("x*y"), V("x")}, {mustExpr("2*x"), mustExpr("3*y")}, {N("4"), V("y")}, {mustExpr("x+y"), V("y")}}
	trees(1, "+-*/", leaves("a b 2"), func(t *E) {
		trees(1, "+*", leaves("a b"), func(u *E) {
			f := Fn("f", []string{"a", "b"}, Decl("w", u), Ret(B('*', V("w"), t)))
			for i, p := range args {
				for _, q := range args[:i+1] {
					x.shareCase(&P{params: xy, globals: []*S{f}, body: []*S{Decl("v", C("f", p...)), Decl("w", C("f", q...)), Decl("z", C("f", p...)), Ret(nil)}})
				}
				x.shareCase(&P{params: xy, globals: []*S{f}, body: []*S{CallS(C("f", p...)), Ret(C("f", p...))}})
				x.shareCase(&P{params: xy, body: []*S{f, Decl("g", C("f", p[0])), Decl("v", C("g", p[1])), Decl("u", C("f", p...)), Ret(V("v"))}})
			}
		})
		for n := 0; n <= 4; n++ {
			tt := renameVar(renameVar(t, "a", "v"), "b", "x")
			x.shareCase(ret(Decl("v", V("y")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", mustExpr("i+1")), Asg("v", tt)), Ret(nil)))
			x.shareCase(ret(Decl("v", V("y")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", mustExpr("i+1")), Asg("v", B('+', tt, mustExpr("v*i")))), Ret(V("v"))))
			x.shareCase(ret(Decl("v", V("y")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", mustExpr("i+1")), Asg("v", mustExpr("x*y")), Decl("w", B('*', V("y"), V("x")))), Ret(V("v"))))
		}
	})
	// many products, something else, and all of the products again: none may be forgotten
	sizes := []int{5, 33, 130, 301, 530}
	if x.Thorough {
		sizes = append(sizes, 1030, 2050, 4100)
	}
	prod := func(op byte, i int, swap bool) *E {
		l, r := B('+', V("x"), N(fmt.Sprint(i))), B('+', V("y"), N(fmt.Sprint(i+1)))
		if swap {
			l, r = r, l
		}
		return B(op, l, r)
	}
	between := map[string][]*S{
		"nothing":   nil,
		"assertion": {Eq(mustExpr("x*y*y"), V("y")), Eq(B('*', prod('*', 3, false), N("1")), V("v3")), Eq(prod('*', 2, true), V("v2"))},
		"division":  {Decl("d", mustExpr("x/y")), Decl("d2", mustExpr("1/(x+y)"))},
		"call":      {Fn("f", []string{"a", "b"}, Decl("w", mustExpr("a*b")), Ret(mustExpr("w*w"))), Decl("u", C("f", V("x"), V("y"))), Decl("u2", C("f", V("y"), V("u")))},
		"loop":      {Decl("u", V("y")), Decl("i", N("0")), For(Cmp(V("i"), "<", N("9")), Asg("i", mustExpr("i+1")), Asg("u", mustExpr("u*x+i")))},
	}
	for _, n := range sizes {
		for _, name := range []string{"nothing", "assertion", "division", "call", "loop"} {
			mid := between[name]
			for _, op := range []byte("*/") {
				if op == '/' && (n > 530 || name == "call" || name == "loop") {
					continue
				}
				p := ret()
				for i := 0; i < n; i++ {
					p.body = append(p.body, Decl(fmt.Sprintf("v%d", i), prod(op, i, false)))
				}
				if op == '/' && name == "assertion" {
					mid = mid[:1]
				}
				p.body = append(p.body, mid...)
				for i := 0; i < n; i++ {
					j := (i*7 + 3) % n
					if n%7 == 0 {
						j = n - 1 - i
					}
					p.body = append(p.body, Decl(fmt.Sprintf("w%d", i), prod(op, j, op == '*' && i%2 == 1)))
				}
				p.body = append(p.body, Ret(nil))
				x.shareCase(p)
				if op == '*' {
					p.body[len(p.body)-1] = Ret(mustExpr("(x+3)*(y+4)"))
					x.shareCase(p)
				}
			}
		}
	}
	if x.Thorough {
		trees(4, "+-*/", leaves("x y"), func(e *E) { x.shareCase(ret(Decl("v", e), Ret(nil))) })
		pairs("+-*/", "x y 3", 2, 2)
		hist("+-*/", "x y 2")
	}
}

func renameVar(e *E, from, to string) *E {
	if e.op == 'v' && e.s == from {
		return V(to)
	}
	r := *e
	r.a = make([]*E, len(e.a))
	for i, a := range e.a {
		r.a[i] = renameVar(a, from, to)
	}
	return &r
}
