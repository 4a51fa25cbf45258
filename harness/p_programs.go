package main

// C01, C02, C03: bounded exhaustive enumeration of programs, compared with the reference interpreter.

import (
	"fmt"
	"math/big"
	"strings"
)

var qm1 = new(big.Int).Sub(refOrder, big.NewInt(1))

func add1(v *big.Int) *big.Int {
	r := new(big.Int).Add(v, big.NewInt(1))
	return r.Mod(r, refOrder)
}

// checkProgram compiles p and compares acceptance by both solvers with the reference for every base input, with every
// claim set to the value the program demands, and with every single claim changed. nil entries of an input are claims.
func (x *X) checkProgram(p *P, st style, bases [][]*big.Int) error {
	src := p.text(st)
	var c *circuit
	compiled := false
	for _, base := range bases {
		full, accept, err := reference(p, base, refOrder, x.State)
		if err == errStaticDivZero {
			x.Count("programs dividing by the constant zero (no claim)", 1)
			return nil
		}
		if r, ok := err.(refusal); ok {
			x.Count("programs that have to be refused", 1)
			x.Trace(1)
			x.Eval(1)
			if _, cerr := compile(src, false); cerr == nil {
				return fmt.Errorf("the tool chain compiles a program it has to refuse (%v)\n%s", r, src)
			}
			return nil
		}
		if err != nil && err != errDivZero {
			return fmt.Errorf("harness: the reference refuses the program: %v\n%s", err, src)
		}
		if err == errDivZero && alwaysDividesByZero(p, base) {
			x.Count("programs dividing by an expression that is identically zero (no claim)", 1)
			return nil
		}
		if !compiled {
			var cerr error
			if c, cerr = compile(src, false); cerr != nil {
				return fmt.Errorf("the tool chain refuses a well formed program: %v\n%s", cerr, src)
			}
			compiled = true
			x.Count("programs", 1)
		}
		try := func(in []*big.Int, want bool) error {
			for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
				w, rej, crash := solve(copyInts(in))
				x.Eval(1)
				x.Trans(len(c.gates))
				name := []string{"CalculateWitness", "CalculateSparseWitness"}[k]
				if crash != nil {
					return fmt.Errorf("%s crashes on %s: %v\n%s", name, showInts(in), crash, src)
				}
				if want && rej != nil {
					return fmt.Errorf("%s rejects %s, a sequential execution satisfies every assertion: %v\n%s", name, showInts(in), rej, src)
				}
				if !want && rej == nil {
					return fmt.Errorf("%s accepts %s with witness %s, a sequential execution violates an assertion\n%s", name, showInts(in), showInts(w), src)
				}
			}
			return nil
		}
		if err == errDivZero {
			x.Count("divisions by zero", 1)
			if e := try(full, false); e != nil {
				return e
			}
			continue
		}
		if accept {
			x.Count("satisfied executions", 1)
			x.Nontrivial(src)
		}
		x.Trace(1)
		if e := try(full, accept); e != nil {
			return e
		}
		for i := range base {
			if base[i] != nil {
				continue
			}
			alt := copyInts(full)
			alt[i] = add1(alt[i])
			_, acc, err := reference(p, alt, refOrder, nil)
			if err != nil {
				return fmt.Errorf("harness: %v", err)
			}
			if !acc {
				x.Count("violated executions", 1)
			}
			if e := try(alt, acc); e != nil {
				return e
			}
		}
	}
	return nil
}

// alwaysDividesByZero: the divisor vanishes for unrelated inputs as well, so it is the zero expression, not a zero value
func alwaysDividesByZero(p *P, base []*big.Int) bool {
	for k := int64(0); k < 3; k++ {
		in := make([]*big.Int, len(base))
		for i := range base {
			if base[i] != nil {
				in[i] = new(big.Int).Exp(bi(1000003+17*k), bi(int64(5+i)+k), refOrder)
			}
		}
		if _, _, err := reference(p, in, refOrder, nil); err != errDivZero {
			return false
		}
	}
	return true
}

// trees calls f for every expression with exactly n operators over the leaves
func trees(n int, ops string, leaves []*E, f func(*E)) {
	if n == 0 {
		for _, l := range leaves {
			f(l)
		}
		return
	}
	for l := 0; l < n; l++ {
		trees(l, ops, leaves, func(a *E) {
			trees(n-1-l, ops, leaves, func(b *E) {
				for i := 0; i < len(ops); i++ {
					f(B(ops[i], a, b))
				}
			})
		})
	}
}

func leaves(s string) (r []*E) {
	for _, t := range strings.Fields(s) {
		if t[0] >= '0' && t[0] <= '9' {
			r = append(r, N(t))
		} else {
			r = append(r, V(t))
		}
	}
	return
}

// inputs for programs over x, y with k claims
func xyInputs(k int, pairs ...[2]*big.Int) (r [][]*big.Int) {
	for _, p := range pairs {
		r = append(r, append([]*big.Int{p[0], p[1]}, make([]*big.Int, k)...))
	}
	return
}

var xyQuick = [][2]*big.Int{{bi(3), bi(5)}, {bi(0), bi(1)}, {qm1, bi(2)}}
var xyAll = [][2]*big.Int{{bi(3), bi(5)}, {bi(0), bi(1)}, {qm1, bi(2)}, {bi(1), bi(0)}, {bi(7), bi(7)}, {qm1, qm1}, {bi(0), bi(0)}, {bi(2), new(big.Int).Rsh(refOrder, 1)}}

func init() {
	register("C01", c01)
	metas["C01"] = meta{
		rule: "all expression trees with up to n operators over two inputs and constants (printed with minimal and with full parentheses) asserted against a claim; " +
			"all sequences of three variable definitions over earlier variables with every variable asserted after all of them; products, quotients and additions of all pairs of linear combinations. " +
			"A case is non-trivial if a reference execution satisfies its assertions; each claim is also tried with a wrong value",
		bounds:         "trees: 2 operators over {x,y,2,0,q-1}, 3 operators over {x,y,3} with + - *; 3-variable histories over {x,2} with + - *; linear combinations with coefficients {-1,0,1,2}; pairs of 45 values of every shape (scaled, multi-word, cancelling, quotients) in 7 contexts; programs of long chains, balanced trees and many variables that grow to sizes of 100 (every size to 12, then around powers of two), the cheap ones to 513; 91 constants (around word boundaries and multiples of the modulus, with leading zeros) in 33 positions; products of names and coefficients alike as text and as truncated hashes; every ninth program under one of 9 other namings; 3 to 8 input pairs including 0, 1, -1 and equal inputs",
		boundsThorough: "trees: 3 operators over {x,y,2,0,q-1} with + - * /, 4 operators over {x,y} with + - *; 3-variable histories over {x,y,2} with + - * /; linear combinations with coefficients {-1,0,1,2,q/2}; the families of quick in full and up to size 257; 8 input pairs",
		assumptions:    []string{"the reference interpreter (harness/lang.go) states the documented meaning of expressions", "division by the literal constant zero is outside the property"},
	}
}

func c01(x *X) {
	in := xyInputs(1, xyAll...)
	inQ := xyInputs(1, xyQuick...)
	one := func(e *E, ins [][]*big.Int) {
		p := &P{params: []string{"x", "y", "p"}, body: []*S{Eq(e, V("p")), Ret(nil)}}
		for _, full := range []bool{false, true} {
			if full && e.text(true) == e.text(false) {
				continue
			}
			st := style{full}
			x.Case(p.text(st), func() error { return x.checkProgram(p, st, ins) })
		}
		x.also(renameEvery, &P{params: []string{"x", "y", "p"}, body: []*S{Eq(e, V("p")), Ret(nil)}}, ins)
		// as the returned value of a function, and stored in a variable
	}
	lv := leaves("x y 2 0 " + qm1.String())
	for n := 0; n <= 2; n++ {
		trees(n, "+-*/", lv, func(e *E) { one(e, in) })
	}
	// expression in other positions: return value of a function, value of a variable, argument, array element, both sides
	trees(1, "+-*/", leaves("x y 2"), func(e *E) {
		trees(1, "+-*/", leaves("x y 3"), func(g *E) {
			x.positions(e, g, in)
		})
	})
	// histories of variables: no evaluation may change the value of another variable
	hist := func(ops string, base string, ins [][]*big.Int) {
		trees(1, ops, leaves(base), func(e1 *E) {
			trees(1, ops, leaves(base+" a"), func(e2 *E) {
				trees(1, ops, leaves(base+" a b"), func(e3 *E) {
					p := &P{params: []string{"x", "y", "p", "q", "r"}, body: []*S{Decl("a", e1), Decl("b", e2), Decl("c", e3),
						Eq(V("a"), V("p")), Eq(V("b"), V("q")), Eq(V("c"), V("r")), Ret(nil)}}
					x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, ins) })
					x.also(renameEvery, p, ins)
				})
			})
		})
	}
	hist("+-*", "x 2", xyInputs(3, xyQuick[0]))
	x.c01shapes()
	x.c01constants()
	x.scaled("e")
	hashCollisions(func(p *P) {
		x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, collisionInputs) })
	})
	nameCollisions(x.Thorough, func(p *P) {
		x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, collisionInputs) })
	})
	// linear combinations with every small coefficient pattern
	coef := []string{"0", "1", "2", qm1.String()}
	if x.Thorough {
		coef = append(coef, new(big.Int).Rsh(refOrder, 1).String())
	}
	var lin []*E
	for _, a := range coef {
		for _, b := range coef {
			for _, c := range coef[:3] {
				lin = append(lin, B('+', B('+', B('*', N(a), V("x")), B('*', N(b), V("y"))), N(c)))
			}
		}
	}
	for i, l := range lin {
		for j, r := range lin {
			for _, op := range []byte("*/-+") {
				if !x.Thorough && (i*7+j*3)%4 != 0 && op != '*' && op != '/' {
					continue
				}
				e := B(op, l, r)
				p := &P{params: []string{"x", "y", "p"}, body: []*S{Eq(e, V("p")), Ret(nil)}}
				x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, inQ) })
			}
		}
	}
	trees(3, "+-*", leaves("x y 3"), func(e *E) { one(e, inQ) })
	if x.Thorough {
		trees(3, "+-*/", lv, func(e *E) { one(e, inQ) })
		hist("+-*/", "x y 2", xyInputs(3, xyQuick[0], xyQuick[2]))
		trees(4, "+-*", leaves("x y"), func(e *E) { one(e, inQ) })
	}
}

// shapes: expressions that the tool chain represents in every different way: a scaled wire with a small, a negative, a large
// and a multi-word coefficient, constants of these kinds, sums with and without a common factor, scaled products and quotients
func shapes() (r []*E) {
	w := new(big.Int).Lsh(bi(1), 64)
	w1 := new(big.Int).Add(w, bi(1)).String()
	h := new(big.Int).Lsh(bi(1), 128)
	h1 := new(big.Int).Add(h, bi(1)).String()
	for _, s := range []string{"x", "y", "0-x", "2*x", "x*4294967297", "x*" + w1, "x*" + h1, "x/2", "0-2*x", qm1.String() + "*x", "x-x",
		"x+y", "x-y", "y-x", "0-x-y", "2*x+2*y", "2*x-2*y", "4*x+6*y", "2*y-3*x", "x+y*" + w1, "y+x*" + w1, "x+y*4294967297", "x+y/3",
		"x+1", "x-1", "1-x", "0-1-x", "2*x+2", "x+" + w1, "3*x+2*y+1", "x+y-1",
		"x*y", "0-x*y", "3*x*y", "x*y+x", "x*y-1", "x/y", "0-x/y", "(2*x+2*y)*(3*x-3)", "x*x-y*y", "2/y", "1/(x+y)",
		"0", "1", "2", "0-1", "0-2", w1, qm1.String(), "1/2"} {
		r = append(r, mustExpr(s))
	}
	return
}

func (x *X) c01shapes() {
	sh := shapes()
	ins := xyInputs(2, xyQuick[0], xyQuick[2])
	ctx := []func(s *E) *E{
		func(s *E) *E { return B('*', s, V("y")) },
		func(s *E) *E { return B('*', s, mustExpr("x+2*y")) },
		func(s *E) *E { return B('/', s, mustExpr("x+y")) },
		func(s *E) *E { return B('/', V("y"), s) },
		func(s *E) *E { return B('/', mustExpr("2*y+2*x"), B('+', s, V("x"))) },
		func(s *E) *E { return B('-', V("y"), s) },
		func(s *E) *E { return B('*', s, s) },
	}
	for i, s := range sh {
		for j, t := range sh {
			// what is computed first must not stand in for what is computed second
			for k, c := range ctx {
				if !x.Thorough && k > 1 && (i+j)%3 != 0 && i != j {
					continue
				}
				p := &P{params: []string{"x", "y", "p", "q"}, body: []*S{Decl("a", c(s)), Decl("b", c(t)), Eq(V("a"), V("p")), Eq(V("b"), V("q")), Ret(nil)}}
				x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, ins) })
			}
			for k, op := range []byte("+-*/") {
				if !x.Thorough && (i+j+k)%2 != 0 {
					continue
				}
				p := &P{params: []string{"x", "y", "p", "q"}, body: []*S{Eq(B(op, s, t), V("p")), Decl("a", s), Decl("b", t), Eq(B(op, V("a"), V("b")), V("q")), Ret(nil)}}
				x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, ins) })
			}
		}
		for _, g := range leaves("x y 2") {
			x.positions(s, g, xyInputs(1, xyQuick...))
			x.positions(g, s, xyInputs(1, xyQuick...))
		}
	}
}

// constants around every word boundary, around multiples of the modulus, with leading zeros
func constants() (r []string) {
	for _, k := range []uint{8, 16, 31, 32, 53, 63, 64, 127, 128, 192, 252, 253, 254, 255, 256, 257, 320, 512} {
		p2 := new(big.Int).Lsh(bi(1), k)
		r = append(r, new(big.Int).Sub(p2, bi(1)).String(), p2.String(), add1(p2).String())
	}
	for _, m := range []*big.Int{refOrder, new(big.Int).Lsh(refOrder, 1), new(big.Int).Rsh(refOrder, 1), new(big.Int).Mul(refOrder, refOrder)} {
		for d := int64(-2); d <= 2; d++ {
			r = append(r, new(big.Int).Add(m, bi(d)).String())
		}
	}
	for _, k := range []int{9, 10, 18, 19, 20, 38, 39, 76, 77, 78, 100} {
		r = append(r, "1"+strings.Repeat("0", k), strings.Repeat("9", k))
	}
	return append(r, "0", "00", "000", "01", "007", "08", "09", "010", "0"+refOrder.String(), "10", "12", "100", "3", "30", "33")
}

func (x *X) c01constants() {
	in := xyInputs(1, xyQuick[0])
	in2 := xyInputs(2, xyQuick[0])
	for i, k := range constants() {
		k := k
		zero := isZeroConst(k)
		for _, e := range []string{"x*K", "K*x", "x+K", "K-x", "x-K", "K*K", "K*K*x", "K+K", "K-1", "(x+K)*(y+K)", "(x+K)*(y-K)", "(x+K*y)*(K*x-y)", "K*(x*y)", "K*x*(K*y)", "x/K", "1/K", "K/x", "K/(x+K)", "(K*x)/(K*y)", "0-K", "0-K*x", "K*x-K*x", "(x*y)/K+K/y"} {
			if zero && (strings.Contains(e, "/K") || strings.Contains(e, "/(K*y)")) {
				continue
			}
			e := mustExpr(strings.ReplaceAll(e, "K", k))
			p := &P{params: []string{"x", "y", "p"}, body: []*S{Eq(e, V("p")), Ret(nil)}}
			x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, in) })
		}
		x.positions(N(k), V("x"), in)
		x.positions(B('*', V("y"), N(k)), N(k), in)
		if i%5 == 0 || x.Thorough {
			for _, l := range constants() {
				e := B('*', B('+', V("x"), N(k)), B('+', V("y"), N(l)))
				p := &P{params: []string{"x", "y", "p", "q"}, body: []*S{Eq(e, V("p")), Decl("a", N(l)), Decl("b", B('-', N(k), V("a"))), Eq(B('*', B('+', V("b"), V("x")), B('+', V("y"), V("a"))), V("q")), Ret(nil)}}
				x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, in2) })
			}
		}
	}
}

func isZeroConst(k string) bool {
	v, _ := new(big.Int).SetString(k, 10)
	return mod(v).Sign() == 0
}

func (x *X) positions(e, g *E, in [][]*big.Int) {
	progs := []*P{
		{params: []string{"x", "y", "p"}, body: []*S{Eq(C("f", V("x"), V("y")), V("p")), Ret(nil)}, globals: []*S{Fn("f", []string{"x", "y"}, Ret(B('+', e, g)))}},
		{params: []string{"x", "y", "p"}, body: []*S{Decl("a", e), Decl("b", g), Decl("c", B('-', V("a"), V("b"))), Eq(B('*', V("c"), V("a")), B('+', V("p"), V("b"))), Ret(nil)}},
		{params: []string{"x", "y", "p"}, body: []*S{DeclArr("a", e, g), Eq(B('-', I("a", N("1")), I("a", N("0"))), V("p")), Ret(nil)}},
		{params: []string{"x", "y", "p"}, body: []*S{Eq(C("addGateConstraint", e, g), V("p")), Ret(nil)}},
		{params: []string{"x", "y", "p"}, body: []*S{Decl("a", C("addGateConstraint", e, g)), Decl("b", C("addGateConstraint", V("a"), e)), Eq(V("b"), V("p")), Ret(V("a"))}},
	}
	// the claim occurs in an expression of one: the value is computed here
	progs[1] = &P{params: []string{"x", "y", "p"}, body: []*S{Decl("a", e), Decl("b", g), Decl("c", B('-', V("a"), V("b"))), Decl("d", B('*', V("c"), V("a"))), Eq(B('-', V("d"), V("b")), V("p")), Eq(V("d"), B('+', V("p"), V("b"))), Ret(nil)}}
	for _, p := range progs {
		p := p
		x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, in) })
	}
}
