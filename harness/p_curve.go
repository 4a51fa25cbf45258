package main

// C11: the base-multiplication builtin.

import (
	"fmt"
	"math/big"
)

func init() {
	register("C11", c11)
	metas["C11"] = meta{
		rule: "every program that places the builtin, applied to every scalar expression up to the bound, into every context of the list (alone, negated, scaled, in sums, products and quotients, nested, two of them combined, in functions, closures, loops and branches, reassigned) and the context under every kind of use (compared with a claim from either side, through a variable, together with other uses of the same value), on a grid of boundary scalars. " +
			"The claim of the sequential meaning (affine arithmetic of its own) is accepted by both solvers and by the constraints, the claims changed by one, negated, or replaced by the y coordinate or the coordinate of a neighbouring multiple are refused by both solvers and by the constraints alone. Non-trivial: the honest claim was accepted",
		bounds:         "scalar expressions with up to 1 operator over x, y, 2; 25 contexts, 6 uses; x, y from {0, 1, q-1, 2^130+7} in 6 combinations",
		boundsThorough: "scalar expressions with up to 2 operators; contexts as quick; x, y from {0, 1, 2, q-1, q/2, 2^130+7} in all combinations",
		assumptions:    []string{"the multiple that is the neutral element has coordinate 0 in this language", "programs dividing by an expression that is identically zero are left out"},
	}
}

func curvePrograms(thorough bool, f func(p *P, light bool)) {
	light := false
	e := mustExpr
	g := func(a *E) *E { return C("scalarBaseMultiply", a) }
	params := []string{"x", "y", "p", "q"}
	seen := map[string]bool{}
	globals := []*S{
		Fn("f", []string{"a"}, Ret(g(V("a")))),
		Fn("h", []string{"a", "b"}, Ret(B('+', g(V("a")), B('*', V("b"), g(V("b")))))),
		Fn("k", []string{"a"}, Decl("u", g(V("a"))), Decl("n", B('-', N("0"), V("u"))), Ret(B('-', V("u"), V("n")))),
	}
	emit := func(b ...*S) {
		p := &P{globals: globals, params: params, body: append(append([]*S{}, b...), Ret(nil))}
		t := p.text(style{})
		if !seen[t] {
			seen[t] = true
			f(p, light)
			if len(seen)%13 == 0 {
				f(renamed(p, len(seen)/13), light)
			}
		}
	}
	contexts := func(s *E) []*E {
		return []*E{
			g(s), B('-', N("0"), g(s)), B('*', N("3"), g(s)), B('*', g(s), N("7")), B('/', g(s), N("2")), B('+', g(s), V("x")), B('-', V("x"), g(s)), B('-', B('*', N("2"), g(s)), e("3*y")),
			B('*', g(s), V("y")), B('*', V("x"), g(s)), B('*', g(s), g(s)), B('/', g(s), V("y")), B('/', V("x"), g(s)),
			g(g(s)), g(B('+', g(s), N("1"))), g(B('*', N("2"), g(s))),
			B('+', g(s), g(V("y"))), B('-', g(s), g(V("y"))), B('*', g(s), g(V("y"))), B('/', g(V("x")), g(s)), B('-', g(s), g(s)), B('+', g(s), B('-', N("0"), g(s))),
			B('*', g(s), e("x*y")), C("f", s), C("h", s, V("y")),
			B('+', C("k", s), g(s)),
		}
	}
	use := func(t *E) {
		emit(Eq(t, V("p")))
		emit(Eq(V("p"), t))
		emit(Decl("v", t), Eq(V("v"), V("p")), Eq(e("2*v+x"), V("q")))
		emit(Decl("v", t), Decl("w", e("0-v")), Eq(V("w"), V("p")), Eq(V("v"), V("q")))
		emit(Decl("v", t), Decl("w", e("v*v")), Eq(B('-', V("w"), V("v")), V("p")), Eq(t, V("q")))
		emit(Eq(B('-', t, V("x")), V("p")), Eq(B('*', N("5"), t), V("q")))
	}
	max := 1
	if thorough {
		max = 2
	}
	for n := 0; n <= max; n++ {
		trees(n, "+-*/", leaves("x y 2"), func(s *E) {
			cs := contexts(s)
			if n == 2 {
				cs = cs[:6]
			}
			for i, t := range cs {
				if n == 0 || i < 2 || n == 1 && thorough {
					use(t)
				} else {
					emit(Eq(t, V("p")), Eq(B('+', V("x"), t), V("q")))
				}
			}
		})
	}
	x := V("x")
	// two multiples in one program: every pair of scalars
	light = true
	sh := shapes()
	for i, s := range sh {
		for j, t := range sh {
			if thorough || i == j || (i+j)%2 == 1 || i < 24 && j < 24 {
				emit(Decl("a", g(s)), Decl("b", g(t)), Eq(V("a"), V("p")), Eq(V("b"), V("q")))
			}
		}
		emit(Decl("a", s), Decl("b", g(V("a"))), Eq(V("b"), V("p")), Eq(B('+', V("a"), V("y")), V("q")))
		emit(Decl("b", C("h", s, V("y"))), Eq(V("b"), V("p")), Eq(B('*', V("b"), s), V("q")))
	}
	light = false
	for n := 1; n <= 3; n++ {
		emit(Decl("v", x), Decl("i", N("0")), For(Cmp(V("i"), "<", N_(n)), Asg("i", e("i+1")), Asg("v", g(e("v+i")))), Eq(V("v"), V("p")))
		emit(Decl("v", x), Decl("i", N("0")), For(Cmp(V("i"), "<", N_(n)), Asg("i", e("i+1")), Asg("v", B('-', V("v"), g(e("y+i"))))), Eq(V("v"), V("p")))
		emit(Decl("i", N_(n)), If([]*Cond{Cmp(V("i"), "==", N("1")), Cmp(V("i"), "==", N("2")), nil}, []*S{Eq(g(x), V("p"))}, []*S{Eq(C("f", V("y")), V("p"))}, []*S{Eq(V("p"), g(N("12")))}))
	}
	emit(Decl("z", C("h", x)), Eq(C("z", V("y")), V("p")))
	emit(Decl("a", g(x)), Asg("a", B('-', N("0"), V("a"))), Asg("a", B('-', N("0"), V("a"))), Eq(V("a"), V("p")), Eq(g(x), V("q")))
	emit(Decl("a", g(x)), Decl("b", g(x)), Decl("c", B('-', V("a"), V("y"))), Eq(V("b"), V("p")), Eq(V("a"), V("q")))
	emit(DeclArr("t", g(x), g(V("y")), e("0-x")), AsgIdx("t", N("0"), B('*', N("2"), I("t", N("0")))), Eq(I("t", N("0")), V("p")), Eq(I("t", N("1")), V("q")))
	for _, k := range []string{"0", "1", "2", "21888242871839275222246405745257275088548364400416034343698204186575808495616", "21888242871839275222246405745257275088548364400416034343698204186575808495617", "21888242871839275222246405745257275088548364400416034343698204186575808495619"} {
		emit(Eq(g(N(k)), V("p")), Eq(g(B('-', N("0"), N(k))), V("q")))
		emit(Eq(g(B('+', V("x"), N(k))), V("p")))
		emit(Eq(g(B('*', V("x"), N(k))), V("p")))
	}
}

func c11(x *X) {
	big130 := new(big.Int).Add(new(big.Int).Lsh(bi(1), 130), bi(7))
	ins := [][]*big.Int{{bi(0), bi(1)}, {bi(1), qm1}, {qm1, big130}, {big130, bi(0)}, {bi(1), bi(1)}, {bi(2), bi(3)}}
	if x.Thorough {
		v := []*big.Int{bi(0), bi(1), bi(2), qm1, new(big.Int).Rsh(refOrder, 1), big130}
		ins = nil
		for _, a := range v {
			for _, b := range v {
				ins = append(ins, []*big.Int{a, b})
			}
		}
	}
	curvePrograms(x.Thorough, func(p *P, light bool) {
		ins := ins
		if light {
			ins = ins[3:4]
			if ins[0][1].Sign() == 0 {
				ins = [][]*big.Int{{big130, bi(3)}}
			}
		}
		src := p.text(style{})
		x.Case(src, func() error {
			if alwaysDividesByZero(p, []*big.Int{bi(0), bi(0), nil, nil}) {
				x.Count("programs dividing by an expression that is identically zero (no claim)", 1)
				return nil
			}
			c, err := compile(src, false)
			if err != nil {
				return fmt.Errorf("does not compile: %v", err)
			}
			s, err := newSys(c.dense)
			if err != nil {
				return err
			}
			for _, ab := range ins {
				x.Tick()
				full, accept, err := reference(p, []*big.Int{ab[0], ab[1], nil, nil}, refOrder, nil)
				if err == errDivZero || err == errStaticDivZero {
					continue // the quotient is undefined on these inputs
				}
				if err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				try := func(in []*big.Int, accept bool) error {
					for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
						w, rej, crash := solve(copyInts(in))
						x.Eval(1)
						x.Trans(c.dense.NumberOfGates)
						if crash != nil {
							return fmt.Errorf("solver %d crashes on %s: %v", k, showInts(in), crash)
						}
						if (rej == nil) != accept {
							return fmt.Errorf("solver %d on %s: accepted %v, the claims hold: %v (%v)", k, showInts(in), rej == nil, accept, rej)
						}
						if rej == nil {
							x.StateHash(hash64(showInts(w)))
						}
					}
					w := make([]*big.Int, s.n)
					w[0] = bi(1)
					copy(w[1:], in)
					got := false
					x.Trans(s.searchBig(refOrder, w, []*big.Int{bi(0), bi(1)}, func([]*big.Int) bool { got = true; return true }))
					x.Eval(1)
					if got != accept {
						return fmt.Errorf("on %s: the constraints have a satisfying assignment: %v, the claims hold: %v", showInts(in), got, accept)
					}
					return nil
				}
				if err := try(full, accept); err != nil {
					return err
				}
				if !accept {
					continue
				}
				x.Nontrivial(fmt.Sprint(ab, src))
				var tried []*big.Int
				for i := 2; i < 4; i++ {
					for _, alt := range []*big.Int{add1(full[i]), mod(new(big.Int).Neg(full[i])), mod(affMul(refGen, bi(2)).y), refScalarBaseX(new(big.Int).Add(ab[0], bi(1))), refScalarBaseX(mod(new(big.Int).Lsh(ab[0], 1)))} {
						if alt.Cmp(full[i]) == 0 {
							continue
						}
						if light && len(tried) == i-1 {
							break
						}
						tried = append(tried, alt)
						in := copyInts(full)
						in[i] = mod(alt)
						_, ok, err := reference(p, in, refOrder, nil)
						if err != nil {
							continue
						}
						if err := try(in, ok); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	})
}
