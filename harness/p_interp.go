package main

// C12: constraint systems as polynomials.

import (
	"fmt"
	"math/big"

	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

func init() {
	register("C12", c12)
	metas["C12"] = meta{
		rule: "for every program of the corpus and every length of a family of long programs: the polynomials of every wire, dense and sparse, are evaluated at every constraint point with independent arithmetic and compared with the matrix entries, their degrees with the number of constraints; the domain polynomial with the product of the linear factors. " +
			"For the honest witness and every corruption of it (each wire increased by one, set to zero, doubled, each pair of wires increased together in small systems) the combined polynomial, dense and sparse, is evaluated at every constraint point and compared with the residual of that constraint; its division by the domain polynomial leaves a remainder exactly if a constraint is violated. " +
			"The same over small prime fields with fresh interpolation caches, there for every assignment of the wires in the smallest systems. Non-trivial: an assignment violating some constraint",
		bounds:         "corpus with expressions of up to 2 operators and statement sequences of length 2; programs of 1 to 24 constraints, programs that grow to sizes of 12 and their families in descending and ascending order of length; fields of 5 and 31 elements and the scalar field; all assignments for systems with at most 5 free wires over the field of 5 elements",
		boundsThorough: "thorough corpus; programs of 1 to 64 constraints; all assignments for systems with at most 6 free wires over the field of 5 elements",
		assumptions:    []string{"the number of constraints does not exceed the size of the field, so that the constraint points are distinct"},
	}
}

func hornerMod(q *big.Int, c []*big.Int, at int64) *big.Int {
	r := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		r.Mul(r, bi(at))
		if c[i] != nil {
			r.Add(r, c[i])
		}
		r.Mod(r, q)
	}
	return r
}

// coeffs reads a sparse polynomial, rejecting degrees of max and above
func coeffs(t *utils.AvlTree, max int) ([]*big.Int, error) {
	r := make([]*big.Int, max)
	for _, e := range t.DecendingNodes() {
		if int(e.Key) >= max {
			return nil, fmt.Errorf("degree %d", e.Key)
		}
		if r[e.Key] != nil {
			return nil, fmt.Errorf("the coefficient %d is there twice", e.Key)
		}
		r[e.Key] = e.Value
	}
	return r, nil
}

// trimMod drops leading zeros
func trimMod(q *big.Int, p []*big.Int) []*big.Int {
	for len(p) > 0 && new(big.Int).Mod(p[len(p)-1], q).Sign() == 0 {
		p = p[:len(p)-1]
	}
	return p
}

func (x *X) interpCase(c *circuit, q *big.Int, assignments [][]*big.Int) error {
	n, wl := c.dense.NumberOfGates, c.dense.WitnessLength
	td, ts := c.dense.Transpose(), c.sparse.TransposeSparse()
	var dense [4][][]*big.Int
	dense[0], dense[1], dense[2], dense[3] = td.ER1CSToEAP()
	var sparse [4][]*utils.AvlTree
	sparse[0], sparse[1], sparse[2], sparse[3] = ts.ER1CSToEAPSparse()
	mats := [4][][]*big.Int{c.dense.L, c.dense.R, c.dense.E, c.dense.O}
	for k := 0; k < 4; k++ {
		if len(dense[k]) != wl || len(sparse[k]) != wl {
			return fmt.Errorf("%d dense and %d sparse polynomials for %d wires", len(dense[k]), len(sparse[k]), wl)
		}
		for w := 0; w < wl; w++ {
			d := trimMod(q, dense[k][w])
			s, err := coeffs(sparse[k][w], n)
			if err != nil {
				return fmt.Errorf("sparse polynomial of matrix %c, wire %d, %d constraints: %v", "LREO"[k], w, n, err)
			}
			if len(d) > n {
				return fmt.Errorf("polynomial of matrix %c, wire %d has degree %d, there are %d constraints", "LREO"[k], w, len(d)-1, n)
			}
			for i := 0; i < n; i++ {
				want := new(big.Int).Mod(mats[k][i][w], q)
				if v := hornerMod(q, d, int64(i)); v.Cmp(want) != 0 {
					return fmt.Errorf("dense polynomial of matrix %c, wire %d at point %d is %s, the entry is %s", "LREO"[k], w, i, shortInt(v), shortInt(want))
				}
				if v := hornerMod(q, s, int64(i)); v.Cmp(want) != 0 {
					return fmt.Errorf("sparse polynomial of matrix %c, wire %d at point %d is %s, the entry is %s", "LREO"[k], w, i, shortInt(v), shortInt(want))
				}
			}
			x.Eval(2)
			x.Trans(2 * n)
		}
	}
	pf := utils.Field.PolynomialField
	dom := pf.DomainPolynomial(n)
	if err := agreePoly(q, dom, refMod(q, refDomain(q, n))); err != nil {
		return fmt.Errorf("domain polynomial for %d constraints: %v", n, err)
	}
	for a, w := range assignments {
		if a%16 == 0 {
			x.Tick()
		}
		res := make([]*big.Int, n)
		sat := true
		dotq := func(row []*big.Int) *big.Int {
			s := new(big.Int)
			for i, v := range row {
				if v.Sign() != 0 {
					s.Add(s, new(big.Int).Mul(v, w[i]))
				}
			}
			return s.Mod(s, q)
		}
		for i := range res {
			r := new(big.Int).Mul(dotq(mats[0][i]), dotq(mats[1][i]))
			if e := dotq(mats[2][i]); e.Sign() != 0 {
				r.Add(r, refScalarBaseX(e))
			}
			r.Sub(r, dotq(mats[3][i]))
			res[i] = r.Mod(r, q)
			if res[i].Sign() != 0 {
				sat = false
			}
		}
		given := copyInts(w)
		pd := zk.CombinePolynomials2(given, td)
		ps := zk.CombineSparsePolynomials(given, ts)
		x.Eval(2)
		if !sameInts(given, w) {
			return fmt.Errorf("combining changed the assignment %s", showInts(w))
		}
		sp, err := coeffs(ps, 2*n)
		if err != nil {
			return fmt.Errorf("combined sparse polynomial for %s: %v", showInts(w), err)
		}
		dd := trimMod(q, pd)
		if len(dd) > 2*n-1 && n > 0 {
			return fmt.Errorf("combined polynomial for %s has degree %d with %d constraints", showInts(w), len(dd)-1, n)
		}
		for i := 0; i < n; i++ {
			if v := hornerMod(q, dd, int64(i)); v.Cmp(res[i]) != 0 {
				return fmt.Errorf("assignment %s: the combined polynomial at point %d is %s, the constraint is off by %s", showInts(w), i, shortInt(v), shortInt(res[i]))
			}
			if v := hornerMod(q, sp, int64(i)); v.Cmp(res[i]) != 0 {
				return fmt.Errorf("assignment %s: the combined sparse polynomial at point %d is %s, the constraint is off by %s", showInts(w), i, shortInt(v), shortInt(res[i]))
			}
		}
		_, rd := pf.Div(pd, dom)
		_, rs := utils.Field.ArithmeticField.DivideSparse(ps, utils.NewSparseArrayFromArray(dom))
		if (len(trimMod(q, rd)) == 0) != sat || (rs.Size() == 0) != sat {
			return fmt.Errorf("assignment %s satisfies the constraints: %v, remainders %s and %v", showInts(w), sat, showInts(rd), rs)
		}
		x.StateHash(hash64(fmt.Sprint(q, n, res)))
		if !sat {
			x.Nontrivial(fmt.Sprintf("%s %d %s", q, a, c.src))
		}
	}
	return nil
}

// corruptions of a witness; the honest one comes first
func corruptions(w []*big.Int, q *big.Int, pairs bool) (r [][]*big.Int) {
	add := func(f func(c []*big.Int)) {
		c := copyInts(w)
		f(c)
		for i := range c {
			c[i].Mod(c[i], q)
		}
		r = append(r, c)
	}
	add(func(c []*big.Int) {})
	for i := 1; i < len(w); i++ {
		add(func(c []*big.Int) { c[i].Add(c[i], bi(1)) })
		add(func(c []*big.Int) { c[i].SetInt64(0) })
		add(func(c []*big.Int) { c[i].Lsh(c[i], 1) })
		for j := i + 1; pairs && j < len(w); j++ {
			add(func(c []*big.Int) { c[i].Add(c[i], bi(1)); c[j].Sub(c[j], bi(1)) })
		}
	}
	return
}

// withField runs f over the field of p elements, with interpolation caches of its own
func withField(p int64, f func() error) (err error) {
	inField(p, func() {
		old := utils.Field
		utils.Field = utils.PrepareFields(bn.Order)
		defer func() { utils.Field = old }()
		err = f()
	})
	return
}

func c12(x *X) {
	free := 5
	maxN := 24
	if x.Thorough {
		free, maxN = 6, 64
	}
	real := func(src string, p *P) error {
		c, err := compile(src, false)
		if err != nil {
			return fmt.Errorf("does not compile: %v", err)
		}
		if c.dense.NumberOfGates == 0 {
			x.Count("programs without constraints", 1)
			return nil
		}
		var as [][]*big.Int
		full, _, err := reference(p, []*big.Int{bi(3), bi(4), nil, nil}, refOrder, nil)
		if err == nil {
			if w, rej, crash := c.solveDense(full); rej == nil && crash == nil {
				as = corruptions(w, refOrder, len(w) < 10)
			}
		}
		return x.interpCase(c, refOrder, as)
	}
	small := func(src string, f int64, p *P) error {
		return withField(f, func() error {
			c, err := compile(src, false)
			if err != nil {
				return nil // constants of the program may vanish in the small field
			}
			n, wl := c.dense.NumberOfGates, c.dense.WitnessLength
			if n == 0 || int64(n) > f {
				return nil
			}
			q := bi(f)
			var as [][]*big.Int
			if wl-1 <= free && f == 5 {
				total := 1
				for i := 1; i < wl; i++ {
					total *= int(f)
				}
				for v := 0; v < total; v++ {
					w := ints(1)
					for i, t := 1, int64(v); i < wl; i++ {
						w = append(w, bi(t%f))
						t /= f
					}
					as = append(as, w)
				}
				return x.interpCase(c, q, as)
			}
			for _, in := range [][]int64{{3, 4}, {0, 1}, {2, 2}} {
				full, _, err := reference(p, []*big.Int{bi(in[0] % f), bi(in[1] % f), nil, nil}, q, nil)
				if err != nil {
					continue
				}
				if w, rej, crash := c.solveDense(full); rej == nil && crash == nil {
					as = append(as, corruptions(w, q, wl < 10)...)
				}
			}
			return x.interpCase(c, q, as)
		})
	}
	corpus(x.Thorough, func(cp CP) {
		src := cp.p.text(style{})
		if !cp.split {
			x.Case(src, func() error { return real(src, cp.p) })
		}
		if cp.ext {
			return
		}
		for _, f := range []int64{5, 31} {
			x.Case(fmt.Sprintf("field of %d elements\n%s", f, src), func() error { return small(src, f, cp.p) })
		}
	})
	scaledCorpus(x.Thorough, maxN/2, func(name string, cp CP) {
		src := cp.p.text(style{})
		x.Case(name+"\n"+clip(src), func() error { return real(src, cp.p) })
	})
	// long programs; every worker meets many lengths in changing order
	e := mustExpr
	mk := func(n int) *P {
		return &P{params: []string{"x", "y", "p", "q"}, body: []*S{Decl("v", V("x")), Decl("i", N("0")), For(Cmp(V("i"), "<", N_(n)), Asg("i", e("i+1")), Asg("v", e("v*y+i"))), Ret(e("v*1"))}}
	}
	for k := 0; k < 2*maxN; k++ {
		n := k + 1
		if k >= maxN {
			n = 2*maxN - k
		}
		p := mk(n)
		src := p.text(style{})
		x.Case(fmt.Sprintf("%d: %s", k, src), func() error { return real(src, p) })
	}
}
