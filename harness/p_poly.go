package main

// C14 dense polynomials, C15 sparse polynomials.

import (
	"fmt"
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func init() {
	register("C14", c14)
	metas["C14"] = meta{
		rule: "all pairs of coefficient vectors over small prime fields and over boundary coefficients of the group order: sum, difference, product, division with remainder, scaling, combinations, compared with schoolbook integer arithmetic; operands and earlier results are compared before and after, and results and operands are then overwritten in place to see whether other results change. " +
			"Interpolation: all data vectors, and all sequences of requests up to the depth on one field object (its basis cache is the state). Non-trivial: distinct pairs with a nonzero product, and distinct interpolation requests with data other than zero",
		bounds:         "vectors of length 1..5 over F2 and 1..4 over F3, 1..3 over F5 and F7 and over {0,1,-1,q/2,q+1}; pairs of long operands (lengths up to 129, five families); interpolation data of length 1..5 over F5 and long ones, request sequences of depth 4 over 9 requests",
		boundsThorough: "vectors of length 1..7 over F2 and 1..5 over F3, 1..4 over F5, 1..3 over F7 and over {0,1,-1,q/2,q+1}; long operands of more lengths; interpolation data of length 1..5 over F5 and long ones, request sequences of depth 5 over 9 requests",
		assumptions:    []string{"the divisor of a division is not the zero polynomial", "interpolation over a field has at most as many points as the field has elements"},
	}
	register("C15", c15)
	metas["C15"] = meta{
		rule: "all pairs of sparse polynomials (every assignment of field elements to the exponents) over small prime fields and boundary coefficients of the group order: sum, difference, product, scaling, division, evaluation at all points, interpolation, scalar products, weighting, accumulation, transposition and conversions, compared with schoolbook arithmetic on arrays; no stored zeros; operands unchanged. " +
			"Non-trivial: distinct pairs with a nonzero product",
		bounds:         "exponents {0,1,2,3,4} over F3 (second operand {0,1,2,3}), {0,1,2,3} over F5, {0,1,2,5,17,64} over F2, {0,1,2,3} over {0,1,q-1,q/2}, unreduced and negative coefficients, scalars and evaluation points; long operands; matrices of 2 rows; interpolation request sequences of depth 3 over 8 requests",
		boundsThorough: "exponents {0..5} over F3 (second operand {0..4}), {0..4} over F5 (second operand {0..3}), {0,1,2,3,5,6,17,64} over F2, {0,1,2} over F7, {0,1,2,3} over {0,1,q-1,q/2}; request sequences of depth 4",
		assumptions:    []string{"the divisor of a division is not the zero polynomial"},
	}
}

func trim(v []*big.Int) []*big.Int {
	for len(v) > 0 && v[len(v)-1].Sign() == 0 {
		v = v[:len(v)-1]
	}
	return v
}

func refZeros(n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}

func refMul(p *big.Int, a, b []*big.Int) []*big.Int {
	r := refZeros(len(a) + len(b))
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	return refMod(p, r)
}
func refMod(p *big.Int, a []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		r[i] = new(big.Int).Mod(a[i], p)
	}
	return trim(r)
}
func refAdd(p *big.Int, a, b []*big.Int, sign int64) []*big.Int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := refZeros(n)
	for i := range a {
		r[i].Add(r[i], a[i])
	}
	for i := range b {
		r[i].Add(r[i], new(big.Int).Mul(bi(sign), b[i]))
	}
	return refMod(p, r)
}
func refScale(p *big.Int, a []*big.Int, w *big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		r[i] = new(big.Int).Mul(a[i], w)
	}
	return refMod(p, r)
}

// agreePoly: got is canonical and equals want
func agreePoly(p *big.Int, got, want []*big.Int) error {
	for i, c := range got {
		if c == nil || c.Sign() < 0 || c.Cmp(p) >= 0 {
			return fmt.Errorf("%s has a coefficient that is not canonical at %d", showInts(got), i)
		}
	}
	if !sameInts(trim(got), trim(want)) {
		return fmt.Errorf("%s, want %s", showInts(got), showInts(want))
	}
	return nil
}

// pure runs f on copies of the operands, checks that they are unchanged, checks the result, and that neither later
// modifications of the operands change the result nor modifications of the result change operands or the next result.
func (x *X) pure(what string, ops [][]*big.Int, f func(ops [][]*big.Int) [][]*big.Int, check func(res [][]*big.Int) error) error {
	cp := func(v [][]*big.Int) [][]*big.Int {
		r := make([][]*big.Int, len(v))
		for i := range v {
			r[i] = copyInts(v[i])
		}
		return r
	}
	same := func(a, b [][]*big.Int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameInts(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	scribble := func(v [][]*big.Int) {
		for _, a := range v {
			for i := range a {
				a[i].Add(a[i], bi(1))
			}
		}
	}
	show := func(v [][]*big.Int) string {
		s := ""
		for _, a := range v {
			s += showInts(a)
		}
		return s
	}
	o := cp(ops)
	res := f(o)
	x.Eval(1)
	x.Trans(1)
	if !same(o, ops) {
		return fmt.Errorf("%s%s changed its operands to %s", what, show(ops), show(o))
	}
	if err := check(res); err != nil {
		return fmt.Errorf("%s%s = %v", what, show(ops), err)
	}
	keep := cp(res)
	scribble(o)
	if !same(res, keep) {
		return fmt.Errorf("the result of %s%s changes when its operands are modified later", what, show(ops))
	}
	o = cp(ops)
	res = f(o)
	scribble(res)
	if !same(o, ops) {
		return fmt.Errorf("modifying the result of %s%s changes its operands", what, show(ops))
	}
	res = f(o)
	if !same(res, keep) {
		return fmt.Errorf("%s%s gives %s after an earlier result was modified by the caller, %s before", what, show(ops), show(res), show(keep))
	}
	for _, e := range x.earlier {
		if !same(e.res, e.keep) {
			return fmt.Errorf("%s%s changed an earlier result: %s was %s and is now %s", what, show(ops), e.what, show(e.keep), show(e.res))
		}
	}
	if len(x.earlier) == 6 {
		x.earlier = append([]earlierResult{}, x.earlier[1:]...)
	}
	x.earlier = append(x.earlier, earlierResult{what, res, keep})
	return nil
}

// longVectors are operands of many lengths, of every family
var longFamilies = []func(i, n int) *big.Int{
	func(i, n int) *big.Int { return bi(1) },
	func(i, n int) *big.Int { return bi(int64(i + 1)) },
	func(i, n int) *big.Int { return bi(int64(i/(n-1+1/n)) - 1) }, // all -1 but for a zero at the end
	func(i, n int) *big.Int {
		if i == n-1 || i == n/2 {
			return new(big.Int).Rsh(refOrder, 1)
		}
		return new(big.Int)
	},
	func(i, n int) *big.Int { return new(big.Int).Exp(bi(int64(i+3)), bi(97), refOrder) },
	func(i, n int) *big.Int { return bi(int64(1 - i%3)) },
}

func longVector(p *big.Int, f, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = longFamilies[f](i, n)
		r[i].Mod(r[i], p)
	}
	return r
}

func vectors(alpha []*big.Int, max int, f func([]*big.Int)) {
	for n := 1; n <= max; n++ {
		product(len(alpha), n, func(v []int) { f(pickInts(alpha, v)) })
	}
}

func elements(p int64) (r []*big.Int) {
	for i := int64(0); i < p; i++ {
		r = append(r, bi(i))
	}
	return
}

func one(v []*big.Int) [][]*big.Int { return [][]*big.Int{v} }

func c14(x *X) {
	type dom struct {
		p     *big.Int
		alpha []*big.Int
		max   int
	}
	q := refOrder
	ds := []dom{{bi(2), elements(2), 5}, {bi(3), elements(3), 4}, {bi(5), elements(5), 3}, {bi(7), elements(7), 3}, {bi(3), ints(-1, 3, 4, 0), 3},
		{q, []*big.Int{bi(0), bi(1), bi(-1), new(big.Int).Rsh(q, 1), new(big.Int).Add(q, bi(1))}, 3}}
	if x.Thorough {
		ds[0].max, ds[1].max, ds[2].max, ds[4].max = 7, 5, 4, 4
	}
	for _, d := range ds {
		d := d
		f := utils.NewFq(new(big.Int).Set(d.p))
		if d.p == q {
			f = utils.Field.ArithmeticField
		}
		pf := *utils.NewPolynomialField(f)
		vectors(d.alpha, d.max, func(a []*big.Int) {
			x.Case(fmt.Sprintf("modulus %v, first operand %s", d.p, showInts(a)), func() (err error) {
				vectors(d.alpha, d.max, func(b []*big.Int) {
					if err == nil {
						err = x.densePair(pf, d.p, a, b)
						x.Tick()
					}
				})
				if err != nil {
					return err
				}
				return x.denseSingle(pf, d.p, a, d.alpha)
			})
		})
	}
	// long operands
	lengths := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129}
	for _, p := range []*big.Int{q, bi(7)} {
		p := p
		f := utils.Field.ArithmeticField
		if p != q {
			f = utils.NewFq(new(big.Int).Set(p))
		}
		pf := *utils.NewPolynomialField(f)
		for _, n := range lengths {
			for fa := range longFamilies {
				n, fa := n, fa
				x.Case(fmt.Sprintf("modulus %v, first operand of length %d and kind %d", p, n, fa), func() error {
					a := longVector(p, fa, n)
					for k, m := range lengths {
						for fb := range longFamilies {
							if !x.Thorough && (fa+fb+k)%6 != 0 {
								continue
							}
							if err := x.densePair(pf, p, a, longVector(p, fb, m)); err != nil {
								return err
							}
							x.Tick()
						}
					}
					return x.denseSingle(pf, p, a, ints(2, 0))
				})
			}
		}
	}
	for _, n := range []int{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48} {
		for fa := range longFamilies {
			n, fa := n, fa
			x.Case(fmt.Sprintf("interpolation of %d values of kind %d", n, fa), func() error {
				pf := *utils.NewPolynomialField(utils.NewFq(new(big.Int).Set(q)))
				for _, m := range []int{n, n - 1, n} {
					if err := x.interpolate(pf, q, longVector(q, fa, m)); err != nil {
						return err
					}
					x.Tick()
				}
				return nil
			})
		}
	}
	// interpolation
	max := 5
	for _, p := range []int64{2, 3, 5, 7} {
		n := max
		if int64(n) > p {
			n = int(p)
		}
		if p == 7 {
			n = 3
		}
		f := utils.NewFq(bi(p))
		pf := *utils.NewPolynomialField(f)
		vectors(elements(p), n, func(a []*big.Int) {
			x.Case(fmt.Sprintf("modulus %v, interpolation of %s", p, showInts(a)), func() error {
				x.Nontrivial(fmt.Sprint(p, "i", showInts(a)))
				return x.interpolate(pf, bi(p), a)
			})
		})
	}
	reqs := [][]*big.Int{ints(1), ints(0, 1), ints(1, 0), ints(2, 3), ints(0, 0), ints(0, 0, 1), ints(1, 2, 3), ints(0, 0, 0, 0), ints(0, 4, 0, 1)}
	depth := 4
	if x.Thorough {
		depth = 5
	}
	for _, p := range []*big.Int{bi(5), refOrder} {
		p := p
		for n := 2; n <= depth; n++ {
			product(len(reqs), n, func(v []int) {
				seq := append([]int{}, v...)
				x.Case(fmt.Sprintf("modulus %v, interpolation requests %v", p, seq), func() error {
					f := utils.NewFq(new(big.Int).Set(p))
					pf := *utils.NewPolynomialField(f)
					x.State(fmt.Sprint(p, seq))
					for _, k := range seq {
						if err := x.interpolate(pf, p, reqs[k]); err != nil {
							return err
						}
					}
					x.Trace(1)
					return nil
				})
			})
		}
	}
}

func (x *X) interpolate(pf utils.PolynomialField, p *big.Int, data []*big.Int) error {
	n := len(data)
	err := x.pure("LagrangeInterpolation", one(data), func(o [][]*big.Int) [][]*big.Int { return one(pf.LagrangeInterpolation(o[0])) }, func(r [][]*big.Int) error {
		got := r[0]
		if err := agreePoly(p, got, got); err != nil {
			return err
		}
		if len(trim(got)) > n {
			return fmt.Errorf("%s is not of minimal length", showInts(got))
		}
		for i := 0; i < n; i++ {
			if v := evalAt(p, got, bi(int64(i))); v.Cmp(new(big.Int).Mod(data[i], p)) != 0 {
				return fmt.Errorf("%s takes the value %v at %d", showInts(got), v, i)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	return x.pure("DomainPolynomial", one(data), func(o [][]*big.Int) [][]*big.Int { return one(pf.DomainPolynomial(n)) }, func(r [][]*big.Int) error {
		return agreePoly(p, r[0], refDomain(p, n))
	})
}

func refDomain(p *big.Int, n int) []*big.Int {
	r := ints(1)
	for i := 0; i < n; i++ {
		r = refMul(p, r, ints(int64(-i), 1))
	}
	return r
}

func (x *X) densePair(pf utils.PolynomialField, p *big.Int, a, b []*big.Int) error {
	ops := [][]*big.Int{a, b}
	prod := refMul(p, a, b)
	if len(prod) > 0 {
		x.Nontrivial(p.String() + showInts(a) + showInts(b))
	}
	x.State(p.String() + showInts(prod))
	if err := x.pure("Add", ops, func(o [][]*big.Int) [][]*big.Int { return one(pf.Add(o[0], o[1])) }, func(r [][]*big.Int) error { return agreePoly(p, r[0], refAdd(p, a, b, 1)) }); err != nil {
		return err
	}
	if err := x.pure("Sub", ops, func(o [][]*big.Int) [][]*big.Int { return one(pf.Sub(o[0], o[1])) }, func(r [][]*big.Int) error { return agreePoly(p, r[0], refAdd(p, a, b, -1)) }); err != nil {
		return err
	}
	if err := x.pure("Mul", ops, func(o [][]*big.Int) [][]*big.Int { return one(pf.Mul(o[0], o[1])) }, func(r [][]*big.Int) error { return agreePoly(p, r[0], prod) }); err != nil {
		return err
	}
	if len(a) == len(b) {
		if err := x.pure("MulSimple", ops, func(o [][]*big.Int) [][]*big.Int { return one(pf.MulSimple(o[0], o[1])) }, func(r [][]*big.Int) error {
			w := make([]*big.Int, len(a))
			for i := range w {
				w[i] = new(big.Int).Mul(a[i], b[i])
			}
			return agreePoly(p, r[0], refMod(p, w))
		}); err != nil {
			return err
		}
	}
	if err := x.pure("AddPolynomials", ops, func(o [][]*big.Int) [][]*big.Int { return one(pf.AddPolynomials(o)) }, func(r [][]*big.Int) error { return agreePoly(p, r[0], refAdd(p, a, b, 1)) }); err != nil {
		return err
	}
	tb := refMod(p, b)
	if len(tb) > 0 {
		return x.pure("Div", ops, func(o [][]*big.Int) [][]*big.Int { q, r := pf.Div(o[0], o[1]); return [][]*big.Int{q, r} }, func(r [][]*big.Int) error {
			canon := refMod(p, r[1])
			if err := agreePoly(p, r[0], r[0]); err != nil {
				return err
			}
			if len(canon) >= len(tb) {
				return fmt.Errorf("%s remainder %s", showInts(r[0]), showInts(r[1]))
			}
			if !sameInts(refAdd(p, refMul(p, r[0], b), canon, 1), refMod(p, a)) {
				return fmt.Errorf("%s remainder %s, which is not the dividend", showInts(r[0]), showInts(r[1]))
			}
			return nil
		})
	}
	return nil
}

func (x *X) denseSingle(pf utils.PolynomialField, p *big.Int, a, alpha []*big.Int) error {
	for _, w := range alpha {
		w := w
		if err := x.pure("MulScalar", [][]*big.Int{a, {w}}, func(o [][]*big.Int) [][]*big.Int { return one(pf.MulScalar(o[0], o[1][0])) }, func(r [][]*big.Int) error { return agreePoly(p, r[0], refScale(p, a, w)) }); err != nil {
			return err
		}
		if err := x.pure("LinearCombine", [][]*big.Int{{w, alpha[len(alpha)-1]}, a, {bi(1), w}}, func(o [][]*big.Int) [][]*big.Int { return pf.LinearCombine(o[1:], o[0]) }, func(r [][]*big.Int) error {
			if len(r) != 2 {
				return fmt.Errorf("%d polynomials", len(r))
			}
			if err := agreePoly(p, r[0], refScale(p, a, w)); err != nil {
				return err
			}
			return agreePoly(p, r[1], refScale(p, []*big.Int{bi(1), w}, alpha[len(alpha)-1]))
		}); err != nil {
			return err
		}
		if err := x.pure("AddPolynomials", [][]*big.Int{a, {bi(1), w}, a, {w, w, w}}, func(o [][]*big.Int) [][]*big.Int { return one(pf.AddPolynomials(o)) }, func(r [][]*big.Int) error {
			return agreePoly(p, r[0], refAdd(p, refAdd(p, refAdd(p, a, a, 1), []*big.Int{bi(1), w}, 1), []*big.Int{w, w, w}, 1))
		}); err != nil {
			return err
		}
		n := len(a)
		if big.NewInt(int64(n)).Cmp(p) <= 0 {
			for pos := 0; pos < n; pos++ {
				pos := pos
				if err := x.pure(fmt.Sprintf("NewPolZeroAt(%d,%d)", pos, n), one([]*big.Int{w}), func(o [][]*big.Int) [][]*big.Int { return one(pf.NewPolZeroAt(pos, n, o[0][0])) }, func(r [][]*big.Int) error {
					for i := 0; i < n; i++ {
						want := new(big.Int)
						if i == pos {
							want.Mod(w, p)
						}
						if evalAt(p, r[0], bi(int64(i))).Cmp(want) != 0 {
							return fmt.Errorf("%s takes the wrong value at %d", showInts(r[0]), i)
						}
					}
					return agreePoly(p, r[0], r[0])
				}); err != nil {
					return err
				}
			}
		}
	}
	return x.denseMatrix(a, alpha)
}

// denseMatrix: transposition, equality and zero test of arrays
func (x *X) denseMatrix(a, alpha []*big.Int) error {
	b := copyInts(a)
	for i := range b {
		b[i].Sub(b[i], bi(int64(i)))
	}
	m := [][]*big.Int{copyInts(a), b, copyInts(a)}
	t := utils.Transpose(m)
	x.Eval(1)
	if len(t) != len(a) {
		return fmt.Errorf("Transpose gives %d rows for %d columns", len(t), len(a))
	}
	for i := range a {
		if len(t[i]) != 3 || t[i][0].Cmp(a[i]) != 0 || t[i][1].Cmp(b[i]) != 0 || t[i][2].Cmp(a[i]) != 0 {
			return fmt.Errorf("Transpose puts %s in row %d", showInts(t[i]), i)
		}
	}
	zero := true
	for _, v := range a {
		zero = zero && v.Sign() == 0
	}
	if utils.IsZeroArray(a) != zero || utils.BigArraysEqual(a, copyInts(a)) != true || utils.BigArraysEqual(a, b) != sameInts(a, b) || utils.BigArraysEqual(a, a[:len(a)-1]) {
		return fmt.Errorf("array comparison of %s and %s", showInts(a), showInts(b))
	}
	return nil
}

// ---------------------------------------------------------------- sparse

func toSparse(exps []uint, v []*big.Int) *utils.AvlTree {
	t := utils.NewAvlTree()
	for i, e := range exps {
		if v[i].Sign() != 0 {
			t.Insert(e, new(big.Int).Set(v[i]))
		}
	}
	return t
}

func toDense(exps []uint, v []*big.Int) []*big.Int {
	n := uint(0)
	for _, e := range exps {
		if e+1 > n {
			n = e + 1
		}
	}
	r := refZeros(int(n))
	for i, e := range exps {
		r[e].Set(v[i])
	}
	return r
}

// entriesOf reads a map without trusting one query alone
func entriesOf(t *utils.AvlTree) (m map[uint]*big.Int, err error) {
	m = map[uint]*big.Int{}
	es := t.DecendingNodes()
	for i, e := range es {
		if i > 0 && es[i-1].Key <= e.Key {
			return nil, fmt.Errorf("entries are not in descending order")
		}
		if e.Value.Sign() == 0 {
			return nil, fmt.Errorf("a zero is stored at %d", e.Key)
		}
		m[e.Key] = new(big.Int).Set(e.Value)
		if v, err := t.Get(e.Key); err != nil || v.Cmp(e.Value) != 0 {
			return nil, fmt.Errorf("Get(%d) does not find the entry", e.Key)
		}
	}
	if t.Size() != len(es) {
		return nil, fmt.Errorf("size %d with %d entries", t.Size(), len(es))
	}
	return m, nil
}

func showTree(t *utils.AvlTree) string {
	s := "{"
	for _, e := range t.DecendingNodes() {
		s += fmt.Sprintf("%d:%s ", e.Key, shortInt(e.Value))
	}
	return s + "}"
}

func agreeSparse(p *big.Int, t *utils.AvlTree, want []*big.Int) error {
	m, err := entriesOf(t)
	if err != nil {
		return fmt.Errorf("%s: %v", showTree(t), err)
	}
	n := 0
	for i, c := range want {
		if c.Sign() == 0 {
			continue
		}
		n++
		if v := m[uint(i)]; v == nil || v.Cmp(c) != 0 {
			return fmt.Errorf("%s, want %s", showTree(t), showInts(want))
		}
	}
	if n != len(m) {
		return fmt.Errorf("%s, want %s", showTree(t), showInts(want))
	}
	return nil
}

func c15(x *X) {
	q := refOrder
	type dom struct {
		p      *big.Int
		alpha  []*big.Int
		e1, e2 []uint
	}
	ds := []dom{
		{bi(3), elements(3), []uint{0, 1, 2, 3, 4}, []uint{0, 1, 2, 3}},
		{bi(5), elements(5), []uint{0, 1, 2, 3}, []uint{0, 1, 2, 3}},
		{bi(2), elements(2), []uint{0, 1, 2, 5, 17, 64}, []uint{0, 1, 2, 5, 17, 64}},
		{q, []*big.Int{bi(0), bi(1), qm1, new(big.Int).Rsh(q, 1)}, []uint{0, 1, 2, 3}, []uint{0, 1, 2, 3}},
		// coefficients that are not canonical
		{bi(3), ints(0, 1, -1, 3, 4), []uint{0, 1, 2}, []uint{0, 1, 2}},
		{q, []*big.Int{bi(0), bi(1), bi(-1), q, new(big.Int).Lsh(q, 1)}, []uint{0, 1, 3}, []uint{0, 2}},
	}
	if x.Thorough {
		ds[0].e1, ds[0].e2 = []uint{0, 1, 2, 3, 4, 5}, []uint{0, 1, 2, 3, 4}
		ds[1].e1 = []uint{0, 1, 2, 3, 4}
		ds[2].e1, ds[2].e2 = []uint{0, 1, 2, 3, 5, 6, 17, 64}, []uint{0, 1, 2, 3, 5, 6, 17, 64}
		ds = append(ds, dom{bi(7), elements(7), []uint{0, 1, 2}, []uint{0, 1, 2}})
	}
	for _, d := range ds {
		d := d
		f := utils.NewFq(new(big.Int).Set(d.p))
		if d.p == q {
			f = utils.Field.ArithmeticField
		}
		product(len(d.alpha), len(d.e1), func(v []int) {
			a := pickInts(d.alpha, v)
			x.Case(fmt.Sprintf("modulus %v, first operand %s at exponents %v", d.p, showInts(a), d.e1), func() (err error) {
				product(len(d.alpha), len(d.e2), func(w []int) {
					if err == nil {
						err = x.sparsePair(f, d.p, d.e1, a, d.e2, pickInts(d.alpha, w))
						x.Tick()
					}
				})
				if err != nil {
					return err
				}
				return x.sparseSingle(f, d.p, d.e1, a, d.alpha)
			})
		})
	}
	// long operands
	lengths := []int{1, 2, 5, 16, 17, 33, 64, 65}
	if x.Thorough {
		lengths = append(lengths, 8, 9, 32, 100, 129)
	}
	for _, n := range lengths {
		for fa := range longFamilies {
			n, fa := n, fa
			x.Case(fmt.Sprintf("first operand with %d terms of kind %d", n, fa), func() error {
				f := utils.Field.ArithmeticField
				exps := func(k, n int) (r []uint) {
					for i := 0; i < n; i++ {
						r = append(r, []uint{uint(i), uint(3*i + i%3)}[k])
					}
					return
				}
				for k, m := range lengths {
					fb := (fa + k) % len(longFamilies)
					if err := x.sparsePair(f, q, exps(k%2, n), longVector(q, fa, n), exps((k/2)%2, m), longVector(q, fb, m)); err != nil {
						return err
					}
					x.Tick()
				}
				if n > 40 {
					return nil
				}
				return x.sparseInterpolate(f, q, toSparse(exps(0, n), longVector(q, fa, n)), longVector(q, fa, n), n)
			})
		}
	}
	// sequences of interpolation requests on one field object
	reqs := [][]*big.Int{ints(1), ints(0, 1), ints(1, 0), ints(2, 3), ints(0, 0), ints(0, 0, 1), ints(1, 2, 3), ints(0, 4, 0, 1)}
	depth := 3
	if x.Thorough {
		depth = 4
	}
	for n := 2; n <= depth; n++ {
		product(len(reqs), n, func(v []int) {
			seq := append([]int{}, v...)
			x.Case(fmt.Sprintf("interpolation requests %v", seq), func() error {
				f := utils.NewFq(bi(5))
				for _, k := range seq {
					if err := x.sparseInterpolate(f, bi(5), utils.NewSparseArrayFromArray(copyInts(reqs[k])), reqs[k], len(reqs[k])); err != nil {
						return err
					}
				}
				x.Trace(1)
				return nil
			})
		})
	}
}

// keepTree runs f and reports if it changed one of the trees
func keepTree(what string, f func() error, ts ...*utils.AvlTree) error {
	before := make([]string, len(ts))
	for i, t := range ts {
		before[i] = showTree(t)
	}
	if err := f(); err != nil {
		return fmt.Errorf("%s%v: %v", what, before, err)
	}
	for i, t := range ts {
		if s := showTree(t); s != before[i] {
			return fmt.Errorf("%s%v changed operand %d to %s", what, before, i, s)
		}
	}
	return nil
}

func (x *X) sparsePair(f utils.Fq, p *big.Int, e1 []uint, a []*big.Int, e2 []uint, b []*big.Int) error {
	ta, tb := toSparse(e1, a), toSparse(e2, b)
	da, db := toDense(e1, a), toDense(e2, b)
	prod := refMul(p, da, db)
	if len(prod) > 0 {
		x.Nontrivial(p.String() + showInts(da) + showInts(db))
	}
	x.State(p.String() + showInts(prod))
	x.Eval(6)
	x.Trans(6)
	var sum, mul, quo, rem *utils.AvlTree
	if err := keepTree("AddToSparse", func() error { sum = f.AddToSparse(ta, tb); return agreeSparse(p, sum, refAdd(p, da, db, 1)) }, ta, tb); err != nil {
		return err
	}
	if err := keepTree("SubToSparse", func() error { return agreeSparse(p, f.SubToSparse(ta, tb), refAdd(p, da, db, -1)) }, ta, tb); err != nil {
		return err
	}
	if err := keepTree("MulSparse", func() error { mul = f.MulSparse(ta, tb); return agreeSparse(p, mul, prod) }, ta, tb); err != nil {
		return err
	}
	if err := keepTree("AddPolynomials", func() error {
		if err := agreeSparse(p, f.AddPolynomials([]*utils.AvlTree{}), nil); err != nil {
			return err
		}
		return agreeSparse(p, f.AddPolynomials([]*utils.AvlTree{ta, tb, ta}), refAdd(p, refAdd(p, da, db, 1), da, 1))
	}, ta, tb); err != nil {
		return err
	}
	if mb := refMod(p, db); len(mb) > 0 {
		if err := keepTree("DivideSparse", func() error {
			quo, rem = f.DivideSparse(ta, tb)
			dq, err := denseOf(quo)
			if err != nil {
				return err
			}
			dr, err := denseOf(rem)
			if err != nil {
				return err
			}
			if len(trim(dr)) >= len(mb) {
				return fmt.Errorf("the remainder %s is not shorter than the divisor", showTree(rem))
			}
			if !sameInts(refAdd(p, refMul(p, dq, db), dr, 1), refMod(p, da)) {
				return fmt.Errorf("%s remainder %s", showTree(quo), showTree(rem))
			}
			return nil
		}, ta, tb); err != nil {
			return err
		}
	}
	// matrices
	m := []*utils.AvlTree{ta, tb}
	width := len(da)
	if len(db) > width {
		width = len(db)
	}
	if width <= 200 {
		if err := keepTree("TransposeSparse", func() error {
			for extra := 0; extra < 2; extra++ {
				tr := utils.TransposeSparse(m, width+extra)
				if len(tr) != width+extra {
					return fmt.Errorf("%d rows for %d columns", len(tr), width+extra)
				}
				for j, t := range tr {
					col := refZeros(2)
					if j < len(da) {
						col[0] = da[j]
					}
					if j < len(db) {
						col[1] = db[j]
					}
					if err := agreeSparse(p, t, col); err != nil {
						return fmt.Errorf("column %d: %v", j, err)
					}
				}
			}
			return nil
		}, ta, tb); err != nil {
			return err
		}
		// second operand as weights: scalar product and in place weighting
		w := refZeros(width)
		for j := range db {
			w[j].Set(db[j])
		}
		if err := keepTree("SparseScalarProduct", func() error {
			s := new(big.Int)
			for j := range da {
				s.Add(s, new(big.Int).Mul(da[j], w[j]))
			}
			s.Mod(s, p)
			bw := copyInts(w)
			if got := f.SparseScalarProduct(ta, w); got.Cmp(s) != 0 {
				return fmt.Errorf("with %s is %v, want %v", showInts(w), got, s)
			}
			if !sameInts(bw, w) {
				return fmt.Errorf("the weights were modified")
			}
			return nil
		}, ta); err != nil {
			return err
		}
		want := refZeros(len(da))
		for j := range da {
			want[j].Mul(da[j], w[j]).Mod(want[j], p)
		}
		tc := toSparse(e1, a)
		got := f.Combine(tc, w)
		if err := agreeSparse(p, got, want); err != nil {
			return fmt.Errorf("Combine(%s,%s): %v", showTree(ta), showInts(w), err)
		}
	}
	// earlier results are not changed by later operations
	for _, e := range x.trees {
		if k := showTree(e.t); k != e.keep {
			return fmt.Errorf("operations on %s and %s changed an earlier result from %s to %s", showTree(ta), showTree(tb), e.keep, k)
		}
	}
	x.trees = nil
	for _, t := range []*utils.AvlTree{f.AddToSparse(ta, tb), f.SubToSparse(ta, tb), f.MulSparse(tb, ta), f.MulSparseScalar(ta, bi(2)), ta.Clone()} {
		x.trees = append(x.trees, earlierTree{t, showTree(t)})
	}
	// operands may be the same map
	if err := keepTree("operations on twice the same map", func() error {
		if err := agreeSparse(p, f.AddToSparse(ta, ta), refAdd(p, da, da, 1)); err != nil {
			return err
		}
		if err := agreeSparse(p, f.SubToSparse(ta, ta), nil); err != nil {
			return err
		}
		if err := agreeSparse(p, f.MulSparse(ta, ta), refMul(p, da, da)); err != nil {
			return err
		}
		if len(refMod(p, da)) > 0 {
			qq, rr := f.DivideSparse(ta, ta)
			if err := agreeSparse(p, rr, nil); err != nil {
				return err
			}
			return agreeSparse(p, qq, ints(1))
		}
		return nil
	}, ta); err != nil {
		return err
	}
	// results do not share the structure of their operands
	for _, t := range []*utils.AvlTree{sum, mul, quo, rem} {
		if t != nil {
			t.Insert(7, bi(1))
			t.Remove(0)
		}
	}
	if err := agreeSparse(p, ta, da); err != nil {
		return fmt.Errorf("modifying a result changed the first operand: %v", err)
	}
	if err := agreeSparse(p, tb, db); err != nil {
		return fmt.Errorf("modifying a result changed the second operand: %v", err)
	}
	return nil
}

func denseOf(t *utils.AvlTree) ([]*big.Int, error) {
	m, err := entriesOf(t)
	if err != nil {
		return nil, err
	}
	n := uint(0)
	for k := range m {
		if k+1 > n {
			n = k + 1
		}
	}
	r := refZeros(int(n))
	for k, v := range m {
		r[k].Set(v)
	}
	return r, nil
}

func (x *X) sparseSingle(f utils.Fq, p *big.Int, exps []uint, a, alpha []*big.Int) error {
	t := toSparse(exps, a)
	d := toDense(exps, a)
	points := alpha
	if p.IsInt64() {
		points = append(elements(p.Int64()), bi(-1), bi(p.Int64()), bi(p.Int64()+1), bi(-2*p.Int64()))
	} else {
		points = append(append([]*big.Int{}, alpha...), bi(2), p, new(big.Int).Neg(p), new(big.Int).Add(p, bi(3)))
	}
	for _, w := range points {
		w := w
		x.Eval(3)
		x.Trans(3)
		if err := keepTree("MulSparseScalar", func() error { return agreeSparse(p, f.MulSparseScalar(t, w), refScale(p, d, w)) }, t); err != nil {
			return err
		}
		if err := keepTree("EvalSparsePoly", func() error {
			at := new(big.Int).Set(w)
			if got, want := f.EvalSparsePoly(t, at), evalAt(p, d, w); got.Cmp(want) != 0 {
				return fmt.Errorf("at %v is %v, want %v", w, got, want)
			}
			if at.Cmp(w) != 0 {
				return fmt.Errorf("the point %v was modified", w)
			}
			return nil
		}, t); err != nil {
			return err
		}
		u := utils.NewSparseArrayFromArray(ints(1, 0, 2))
		if p.Cmp(bi(2)) == 0 {
			u = utils.NewSparseArrayFromArray(ints(1, 0, 1))
		}
		du, _ := denseOf(u)
		if err := keepTree("LinearCombine", func() error {
			r := f.LinearCombine([]*utils.AvlTree{t, u}, []*big.Int{w, bi(1)})
			if len(r) != 2 {
				return fmt.Errorf("%d polynomials", len(r))
			}
			if err := agreeSparse(p, r[0], refScale(p, d, w)); err != nil {
				return err
			}
			return agreeSparse(p, r[1], du)
		}, t, u); err != nil {
			return err
		}
	}
	// conversions
	if err := keepTree("conversion", func() error {
		bd := copyInts(d)
		s := utils.NewSparseArrayFromArray(d)
		if err := agreeSparse(p, s, d); err != nil {
			return err
		}
		if !sameInts(bd, d) {
			return fmt.Errorf("the array was modified")
		}
		for extra := 0; extra < 3; extra++ {
			arr := s.ToArray(len(d) + extra)
			if len(arr) != len(d)+extra || !sameInts(trim(arr), trim(d)) {
				return fmt.Errorf("ToArray gives %s for %s", showInts(arr), showInts(d))
			}
		}
		c := s.Clone()
		if err := agreeSparse(p, c, d); err != nil {
			return fmt.Errorf("clone: %v", err)
		}
		return nil
	}, t); err != nil {
		return err
	}
	n := len(d)
	if bi(int64(n)).Cmp(p) <= 0 && n <= 6 {
		return x.sparseInterpolate(f, p, t, d, n)
	}
	return nil
}

func (x *X) sparseInterpolate(f utils.Fq, p *big.Int, t *utils.AvlTree, data []*big.Int, n int) error {
	for rep := 0; rep < 2; rep++ {
		x.Eval(1)
		x.Trans(1)
		if err := keepTree(fmt.Sprintf("InterpolateSparseArray to length %d of ", n), func() error {
			r := f.InterpolateSparseArray(t, n)
			dr, err := denseOf(r)
			if err != nil {
				return err
			}
			if len(trim(dr)) > n {
				return fmt.Errorf("%s is too long", showTree(r))
			}
			for i := 0; i < n; i++ {
				want := new(big.Int)
				if i < len(data) {
					want = data[i]
				}
				if v := evalAt(p, dr, bi(int64(i))); v.Cmp(new(big.Int).Mod(want, p)) != 0 {
					return fmt.Errorf("%s takes the value %v at %d", showTree(r), v, i)
				}
			}
			// the caller changes what he received
			for _, e := range r.DecendingNodes() {
				r.Remove(e.Key)
				e.Value.Add(e.Value, bi(1))
			}
			return nil
		}, t); err != nil {
			return err
		}
	}
	return nil
}
