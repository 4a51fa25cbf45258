package main

// C13 field arithmetic.

import (
	"fmt"
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func init() {
	register("C13", c13)
	metas["C13"] = meta{
		rule: "every operation of the field on all operands (for binary operations all pairs, also the same object twice) from -3p..3p for small primes and from a boundary set for the group order; vectors for scalar products and polynomial evaluation. " +
			"The result has to be the canonical residue of exact integer arithmetic and the operands unchanged. Non-trivial: distinct (prime, operation, result) triples with a nonzero operand",
		bounds:         "p in {2,...,37} with all operands in -3p..3p; vectors of length 1..3 over -2..p+1 for p<=7; boundary operands around every eighth power of two up to 2^512 for the group order, all pairs",
		boundsThorough: "p in {2,...,71} with all operands in -3p..3p; vectors of length 1..3 over -2..p+1 for p<=11; boundary operands around every second power of two up to 2^512 for the group order, all pairs",
		assumptions:    []string{"the zero test is asked about canonical operands", "the modulus is prime"},
	}
}

type fop struct {
	name string
	n    int
	real func(f utils.Fq, a []*big.Int) *big.Int
	want func(p *big.Int, a []*big.Int) *big.Int // exact, reduced by the caller; nil: not defined
}

func inv(p, a *big.Int) *big.Int {
	m := new(big.Int).Mod(a, p)
	if m.Sign() == 0 {
		return m
	}
	return m.ModInverse(m, p)
}

func powInt(p, b, e *big.Int) *big.Int {
	if e.Sign() < 0 {
		b = inv(p, b)
		e = new(big.Int).Neg(e)
	}
	r := bi(1)
	m := new(big.Int).Mod(b, p)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r.Mul(r, r).Mod(r, p)
		if e.Bit(i) == 1 {
			r.Mul(r, m).Mod(r, p)
		}
	}
	return r.Mod(r, p)
}

func boolInt(b bool) *big.Int {
	if b {
		return bi(1)
	}
	return bi(0)
}

var fops = []fop{
	{"Add", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.Add(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Add(a[0], a[1]) }},
	{"Sub", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.Sub(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Sub(a[0], a[1]) }},
	{"Mul", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.Mul(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[1]) }},
	{"MulScalar", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.MulScalar(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[1]) }},
	{"Div", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.Div(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], inv(p, a[1])) }},
	{"Equal", 2, func(f utils.Fq, a []*big.Int) *big.Int { return boolInt(f.Equal(a[0], a[1])) }, func(p *big.Int, a []*big.Int) *big.Int {
		d := new(big.Int).Sub(a[0], a[1])
		return boolInt(d.Mod(d, p).Sign() == 0)
	}},
	{"Double", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Double(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Add(a[0], a[0]) }},
	{"Neg", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Neg(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Neg(a[0]) }},
	{"Inverse", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Inverse(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return inv(p, a[0]) }},
	{"Square", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Square(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[0]) }},
	{"Copy", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Copy(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Set(a[0]) }},
	{"Affine", 1, func(f utils.Fq, a []*big.Int) *big.Int { return f.Affine(a[0]) }, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Set(a[0]) }},
	{"IsZero", 1, func(f utils.Fq, a []*big.Int) *big.Int { return boolInt(f.IsZero(a[0])) }, func(p *big.Int, a []*big.Int) *big.Int {
		if a[0].Sign() < 0 || a[0].Cmp(p) >= 0 {
			return nil
		}
		return boolInt(a[0].Sign() == 0)
	}},
	{"StringToFieldElement", 1, func(f utils.Fq, a []*big.Int) *big.Int {
		v, ok := f.StringToFieldElement(a[0].String())
		if !ok {
			return nil
		}
		return v
	}, func(p *big.Int, a []*big.Int) *big.Int { return new(big.Int).Set(a[0]) }},
	{"Exp", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.Exp(a[0], a[1]) }, func(p *big.Int, a []*big.Int) *big.Int { return powInt(p, a[0], a[1]) }},
	{"ExpInt", 2, func(f utils.Fq, a []*big.Int) *big.Int { return f.ExpInt(a[0], uint(a[1].Uint64())) }, func(p *big.Int, a []*big.Int) *big.Int {
		if a[1].Sign() < 0 || !a[1].IsUint64() {
			return nil
		}
		return powInt(p, a[0], a[1])
	}},
}

// applyOp runs one operation and checks result and operands
func (x *X) applyOp(o fop, f utils.Fq, p *big.Int, args []*big.Int) error {
	want := o.want(p, args)
	if want == nil {
		return nil
	}
	want = new(big.Int).Mod(want, p)
	if (o.name == "Equal" || o.name == "IsZero") && p.Cmp(bi(1)) > 0 {
		want = o.want(p, args)
	}
	before := copyInts(args)
	got := o.real(f, args)
	x.Eval(1)
	x.Trans(1)
	if got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("%s%s = %v, want %v", o.name, showInts(before), got, want)
	}
	if !sameInts(before, args) {
		return fmt.Errorf("%s%s changed its operands to %s", o.name, showInts(before), showInts(args))
	}
	if args[0].Sign() != 0 {
		x.Nontrivial(p.String() + o.name + got.String())
	}
	return nil
}

func c13(x *X) {
	primes := []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
	if x.Thorough {
		primes = append(primes, 41, 43, 47, 53, 59, 61, 67, 71)
	}
	for _, pp := range primes {
		p := bi(pp)
		f := utils.NewFq(new(big.Int).Set(p))
		r := 3 * pp
		for _, o := range fops {
			o := o
			for a := -r; a <= r; a++ {
				a := a
				x.Case(fmt.Sprintf("p=%d %s with first operand %d", pp, o.name, a), func() error {
					x.State(fmt.Sprint(pp, o.name, a))
					if o.n == 1 {
						return x.applyOp(o, f, p, ints(a))
					}
					for b := -r; b <= r; b++ {
						if err := x.applyOp(o, f, p, ints(a, b)); err != nil {
							return err
						}
					}
					s := bi(a)
					return x.applyOp(o, f, p, []*big.Int{s, s})
				})
			}
		}
		lim, lo := int64(7), int64(2)
		if x.Thorough {
			lim = 11
		}
		if pp > lim {
			continue
		}
		var alpha []*big.Int
		for a := -lo; a <= pp+lo-1; a++ {
			alpha = append(alpha, bi(a))
		}
		for n := 1; n <= 3; n++ {
			product(len(alpha), n, func(v []int) {
				l := pickInts(alpha, v)
				x.Case(fmt.Sprintf("p=%d vector %s", pp, showInts(l)), func() error {
					x.State(fmt.Sprint(pp, v))
					if err := x.vectorOps(f, p, l, alpha); err != nil {
						return err
					}
					var err error
					product(len(alpha), n, func(u []int) {
						if err == nil {
							err = x.scalarProduct(f, p, l, pickInts(alpha, u))
						}
					})
					return err
				})
			})
		}
	}
	f := utils.Field.ArithmeticField
	var ops []*big.Int
	add := func(v *big.Int) {
		for _, o := range ops {
			if o.Cmp(v) == 0 {
				return
			}
		}
		ops = append(ops, v)
	}
	one := bi(1)
	q := refOrder
	for _, b := range []*big.Int{bi(0), q, new(big.Int).Neg(q), new(big.Int).Lsh(q, 1), new(big.Int).Rsh(q, 1), new(big.Int).Mul(q, q)} {
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(b, bi(d)))
		}
	}
	step := uint(8)
	if x.Thorough {
		step = 2
	}
	for k := step; k <= 512; k += step {
		w := new(big.Int).Lsh(one, k)
		add(w)
		add(new(big.Int).Sub(w, one))
		add(new(big.Int).Neg(w))
	}
	for _, o := range fops {
		o := o
		for _, a := range ops {
			a := a
			x.Case(fmt.Sprintf("group order, %s with first operand %v", o.name, a), func() error {
				x.State(fmt.Sprint("q", o.name, a))
				if o.n == 1 {
					return x.applyOp(o, f, q, []*big.Int{new(big.Int).Set(a)})
				}
				for _, b := range ops {
					if err := x.applyOp(o, f, q, []*big.Int{new(big.Int).Set(a), new(big.Int).Set(b)}); err != nil {
						return err
					}
				}
				s := new(big.Int).Set(a)
				return x.applyOp(o, f, q, []*big.Int{s, s})
			})
		}
	}
	short := []*big.Int{bi(0), bi(1), bi(-1), new(big.Int).Sub(q, one), new(big.Int).Add(q, one), new(big.Int).Lsh(one, 255)}
	for n := 1; n <= 3; n++ {
		product(len(short), n, func(v []int) {
			l := pickInts(short, v)
			x.Case("group order, vector "+showInts(l), func() error {
				if err := x.vectorOps(f, q, l, short); err != nil {
					return err
				}
				var err error
				product(len(short), n, func(u []int) {
					if err == nil {
						err = x.scalarProduct(f, q, l, pickInts(short, u))
					}
				})
				return err
			})
		})
	}
	x.Case("strings that are no numbers", func() error {
		for _, s := range []string{"", "x", "12a", "0x10", "--1", "1 2"} {
			x.Eval(1)
			if v, ok := f.StringToFieldElement(s); ok {
				return fmt.Errorf("%q is accepted as %v", s, v)
			}
		}
		return nil
	})
}

func pickInts(alpha []*big.Int, v []int) []*big.Int {
	r := make([]*big.Int, len(v))
	for i, k := range v {
		r[i] = new(big.Int).Set(alpha[k])
	}
	return r
}

func (x *X) scalarProduct(f utils.Fq, p *big.Int, l, r []*big.Int) error {
	want := new(big.Int)
	for i := range l {
		want.Add(want, new(big.Int).Mul(l[i], r[i]))
	}
	want.Mod(want, p)
	bl, br := copyInts(l), copyInts(r)
	got := f.ScalarProduct(l, r)
	x.Eval(1)
	x.Trans(1)
	if got.Cmp(want) != 0 {
		return fmt.Errorf("ScalarProduct(%s,%s)=%v, want %v", showInts(l), showInts(r), got, want)
	}
	if !sameInts(bl, l) || !sameInts(br, r) {
		return fmt.Errorf("ScalarProduct(%s,%s) changed its operands", showInts(bl), showInts(br))
	}
	return nil
}

func evalAt(p *big.Int, v []*big.Int, at *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(v) - 1; i >= 0; i-- {
		r.Mul(r, at).Add(r, v[i]).Mod(r, p)
	}
	return r
}

func (x *X) vectorOps(f utils.Fq, p *big.Int, v, at []*big.Int) error {
	for _, t := range at {
		b, bt := copyInts(v), new(big.Int).Set(t)
		got := f.EvalPoly(v, t)
		x.Eval(1)
		x.Trans(1)
		if want := evalAt(p, b, bt); got.Cmp(want) != 0 {
			return fmt.Errorf("EvalPoly(%s,%v)=%v, want %v", showInts(b), bt, got, want)
		}
		if !sameInts(b, v) || bt.Cmp(t) != 0 {
			return fmt.Errorf("EvalPoly(%s,%v) changed its operands", showInts(b), bt)
		}
	}
	return nil
}
