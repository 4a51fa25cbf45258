package main

// C10: bit splitting.

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	register("C10", c10)
	metas["C10"] = meta{
		rule: "every program built from a value form (inputs, products, linear combinations, constants, results of functions, bits) that is split, and a use of its bits (each bit, products, equalities and weighted sums of bits, bits of bits, splits repeated, in functions and loops), over small prime fields: for every input vector all satisfying assignments of the constraint matrices are enumerated. " +
			"If one exists, some choice of binary representations (bits in {0,1}, weighted sum equal to the value modulo the prime) satisfies the source; if the canonical representation satisfies the source, one exists and both solvers return a witness, and otherwise both refuse. " +
			"Constraint and wire counts of a split are compared with the program without it. Over the real field: all 254 bits as claims; for boundary values the honest claims are accepted, every claim with one flipped bit and every compensated claim outside {0,1} is refused by both solvers and by the constraints. Non-trivial: an input vector on which some witness exists",
		bounds:         "fields of 5, 7 and 13 elements, all values of x, y and the claim, canonical and shifted by the modulus (and all values of 3 claimed bits over the field of 5 and 7 elements); 22 boundary values of the real field",
		boundsThorough: "fields of 5, 7, 13 and 31 elements, all values; claimed bit vectors over 13 elements; 60 boundary values of the real field",
		assumptions:    []string{"distinct split values may choose their representation independently, a value below 2^N-Q has two representations that satisfy the constraints"},
	}
}

type bitCase struct {
	p *P
}

func bitPrograms(nb int, short bool, f func(p *P)) {
	e := mustExpr
	params := []string{"x", "y", "p"}
	globals := []*S{
		Fn("f", []string{"a"}, Split(V("a")), Ret(B('+', I("a", N_(1)), B('*', N("2"), I("a", N_(0)))))),
		Fn("h", []string{"a"}, Ret(e("a*a"))),
	}
	seen := map[string]bool{}
	emit := func(b ...*S) {
		p := &P{globals: globals, params: params, body: append(append([]*S{}, b...), Ret(nil))}
		t := p.text(style{})
		if !seen[t] {
			seen[t] = true
			f(p)
			if len(seen)%13 == 0 {
				f(renamed(p, len(seen)/13))
			}
		}
	}
	recompose := false
	uses := func(n string, g func(u ...*S)) {
		var bs []*E
		for i := 0; i < nb; i++ {
			bs = append(bs, I(n, N_(i)))
		}
		p := V("p")
		for i, b := range bs {
			g(Eq(b, p))
			g(Eq(p, B('+', b, b)))
			g(Eq(B('*', b, V("x")), p))
			g(Decl("b", b), Split(V("b")), Eq(I("b", N("0")), p))
			g(Decl("b", b), Split(V("b")), Eq(I("b", N("1")), p))
			g(Decl("b", B('+', b, N("1"))), Split(V("b")), Eq(I("b", N("1")), p))
			for j := i + 1; j < nb; j++ {
				g(Eq(b, bs[j]), Eq(p, N("1")))
				g(Eq(B('*', b, bs[j]), p))
				g(Eq(B('+', b, B('*', N("2"), bs[j])), p))
				g(Eq(b, p), Eq(bs[j], p))
			}
		}
		sum, rev := bs[0], B('*', N(fmt.Sprint(1<<uint(nb-1))), bs[0])
		for i := 1; i < nb; i++ {
			sum = B('+', sum, B('*', N(fmt.Sprint(1<<uint(i))), bs[i]))
			rev = B('+', rev, B('*', N(fmt.Sprint(1<<uint(nb-1-i))), bs[i]))
		}
		g(Eq(sum, p))
		g(Eq(rev, p))
		g(Eq(sum, V(n)), Eq(p, N("2")))
		// all bits put together again are a value like any other
		for i := 0; i < nb && recompose; i += nb - 1 {
			for k, v := range []*E{sum, B('*', sum, N("1")), rev} {
				g(Decl("s", v), Split(V("s")), Eq(I("s", N_(i)), p))
				if i == 0 {
					g(Eq(C("f", v), p))
					g(Eq(B('*', v, v), p))
				}
				if k == 0 {
					g(Decl("s", N("0")), Asg("s", v), Split(V("s")), Eq(I("s", N_(i)), B('-', p, V("s"))))
				}
			}
		}
		g(Decl("s", N("0")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(nb))), Asg("i", e("i+1")), Asg("s", B('+', B('*', N("2"), V("s")), I(n, V("i"))))), Eq(V("s"), p))
	}
	values := []*E{V("x"), e("x*y"), e("x+y"), e("2*x+3"), e("3*x"), e("y-x"), N("5"), e("x*x+y"), C("h", V("x")), e("x-x+4"), e("(x+1)*(y+2)*3")}
	if short {
		values = values[1:4]
	}
	for i, v := range values {
		recompose = i%3 == 1
		uses("v", func(u ...*S) { emit(append([]*S{Decl("v", v), Split(V("v"))}, u...)...) })
	}
	recompose = true
	uses("x", func(u ...*S) { emit(append([]*S{Split(V("x"))}, u...)...) })
	recompose = false
	uses("x", func(u ...*S) { emit(append([]*S{Split(V("x")), Split(V("x"))}, u...)...) })
	uses("x", func(u ...*S) { emit(append([]*S{Split(V("y")), Split(V("x"))}, u...)...) })
	for _, v := range values {
		for _, w := range values {
			emit(Decl("v", v), Decl("w", w), Split(V("v")), Split(V("w")), Eq(B('+', I("v", N("0")), B('*', N("2"), I("w", N("1")))), V("p")))
			emit(Decl("v", v), Split(V("v")), Decl("w", w), Split(V("w")), Eq(I("v", N("1")), I("w", N("1"))), Eq(V("p"), N("1")))
			emit(Decl("v", v), Split(V("v")), Asg("v", w), Split(V("v")), Eq(I("v", N("1")), V("p")))
		}
		emit(Eq(C("f", v), V("p")))
		emit(Eq(C("f", C("f", v)), V("p")))
		emit(Eq(B('+', C("f", v), B('*', N("3"), C("f", V("y")))), V("p")))
		emit(Decl("v", v), Split(V("v")), Decl("w", I("v", N("1"))), Eq(C("f", V("w")), V("p")))
		emit(Decl("g", N("0")), Decl("v", v), For(Cmp(V("g"), "<", N("3")), Asg("g", e("g+1")), Split(V("v")), Asg("v", B('+', V("v"), I("v", V("g"))))), Eq(V("v"), V("p")))
	}
}

func N_(i int) *E { return N(fmt.Sprint(i)) }

// representations decides whether some choice of binary representations satisfies the source, and whether the canonical does
func representations(p *P, in []*big.Int, q *big.Int, n int) (some, canonical bool, err error) {
	names := expandParams(p.params)
	inputs := map[string]*big.Int{}
	for i, m := range names {
		inputs[m] = in[i]
	}
	limit := new(big.Int).Lsh(bi(1), uint(n))
	run := func(prefix []int) (ok bool, opts []int, err error) {
		reps := map[*val]*big.Int{}
		k := 0
		it := &interp{q: q, inputs: inputs, claims: map[string]bool{}}
		it.bit = func(v *val, i int) *big.Int {
			r := reps[v]
			if r == nil {
				c := 0
				if k < len(prefix) {
					c = prefix[k]
				}
				m := 0
				for t := new(big.Int).Set(v.n); t.Cmp(limit) < 0; t.Add(t, q) {
					m++
				}
				opts = append(opts, m)
				k++
				r = new(big.Int).Add(v.n, new(big.Int).Mul(bi(int64(c)), q))
				reps[v] = r
			}
			return bi(int64(r.Bit(i)))
		}
		err = it.run(p)
		return err == nil && it.ok, opts, err
	}
	canonical, _, err = run(nil)
	if err != nil || canonical {
		return canonical, canonical, err
	}
	var rec func(prefix []int) bool
	rec = func(prefix []int) bool {
		ok, opts, _ := run(prefix)
		if ok {
			return true
		}
		if len(opts) <= len(prefix) {
			return false
		}
		for c := 0; c < opts[len(prefix)]; c++ {
			if rec(append(append([]int{}, prefix...), c)) {
				return true
			}
		}
		return false
	}
	return rec(nil), canonical, nil
}

func c10(x *X) {
	fields := []int64{5, 7, 13}
	if x.Thorough {
		fields = append(fields, 31)
	}
	for _, f := range fields {
		f := f
		q := big.NewInt(f)
		n := q.BitLen()
		bitPrograms(n, f > 7 && !x.Thorough || f > 13, func(p *P) {
			src := p.text(style{})
			x.Case(fmt.Sprintf("field of %d elements\n%s", f, src), func() error { return x.bitsSmall(p, src, f, n) })
		})
		// all bits claimed
		if f <= 7 || x.Thorough && f == 13 {
			for _, v := range []string{"x", "x*x", "x+2", "3*x"} {
				p := &P{params: []string{"x", fmt.Sprintf("b[%d]", n)}, body: []*S{Decl("v", mustExpr(v)), Split(V("v"))}}
				for i := 0; i < n; i++ {
					p.body = append(p.body, Eq(I("v", N_(i)), I("b", N_(i))))
				}
				p.body = append(p.body, Ret(nil))
				src := p.text(style{})
				x.Case(fmt.Sprintf("field of %d elements\n%s", f, src), func() error { return x.bitsSmall(p, src, f, n) })
			}
		}
	}
	x.bitCounts()
	x.bitsBig()
}

func (x *X) bitsSmall(p *P, src string, f int64, n int) error {
	q := big.NewInt(f)
	c, err := compileSmall(src, f)
	if err != nil {
		return fmt.Errorf("does not compile: %v", err)
	}
	var s *rsys
	inField(f, func() { s, err = newSys(c.dense) })
	if err != nil {
		return err
	}
	header := expandParams(p.params)
	total := int64(1)
	for range header {
		total *= f
	}
	in := make([]*big.Int, len(header))
	w := make([]int64, s.n)
	for v := int64(0); v < total; v++ {
		if v%64 == 0 {
			x.Tick()
		}
		for i := range w {
			w[i] = -1
		}
		w[0] = 1
		for i, t := 0, v; i < len(header); i++ {
			in[i] = bi(t % f)
			w[i+1] = t % f
			t /= f
		}
		some, canonical, err := representations(p, in, q, n)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		var wit []int64
		x.Trans(s.searchSmall(f, w, func(w []int64) bool { wit = append([]int64{}, w...); return true }))
		x.Eval(1)
		got := wit != nil
		if got && !some {
			return fmt.Errorf("inputs %s: no binary representation of the split values satisfies the source, the wires %v satisfy all constraints", showInts(in), wit)
		}
		if !got && canonical {
			return fmt.Errorf("inputs %s: the binary representations satisfy the source, but no assignment satisfies the constraints", showInts(in))
		}
		if got {
			x.StateHash(hash64(fmt.Sprint(f, wit)))
			x.Nontrivial(fmt.Sprintf("%d %d %s", f, v, src))
		}
		// the same elements, not reduced
		shifted := copyInts(in)
		for i := range shifted {
			shifted[i].Add(shifted[i], bi(f*(v%3-1)))
		}
		ways := [][]*big.Int{in}
		if v%3 != 1 {
			ways = append(ways, shifted)
		}
		var e error
		inField(f, func() {
			for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
				for _, in := range ways {
					sw, rej, crash := solve(copyInts(in))
					x.Eval(1)
					if crash != nil {
						e = fmt.Errorf("solver %d crashes on %s: %v", k, showInts(in), crash)
						return
					}
					if (rej == nil) != canonical {
						e = fmt.Errorf("solver %d on %s: accepted %v (%v), the binary representation satisfies the source: %v (%s)", k, showInts(in), rej == nil, rej, canonical, showInts(sw))
						return
					}
				}
			}
		})
		if e != nil {
			return e
		}
	}
	return nil
}

// bitCounts: a split adds one wire and one constraint per bit, and one constraint for the sum
func (x *X) bitCounts() {
	values := []struct {
		e      string
		single bool // the value is carried by one wire
	}{{"x", true}, {"x*y", true}, {"x+y", false}, {"3*x", false}, {"x*y+1", false}, {"x/y", true}, {"7", false}}
	for _, f := range []int64{5, 7, 13, 31, 0} {
		for _, v := range values {
			for _, times := range []int{1, 2, 3} {
				f, v, times := f, v, times
				mk := func(n int) string {
					return "func main(x,y){\nvar v=" + v.e + "\n" + strings.Repeat("SPLIT(v)\n", n) + "return v*v*x\n}\n"
				}
				x.Case(fmt.Sprintf("counts, field %d, split %d times\n%s", f, times, mk(times)), func() error {
					var a, b *circuit
					var err error
					run := func() {
						if a, err = compile(mk(0), false); err == nil {
							b, err = compile(mk(times), false)
						}
					}
					n := order.BitLen()
					if f == 0 {
						run()
					} else {
						n = bi(f).BitLen()
						inField(f, run)
					}
					if err != nil {
						return err
					}
					x.Eval(2)
					dg, dw := b.dense.NumberOfGates-a.dense.NumberOfGates, b.dense.WitnessLength-a.dense.WitnessLength
					extra := 0
					if !v.single {
						extra = 1
					}
					if dg < n+1 || dg > n+1+extra || dw < n || dw > n+extra {
						return fmt.Errorf("the split added %d constraints and %d wires, the field has %d bits", dg, dw, n)
					}
					x.Nontrivial(fmt.Sprint(f, v, times))
					return nil
				})
			}
		}
	}
}

func (x *X) bitsBig() {
	var vals []*big.Int
	add := func(v *big.Int) { vals = append(vals, mod(v)) }
	for _, v := range []int64{0, 1, 2, 3, 2050, -1, -2} {
		add(bi(v))
	}
	half := new(big.Int).Rsh(refOrder, 1)
	add(half)
	add(add1(half))
	ks := []uint{8, 63, 64, 127, 128, 252, 253}
	if x.Thorough {
		ks = nil
		for k := uint(4); k < 254; k += 8 {
			ks = append(ks, k)
		}
		ks = append(ks, 252, 253)
	}
	for _, k := range ks {
		p2 := new(big.Int).Lsh(bi(1), k)
		add(p2)
		if k > 63 || x.Thorough {
			add(new(big.Int).Sub(p2, bi(1)))
		}
	}
	var sb strings.Builder
	sb.WriteString("func main(x,b[254]){\nvar v=%s\nSPLIT(v)\nvar i=0\nfor(i<254;i=i+1){\nequal(v[i],b[i])\n}\nreturn\n}\n")
	for _, form := range []struct {
		text string
		f    func(v *big.Int) *big.Int
	}{{"x", func(v *big.Int) *big.Int { return v }}, {"x*x", func(v *big.Int) *big.Int { return mod(new(big.Int).Mul(v, v)) }}, {"3*x+1", func(v *big.Int) *big.Int { return mod(add1(new(big.Int).Mul(v, bi(3)))) }}} {
		src := fmt.Sprintf(sb.String(), form.text)
		for i, v := range vals {
			if form.text != "x" && i%4 != 0 {
				continue
			}
			v, form := v, form
			x.Case(fmt.Sprintf("x=%s\n%s", shortInt(v), src), func() error {
				c, err := compile(src, false)
				if err != nil {
					return err
				}
				s, err := newSys(c.dense)
				if err != nil {
					return err
				}
				want := form.f(v)
				claim := func() []*big.Int {
					r := []*big.Int{v}
					for i := 0; i < 254; i++ {
						r = append(r, bi(int64(want.Bit(i))))
					}
					return r
				}
				sat := func(in []*big.Int) bool {
					w := make([]*big.Int, s.n)
					w[0] = bi(1)
					copy(w[1:], in)
					got := false
					s.searchBig(refOrder, w, []*big.Int{bi(0), bi(1)}, func([]*big.Int) bool { got = true; return true })
					x.Eval(1)
					return got
				}
				solve := func(in []*big.Int, accept bool, what string) error {
					for k, f := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
						x.Tick()
						w, rej, crash := f(copyInts(in))
						x.Eval(1)
						x.Trans(c.dense.NumberOfGates)
						if crash != nil {
							return fmt.Errorf("solver %d crashes, %s: %v", k, what, crash)
						}
						if (rej == nil) != accept {
							return fmt.Errorf("solver %d, %s: accepted %v, %v", k, what, rej == nil, rej)
						}
						if rej == nil {
							x.StateHash(hash64(fmt.Sprint(w)))
						}
					}
					return nil
				}
				honest := claim()
				if err := solve(honest, true, "honest claims"); err != nil {
					return err
				}
				if !sat(honest) {
					return fmt.Errorf("the honest claims do not satisfy the constraints")
				}
				x.Nontrivial(form.text + want.String())
				for i := 0; i < 254; i++ {
					in := claim()
					in[1+i] = bi(1 - in[1+i].Int64())
					// the constraints leave only the wire of the value open
					if sat(in) {
						return fmt.Errorf("the constraints accept the claims with bit %d flipped", i)
					}
					if i%16 == 0 || i > 250 || x.Thorough {
						if err := solve(in, false, fmt.Sprintf("bit %d flipped", i)); err != nil {
							return err
						}
					}
					if i < 253 { // the weighted sum is kept
						in = claim()
						in[1+i] = mod(new(big.Int).Add(in[1+i], bi(2)))
						in[2+i] = mod(new(big.Int).Sub(in[2+i], bi(1)))
						if sat(in) {
							return fmt.Errorf("the constraints accept bit %d increased by two and bit %d decreased by one", i, i+1)
						}
					}
				}
				return nil
			})
		}
	}
}
