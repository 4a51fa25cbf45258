package main

// C04: the constraint system alone. All satisfying assignments are enumerated from the constraint matrices.

import (
	"fmt"
	"math/big"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

func init() {
	register("C04", c04)
	metas["C04"] = meta{
		rule: "every program of the corpus and every sequence over an assertion alphabet (the same product, quotient and bits asserted, computed and split in all orders and repetitions, in functions and loops) is compiled over a small prime field; for every input vector of the field all satisfying assignments of the internal wires are enumerated from the constraint matrices, and if one exists the source has a satisfying execution (the quotient 0/0 being any element), and one exists if the source has a satisfying execution without division by zero. " +
			"The same over the real group order for a grid of inputs, the satisfying assignments being enumerated by propagation. Non-trivial: (program, input vector) with a satisfying assignment",
		bounds:         "corpus with expressions of up to 2 operators and statement sequences of length 2, assertion sequences of length 3 over 22 statements and 4 over 9; field of 5 elements, all 625 input vectors; real field: 3 values per input, claims right and wrong",
		boundsThorough: "as quick with assertion sequences of length 5 over 9 statements, corpus statement sequences of length 3; fields of 5 and 7 elements with all 625 and 2401 input vectors",
		assumptions:    []string{"programs with the curve extension are decided by C11", "no division by the constant zero"},
	}
}

// rsys is a constraint system as sparse rows of integers
type term struct {
	w int
	c int64
	b *big.Int
}
type rsys struct {
	n    int
	rows [][3][]term
	erow [][]term
	ext  []bool
	uses [][]int // constraints of each wire
}

func newSys(d *cc.ER1CS) (*rsys, error) {
	s := &rsys{n: d.WitnessLength}
	if len(d.L) != d.NumberOfGates || len(d.R) != d.NumberOfGates || len(d.O) != d.NumberOfGates {
		return nil, fmt.Errorf("%d constraints announced, matrices with %d %d %d rows", d.NumberOfGates, len(d.L), len(d.R), len(d.O))
	}
	s.uses = make([][]int, s.n)
	for i := 0; i < d.NumberOfGates; i++ {
		var r [3][]term
		for k, m := range [][]*big.Int{d.L[i], d.R[i], d.O[i]} {
			if len(m) != s.n {
				return nil, fmt.Errorf("row %d has %d entries, the witness %d", i, len(m), s.n)
			}
			for w, v := range m {
				c := mod(v)
				if c.Sign() != 0 {
					t := term{w: w, b: c}
					if c.IsInt64() {
						t.c = c.Int64()
					}
					r[k] = append(r[k], t)
					if u := s.uses[w]; len(u) == 0 || u[len(u)-1] != i {
						s.uses[w] = append(s.uses[w], i)
					}
				}
			}
		}
		var er []term
		for w, v := range d.E[i] {
			if c := mod(v); c.Sign() != 0 {
				er = append(er, term{w: w, b: c})
				if u := s.uses[w]; len(u) == 0 || u[len(u)-1] != i {
					s.uses[w] = append(s.uses[w], i)
				}
			}
		}
		s.rows = append(s.rows, r)
		s.erow = append(s.erow, er)
		s.ext = append(s.ext, len(er) > 0)
	}
	return s, nil
}

// searchSmall enumerates all assignments over the field of p elements that extend the given one (entries < 0 are unknown)
// and satisfy all constraints; f returns true to stop. It returns the number of visited partial assignments.
func (s *rsys) searchSmall(p int64, w []int64, f func(w []int64) bool) (visited int) {
	done := make([]bool, len(s.rows))
	var rec func() bool
	// eval returns the value of the known part, and the unknown wire with its coefficient if there is exactly one
	eval := func(ts []term) (v int64, unk, cnt int, c int64) {
		unk = -1
		for _, t := range ts {
			if x := w[t.w]; x >= 0 {
				v = (v + t.c*x) % p
			} else {
				unk, c = t.w, t.c
				cnt++
			}
		}
		return
	}
	rec = func() bool {
		visited++
		pick := -1
		var forced [3][2]int64
		for i, r := range s.rows {
			if done[i] {
				continue
			}
			u := -1
			ok := true
			var vc [3][2]int64
			for k := 0; k < 3 && ok; k++ {
				v, w1, cnt, c := eval(r[k])
				vc[k] = [2]int64{v, 0}
				if cnt > 1 || cnt == 1 && u >= 0 && u != w1 {
					ok = false
					break
				}
				if cnt == 1 {
					u = w1
					vc[k][1] = c
				}
			}
			if !ok {
				continue
			}
			if u < 0 {
				if (vc[0][0]*vc[1][0]-vc[2][0])%p != 0 {
					return false
				}
				continue
			}
			pick, forced = u, vc
			done[i] = true
			defer func(i int) { done[i] = false }(i)
			break
		}
		if pick < 0 {
			for i := range w {
				if w[i] < 0 {
					pick = i
					break
				}
			}
			if pick < 0 {
				return f(w)
			}
			for x := int64(0); x < p; x++ {
				w[pick] = x
				if rec() {
					w[pick] = -1
					return true
				}
			}
			w[pick] = -1
			return false
		}
		for x := int64(0); x < p; x++ {
			l := forced[0][0] + forced[0][1]*x
			r := forced[1][0] + forced[1][1]*x
			o := forced[2][0] + forced[2][1]*x
			if (l%p*(r%p)-o)%p != 0 {
				continue
			}
			w[pick] = x
			if rec() {
				w[pick] = -1
				return true
			}
		}
		w[pick] = -1
		return false
	}
	rec()
	return
}

// searchBig does the same over the real field; a wire no constraint determines takes the values cands.
func (s *rsys) searchBig(q *big.Int, w []*big.Int, cands []*big.Int, f func(w []*big.Int) bool) (visited int) {
	// look classifies constraint i: its only unknown wire (-1 without unknowns, -2 with several) and the
	// coefficients of the quadratic equation for it
	look := func(i int) (u int, a, b, c *big.Int) {
		u = -1
		for k := 0; k < 3; k++ {
			for _, t := range s.rows[i][k] {
				if w[t.w] == nil && t.w != u {
					if u >= 0 {
						return -2, nil, nil, nil
					}
					u = t.w
				}
			}
		}
		for _, t := range s.erow[i] {
			if w[t.w] == nil {
				return -2, nil, nil, nil
			}
		}
		var v, k [3]*big.Int
		for j := 0; j < 3; j++ {
			v[j], k[j] = new(big.Int), new(big.Int)
			for _, t := range s.rows[i][j] {
				if t.w == u {
					k[j].Add(k[j], t.b)
				} else {
					v[j].Add(v[j], new(big.Int).Mul(t.b, w[t.w]))
				}
			}
			v[j].Mod(v[j], q)
		}
		if len(s.erow[i]) > 0 { // l*r + X = o
			e := new(big.Int)
			for _, t := range s.erow[i] {
				e.Add(e, new(big.Int).Mul(t.b, w[t.w]))
			}
			v[2].Mod(v[2].Sub(v[2], refScalarBaseX(e)), q)
		}
		a = new(big.Int).Mul(k[0], k[1])
		b = new(big.Int).Mul(v[0], k[1])
		b.Add(b, new(big.Int).Mul(v[1], k[0]))
		b.Sub(b, k[2])
		c = new(big.Int).Mul(v[0], v[1])
		c.Sub(c, v[2])
		return u, a.Mod(a, q), b.Mod(b, q), c.Mod(c, q)
	}
	var rec func(queue []int) bool
	rec = func(queue []int) bool {
		visited++
		var trail []int
		defer func() {
			for _, i := range trail {
				w[i] = nil
			}
		}()
		for len(queue) > 0 { // unique consequences first
			i := queue[0]
			queue = queue[1:]
			u, a, b, c := look(i)
			if u == -2 || u >= 0 && (a.Sign() != 0 || b.Sign() == 0 && c.Sign() == 0) {
				continue
			}
			if u == -1 || b.Sign() == 0 {
				if c.Sign() != 0 {
					return false
				}
				continue
			}
			w[u] = solveQuadratic(a, b, c, q, nil)[0]
			trail = append(trail, u)
			queue = append(queue, s.uses[u]...)
		}
		pick, vals := -1, cands
		for i := range s.rows {
			if u, a, b, c := look(i); u >= 0 && a.Sign() != 0 {
				pick, vals = u, solveQuadratic(a, b, c, q, cands)
				break
			}
		}
		if pick < 0 {
			for i := range w {
				if w[i] == nil {
					pick = i
					break
				}
			}
			if pick < 0 {
				return f(w)
			}
		}
		for _, v := range vals {
			w[pick] = v
			stop := rec(append([]int{}, s.uses[pick]...))
			w[pick] = nil
			if stop {
				return true
			}
		}
		return false
	}
	all := make([]int, len(s.rows))
	for i := range all {
		all[i] = i
	}
	rec(all)
	return
}

// solveQuadratic returns the solutions of ax^2+bx+c=0, or the candidates if every x is one
func solveQuadratic(a, b, c, q *big.Int, cands []*big.Int) []*big.Int {
	if a.Sign() == 0 {
		if b.Sign() == 0 {
			if c.Sign() == 0 {
				return cands
			}
			return nil
		}
		x := new(big.Int).ModInverse(b, q)
		x.Mul(x, new(big.Int).Neg(c))
		return []*big.Int{x.Mod(x, q)}
	}
	d := new(big.Int).Mul(b, b)
	d.Sub(d, new(big.Int).Lsh(new(big.Int).Mul(a, c), 2))
	r := new(big.Int).ModSqrt(d.Mod(d, q), q)
	if r == nil {
		return nil
	}
	inv := new(big.Int).ModInverse(new(big.Int).Lsh(a, 1), q)
	var out []*big.Int
	for _, s := range []*big.Int{r, new(big.Int).Neg(r)} {
		x := new(big.Int).Sub(s, b)
		x.Mul(x, inv)
		out = append(out, x.Mod(x, q))
	}
	if r.Sign() == 0 {
		out = out[:1]
	}
	return out
}

// satisfiable decides by the source: is there a satisfying execution, 0/0 being any of the candidates
func satisfiable(p *P, in []*big.Int, q *big.Int, cands []*big.Int) (bool, error) {
	names := expandParams(p.params)
	var rec func(prefix []*big.Int) (bool, error)
	rec = func(prefix []*big.Int) (bool, error) {
		k, more := 0, false
		it := &interp{q: q, inputs: map[string]*big.Int{}, claims: map[string]bool{}}
		for i, n := range names {
			it.inputs[n] = in[i]
		}
		it.choose = func() *big.Int {
			k++
			if k <= len(prefix) {
				return prefix[k-1]
			}
			more = true
			return new(big.Int)
		}
		err := it.run(p)
		if err != nil && err != errDivZero {
			return false, err
		}
		if !more {
			return err == nil && it.ok, nil
		}
		if len(prefix) > 4 {
			return true, nil // not decided: counted as satisfiable
		}
		for _, c := range cands {
			ok, err := rec(append(append([]*big.Int{}, prefix...), c))
			if ok || err != nil {
				return ok, err
			}
		}
		return false, nil
	}
	return rec(nil)
}

// inField runs f with the scalar field replaced by the one of p elements
func inField(p int64, f func()) {
	old := new(big.Int).Set(bn.Order)
	bn.Order.SetInt64(p)
	defer bn.Order.Set(old)
	f()
}

// compileSmall compiles over the small field; ok is false if the tool chain cannot be moved to it
func compileSmall(src string, p int64) (c *circuit, err error) {
	inField(p, func() { c, err = compile(src, false) })
	return
}

// assertionPrograms are all sequences over an assertion alphabet
func assertionPrograms(thorough bool, f func(p *P)) {
	e := mustExpr
	params := []string{"x", "y", "p", "q"}
	small := []*S{
		Asg("v", e("x*y")), Eq(e("x*y"), V("p")), Eq(V("v"), V("q")), Eq(e("x/y"), V("p")), Asg("v", e("x/y")), Eq(V("x"), V("y")), Eq(e("y*x"), V("q")), Asg("v", e("v*v")), Eq(V("q"), e("x/y")),
	}
	large := append(append([]*S{}, small...),
		Eq(e("2*x*y"), V("p")), Eq(e("x*y"), e("2*p")), Eq(e("x*y"), e("x*q")), Eq(e("x*y"), N("0")), Eq(e("x*x"), V("x")), Eq(e("x-y"), e("p-q")), Eq(e("x*x*x"), e("y*y")),
		Eq(e("x/y"), e("p/q")), Eq(N("1"), e("x/y")), Eq(e("x/y*y"), V("p")), CallS(C("f", V("x"), V("y"))), CallS(C("f", V("p"), e("x*y"))), Eq(C("g", V("x"), V("y")), V("q")), Asg("v", C("g", V("v"), V("y"))))
	globals := []*S{
		Fn("f", []string{"a", "b"}, Eq(e("a*b"), V("b")), Ret(nil)),
		Fn("g", []string{"a", "b"}, Eq(e("a*a"), V("b")), Ret(e("a*b"))),
	}
	seen := map[string]bool{}
	emit := func(b []*S) {
		for _, tail := range [][]*S{{Ret(nil)}, {Ret(V("v"))}} {
			p := &P{globals: globals, params: params, body: append(append([]*S{Decl("v", V("x"))}, b...), tail...)}
			t := p.text(style{})
			if !seen[t] {
				seen[t] = true
				f(p)
			}
		}
	}
	var rec func(alpha []*S, k int, b []*S)
	rec = func(alpha []*S, k int, b []*S) {
		if len(b) > 0 {
			emit(b)
		}
		if k == 0 {
			return
		}
		for _, s := range alpha {
			rec(alpha, k-1, append(append([]*S{}, b...), s))
		}
	}
	rec(small, 4, nil)
	rec(large, 3, nil)
	if thorough {
		rec(small, 5, nil)
	}
	// assertions between values of every shape, next to the computations they must not be merged with
	sh := shapes()
	for i, s := range sh {
		for j, t := range sh {
			switch {
			case thorough || i%4 == j%4:
				emit([]*S{Eq(s, t), Eq(V("p"), e("x*y"))})
			case i%4 == (j+1)%4:
				emit([]*S{Asg("v", B('*', s, t)), Eq(s, t)})
			case i%4 == (j+2)%4:
				emit([]*S{Eq(s, V("p")), Eq(t, V("q"))})
			case i%4 == (j+3)%4:
				emit([]*S{Asg("v", s), Eq(V("v"), V("p")), Asg("v", t), Eq(B('/', V("p"), V("q")), V("v"))})
			}
		}
	}
	// assertions under loops and branches
	for _, s := range large {
		for n := 1; n <= 3; n++ {
			emit([]*S{Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", e("i+1")), s, Asg("v", e("v*x")))})
		}
		emit([]*S{Decl("k", N("1")), If([]*Cond{Cmp(V("k"), "==", N("1")), nil}, []*S{s}, []*S{Eq(V("x"), N("3"))})})
		emit([]*S{Decl("k", N("2")), If([]*Cond{Cmp(V("k"), "==", N("1")), nil}, []*S{Eq(V("x"), N("3"))}, []*S{s})})
		emit([]*S{Fn("h", nil, s, Ret(nil)), CallS(C("h")), s, CallS(C("h"))})
	}
}

func c04(x *X) {
	fields := []int64{5}
	if x.Thorough {
		fields = []int64{5, 7}
	}
	decide := func(p *P, split bool) error {
		src := p.text(style{})
		if alwaysDividesByZero(p, ints(0, 0, 0, 0)) {
			x.Count("programs dividing by an expression that is identically zero (no claim)", 1)
			return nil
		}
		for _, f := range fields {
			c, err := compileSmall(src, f)
			if err != nil {
				if split {
					continue
				}
				return fmt.Errorf("over the field of %d elements: %v", f, err)
			}
			var s *rsys
			inField(f, func() { s, err = newSys(c.dense) })
			if err != nil {
				return err
			}
			for _, e := range s.ext {
				if e {
					return fmt.Errorf("a constraint with a curve multiple in a program without")
				}
			}
			q := big.NewInt(f)
			var cands []*big.Int
			for i := int64(0); i < f; i++ {
				cands = append(cands, bi(i))
			}
			in := make([]*big.Int, 4)
			w := make([]int64, s.n)
			total := int64(1)
			for i := 0; i < 4; i++ {
				total *= f
			}
			for v := int64(0); v < total; v++ {
				if v%64 == 0 {
					x.Tick()
				}
				for i := range w {
					w[i] = -1
				}
				w[0] = 1
				for i, t := 0, v; i < 4; i++ {
					in[i] = bi(t % f)
					w[i+1] = t % f
					t /= f
				}
				want, err := satisfiable(p, in, q, cands)
				if err == errStaticDivZero {
					return nil
				}
				if err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				got := false
				var wit []int64
				x.Trans(s.searchSmall(f, w, func(w []int64) bool { got = true; wit = append([]int64{}, w...); return true }))
				x.Eval(1)
				if want && !got {
					// quotients 0/0 that are written twice share a wire, so that their choice is not free
					if _, safe, err := reference(p, in, q, nil); err != nil || !safe {
						want = false
					}
				}
				if got != want {
					if got {
						return fmt.Errorf("over the field of %d elements the inputs %s satisfy no execution of the source, but the wires %v satisfy all %d constraints", f, showInts(in), wit, len(s.rows))
					}
					return fmt.Errorf("over the field of %d elements the inputs %s have a satisfying execution, but no assignment satisfies the %d constraints", f, showInts(in), len(s.rows))
				}
				if got {
					x.StateHash(hash64(fmt.Sprint(len(s.rows), wit)))
				}
				if got && v > 0 {
					x.Nontrivial(fmt.Sprintf("%d %d %s", f, v, src))
				}
			}
		}
		if split {
			return nil
		}
		// the real field
		c, err := compile(src, false)
		if err != nil {
			return err
		}
		s, err := newSys(c.dense)
		if err != nil {
			return err
		}
		cands := []*big.Int{bi(0), bi(1), bi(2), qm1, bi(7)}
		vals := []*big.Int{bi(0), bi(2), qm1}
		try := func(in []*big.Int) error {
			x.Tick()
			it := &interp{q: refOrder, inputs: map[string]*big.Int{}, claims: map[string]bool{}}
			for i, n := range p.params {
				it.inputs[n] = in[i]
			}
			it.choose = func() *big.Int { panic(interpPanic{errUndetermined}) }
			err := it.run(p)
			if err == errUndetermined || err == errStaticDivZero {
				return nil
			}
			want := err == nil && it.ok
			w := make([]*big.Int, s.n)
			w[0] = bi(1)
			copy(w[1:], in)
			got := false
			var wit string
			x.Trans(s.searchBig(refOrder, w, cands, func(w []*big.Int) bool { got = true; wit = showInts(w); return true }))
			x.Eval(1)
			if got != want {
				return fmt.Errorf("inputs %s: the source has a satisfying execution: %v, the constraints have a satisfying assignment: %v %s", showInts(in), want, got, wit)
			}
			return nil
		}
		for _, base := range grid(vals, 2) {
			full, _, err := reference(p, base, refOrder, nil)
			if err == errStaticDivZero {
				return nil
			}
			if e := try(full); e != nil {
				return e
			}
			for i := 2; i < 4; i++ {
				alt := copyInts(full)
				alt[i] = add1(alt[i])
				if e := try(alt); e != nil {
					return e
				}
			}
		}
		return nil
	}
	n := 0
	assertionPrograms(x.Thorough, func(p *P) {
		n++
		x.Case(p.text(style{}), func() error { return decide(p, false) })
	})
	corpus(x.Thorough, func(cp CP) {
		if cp.ext {
			return
		}
		p := cp.p
		x.Case(p.text(style{}), func() error { return decide(p, cp.split) })
	})
}

var errUndetermined = fmt.Errorf("undetermined quotient")
