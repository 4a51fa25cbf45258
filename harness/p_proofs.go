package main

// C22 honest proofs verify, C23 altered statements, proofs and keys are rejected,
// C24 the prover refuses unsatisfying assignments, C25 nothing is changed by proving and verifying.

import (
	"fmt"
	"math/big"
	"strings"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

func init() {
	register("C22", c22)
	metas["C22"] = meta{
		rule: "every program of the corpus without curve extension and with at least one constraint, with every listed choice of public inputs; all ordered selections of public inputs for four programs; all combinations of boundary values of the setup secrets for three programs. " +
			"Setup, solver and prover of the dense and of the sparse path run on every satisfying input of the list; the verdict on the public part of the witness has to be true. Keys of one path are also used with the prover of the other. Non-trivial: a proof was verified",
		bounds:         "expressions with up to 1 operator, sequences of up to 2 statements, loops up to 25 constraints; public inputs none, one, all in reverse order; the first 2 satisfying inputs (every third case also negative and unreduced) of {(3,5),(7,7),(5,1),(0,0),(1,1),(1,-1)}; secrets x in {0,1,2,r}, alpha, beta in {0,1,r}, gamma, delta in {1,r}; statements of 7 to 33 public values with one more constraint each",
		boundsThorough: "expressions with up to 2 operators, sequences of up to 3 statements, splits; 6 choices of public inputs; the first 4 satisfying inputs; secrets x in {0,1,2,3,r}, alpha, beta in {0,1,2,r}, gamma, delta in {1,2,r}; statements of 7 to 129 public values with four public choices",
		assumptions:    []string{"gamma and delta are not zero (a setup of a real user draws them at random)", "programs with the curve extension are outside, as the documentation says"},
	}
	register("C23", c23)
	metas["C23"] = meta{
		rule: "for every listed program and choice of public inputs, an honest proof of each path: every change of one and of two positions of the statement by the listed amounts, every length change, every substitution of one proof element from the set (neutral element, generator, negation, double, successor, the elements of the key, the elements of proofs for other inputs, the other elements of the proof), " +
			"every pair of proof and foreign key. A changed statement has to be rejected if it changes some row value of the constraint system, judged from the exported matrices; everything else always. Non-trivial: the verifier rejected an alteration",
		bounds:         "16 programs of 1 to 8 constraints with 0 to 7 public inputs and one with a statement of 18 public values, amounts {1,-1,2,q/2,2^64,2^128,2^253, to 0, to 1, to -1}, raw amounts of powers of two up to 2^520",
		boundsThorough: "the programs of the quick tier and every program of the corpus with up to 2 statements or 1 operator; statements of 8, 16, 32 and 65 public values",
		assumptions:    []string{"setup secrets are generic (drawn by the tool chain from a fixed byte stream)"},
	}
	register("C24", c24)
	metas["C24"] = meta{
		rule:           "every program of the corpus without curve extension with at least one constraint: every single-wire change of an honest witness by the listed amounts, and for small programs every two-wire change; if a constraint of the exported matrices is violated (independent arithmetic) both provers have to refuse. Non-trivial: a prover refused",
		bounds:         "amounts {1,-1, to 0, to 1, to 2, doubled} for one wire, {1,-1,to 0} for two wires, programs with up to 2 operators or 2 statements",
		boundsThorough: "as quick with sequences of 3 statements, splits, and two-wire changes for all programs with up to 10 wires",
		assumptions:    []string{"a refusal is an error or a panic of the prover"},
	}
	register("C25", c25)
	metas["C25"] = meta{
		rule: "all sequences of operations over two programs (verify true and false statements, right and foreign keys, short statements; prove two witnesses, refuse a wrong one, both provers) on fresh objects: every verdict has to be the one the operation gives alone, and afterwards every element of both keys, every proof, witness, statement and matrix is what it was. States are the encodings of all objects. " +
			"The same operations run concurrently in pairs under the race detector of the Go runtime: if no two operations conflict on memory, every interleaving is equivalent to one of the two sequential orders, which are both explored",
		bounds:         "12 operations, all sequences of length 1 and 2, length 3 over 7 operations; all unordered pairs concurrently",
		boundsThorough: "all sequences of length 3 over 12 operations, length 4 over 6",
		assumptions:    []string{"the race detector sees the headers of big integers, not the words written by assembly routines"},
	}
}

func withPublic(p *P, pub []string) *P {
	r := *p
	if pub != nil {
		r.body = append([]*S{Public(pub...)}, p.body...)
	}
	return &r
}

// orderedSelections of the names, the empty one first
func orderedSelections(names []string, f func([]string)) {
	var rec func(cur []string)
	rec = func(cur []string) {
		f(append([]string{}, cur...))
	next:
		for _, n := range names {
			for _, c := range cur {
				if c == n {
					continue next
				}
			}
			rec(append(append([]string{}, cur...), n))
		}
	}
	rec(nil)
}

// basesFor returns input patterns: the claims p and q are left open, every other input gets a value
func basesFor(p *P) (r [][]*big.Int) {
	names := expandParams(p.params)
	for _, b := range proofBases {
		in := make([]*big.Int, len(names))
		k := 0
		for i, n := range names {
			if n == "p" || n == "q" {
				continue
			}
			in[i] = mod(new(big.Int).Add(b[k%2], bi(int64(k/2*2))))
			k++
		}
		r = append(r, in)
	}
	return
}

var proofBases = [][]*big.Int{{bi(3), bi(5), nil, nil}, {bi(7), bi(7), nil, nil}, {bi(5), bi(1), nil, nil}, {bi(0), bi(0), nil, nil}, {bi(1), bi(1), nil, nil}, {bi(1), qm1, nil, nil}}

// satisfying returns up to n satisfying inputs of the program
func satisfying(p *P, n int) (r [][]*big.Int) {
	for _, b := range basesFor(p) {
		if len(r) == n {
			return
		}
		for k := 0; k < 4; k++ { // claims no assertion determines
			in := append([]*big.Int{}, b...)
			j := 0
			for i := range in {
				if in[i] == nil {
					if k>>j&1 == 1 {
						in[i] = bi(int64(4 + j))
					}
					j++
				}
			}
			if full, acc, err := reference(p, in, refOrder, nil); err == nil && acc {
				r = append(r, full)
				break
			}
		}
	}
	return
}

// zeroInputs are satisfying inputs that are zero where they can be
func zeroInputs(p *P) (r [][]*big.Int) {
	names := expandParams(p.params)
	for k := -1; k < len(names); k++ {
		in := make([]*big.Int, len(names))
		for i, n := range names {
			if n == "p" || n == "q" {
				continue
			}
			in[i] = bi(0)
			if k == i {
				in[i] = bi(3)
			}
		}
		for j, n := range names { // claims no assertion determines
			if n == "p" || n == "q" {
				if _, _, err := reference(p, in, refOrder, nil); err != nil {
					in[j] = bi(0)
				}
			}
		}
		if full, acc, err := reference(p, in, refOrder, nil); err == nil && acc {
			r = append(r, full)
		}
	}
	return
}

// honest runs both paths over the inputs
func (x *X) honest(c *circuit, key string, seed *counterReader, script []*big.Int, inputs [][]*big.Int, cross bool) error {
	type made struct {
		pk *zk.Pk
		s  *zk.Setup
	}
	var keys []made
	for _, p := range paths {
		var s *zk.Setup
		var rej, crash error
		if script != nil {
			s, rej, crash = p.setup(c, &valueReader{vals: script})
		} else {
			s, rej, crash = p.setup(c, &counterReader{seed.n})
		}
		x.Tick()
		if rej != nil || crash != nil {
			return fmt.Errorf("%s setup fails: %v %v", p.name, rej, crash)
		}
		keys = append(keys, made{&s.Pk, s})
	}
	for _, in := range inputs {
		for pi, p := range paths {
			w, rej, crash := p.solve(c, copyInts(in))
			if rej != nil || crash != nil {
				return fmt.Errorf("%s solver refuses the satisfying input %s: %v %v", p.name, showInts(in), rej, crash)
			}
			for ki, k := range keys {
				if ki != pi && !cross {
					continue
				}
				pr, rej, crash := p.prove(c, k.pk, w)
				if rej != nil || crash != nil {
					return fmt.Errorf("%s prover with a %s key refuses the honest witness %s of input %s: %v %v", p.name, paths[ki].name, clip(showInts(w)), showInts(in), rej, crash)
				}
				ok, crash := verify(k.pk, pr, w[:c.npub])
				x.Tick()
				x.Eval(1)
				x.Trans(3)
				x.Trace(1)
				if crash != nil || !ok {
					return fmt.Errorf("the honest proof of the %s prover with a %s key for input %s, statement %s does not verify (%v)", p.name, paths[ki].name, showInts(in), showInts(w[:c.npub]), crash)
				}
				x.StateHash(hash64(key + proofBytes(pr)))
				x.Nontrivial(key + showInts(in))
			}
		}
	}
	return nil
}

// valueReader hands out the given numbers as big endian byte strings of the size that is asked for
type valueReader struct {
	vals []*big.Int
	i    int
}

func (v *valueReader) Read(b []byte) (int, error) {
	n := bi(int64(1000003 + v.i))
	if v.i < len(v.vals) {
		n = v.vals[v.i]
	}
	v.i++
	n.FillBytes(b)
	return len(b), nil
}

func c22(x *X) {
	run := func(p *P, pub []string, n int, script []*big.Int) {
		q := withPublic(p, pub)
		src := q.text(style{})
		desc := src
		if script != nil {
			desc = "secrets " + showInts(script) + "\n" + src
		}
		x.Case(desc, func() error {
			c, err := compile(src, false)
			if err != nil {
				return err
			}
			if c.dense.NumberOfGates == 0 || c.npub >= c.dense.WitnessLength {
				x.Count("no constraint or no private wire (no claim)", 1)
				return nil
			}
			ins := satisfying(p, n)
			if len(ins) == 0 {
				x.Count("unsatisfiable for the listed inputs", 1)
				return nil
			}
			if script == nil && (x.Thorough || len(src)%3 == 0) {
				// the same inputs in other representations: negative, unreduced, mixed
				for k := 0; k < 3; k++ {
					in := copyInts(ins[k%len(ins)])
					for i := range in {
						switch (k + i) % 3 {
						case 0:
							in[i].Sub(in[i], refOrder)
						case 1:
							in[i].Add(in[i], new(big.Int).Lsh(refOrder, uint(3+i)))
						}
					}
					ins = append(ins, in)
				}
			}
			return x.honest(c, src, &counterReader{uint64(len(src))}, script, ins, x.Thorough || len(p.body) <= 2 && len(pub) == 1)
		})
	}
	corpus(x.Thorough, func(cp CP) {
		names := cp.p.params
		all := []string{names[3], names[2], names[1], names[0]}
		if cp.ext || cp.split && (!x.Thorough || cp.p.size() > 3) || cp.ops > 1 && !x.Thorough {
			return
		}
		n := 2
		if x.Thorough {
			n = 4
		}
		if cp.split {
			run(cp.p, []string{names[0]}, 1, nil)
			return
		}
		run(cp.p, all, n, nil)
		if cp.p.size() <= 2 || x.Thorough {
			run(cp.p, []string{"p"}, n, nil)
		}
		if x.Thorough {
			run(cp.p, nil, n, nil)
			run(cp.p, []string{}, n, nil)
			run(cp.p, []string{names[1], names[3]}, n, nil)
		} else if cp.p.size() <= 2 && cp.ops == 0 {
			run(cp.p, nil, n, nil)
		}
	})
	e := mustExpr
	progs := []*P{
		{params: []string{"x", "y", "p", "q"}, body: []*S{Eq(e("x*y"), V("p")), Ret(e("p/q"))}},
		{params: []string{"x", "y", "p", "q"}, body: []*S{Eq(e("x-y"), V("p")), Eq(e("x*p"), V("q")), Ret(e("p*p*p*p"))}},
		{params: []string{"x", "y", "p", "q"}, body: []*S{Ret(e("x*x"))}},
		{params: []string{"x", "y", "p", "q"}, body: []*S{Decl("v", e("x/(y+3)")), Eq(e("v*y+2"), V("p")), Eq(e("v*x+q*0"), e("x*v")), Ret(e("v*(p+x*3)"))}},
	}
	for i, p := range progs {
		orderedSelections([]string{"x", "y", "p", "q"}, func(pub []string) {
			if x.Thorough || i < 2 || len(pub) <= 1 {
				run(p, pub, 1, nil)
			}
		})
	}
	// long statements and many constraints
	sizes := []int{7, 8, 9, 15, 16, 17, 33}
	if x.Thorough {
		sizes = append(sizes, 31, 32, 63, 64, 65, 100, 129)
	}
	for _, n := range sizes {
		p, header := longStatement(n)
		var rev, half []string
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, header[i+1])
			if i%2 == 0 {
				half = append(half, header[i+1])
			}
		}
		run(p, append([]string{"p"}, rev...), 1, nil)
		run(p, append(append([]string{}, header[1:n+1]...), "p"), 1, nil)
		run(p, half, 1, nil)
		run(p, []string{"p"}, 1, nil)
	}
	r := func(i int64) *big.Int { return new(big.Int).Exp(bi(65537+2*i), bi(14), nil) }
	xs := []*big.Int{bi(0), bi(1), bi(2), r(1)}
	ab := []*big.Int{bi(0), bi(1), r(2)}
	gd := []*big.Int{bi(1), r(4)}
	if x.Thorough {
		xs = append(xs, bi(3))
		ab = append(ab, bi(2))
		gd = append(gd, bi(2))
	}
	for i, p := range progs[:3] {
		for _, vx := range xs {
			for _, a := range ab {
				for _, b := range ab {
					for _, g := range gd {
						for _, d := range gd {
							if i > 0 && !x.Thorough && (a.Cmp(b) != 0 || g.Cmp(d) != 0) {
								continue
							}
							run(p, []string{"p"}, 1, []*big.Int{vx, a, b, g, d})
						}
					}
				}
			}
		}
	}
}

// longStatement: n inputs, n+1 constraints and the claim p
func longStatement(n int) (*P, []string) {
	p := &P{params: []string{"x", fmt.Sprintf("a[%d]", n), "p", "q"}, body: []*S{Decl("v", mustExpr("x*x")), Decl("i", N("0")),
		For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", mustExpr("i+1")), Asg("v", B('*', V("v"), B('+', I("a", V("i")), V("i"))))), Eq(V("v"), V("p")), Ret(nil)}}
	return p, expandParams(p.params)
}

// ---------------------------------------------------------------- C23

type stmtProg struct {
	p   *P
	pub []string
}

func c23progs() []stmtProg {
	e := mustExpr
	ps := []string{"x", "y", "p", "q"}
	mk := func(pub string, body ...*S) stmtProg {
		return stmtProg{&P{params: ps, body: body}, strings.Fields(pub)}
	}
	return []stmtProg{
		mk("", Ret(e("x*y"))),
		mk("x", Ret(e("x*y"))),
		mk("p", Eq(e("x*y"), V("p")), Ret(nil)),
		mk("p x", Eq(e("x*y"), V("p")), Ret(nil)),
		mk("q p", Eq(e("x*y"), V("p")), Ret(nil)),
		mk("p q", Eq(e("x*y"), V("p")), Eq(e("x*x"), V("q")), Ret(nil)),
		mk("q p", Eq(e("x*y"), V("p")), Eq(e("x*x"), V("q")), Ret(nil)),
		mk("x y p q", Eq(e("x*y"), V("p")), Eq(e("x-y"), V("q")), Ret(e("x*q"))),
		mk("p q", Eq(e("x+y"), V("p")), Eq(V("p"), V("q")), Ret(e("x*y"))),
		mk("x y", Eq(e("x/y"), V("p")), Eq(e("p/x"), V("q")), Ret(nil)),
		mk("q", Decl("v", e("x*y")), Asg("v", e("v*v")), Asg("v", e("v*x+3")), Eq(e("v/y"), V("p")), Eq(e("v*p"), V("q")), Ret(e("q*q*q"))),
		mk("p y", Decl("v", e("x")), Decl("i", N("0")), For(Cmp(V("i"), "<", N("5")), Asg("i", e("i+1")), Asg("v", e("v*y+i"))), Eq(V("v"), V("p")), Ret(nil)),
		mk("y x p", Eq(C("addGateConstraint", e("x"), e("y")), V("p")), Ret(e("p*5*q"))),
		{&P{params: []string{"a[6]", "x", "p", "q"}, body: []*S{Decl("s", e("x")), Decl("i", N("0")),
			For(Cmp(V("i"), "<", N("6")), Asg("i", e("i+1")), Asg("s", B('+', B('*', V("s"), e("x")), I("a", V("i"))))), Eq(V("s"), V("p")), Ret(nil)}},
			strings.Fields("p a[0] a[1] a[2] a[3] a[4] a[5]")},
		{&P{params: []string{"a[3]", "b[3]", "p", "q"}, body: []*S{
			Eq(B('+', B('*', I("a", N("0")), I("b", N("0"))), B('+', B('*', I("a", N("1")), I("b", N("1"))), B('*', I("a", N("2")), I("b", N("2"))))), V("p")), Ret(nil)}},
			strings.Fields("b[2] p b[0] b[1] a[1]")},
		mk("p", Eq(V("p"), N("15")), Eq(e("x*y"), V("p")), Ret(nil)),
	}
}

// dependsOn: the change of the statement changes some row value
func dependsOn(c *circuit, delta []*big.Int) bool {
	for _, m := range [][][]*big.Int{c.dense.L, c.dense.R, c.dense.E, c.dense.O} {
		for _, row := range m {
			s := new(big.Int)
			for i, d := range delta {
				s.Add(s, new(big.Int).Mul(d, row[i]))
			}
			if s.Mod(s, refOrder).Sign() != 0 {
				return true
			}
		}
	}
	return false
}

func c23(x *X) {
	progs := c23progs()
	for _, sp := range progs {
		x.alterations(sp, 2)
	}
	long := []int{18}
	if x.Thorough {
		long = []int{8, 16, 32, 65}
	}
	for _, n := range long {
		p, header := longStatement(n)
		x.alterations(stmtProg{p, append([]string{"p"}, header[1:n+1]...)}, 1)
	}
	for i, a := range progs {
		for j, b := range progs {
			x.foreignKey(i == j, a, b)
		}
	}
	if x.Thorough {
		corpus(false, func(cp CP) {
			if cp.ext || cp.split || cp.ops > 1 {
				return
			}
			x.alterations(stmtProg{cp.p, []string{cp.p.params[2], cp.p.params[0]}}, 1)
		})
	}
}

type instance struct {
	c     *circuit
	pk    *zk.Pk
	w     []*big.Int
	proof *zk.Proof
	pub   []*big.Int
}

func makeInstance(sp stmtProg, p path, in []*big.Int, seed uint64) (*instance, error) {
	c, err := compile(withPublic(sp.p, sp.pub).text(style{}), false)
	if err != nil {
		return nil, err
	}
	s, rej, crash := p.setup(c, &counterReader{seed})
	if rej != nil || crash != nil {
		return nil, fmt.Errorf("setup: %v %v", rej, crash)
	}
	r := &instance{c: c, pk: &s.Pk}
	r.w, r.proof, err = r.prove(p, in)
	if err != nil {
		return nil, err
	}
	r.pub = copyInts(r.w[:c.npub])
	if ok, crash := verify(r.pk, r.proof, copyInts(r.pub)); !ok {
		return nil, fmt.Errorf("the honest proof does not verify (%v)", crash)
	}
	return r, nil
}

func (r *instance) prove(p path, in []*big.Int) ([]*big.Int, *zk.Proof, error) {
	w, rej, crash := p.solve(r.c, copyInts(in))
	if rej != nil || crash != nil {
		return nil, nil, fmt.Errorf("solver on %s: %v %v", showInts(in), rej, crash)
	}
	pr, rej, crash := p.prove(r.c, r.pk, w)
	if rej != nil || crash != nil {
		return nil, nil, fmt.Errorf("prover: %v %v", rej, crash)
	}
	return w, pr, nil
}

// mustReject: the verifier has to say no, without a crash
func (x *X) mustReject(what string, pk *zk.Pk, pr *zk.Proof, pub []*big.Int) error {
	given := pub
	if pub != nil {
		given = copyInts(pub)
	}
	ok, crash := verify(pk, pr, given)
	x.Tick()
	x.Eval(1)
	x.Trans(1)
	if crash != nil {
		return fmt.Errorf("%s: the verifier crashes: %v", what, crash)
	}
	if ok {
		return fmt.Errorf("%s: the verifier accepts it", what)
	}
	x.Count("rejected", 1)
	x.StateHash(hash64(what + proofBytes(pr) + showInts(pub)))
	x.Nontrivial(what + showInts(pub))
	return nil
}

func (x *X) alterations(sp stmtProg, npaths int) {
	src := withPublic(sp.p, sp.pub).text(style{})
	for pi, p := range paths[:npaths] {
		pi, p := pi, p
		ins := satisfying(sp.p, 4)
		if len(ins) == 0 {
			panic("no satisfying input: " + src)
		}
		with := func(what string, f func(*instance) error) {
			x.Case(p.name+" "+what+"\n"+src, func() error {
				c, err := compile(src, false)
				if err == nil && c.dense.NumberOfGates == 0 {
					return nil
				}
				r, err := makeInstance(sp, p, ins[0], uint64(7+pi))
				if err != nil {
					return err
				}
				x.Trace(1)
				return f(r)
			})
		}
		with("values of the statement", func(r *instance) error {
			n := len(r.pub)
			if n != len(sp.pub)+1 {
				return fmt.Errorf("%d values are public, the constant and %d inputs were declared", n, len(sp.pub))
			}
			change := func(i int) (out []*big.Int) {
				v := r.pub[i]
				for _, d := range []*big.Int{bi(1), qm1, bi(2), new(big.Int).Rsh(refOrder, 1), new(big.Int).Lsh(bi(1), 64), new(big.Int).Lsh(bi(1), 128), new(big.Int).Lsh(bi(1), 253)} {
					out = append(out, mod(new(big.Int).Add(v, d)))
				}
				for _, d := range []*big.Int{bi(0), bi(1), qm1, new(big.Int).Neg(v)} {
					out = append(out, mod(d))
				}
				return
			}
			try := func(alt []*big.Int) error {
				delta := make([]*big.Int, n)
				same := true
				for i := range alt {
					delta[i] = mod(new(big.Int).Sub(alt[i], r.pub[i]))
					same = same && delta[i].Sign() == 0
				}
				if same || !dependsOn(r.c, delta) {
					x.Count("statement changes no constraint depends on", 1)
					return nil
				}
				if err := x.mustReject("statement "+showInts(alt)+" instead of "+showInts(r.pub), r.pk, r.proof, alt); err != nil {
					return err
				}
				// the same statement in other representations
				for i := range alt {
					if delta[i].Sign() == 0 {
						continue
					}
					a := copyInts(alt)
					a[i].Sub(a[i], refOrder)
					if err := x.mustReject("statement "+showInts(a)+" instead of "+showInts(r.pub), r.pk, r.proof, a); err != nil {
						return err
					}
					break
				}
				return nil
			}
			for i := 0; i < n; i++ {
				for k, v := range change(i) {
					if n > 5 && (i+k)%2 == 1 && !x.Thorough {
						continue
					}
					alt := copyInts(r.pub)
					alt[i] = v
					if err := try(alt); err != nil {
						return err
					}
				}
				for j := 0; j < i; j++ {
					alt := copyInts(r.pub)
					alt[i], alt[j] = alt[j], alt[i]
					if err := try(alt); err != nil {
						return err
					}
					alt = copyInts(r.pub)
					alt[i] = add1(alt[i])
					alt[j] = mod(new(big.Int).Sub(alt[j], bi(1)))
					if err := try(alt); err != nil {
						return err
					}
				}
			}
			// values that differ in a single power of two, not reduced
			for i := 0; i < n; i++ {
				for k := 0; k < 520; k++ {
					if !x.Thorough && (k+i*37+pi*19)%61 != 0 && !(k >= 252 && k <= 257 && (k+i+pi)%2 == 0) {
						continue
					}
					alt := copyInts(r.pub)
					d := new(big.Int).Lsh(bi(1), uint(k))
					if (k+i)%3 == 0 {
						d.Neg(d)
					}
					alt[i].Add(alt[i], d)
					delta := make([]*big.Int, n)
					for j := range delta {
						delta[j] = new(big.Int).Sub(alt[j], r.pub[j])
					}
					if !dependsOn(r.c, delta) {
						x.Count("statement changes no constraint depends on", 1)
						continue
					}
					if err := x.mustReject("statement "+showInts(alt)+" instead of "+showInts(r.pub), r.pk, r.proof, alt); err != nil {
						return err
					}
				}
			}
			// statements of other inputs
			for _, in := range ins[1:] {
				w, _, err := r.prove(p, in)
				if err != nil {
					return err
				}
				if err := try(w[:n]); err != nil {
					return err
				}
			}
			zero := make([]*big.Int, n)
			for i := range zero {
				zero[i] = new(big.Int)
			}
			return try(zero)
		})
		with("length of the statement", func(r *instance) error {
			n := len(r.pub)
			for k := 0; k < n; k++ {
				if err := x.mustReject(fmt.Sprintf("the first %d of %d values", k, n), r.pk, r.proof, r.pub[:k]); err != nil {
					return err
				}
				if err := x.mustReject(fmt.Sprintf("the last %d of %d values", k, n), r.pk, r.proof, r.pub[n-k:]); err != nil {
					return err
				}
			}
			if err := x.mustReject("no statement", r.pk, r.proof, nil); err != nil {
				return err
			}
			for _, v := range []*big.Int{bi(0), bi(1), qm1} {
				if err := x.mustReject("an additional "+shortInt(v), r.pk, r.proof, append(copyInts(r.pub), v)); err != nil {
					return err
				}
				if err := x.mustReject("a leading "+shortInt(v), r.pk, r.proof, append([]*big.Int{v}, copyInts(r.pub)...)); err != nil {
					return err
				}
			}
			if err := x.mustReject("the whole witness", r.pk, r.proof, r.w); err != nil {
				return err
			}
			// inputs that are zero and left out
			seen := map[string]bool{}
			for _, in := range append(zeroInputs(sp.p), ins...) {
				w, pr, err := r.prove(p, in)
				if err != nil {
					return err
				}
				var zeros []int
				for i := range w[:n] {
					if w[i].Sign() == 0 {
						zeros = append(zeros, i)
					}
				}
				if len(zeros) == 0 || seen[fmt.Sprint(zeros)] || len(seen) == 2 {
					continue
				}
				seen[fmt.Sprint(zeros)] = true
				if ok, crash := verify(r.pk, pr, copyInts(w[:n])); !ok {
					return fmt.Errorf("the honest proof for %s does not verify (%v)", showInts(in), crash)
				}
				for m := 1; m < 1<<uint(len(zeros)) && m < 1<<3; m++ {
					var short []*big.Int
					for i := range w[:n] {
						keep := true
						for b := range zeros {
							// the last zeros first
							keep = keep && !(zeros[len(zeros)-1-b] == i && m>>uint(b)&1 == 1)
						}
						if keep {
							short = append(short, w[i])
						}
					}
					if err := x.mustReject(fmt.Sprintf("%s without some of its zeros: %s", showInts(w[:n]), showInts(short)), r.pk, pr, short); err != nil {
						return err
					}
				}
				if err := x.mustReject("an additional zero after zeros", r.pk, pr, append(copyInts(w[:n]), bi(0))); err != nil {
					return err
				}
			}
			return x.mustReject("the statement twice", r.pk, r.proof, append(copyInts(r.pub), r.pub...))
		})
		with("elements of the proof", func(r *instance) error {
			g1 := map[string]*bn256.G1{"infinity": new(bn256.G1).ScalarBaseMult(bi(0)), "generator": new(bn256.G1).ScalarBaseMult(bi(1)),
				"alpha": r.pk.G1.Alpha, "beta": r.pk.G1.Beta, "delta": r.pk.G1.Delta}
			g2 := map[string]*bn256.G2{"infinity": new(bn256.G2).ScalarBaseMult(bi(0)), "generator": new(bn256.G2).ScalarBaseMult(bi(1)),
				"beta": r.pk.G2.Beta, "gamma": r.pk.G2.Gamma, "delta": r.pk.G2.Delta}
			for i, v := range r.pk.G1.RLEO_Delta {
				g1[fmt.Sprintf("RLEO_Delta[%d]", i)] = v
			}
			for i, v := range r.pk.G1.RLEO_Gamma {
				g1[fmt.Sprintf("RLEO_Gamma[%d]", i)] = v
			}
			for i, v := range r.pk.G2.Rx {
				g2[fmt.Sprintf("Rx[%d]", i)] = v
			}
			g1["PiA"], g1["PiC"], g1["PiF"], g2["PiB"] = r.proof.PiA, r.proof.PiC, r.proof.PiF, r.proof.PiB
			for k, in := range ins[1:] {
				_, o, err := r.prove(p, in)
				if err != nil {
					return err
				}
				n := fmt.Sprintf(" of another proof %d", k)
				g1["PiA"+n], g1["PiC"+n], g1["PiF"+n], g2["PiB"+n] = o.PiA, o.PiC, o.PiF, o.PiB
			}
			own := map[string]*bn256.G1{"PiA": r.proof.PiA, "PiC": r.proof.PiC, "PiF": r.proof.PiF}
			for _, name := range []string{"PiA", "PiC", "PiF"} {
				cand := map[string]*bn256.G1{}
				for n, v := range g1 {
					cand[n] = v
				}
				o := own[name]
				cand["its negation"] = new(bn256.G1).Neg(o)
				cand["its double"] = new(bn256.G1).ScalarMult(o, bi(2))
				cand["its successor"] = new(bn256.G1).Add(o, g1["generator"])
				cand["its sum with alpha"] = new(bn256.G1).Add(o, r.pk.G1.Alpha)
				cand["its sum with delta"] = new(bn256.G1).Add(o, r.pk.G1.Delta)
				names := make([]string, 0)
				for n := range cand {
					names = append(names, n)
				}
				sortStrings(names)
				for _, n := range names {
					v := cand[n]
					if string(v.Marshal()) == string(o.Marshal()) {
						continue
					}
					alt := copyProof(r.proof)
					switch name {
					case "PiA":
						alt.PiA = v
					case "PiC":
						alt.PiC = v
					case "PiF":
						alt.PiF = v
					}
					if err := x.mustReject(name+" replaced by "+n, r.pk, alt, r.pub); err != nil {
						return err
					}
				}
			}
			o := r.proof.PiB
			g2["its negation"] = new(bn256.G2).ScalarMult(o, qm1)
			g2["its double"] = new(bn256.G2).ScalarMult(o, bi(2))
			g2["its successor"] = new(bn256.G2).Add(o, g2["generator"])
			g2["its sum with beta"] = new(bn256.G2).Add(o, r.pk.G2.Beta)
			names := make([]string, 0)
			for n := range g2 {
				names = append(names, n)
			}
			sortStrings(names)
			for _, n := range names {
				if string(g2[n].Marshal()) == string(o.Marshal()) {
					continue
				}
				alt := copyProof(r.proof)
				alt.PiB = g2[n]
				if err := x.mustReject("PiB replaced by "+n, r.pk, alt, r.pub); err != nil {
					return err
				}
			}
			for _, sw := range []string{"AC", "AF", "CF"} {
				alt := copyProof(r.proof)
				a, b := &alt.PiA, &alt.PiC
				if sw[0] == 'C' {
					a = &alt.PiC
				}
				if sw[1] == 'F' {
					b = &alt.PiF
				}
				*a, *b = *b, *a
				if proofBytes(alt) == proofBytes(r.proof) {
					continue
				}
				if err := x.mustReject("exchanged "+sw, r.pk, alt, r.pub); err != nil {
					return err
				}
			}
			// the untouched proof still verifies
			if ok, _ := verify(r.pk, r.proof, copyInts(r.pub)); !ok {
				return fmt.Errorf("the proof does not verify any more after the alterations")
			}
			return nil
		})
	}
}

func (x *X) foreignKey(same bool, a, b stmtProg) {
	if len(a.pub) != len(b.pub) {
		return
	}
	sa, sb := withPublic(a.p, a.pub).text(style{}), withPublic(b.p, b.pub).text(style{})
	for pi, p := range paths {
		if pi == 1 && !same && !x.Thorough {
			continue
		}
		pi, p := pi, p
		x.Case("foreign key "+p.name+"\n"+sa+"---\n"+sb, func() error {
			ia, ib := satisfying(a.p, 1), satisfying(b.p, 1)
			ra, err := makeInstance(a, p, ia[0], uint64(11+pi))
			if err != nil {
				return err
			}
			rb, err := makeInstance(b, p, ib[0], uint64(23+pi))
			if err != nil {
				return err
			}
			x.Trace(1)
			if err := x.mustReject("a proof under the key of another setup", rb.pk, ra.proof, ra.pub); err != nil {
				return err
			}
			return x.mustReject("a proof under the key of another setup, its statement", rb.pk, ra.proof, rb.pub)
		})
	}
}

// ---------------------------------------------------------------- C24

func c24(x *X) {
	corpus(x.Thorough, func(cp CP) {
		if cp.ext || cp.split && (!x.Thorough || cp.p.size() > 3) {
			return
		}
		pub := []string{"p"}
		src := withPublic(cp.p, pub).text(style{})
		x.Case(src, func() error {
			c, err := compile(src, false)
			if err != nil {
				return err
			}
			if c.dense.NumberOfGates == 0 {
				return nil
			}
			n := 1
			if cp.ops < 2 && cp.p.size() < 5 || x.Thorough {
				n = 3
			}
			for k, in := range satisfying(cp.p, n) {
				for pi, p := range paths {
					if cp.ops == 2 && !x.Thorough && pi != len(src)%2 {
						continue
					}
					if err := x.corruptWitness(cp, c, p, in, k == 0 && (c.dense.WitnessLength <= 6 || x.Thorough && c.dense.WitnessLength <= 10)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})
}

func (x *X) corruptWitness(cp CP, c *circuit, p path, in []*big.Int, pairs bool) error {
	s, rej, crash := p.setup(c, &counterReader{3})
	if rej != nil || crash != nil {
		return fmt.Errorf("%s setup: %v %v", p.name, rej, crash)
	}
	w, rej, crash := p.solve(c, copyInts(in))
	if rej != nil || crash != nil {
		return fmt.Errorf("%s solver on %s: %v %v", p.name, showInts(in), rej, crash)
	}
	try := func(a []*big.Int) error {
		ok := true
		for i := 0; i < c.dense.NumberOfGates && ok; i++ {
			ok = holds([4][]*big.Int{c.dense.L[i], c.dense.R[i], c.dense.E[i], c.dense.O[i]}, a)
		}
		x.Eval(1)
		x.Trans(c.dense.NumberOfGates)
		x.StateHash(hash64(showInts(a)))
		if ok {
			x.Count("changes that violate nothing", 1)
			return nil
		}
		x.Trace(1)
		pr, rej, crash := p.prove(c, &s.Pk, copyInts(a))
		if rej == nil && crash == nil && pr != nil {
			ver, _ := verify(&s.Pk, pr, copyInts(a[:c.npub]))
			return fmt.Errorf("the %s prover makes a proof of the unsatisfying assignment %s (honest: %s); verdict %v", p.name, clip(showInts(a)), clip(showInts(w)), ver)
		}
		x.Count("refusals", 1)
		x.Nontrivial(c.src + p.name)
		return nil
	}
	changes := func(v *big.Int, k int) (r []*big.Int) {
		for _, t := range []*big.Int{new(big.Int).Add(v, bi(1)), new(big.Int).Sub(v, bi(1)), bi(0), bi(1), bi(2), new(big.Int).Lsh(v, 1)}[:k] {
			if mod(t).Cmp(mod(v)) != 0 {
				r = append(r, mod(t))
			}
		}
		return
	}
	step := 1
	if cp.split {
		step = 37
	}
	for i := 0; i < len(w); i += step {
		x.Tick()
		for _, v := range changes(w[i], 6) {
			a := copyInts(w)
			a[i] = v
			if err := try(a); err != nil {
				return err
			}
			if !pairs {
				continue
			}
			for j := i + 1; j < len(w); j++ {
				for _, u := range changes(w[j], 3) {
					b := copyInts(a)
					b[j] = u
					if err := try(b); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}
