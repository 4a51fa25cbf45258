package main

// C18 group laws, C19 pairing, C20 encodings, C21 sampling.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

func init() {
	register("C18", c18)
	metas["C18"] = meta{
		rule: "register machine over each of the three groups: all histories of additions, negations, multiplications, base multiplications, encodings and decodings with every choice of (aliased or fresh) receiver and operands over 3 registers, from several start configurations (neutral element, generator, inverse, projective and affine representations); after each history every register is encoded and compared with the multiple computed in the exponent and by independent affine/extension field arithmetic. " +
			"All pairs of boundary scalars: base multiple, multiple of a multiple, sum, inverse, and the scalar unchanged. Non-trivial: histories whose last operation yields a non-neutral element",
		bounds:         "depth 2 with all operations in 3 start configurations (second group: no decoding as second operation), first source group also depth 3 with additions, negations, doublings and encodings in 2; 27 boundary scalars, all pairs in the first group, every third pair in the others",
		boundsThorough: "depth 3 with all operations over the first source group and with a reduced set over the second and the target group; 27 boundary scalars, all pairs",
		assumptions:    []string{"registers hold elements of the group (the package's ZeroGT is not a group element)"},
	}
	register("C19", c19)
	metas["C19"] = meta{
		rule: "all pairs (a,b) of boundary scalars in all representations of the two arguments (projective, affine, decoded, neutral element obtained in four ways): the pairing equals the power ab of the pairing of the generators computed by independent extension field arithmetic, the arguments are unchanged; additivity in both arguments; the product check over all lists of pairs up to the length bound against the sum of the products of the logarithms. " +
			"Non-trivial: distinct (a,b) with a nonzero product, distinct lists with at least one nonzero product",
		bounds:         "13 scalars and all pairs; 5 representations; product check over all lists of length 0..2 with logarithms {0,1,2,-1}x{0,1,-1}, of length 3 with {1,-1,0}x{1,2}, lists of 4 to 17 pairs balanced as a whole, with neutral pairs and off by one, and over lists with large logarithms",
		boundsThorough: "27 scalars and all pairs; lists of length 3 with logarithms {0,1,2,-1}x{0,1,-1}, lists of up to 66 pairs",
		assumptions:    []string{"bilinearity is checked on the enumerated scalars"},
	}
	register("C20", c20)
	metas["C20"] = meta{
		rule:        "every element of a set of multiples (neutral element, small and boundary multiples) in every representation: encoding equals the independently computed one, decoding into every kind of receiver gives the element back; every single bit flip of an encoding, every coordinate raised by the field modulus, every length from 0 to the double and all small coordinate pairs: accepted exactly when the bytes are a canonical encoding of a point of the group; points of the twist outside of the group refused. Non-trivial: distinct byte strings offered to a decoder",
		bounds:      "9 multiples, 4 receivers, all single bit flips of 3 encodings per group, x coordinates 0..40 (first group), {0..5}+{0..5}i (second group)",
		assumptions: []string{"decoding of the target group checks the length only, so only length and round trip are decided there"},
	}
	register("C21", c21)
	metas["C21"] = meta{
		rule:           "every script of read results up to the length bound (full, short, empty, failing with and without data, ending with and without data) over several byte contents (zeros, one, order-1, order, all ones, counting): the result is the same as for one undisturbed read of the same bytes, or the source's error when it fails before enough bytes arrived; nonzero, below the order, and the returned element is exactly that multiple. Failure injected at every read of a setup, of a witness with a randomizing constraint and of a field sample. Non-trivial: distinct (content, script) pairs",
		bounds:         "scripts of length 4 over 10 read results (6 at the last), 8 contents; every read position of setup and witness",
		boundsThorough: "scripts of length 5",
	}
}

type elem interface{}

type group struct {
	name      string
	base      func(e elem, k *big.Int) elem // e == nil: fresh receiver
	mult      func(e, a elem, k *big.Int) elem
	add       func(e, a, b elem) elem
	neg       func(e, a elem) elem // nil: not offered
	enc       func(e elem) []byte
	dec       func(e elem, m []byte) (elem, bool)
	ref       func(k *big.Int) []byte
	encLen    int
	afterwork func(e elem) // other readers
	affine    [3]elem
	zero      elem
}

var refGTgen *f12

func refGT(k *big.Int) []byte {
	if refGTgen == nil {
		g := decode12(bn256.Pair(new(bn256.G1).ScalarBaseMult(bi(1)), new(bn256.G2).ScalarBaseMult(bi(1))).Marshal())
		refGTgen = &g
	}
	e := new(big.Int).Mod(k, refOrder)
	s := e.String()
	v, ok := ref12[s]
	if !ok {
		// small and nearby exponents are cheap
		if n := new(big.Int).Sub(refOrder, e); n.BitLen() < 10 {
			inv, ok := ref12["inv"]
			if !ok {
				inv = refGTgen.pow(new(big.Int).Sub(refOrder, bi(1)))
				ref12["inv"] = inv
			}
			v = inv.pow(n)
		} else {
			v = refGTgen.pow(e)
		}
		ref12[s] = v
	}
	return encode12(v)
}

func groups() []*group {
	g1 := &group{name: "G1", encLen: 64,
		base: func(e elem, k *big.Int) elem {
			r, ok := e.(*bn256.G1)
			if !ok {
				r = new(bn256.G1)
			}
			return r.ScalarBaseMult(k)
		},
		mult: func(e, a elem, k *big.Int) elem {
			r, ok := e.(*bn256.G1)
			if !ok {
				r = new(bn256.G1)
			}
			return r.ScalarMult(a.(*bn256.G1), k)
		},
		add: func(e, a, b elem) elem {
			r, ok := e.(*bn256.G1)
			if !ok {
				r = new(bn256.G1)
			}
			return r.Add(a.(*bn256.G1), b.(*bn256.G1))
		},
		neg: func(e, a elem) elem {
			r, ok := e.(*bn256.G1)
			if !ok {
				r = new(bn256.G1)
			}
			return r.Neg(a.(*bn256.G1))
		},
		enc: func(e elem) []byte { return e.(*bn256.G1).Marshal() },
		dec: func(e elem, m []byte) (elem, bool) {
			r, ok := e.(*bn256.G1)
			if !ok {
				r = new(bn256.G1)
			}
			_, err := r.Unmarshal(m)
			return r, err == nil
		},
		ref:       func(k *big.Int) []byte { return encode1(ref1(k)) },
		afterwork: func(e elem) { e.(*bn256.G1).X(); _ = e.(*bn256.G1).String() },
	}
	g2 := &group{name: "G2", encLen: 128,
		base: func(e elem, k *big.Int) elem {
			r, ok := e.(*bn256.G2)
			if !ok {
				r = new(bn256.G2)
			}
			return r.ScalarBaseMult(k)
		},
		mult: func(e, a elem, k *big.Int) elem {
			r, ok := e.(*bn256.G2)
			if !ok {
				r = new(bn256.G2)
			}
			return r.ScalarMult(a.(*bn256.G2), k)
		},
		add: func(e, a, b elem) elem {
			r, ok := e.(*bn256.G2)
			if !ok {
				r = new(bn256.G2)
			}
			return r.Add(a.(*bn256.G2), b.(*bn256.G2))
		},
		enc: func(e elem) []byte { return e.(*bn256.G2).Marshal() },
		dec: func(e elem, m []byte) (elem, bool) {
			r, ok := e.(*bn256.G2)
			if !ok {
				r = new(bn256.G2)
			}
			_, err := r.Unmarshal(m)
			return r, err == nil
		},
		ref:       func(k *big.Int) []byte { return encode2(ref2(k)) },
		afterwork: func(e elem) { _ = e.(*bn256.G2).String() },
	}
	var gen, one *bn256.GT
	gt := &group{name: "GT", encLen: 384,
		base: func(e elem, k *big.Int) elem {
			if gen == nil {
				gen = bn256.Pair(new(bn256.G1).ScalarBaseMult(bi(1)), new(bn256.G2).ScalarBaseMult(bi(1)))
				one = bn256.OneGT()
			}
			r, ok := e.(*bn256.GT)
			if !ok {
				r = new(bn256.GT)
			}
			return r.ScalarMult(gen, k)
		},
		mult: func(e, a elem, k *big.Int) elem {
			r, ok := e.(*bn256.GT)
			if !ok {
				r = new(bn256.GT)
			}
			return r.ScalarMult(a.(*bn256.GT), k)
		},
		add: func(e, a, b elem) elem {
			r, ok := e.(*bn256.GT)
			if !ok {
				r = new(bn256.GT)
			}
			return r.Add(a.(*bn256.GT), b.(*bn256.GT))
		},
		neg: func(e, a elem) elem {
			r, ok := e.(*bn256.GT)
			if !ok {
				r = new(bn256.GT)
			}
			return r.Neg(a.(*bn256.GT))
		},
		enc: func(e elem) []byte { return e.(*bn256.GT).Marshal() },
		dec: func(e elem, m []byte) (elem, bool) {
			r, ok := e.(*bn256.GT)
			if !ok {
				r = new(bn256.GT)
			}
			v, ok := r.Unmarshal(m)
			if !ok {
				return nil, false
			}
			return v, true
		},
		ref:       refGT,
		afterwork: func(e elem) { _ = e.(*bn256.GT).String() },
	}
	_ = one
	return []*group{g1, g2, gt}
}

func (g *group) copyOf(k int64) elem {
	e, ok := g.dec(nil, g.ref(bi(k)))
	if !ok {
		panic("decoding a reference element of " + g.name + " failed")
	}
	return e
}

var boundaryScalars = func() (r []*big.Int) {
	q := refOrder
	one := bi(1)
	add := func(v *big.Int) { r = append(r, v) }
	for i := int64(0); i < 4; i++ {
		add(bi(i))
	}
	add(new(big.Int).Sub(q, one))
	add(new(big.Int).Set(q))
	add(new(big.Int).Add(q, one))
	add(new(big.Int).Rsh(q, 1))
	add(new(big.Int).Add(new(big.Int).Rsh(q, 1), one))
	add(new(big.Int).Lsh(one, 64))
	add(new(big.Int).Sub(new(big.Int).Lsh(one, 64), one))
	add(new(big.Int).Sub(new(big.Int).Lsh(one, 128), one))
	add(new(big.Int).Lsh(one, 253))
	add(bi(-1))
	add(bi(5))
	add(bi(7))
	add(new(big.Int).Lsh(one, 63))
	add(new(big.Int).Lsh(one, 128))
	add(new(big.Int).Sub(new(big.Int).Lsh(one, 254), one))
	add(new(big.Int).Sub(new(big.Int).Lsh(one, 256), one))
	add(new(big.Int).Sub(q, bi(2)))
	add(new(big.Int).Lsh(q, 1))
	add(new(big.Int).Sub(new(big.Int).Lsh(q, 1), one))
	add(new(big.Int).Neg(q))
	add(new(big.Int).Neg(new(big.Int).Lsh(one, 64)))
	add(decstr("19874387438743874387438743874387438743874387438743874387438743874387438743"))
	add(decstr("-9438743874387438743874387438743874387438743874387438743874387"))
	return
}()

type gop struct {
	name    string
	i, j, k int // operands i, j, receiver k; k < 0: fresh receiver replaces register -k-1
	s       int64
}

func (o gop) String() string {
	k := fmt.Sprintf("r%d", o.k)
	if o.k < 0 {
		k = fmt.Sprintf("r%d:new", -o.k-1)
	}
	switch o.name {
	case "add":
		return fmt.Sprintf("%s.add(r%d,r%d)", k, o.i, o.j)
	case "neg":
		return fmt.Sprintf("%s.neg(r%d)", k, o.i)
	case "mult":
		return fmt.Sprintf("%s.mult(r%d,%d)", k, o.i, o.s)
	case "base":
		return fmt.Sprintf("%s.base(%d)", k, o.s)
	case "enc":
		return fmt.Sprintf("enc(r%d)", o.i)
	case "read":
		return fmt.Sprintf("read(r%d)", o.i)
	}
	return fmt.Sprintf("%s.dec(enc(r%d))", k, o.i)
}

func groupOps(g *group, full, fresh, dec bool) (r []gop) {
	for k := 0; k < 3; k++ {
		ks := []int{k}
		if fresh {
			ks = append(ks, -k-1)
		}
		for _, kk := range ks {
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					r = append(r, gop{name: "add", i: i, j: j, k: kk})
				}
				if g.neg != nil {
					r = append(r, gop{name: "neg", i: i, k: kk})
				}
				ss := []int64{2}
				if full {
					ss = []int64{0, 1, 2, 3, -1, -2}
				}
				for _, s := range ss {
					r = append(r, gop{name: "mult", i: i, k: kk, s: s})
				}
				if dec {
					r = append(r, gop{name: "dec", i: i, k: kk})
				}
			}
			if full {
				for _, s := range []int64{0, 1, -2} {
					r = append(r, gop{name: "base", k: kk, s: s})
				}
			}
		}
		r = append(r, gop{name: "enc", i: k})
		if full {
			r = append(r, gop{name: "read", i: k})
		}
	}
	return
}

// applyOp executes one operation on the real registers and on the exponents
func applyOp(g *group, r *[3]elem, m *[3]int64, o gop) {
	k := o.k
	var recv elem
	if k < 0 {
		k = -k - 1
	} else {
		recv = r[k]
	}
	switch o.name {
	case "add":
		e := g.add(recv, r[o.i], r[o.j])
		m[k] = m[o.i] + m[o.j]
		r[k] = e
	case "neg":
		r[k] = g.neg(recv, r[o.i])
		m[k] = -m[o.i]
	case "mult":
		s := bi(o.s)
		r[k] = g.mult(recv, r[o.i], s)
		m[k] = m[o.i] * o.s
		if s.Cmp(bi(o.s)) != 0 {
			panic("scalar changed")
		}
	case "base":
		r[k] = g.base(recv, bi(o.s))
		m[k] = o.s
	case "enc":
		g.enc(r[o.i])
	case "read":
		g.afterwork(r[o.i])
	case "dec":
		e, ok := g.dec(recv, g.enc(r[o.i]))
		if !ok {
			panic("decoding an encoded element failed: " + o.String())
		}
		r[k] = e
		m[k] = m[o.i]
	}
}

func (g *group) start(c int) (r [3]elem, m [3]int64) {
	switch c {
	case 0: // projective: generator, neutral element, inverse of the generator
		r = [3]elem{g.base(nil, bi(1)), g.base(nil, bi(0)), g.base(nil, bi(-1))}
		m = [3]int64{1, 0, -1}
	case 1: // projective small multiples
		r = [3]elem{g.base(nil, bi(2)), g.base(nil, bi(3)), g.base(nil, bi(5))}
		m = [3]int64{2, 3, 5}
	case 2: // affine, decoded; the neutral element decoded
		if g.affine[0] == nil {
			g.affine = [3]elem{g.copyOf(1), g.copyOf(0), g.copyOf(-2)}
			g.zero = g.base(nil, bi(0))
		}
		for i, e := range g.affine { // adding the neutral element is a cheap copy
			r[i] = g.add(nil, e, g.zero)
		}
		m = [3]int64{1, 0, -2}
	}
	return
}

func c18(x *X) {
	for _, g := range groups() {
		g := g
		full := groupOps(g, true, true, true)
		small := groupOps(g, false, false, false)
		run := func(st int, seq []gop) error {
			r, m := g.start(st)
			for _, o := range seq {
				applyOp(g, &r, &m, o)
			}
			x.Eval(1)
			x.Trans(len(seq))
			for i := range r {
				if got, want := g.enc(r[i]), g.ref(bi(m[i])); !bytes.Equal(got, want) {
					return fmt.Errorf("start %d, history %v: register r%d should be %d times the generator (%x), its encoding is %x", st, seq, i, m[i], want, got)
				}
			}
			x.State(fmt.Sprintf("%s %v", g.name, m))
			last := seq[len(seq)-1]
			if k := last.k; k >= 0 && m[k] != 0 {
				x.Nontrivial(fmt.Sprintf("%s %d %v", g.name, st, seq))
			}
			return nil
		}
		for st := 0; st < 3; st++ {
			for _, a := range full {
				st, a := st, a
				x.Case(fmt.Sprintf("%s start %d, %v then every operation", g.name, st, a), func() error {
					if err := run(st, []gop{a}); err != nil {
						return err
					}
					for _, b := range full {
						if b.name == "dec" && g.name == "G2" && !x.Thorough {
							continue
						}
						if err := run(st, []gop{a, b}); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
		deep := small
		if x.Thorough && g.name == "G1" {
			deep = groupOps(g, true, false, true)
		}
		if !x.Thorough && g.name != "G1" {
			continue
		}
		for st := 0; st < 2; st++ {
			for _, a := range deep {
				for _, b := range deep {
					st, a, b := st, a, b
					x.Case(fmt.Sprintf("%s start %d, %v %v then every operation of the reduced set", g.name, st, a, b), func() error {
						for _, c := range deep {
							if err := run(st, []gop{a, b, c}); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	for _, g := range groups() {
		g := g
		for ai, a := range boundaryScalars {
			ai, a := ai, a
			x.Case(fmt.Sprintf("%s scalar %v with every boundary scalar", g.name, a), func() error {
				k := new(big.Int).Set(a)
				p := g.base(nil, k)
				if k.Cmp(a) != 0 {
					return fmt.Errorf("base multiplication changed its scalar %v to %v", a, k)
				}
				eq := func(what string, e elem, k *big.Int) error {
					x.Eval(1)
					x.Trans(1)
					if got, want := g.enc(e), g.ref(k); !bytes.Equal(got, want) {
						return fmt.Errorf("%s: %s is %x, expected %x", g.name, what, got, want)
					}
					return nil
				}
				pa, ok := g.dec(nil, g.ref(a))
				if !ok {
					return fmt.Errorf("decoding %v*G failed", a)
				}
				x.Nontrivial(g.name + a.String())
				for bj, b := range boundaryScalars {
					x.Tick()
					if g.name != "G1" && !x.Thorough && (ai+bj)%3 != 0 {
						continue
					}
					// every other pair starts from the decoded element instead of the projective one
					src := p
					if bj%2 == 1 {
						src = pa
					}
					kb := new(big.Int).Set(b)
					ab := g.mult(nil, src, kb)
					if kb.Cmp(b) != 0 {
						return fmt.Errorf("multiplication changed its scalar %v to %v", b, kb)
					}
					if err := eq(fmt.Sprintf("(%v*G)*%v", a, b), ab, new(big.Int).Mul(a, b)); err != nil {
						return err
					}
					s := g.add(nil, src, g.base(nil, b))
					if err := eq(fmt.Sprintf("%v*G+%v*G", a, b), s, new(big.Int).Add(a, b)); err != nil {
						return err
					}
					if g.neg != nil {
						if err := eq(fmt.Sprintf("-(%v*G+%v*G)", a, b), g.neg(s, s), new(big.Int).Neg(new(big.Int).Add(a, b))); err != nil {
							return err
						}
					}
				}
				return eq(fmt.Sprintf("%v*G after its use as operand", a), p, a)
			})
		}
	}
	x.Case("the target group", func() error {
		one := bn256.OneGT()
		if !bytes.Equal(one.Marshal(), encode12(f12one())) {
			return fmt.Errorf("the neutral element of the target group is %x", one.Marshal())
		}
		refGT(bi(1))
		if refGTgen.eq(f12one()) || !refGTgen.pow(refOrder).eq(f12one()) {
			return fmt.Errorf("the pairing of the generators does not have the group order")
		}
		return nil
	})
	x.Case("the generators", func() error {
		if !bytes.Equal(new(bn256.G1).ScalarBaseMult(bi(1)).Marshal(), encode1(refGen)) {
			return fmt.Errorf("unexpected generator of the first group")
		}
		if !bytes.Equal(new(bn256.G2).ScalarBaseMult(bi(1)).Marshal(), encode2(refGen2)) || !refGen2.onCurve() {
			return fmt.Errorf("unexpected generator of the second group")
		}
		return nil
	})
}

// representations of k times the generator
var repNames = []string{"projective", "affine", "decoded", "sum", "reused"}

func g1rep(k *big.Int, rep int) *bn256.G1 {
	switch rep {
	case 0:
		return new(bn256.G1).ScalarBaseMult(k)
	case 1:
		r := new(bn256.G1).ScalarBaseMult(k)
		r.Marshal()
		return r
	case 2:
		r := new(bn256.G1)
		if _, err := r.Unmarshal(encode1(ref1(k))); err != nil {
			panic(err)
		}
		return r
	case 3: // (k-5)G + 5G; the neutral element as sum of inverses
		return new(bn256.G1).Add(new(bn256.G1).ScalarBaseMult(new(big.Int).Sub(k, bi(5))), new(bn256.G1).ScalarBaseMult(bi(5)))
	}
	r := new(bn256.G1).ScalarBaseMult(bi(0))
	r.Add(r, new(bn256.G1).ScalarBaseMult(bi(2)))
	return r.ScalarMult(new(bn256.G1).ScalarBaseMult(bi(1)), k)
}
func g2rep(k *big.Int, rep int) *bn256.G2 {
	switch rep {
	case 0:
		return new(bn256.G2).ScalarBaseMult(k)
	case 1:
		r := new(bn256.G2).ScalarBaseMult(k)
		r.Marshal()
		return r
	case 2:
		r := new(bn256.G2)
		if _, err := r.Unmarshal(encode2(ref2(k))); err != nil {
			panic(err)
		}
		return r
	case 3:
		return new(bn256.G2).Add(new(bn256.G2).ScalarBaseMult(new(big.Int).Sub(k, bi(5))), new(bn256.G2).ScalarBaseMult(bi(5)))
	}
	r := new(bn256.G2).ScalarBaseMult(bi(0))
	r.Add(r, new(bn256.G2).ScalarBaseMult(bi(2)))
	return r.ScalarMult(new(bn256.G2).ScalarBaseMult(bi(1)), k)
}

func c19(x *X) {
	sc := boundaryScalars[:13]
	if x.Thorough {
		sc = boundaryScalars
	}
	pair := func(a, b *big.Int, ra, rb int) error {
		p, q := g1rep(a, ra), g2rep(b, rb)
		e := bn256.Pair(p, q)
		x.Eval(1)
		x.Trans(1)
		if got, want := e.Marshal(), refGT(new(big.Int).Mul(a, b)); !bytes.Equal(got, want) {
			return fmt.Errorf("e(%v*G [%s], %v*H [%s]) is not the power %v of e(G,H): %x instead of %x", a, repNames[ra], b, repNames[rb], new(big.Int).Mul(a, b), got, want)
		}
		if !bytes.Equal(p.Marshal(), encode1(ref1(a))) || !bytes.Equal(q.Marshal(), encode2(ref2(b))) {
			return fmt.Errorf("pairing changed its arguments (%v [%s], %v [%s])", a, repNames[ra], b, repNames[rb])
		}
		if mod(new(big.Int).Mul(a, b)).Sign() != 0 {
			x.Nontrivial(fmt.Sprint(a, b))
		}
		return nil
	}
	x.Case("non-degenerate", func() error {
		refGT(bi(1))
		if refGTgen.eq(f12one()) {
			return fmt.Errorf("the pairing of the generators is one")
		}
		if !refGTgen.pow(refOrder).eq(f12one()) {
			return fmt.Errorf("the pairing of the generators is not of the group order")
		}
		return nil
	})
	for i, a := range sc {
		for j, b := range sc {
			a, b, i, j := a, b, i, j
			x.Case(fmt.Sprintf("e(%v*G,%v*H)", a, b), func() error {
				return pair(a, b, (i+j)%5, (i+2*j)%5)
			})
		}
	}
	for _, a := range []int64{0, 1, -1, 2} {
		for _, b := range []int64{0, 1, -1, 3} {
			a, b := a, b
			x.Case(fmt.Sprintf("e(%d*G,%d*H) in all representations", a, b), func() error {
				for ra := 0; ra < 5; ra++ {
					for rb := 0; rb < 5; rb++ {
						if err := pair(bi(a), bi(b), ra, rb); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	// the same element on which it was paired before is used again, in any order
	x.Case("repeated pairings of the same elements", func() error {
		p, q := g1rep(bi(3), 0), g2rep(bi(4), 0)
		first := bn256.Pair(p, q).Marshal()
		for n := 0; n < 3; n++ {
			if !bytes.Equal(first, bn256.Pair(p, q).Marshal()) || !bytes.Equal(first, refGT(bi(12))) {
				return fmt.Errorf("repeated pairing gave another result")
			}
			p.Marshal()
			q.Marshal()
			x.Eval(1)
		}
		return nil
	})
	type ab struct{ a, b int64 }
	var logs, logs3 []ab
	for _, a := range []int64{0, 1, 2, -1} {
		for _, b := range []int64{0, 1, -1} {
			logs = append(logs, ab{a, b})
		}
	}
	for _, a := range []int64{1, -1, 0} {
		for _, b := range []int64{1, 2} {
			logs3 = append(logs3, ab{a, b})
		}
	}
	if x.Thorough {
		logs3 = logs
	}
	check := func(l []ab, shift int) error {
		var as []*bn256.G1
		var bs []*bn256.G2
		sum := int64(0)
		for i, p := range l {
			as = append(as, g1rep(bi(p.a), (i+shift)%5))
			bs = append(bs, g2rep(bi(p.b), (i+2*shift)%5))
			sum += p.a * p.b
		}
		got := bn256.PairingCheck(as, bs)
		x.Eval(1)
		x.Trans(len(l))
		if got != (sum == 0) {
			return fmt.Errorf("the product check over the logarithms %v says %v, their products sum to %d", l, got, sum)
		}
		for i, p := range l {
			if !bytes.Equal(as[i].Marshal(), encode1(ref1(bi(p.a)))) || !bytes.Equal(bs[i].Marshal(), encode2(ref2(bi(p.b)))) {
				return fmt.Errorf("the product check over %v changed argument %d", l, i)
			}
		}
		if got2 := bn256.PairingCheck(as, bs); got2 != got {
			return fmt.Errorf("the product check over %v answered %v, then %v", l, got, got2)
		}
		for _, p := range l {
			if p.a*p.b != 0 {
				x.Nontrivial(fmt.Sprint(l))
			}
		}
		return nil
	}
	x.Case("product check over the empty list", func() error { return check(nil, 0) })
	for i, p := range logs {
		i, p := i, p
		x.Case(fmt.Sprintf("product check %v and every second pair", p), func() error {
			for s := 0; s < 5; s++ {
				if err := check([]ab{p}, s); err != nil {
					return err
				}
			}
			for j, q := range logs {
				if err := check([]ab{p, q}, i+j); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for _, p := range logs3 {
		for j, q := range logs3 {
			p, q, j := p, q, j
			x.Case(fmt.Sprintf("product check %v %v and every third pair", p, q), func() error {
				for k, r := range logs3 {
					if err := check([]ab{p, q, r}, j+k); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// long lists: balanced only as a whole, with neutral pairs anywhere, and off by one pair anywhere
	most := 17
	if x.Thorough {
		most = 66
	}
	for n := 4; n <= most; n++ {
		n := n
		x.Case(fmt.Sprintf("product checks over lists of %d pairs", n), func() error {
			long := func(gap int) (l []ab) {
				sum := int64(0)
				for i := 1; i < n; i++ {
					p := ab{int64(i), int64(i%3 + 1)}
					if gap > 0 && i%gap == 0 {
						p = ab{int64(i % 2), 0}
					}
					l = append(l, p)
					sum += p.a * p.b
				}
				return append(l, ab{-sum, 1})
			}
			for _, gap := range []int{0, 2, 3, 4} {
				if err := check(long(gap), n); err != nil {
					return err
				}
			}
			for i := 0; i < n; i += 1 + n/6 {
				l := long(0)
				l[i].a++
				if err := check(l, i); err != nil {
					return err
				}
				l = append(l[i+1:], l[:i]...) // off by one pair that is missing
				if err := check(l, i); err != nil {
					return err
				}
				l = long(0)
				l[0], l[i], l[n-1] = l[i], l[n-1], l[0]
				if err := check(l, i); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for i, a := range sc {
		i, a := i, a
		x.Case(fmt.Sprintf("product check with the large logarithm %v", a), func() error {
			for j, b := range sc {
				if !x.Thorough && (i+j)%3 != 0 {
					continue
				}
				x.Tick()
				n := mod(new(big.Int).Neg(new(big.Int).Mul(a, b)))
				for d := int64(0); d < 2; d++ {
					k := new(big.Int).Add(n, bi(d))
					got := bn256.PairingCheck([]*bn256.G1{g1rep(a, i%5), g1rep(k, j%5)}, []*bn256.G2{g2rep(b, j%5), g2rep(bi(1), i%5)})
					x.Eval(1)
					x.Trans(2)
					if got != (d == 0) {
						return fmt.Errorf("the product check over (%v,%v),(%v,1) says %v", a, b, k, got)
					}
				}
				x.Nontrivial(fmt.Sprint("large", a, b))
			}
			return nil
		})
	}
}

func c20(x *X) {
	multiples := []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(-1), bi(-2), new(big.Int).Rsh(refOrder, 1), new(big.Int).Lsh(bi(1), 200), decstr("987654321987654321987654321")}
	for _, g := range groups() {
		g := g
		receivers := func() map[string]elem {
			m := map[string]elem{"fresh": nil, "projective": g.base(nil, bi(7)), "neutral": g.base(nil, bi(0)), "decoded": g.copyOf(3), "decoded neutral": g.copyOf(0)}
			bad := g.copyOf(5)
			b := g.ref(bi(1))
			b[5] ^= 1
			g.dec(bad, b)
			m["after a failed decoding"] = bad
			return m
		}
		for _, k := range multiples {
			k := k
			x.Case(fmt.Sprintf("%s round trip of %v", g.name, k), func() error {
				want := g.ref(k)
				for rep, e := range []elem{g.base(nil, k), g.mult(nil, g.copyOf(1), k), g.add(nil, g.base(nil, new(big.Int).Sub(k, bi(1))), g.copyOf(1))} {
					x.Eval(1)
					x.Trans(1)
					if got := g.enc(e); !bytes.Equal(got, want) {
						return fmt.Errorf("encoding of %v (way %d) is %x, expected %x", k, rep, got, want)
					}
					if got := g.enc(e); !bytes.Equal(got, want) {
						return fmt.Errorf("second encoding of %v (way %d) differs", k, rep)
					}
				}
				for name := range receivers() {
					rs := receivers()
					m := append([]byte{}, want...)
					e, ok := g.dec(rs[name], m)
					x.Eval(1)
					x.Trans(1)
					if !ok {
						return fmt.Errorf("decoding of %v into a %s receiver failed", k, name)
					}
					if !bytes.Equal(m, want) {
						return fmt.Errorf("decoding changed the bytes")
					}
					for i := range m {
						m[i] = 0xff // the element must not share the caller's bytes
					}
					if got := g.enc(e); !bytes.Equal(got, want) {
						return fmt.Errorf("%v decoded into a %s receiver encodes to %x, expected %x", k, name, got, want)
					}
					// the decoded element works as an operand
					if got := g.enc(g.add(nil, e, g.base(nil, bi(4)))); !bytes.Equal(got, g.ref(new(big.Int).Add(k, bi(4)))) {
						return fmt.Errorf("%v decoded into a %s receiver plus 4 gives %x", k, name, got)
					}
					if got := g.enc(g.mult(nil, e, bi(3))); !bytes.Equal(got, g.ref(new(big.Int).Mul(k, bi(3)))) {
						return fmt.Errorf("%v decoded into a %s receiver times 3 gives %x", k, name, got)
					}
				}
				return nil
			})
		}
		x.Case(g.name+" wrong lengths", func() error {
			for n := 0; n <= 2*g.encLen; n++ {
				if n == g.encLen {
					continue
				}
				for _, fill := range []int{0, 1} {
					b := make([]byte, n)
					if fill == 1 {
						copy(b, append(g.ref(bi(2)), g.ref(bi(3))...))
					}
					x.Eval(1)
					x.Trans(1)
					x.Nontrivial(fmt.Sprint(g.name, n, fill))
					if _, ok := g.dec(nil, b); ok {
						return fmt.Errorf("%d bytes were decoded as an element of %s", n, g.name)
					}
					if _, ok := g.dec(g.copyOf(3), b); ok {
						return fmt.Errorf("%d bytes were decoded as an element of %s", n, g.name)
					}
				}
			}
			return nil
		})
	}
	gs := groups()
	p256 := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	valid1 := func(b []byte) bool {
		px, py := p256(b[:32]), p256(b[32:])
		if px.Cmp(refP) >= 0 || py.Cmp(refP) >= 0 {
			return false
		}
		return px.Sign() == 0 && py.Sign() == 0 || affine{px, py}.onCurve()
	}
	valid2 := func(b []byte) bool {
		var v []*big.Int
		z := true
		for i := 0; i < 4; i++ {
			c := p256(b[32*i : 32*i+32])
			if c.Cmp(refP) >= 0 {
				return false
			}
			z = z && c.Sign() == 0
			v = append(v, c)
		}
		p := affine2{x: f2{v[1], v[0]}, y: f2{v[3], v[2]}}
		return z || p.onCurve() && aff2Mul(p, refOrder).inf
	}
	valids := []func([]byte) bool{valid1, valid2}
	try := func(gi int, b []byte) error {
		g := gs[gi]
		e, ok := g.dec(nil, append([]byte{}, b...))
		x.Eval(1)
		x.Trans(1)
		x.Nontrivial(g.name + string(b))
		want := valids[gi](b)
		if ok != want {
			return fmt.Errorf("%s: decoding of %x accepted=%v, it is a canonical encoding of an element: %v", g.name, b, ok, want)
		}
		if ok {
			if got := g.enc(e); !bytes.Equal(got, b) {
				return fmt.Errorf("%s: %x was decoded to an element that encodes to %x", g.name, b, got)
			}
		}
		return nil
	}
	for gi := 0; gi < 2; gi++ {
		gi := gi
		g := gs[gi]
		for _, k := range []*big.Int{bi(1), bi(0), decstr("987654321987654321987654321")} {
			enc := g.ref(k)
			k := k
			for byt := 0; byt < g.encLen; byt++ {
				byt := byt
				x.Case(fmt.Sprintf("%s encoding of %v with a bit of byte %d flipped", g.name, k, byt), func() error {
					for bit := 0; bit < 8; bit++ {
						b := append([]byte{}, enc...)
						b[byt] ^= 1 << bit
						if err := try(gi, b); err != nil {
							return err
						}
					}
					return nil
				})
			}
			for c := 0; c < g.encLen/32; c++ {
				c := c
				x.Case(fmt.Sprintf("%s encoding of %v with coordinate %d changed by the modulus", g.name, k, c), func() error {
					v := p256(enc[32*c : 32*c+32])
					for _, w := range []*big.Int{new(big.Int).Add(v, refP), new(big.Int).Add(v, new(big.Int).Lsh(refP, 1)), new(big.Int).Set(refP), new(big.Int).Sub(refP, v), bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
						if w.BitLen() > 256 {
							continue
						}
						b := append([]byte{}, enc...)
						w.FillBytes(b[32*c : 32*c+32])
						if err := try(gi, b); err != nil {
							return err
						}
					}
					return nil
				})
			}
			x.Case(fmt.Sprintf("%s encoding of %v with coordinates exchanged", g.name, k), func() error {
				n := g.encLen / 32
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						b := append([]byte{}, enc...)
						copy(b[32*i:32*i+32], enc[32*j:32*j+32])
						copy(b[32*j:32*j+32], enc[32*i:32*i+32])
						if err := try(gi, b); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	x.Case("G1 points with small x coordinates", func() error {
		for i := int64(0); i <= 40; i++ {
			v := new(big.Int).Exp(bi(i), bi(3), refP)
			v.Add(v, bi(3))
			y := new(big.Int).ModSqrt(v, refP)
			if y == nil {
				y = bi(i)
			}
			for _, w := range []*big.Int{y, mp(new(big.Int).Neg(y)), mp(new(big.Int).Add(y, bi(1)))} {
				if err := try(0, enc32(bi(i), w)); err != nil {
					return err
				}
			}
		}
		return nil
	})
	cof := new(big.Int).Sub(new(big.Int).Lsh(refP, 1), refOrder) // cofactor of the second group: 2p-n
	for a := int64(0); a <= 5; a++ {
		for b := int64(0); b <= 5; b++ {
			a, b := a, b
			x.Case(fmt.Sprintf("G2 points with x coordinate %d+%di", a, b), func() error {
				px := f2of(a, b)
				py, ok := px.mul(px).mul(px).add(refTwistB).sqrt()
				if !ok {
					return try(1, enc32(px.b, px.a, bi(1), bi(2)))
				}
				x.Count("twist points outside of the group offered", 1)
				for _, w := range []f2{py, py.neg(), py.add(f2of(1, 0)), {py.b, py.a}} {
					if err := try(1, enc32(px.b, px.a, w.b, w.a)); err != nil {
						return err
					}
				}
				// clearing the cofactor gives an element of the group, which has to be accepted
				r := aff2Mul(affine2{x: px, y: py}, cof)
				if r.inf || !aff2Mul(r, refOrder).inf {
					return fmt.Errorf("reference arithmetic inconsistent")
				}
				if !valid2(encode2(r)) {
					return fmt.Errorf("reference arithmetic inconsistent")
				}
				return try(1, encode2(r))
			})
		}
	}
}

// ---------------------------------------------------------------- C21

var errSource = errors.New("source of randomness failed")

// scriptReader hands out its content in the pieces the script demands. After the script it reads fully or fails.
type scriptReader struct {
	content  func(i int) byte
	pos      int
	script   []byte // F full, 1 one byte, h half, z zero bytes, e error, p part then error, f full with error
	step     int
	failAll  bool // after the script
	failed   bool
	reads    int
	consumed int
}

func (r *scriptReader) Read(b []byte) (int, error) {
	r.reads++
	c := byte('F')
	if r.step < len(r.script) {
		c = r.script[r.step]
		r.step++
	} else if r.failAll {
		c = 'e'
		if k := len(r.script); k > 0 && strings.IndexByte("EPu1", r.script[k-1]) >= 0 {
			c = 'E'
		}
	}
	n := len(b)
	var err error
	switch c {
	case '1':
		if n > 1 {
			n = 1
		}
	case 'h':
		n = (n + 1) / 2
	case 'z':
		n = 0
	case 'e':
		n, err = 0, errSource
	case 'p':
		n, err = n/2, errSource
	case 'E':
		n, err = 0, io.EOF
	case 'P':
		n, err = n/2, io.EOF
	case 'u':
		n, err = (n+2)/3, io.ErrUnexpectedEOF
	case 'd': // everything that was asked for, and the end of the source
		err = io.EOF
	}
	for i := 0; i < n; i++ {
		b[i] = r.content(r.pos)
		r.pos++
	}
	if err != nil {
		r.failed = true
	}
	return n, err
}

func contents() map[string]func(int) byte {
	block := func(v *big.Int, then func(int) byte) func(int) byte {
		b := enc32(v)
		return func(i int) byte {
			if i < 32 {
				return b[i]
			}
			return then(i)
		}
	}
	count := func(i int) byte { return byte(i*7 + 3) }
	low := func(i int) byte {
		if i%32 == 0 {
			return 0x10
		}
		return byte(i)
	}
	return map[string]func(int) byte{
		"counting":            count,
		"zero block first":    block(bi(0), low),
		"one first":           block(bi(1), low),
		"order-1 first":       block(new(big.Int).Sub(refOrder, bi(1)), low),
		"order first":         block(refOrder, low),
		"all ones first":      block(new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)), low),
		"order with top bits": block(new(big.Int).Add(refOrder, new(big.Int).Lsh(bi(3), 254)), low),
		"zero blocks thrice": func(i int) byte {
			if i < 96 {
				return 0
			}
			return low(i)
		},
	}
}

type sample struct {
	k   *big.Int
	enc string
	err error
}

func c21(x *X) {
	order := new(big.Int).Set(refOrder)
	samplers := []struct {
		name string
		f    func(r io.Reader) (sample, error)
	}{
		{"RandomG1", func(r io.Reader) (s sample, bad error) {
			k, p, err := bn256.RandomG1(r)
			if err != nil {
				return sample{err: err}, nil
			}
			if k == nil || p == nil {
				return s, fmt.Errorf("neither a result nor an error")
			}
			if k.Sign() <= 0 || k.Cmp(order) >= 0 {
				return s, fmt.Errorf("the scalar %v is not in the range 1..order-1", k)
			}
			if !bytes.Equal(p.Marshal(), encode1(ref1(k))) {
				return s, fmt.Errorf("the element is not the multiple %v of the generator", k)
			}
			return sample{k: k, enc: string(p.Marshal())}, nil
		}},
		{"RandomG2", func(r io.Reader) (s sample, bad error) {
			k, p, err := bn256.RandomG2(r)
			if err != nil {
				return sample{err: err}, nil
			}
			if k == nil || p == nil {
				return s, fmt.Errorf("neither a result nor an error")
			}
			if k.Sign() <= 0 || k.Cmp(order) >= 0 {
				return s, fmt.Errorf("the scalar %v is not in the range 1..order-1", k)
			}
			if !bytes.Equal(p.Marshal(), encode2(ref2(k))) {
				return s, fmt.Errorf("the element is not the multiple %v of the generator", k)
			}
			return sample{k: k, enc: string(p.Marshal())}, nil
		}},
		{"Fq.Rand", func(r io.Reader) (s sample, bad error) {
			var k *big.Int
			var err error
			withRand(r, func() { k, err = ordField().Rand() })
			if err != nil {
				return sample{err: err}, nil
			}
			if k == nil {
				return s, fmt.Errorf("neither a result nor an error")
			}
			if k.Sign() < 0 || k.Cmp(order) >= 0 {
				return s, fmt.Errorf("the sample %v is not a canonical field element", k)
			}
			return sample{k: k}, nil
		}},
	}
	depth := 4
	if x.Thorough {
		depth = 5
	}
	alphabet := []byte("F1hzepEPud")
	var names []string
	cs := contents()
	for n := range cs {
		names = append(names, n)
	}
	sortStrings(names)
	for _, s := range samplers {
		for _, cn := range names {
			s, cn, content := s, cn, cs[cn]
			for _, first := range alphabet {
				first := first
				x.Case(fmt.Sprintf("%s from the content %q, scripts starting with %c", s.name, cn, first), func() error {
					ref := &scriptReader{content: content}
					want, err := s.f(ref)
					if err != nil {
						return err
					}
					if want.err != nil {
						return fmt.Errorf("an undisturbed source, but the error %v", want.err)
					}
					need := ref.pos
					one := func(script []byte, failAll bool) error {
						r := &scriptReader{content: content, script: script, failAll: failAll}
						got, err := s.f(r)
						x.Eval(1)
						x.Trans(r.reads)
						x.State(fmt.Sprintf("%s %s %d %v", s.name, cn, r.pos, r.failed))
						if err != nil {
							return fmt.Errorf("script %q, then failing %v: %v", script, failAll, err)
						}
						if got.err != nil {
							if !r.failed && bytes.IndexByte(script, 'z') < 0 {
								return fmt.Errorf("script %q: the source never failed, but the error %v was returned", script, got.err)
							}
							return nil
						}
						if r.pos < need {
							return fmt.Errorf("script %q: the source failed after %d of %d bytes, but %v was returned", script, r.pos, need, got.k)
						}
						if got.k.Cmp(want.k) != 0 || got.enc != want.enc {
							return fmt.Errorf("script %q: the same bytes gave %v and %v, depending on how they were read", script, want.k, got.k)
						}
						x.Nontrivial(s.name + cn + string(script))
						return nil
					}
					script := make([]byte, depth)
					script[0] = first
					var rec func(n int) error
					rec = func(n int) error {
						if s.name == "RandomG2" && n > 2 && !x.Thorough {
							// the sampling code is the same, its element costs more
							if err := one(script[:n], n%2 == 0); err != nil {
								return err
							}
							return nil
						}
						if err := one(script[:n], false); err != nil {
							return err
						}
						if err := one(script[:n], true); err != nil {
							return err
						}
						if n == depth {
							return nil
						}
						for _, c := range alphabet {
							if n == 3 && !x.Thorough && strings.IndexByte("zpEd", c) >= 0 {
								continue
							}
							script[n] = c
							if err := rec(n + 1); err != nil {
								return err
							}
						}
						return nil
					}
					return rec(1)
				})
			}
		}
		s := s
		x.Case(s.name+": every byte it consumes matters", func() error {
			base := func(i int) byte { return []byte{0x11, 0x22, 0x31, 0x05}[i%4] }
			ref := &scriptReader{content: base}
			want, err := s.f(ref)
			if err != nil || want.err != nil {
				return fmt.Errorf("%v %v", err, want.err)
			}
			seen := map[string]int{want.k.String(): -1}
			for p := 0; p < ref.pos; p++ {
				p := p
				got, err := s.f(&scriptReader{content: func(i int) byte {
					if i == p {
						return base(i) ^ 1
					}
					return base(i)
				}})
				x.Eval(1)
				if err != nil || got.err != nil {
					return fmt.Errorf("%v %v", err, got.err)
				}
				if q, ok := seen[got.k.String()]; ok {
					return fmt.Errorf("changing the low bit of byte %d gives the sample of byte %d changed", p, q)
				}
				seen[got.k.String()] = p
			}
			if s.name == "Fq.Rand" && ref.pos < 20 {
				return fmt.Errorf("only %d random bytes for an element of a %d bit field", ref.pos, order.BitLen())
			}
			if s.name != "Fq.Rand" && ref.pos < 31 {
				return fmt.Errorf("only %d random bytes for a scalar of %d bits", ref.pos, order.BitLen())
			}
			return nil
		})
	} // no setup and no witness out of a failed sample
	src := lines("func main(x,y,p){;public{p};equal(x*y*x,p);return;};")
	for _, p := range paths {
		p := p
		for _, cn := range []string{"counting", "one first"} {
			cn := cn
			for at := 0; at < 8; at++ {
				for _, c := range alphabet {
					at, c := at, c
					x.Case(fmt.Sprintf("%s setup from the content %q with result %c at read %d", p.name, cn, c, at), func() error {
						circ := mustCompile(src, false)
						ref := &scriptReader{content: cs[cn]}
						want, rej, crash := p.setup(circ, ref)
						if rej != nil || crash != nil {
							return fmt.Errorf("undisturbed setup failed: %v %v", rej, crash)
						}
						if ref.pos < 5*20 {
							return fmt.Errorf("a setup has five secrets, but only %d random bytes were read", ref.pos)
						}
						for _, failAll := range []bool{false, true} {
							r := &scriptReader{content: cs[cn], script: append(bytes.Repeat([]byte{'F'}, at), c), failAll: failAll}
							got, rej, crash := p.setup(circ, r)
							x.Eval(1)
							x.Trans(r.reads)
							if rej != nil || crash != nil {
								if !r.failed && c != 'z' {
									return fmt.Errorf("the source did not fail, but setup did: %v %v", rej, crash)
								}
								continue
							}
							if r.pos < ref.pos {
								return fmt.Errorf("the source failed after %d of %d bytes, but a setup was built", r.pos, ref.pos)
							}
							x.Nontrivial(fmt.Sprint("setup", p.name, cn, at, c))
							if keyBytes(&got.Pk) != keyBytes(&want.Pk) {
								return fmt.Errorf("the same random bytes gave two different keys")
							}
						}
						return nil
					})
				}
			}
		}
		for _, c := range alphabet {
			c := c
			x.Case(fmt.Sprintf("%s witness with the randomizing constraint, read result %c", p.name, c), func() error {
				circ := mustCompile(src, true)
				for _, cn := range names {
					ref := &scriptReader{content: cs[cn]}
					var want []*big.Int
					var rej, crash error
					withRand(ref, func() { want, rej, crash = p.solve(circ, ints(2, 3, 12)) })
					if rej != nil || crash != nil {
						return fmt.Errorf("undisturbed witness failed: %v %v", rej, crash)
					}
					if ref.pos < 20 {
						return fmt.Errorf("the randomized witness took only %d random bytes", ref.pos)
					}
					for at := 0; at < 3; at++ {
						for _, failAll := range []bool{false, true} {
							r := &scriptReader{content: cs[cn], script: append(bytes.Repeat([]byte{'1'}, at), c), failAll: failAll}
							var got []*big.Int
							withRand(r, func() { got, rej, crash = p.solve(circ, ints(2, 3, 12)) })
							x.Eval(1)
							x.Trans(r.reads)
							if rej != nil || crash != nil {
								if !r.failed && c != 'z' {
									return fmt.Errorf("the source did not fail, but the solver did: %v %v", rej, crash)
								}
								continue
							}
							if r.pos < ref.pos {
								return fmt.Errorf("content %q: the source failed after %d of %d bytes, but a witness was returned", cn, r.pos, ref.pos)
							}
							x.Nontrivial(fmt.Sprint("witness", p.name, cn, at, c))
							if !sameInts(got, want) {
								return fmt.Errorf("the same random bytes gave two different witnesses")
							}
						}
					}
				}
				return nil
			})
		}
	}
}
