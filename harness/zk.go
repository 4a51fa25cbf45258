package main

// Helpers around the proof system.

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// path is one of the two tool chains
type path struct {
	name   string
	sparse bool
}

var paths = []path{{"dense", false}, {"sparse", true}}

// setup runs the trusted setup on the given randomness
func (p path) setup(c *circuit, r io.Reader) (s *zk.Setup, rej, crash error) {
	crash = guard(func() {
		withRand(r, func() {
			if p.sparse {
				s, rej = zk.GenerateTrustedSetupSparse(c.npub, c.sparse.TransposeSparse())
			} else {
				s, rej = zk.GenerateTrustedSetup(c.npub, c.dense.Transpose())
			}
		})
	})
	return
}

func (p path) solve(c *circuit, in []*big.Int) (w []*big.Int, rej, crash error) {
	if p.sparse {
		return c.solveSparse(in)
	}
	return c.solveDense(in)
}

// prove combines the polynomials and generates the proof
func (p path) prove(c *circuit, pk *zk.Pk, w []*big.Int) (pr *zk.Proof, rej, crash error) {
	crash = guard(func() {
		if p.sparse {
			pr, rej = zk.GenerateProof_Sparse(c.npub, pk, w, zk.CombineSparsePolynomials(w, c.sparse.TransposeSparse()))
		} else {
			pr, rej = zk.GenerateProofs(c.npub, pk, w, zk.CombinePolynomials2(w, c.dense.Transpose()))
		}
	})
	return
}

func verify(pk *zk.Pk, pr *zk.Proof, pub []*big.Int) (ok bool, crash error) {
	crash = guard(func() { ok = zk.VerifyProof(pk, pr, pub, false) })
	return
}

// keyBytes is everything of a key that can be seen from outside
func keyBytes(pk *zk.Pk) string {
	var b bytes.Buffer
	fmt.Fprint(&b, showInts(pk.Domain))
	for _, l := range [][]*bn256.G1{pk.G1.RLEO_Delta, pk.G1.RLEO_Gamma, pk.G1.PowersX, pk.G1.PowersX_Domain_Delta, pk.G1.Lx_plus_Ex, pk.G1.Ex, {pk.G1.Alpha, pk.G1.Beta, pk.G1.Delta}} {
		fmt.Fprintf(&b, "|%d:", len(l))
		for _, p := range l {
			if p == nil {
				b.WriteString("nil")
			} else {
				b.Write(p.Marshal())
			}
		}
	}
	for _, l := range [][]*bn256.G2{pk.G2.PowersX, pk.G2.Rx, {pk.G2.Beta, pk.G2.Gamma, pk.G2.Delta}} {
		fmt.Fprintf(&b, "|%d:", len(l))
		for _, p := range l {
			if p == nil {
				b.WriteString("nil")
			} else {
				b.Write(p.Marshal())
			}
		}
	}
	return b.String()
}

func proofBytes(p *zk.Proof) string {
	return string(p.PiA.Marshal()) + string(p.PiB.Marshal()) + string(p.PiC.Marshal()) + string(p.PiF.Marshal())
}

func copyProof(p *zk.Proof) *zk.Proof {
	g1 := func(p *bn256.G1) *bn256.G1 {
		r := new(bn256.G1)
		if _, err := r.Unmarshal(p.Marshal()); err != nil {
			panic(err)
		}
		return r
	}
	b := new(bn256.G2)
	if _, err := b.Unmarshal(p.PiB.Marshal()); err != nil {
		panic(err)
	}
	return &zk.Proof{PiA: g1(p.PiA), PiB: b, PiC: g1(p.PiC), PiF: g1(p.PiF)}
}

func ordField() utils.Fq { return utils.Field.ArithmeticField }

func mustCompile(src string, randomize bool) *circuit {
	c, err := compile(src, randomize)
	if err != nil {
		panic(fmt.Sprintf("%v\n%s", err, src))
	}
	return c
}

func lines(s string) string { return strings.ReplaceAll(s, ";", "\n") }

var _ = cc.Parse
