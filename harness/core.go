package main

import (
	"fmt"
	"math/big"
	"runtime/debug"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

var order = new(big.Int).Set(bn.Order)

func bi(x int64) *big.Int { return big.NewInt(x) }

// guard runs f and turns a panic in the calling goroutine into an error.
func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 1800 {
				st = st[:1800]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	f()
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// circuit holds everything the tool chain produces for one source text.
type circuit struct {
	src    string
	prog   *cc.Program
	gates  []*cc.Gate
	inputs []string
	npub   int
	dense  *cc.ER1CS
	sparse *cc.ER1CSSparse
}

func compile(src string, randomize bool) (c *circuit, err error) {
	err = guard(func() {
		p := cc.Parse(src, true)
		g := p.Execute()
		c = &circuit{src: src, prog: p, gates: g, inputs: p.GetMainCircuit().Inputs, npub: p.GlobalInputCount()}
		c.dense = p.GatesToR1CS(g, randomize)
		c.sparse = p.GatesToSparseR1CS(g, randomize)
	})
	return
}

// solveDense / solveSparse return (witness, nil, nil), (nil, rejection, nil) or (nil, nil, crash)
func (c *circuit) solveDense(in []*big.Int) (w []*big.Int, rej error, crash error) {
	crash = guard(func() { w, rej = cc.CalculateWitness(c.dense, cc.CombineInputs(c.inputs, in)) })
	return
}
func (c *circuit) solveSparse(in []*big.Int) (w []*big.Int, rej error, crash error) {
	crash = guard(func() { w, rej = cc.CalculateSparseWitness(c.sparse, cc.CombineInputs(c.inputs, in)) })
	return
}

func copyInts(in []*big.Int) []*big.Int {
	r := make([]*big.Int, len(in))
	for i, v := range in {
		r[i] = new(big.Int).Set(v)
	}
	return r
}

func ints(in ...int64) []*big.Int {
	r := make([]*big.Int, len(in))
	for i, v := range in {
		r[i] = big.NewInt(v)
	}
	return r
}

func showInts(in []*big.Int) string {
	s := make([]string, len(in))
	for i, v := range in {
		s[i] = shortInt(v)
	}
	return "[" + strings.Join(s, " ") + "]"
}
func shortInt(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	n := new(big.Int).Sub(order, v)
	if v.BitLen() > 200 && n.BitLen() < 40 {
		return "-" + n.String()
	}
	return v.String()
}

func mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, bn.Order) }

func dot(row []*big.Int, w []*big.Int) *big.Int {
	s := new(big.Int)
	t := new(big.Int)
	for i, c := range row {
		s.Add(s, t.Mul(c, w[i]))
	}
	return s.Mod(s, order)
}

// checkGate reports whether constraint i holds: (L.w)(R.w)+X(g^(E.w)) = O.w
func checkGate(r *cc.ER1CS, i int, w []*big.Int) bool {
	l, rr, e, o := dot(r.L[i], w), dot(r.R[i], w), dot(r.E[i], w), dot(r.O[i], w)
	res := new(big.Int).Mul(l, rr)
	if e.Sign() != 0 {
		res.Add(res, refScalarBaseX(e))
	}
	res.Mod(res, order)
	return res.Cmp(o) == 0
}
