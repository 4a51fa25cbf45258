package main

import (
	"fmt"
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// every corpusRenameEvery-th program of the corpus also comes under other names
const corpusRenameEvery = 13

// CP is a program of the shared corpus
type CP struct {
	p     *P
	ext   bool // uses the curve extension
	split bool
	small bool // may be run over a small field
	ops   int  // number of operators, for the expression programs
}

// corpus enumerates programs that exercise every kind of constraint, smallest first.
// inputs are always x, y and the claims p, q.
func corpus(thorough bool, f func(c CP)) {
	params := []string{"x", "y", "p", "q"}
	seen := map[string]bool{}
	ops := 0
	emit := func(ext, split bool, body ...*S) {
		p := &P{params: params, body: body}
		t := p.text(style{})
		if seen[t] {
			return
		}
		seen[t] = true
		f(CP{p: p, ext: ext, split: split, small: !ext, ops: ops})
		// some of them again under other names
		if len(seen)%corpusRenameEvery == 0 {
			f(CP{p: renamed(p, len(seen)/corpusRenameEvery), ext: ext, split: split, small: !ext, ops: ops})
		}
	}
	e := mustExpr
	emit(false, false, Ret(nil))
	emit(false, false, Eq(V("x"), V("p")), Ret(nil))
	emit(false, false, Eq(N("5"), N("5")), Ret(nil))
	emit(false, false, Eq(V("p"), N("3")), Ret(nil))
	for n := 0; n <= 2; n++ {
		ops = n
		trees(n, "+-*/", leaves("x y 2"), func(t *E) {
			emit(false, false, Eq(t, V("p")), Ret(nil))
			if n < 2 {
				emit(false, false, Eq(V("p"), t), Ret(nil))
				emit(false, false, Ret(t))
				emit(false, false, Decl("v", t), Eq(V("v"), V("p")), Ret(e("v*3")))
			}
		})
	}
	ops = 0
	type st struct {
		s          *S
		ext, split bool
	}
	alpha := []st{
		{s: Asg("v", e("x*y"))}, {s: Asg("v", e("v*x"))}, {s: Asg("v", e("v/y"))}, {s: Asg("v", e("v*2+x*x"))},
		{s: Eq(V("v"), V("p"))}, {s: Eq(e("x*y"), V("p"))}, {s: Eq(e("x/y"), V("q"))}, {s: Eq(e("2*x-y"), V("q"))},
		{s: Asg("v", C("addGateConstraint", V("v"), e("2*x")))}, {s: Asg("v", e("v-x"))}, {s: Asg("v", e("0*v"))},
		{s: Asg("v", C("scalarBaseMultiply", e("v+1"))), ext: true},
		{s: Split(V("v")), split: true},
		{s: Eq(V("x"), V("y"))},
	}
	var rec func(k int, ext, split, eq bool, b []*S)
	rec = func(k int, ext, split, eq bool, b []*S) {
		if len(b) > 1 {
			emit(ext, split, append(append([]*S{}, b...), Ret(V("v")))...)
			if !eq {
				emit(ext, split, append(append([]*S{}, b...), Eq(V("v"), V("p")), Ret(nil))...)
			}
		}
		if k == 0 {
			return
		}
		for _, s := range alpha {
			if (s.split && split) || (s.ext && ext && !thorough) || ((s.split || s.ext) && (ext || split) && !thorough) {
				continue
			}
			rec(k-1, ext || s.ext, split || s.split, eq || s.s.k == 'q', append(append([]*S{}, b...), s.s))
		}
	}
	for k := 1; k <= 2; k++ {
		rec(k, false, false, false, []*S{Decl("v", V("x"))})
	}
	if thorough {
		rec(3, false, false, false, []*S{Decl("v", V("x"))})
	}
	// larger ones: powers, inner products, loops, functions
	for n := 1; n <= 8; n++ {
		emit(false, false, Decl("v", V("x")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", e("i+1")), Asg("v", e("v*v+y+i"))), Eq(V("v"), V("p")), Ret(nil))
		emit(false, false, Decl("v", V("x")), Decl("i", N("0")), For(Cmp(V("i"), "<", N(fmt.Sprint(n))), Asg("i", e("i+1")), Asg("v", e("(v+i)*x")), Eq(B('/', V("v"), e("x")), e("v/x"))), Eq(V("v"), V("p")), Ret(nil))
	}
}

// rowOf reads row t of a sparse matrix into an array; it reports entries out of range and stored zeros
func rowOf(t *utils.AvlTree, n int) (r []*big.Int, err error) {
	r = make([]*big.Int, n)
	cnt := 0
	for j := range r {
		v, e := t.Get(uint(j))
		if e != nil {
			r[j] = new(big.Int)
			continue
		}
		cnt++
		r[j] = new(big.Int).Mod(v, order)
		if r[j].Sign() == 0 {
			return r, fmt.Errorf("the zero at %d is stored", j)
		}
	}
	if t.Size() != cnt {
		return r, fmt.Errorf("%d entries are stored, %d of them in range", t.Size(), cnt)
	}
	return
}

func rowsEqual(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if mod(a[i]).Cmp(mod(b[i])) != 0 {
			return false
		}
	}
	return true
}

func sameInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || a[i] != nil && a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}
