package main

// C05 witness solvers, C06 agreement of the dense and the sparse tool chain, C07 public input layout.

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"io"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// counterReader is a deterministic source of random bytes
type counterReader struct{ n uint64 }

func (c *counterReader) Read(b []byte) (int, error) {
	for i := range b {
		c.n = c.n*6364136223846793005 + 1442695040888963407
		b[i] = byte(c.n >> 40)
	}
	return len(b), nil
}

func withRand(r io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = r
	defer func() { crand.Reader = old }()
	f()
}

func init() {
	register("C05", c05)
	metas["C05"] = meta{
		rule: "every program of the corpus (all constraint kinds, in all orders up to the bound) with every combination of boundary input values, with the claims satisfied and violated, and with inputs outside the canonical range; both solvers. " +
			"A returned witness is checked wire by wire and constraint by constraint with independent arithmetic. Non-trivial: a witness was returned and the system has at least one constraint",
		bounds:         "expressions with up to 2 operators, statement sequences of length 2 over 14 statement kinds, loops of up to 8 iterations, programs that grow to sizes of 100; inputs from {0,1,2,q-1,5}^2, unreduced inputs {-1,q+3,-q-2}; 6 names that are no input, before and after the inputs",
		boundsThorough: "as quick with statement sequences of length 3 and inputs from {0,1,2,3,q-1,q/2,5}^2",
		assumptions:    []string{"the curve multiple of the extension gate is computed by independent affine arithmetic"},
	}
	register("C06", c06)
	metas["C06"] = meta{
		rule: "every program of the corpus, compiled with and without the randomizing constraint: matrices compared row by row, transposes entry by entry, witnesses of both solvers on the same inputs and the same random bytes. " +
			"Non-trivial: both solvers returned a witness",
		bounds:         "the corpus of C05 with inputs from {0,1,q-1}^2, the growing programs on two values, claims satisfied and violated",
		boundsThorough: "the thorough corpus of C05 with inputs from {0,1,2,5,q-1}^2",
		assumptions:    []string{"rows are compared modulo the group order"},
	}
	register("C07", c07)
	metas["C07"] = meta{
		rule:           "all headers of up to n parameters from {single, array of 1, 2 and 3, 2x2 array} and all public declarations (ordered selections with repetition) of up to m of the resulting inputs, including no declaration; also wrong numbers of inputs. Non-trivial: at least one input was declared public",
		bounds:         "n = 3, m = 2, for headers of up to 2 parameters m = 3; 45 larger headers (arrays of up to 300 elements, 8 dimensions, 257 parameters, other names) with 9 public declarations of up to all inputs twice",
		boundsThorough: "n = 4, m = 3",
		assumptions:    []string{"declared names are inputs of main"},
	}
}

func grid(vals []*big.Int, claims int) (r [][]*big.Int) {
	for _, a := range vals {
		for _, b := range vals {
			r = append(r, append([]*big.Int{a, b}, make([]*big.Int, claims)...))
		}
	}
	return
}

// layout returns the names of the wires 1.. that carry inputs, as the property demands
func layout(header, public []string) (r []string) {
	seen := map[string]bool{}
	for _, n := range append(append([]string{}, public...), header...) {
		if !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	return
}

// checkWitness decides C05 for a returned witness
func checkWitness(c *circuit, sparse bool, header []string, public []string, in, w []*big.Int, randomized bool) error {
	if len(w) != c.dense.WitnessLength {
		return fmt.Errorf("the witness has %d wires, the system %d", len(w), c.dense.WitnessLength)
	}
	if w[0] == nil || w[0].Cmp(bi(1)) != 0 {
		return fmt.Errorf("the constant wire is %v", w[0])
	}
	pos := map[string]int{}
	for i, n := range layout(header, public) {
		pos[n] = i + 1
	}
	for i, n := range header {
		if w[pos[n]].Cmp(in[i]) != 0 {
			return fmt.Errorf("wire %d carries %v, the input %s was %v", pos[n], w[pos[n]], n, in[i])
		}
	}
	for i, v := range w {
		if v == nil {
			return fmt.Errorf("wire %d is unset", i)
		}
	}
	for i := 0; i < c.dense.NumberOfGates; i++ {
		rows := [4][]*big.Int{}
		if sparse {
			for k, t := range []*utils.AvlTree{c.sparse.L[i], c.sparse.R[i], c.sparse.E[i], c.sparse.O[i]} {
				r, err := rowOf(t, len(w))
				if err != nil {
					return fmt.Errorf("constraint %d: %v", i, err)
				}
				rows[k] = r
			}
		} else {
			rows = [4][]*big.Int{c.dense.L[i], c.dense.R[i], c.dense.E[i], c.dense.O[i]}
		}
		if !holds(rows, w) {
			return fmt.Errorf("constraint %d is violated: %s * %s + X(%s) = %s", i, showInts(rows[0]), showInts(rows[1]), showInts(rows[2]), showInts(rows[3]))
		}
	}
	return nil
}

func holds(rows [4][]*big.Int, w []*big.Int) bool {
	l, r, e, o := dot(rows[0], w), dot(rows[1], w), dot(rows[2], w), dot(rows[3], w)
	l.Mul(l, r)
	if e.Sign() != 0 {
		l.Add(l, refScalarBaseX(e))
	}
	return l.Mod(l, order).Cmp(o) == 0
}

func c05(x *X) {
	vals := []*big.Int{bi(0), bi(1), bi(2), qm1, bi(5)}
	if x.Thorough {
		vals = append(vals, bi(3), new(big.Int).Rsh(refOrder, 1))
	}
	ext := []*big.Int{bi(0), bi(1), qm1}
	corpus(x.Thorough, func(cp CP) {
		for _, randomize := range []bool{false, true} {
			if randomize && (cp.ops > 1 || cp.p.size() > 5 || cp.split && cp.p.size() > 3) {
				continue
			}
			randomize := randomize
			x.Case(fmt.Sprintf("randomize=%v\n%s", randomize, cp.p.text(style{})), func() error {
				v := vals
				if cp.ext || cp.split {
					v = ext
				}
				if randomize {
					v = []*big.Int{bi(3), qm1}
				}
				if cp.split && !x.Thorough {
					v = ext[2:]
				}
				return x.witnessCase(cp, randomize, v)
			})
		}
	})
	scaledCorpus(x.Thorough, 100, func(name string, cp CP) {
		x.Case(name+"\n"+clip(cp.p.text(style{})), func() error { return x.witnessCase(cp, false, []*big.Int{bi(3), qm1}) })
	})
}

func (p *P) size() int { return len(p.body) }

func (x *X) witnessCase(cp CP, randomize bool, vals []*big.Int) error {
	src := cp.p.text(style{})
	c, err := compile(src, randomize)
	if err != nil {
		return fmt.Errorf("does not compile: %v", err)
	}
	header := expandParams(cp.p.params)
	randomWires := 0
	if randomize {
		randomWires = 2
	}
	try := func(in []*big.Int, accept bool) error {
		for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
			name := []string{"CalculateWitness", "CalculateSparseWitness"}[k]
			given := copyInts(in)
			w, rej, crash := solve(given)
			x.Eval(1)
			x.Trans(c.dense.NumberOfGates)
			if !sameInts(given, in) {
				return fmt.Errorf("%s changed its inputs from %s to %s", name, showInts(in), showInts(given))
			}
			if crash != nil {
				return fmt.Errorf("%s crashes on %s: %v", name, showInts(in), crash)
			}
			if rej != nil {
				if accept {
					return fmt.Errorf("%s refuses %s although a trace exists: %v", name, showInts(in), rej)
				}
				x.Count("refusals", 1)
				continue
			}
			if err := checkWitness(c, k == 1, header, nil, in, w, randomize); err != nil {
				return fmt.Errorf("%s on %s returned %s: %v", name, showInts(in), clip(showInts(w)), err)
			}
			x.Count("witnesses", 1)
			x.StateHash(hash64(showInts(w)))
			x.Trace(1)
			if c.dense.NumberOfGates > 0 {
				x.Nontrivial(src)
			}
			before := copyInts(w)
			w2, rej, crash := solve(given)
			if rej != nil || crash != nil {
				return fmt.Errorf("%s returned a witness first and refuses or crashes the second time: %v %v", name, rej, crash)
			}
			n := len(w) - randomWires
			if !sameInts(w2[:n], before[:n]) || !sameInts(w, before) {
				return fmt.Errorf("%s on %s gave %s first and %s the second time", name, showInts(in), clip(showInts(before)), clip(showInts(w2)))
			}
		}
		return nil
	}
	for _, base := range grid(vals, 2) {
		full, accept, err := reference(cp.p, base, refOrder, nil)
		if err != nil && err != errDivZero && err != errStaticDivZero {
			return fmt.Errorf("harness: %v", err)
		}
		if e := try(full, accept); e != nil {
			return e
		}
		for i := 2; i < 4; i++ {
			alt := copyInts(full)
			alt[i] = add1(alt[i])
			_, acc, _ := reference(cp.p, alt, refOrder, nil)
			if e := try(alt, acc); e != nil {
				return e
			}
		}
	}
	// inputs under names that are none: nothing may take the place of the constant or of an input
	full, _, _ := reference(cp.p, []*big.Int{bi(2), bi(3), nil, nil}, refOrder, nil)
	for _, name := range []string{"1", "", "unknown", "main", header[0] + "[0]", "0"} {
		for front := 0; front < 2; front++ {
			names, in := append([]string{}, c.inputs...), copyInts(full)
			if front == 0 {
				names, in = append(names, name), append(in, bi(7))
			} else {
				names, in = append([]string{name}, names...), append([]*big.Int{bi(7)}, in...)
			}
			for k, s := range []string{"CalculateWitness", "CalculateSparseWitness"} {
				var w []*big.Int
				var rej error
				if crash := guard(func() {
					if k == 0 {
						w, rej = cc.CalculateWitness(c.dense, cc.CombineInputs(names, in))
					} else {
						w, rej = cc.CalculateSparseWitness(c.sparse, cc.CombineInputs(names, in))
					}
				}); crash != nil {
					return fmt.Errorf("%s crashes on the inputs %v: %v", s, names, crash)
				}
				x.Eval(1)
				if rej == nil {
					if err := checkWitness(c, k == 1, header, nil, full, w, randomize); err != nil {
						return fmt.Errorf("%s on the inputs %v=%s returned %s: %v", s, names, showInts(in), clip(showInts(w)), err)
					}
				}
			}
		}
	}
	if !cp.ext || x.Thorough { // inputs outside of the canonical range
		for _, u := range []*big.Int{bi(-1), new(big.Int).Add(refOrder, bi(3)), new(big.Int).Neg(new(big.Int).Add(refOrder, bi(2)))} {
			for _, v := range []*big.Int{bi(2), bi(-3)} {
				full, accept, _ := reference(cp.p, []*big.Int{mod(u), mod(v), nil, nil}, refOrder, nil)
				in := append([]*big.Int{u, v}, full[2:]...)
				if e := try(in, accept); e != nil {
					return e
				}
				in = append([]*big.Int{u, v}, new(big.Int).Sub(full[2], refOrder), full[3])
				if e := try(in, accept); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func c06(x *X) {
	vals := []*big.Int{bi(0), bi(1), qm1}
	if x.Thorough {
		vals = append(vals, bi(2), bi(5))
	}
	one := func(cp CP, few bool) {
		for _, randomize := range []bool{false, true} {
			randomize := randomize
			x.Case(fmt.Sprintf("randomize=%v\n%s", randomize, clip(cp.p.text(style{}))), func() error {
				c, err := compile(cp.p.text(style{}), randomize)
				if err != nil {
					return err
				}
				if err := agree(c); err != nil {
					return err
				}
				x.Trans(c.dense.NumberOfGates)
				x.State(matrixKey(c))
				x.Eval(1)
				v := vals
				if cp.ext || cp.split || randomize || few {
					v = []*big.Int{bi(3), qm1}
				}
				for _, base := range grid(v, 2) {
					full, _, _ := reference(cp.p, base, refOrder, nil)
					for k := -1; k < 2; k++ {
						in := copyInts(full)
						if k >= 0 {
							in[2+k] = add1(in[2+k])
						}
						var wd, ws []*big.Int
						var rd, rs, cd, cs error
						withRand(&counterReader{7}, func() { wd, rd, cd = c.solveDense(copyInts(in)) })
						withRand(&counterReader{7}, func() { ws, rs, cs = c.solveSparse(copyInts(in)) })
						x.Eval(2)
						x.Trace(1)
						if cd != nil || cs != nil {
							return fmt.Errorf("solver crash on %s: dense %v sparse %v", showInts(in), cd, cs)
						}
						if (rd == nil) != (rs == nil) {
							return fmt.Errorf("on %s the dense solver says %v, the sparse one %v", showInts(in), rd, rs)
						}
						if rd == nil {
							x.Nontrivial(cp.p.text(style{}))
							if !sameInts(wd, ws) {
								return fmt.Errorf("on %s the dense solver gives %s, the sparse one %s", showInts(in), clip(showInts(wd)), clip(showInts(ws)))
							}
						}
					}
				}
				return nil
			})
		}
	}
	corpus(x.Thorough, func(cp CP) { one(cp, false) })
	scaledCorpus(x.Thorough, 100, func(name string, cp CP) { one(cp, true) })
}

func matrixKey(c *circuit) string {
	var sb strings.Builder
	for i := range c.dense.L {
		sb.WriteString(showInts(c.dense.L[i]) + showInts(c.dense.R[i]) + showInts(c.dense.E[i]) + showInts(c.dense.O[i]))
	}
	return sb.String()
}

// agree decides the matrix part of C06
func agree(c *circuit) error {
	d, s := c.dense, c.sparse
	if d.NumberOfGates != s.NumberOfGates || d.WitnessLength != s.WitnessLength {
		return fmt.Errorf("sizes differ: dense %d constraints %d wires, sparse %d constraints %d wires", d.NumberOfGates, d.WitnessLength, s.NumberOfGates, s.WitnessLength)
	}
	if d.NumberOfGates == 0 {
		return nil
	}
	dt, st := d.Transpose(), s.TransposeSparse()
	if dt.NumberOfGates != d.NumberOfGates || dt.WitnessLength != d.WitnessLength || st.NumberOfGates != d.NumberOfGates || st.WitnessLength != d.WitnessLength {
		return fmt.Errorf("the transposes report other sizes")
	}
	for k, m := range []struct {
		n  string
		d  [][]*big.Int
		s  []*utils.AvlTree
		dt [][]*big.Int
		st []*utils.AvlTree
	}{{"L", d.L, s.L, dt.L, st.L}, {"R", d.R, s.R, dt.R, st.R}, {"E", d.E, s.E, dt.E, st.E}, {"O", d.O, s.O, dt.O, st.O}} {
		_ = k
		if len(m.d) != d.NumberOfGates || len(m.s) != d.NumberOfGates {
			return fmt.Errorf("%s has %d dense and %d sparse rows for %d constraints", m.n, len(m.d), len(m.s), d.NumberOfGates)
		}
		if d.NumberOfGates == 0 {
			continue
		}
		if len(m.dt) != d.WitnessLength || len(m.st) != d.WitnessLength {
			return fmt.Errorf("the transpose of %s has %d dense and %d sparse rows for %d wires", m.n, len(m.dt), len(m.st), d.WitnessLength)
		}
		full := make([][]*big.Int, len(m.d))
		for i := range m.d {
			if len(m.d[i]) != d.WitnessLength {
				return fmt.Errorf("row %d of %s has %d entries for %d wires", i, m.n, len(m.d[i]), d.WitnessLength)
			}
			r, err := rowOf(m.s[i], d.WitnessLength)
			if err != nil {
				return fmt.Errorf("sparse row %d of %s: %v", i, m.n, err)
			}
			if !rowsEqual(r, m.d[i]) {
				return fmt.Errorf("row %d of %s is %s dense and %s sparse", i, m.n, showInts(m.d[i]), showInts(r))
			}
			full[i] = r
		}
		for j := 0; j < d.WitnessLength; j++ {
			r, err := rowOf(m.st[j], d.NumberOfGates)
			if err != nil {
				return fmt.Errorf("sparse transpose of %s, wire %d: %v", m.n, j, err)
			}
			if len(m.dt[j]) != d.NumberOfGates {
				return fmt.Errorf("dense transpose of %s, wire %d has %d entries", m.n, j, len(m.dt[j]))
			}
			for i := range full {
				if full[i][j].Cmp(r[i]) != 0 || mod(m.dt[j][i]).Cmp(r[i]) != 0 {
					return fmt.Errorf("entry %d,%d of %s is %s, its transposes say %s (sparse) and %s (dense)", i, j, m.n, shortInt(full[i][j]), shortInt(r[i]), shortInt(m.dt[j][i]))
				}
			}
		}
	}
	return nil
}

func c07(x *X) {
	kinds := []string{"", "[1]", "[2]", "[3]", "[2][2]"}
	names := []string{"a", "c", "b", "d"}
	maxN := 3
	if x.Thorough {
		maxN = 4
	}
	for n := 1; n <= maxN; n++ {
		ks := kinds
		if n >= 3 && !x.Thorough {
			ks = []string{"", "[2]", "[2][2]"}
		}
		if n == 4 {
			ks = []string{"", "[2]"}
		}
		product(len(ks), n, func(sel []int) {
			params := make([]string, n)
			for i, k := range sel {
				params[i] = names[i] + ks[k]
			}
			header := expandParams(params)
			m := 2
			if n <= 2 || x.Thorough {
				m = 3
			}
			if len(header) > 5 && !x.Thorough {
				m = 2
			}
			if len(header) > 7 {
				m = 1
			}
			for k := 0; k <= m; k++ {
				product(len(header), k, func(ps []int) {
					public := make([]string, k)
					for i, j := range ps {
						public[i] = header[j]
					}
					x.Case(fmt.Sprintf("main(%s) public{%s}", strings.Join(params, ","), strings.Join(public, ",")), func() error {
						return x.layoutCase(params, header, public)
					})
				})
			}
		})
	}
	// large arrays and headers, other names
	var many []string
	for i := 0; i < 24; i++ {
		many = append(many, fmt.Sprintf("v%d", i))
	}
	shapes := [][]string{{"a[10]"}, {"a[11]"}, {"x", "a[12]"}, {"a[101]", "x"}, {"a[2][11]"}, {"a[11][2]", "b[11]"}, {"a[2][2][2]", "b"}, {"c[3][2][1][2]"}, {"b[1][1]", "a[1]", "x"}, many, {"a", "aa", "a1[11]", "A"},
		{"a[127]"}, {"x", "a[128]"}, {"a[129]", "x"}, {"x", "a[255]"}, {"a[256]", "b"}, {"x", "a[257]", "b[2]"}, {"a[300]"}, {"a[1][260]", "x"}, {"a[260][1]"}, {"a[17][17]", "x"}, {"a[2][2][2][2][2][2][2][2]"}}
	for n := 25; n <= 257; n += 58 {
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("w%d", i))
		}
		shapes = append(shapes, names)
	}
	for k := range namings {
		r := &renamer{m: map[string]string{}, at: namings[k].at}
		shapes = append(shapes, r.ns([]string{"x", "a[2]", "b", "c[3]"}), r.ns([]string{"a[11]", "b[2][2]"}))
	}
	for _, params := range shapes {
		params, header := params, expandParams(params)
		n := len(header)
		publics := [][]string{{}, {header[0]}, {header[n-1]}, {header[n/2]}, {header[n-1], header[n/2], header[n-1]}}
		var rev, odd []string
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, header[i])
			if i%2 == 1 {
				odd = append(odd, header[i])
			}
		}
		publics = append(publics, append([]string{}, header...), rev, odd, append(odd, rev...))
		for _, public := range publics {
			public := public
			x.Case(fmt.Sprintf("main(%s) public{%s}", strings.Join(params, ","), strings.Join(public, ",")), func() error {
				return x.layoutCase(params, header, public)
			})
		}
	}
}

// product calls f with every vector of length n over 0..k-1
func product(k, n int, f func([]int)) {
	v := make([]int, n)
	for {
		f(v)
		i := n - 1
		for ; i >= 0; i-- {
			if v[i]++; v[i] < k {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func (x *X) layoutCase(params, header, public []string) error {
	first, last := header[0], header[len(header)-1]
	body := []*S{}
	if len(public) > 0 {
		body = append(body, Public(public...))
	}
	nm := func(s string) *E {
		if i := strings.IndexByte(s, '['); i >= 0 {
			e := I(s[:i])
			for _, d := range strings.Split(strings.TrimSuffix(s[i+1:], "]"), "][") {
				e.a = append(e.a, N(d))
			}
			return e
		}
		return V(s)
	}
	body = append(body, Decl("t", B('*', nm(first), nm(last))), Eq(V("t"), B('*', nm(last), nm(first))), Ret(B('*', V("t"), nm(first))))
	p := &P{params: params, body: body}
	c, err := compile(p.text(style{}), false)
	if err != nil {
		return fmt.Errorf("%v\n%s", err, p.text(style{}))
	}
	x.Trans(1)
	if !sameStrings(c.inputs, header) {
		return fmt.Errorf("reported inputs %v, want %v", c.inputs, header)
	}
	seen := map[string]bool{}
	distinct := 0
	for _, s := range public {
		if !seen[s] {
			seen[s] = true
			distinct++
		}
	}
	if c.npub != distinct+1 {
		return fmt.Errorf("reported public count %d, want %d", c.npub, distinct+1)
	}
	in := make([]*big.Int, len(header))
	val := map[string]*big.Int{}
	for i, n := range header {
		in[i] = bi(int64(101 + i))
		val[n] = in[i]
	}
	want := layout(header, public)
	x.State(strings.Join(want, ",") + fmt.Sprint(distinct))
	for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
		w, rej, crash := solve(copyInts(in))
		x.Eval(1)
		x.Trace(1)
		if rej != nil || crash != nil {
			return fmt.Errorf("solver %d: %v %v", k, rej, crash)
		}
		if len(w) < 1+len(want) || w[0].Cmp(bi(1)) != 0 {
			return fmt.Errorf("solver %d: witness %s does not start with one or is too short", k, showInts(w))
		}
		for i, n := range want {
			if w[i+1].Cmp(val[n]) != 0 {
				return fmt.Errorf("solver %d: wire %d carries %v, want %s = %v (witness %s)", k, i+1, w[i+1], n, val[n], showInts(w))
			}
		}
	}
	if distinct > 0 {
		x.Nontrivial(strings.Join(params, ",") + "|" + strings.Join(public, ","))
	}
	for _, bad := range [][]*big.Int{in[:len(in)-1], append(copyInts(in), bi(1)), {}} {
		if len(bad) == len(in) {
			continue
		}
		refused := guard(func() { cc.CombineInputs(c.inputs, bad) }) != nil
		x.Eval(1)
		if !refused {
			return fmt.Errorf("%d inputs are accepted for %d parameters", len(bad), len(in))
		}
	}
	return nil
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = bytes.Equal
