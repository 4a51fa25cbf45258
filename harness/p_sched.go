package main

// C17: all schedules of code that streams coefficient maps.
// The code under test is instrumented (tools/instr) and runs under the scheduler of /verif/sched.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"
	"unsafe"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zz_verif_sched"
)

func init() {
	register("C17", c17)
	metas["C17"] = meta{
		rule: "every schedule with at most the stated number of preemptions, of goroutines that run the real code, switching at every statement of the map code and every operation on channels, locks and goroutines; states are distinct scenarios, transitions the steps of all schedules, traces the schedules. " +
			"Non-trivial: a scenario with at least two schedules",
		bounds:         "one consumer: all insertion orders of up to 4 keys, 2 preemptions at statements; two and three consumers; every operation on all pairs of 7 maps, 2 preemptions at statements; streams of maps of 8 to 130 entries; streams between all pairs (T triples) of 9 changes of 4 maps; pairs of operations in two goroutines, 1 preemption at statements and 3 at operations on channels and locks; solver, transposition, interpolation, evaluation polynomials, 1 preemption; pairs of all operations under the race detector",
		boundsThorough: "one consumer up to 5 keys and 3 preemptions; pairs of operations 2 preemptions at statements; proofs with 2 preemptions at operations on channels and locks",
		assumptions:    []string{"memory accesses within one statement are not interleaved; unsynchronised accesses are looked for separately with the race detector on the schedules the runtime picks"},
	}
}

// explore runs all schedules. prepare builds the objects (not under the scheduler) and returns the body and the
// monitor.
func (x *X) explore(desc string, pre, level int, prepare func() (func() error, func() error)) {
	x.exploreWith(desc, vsched.Config{Preemptions: pre, Level: level}, prepare)
}

func (x *X) exploreWith(desc string, cfg vsched.Config, prepare func() (func() error, func() error)) {
	if cfg.Parts > 1 && cfg.Part == 0 && vsched.Instrumented != "" {
		for k := 1; k < cfg.Parts; k++ {
			c := cfg
			c.Part = k
			x.exploreOne(fmt.Sprintf("%s (part %d of %d)", desc, k, cfg.Parts), c, prepare)
		}
	}
	x.exploreOne(desc, cfg, prepare)
}

func (x *X) exploreOne(desc string, cfg vsched.Config, prepare func() (func() error, func() error)) {
	x.Case(fmt.Sprintf("%s; %d deviations, free choices %v, level %d", desc, cfg.Preemptions, cfg.Free, cfg.Level), func() error {
		x.State(desc)
		if vsched.Instrumented == "" {
			x.Note("the code could not be instrumented: scenarios ran under the schedules of the runtime")
			for i := 0; i < 5; i++ {
				body, _ := prepare()
				x.Eval(1)
				if err := body(); err != nil {
					return err
				}
			}
			return nil
		}
		n := 0
		cfg := cfg
		cfg.Stop = func() bool { return x.only < 0 && time.Now().After(x.deadline) }
		res := vsched.Explore(cfg, func() (func() error, func() error) {
			if n++; n%64 == 0 {
				x.Tick()
			}
			return prepare()
		})
		if os.Getenv("VERIF_RUNS") != "" {
			fmt.Fprintf(os.Stderr, "%8d %8d %s %+v\n", res.Runs, res.Steps/res.Runs, strings.ReplaceAll(desc, "\n", ";"), cfg)
		}
		x.Eval(res.Runs)
		x.Trace(res.Runs)
		x.Trans(res.Steps)
		x.Count("schedules", res.Runs)
		x.Count("schedules with preemptions", res.Preempted)
		x.Count("switches", res.Switches)
		x.Count("choices", res.Choices)
		if res.Leaked > 0 {
			x.Count("scenarios that leave goroutines waiting", 1)
		}
		if res.Diverged > 0 {
			x.Count("schedules that could not be repeated", res.Diverged)
		}
		if res.Truncated {
			x.res.Stats.Truncated = true
		}
		if res.Runs > 1 {
			x.Nontrivial(desc)
		}
		if res.Err != nil {
			return fmt.Errorf("schedule %v: %v", res.Schedule, res.Err)
		}
		return nil
	})
}

// shape identifies the structure and content of a map
func shape(n *utils.AvlNode) (h uint64) {
	if n == nil {
		return 14695981039346656037
	}
	h = uint64(n.Key())*1099511628211 + 7
	v := n.Value()
	h = (h ^ uint64(uintptr(unsafe.Pointer(v)))) * 1099511628211
	if v != nil {
		for _, w := range v.Bits() {
			h = (h ^ uint64(w)) * 1099511628211
		}
	}
	h = (h ^ shape(n.Left())) * 1099511628211
	h = (h>>7 ^ h ^ shape(n.Right())) * 1099511628211
	return
}

// unchanged is a monitor: the maps stay what they are at every step
func unchanged(ts ...*utils.AvlTree) func() error {
	was := make([]uint64, len(ts))
	for i, t := range ts {
		was[i] = shape(t.Root())
	}
	return func() error {
		for i, t := range ts {
			if shape(t.Root()) != was[i] {
				return fmt.Errorf("map %d was changed while it was in use, it is now %v", i, t)
			}
		}
		return nil
	}
}

type spair struct {
	k uint
	v int64
}

// smap is a map as a list of insertions
type smap []spair

func (m smap) tree() *utils.AvlTree {
	t := utils.NewAvlTree()
	for _, e := range m {
		if err := t.Insert(e.k, mod(bi(e.v))); err != nil {
			panic(err)
		}
	}
	return t
}
func (m smap) dense() []*big.Int {
	n := uint(8)
	for _, e := range m {
		if e.k >= n {
			n = e.k + 1
		}
	}
	r := refZeros(int(n))
	for _, e := range m {
		r[e.k] = mod(bi(e.v))
	}
	return trim(r)
}
func (m smap) String() string {
	s := "{"
	for _, e := range m {
		s += fmt.Sprintf("%d:%d ", e.k, e.v)
	}
	return strings.TrimSpace(s) + "}"
}

// stream consumes and returns an error unless the entries are those of m in order
func consume(t *utils.AvlTree, m smap, asc bool) error {
	byKey := map[uint]int64{}
	var keys []uint
	for _, e := range m {
		byKey[e.k] = e.v
	}
	for k := uint(0); k < 512; k++ {
		if _, ok := byKey[k]; ok {
			keys = append(keys, k)
		}
	}
	if !asc {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	ch := t.ChannelNodes(asc)
	var got []utils.Entry
	for i := 0; ; i++ {
		e, ok := vsched.Recv2(ch)
		if !ok {
			if i != len(keys) {
				return fmt.Errorf("the stream ended after %d of %d entries", i, len(keys))
			}
			for j, e := range got { // entries that were received stay what they are
				if e.Key != keys[j] || e.Value.Cmp(mod(bi(byKey[keys[j]]))) != 0 {
					return fmt.Errorf("entry %d has become %d:%v, expected %d:%d", j, e.Key, e.Value, keys[j], byKey[keys[j]])
				}
			}
			return nil
		}
		got = append(got, e)
		if i >= len(keys) {
			return fmt.Errorf("entry %d after the %d entries of the map", e.Key, len(keys))
		}
		if e.Key != keys[i] || e.Value == nil || e.Value.Cmp(mod(bi(byKey[keys[i]]))) != 0 {
			return fmt.Errorf("entry %d is %d:%v, expected %d:%d", i, e.Key, e.Value, keys[i], byKey[keys[i]])
		}
	}
}

// parallel runs the functions in goroutines of their own and waits for them
func parallel(fs ...func() error) error {
	done := make(chan error)
	for _, f := range fs {
		f := f
		vsched.Go(func() { vsched.To(done)(f()) })
	}
	var err error
	for range fs {
		if e := vsched.Recv(done); e != nil && err == nil {
			err = e
		}
	}
	return err
}

// sop is an operation on two maps with the result it has to have
type sop struct {
	name string
	f    func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error
	own  bool // works on fresh copies, its arguments may change
}

var wide = []*big.Int{bi(7), bi(2), bi(0), bi(5), qm1, bi(3), bi(11), bi(1)}

func schedOps() []sop {
	q := refOrder
	want := func(t *utils.AvlTree, w []*big.Int) error { return agreeSparse(q, t, w) }
	return []sop{
		{name: "Mul", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return want(f.MulSparse(a, b), refMod(q, refMul(q, ma.dense(), mb.dense())))
		}},
		{name: "MulScalar", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return want(f.MulSparseScalar(a, bi(6)), refScale(q, ma.dense(), bi(6)))
		}},
		{name: "Add", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return want(f.AddToSparse(a, b), refAdd(q, ma.dense(), mb.dense(), 1))
		}},
		{name: "Sub", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return want(f.SubToSparse(a, b), refAdd(q, ma.dense(), mb.dense(), -1))
		}},
		{name: "Clone", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			c := a.Clone()
			if err := want(c, ma.dense()); err != nil {
				return err
			}
			return consume(c, ma, true)
		}},
		{name: "Divide", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			db := trim(mb.dense())
			if len(db) == 0 || len(mb) > 0 && db[len(db)-1].Sign() == 0 {
				return nil
			}
			quo, rem := f.DivideSparse(a, b)
			dq, err := denseOf(quo)
			if err != nil {
				return err
			}
			dr, err := denseOf(rem)
			if err != nil {
				return err
			}
			if len(trim(dr)) >= len(db) {
				return fmt.Errorf("the remainder %v is as long as the divisor", showInts(dr))
			}
			back := refMod(q, refAdd(q, refMul(q, dq, db), dr, 1))
			return agreePoly(q, trim(back), ma.dense())
		}},
		{name: "Eval", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			if len(ma) == 0 {
				return nil
			}
			at := bi(3)
			if got := f.EvalSparsePoly(a, at); got.Cmp(evalAt(q, ma.dense(), at)) != 0 {
				return fmt.Errorf("value %v at 3", got)
			}
			return nil
		}},
		{name: "ScalarProduct", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			w := new(big.Int)
			for _, e := range ma {
				w.Add(w, new(big.Int).Mul(bi(e.v), wide[e.k]))
			}
			if got := f.SparseScalarProduct(a, wide); got.Cmp(mod(w)) != 0 {
				return fmt.Errorf("scalar product %v", got)
			}
			return nil
		}},
		{name: "LinearCombine", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			r := f.LinearCombine([]*utils.AvlTree{a, b, a}, wide[:3])
			for i, m := range []smap{ma, mb, ma} {
				if err := want(r[i], refScale(q, m.dense(), wide[i])); err != nil {
					return err
				}
			}
			return nil
		}},
		{name: "AddPolynomials", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return want(f.AddPolynomials([]*utils.AvlTree{a, b, a}), refAdd(q, refAdd(q, ma.dense(), mb.dense(), 1), ma.dense(), 1))
		}},
		{name: "Transpose", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			t := utils.TransposeSparse([]*utils.AvlTree{a, b}, 8)
			for k := range t {
				w := refZeros(2)
				for i, m := range []smap{ma, mb} {
					for _, e := range m {
						if int(e.k) == k {
							w[i] = mod(bi(e.v))
						}
					}
				}
				if err := want(t[k], w); err != nil {
					return err
				}
			}
			return nil
		}},
		{name: "ToArray", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			return agreePoly(q, a.ToArray(8), ma.dense())
		}},
		{name: "Interpolate", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			for _, e := range ma {
				if e.k > 3 {
					return nil
				}
			}
			p := f.InterpolateSparseArray(a, 4)
			d, err := denseOf(p)
			if err != nil {
				return err
			}
			w := append(append([]*big.Int{}, ma.dense()...), refZeros(4)...)
			for i := 0; i < 4; i++ {
				if evalAt(q, d, bi(int64(i))).Cmp(w[i]) != 0 {
					return fmt.Errorf("the interpolation %s has another value at %d", showInts(d), i)
				}
			}
			return nil
		}},
		{name: "up", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error { return consume(a, ma, true) }},
		{name: "down", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error { return consume(a, ma, false) }},
		{name: "lookups", f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			if a.Size() != len(ma) {
				return fmt.Errorf("size %d", a.Size())
			}
			for _, e := range ma {
				if v, err := a.Get(e.k); err != nil || v.Cmp(mod(bi(e.v))) != 0 || !a.Has(e.k) {
					return fmt.Errorf("key %d: %v %v", e.k, v, err)
				}
			}
			if len(ma) > 0 && a.MaxPower() != a.MaxNode().Key() {
				return fmt.Errorf("maximum")
			}
			_ = a.String()
			return nil
		}},
		{name: "Combine", own: true, f: func(f utils.Fq, a, b *utils.AvlTree, ma, mb smap) error {
			w := refZeros(8)
			for _, e := range ma {
				w[e.k] = mod(new(big.Int).Mul(bi(e.v), wide[e.k]))
			}
			return want(f.Combine(a, wide), w)
		}},
	}
}

// largeMap has n entries
func largeMap(n, order int) (m smap) {
	for i := 0; i < n; i++ {
		k := orders[order].at(i, n)
		m = append(m, spair{uint(k + k/3), int64(i%7+1) * []int64{1, 1 << 9, 1 << 31, 1 << 60, -1}[i%5]})
	}
	return
}

func c17large(x *X) {
	sizes := []int{8, 16, 17, 33, 65, 130}
	use := map[string]bool{"Mul": true, "MulScalar": true, "Add": true, "Sub": true, "Clone": true, "Divide": true, "Eval": true, "AddPolynomials": true}
	for _, n := range sizes {
		for o := range orders {
			m := largeMap(n, o)
			for _, asc := range []bool{true, false} {
				asc := asc
				x.explore(fmt.Sprintf("one consumer of %d entries inserted %s, ascending %v", n, orders[o].name, asc), 1, 0, func() (func() error, func() error) {
					t := m.tree()
					return func() error { return consume(t, m, asc) }, unchanged(t)
				})
			}
			if n > 40 && !x.Thorough {
				continue
			}
			x.explore(fmt.Sprintf("two consumers of %d entries inserted %s", n, orders[o].name), 1, 0, func() (func() error, func() error) {
				t := m.tree()
				return func() error {
					return parallel(func() error { return consume(t, m, true) }, func() error { return consume(t, m, false) })
				}, unchanged(t)
			})
			mb := largeMap(3, 0)
			for _, op := range schedOps() {
				if !use[op.name] {
					continue
				}
				op := op
				for _, swap := range []bool{false, true} {
					if (n > 20 || swap) && (op.name == "Mul" || op.name == "Divide") && !x.Thorough {
						continue
					}
					a, b := m, mb
					if swap {
						a, b = mb, m
					}
					x.explore(fmt.Sprintf("%s with %d and %d entries inserted %s", op.name, len(a), len(b), orders[o].name), 1, 0, func() (func() error, func() error) {
						ta, tb := a.tree(), b.tree()
						return func() error { return op.f(utils.NewFq(refOrder), ta, tb, a, b) }, unchanged(ta, tb)
					})
				}
			}
		}
	}
}

// c17histories changes maps between streams of them
func c17histories(x *X) {
	type change struct {
		name string
		f    func(t *utils.AvlTree, m map[uint]int64)
	}
	add := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
	put := func(k uint, v int64) change {
		return change{fmt.Sprintf("Put(%d,%d,add)", k, v), func(t *utils.AvlTree, m map[uint]int64) {
			t.Put(k, mod(bi(v)), add)
			m[k] += v
		}}
	}
	ins := func(k uint, v int64) change {
		return change{fmt.Sprintf("Insert(%d,%d)", k, v), func(t *utils.AvlTree, m map[uint]int64) {
			t.Insert(k, mod(bi(v)))
			m[k] = v
		}}
	}
	rem := func(k uint) change {
		return change{fmt.Sprintf("Remove(%d)", k), func(t *utils.AvlTree, m map[uint]int64) {
			t.Remove(k)
			m[k] = 0
		}}
	}
	changes := []change{put(2, 5), put(1, 1<<40), ins(3, 8), ins(2, 3000), ins(1, 0), rem(2), rem(4), ins(9, 1), put(0, -2)}
	starts := []smap{{}, {{2, 1}}, {{1, 2000}, {2, 3}, {3, -1}}, {{4, 1}, {2, 2}, {6, 3}, {1, 4}, {3, 5 << 40}, {5, 6}}}
	depth := 2
	if x.Thorough {
		depth = 3
	}
	for _, m0 := range starts {
		product(len(changes), depth, func(v []int) {
			v = append([]int{}, v...)
			name := ""
			for _, c := range v {
				name += ", " + changes[c].name
			}
			for _, level := range []int{0, 1} {
				x.explore(fmt.Sprintf("streams of %v between%s, level %d", m0, name, level), 1, level, func() (func() error, func() error) {
					t := m0.tree()
					return func() error {
						m := map[uint]int64{}
						for _, e := range m0 {
							m[e.k] = e.v
						}
						for i := 0; ; i++ {
							var now smap
							for k := uint(0); k < 10; k++ {
								if m[k] != 0 {
									now = append(now, spair{k, m[k]})
								}
							}
							if err := consume(t, now, i%2 == 0); err != nil {
								return fmt.Errorf("after %d changes: %v", i, err)
							}
							if err := consume(t, now, true); err != nil {
								return fmt.Errorf("after %d changes: %v", i, err)
							}
							if i == len(v) {
								return nil
							}
							changes[v[i]].f(t, m)
						}
					}, nil
				})
			}
		})
	}
}

func c17(x *X) {
	// one consumer
	max, pre := 4, 2
	if x.Thorough {
		max, pre = 5, 3
	}
	for n := 0; n <= max; n++ {
		permutations(n, func(p []int) {
			m := smap{}
			for i, k := range p {
				m = append(m, spair{uint(k), int64(i + 1)})
			}
			for _, asc := range []bool{true, false} {
				asc := asc
				x.explore(fmt.Sprintf("one consumer of %v, ascending %v", m, asc), pre, 1, func() (func() error, func() error) {
					t := m.tree()
					return func() error {
						if err := consume(t, m, asc); err != nil {
							return err
						}
						return consume(t, m, !asc)
					}, unchanged(t)
				})
			}
		})
	}
	c17large(x)
	c17histories(x)
	// several consumers
	for _, keys := range [][]uint{{}, {5}, {1, 2}, {2, 1}, {2, 1, 3}, {1, 2, 3}, {3, 1, 2, 4}} {
		m := smap{}
		for i, k := range keys {
			m = append(m, spair{k, int64(i + 1)})
		}
		consumers := func(n, pre, level int) {
			x.explore(fmt.Sprintf("%d consumers of %v", n, m), pre, level, func() (func() error, func() error) {
				t := m.tree()
				return func() error {
					var fs []func() error
					for i := 0; i < n; i++ {
						i := i
						fs = append(fs, func() error { return consume(t, m, i%2 == 0) })
					}
					return parallel(fs...)
				}, unchanged(t)
			})
		}
		p := 0
		if x.Thorough {
			p = 1
		}
		if len(keys) <= 3 {
			consumers(2, 2, 1)
		}
		consumers(2, 3+p, 0)
		consumers(3, 1+p, 1)
		consumers(3, 2+p, 0)
	}
	// streams within streams of the same map
	for _, keys := range [][]uint{{}, {4}, {2, 1, 3}, {1, 2, 3, 4}} {
		m := smap{}
		for i, k := range keys {
			m = append(m, spair{k, int64(i + 1)})
		}
		x.explore(fmt.Sprintf("a stream within a stream of %v", m), 2, 1, func() (func() error, func() error) {
			t := m.tree()
			return func() error {
				n := 0
				for ch := t.ChannelNodes(true); ; n++ {
					_, ok := vsched.Recv2(ch)
					if !ok {
						break
					}
					if err := consume(t, m, n%2 == 0); err != nil {
						return err
					}
				}
				if n != len(m) {
					return fmt.Errorf("%d entries of %d", n, len(m))
				}
				return nil
			}, unchanged(t)
		})
	}
	// operations
	maps := []smap{{}, {{0, 1}}, {{1, 2}, {0, 3}}, {{1, -2}, {2, 5}}, {{0, 3}, {1, 2}, {2, 1}}, {{3, 1}, {1, 4}, {0, -1}}, {{2, 7}, {0, 1}, {3, 3}, {1, -3}}}
	ops := schedOps()
	for _, o := range ops {
		o := o
		for i, ma := range maps {
			for j, mb := range maps {
				ma, mb := ma, mb
				same := i == j
				two := strings.Contains("Mul Add Sub Divide LinearCombine AddPolynomials Transpose", o.name)
				if !two && j > 0 {
					continue
				}
				pre := 2
				if !x.Thorough && (o.name == "Mul" && len(ma)*len(mb) > 4 || o.name == "Divide" && len(ma) > 2 || (o.name == "LinearCombine" || o.name == "AddPolynomials" || o.name == "Transpose") && len(ma)+len(mb) > 4 || o.name == "Interpolate") {
					pre = 1
				}
				if o.name == "Interpolate" && len(ma) > 2 && !x.Thorough {
					continue
				}
				parts := 0
				if pre > 1 && len(ma)+len(mb) > 3 {
					parts = 8
				}
				x.exploreWith(fmt.Sprintf("%s of %v and %v", o.name, ma, mb), vsched.Config{Preemptions: pre, Level: 1, Parts: parts}, func() (func() error, func() error) {
					a := ma.tree()
					b := a
					if !same {
						b = mb.tree()
						if len(mb) > 0 && len(ma) > 0 { // the maps share a value
							k := ma[0].k
							if v, err := b.Get(k); err == nil && v.Cmp(mod(bi(ma[0].v))) == 0 {
								w, _ := a.Get(k)
								b.Insert(k, w)
							}
						}
					}
					f := utils.NewFq(refOrder)
					mon := unchanged(a, b)
					if o.own {
						mon = nil
					}
					return func() error {
						if err := o.f(f, a, b, ma, mb); err != nil {
							return err
						}
						if mon != nil {
							return mon()
						}
						return nil
					}, mon
				})
			}
		}
	}
	// pairs of operations at the same time
	for i, o1 := range ops {
		for j, o2 := range ops {
			if j < i || o1.own || o2.own {
				continue
			}
			o1, o2 := o1, o2
			for k, mp := range [][2]smap{{maps[2], maps[3]}, {maps[3], maps[3]}} {
				ma, mb, same := mp[0], mp[1], k == 1
				run := func(pre, level int) {
					x.explore(fmt.Sprintf("%s || %s of %v and %v", o1.name, o2.name, ma, mb), pre, level, func() (func() error, func() error) {
						a := ma.tree()
						b := a
						if !same {
							b = mb.tree()
						}
						f := utils.NewFq(refOrder)
						mon := unchanged(a, b)
						return func() error {
							return parallel(func() error { return o1.f(f, a, b, ma, mb) }, func() error { return o2.f(f, b, a, mb, ma) })
						}, mon
					})
				}
				slow := strings.Contains("Interpolate Divide", o1.name) || strings.Contains("Interpolate Divide", o2.name)
				if x.Thorough && !slow {
					run(2, 1)
				} else {
					run(1, 1)
				}
				if slow {
					run(1, 0)
				} else {
					run(2, 0)
				}
			}
		}
	}
	// the functions of the tool chain that stream
	for _, src := range []string{
		"func main(x,y){\nreturn x*y\n}\n",
		"func main(x,y,p){\npublic{p}\nvar v=x*y+3\nequal(v*v-x,p)\nreturn v/y\n}\n",
		"func main(x,y){\nSPLIT(x)\nreturn x[0]*y+x[1]\n}\n",
	} {
		src := src
		solved := func() (*circuit, []*big.Int, []*big.Int) {
			c := mustCompile(src, false)
			in := ints(3, 5, 321)[:len(c.inputs)]
			w, rej, crash := c.solveDense(in)
			if rej != nil || crash != nil {
				panic(fmt.Sprintf("%v %v", rej, crash))
			}
			return c, in, w
		}
		if strings.Contains(src, "SPLIT") {
			// hundreds of wires: the solver only, without preemption points at statements
			x.explore("solving\n"+src, 0, 0, func() (func() error, func() error) {
				c, in, w := solved()
				return func() error { return solveSame(c, in, w) }, nil
			})
			continue
		}
		x.explore("solving\n"+src, 1, 2, func() (func() error, func() error) {
			c, in, w := solved()
			return func() error { return solveSame(c, in, w) }, nil
		})
		x.explore("solving twice at the same time\n"+src, 1, 1, func() (func() error, func() error) {
			c, in, w := solved()
			return func() error {
				return parallel(func() error { return solveSame(c, in, w) }, func() error { return solveSame(c, in, w) })
			}, nil
		})
		two := 2
		if strings.Contains(src, "public") && !x.Thorough {
			two = 1
		}
		x.exploreWith("solving twice at the same time\n"+src, vsched.Config{Preemptions: two, Parts: 32}, func() (func() error, func() error) {
			c, in, w := solved()
			return func() error {
				return parallel(func() error { return solveSame(c, in, w) }, func() error { return solveSame(c, in, w) })
			}, nil
		})
		x.explore("transposition\n"+src, 1, 1, func() (func() error, func() error) {
			c := mustCompile(src, false)
			want := sparseKey(c.sparse.TransposeSparse())
			return func() error {
				if got := sparseKey(c.sparse.TransposeSparse()); got != want {
					return fmt.Errorf("transposition %s instead of %s", got, want)
				}
				return nil
			}, nil
		})
	}
	// the prover streams the witness polynomials
	for _, pre := range []int{0, 1} {
		src := "func main(x,y,p){\npublic{p}\nequal(x*y,p)\nreturn\n}\n"
		x.exploreWith("proving and verifying\n"+src, vsched.Config{Preemptions: pre, Parts: 1 + 31*pre}, func() (func() error, func() error) {
			c := mustCompile(src, false)
			p := paths[1]
			s, rej, crash := p.setup(c, &counterReader{3})
			if rej != nil || crash != nil {
				panic(fmt.Sprint(rej, crash))
			}
			return func() error {
				w, rej, crash := p.solve(c, ints(3, 5, 15))
				if rej != nil || crash != nil {
					return fmt.Errorf("solver: %v %v", rej, crash)
				}
				pr, rej, crash := p.prove(c, &s.Pk, w)
				if rej != nil || crash != nil {
					return fmt.Errorf("prover: %v %v", rej, crash)
				}
				if ok, crash := verify(&s.Pk, pr, w[:c.npub]); !ok {
					return fmt.Errorf("the proof does not verify (%v)", crash)
				}
				return nil
			}, nil
		})
	}
	for i, o1 := range ops {
		for j, o2 := range ops {
			if j >= i && !o1.own && !o2.own {
				x.concurrently("C17", fmt.Sprintf("%d %d", i, j), o1.name+" || "+o2.name)
			}
		}
	}
}

func sparseKey(t *cc.ER1CSsPARSETransposed) string {
	var sb strings.Builder
	for _, m := range [][]*utils.AvlTree{t.L, t.R, t.E, t.O} {
		for _, c := range m {
			sb.WriteString(c.String())
		}
		sb.WriteByte('|')
	}
	return sb.String()
}

func solveSame(c *circuit, in, w []*big.Int) error {
	got, rej, crash := c.solveSparse(copyInts(in))
	if rej != nil || crash != nil {
		return fmt.Errorf("%v %v", rej, crash)
	}
	if !sameInts(got, w) {
		return fmt.Errorf("witness %s instead of %s", showInts(got), showInts(w))
	}
	return nil
}

func init() {
	scenarios["C17"] = func(args []int) error {
		ops := schedOps()
		ma, mb := smap{{1, -2}, {2, 5}, {0, 1}, {3, 3}}, smap{{1, 2}, {0, 3}, {3, 1}}
		for i := 0; i < 8; i++ {
			a, b := ma.tree(), mb.tree()
			if i%2 == 1 {
				b = a
			}
			f := utils.NewFq(refOrder)
			mb2 := mb
			if i%2 == 1 {
				mb2 = ma
			}
			if err := together(func() error { return ops[args[0]].f(f, a, b, ma, mb2) }, func() error { return ops[args[1]].f(f, b, a, mb2, ma) }); err != nil {
				return err
			}
		}
		return nil
	}
}
