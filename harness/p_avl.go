package main

// C16: the ordered map under operation histories.

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func init() {
	register("C16", c16)
	metas["C16"] = meta{
		rule: "(a) all operation sequences up to the depth over 3 keys and 16 operations (insert, insert zero, combining update modulo 3, guarded insertion, removal, clone and continue on the clone), every query compared with an ideal map after every operation; " +
			"(b) breadth-first search over all reachable trees (keys, values, shape and stored heights are the state) for larger key sets with insertion, guarded insertion and removal of every key in every state, each transition executed on the real tree by replaying its history. Non-trivial: histories that end in a nonempty map",
		bounds:         "(a) depth 5, up to depth 4 also read after every operation; (b) 4 keys to depth 12, 5 and 6 keys to depth 10, 7 keys to depth 8; the same with keys 0, 1, around 2^32, 2^63 and 2^64-1 and with scaled and negative values; maps of up to 100 entries in 6 orders of insertion and removal",
		boundsThorough: "(a) depth 6; (b) 4 keys to depth 20, 5 keys to depth 14, 6 keys to depth 12, 7 keys to depth 10, 9 keys to depth 8; maps of up to 257 entries",
		assumptions:    []string{"smallest element is asked of nonempty maps only"},
	}
}

type mapOp struct {
	kind byte // i insert, p combining update, n guarded insertion, r remove, c clone and continue on the clone
	key  uint
	val  int64
}

func (o mapOp) String() string {
	switch o.kind {
	case 'i':
		return fmt.Sprintf("Insert(%d,%d)", o.key, o.val)
	case 'p':
		return fmt.Sprintf("Put(%d,%d,add)", o.key, o.val)
	case 'n':
		return fmt.Sprintf("InsertNoOverwriteAllowed(%d,%d)", o.key, o.val)
	case 'r':
		return fmt.Sprintf("Remove(%d)", o.key)
	}
	return "Clone"
}

// world names the keys and values of the ideal map in the real one: keys are strictly increasing, values are multiplied
type world struct {
	name  string
	key   func(k uint) uint
	scale *big.Int
}

var worlds = []world{
	{"small", func(k uint) uint { return k }, bi(1)},
	{"from zero", func(k uint) uint {
		return []uint{^uint(0), 0, 1, 2, 7, 8, 9, 10, 11, 12}[k%10]
	}, new(big.Int).Lsh(bi(1), 64)},
	{"around 2^31 and 2^32", func(k uint) uint {
		return []uint{0, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 34, 1 << 35, 1 << 36, 1 << 37}[k%10]
	}, bi(-1)},
	{"around 2^63", func(k uint) uint {
		return []uint{5, 1 << 62, 1 << 63, ^uint(0) - 1, ^uint(0), 0, 0, 0, 0, 0}[k%10]
	}, new(big.Int).Set(refOrder)},
}

type mapState struct {
	w     *world
	t     *utils.AvlTree
	m     map[uint]int64
	other []*utils.AvlTree // originals of clones
	om    []map[uint]int64
}

func copyMap(m map[uint]int64) map[uint]int64 {
	r := map[uint]int64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *mapState) v(x int64) *big.Int { return new(big.Int).Mul(bi(x), s.w.scale) }

// combine adds modulo three
func (s *mapState) combine(a, b *big.Int) *big.Int {
	m := new(big.Int).Abs(s.v(3))
	r := new(big.Int).Add(a, b)
	if s.w.scale.Sign() < 0 {
		return r.Neg(r.Mod(r.Neg(r), m))
	}
	return r.Mod(r, m)
}

// apply executes one operation on the real map and the ideal one and compares what it reports
func (s *mapState) apply(o mapOp) error {
	old, had := s.m[o.key]
	switch o.kind {
	case 'i':
		s.t.Insert(s.w.key(o.key), s.v(o.val))
		s.m[o.key] = o.val
	case 'p':
		s.t.Put(s.w.key(o.key), s.v(o.val), s.combine)
		s.m[o.key] = (old + o.val) % 3
	case 'n':
		refused := guard(func() { s.t.InsertNoOverwriteAllowed(s.w.key(o.key), s.v(o.val)) }) != nil
		if refused != had {
			return fmt.Errorf("%v refused=%v, the key is present: %v", o, refused, had)
		}
		if !refused {
			s.m[o.key] = o.val
		}
	case 'r':
		v, err := s.t.Remove(s.w.key(o.key))
		if (err == nil) != had {
			return fmt.Errorf("%v reports %v, the key is present: %v", o, err, had)
		}
		if had && (v == nil || v.Cmp(s.v(old)) != 0) {
			return fmt.Errorf("%v returns %v, stored was %d", o, v, old)
		}
		delete(s.m, o.key)
	case 'c':
		s.other = append(s.other, s.t)
		s.om = append(s.om, copyMap(s.m))
		s.t = s.t.Clone()
	}
	if s.m[o.key] == 0 {
		delete(s.m, o.key)
	}
	return nil
}

func (s *mapState) check(maxKey uint, streams bool) error {
	if err := s.checkMap(s.t, s.m, maxKey, streams); err != nil {
		return err
	}
	for i, t := range s.other {
		if err := s.checkMap(t, s.om[i], maxKey, false); err != nil {
			return fmt.Errorf("the original of a clone changed: %v", err)
		}
	}
	return nil
}

func (s *mapState) checkMap(t *utils.AvlTree, m map[uint]int64, maxKey uint, streams bool) error {
	if t.Size() != len(m) {
		return fmt.Errorf("size %d, want %d (%v)", t.Size(), len(m), m)
	}
	var asc []uint
	for ik := uint(0); ik <= maxKey; ik++ {
		want, has := m[ik]
		k := s.w.key(ik)
		v, err := t.Get(k)
		if (err == nil) != has || t.Has(k) != has || has && v.Cmp(s.v(want)) != 0 || !has && v != nil && v.Sign() != 0 {
			return fmt.Errorf("lookup of %d gives %v %v, want %d %v", k, v, err, want, has)
		}
		if has {
			asc = append(asc, ik)
		}
	}
	d := t.DecendingNodes()
	if len(d) != len(asc) {
		return fmt.Errorf("descending traversal has %d entries, want %d", len(d), len(asc))
	}
	for i, e := range d {
		k := asc[len(asc)-1-i]
		if e.Key != s.w.key(k) || e.Value.Cmp(s.v(m[k])) != 0 {
			return fmt.Errorf("descending traversal %v, map %v", d, m)
		}
	}
	if len(asc) > 0 {
		mx, mn := t.MaxNode(), t.MinNode()
		if hi := asc[len(asc)-1]; mx.Key() != s.w.key(hi) || mx.Value().Cmp(s.v(m[hi])) != 0 || t.MaxPower() != mx.Key() {
			return fmt.Errorf("largest element %v, map %v", mx, m)
		}
		if lo := asc[0]; mn.Key() != s.w.key(lo) || mn.Value().Cmp(s.v(m[lo])) != 0 {
			return fmt.Errorf("smallest element %v, map %v", mn, m)
		}
	} else if t.MaxPower() != 0 {
		return fmt.Errorf("largest exponent of the empty map is %d", t.MaxPower())
	}
	if s.w.name == "small" {
		arr := t.ToArray(int(maxKey) + 1)
		for k, v := range arr {
			if v.Cmp(bi(m[uint(k)])) != 0 {
				return fmt.Errorf("array conversion gives %s, map %v", showInts(arr), m)
			}
		}
	}
	if !streams {
		return nil
	}
	i := 0
	for e := range t.ChannelNodes(true) {
		if i >= len(asc) || e.Key != s.w.key(asc[i]) || e.Value.Cmp(s.v(m[asc[i]])) != 0 {
			return fmt.Errorf("ascending traversal gives %d as number %d, map %v", e.Key, i, m)
		}
		i++
	}
	if i != len(asc) {
		return fmt.Errorf("ascending traversal ends after %d of %d entries", i, len(asc))
	}
	for e := range t.ChannelNodes(false) {
		i--
		if i < 0 || e.Key != s.w.key(asc[i]) || e.Value.Cmp(s.v(m[asc[i]])) != 0 {
			return fmt.Errorf("descending traversal gives %d, map %v", e.Key, m)
		}
	}
	if i != 0 {
		return fmt.Errorf("descending traversal ends early, map %v", m)
	}
	return nil
}

func treeSig(n *utils.AvlNode, sb *strings.Builder) {
	if n == nil {
		sb.WriteByte('.')
		return
	}
	fmt.Fprintf(sb, "(%d=%v@%d", n.Key(), n.Value(), n.Height())
	treeSig(n.Left(), sb)
	treeSig(n.Right(), sb)
	sb.WriteByte(')')
}

func sig(t *utils.AvlTree) string {
	var sb strings.Builder
	treeSig(t.Root(), &sb)
	return sb.String()
}

func c16(x *X) {
	var ops []mapOp
	for k := uint(1); k <= 3; k++ {
		ops = append(ops, mapOp{'i', k, 1}, mapOp{'p', k, 1}, mapOp{'p', k, 2}, mapOp{'n', k, 2}, mapOp{'r', k, 0})
	}
	ops = append(ops, mapOp{'c', 0, 0}, mapOp{'i', 2, 0})
	depth := 5
	if x.Thorough {
		depth = 6
	}
	for wi := range worlds {
		wd := &worlds[wi]
		depth := depth
		if wi > 0 {
			depth--
		}
		for n := 1; n <= 3; n++ {
			product(len(ops), n, func(v []int) {
				if n < 3 {
					x.Case(fmt.Sprint(wd.name, " keys, history ", opsOf(ops, v)), func() error { return x.history(wd, opsOf(ops, v), 4) })
					return
				}
				pre := append([]int{}, v...)
				x.Case(fmt.Sprint(wd.name, " keys, histories starting with ", opsOf(ops, pre)), func() (err error) {
					for d := 0; d <= depth-3 && err == nil; d++ {
						product(len(ops), d, func(w []int) {
							if err == nil {
								err = x.history(wd, append(opsOf(ops, pre), opsOf(ops, w)...), 4)
							}
						})
					}
					return
				})
			})
		}
	}
	// large maps: every pair of an order of insertion and an order of removal
	sizes := []int{10, 16, 17, 32, 33, 63, 64, 65, 100}
	if x.Thorough {
		sizes = append(sizes, 127, 128, 129, 200, 256, 257)
	}
	for _, n := range sizes {
		for i := range orders {
			for j := range orders {
				n, i, j := n, i, j
				x.Case(fmt.Sprintf("%d keys inserted %s, removed %s", n, orders[i].name, orders[j].name), func() error { return x.largeMap(n, i, j) })
			}
		}
	}
	type b struct{ keys, depth int }
	bs := []b{{4, 12}, {5, 10}, {6, 10}, {7, 8}}
	if x.Thorough {
		bs = []b{{4, 20}, {5, 14}, {6, 12}, {7, 10}, {9, 8}}
	}
	for _, k := range bs {
		k := k
		// the first insertion splits the search into independent parts
		for first := 1; first <= k.keys; first++ {
			first := first
			x.Case(fmt.Sprintf("all trees with %d keys, first insertion %d, depth %d", k.keys, first, k.depth), func() error {
				return x.searchTrees(k.keys, first, k.depth)
			})
		}
	}
}

func opsOf(ops []mapOp, v []int) []mapOp {
	r := make([]mapOp, len(v))
	for i, k := range v {
		r[i] = ops[k]
	}
	return r
}

var orders = []struct {
	name string
	at   func(i, n int) int
}{
	{"in ascending order", func(i, n int) int { return i }},
	{"in descending order", func(i, n int) int { return n - 1 - i }},
	{"from the middle", func(i, n int) int {
		if i%2 == 0 {
			return (n-1)/2 - i/2
		}
		return (n-1)/2 + (i+1)/2
	}},
	{"from both ends", func(i, n int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}},
	{"with a stride", func(i, n int) int {
		k := 7
		for gcdInt(k, n) != 1 {
			k++
		}
		return i * k % n
	}},
	{"even ones first", func(i, n int) int {
		if i < (n+1)/2 {
			return 2 * i
		}
		return 2*(i-(n+1)/2) + 1
	}},
}

func gcdInt(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

func (x *X) largeMap(n, ins, rem int) error {
	s := &mapState{w: &worlds[0], t: utils.NewAvlTree(), m: map[uint]int64{}}
	step := func(o mapOp, i int) error {
		x.Trans(1)
		if err := s.apply(o); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		every := 1 + n/16
		if i%every != 0 && i != n-1 {
			return nil
		}
		x.Eval(1)
		x.Tick()
		if err := s.check(uint(n), true); err != nil {
			return fmt.Errorf("after step %d, %v: %v", i, o, err)
		}
		return nil
	}
	for i := 0; i < n; i++ {
		if err := step(mapOp{'i', uint(orders[ins].at(i, n)), int64(i%5 + 1)}, i); err != nil {
			return err
		}
		if i == n/2 {
			if err := step(mapOp{'c', ^uint(0), 0}, i); err != nil {
				return err
			}
		}
		if i%3 == 0 { // update, remove and insert again
			k := uint(orders[ins].at(i/2, n))
			for _, o := range []mapOp{{'p', k, 1}, {'n', k, 1}, {'r', k, 0}, {'i', k, 2}} {
				if err := s.apply(o); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
			}
		}
	}
	x.State(sig(s.t))
	x.Trace(1)
	x.Nontrivial(fmt.Sprint(n, ins, rem))
	for i := 0; i < n; i++ {
		if err := step(mapOp{'r', uint(orders[rem].at(i, n)), 0}, i); err != nil {
			return fmt.Errorf("removing: %v", err)
		}
	}
	return nil
}

func (x *X) history(wd *world, h []mapOp, maxKey uint) error {
	s := &mapState{w: wd, t: utils.NewAvlTree(), m: map[uint]int64{}}
	for i, o := range h {
		if err := s.apply(o); err != nil {
			return fmt.Errorf("%v: %v", h[:i+1], err)
		}
	}
	x.Eval(1)
	x.Trans(1)
	x.Trace(1)
	x.State(sig(s.t))
	if len(s.m) > 0 {
		x.Nontrivial(fmt.Sprint(h))
	}
	if x.res.Stats.Evaluations%4096 == 0 {
		x.Tick()
	}
	if err := s.check(maxKey, len(h) <= 4); err != nil {
		return fmt.Errorf("after %v: %v", h, err)
	}
	if len(h) < 2 || len(h) > 4 {
		return nil
	}
	// the same with everything looked at after each operation
	s = &mapState{w: wd, t: utils.NewAvlTree(), m: map[uint]int64{}}
	for i, o := range h {
		if err := s.apply(o); err != nil {
			return fmt.Errorf("%v, read after each: %v", h[:i+1], err)
		}
		if err := s.check(maxKey, len(h) <= 3); err != nil {
			return fmt.Errorf("%v, read after each: %v", h[:i+1], err)
		}
	}
	return nil
}

func (x *X) searchTrees(keys, first, depth int) error {
	var ops []mapOp
	for k := uint(1); k <= uint(keys); k++ {
		ops = append(ops, mapOp{'i', k, 1}, mapOp{'r', k, 0})
	}
	ops = append(ops, mapOp{'n', uint(keys), 1}, mapOp{'n', 1, 1})
	seen := map[string]bool{}
	level := [][]byte{{byte(2 * (first - 1))}}
	for d := 1; d < depth && len(level) > 0; d++ {
		var next [][]byte
		for _, h := range level {
			for k := range ops {
				s := &mapState{w: &worlds[0], t: utils.NewAvlTree(), m: map[uint]int64{}}
				var err error
				for _, o := range h {
					if err = s.apply(ops[o]); err != nil {
						break
					}
				}
				if err == nil {
					err = s.apply(ops[k])
				}
				full := append(append([]byte{}, h...), byte(k))
				show := func() string {
					v := make([]int, len(full))
					for i, o := range full {
						v[i] = int(o)
					}
					return fmt.Sprint(opsOf(ops, v))
				}
				x.Trans(1)
				if err != nil {
					return fmt.Errorf("%s: %v", show(), err)
				}
				g := sig(s.t)
				// the content may be wrong even when the tree was seen before: compare always
				x.Eval(1)
				if err := s.check(uint(keys)+1, !seen[g] && len(seen)%16 == 0); err != nil {
					return fmt.Errorf("after %s: %v", show(), err)
				}
				if seen[g] {
					continue
				}
				seen[g] = true
				x.State(g)
				if len(s.m) > 0 {
					x.Nontrivial(g)
				}
				x.Trace(1)
				next = append(next, full)
			}
			x.Tick()
		}
		level = next
	}
	x.Count(fmt.Sprintf("trees_%d_keys", keys), len(seen))
	return nil
}
