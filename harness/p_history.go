package main

// C09: the tool chain gives the same results after every history, in every process, under every order of iteration
// over its maps and under every schedule of its goroutines.

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zz_verif_sched"
)

func init() {
	register("C09", c09)
	metas["C09"] = meta{
		rule: "every history runs in a process of its own; each of its observations is compared with the one a process makes that performs only that operation, and everything obtained earlier is looked at again at the end. " +
			"Schedules: compilations run under the controlled scheduler, which also decides the order of every iteration over a map. Non-trivial: a history of at least two operations, or a scenario with at least two schedules",
		bounds:         "all histories of 1 and 2 operations over 12 programs and up to 7 operations each, of 3 operations over a quarter of them; compilation of every program under all schedules and map orders with 1 deviation at statements and 2 at operations on channels and maps; pairs of compilations with 1 deviation at operations on channels and maps; pairs of operations on different and the same programs under the race detector",
		boundsThorough: "histories of 3 operations over all programs with the operations that compile, solve and fail; compilations with 2 deviations at statements; pairs of compilations with 2 deviations",
		assumptions:    []string{"a history is compared with single operations, so a result that is wrong in every history is left to the other properties"},
	}
	scenarios["C09H"] = historyMain
	scenarios["C09"] = func(a []int) error {
		ops := historyOps()
		var got [2]string
		h1, h2 := newHistory(), newHistory()
		if err := together(func() error { got[0] = ops[a[0]].f(h1); return nil }, func() error { got[1] = ops[a[1]].f(h2); return nil }); err != nil {
			return err
		}
		for i := range got {
			if want := ops[a[i]].f(newHistory()); got[i] != want {
				return fmt.Errorf("%s: %s", ops[a[i]].name, diffAt(want, got[i]))
			}
		}
		return nil
	}
}

type hprog struct {
	name  string
	src   string
	good  [2][]int64
	bad   []int64 // no witness exists
	heavy bool    // hundreds of constraints
}

// The programs share names of functions, variables, arrays and globals, constants and values, with different meanings.
var hprogs = []hprog{
	{name: "product", src: "func main(x,y){\nreturn x*y\n}\n", good: [2][]int64{{3, 5}, {0, 7}}},
	{name: "sums", src: "func main(x,y){\nvar v=(x+2*y)*(3-y)\nvar w=v*1+0*x-v*2\nreturn w*(x+2*y)\n}\n", good: [2][]int64{{3, 5}, {1, 1}}},
	{name: "statement", src: "func main(x,y,p){\npublic{p}\nvar v=x*y+1\nequal(v*v,p)\nreturn v/y\n}\n", good: [2][]int64{{3, 5, 256}, {1, 1, 4}}, bad: []int64{3, 5, 255}},
	{name: "functions", src: "func f(a,b){\nreturn a*b\n}\nfunc g(a){\nreturn f(a,a)+1\n}\nfunc main(x,y){\nvar v=g(x)\nvar h=f(x)\nreturn h(y)*v\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "same names", src: "var v=7\nfunc f(a){\nreturn a+v\n}\nfunc g(a,b){\nreturn f(a)*f(b)\n}\nfunc main(x,y){\nreturn g(x,y)*v\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "recursion", src: "func f(a,n){\nif n==0{\nreturn 1\n}else{\nreturn a*f(a,n-1)\n}\n}\nfunc main(x,y){\nreturn f(x,3)*f(y,2)\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "loop", src: "func main(x,y){\nvar v[]={x,y,1,1}\nvar i=0\nfor(i<2;i=i+1){\nv[i+2]=v[i]*v[i+1]+i\n}\nreturn v[3]*v[2]\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "quotients", src: "func main(x,y){\nvar v=x/y\nequal(v*y,x)\nreturn (x+1)/(y*y)\n}\n", good: [2][]int64{{3, 5}, {2, 2}}, bad: []int64{3, 0}},
	{name: "returned function", src: "func k(a){\nvar f=func(b){\nreturn a*b+a\n}\nreturn f\n}\nfunc main(x,y){\nvar f=k(x)\nvar g=k(y)\nreturn f(y)*g(x)\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "gate", src: "func main(x,y){\nvar v=addGateConstraint(x,y+1)\nvar w=x*y\nreturn v*w*(x*y)\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
	{name: "bits", src: "func main(x,y){\nSPLIT(x)\nvar v=x*y\nSPLIT(v)\nreturn x[0]*y+v[1]\n}\n", good: [2][]int64{{3, 5}, {6, 9}}, heavy: true},
	{name: "curve", src: "func main(x,y){\nvar v=scalarBaseMultiply(x)\nreturn v*scalarBaseMultiply(y+1)\n}\n", good: [2][]int64{{3, 5}, {2, 2}}},
}

// history is what one process has obtained so far
type history struct {
	cur  map[int]*circuit
	kept []func() string // looks at an earlier result again
	was  []string
}

func newHistory() *history { return &history{cur: map[int]*circuit{}} }

func (h *history) keep(f func() string) string {
	s := f()
	h.kept = append(h.kept, f)
	h.was = append(h.was, s)
	return s
}

func (h *history) circuit(i int) *circuit {
	if h.cur[i] == nil {
		h.compile(i)
	}
	return h.cur[i]
}

func fullKey(c *circuit) string {
	var sb strings.Builder
	fmt.Fprint(&sb, c.inputs, c.prog.PublicInputs, c.npub, c.dense.NumberOfGates, c.dense.WitnessLength, c.sparse.NumberOfGates, c.sparse.WitnessLength)
	for k, m := range [][][]*big.Int{c.dense.L, c.dense.R, c.dense.E, c.dense.O} {
		for i, r := range m {
			fmt.Fprintf(&sb, "\n%c%d/%d", "LREO"[k], i, len(r))
			for j, v := range r {
				if v.Sign() != 0 {
					fmt.Fprintf(&sb, " %d:%s", j, shortInt(v))
				}
			}
		}
	}
	for k, m := range [][]*utils.AvlTree{c.sparse.L, c.sparse.R, c.sparse.E, c.sparse.O} {
		for i, t := range m {
			fmt.Fprintf(&sb, "\n%c%d", "lreo"[k], i)
			treeKey(&sb, t.Root())
		}
	}
	return sb.String()
}

func treeKey(sb *strings.Builder, n *utils.AvlNode) {
	if n != nil {
		treeKey(sb, n.Left())
		fmt.Fprintf(sb, " %d:%s", n.Key(), shortInt(n.Value()))
		treeKey(sb, n.Right())
	}
}

func (h *history) compile(i int) string {
	c, err := compile(hprogs[i].src, false)
	if err != nil {
		return "crash " + firstLine(err.Error())
	}
	h.cur[i] = c
	return h.keep(func() string { return fullKey(c) })
}

func (h *history) again(i int) string {
	c := h.circuit(i)
	d := &circuit{src: c.src, prog: c.prog, inputs: c.inputs}
	if err := guard(func() {
		d.gates = c.prog.Execute()
		d.npub = c.prog.GlobalInputCount()
		d.dense, d.sparse = c.prog.GatesToR1CS(d.gates, false), c.prog.GatesToSparseR1CS(d.gates, false)
	}); err != nil {
		return "crash " + firstLine(err.Error())
	}
	h.cur[i] = d
	return h.keep(func() string { return fullKey(d) })
}

// randomized translates the gates of the program once more, with the random constraint; its values are random
func (h *history) randomized(i int) string {
	c := h.circuit(i)
	d := &circuit{src: c.src, prog: c.prog, inputs: c.inputs, gates: c.gates}
	if err := guard(func() {
		d.sparse, d.dense = c.prog.GatesToSparseR1CS(c.gates, true), c.prog.GatesToR1CS(c.gates, true)
	}); err != nil {
		return "crash " + firstLine(err.Error())
	}
	return h.keep(func() string { return fullKey(d) })
}

func (h *history) solve(i int, in []int64) string {
	c := h.circuit(i)
	s := ""
	for k, solve := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
		w, rej, crash := solve(ints(in...))
		switch {
		case crash != nil:
			s += fmt.Sprint(k, " crash ", firstLine(crash.Error()))
		case rej != nil:
			s += fmt.Sprint(k, " refused ", rej)
		default:
			s += fmt.Sprint(k, h.keep(func() string { return showInts(w) }))
		}
	}
	return s
}

func (h *history) polynomials(i int) string {
	c := h.circuit(i)
	var s string
	if err := guard(func() {
		td, ts := c.dense.Transpose(), c.sparse.TransposeSparse()
		w, rej, crash := c.solveDense(ints(hprogs[i].good[0]...))
		if rej != nil || crash != nil {
			panic(fmt.Sprint(rej, crash))
		}
		var d [4][][]*big.Int
		var t [4][]*utils.AvlTree
		d[0], d[1], d[2], d[3] = td.ER1CSToEAP()
		t[0], t[1], t[2], t[3] = ts.ER1CSToEAPSparse()
		pd, ps := zk.CombinePolynomials2(w, td), zk.CombineSparsePolynomials(w, ts)
		n := c.dense.NumberOfGates
		dom := utils.Field.PolynomialField.DomainPolynomial(n)
		s = h.keep(func() string {
			var sb strings.Builder
			for k := range d {
				for j := range d[k] {
					sb.WriteString(showInts(d[k][j]))
				}
				for j := range t[k] {
					sb.WriteString(t[k][j].String())
				}
			}
			sb.WriteString(showInts(pd) + ps.String() + showInts(dom))
			return sb.String()
		})
	}); err != nil {
		return "crash " + firstLine(err.Error())
	}
	return s
}

func (h *history) prove(i int) string {
	c := h.circuit(i)
	s := ""
	for _, p := range paths {
		st, rej, crash := p.setup(c, &counterReader{uint64(i)})
		if rej != nil || crash != nil {
			return fmt.Sprint(s, "no setup ", rej, crash != nil)
		}
		s += h.keep(func() string { return keyBytes(&st.Pk) })
		w, rej, crash := p.solve(c, ints(hprogs[i].good[0]...))
		if rej != nil || crash != nil {
			return fmt.Sprint(s, "no witness ", rej, crash != nil)
		}
		pr, rej, crash := p.prove(c, &st.Pk, w)
		if rej != nil || crash != nil {
			s += fmt.Sprint("no proof ", rej, crash != nil)
			continue
		}
		ok, crash := verify(&st.Pk, pr, w[:c.npub])
		s += fmt.Sprint("verdict ", ok, crash != nil)
	}
	return s
}

type hop struct {
	name string
	prog int // -1: none
	kind byte
	same int // the operation with the same result, -1: none
	f    func(h *history) string
}

// failing source texts: compiled up to the crash
var hbad = []string{
	"func f(a){\nreturn a*2\n}\nfunc main(x,y){\nvar v=x*y\nequal(v,3)\nreturn f(x)*w\n}\n", // unknown variable
	"func f(a,b){\nreturn a*b\n}\nfunc main(x,y){\nvar v=f(x,y,x)\nreturn v\n}\n",           // too many arguments
	"func main(x,y){\nvar v=x*y\nvar v=x\nreturn v\n}\n",                                    // declared twice
	"func main(x,y){\nSPLIT(x)\nequal(x[0],y)\nequal(2,3)\nreturn v[1]\n}\n",                // contradiction
}

func historyOps() (r []hop) {
	add := func(name string, prog int, kind byte, same int, f func(h *history) string) {
		r = append(r, hop{name, prog, kind, same, f})
	}
	for i := range hprogs {
		i := i
		p := hprogs[i]
		c := len(r)
		add("compile "+p.name, i, 'c', -1, func(h *history) string { return h.compile(i) })
		add("translate "+p.name+" again", i, 'x', c, func(h *history) string { return h.again(i) })
		add("solve "+p.name, i, 's', -1, func(h *history) string { return h.solve(i, p.good[0]) })
		add("solve "+p.name+" for other inputs", i, 't', -1, func(h *history) string { return h.solve(i, p.good[1]) })
		if p.bad != nil {
			add("solve "+p.name+" for inputs without a witness", i, 'n', -1, func(h *history) string { return h.solve(i, p.bad) })
		}
		add("randomize "+p.name, i, 'r', -1, func(h *history) string { return h.randomized(i) })
		if !p.heavy {
			add("polynomials of "+p.name, i, 'p', -1, func(h *history) string { return h.polynomials(i) })
			if i < 3 {
				add("prove "+p.name, i, 'v', -1, func(h *history) string { return h.prove(i) })
			}
		}
	}
	for i := range hbad {
		i := i
		add(fmt.Sprintf("compile wrong text %d", i), -1, 'e', -1, func(h *history) string {
			_, err := compile(hbad[i], false)
			return fmt.Sprint(err != nil)
		})
	}
	add("small fields", -1, 'f', -1, func(h *history) string {
		s := ""
		for _, q := range []int64{5, 13, 101} {
			f := utils.NewFq(bi(q))
			a := utils.NewSparseArrayFromArray(ints(1, 2, 3))
			b := utils.NewSparseArrayFromArray(ints(0, 4, 1, 2))
			m := f.MulSparse(a, b)
			quo, rem := f.DivideSparse(b, a)
			s += h.keep(func() string { return m.String() + quo.String() + rem.String() })
			p := f.InterpolateSparseArray(a, 4)
			d := utils.PrepareFields(bi(q)).PolynomialField.LagrangeInterpolation(ints(1, 2, 3, 4))
			s += h.keep(func() string { return p.String() + showInts(d) })
		}
		return s
	})
	// many texts in one process: forwards, backwards, and every text three times in a row
	many := len(r)
	for k, order := range []func(i int) []int{
		func(i int) []int { return []int{i} },
		func(i int) []int { return []int{manyTexts - 1 - i} },
		func(i int) []int { return []int{i, (i * 7) % manyTexts, i} },
	} {
		same := many
		if k == 0 {
			same = -1
		}
		add("many texts "+[]string{"", "backwards", "interleaved"}[k], -1, 'm', same, func(h *history) string { return manyHistory(order) })
	}
	add("tokens", -1, 'l', -1, func(h *history) string { return fmt.Sprint(tokenize("func main(x){\nreturn x>=2 &&y\n}\n")) })
	return
}

const manyTexts = 1500

func manyText(i int) string {
	v, w := fmt.Sprintf("v%d", i%700), fmt.Sprintf("f%d", i%430)
	return fmt.Sprintf("var g%d=%d\nfunc %s(a,b){\nif %d<%d{\nreturn a*b+g%d\n}\nreturn a*(b+%d)\n}\nfunc main(x,y){\nvar %s=%s(x+%d,y)\nreturn %s*%s(y,x)\n}\n", i%5, i, w, i%3, i%4, i%5, i, v, w, i%11, v, w)
}

func manyHistory(order func(i int) []int) string {
	got := make([]string, manyTexts)
	for i := range got {
		for _, j := range order(i) {
			c, err := compile(manyText(j), false)
			if err != nil {
				return fmt.Sprintf("text %d: crash %s", j, firstLine(err.Error()))
			}
			w, rej, crash := c.solveSparse(ints(3, int64(j)))
			s := fmt.Sprintf("%016x %s %v %v", hash64(fullKey(c)), showInts(w), rej, crash)
			if got[j] == "" {
				got[j] = s
			} else if got[j] != s {
				return fmt.Sprintf("text %d: another result the second time", j)
			}
		}
	}
	for i, s := range got {
		if s == "" {
			return fmt.Sprintf("text %d was left out", i)
		}
	}
	return fmt.Sprintf("%016x", hash64(strings.Join(got, "\n")))
}

// historyMain performs operations in a fresh process and prints what it observes
func historyMain(args []int) error {
	ops := historyOps()
	h := newHistory()
	full := os.Getenv("VERIF_OBS") != ""
	show := func(s string) {
		if full {
			fmt.Printf("\nOBS %q\n", s)
		} else {
			fmt.Printf("\nOBS %016x\n", hash64(s))
		}
	}
	for _, k := range args {
		show(ops[k].f(h))
	}
	changed := ""
	for i, f := range h.kept {
		if s := f(); s != h.was[i] {
			changed += fmt.Sprintf("result %d: %s; ", i, diffAt(h.was[i], s))
		}
	}
	fmt.Printf("\nOBS %q\n", changed)
	return nil
}

// history runs a fresh process
func runHistory(ops []int, full bool) (obs []string, changed string, err error) {
	args := []string{"conc", "C09H"}
	for _, k := range ops {
		args = append(args, fmt.Sprint(k))
	}
	cmd := exec.Command(strings.TrimSuffix(os.Args[0], "-sched"), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if full {
		cmd.Env = append(cmd.Env, "VERIF_OBS=1")
	}
	var out, errs strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		s := errs.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return nil, "", fmt.Errorf("%v\n%s", err, s)
	}
	var lines []string
	for _, l := range strings.Split(out.String(), "\n") {
		if s := strings.TrimPrefix(l, "OBS "); s != l {
			lines = append(lines, s)
		}
	}
	if len(lines) != len(ops)+1 {
		return nil, "", fmt.Errorf("%d observations of %d operations", len(lines)-1, len(ops))
	}
	fmt.Sscanf(lines[len(ops)], "%q", &changed)
	return lines[:len(ops)], changed, nil
}

func (x *X) histories(ops []hop, solo map[int]string) func(sel []int) {
	one := func(k int) (string, error) {
		if s, ok := solo[k]; ok {
			return s, nil
		}
		x.Tick()
		o, changed, err := runHistory([]int{k}, false)
		if err == nil && changed != "" {
			err = fmt.Errorf("a result changed: %s", changed)
		}
		if err != nil {
			return "", fmt.Errorf("%s alone: %v", ops[k].name, err)
		}
		solo[k] = o[0]
		return o[0], nil
	}
	return func(sel []int) {
		sel = append([]int{}, sel...)
		names := make([]string, len(sel))
		for i, k := range sel {
			names[i] = ops[k].name
		}
		desc := strings.Join(names, "; ")
		if len(sel) > 100 {
			desc = fmt.Sprintf("%d operations starting with %s (%016x)", len(sel), strings.Join(names[:4], "; "), hash64(desc))
		}
		x.Case(desc, func() error {
			obs, changed, err := runHistory(sel, false)
			if err != nil {
				return err
			}
			x.Trace(1)
			x.Trans(len(sel))
			x.Eval(len(sel))
			for i, k := range sel {
				want, err := one(k)
				if err != nil {
					return err
				}
				if obs[i] != want {
					full, _, err := runHistory(sel, true)
					ref, _, err2 := runHistory([]int{k}, true)
					if err != nil || err2 != nil {
						return fmt.Errorf("operation %d (%s) has another result than alone; %v %v", i, ops[k].name, err, err2)
					}
					return fmt.Errorf("operation %d (%s) has another result than alone: %s", i, ops[k].name, diffAt(ref[0], full[i]))
				}
				if ops[k].same >= 0 {
					w, err := one(ops[k].same)
					if err != nil {
						return err
					}
					if obs[i] != w {
						return fmt.Errorf("operation %d (%s) has another result than %s", i, ops[k].name, ops[ops[k].same].name)
					}
				}
			}
			if changed != "" {
				return fmt.Errorf("earlier results changed: %s", changed)
			}
			x.State(strings.Join(obs, " "))
			if len(sel) > 1 {
				x.Nontrivial(desc)
			}
			return nil
		})
	}
}

func c09(x *X) {
	ops := historyOps()
	solo := map[int]string{}
	run := x.histories(ops, solo)
	for k := range ops {
		if ops[k].kind == 'm' {
			run([]int{k})
			continue
		}
		run([]int{k})
		run([]int{k, k})
		run([]int{k, k, k})
	}
	// long histories: every operation many times, all operations in turn
	var all, often []int
	repeat := 280
	if x.Thorough {
		repeat = 1100
	}
	for k, o := range ops {
		if o.kind == 'm' {
			continue
		}
		all = append(all, k)
		if o.kind == 'v' || o.prog >= 0 && hprogs[o.prog].heavy {
			continue
		}
		often = append(often, k)
		var same []int
		for i := 0; i < repeat; i++ {
			same = append(same, k)
		}
		run(same)
	}
	var turns []int
	for i := 0; i < repeat/28; i++ {
		turns = append(turns, often...)
		for j := range often { // and backwards
			turns = append(turns, often[len(often)-1-j])
		}
	}
	run(turns)
	for k, o := range ops {
		if o.kind == 'm' {
			run(append([]int{k}, all...))
		}
	}
	heavy := func(k int) bool { return ops[k].prog >= 0 && hprogs[ops[k].prog].heavy }
	light := func(k int) bool { return strings.IndexByte("csnef", ops[k].kind) >= 0 }
	for i := range ops {
		for j := range ops {
			if i != j && ops[i].kind != 'm' && ops[j].kind != 'm' && (x.Thorough || heavy(i) == heavy(j) || heavy(i) && light(i) && light(j) || heavy(j) && light(j) && light(i)) {
				run([]int{i, j})
			}
		}
	}
	var small []int
	for k, o := range ops {
		if o.kind == 'e' || o.kind == 'n' || (o.kind == 'c' || o.kind == 'x' || o.kind == 's') && !hprogs[o.prog].heavy && (x.Thorough || o.prog%3 == 2 || o.prog == 4) {
			small = append(small, k)
		}
	}
	for _, i := range small {
		for _, j := range small {
			for _, k := range small {
				if i != j && j != k {
					run([]int{i, j, k})
				}
			}
		}
	}
	// schedules and orders of iteration
	want := func(i int) (string, []string) {
		c := mustCompile(hprogs[i].src, false)
		var ws []string
		for _, in := range hprogs[i].good {
			w, rej, crash := c.solveDense(ints(in...))
			if rej != nil || crash != nil {
				panic(fmt.Sprint(rej, crash))
			}
			ws = append(ws, showInts(w))
		}
		return fullKey(c), ws
	}
	same := func(i int, key string) (*circuit, error) {
		c, err := compile(hprogs[i].src, false)
		if err != nil {
			return nil, err
		}
		if k := fullKey(c); k != key {
			return nil, fmt.Errorf("another system: %s", diffAt(key, k))
		}
		return c, nil
	}
	for i := range hprogs {
		i := i
		p := hprogs[i]
		scene := func(name string, cfg vsched.Config, body func(key string, ws []string) error) {
			var key string
			var ws []string
			x.exploreWith(name+" "+p.name, cfg, func() (func() error, func() error) {
				if ws == nil {
					key, ws = want(i)
				}
				return func() error { return body(key, ws) }, nil
			})
		}
		comp := func(key string, ws []string) error { _, err := same(i, key); return err }
		n := 1
		if x.Thorough && !p.heavy {
			n = 2
		}
		if !p.heavy {
			scene("compile", vsched.Config{Preemptions: 2, Level: 0, Maps: true, Parts: 16}, comp)
		} else if !x.Thorough {
			n = 0
		}
		scene("compile", vsched.Config{Preemptions: n, Level: 2, Maps: true, Parts: 16}, comp)
		cfg := vsched.Config{Preemptions: 1, Level: 0, Maps: true}
		if p.heavy {
			cfg = vsched.Config{Preemptions: 2, Level: -1, Maps: true, Parts: 16}
		}
		scene("compile, translate twice and solve", cfg, func(key string, ws []string) error {
			c, err := same(i, key)
			if err != nil {
				return err
			}
			for k, in := range p.good {
				for _, s := range []func([]*big.Int) ([]*big.Int, error, error){c.solveDense, c.solveSparse} {
					w, rej, crash := s(ints(in...))
					if rej != nil || crash != nil || showInts(w) != ws[k] {
						return fmt.Errorf("witness %s instead of %s, %v %v", showInts(w), ws[k], rej, crash)
					}
				}
			}
			g := c.prog.Execute()
			d := &circuit{prog: c.prog, inputs: c.inputs, npub: c.npub, dense: c.prog.GatesToR1CS(g, false), sparse: c.prog.GatesToSparseR1CS(g, false)}
			if k := fullKey(d); k != key {
				return fmt.Errorf("another system after translating again: %s", diffAt(key, k))
			}
			return nil
		})
		for j := 0; j <= i; j++ {
			j := j
			if (p.heavy || hprogs[j].heavy) && i != j {
				continue
			}
			n := 1
			if x.Thorough {
				n = 2
			}
			var k1, k2 string
			parts := 0
			if x.Thorough || p.heavy {
				parts = 16
			}
			x.exploreWith("compile "+p.name+" || compile "+hprogs[j].name, vsched.Config{Preemptions: n, Level: 0, Maps: true, Parts: parts}, func() (func() error, func() error) {
				if k1 == "" {
					k1, _ = want(i)
					k2, _ = want(j)
				}
				return func() error {
					return parallel(func() error { _, err := same(i, k1); return err }, func() error { _, err := same(j, k2); return err })
				}, nil
			})
		}
	}
	// accesses without synchronisation
	for i, a := range ops {
		for j := 0; j <= i; j++ {
			b := ops[j]
			if i != j && (strings.IndexByte("tv", a.kind) >= 0 || strings.IndexByte("tv", b.kind) >= 0) || a.kind == 'v' || a.kind == 'm' || b.kind == 'm' || a.prog == 10 && b.prog != 10 || b.prog == 10 && a.prog != 10 {
				continue
			}
			if !x.Thorough && i != j && (a.kind != b.kind && (i+j)%4 != 0) {
				continue
			}
			x.concurrently("C09", fmt.Sprintf("%d %d", i, j), a.name+" || "+b.name)
		}
	}
}
