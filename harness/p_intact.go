package main

// C25: sequences and pairs of prove and verify operations on shared objects.

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// clone copies a value with everything it refers to, unexported fields included
func clone(v interface{}) interface{} {
	seen := map[unsafe.Pointer]reflect.Value{}
	r := reflect.New(reflect.TypeOf(v)).Elem()
	s := reflect.New(reflect.TypeOf(v)).Elem()
	s.Set(reflect.ValueOf(v))
	cloneInto(r, s, seen)
	return r.Interface()
}

func cloneInto(d, s reflect.Value, seen map[unsafe.Pointer]reflect.Value) {
	open := func(v reflect.Value) reflect.Value {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch s.Kind() {
	case reflect.Ptr:
		if s.IsNil() {
			return
		}
		if p, ok := seen[s.UnsafePointer()]; ok && p.Type() == s.Type() {
			d.Set(p)
			return
		}
		n := reflect.New(s.Type().Elem())
		seen[s.UnsafePointer()] = n
		cloneInto(n.Elem(), s.Elem(), seen)
		d.Set(n)
	case reflect.Struct:
		for i := 0; i < s.NumField(); i++ {
			cloneInto(open(d.Field(i)), open(s.Field(i)), seen)
		}
	case reflect.Slice:
		if s.IsNil() {
			return
		}
		n := reflect.MakeSlice(s.Type(), s.Len(), s.Len())
		for i := 0; i < s.Len(); i++ {
			cloneInto(n.Index(i), s.Index(i), seen)
		}
		d.Set(n)
	case reflect.Array:
		for i := 0; i < s.Len(); i++ {
			cloneInto(d.Index(i), s.Index(i), seen)
		}
	case reflect.Map:
		if s.IsNil() {
			return
		}
		n := reflect.MakeMap(s.Type())
		for _, k := range s.MapKeys() {
			e := reflect.New(s.Type().Elem()).Elem()
			t := reflect.New(s.Type().Elem()).Elem()
			t.Set(s.MapIndex(k))
			cloneInto(e, t, seen)
			n.SetMapIndex(k, e)
		}
		d.Set(n)
	default:
		d.Set(s)
	}
}

// hidden collects the encodings of all group elements a value refers to in fields that are not exported
func hidden(v interface{}) string {
	var sb strings.Builder
	var walk func(s reflect.Value)
	walk = func(s reflect.Value) {
		switch s.Kind() {
		case reflect.Ptr:
			if s.IsNil() {
				sb.WriteString("nil")
				return
			}
			switch p := reflect.NewAt(s.Type(), unsafe.Pointer(s.UnsafeAddr())).Elem().Interface().(type) {
			case *bn256.G1:
				sb.Write(p.Marshal())
			case *bn256.G2:
				sb.Write(p.Marshal())
			case *bn256.GT:
				sb.Write(p.Marshal())
			case *big.Int:
				sb.WriteString(p.String())
			default:
				walk(s.Elem())
			}
		case reflect.Struct:
			for i := 0; i < s.NumField(); i++ {
				sb.WriteString("." + s.Type().Field(i).Name)
				walk(s.Field(i))
			}
		case reflect.Slice:
			fmt.Fprintf(&sb, "[%d", s.Len())
			for i := 0; i < s.Len(); i++ {
				walk(s.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v).Elem())
	return sb.String()
}

// party is a program with its key, two witnesses and proofs
type party struct {
	C    *circuit
	Pk   *zk.Pk
	W    [2][]*big.Int
	Bad  []*big.Int // violates a constraint
	Pr   [2]*zk.Proof
	Pub  [2][]*big.Int
	Dt   *cc.ER1CSTransposed
	St   *cc.ER1CSsPARSETransposed
	Pubs int
}

type scene struct{ A, B *party }

func makeParty(sp stmtProg, p path, seed uint64) *party {
	ins := satisfying(sp.p, 2)
	r, err := makeInstance(sp, p, ins[0], seed)
	if err != nil {
		panic(err)
	}
	q := &party{C: r.c, Pk: r.pk, Pubs: r.c.npub}
	q.W[0], q.Pr[0] = r.w, r.proof
	if q.W[1], q.Pr[1], err = r.prove(p, ins[1]); err != nil {
		panic(err)
	}
	for i := range q.W {
		q.Pub[i] = copyInts(q.W[i][:q.Pubs])
	}
	q.Bad = copyInts(q.W[0])
	n := len(q.Bad) - 1
	q.Bad[n] = add1(q.Bad[n])
	q.Dt, q.St = q.C.dense.Transpose(), q.C.sparse.TransposeSparse()
	return q
}

func makeScene() *scene {
	e := mustExpr
	ps := []string{"x", "y", "p", "q"}
	return &scene{
		A: makeParty(stmtProg{&P{params: ps, body: []*S{Ret(e("x*y"))}}, []string{"x"}}, paths[0], 5),
		B: makeParty(stmtProg{&P{params: ps, body: []*S{Decl("v", e("x*y")), Eq(e("v/(y+1)"), V("p")), Ret(nil)}}, []string{"p"}}, paths[1], 6),
	}
}

// fresh copies everything proving and verifying could touch; the matrices are shared and compared as well
func (s *scene) fresh() *scene {
	f := func(p *party) *party {
		q := *p
		q.Pk = clone(p.Pk).(*zk.Pk)
		for i := range q.W {
			q.W[i], q.Pub[i] = copyInts(p.W[i]), copyInts(p.Pub[i])
			q.Pr[i] = clone(p.Pr[i]).(*zk.Proof)
		}
		q.Bad = copyInts(p.Bad)
		return &q
	}
	return &scene{f(s.A), f(s.B)}
}

// snapshot is the value of every object; it works on a copy, because encoding an element normalises it
func (s *scene) snapshot() string {
	var sb strings.Builder
	for _, p := range []*party{s.A, s.B} {
		sb.WriteString(hidden(clone(p.Pk)))
		for i := range p.W {
			sb.WriteString("\nW" + showInts(p.W[i]) + "\nS" + showInts(p.Pub[i]) + "\nP" + proofBytes(clone(p.Pr[i]).(*zk.Proof)))
		}
		sb.WriteString("\nB" + showInts(p.Bad))
		sb.WriteString("\nM" + matrixKey(p.C))
		for _, m := range [][][]*big.Int{p.Dt.L, p.Dt.R, p.Dt.E, p.Dt.O} {
			for _, r := range m {
				sb.WriteString(showInts(r))
			}
		}
		n := p.C.dense.NumberOfGates
		for k, m := range [][]*utils.AvlTree{p.St.L, p.St.R, p.St.E, p.St.O, p.C.sparse.L, p.C.sparse.R, p.C.sparse.E, p.C.sparse.O} {
			l := n
			if k >= 4 {
				l = p.C.dense.WitnessLength
			}
			for _, t := range m {
				r, err := rowOf(t, l)
				sb.WriteString(showInts(r))
				if err != nil {
					sb.WriteString(err.Error())
				}
			}
		}
	}
	return sb.String()
}

type intactOp struct {
	name string
	f    func(s *scene) error
}

func intactOps() []intactOp {
	ver := func(name string, want bool, f func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int)) intactOp {
		return intactOp{name, func(s *scene) error {
			pk, pr, pub := f(s)
			ok, crash := verify(pk, pr, pub)
			if crash != nil {
				return crash
			}
			if ok != want {
				return fmt.Errorf("the verdict is %v", ok)
			}
			return nil
		}}
	}
	prove := func(name string, party func(s *scene) *party, k int, sparse bool) intactOp {
		return intactOp{name, func(s *scene) error {
			p := party(s)
			w := p.Bad
			if k >= 0 {
				w = p.W[k]
			}
			var pr *zk.Proof
			var rej error
			crash := guard(func() {
				if sparse {
					pr, rej = zk.GenerateProof_Sparse(p.Pubs, p.Pk, w, zk.CombineSparsePolynomials(w, p.St))
				} else {
					pr, rej = zk.GenerateProofs(p.Pubs, p.Pk, w, zk.CombinePolynomials2(w, p.Dt))
				}
			})
			if k < 0 {
				if rej == nil && crash == nil {
					return fmt.Errorf("no refusal")
				}
				return nil
			}
			if rej != nil || crash != nil {
				return fmt.Errorf("refused: %v %v", rej, crash)
			}
			if ok, crash := verify(p.Pk, pr, p.Pub[k]); !ok {
				return fmt.Errorf("the proof does not verify %v", crash)
			}
			return nil
		}}
	}
	a := func(s *scene) *party { return s.A }
	b := func(s *scene) *party { return s.B }
	return []intactOp{
		ver("verify(kA,proofA0,stmtA0)", true, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.A.Pk, s.A.Pr[0], s.A.Pub[0] }),
		ver("verify(kA,proofA0,stmtA1)", false, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.A.Pk, s.A.Pr[0], s.A.Pub[1] }),
		prove("prove dense A witness1", a, 1, false),
		prove("prove sparse B witness0", b, 0, true),
		ver("verify(kB,proofB0,stmtB0)", true, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.B.Pk, s.B.Pr[0], s.B.Pub[0] }),
		prove("prove sparse A wrong witness", a, -1, true),
		ver("verify(kB,proofA0,stmtA0)", false, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.B.Pk, s.A.Pr[0], s.A.Pub[0] }),
		ver("verify(kA,proofA1,stmtA1)", true, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.A.Pk, s.A.Pr[1], s.A.Pub[1] }),
		ver("verify(kA,proofA0,short)", false, func(s *scene) (*zk.Pk, *zk.Proof, []*big.Int) { return s.A.Pk, s.A.Pr[0], s.A.Pub[0][:1] }),
		prove("prove dense B wrong witness", b, -1, false),
		prove("prove sparse A witness0", a, 0, true),
		{"debug verify(kB,proofB0,stmtB0)", func(s *scene) error {
			ok := false
			if crash := guard(func() { ok = zk.VerifyProof(s.B.Pk, s.B.Pr[0], s.B.Pub[0], true) }); crash != nil || !ok {
				return fmt.Errorf("verdict %v %v", ok, crash)
			}
			return nil
		}},
		{"setup A again", func(s *scene) error {
			crash := guard(func() {
				withRandLocked(&counterReader{99}, func() {
					zk.GenerateTrustedSetup(s.A.Pubs, s.A.Dt)
					zk.GenerateTrustedSetupSparse(s.A.Pubs, s.A.St)
				})
			})
			return crash
		}},
	}
}

var randLock sync.Mutex

func withRandLocked(r *counterReader, f func()) {
	randLock.Lock()
	defer randLock.Unlock()
	withRand(r, f)
}

var theScene *scene
var theSnapshot string

func baseScene() *scene {
	if theScene == nil {
		theScene = makeScene()
		theSnapshot = theScene.snapshot()
	}
	return theScene
}

func c25(x *X) {
	ops := intactOps()
	seq := func(sel []int) {
		names := make([]string, len(sel))
		for i, k := range sel {
			names[i] = ops[k].name
		}
		desc := strings.Join(names, "; ")
		x.Case(desc, func() error {
			s := baseScene().fresh()
			for i, k := range sel {
				if err := ops[k].f(s); err != nil {
					return fmt.Errorf("operation %d (%s): %v", i, ops[k].name, err)
				}
				x.Tick()
				x.Trans(1)
				x.Eval(1)
			}
			x.Trace(1)
			snap := s.snapshot()
			x.StateHash(hash64(snap))
			x.Nontrivial(desc)
			if snap != theSnapshot {
				return fmt.Errorf("an object changed: %s", diffAt(theSnapshot, snap))
			}
			return nil
		})
	}
	n := len(ops)
	for k := 1; k <= 2; k++ {
		product(n, k, seq)
	}
	if x.Thorough {
		product(n-1, 3, seq)
		product(6, 4, seq)
	} else {
		product(7, 3, seq)
	}
	for i := range ops {
		for j := 0; j <= i; j++ {
			x.concurrently("C25", fmt.Sprintf("%d %d", i, j), ops[i].name+" || "+ops[j].name)
		}
	}
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d: %q became %q", i, cut(a), cut(b))
}

// concurrently runs a scenario in the binary built with the race detector
func (x *X) concurrently(id, arg, desc string) {
	x.Case("concurrently: "+desc, func() error {
		bin := strings.TrimSuffix(os.Args[0], "-sched") + "-race"
		if _, err := os.Stat(bin); err != nil {
			x.Note("the race detector is not available, concurrent pairs were not run")
			return nil
		}
		cmd := exec.Command(bin, append([]string{"conc", id}, strings.Fields(arg)...)...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
		var out strings.Builder
		cmd.Stdout, cmd.Stderr = nil, &out
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return err
		}
		go func() { done <- cmd.Wait() }()
		for t := 0; ; t++ {
			select {
			case err := <-done:
				x.Eval(1)
				x.Trace(1)
				x.Trans(2)
				x.Count("pairs run concurrently", 1)
				if err != nil {
					s := out.String()
					if len(s) > 4000 {
						s = s[:4000]
					}
					return fmt.Errorf("%v\n%s", err, s)
				}
				x.Nontrivial(desc)
				return nil
			case <-time.After(time.Second):
				if t < 60 {
					x.Tick()
				}
				if t > 300 {
					cmd.Process.Kill()
					return fmt.Errorf("no termination")
				}
			}
		}
	})
}

var scenarios = map[string]func(args []int) error{}

func concMain(args []string) {
	var n []int
	for _, a := range args[1:] {
		v := 0
		fmt.Sscan(a, &v)
		n = append(n, v)
	}
	if err := scenarios[args[0]](n); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// together runs the functions concurrently
func together(fs ...func() error) error {
	errs := make([]error, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			if crash := guard(func() { errs[i] = fs[i]() }); crash != nil {
				errs[i] = crash
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			return fmt.Errorf("operation %d: %v", i, e)
		}
	}
	return nil
}

func init() {
	scenarios["C25"] = func(a []int) error {
		ops := intactOps()
		s := baseScene().fresh()
		if err := together(func() error { return ops[a[0]].f(s) }, func() error { return ops[a[1]].f(s) }); err != nil {
			return err
		}
		if snap := s.snapshot(); snap != theSnapshot {
			return fmt.Errorf("an object changed: %s", diffAt(theSnapshot, snap))
		}
		return nil
	}
}
