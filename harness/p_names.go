package main

// Names and sizes: the same programs under other identifiers, and families of programs that grow in every dimension.

import (
	"fmt"
	"math/big"
	"strings"
)

// namings give the identifiers of a program other names. Builtins keep theirs.
var namings = []struct {
	name string
	at   func(i int) string
}{
	{"a, aa, aaa", func(i int) string { return strings.Repeat("a", i+1) }},
	{"x1, x11, x111", func(i int) string { return "x" + strings.Repeat("1", i+1) }},
	{"names starting with keywords", func(i int) string {
		return []string{"forx", "ifx", "varx", "funcx", "returnx", "elsex", "publicx", "importx", "equalx", "SPLITx", "arrayx", "mainx", "addGateConstraintx", "scalarBaseMultiplyx"}[i%14] + num(i/14)
	}},
	{"keywords in other cases", func(i int) string {
		return []string{"For", "IF", "Var", "Func", "Return", "Else", "Public", "Import", "Equal", "split", "Array", "Main", "EQUAL", "RETURN"}[i%14] + num(i/14)
	}},
	{"a, A, b, B", func(i int) string { return string("aAbBcCdDeEfFgGhHiIjJkKlLmM"[i%26]) + num(i/26) }},
	{"underscores", func(i int) string { return "a" + strings.Repeat("_", i+1) }},
	{"descending order", func(i int) string { return fmt.Sprintf("v%03d", 999-i) }},
	{"long names", func(i int) string { return strings.Repeat("long", 60) + fmt.Sprint(i) }},
	{"names of constants", func(i int) string {
		return []string{"one", "zero", "out", "in", "k", "w", "e", "E1", "F0", "q", "nil", "true", "false", "x0x1"}[i%14] + num(i/14)
	}},
}

func num(i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprint(i)
}

var builtins = map[string]bool{"addGateConstraint": true, "scalarBaseMultiply": true, "equal": true, "SPLIT": true}

type renamer struct {
	m  map[string]string
	at func(i int) string
}

func (r *renamer) n(s string) string {
	if s == "" || builtins[s] {
		return s
	}
	if i := strings.IndexByte(s, '['); i >= 0 {
		return r.n(s[:i]) + s[i:]
	}
	t, ok := r.m[s]
	if !ok {
		t = r.at(len(r.m))
		r.m[s] = t
	}
	return t
}
func (r *renamer) ns(s []string) (t []string) {
	for _, v := range s {
		t = append(t, r.n(v))
	}
	return
}
func (r *renamer) e(e *E) *E {
	if e == nil {
		return nil
	}
	c := *e
	switch c.op {
	case 'v', 'c', 'i':
		c.s = r.n(c.s)
	}
	c.a = r.es(e.a)
	return &c
}
func (r *renamer) es(a []*E) (t []*E) {
	for _, v := range a {
		t = append(t, r.e(v))
	}
	return
}
func (r *renamer) b(b []*S) (t []*S) {
	for _, s := range b {
		t = append(t, r.s(s))
	}
	return
}
func (r *renamer) s(s *S) *S {
	if s == nil {
		return nil
	}
	c := *s
	c.name = r.n(s.name)
	c.e, c.e2, c.idx, c.elems = r.e(s.e), r.e(s.e2), r.es(s.idx), r.es(s.elems)
	c.params, c.pub = r.ns(s.params), r.ns(s.pub)
	c.body, c.inc = r.b(s.body), r.s(s.inc)
	c.conds, c.bodies = nil, nil
	for _, k := range s.conds {
		if k == nil {
			c.conds = append(c.conds, nil)
		} else {
			c.conds = append(c.conds, &Cond{k.op, r.e(k.l), r.e(k.r)})
		}
	}
	for _, k := range s.bodies {
		c.bodies = append(c.bodies, r.b(k))
	}
	return &c
}

// renamed is the program under naming k
func renamed(p *P, k int) *P {
	r := &renamer{m: map[string]string{}, at: namings[k%len(namings)].at}
	return &P{params: r.ns(p.params), globals: r.b(p.globals), body: r.b(p.body), mainAt: p.mainAt}
}

// nameCollisions: products of variables and coefficients whose texts are alike when they are written one after the other
func nameCollisions(thorough bool, f func(p *P)) {
	names := []string{"x", "x1", "x11"}
	coef := []string{"1", "11", "111"}
	var atoms []*E
	for _, n := range names {
		for _, c := range coef {
			if c == "1" {
				atoms = append(atoms, V(n))
			} else {
				atoms = append(atoms, B('*', N(c), V(n)))
			}
		}
	}
	k := len(atoms)
	for i := 0; i < k; i++ {
		for j := i + 1; j < k; j++ {
			if thorough || (i+j)%2 == 1 {
				atoms = append(atoms, B('+', atoms[i], atoms[j]))
			}
		}
	}
	for i, a := range atoms {
		for j := i; j < len(atoms); j++ {
			for k, o := range []*E{V("z"), atoms[j]} {
				if k == 1 && i == j {
					continue
				}
				l := B('*', a, o)
				r := B('*', atoms[j], V("z"))
				f(&P{params: append(append([]string{}, names...), "z", "p", "q"), body: []*S{Eq(l, V("p")), Decl("u", r), Eq(B('+', V("u"), V("x")), V("q")), Ret(nil)}})
			}
		}
	}
}

// every renameEvery-th program is also checked under other names
const renameEvery = 9

// pairs k, l for which the hashes of (x+k*y)*z and (x+l*y)*z start with the same 16 digits
var collidingProducts = [][2]string{{"22742882", "51866942"}, {"69278682", "116301358"}, {"60840390", "156170889"}, {"32745328", "177351747"}}

func hashCollisions(f func(p *P)) {
	z := V("z")
	for _, k := range collidingProducts {
		l := B('+', V("x"), B('*', N(k[0]), V("y")))
		r := B('+', V("x"), B('*', N(k[1]), V("y")))
		for i := 0; i < 2; i++ {
			b := []*S{Decl("a", B('*', l, z)), Decl("b", B('*', z, r)), Eq(V("a"), V("p")), Eq(V("b"), V("q")), Ret(nil)}
			f(&P{params: []string{"x", "x1", "y", "z", "p", "q"}, body: b})
			f(&P{params: []string{"x", "x1", "y", "z", "p", "q"}, body: []*S{b[0], b[1], b[4]}})
			l, r = r, l
		}
	}
}

var collisionInputs = func() (r [][]*big.Int) {
	for _, v := range [][4]int64{{2, 3, 5, 7}, {3, 2, 7, 1}} {
		r = append(r, []*big.Int{bi(v[0]), bi(v[1]), bi(v[2]), bi(v[3]), nil, nil})
	}
	return
}()

// scaled programs: kind is e expressions, c control flow, f functions. All have the parameters x, y and the claim p.
func scaledPrograms(thorough bool, kinds string, f func(name string, p *P)) {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100}
	if thorough {
		sizes = append(sizes, 127, 128, 129, 200, 255, 256, 257)
	}
	e := mustExpr
	emit := func(name string, n int, globals []*S, body ...*S) {
		f(fmt.Sprintf("%s of size %d", name, n), &P{params: []string{"x", "y", "p"}, globals: globals, body: append(body, Ret(nil))})
	}
	eq := func(t *E) *S { return Eq(t, V("p")) }
	has := func(k byte) bool { return strings.IndexByte(kinds, k) >= 0 }
	term := func(i int) *E {
		return []*E{V("x"), V("y"), N(fmt.Sprint(i + 2)), B('*', N(fmt.Sprint(i+2)), V("x")), B('*', V("x"), V("y")), B('*', V("y"), N(fmt.Sprint(i)))}[i%6]
	}
	for _, n := range sizes {
		if has('e') {
			for _, ops := range []string{"+", "-", "*", "+-", "*+", "-*", "*-+", "*/", "/"} {
				if n > 40 && strings.Contains(ops, "/") && !thorough {
					continue
				}
				left, right := V("x"), V("y")
				flat := "x"
				for i := 0; i < n; i++ {
					o := ops[i%len(ops)]
					t := term(i)
					if o == '/' || o == '*' {
						t = []*E{V("y"), V("x"), N(fmt.Sprint(i + 2))}[i%3]
					}
					left = B(o, left, t)
					right = B(o, t, right)
					flat += string(o) + t.text(false)
				}
				emit("left chain "+ops, n, nil, eq(left))
				emit("right chain "+ops, n, nil, eq(right))
				emit("flat chain "+ops, n, nil, eq(mustExpr(flat)))
			}
			var bal func(lo, hi int, o string) *E
			bal = func(lo, hi int, o string) *E {
				if hi-lo == 1 {
					return term(lo)
				}
				return B(o[0], bal(lo, (lo+hi)/2, o[1:]+o[:1]), bal((lo+hi)/2, hi, o[1:]+o[:1]))
			}
			for _, o := range []string{"+*", "*+", "-*+", "*-"} {
				emit("balanced tree "+o, n, nil, eq(bal(0, n, o)))
			}
			// many variables
			b := []*S{Decl("v0", V("x"))}
			sum := V("v0")
			for i := 1; i <= n; i++ {
				v := fmt.Sprintf("v%d", i)
				b = append(b, Decl(v, B('+', B('*', V(fmt.Sprintf("v%d", i-1)), V("y")), V(fmt.Sprintf("v%d", i/2)))))
				sum = B('+', sum, B('*', N(fmt.Sprint(i)), V(v)))
			}
			emit("variables", n, nil, append(b[:len(b):len(b)], eq(sum))...)
			if n <= 33 || thorough {
				emit("product of two sums", n, nil, append(b, eq(B('*', B('-', sum, V("x")), B('+', sum, V("y")))))...)
			}
		}
		if has('c') {
			i1 := Asg("i", e("i+1"))
			lt := Cmp(V("i"), "<", N(fmt.Sprint(n)))
			i0, v0 := Decl("i", N("0")), Decl("v", V("x"))
			emit("loop", n, nil, i0, v0, For(lt, i1, Asg("v", e("v*y+i"))), eq(V("v")))
			emit("linear loop", n, nil, i0, v0, For(lt, i1, Asg("v", e("2*v-y-i"))), eq(V("v")))
			emit("loop with branches", n, nil, i0, v0, For(lt, i1, If([]*Cond{Cmp(V("i"), "==", N(fmt.Sprint(n-1))), Cmp(V("i"), "<", N(fmt.Sprint(n/2))), nil},
				[]*S{Asg("v", e("v*v"))}, []*S{Asg("v", e("v+y"))}, []*S{Asg("v", e("v-x"))})), eq(V("v")))
			if n <= 33 || thorough {
				emit("nested loops", n, nil, i0, v0, Decl("j", N("0")), For(lt, i1, Asg("j", N("0")), For(Cmp(V("j"), "<", N("3")), Asg("j", e("j+1")), Asg("v", e("v+i*y-j")))), eq(V("v")))
			}
			// long chains of conditions, the k-th one holds
			for _, k := range []int{0, n / 2, n - 1, n} {
				var cs []*Cond
				var bs [][]*S
				for i := 0; i < n; i++ {
					cs = append(cs, Cmp(N(fmt.Sprint(k)), "==", N(fmt.Sprint(i))))
					bs = append(bs, []*S{Asg("v", B('*', V("v"), N(fmt.Sprint(i+2))))})
				}
				cs = append(cs, nil)
				bs = append(bs, []*S{Asg("v", e("v*y"))})
				emit(fmt.Sprintf("chain of conditions, %d holds,", k), n, nil, v0, If(cs, bs...), eq(V("v")))
			}
			// deep nesting
			inner := []*S{Asg("v", e("v*y"))}
			for i := 0; i < n && n <= 65; i++ {
				inner = []*S{Asg("v", B('+', V("v"), N(fmt.Sprint(i)))), If([]*Cond{Cmp(N("1"), "<", N("2")), nil}, inner, []*S{Asg("v", N("0"))}), Asg("v", e("v-x"))}
			}
			if n <= 65 {
				emit("nested conditions", n, nil, append([]*S{v0}, append(inner, eq(V("v")))...)...)
			}
			// arrays
			var el []*E
			for i := 0; i < n; i++ {
				el = append(el, term(i))
			}
			emit("array", n, nil, DeclArr("a", el...), i0, Decl("v", N("0")), For(lt, i1, Asg("v", B('+', B('*', V("v"), N("3")), I("a", V("i"))))), AsgIdx("a", N(fmt.Sprint(n-1)), B('*', I("a", N("0")), V("v"))), eq(I("a", e(fmt.Sprint(n-1)))))
			// many assertions
			var b []*S
			b = append(b, v0)
			for i := 0; i < n; i++ {
				b = append(b, Asg("v", B('+', e("v*y"), N(fmt.Sprint(i)))), Eq(V("v"), B('+', e("0+v"), N("0"))))
			}
			emit("assertions", n, nil, append(b, eq(V("v")))...)
		}
		if has('f') {
			num := func(i int) *E { return N(fmt.Sprint(i)) }
			// parameters
			var ps []string
			var args []*E
			body := N("0")
			for i := 0; i < n; i++ {
				ps = append(ps, fmt.Sprintf("u%d", i))
				args = append(args, term(i))
				body = B('+', B('*', body, V("u0")), B('*', num(i+2), V(ps[i])))
				if i > 20 {
					body = B('+', body.a[0].a[0], B('*', num(i+2), V(ps[i])))
				}
			}
			emit("parameters", n, []*S{Fn("f", ps, Ret(body))}, eq(C("f", args...)))
			if n <= 33 || thorough {
				b := []*S{Decl("g0", C("f", args[0]))}
				for i := 1; i < n; i++ {
					b = append(b, Decl(fmt.Sprintf("g%d", i), C(fmt.Sprintf("g%d", i-1), args[i])))
				}
				emit("arguments one by one", n, []*S{Fn("f", ps, Ret(body))}, append(b, eq(V(fmt.Sprintf("g%d", n-1))))...)
			}
			// functions
			gl := []*S{Fn("f0", []string{"x"}, Ret(e("x*x+1")))}
			for i := 1; i < n; i++ {
				gl = append(gl, Fn(fmt.Sprintf("f%d", i), []string{"x"}, Decl("a", B('+', V("x"), num(i))), Ret(C(fmt.Sprintf("f%d", i-1), V("a")))))
			}
			emit("functions", n, gl, eq(C(fmt.Sprintf("f%d", n-1), V("y"))))
			// recursion
			if n <= 65 || thorough {
				rec := Fn("r", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(V("v"))}), Decl("t", e("v*n")), Decl("s", C("r", e("n-1"), e("t+1"))), Ret(e("s+t-v")))
				emit("recursion", n, []*S{rec}, eq(C("r", num(n), V("x"))))
			}
			// calls within calls
			t := V("x")
			for i := 0; i < n; i++ {
				t = C("f", t, num(i))
			}
			if n <= 33 || thorough {
				emit("calls within calls", n, []*S{Fn("f", []string{"u", "v"}, Ret(e("u*u-v")))}, eq(t))
			}
			// nested definitions
			in := Fn("h", []string{"b"}, Ret(e("b*x")))
			for i := 0; i < n && n <= 33; i++ {
				in = Fn("h", []string{"b"}, Decl("x", B('+', V("b"), num(i))), in, Ret(C("h", e("b+x"))))
			}
			if n <= 33 {
				emit("nested definitions", n, nil, in, eq(C("h", V("y"))))
			}
		}
	}
}

// largePrograms: large sizes of the families that stay cheap
func largePrograms(thorough bool, kinds string, f func(name string, p *P)) {
	e := mustExpr
	emit := func(name string, n int, globals []*S, body ...*S) {
		f(fmt.Sprintf("%s of size %d", name, n), &P{params: []string{"x", "y", "p"}, globals: globals, body: append(body, Ret(nil))})
	}
	eq := func(t *E) *S { return Eq(t, V("p")) }
	has := func(k byte) bool { return strings.IndexByte(kinds, k) >= 0 }
	num := func(i int) *E { return N(fmt.Sprint(i)) }
	sizes := []int{127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513}
	if thorough {
		sizes = append(sizes, 700, 1000, 1023, 1024, 1025, 2049)
	}
	for _, n := range sizes {
		i0, v0 := Decl("i", N("0")), Decl("v", V("x"))
		lt, i1 := Cmp(V("i"), "<", num(n)), Asg("i", e("i+1"))
		if has('e') {
			for _, ops := range []string{"+", "-", "+-"} {
				left, flat := V("x"), "x"
				for i := 0; i < n; i++ {
					t := []*E{V("y"), num(i + 2), B('*', num(i+2), V("x"))}[i%3]
					left = B(ops[i%len(ops)], left, t)
					flat += ops[i%len(ops):i%len(ops)+1] + t.text(false)
				}
				emit("left chain "+ops, n, nil, eq(left))
				emit("flat chain "+ops, n, nil, eq(mustExpr(flat)))
			}
			b := []*S{Decl("v0", V("x"))}
			for i := 1; i <= n; i++ {
				b = append(b, Decl(fmt.Sprintf("v%d", i), B('+', B('*', N("2"), V(fmt.Sprintf("v%d", i-1))), V("y"))))
			}
			emit("linear variables", n, nil, append(b, eq(V(fmt.Sprintf("v%d", n))))...)
			if n <= 300 {
				t := V("x")
				for i := 0; i < n; i++ {
					t = B("+*-"[i%3], t, []*E{V("y"), V("x"), num(i)}[i%3])
				}
				emit("chain of products", n, nil, eq(t))
			}
		}
		if has('c') {
			emit("linear loop", n, nil, i0, v0, For(lt, i1, Asg("v", e("2*v-y-i"))), eq(V("v")))
			emit("loop downwards", n, nil, Decl("i", num(n)), v0, For(Cmp(V("i"), ">", N("0")), Asg("i", e("i-1")), Asg("v", e("2*v-y-i"))), eq(V("v")))
			emit("loop in steps", n, nil, i0, v0, For(Cmp(V("i"), "!=", num(3*n)), Asg("i", e("i+3")), Asg("v", e("v+y-i"))), eq(V("v")))
			emit("loop with branches", n, nil, i0, v0, For(lt, i1, If([]*Cond{Cmp(V("i"), "==", num(n-1)), Cmp(V("i"), "<", num(n/2)), nil},
				[]*S{Asg("v", e("v*v"))}, []*S{Asg("v", e("v+y"))}, []*S{Asg("v", e("v-x"))})), eq(V("v")))
			for _, k := range []int{1, 2, n / 2, n - 1} {
				// the k-th run of the loop returns
				emit(fmt.Sprintf("loop left in round %d", k), n, []*S{Fn("f", []string{"a"}, Decl("i", N("0")), For(lt, i1, Asg("a", e("a+i+2")), If([]*Cond{Cmp(V("i"), "==", num(k))}, []*S{Ret(V("a"))})), Ret(N("0")))}, eq(C("f", V("x"))))
			}
			if n <= 300 {
				emit("loop", n, nil, i0, v0, For(lt, i1, Asg("v", e("v*y+i"))), eq(V("v")))
				var cs []*Cond
				var bs [][]*S
				for i := 0; i < n; i++ {
					cs = append(cs, Cmp(num(n-2), "==", num(i)))
					bs = append(bs, []*S{Asg("v", B('*', V("v"), num(i+2)))})
				}
				emit("chain of conditions", n, nil, v0, If(append(cs, nil), append(bs, []*S{Asg("v", e("v*y"))})...), eq(V("v")))
				var el []*E
				for i := 0; i < n; i++ {
					el = append(el, []*E{V("y"), num(i + 2), B('*', num(i+2), V("x"))}[i%3])
				}
				emit("array", n, nil, DeclArr("a", el...), i0, Decl("v", N("0")), For(lt, i1, Asg("v", B('+', B('*', V("v"), N("3")), I("a", V("i"))))), AsgIdx("a", num(n-1), B('-', I("a", N("0")), V("v"))), eq(I("a", num(n-1))))
			}
		}
		if has('f') {
			if n <= 300 {
				var ps []string
				var args []*E
				body := V("x")
				for i := 0; i < n; i++ {
					ps = append(ps, fmt.Sprintf("u%d", i))
					args = append(args, []*E{V("y"), num(i + 2), B('*', num(i+2), V("x"))}[i%3])
					body = B('+', body, B('*', num(i+2), V(ps[i])))
				}
				emit("parameters", n, []*S{Fn("f", append([]string{"x"}, ps...), Ret(body))}, eq(C("f", append([]*E{V("y")}, args...)...)))
				rec := Fn("r", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(V("v"))}), Decl("s", C("r", e("n-1"), e("v+n"))), Ret(e("s-v")))
				emit("recursion", n, []*S{rec}, eq(C("r", num(n), V("x"))))
			}
			emit("calls in a loop", n, []*S{Fn("f", []string{"u", "v"}, Decl("x", e("3*u")), Ret(e("x-v")))}, i0, v0, For(lt, i1, Asg("v", C("f", V("v"), V("i")))), eq(V("v")))
			emit("closure called in a loop", n, nil, i0, v0, Fn("f", []string{"u"}, Asg("v", e("v+u-i")), Ret(e("v+y"))), For(lt, i1, Asg("v", C("f", N("2")))), eq(V("v")))
		}
	}
}

func (x *X) scaled(kinds string) {
	in := xyInputs(1, xyQuick[0], xyQuick[2])
	one := func(name string, p *P) {
		x.Case(name, func() error { return x.checkProgram(p, style{}, in) })
	}
	scaledPrograms(x.Thorough, kinds, one)
	largePrograms(x.Thorough, kinds, one)
}

// also checks every n-th program under other names
func (x *X) also(n int, p *P, in [][]*big.Int) {
	x.nth++
	if x.nth%n != 0 {
		return
	}
	k := x.nth / n
	q := renamed(p, k)
	x.Case(namings[k%len(namings)].name+": "+q.text(style{}), func() error { return x.checkProgram(q, style{}, in) })
}

// scaledCorpus gives the scaled programs the parameters of the corpus
func scaledCorpus(thorough bool, max int, f func(name string, cp CP)) {
	scaledPrograms(thorough, "ecf", func(name string, p *P) {
		var n int
		fmt.Sscan(name[strings.LastIndexByte(name, ' ')+1:], &n)
		if n > max {
			return
		}
		b := append(append([]*S{}, p.body[:len(p.body)-1]...), Eq(V("q"), B('*', V("y"), V("y"))), Ret(nil))
		f(name, CP{p: &P{params: []string{"x", "y", "p", "q"}, globals: p.globals, body: b}})
	})
}
