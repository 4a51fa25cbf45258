package main

import (
	"fmt"
	"math/big"
	"strings"
)

// bodyGen enumerates statement lists by their number of statements
type bodyGen struct {
	simple func(d int) []*S
	forms  func(d int, n int, g *bodyGen) []([]*S) // compound statements with n inner statements
	memo   map[[2]int][][]*S
}

// lists returns every statement list with exactly n statements at nesting depth d
func (g *bodyGen) lists(d, n int) [][]*S {
	if n == 0 {
		return [][]*S{nil}
	}
	if r, ok := g.memo[[2]int{d, n}]; ok {
		return r
	}
	var r [][]*S
	for _, s := range g.simple(d) {
		for _, t := range g.lists(d, n-1) {
			r = append(r, append([]*S{s}, t...))
		}
	}
	for k := 0; k < n; k++ { // a compound statement with k inner statements, then the rest
		for _, f := range g.forms(d, k, g) {
			for _, t := range g.lists(d, n-1-k) {
				r = append(r, append(append([]*S{}, f...), t...))
			}
		}
	}
	g.memo[[2]int{d, n}] = r
	return r
}

func (g *bodyGen) pairs(d, n int, f func(a, b []*S)) {
	for i := 0; i <= n; i++ {
		for _, a := range g.lists(d, i) {
			for _, b := range g.lists(d, n-i) {
				f(a, b)
			}
		}
	}
}

func loopVar(d int) string { return string(rune('i' + d)) }

func controlForms(maxDepth int, conds []*Cond) func(d, n int, g *bodyGen) [][]*S {
	return func(d, n int, g *bodyGen) (r [][]*S) {
		if d >= maxDepth {
			return nil
		}
		one := func(s ...*S) { r = append(r, s) }
		for _, b := range g.lists(d+1, n) {
			for _, c := range conds {
				one(If([]*Cond{c}, b))
			}
			v := loopVar(d)
			one(Asg(v, N("0")), For(Cmp(V(v), "<", N("2")), Asg(v, B('+', V(v), N("1"))), b...))
		}
		if n > 0 {
			g.pairs(d+1, n, func(a, b []*S) {
				for _, c := range conds {
					one(If([]*Cond{c, nil}, a, b))
				}
				one(If([]*Cond{Cmp(V("b"), "<", N("3")), Cmp(V("b"), "<", N("4")), nil}, a, b, nil))
			})
		}
		if n > 1 {
			for i := 0; i <= n; i++ {
				for _, a := range g.lists(d+1, i) {
					g.pairs(d+1, n-i, func(b, c []*S) {
						one(If([]*Cond{Cmp(V("b"), "==", N("3")), Cmp(V("b"), ">", N("2")), nil}, a, b, c))
						one(If([]*Cond{Cmp(N("2"), "<", V("b")), Cmp(V("b"), "==", N("2")), nil}, a, b, c))
					})
				}
			}
		}
		return
	}
}

func init() {
	register("C02", c02)
	metas["C02"] = meta{
		rule: "all statement lists with up to n statements from an alphabet of assignments, local and shadowing declarations, array writes, assertions, returns, if, if-else, if-else-if-else and counting loops, nested, " +
			"placed in main and in a called function; every comparison operator on every pair of boundary values. Every variable is asserted at the end against a claim; right and wrong claims are tried. Non-trivial: a reference execution satisfies the assertions",
		bounds:         "up to 3 statements of the full alphabet (nesting depth 2), up to 4 of a reduced one; loops of up to 8 iterations; values of 45 shapes through every kind of assignment; programs of loops, chains and nests of conditions, arrays and assertions that grow to sizes of 100 (every size to 12, then around powers of two), the cheap ones to 513; every ninth program under other names; one input pair per program",
		boundsThorough: "up to 4 statements of the full alphabet (nesting depth 2), up to 5 of a reduced one (nesting depth 3); the families of quick up to size 257, the cheap ones to 2049; two input pairs",
		assumptions:    []string{"the reference interpreter (harness/lang.go) states the documented sequential, lexically scoped meaning", "variables are declared before they are used, as the README requires"},
	}
}

func c02(x *X) {
	asg := func(n string, op byte, l, r string) *S { return Asg(n, B(op, leaves(l)[0], leaves(r)[0])) }
	in := xyInputs(3, [2]*big.Int{bi(3), bi(5)})
	if x.Thorough {
		in = xyInputs(3, [2]*big.Int{bi(3), bi(5)}, [2]*big.Int{qm1, bi(4)})
	}
	run := func(p *P) {
		st := style{}
		x.Case(p.text(st), func() error { return x.checkProgram(p, st, in) })
		x.also(renameEvery, p, in)
	}
	x.scaled("c")
	pre := []*S{Decl("a", V("x")), Decl("b", N("2")), DeclArr("m", V("y"), N("7")), Decl("i", N("0")), Decl("j", N("0")), Decl("k", N("0"))}
	post := []*S{Eq(V("a"), V("p")), Eq(V("b"), V("q")), Eq(B('-', I("m", N("0")), B('*', N("3"), I("m", N("1")))), V("r"))}
	inMain := func(b []*S) {
		run(&P{params: []string{"x", "y", "p", "q", "r"}, body: append(append(append(append([]*S{}, pre...), b...), post...), Ret(nil))})
	}
	inFunc := func(b []*S) {
		run(&P{params: []string{"x", "y", "p", "q", "r"}, body: []*S{Decl("z", C("f", V("y"), V("x"))), Eq(V("z"), V("p")), Eq(V("x"), V("q")), Ret(nil)},
			globals: []*S{Fn("f", []string{"y", "x"}, append(append(append([]*S{}, pre...), b...), Ret(B('+', B('*', V("a"), N("5")), V("b"))))...)}})
	}
	// comparison operators on boundary values
	vals := []*E{N("0"), N("1"), N("2"), N(qm1.String()), B('-', N("0"), N("1")), N(new(big.Int).Rsh(refOrder, 1).String()), B('/', N("1"), N("2")), B('*', N("2"), N("3")), N("6")}
	for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
		for _, l := range vals {
			for _, r := range vals {
				run(&P{params: []string{"x", "y", "p", "q", "r"}, body: []*S{Decl("a", V("x")), If([]*Cond{Cmp(l, op, r), nil}, []*S{Asg("a", B('*', V("a"), V("x")))}, []*S{Asg("a", V("y"))}), Eq(V("a"), V("p")), Ret(nil)}})
			}
		}
	}
	// loops: start, end, step, comparison
	for s := 0; s <= 3; s++ {
		for e := 0; e <= 5; e++ {
			for _, step := range []int{1, 2, 3} {
				for _, op := range []string{"<", "<=", "!=", "=="} {
					n, ok := 0, true
					for v := s; (op == "<" && v < e) || (op == "<=" && v <= e) || (op == "!=" && v != e) || (op == "==" && v == e); v += step {
						if n++; n > 8 {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					run(&P{params: []string{"x", "y", "p", "q", "r"}, body: []*S{Decl("a", V("x")), Decl("i", N(fmt.Sprint(s))),
						For(Cmp(V("i"), op, N(fmt.Sprint(e))), Asg("i", B('+', V("i"), N(fmt.Sprint(step)))), Asg("a", B('+', B('*', V("a"), V("y")), V("i")))),
						Eq(V("a"), V("p")), Eq(V("i"), V("q")), Ret(nil)}})
				}
			}
		}
	}
	// values of every shape through every kind of assignment
	for _, s := range shapes() {
		sa := s.rename("x", "a")
		five := []string{"x", "y", "p", "q", "r"}
		uses := []*S{Eq(B('+', V("a"), V("y")), V("p")), Eq(B('*', V("a"), B('+', V("a"), V("y"))), V("q")), Eq(B('-', V("y"), V("a")), V("r")), Ret(nil)}
		for _, b := range [][]*S{
			{Decl("a", s)},
			{Decl("a", V("y")), Asg("a", s)},
			{Decl("b", V("x")), Decl("a", V("b")), Asg("a", sa), Asg("b", V("a")), Asg("a", B('-', V("b"), N("1"))), Asg("a", B('+', V("a"), B('*', V("b"), V("x"))))},
			{DeclArr("m", s, V("y")), Decl("a", I("m", N("0")))},
			{DeclArr("m", V("x"), s), Decl("a", V("x")), AsgIdx("m", N("0"), I("m", N("1"))), AsgIdx("m", N("1"), B('-', I("m", N("0")), I("m", N("1")))), Asg("a", B('+', I("m", N("0")), I("m", N("1"))))},
			{Decl("a", V("x")), Decl("i", N("0")), For(Cmp(V("i"), "<", N("2")), Asg("i", B('+', V("i"), N("1"))), Asg("a", sa))},
			{Decl("a", V("x")), Decl("b", V("y")), Decl("i", N("0")), For(Cmp(V("i"), "<", N("2")), Asg("i", B('+', V("i"), N("1"))), Decl("c", s), Asg("b", V("a")), Asg("a", B('-', V("c"), V("b"))))},
			{Decl("a", V("x")), Decl("b", s), If([]*Cond{Cmp(N("1"), "<", N("2")), nil}, []*S{Asg("a", V("b")), Decl("c", sa), Asg("a", V("c"))}, []*S{Asg("a", V("y"))})},
			{Decl("a", V("x")), Decl("b", V("a")), Asg("a", s), Asg("x", B('+', V("b"), V("a"))), Asg("a", B('-', V("x"), V("a")))},
		} {
			run(&P{params: five, body: append(append([]*S{}, b...), uses...)})
		}
		ret := []*S{Decl("z", C("f", V("y"), V("x"))), Eq(V("z"), V("p")), Eq(B('*', V("z"), V("y")), V("q")), Eq(B('-', V("y"), V("z")), V("r")), Ret(nil)}
		for _, b := range [][]*S{
			{Ret(s)},
			{Decl("a", s), Ret(V("a"))},
			{Decl("i", N("0")), For(Cmp(V("i"), "<", N("2")), Asg("i", B('+', V("i"), N("1"))), Ret(s)), Ret(V("y"))},
			{Decl("i", N("0")), For(Cmp(V("i"), "<", N("2")), Asg("i", B('+', V("i"), N("1"))), If([]*Cond{Cmp(V("i"), "==", N("1"))}, []*S{Ret(s)})), Ret(V("y"))},
			{If([]*Cond{Cmp(N("1"), ">", N("2")), nil}, []*S{Ret(V("y"))}, []*S{Asg("x", s), Ret(s)}), Ret(V("y"))},
		} {
			run(&P{params: five, body: ret, globals: []*S{Fn("f", []string{"y", "x"}, b...)}})
			run(&P{params: five, body: append([]*S{Fn("f", []string{"y", "x"}, b...)}, ret...)})
		}
		if strings.IndexAny(s.text(false), "xy") < 0 { // static values: conditions, indices and loop bounds
			for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
				for _, r := range []string{"0", "1", "0-1", "1/2", "2"} {
					run(&P{params: five, body: append([]*S{Decl("a", V("x")), Decl("b", s), Decl("c", mustExpr(r)),
						If([]*Cond{Cmp(V("b"), op, V("c")), nil}, []*S{Asg("a", B('*', V("a"), V("x")))}, []*S{Asg("a", V("y"))})}, uses...)})
				}
			}
		}
	}
	gen := func(simple func(d int) []*S, depth int, conds ...*Cond) *bodyGen {
		return &bodyGen{simple: simple, forms: controlForms(depth, conds), memo: map[[2]int][][]*S{}}
	}
	conds := []*Cond{Cmp(V("b"), "==", N("2")), Cmp(V("b"), ">", N("2"))}
	main1 := func(d int) []*S {
		r := []*S{asg("a", '*', "a", "y"), asg("b", '+', "b", "1"), asg("a", '+', "a", "b"), Ret(nil),
			AsgIdx("m", B('-', V("b"), N("2")), B('*', I("m", N("0")), V("a"))), Asg("a", I("m", N("1")))}
		if d > 0 {
			r = append(r, Decl("a", B('+', V("x"), N("1"))), Decl("c", V("a")))
		} else {
			r = append(r, Eq(V("a"), V("p")))
		}
		return r
	}
	fun1 := func(d int) []*S {
		return []*S{asg("a", '*', "a", "y"), asg("b", '+', "b", "1"), Ret(V("a")), Ret(B('*', V("b"), V("x"))), asg("x", '+', "x", "a")}
	}
	small := func(d int) []*S { return []*S{asg("a", '*', "a", "y"), asg("b", '+', "b", "1"), Ret(V("b"))} }
	okDecl := func(b []*S) bool { return validBody(b) && (len(b) == 0 || b[len(b)-1].k != 'r') }
	emit := func(g *bodyGen, n int, f func(b []*S)) {
		for _, b := range g.lists(0, n) {
			if okDecl(b) {
				f(b)
			}
		}
	}
	gm, gf, gs := gen(main1, 2, conds...), gen(fun1, 2, conds...), gen(small, 3, conds[0])
	nm, ns := 3, 4
	if x.Thorough {
		nm, ns = 4, 5
	}
	for n := 0; n <= nm; n++ {
		emit(gm, n, inMain)
		emit(gf, n, inFunc)
	}
	for n := nm + 1; n <= ns; n++ {
		emit(gs, n, inFunc)
	}
}

// validBody: no name is declared twice in a body, and none is used in a body before it is declared in the same body; a return ends its body
func validBody(b []*S) bool {
	decl := map[string]bool{}
	for i, s := range b {
		switch s.k {
		case 'r': // the grammar wants a return to end its body
			if i < len(b)-1 {
				return false
			}
		case 'd':
			if decl[s.name] {
				return false
			}
			// a shadowing declaration must be the first mention of the name in this body
			if s.e.mentions(s.name) {
				return false
			}
			for _, t := range b[:i] {
				if t.mentions(s.name) {
					return false
				}
			}
			decl[s.name] = true
		case 'i':
			for _, c := range s.bodies {
				if !validBody(c) {
					return false
				}
			}
		case 'l':
			if !validBody(s.body) {
				return false
			}
		}
	}
	return true
}

func (e *E) mentions(n string) bool {
	if e == nil {
		return false
	}
	if e.s == n && (e.op == 'v' || e.op == 'c' || e.op == 'i') {
		return true
	}
	for _, a := range e.a {
		if a.mentions(n) {
			return true
		}
	}
	return false
}
func (s *S) mentions(n string) bool {
	if s.name == n || s.e.mentions(n) || s.e2.mentions(n) {
		return true
	}
	for _, e := range append(append([]*E{}, s.idx...), s.elems...) {
		if e.mentions(n) {
			return true
		}
	}
	for _, c := range s.conds {
		if c != nil && (c.l.mentions(n) || c.r.mentions(n)) {
			return true
		}
	}
	for _, b := range append(append([][]*S{}, s.bodies...), s.body) {
		for _, t := range b {
			if t.mentions(n) {
				return true
			}
		}
	}
	return s.inc != nil && s.inc.mentions(n)
}
