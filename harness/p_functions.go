package main

import "fmt"

func init() {
	register("C03", c03)
	metas["C03"] = meta{
		rule: "all programs of up to n definitions, each storing a function obtained by naming, partially applying, returning, passing or re-binding earlier functions, or a value obtained by calling one, with side effects on captured variables in between, every value asserted afterwards; " +
			"all recursion bodies over small alphabets of locals, arguments and results; every split of the arguments of a function of up to four parameters; misuse (too many arguments, undeclared names) that has to be refused. Non-trivial: the reference execution satisfies the assertions",
		bounds:         "2 definitions over the full alphabet, 3 over a reduced one; recursion depth up to 4; argument splits up to 4 parameters; all sequences of 3 uses of the activations of functions with 0 to 2 parameters that return stateful closures; programs of parameters, functions, recursion, calls within calls and nested definitions that grow to sizes of 100 (every size to 12, then around powers of two), the cheap ones to 513; every ninth program under other names",
		boundsThorough: "3 definitions over the full alphabet; recursion depth up to 6; argument splits up to 5 parameters; activation sequences of 4; the families of quick up to size 257, the cheap ones to 2049",
		assumptions:    []string{"the reference interpreter (harness/lang.go) states the meaning: static scope, parameters by value, captured variables by reference", "names are declared before use"},
	}
}

type fval struct { // a callable name and the number of arguments it still takes
	name  string
	arity int
}

func c03(x *X) {
	in := xyInputs(3, xyQuick[0])
	if x.Thorough {
		in = xyInputs(3, xyQuick[0], xyQuick[2])
	}
	params := []string{"x", "y", "p", "q", "r"}
	run := func(globals []*S, mainAt int, body ...*S) {
		p := &P{params: params, globals: globals, mainAt: mainAt, body: body}
		x.Case(p.text(style{}), func() error { return x.checkProgram(p, style{}, in) })
		x.also(renameEvery, p, in)
	}
	x.scaled("f")
	e := func(s string) *E { return mustExpr(s) }
	// ---- the function environment; parameter and local names collide with names of the caller on purpose
	globals := []*S{
		Fn("f", []string{"x"}, Decl("a", e("x*x")), Asg("x", e("a+1")), Ret(e("a+x"))),
		Fn("h", []string{"x", "y"}, Decl("b", e("x*2")), Ret(e("b*y-x"))),
		Fn("k", []string{"y", "a", "x"}, Ret(e("y*a+x"))),
		Fn("mk", []string{"x"}, Decl("a", e("x*3")), FnVar("inner", []string{"y"}, Ret(e("a*y+x"))), Ret(e("inner"))),
		Fn("app", []string{"g", "x"}, Decl("a", N("7")), Ret(C("g", V("x")))),
		Fn("twice", []string{"f", "x"}, Ret(C("f", C("f", V("x"))))),
		Fn("comp", []string{"f", "g"}, FnVar("t", []string{"x"}, Ret(C("f", C("g", V("x"))))), Ret(e("t"))),
		Decl("glob", N("4")),
		Fn("useglob", []string{"a"}, Asg("glob", e("glob+1")), Ret(e("glob*a"))),
	}
	prelude := []*S{
		Decl("a", e("x+1")),
		FnVar("loc", []string{"u"}, Ret(e("u*a"))),                         // reads a captured variable
		FnVar("bump", []string{"u"}, Asg("a", e("a+u")), Ret(e("a"))),      // changes it
		Fn("loc2", []string{"u", "x"}, Decl("a", e("u*x")), Ret(e("a+y"))), // shadows it
	}
	env0 := []fval{{"f", 1}, {"h", 2}, {"k", 3}, {"mk", 0}, {"app", 0}, {"twice", 0}, {"comp", 0}, {"useglob", 1}, {"loc", 1}, {"bump", 1}, {"loc2", 2}}
	envSmall := []fval{{"h", 2}, {"k", 3}, {"mk", 0}, {"twice", 0}, {"loc", 1}, {"bump", 1}}
	type step struct {
		s   *S
		fn  *fval
		isV bool
	}
	steps := func(i int, env []fval, vals []string) (r []step) {
		t := fmt.Sprintf("t%d", i)
		v := fmt.Sprintf("v%d", i)
		es := []*E{V("y"), N("2")}
		for _, n := range vals {
			es = append(es, V(n))
		}
		fn1 := []string{}
		for _, f := range env {
			if f.arity == 1 {
				fn1 = append(fn1, f.name)
			}
		}
		for _, f := range env {
			f := f
			switch f.name {
			case "mk":
				for _, a := range es {
					r = append(r, step{s: Decl(t, C("mk", a)), fn: &fval{t, 1}})
				}
				continue
			case "app", "twice":
				for _, g := range fn1 {
					r = append(r, step{s: Decl(v, C(f.name, V(g), es[0])), isV: true})
					r = append(r, step{s: Decl(t, C(f.name, V(g))), fn: &fval{t, 1}})
				}
				continue
			case "comp":
				for _, g := range fn1 {
					for _, k := range fn1 {
						r = append(r, step{s: Decl(t, C("comp", V(g), V(k))), fn: &fval{t, 1}})
					}
				}
				continue
			}
			if f.arity > 0 {
				r = append(r, step{s: Decl(t, V(f.name)), fn: &fval{t, f.arity}})
			}
			for n := 1; n <= f.arity; n++ {
				for _, a := range es {
					args := []*E{a}
					for len(args) < n {
						args = append(args, es[(len(args)+1)%len(es)])
					}
					if n < f.arity {
						r = append(r, step{s: Decl(t, C(f.name, args...)), fn: &fval{t, f.arity - n}})
					} else {
						r = append(r, step{s: Decl(v, C(f.name, args...)), isV: true})
					}
				}
			}
		}
		r = append(r, step{s: Asg("a", e("a*3"))}, step{s: CallS(C("bump", N("5")))})
		return
	}
	finish := func(b []*S, env []fval, vals []string, n0 int) []*S {
		b = append([]*S{}, b...)
		claims := []string{"p", "q", "r"}
		sum := e("a")
		for i, v := range vals {
			sum = B('+', sum, B('*', N(fmt.Sprint(i*2+3)), V(v)))
		}
		b = append(b, Eq(sum, V(claims[0])))
		// every new function is called, twice if possible
		sum = nil
		w := 0
		for _, f := range env[n0:] {
			args := []*E{}
			for i := 0; i < f.arity; i++ {
				args = append(args, []*E{V("x"), N("3"), V("y"), V("x")}[i])
			}
			for k := 0; k < 2; k++ {
				name := fmt.Sprintf("w%d", w)
				w++
				b = append(b, Decl(name, C(f.name, args...)))
				t := B('*', N(fmt.Sprint(w+1)), V(name))
				if sum == nil {
					sum = t
				} else {
					sum = B('+', sum, t)
				}
			}
		}
		if sum != nil {
			b = append(b, Eq(sum, V(claims[1])))
		}
		return append(b, Eq(V("a"), V(claims[2])), Ret(nil))
	}
	var rec func(i, n int, b []*S, env []fval, vals []string, n0 int)
	rec = func(i, n int, b []*S, env []fval, vals []string, n0 int) {
		if i == n {
			run(globals, 4, finish(b, env, vals, n0)...)
			return
		}
		for _, s := range steps(i, env, vals) {
			ne, nv := env, vals
			if s.fn != nil {
				ne = append(append([]fval{}, env...), *s.fn)
			}
			if s.isV {
				nv = append(append([]string{}, vals...), s.s.name)
			}
			rec(i+1, n, append(append([]*S{}, b...), s.s), ne, nv, n0)
		}
	}
	for n := 1; n <= 2; n++ {
		rec(0, n, prelude, env0, nil, len(env0))
	}
	// ---- argument splits of a function with m parameters
	names := []string{"x", "a", "y", "b", "z"}
	maxM := 4
	if x.Thorough {
		maxM = 5
	}
	for m := 1; m <= maxM; m++ {
		body := V(names[0])
		for i := 1; i < m; i++ {
			body = B('+', B('*', body, V(names[i])), N(fmt.Sprint(i)))
		}
		g := []*S{Fn("F", names[:m], Ret(body))}
		args := []*E{e("x+1"), V("y"), e("x*y"), N("5"), V("x")}[:m]
		for mask := 0; mask < 1<<(m-1); mask++ {
			var b []*S
			fn := "F"
			start := 0
			k := 0
			for i := 0; i < m; i++ {
				if i == m-1 || mask>>i&1 == 1 {
					k++
					nm := fmt.Sprintf("s%d", k)
					b = append(b, Decl(nm, C(fn, args[start:i+1]...)))
					fn = nm
					start = i + 1
				}
			}
			// the same split again, in between the first use: preloaded functions are reusable
			b2 := append([]*S{}, b...)
			b2 = append(b2, Eq(V(fn), V("p")))
			full := C("F", args...)
			b2 = append(b2, Eq(full, V("q")), Eq(B('-', V(fn), C("F", args...)), N("0")), Ret(nil))
			run(g, 1, b2...)
			if k > 1 { // reuse an intermediate function with different arguments
				prev := b[len(b)-2].name
				rest := args[len(args)-restLen(b[len(b)-1]):]
				other := make([]*E, len(rest))
				for i := range other {
					other[i] = N(fmt.Sprint(11 + i))
				}
				b3 := append(append([]*S{}, b...), Decl("again", C(prev, other...)), Decl("first", C(prev, rest...)),
					Eq(V(fn), V("p")), Eq(V("again"), V("q")), Eq(V("first"), V("r")), Ret(nil))
				run(g, 1, b3...)
			}
		}
		// misuse
		run(g, 1, Eq(C("F", append(append([]*E{}, args...), V("y"))...), V("p")), Ret(nil))
		run(g, 1, Decl("s", C("F", args[:m]...)), Decl("t", C("s2", V("x"))), Ret(nil))
		if m > 1 {
			run(g, 1, Decl("s", C("F", args[:1]...)), Eq(C("s", args...), V("p")), Ret(nil))
		}
	}
	run(nil, 0, Eq(C("nope", V("x")), V("p")), Ret(nil))
	run(nil, 0, Eq(V("nope"), V("p")), Ret(nil))
	run(nil, 0, Asg("nope", V("x")), Ret(nil))
	run([]*S{Fn("F", []string{"u"}, Decl("hidden", V("u")), Ret(V("u")))}, 0, Decl("s", C("F", V("x"))), Eq(V("hidden"), V("p")), Ret(nil))
	run([]*S{Fn("F", []string{"u"}, Fn("in", []string{"w"}, Ret(V("w"))), Ret(V("u")))}, 0, Decl("s", C("F", V("x"))), Eq(C("in", V("x")), V("p")), Ret(nil))
	run([]*S{Fn("F", []string{"u"}, Ret(e("u+s")))}, 0, Decl("s", V("x")), Eq(C("F", V("x")), V("p")), Ret(nil))
	// ---- values of every shape as arguments, captured variables, bound arguments and results
	for _, s := range shapes() {
		for _, r := range []string{"u", "0-u", "u+v", "u-v", "v-u", "u*v", "2*u+3", "u*u-v*v"} {
			body := e(r)
			for _, arg := range []*E{V("y"), s} {
				if !x.Thorough && arg == s && len(r) < 4 {
					continue
				}
				end := []*S{Eq(V("z"), V("p")), Eq(B('*', V("z"), V("y")), V("q")), Eq(B('-', V("z"), C("F", arg, s)), V("r")), Ret(nil)}
				with := func(b ...*S) []*S { return append(b, end...) }
				run([]*S{Fn("F", []string{"u", "v"}, Ret(body))}, 1, with(Decl("z", C("F", s, arg)))...)
				run([]*S{Fn("F", []string{"u", "v"}, Asg("u", body), Asg("v", e("u+v")), Ret(e("u*2-v")))}, 1, with(Decl("z", C("F", s, arg)))...)
				run([]*S{Fn("F", []string{"u", "v"}, Ret(body))}, 1, with(Decl("G", C("F", s)), Decl("z", C("G", arg)))...)
				run([]*S{Fn("F", []string{"u", "v"}, Ret(body))}, 1, with(Decl("v", s), FnVar("G", []string{"u"}, Ret(body)), Decl("z", C("G", arg)), Asg("v", V("x")), Asg("z", B('+', V("z"), C("G", arg))))...)
			}
		}
	}
	// ---- functions returned from every position of a body
	mk := FnVar("t", []string{"b"}, Ret(e("b*u+v")))
	mk2 := FnVar("t2", []string{"b"}, Asg("v", e("v+1")), Ret(e("b-v")))
	inc := Asg("i", e("i+1"))
	lt := func(a, b string) *Cond { return Cmp(e(a), "<", e(b)) }
	for _, made := range []*E{V("t"), V("t2"), C("K", V("u"), V("v")), V("g"), C("two", V("u"))} {
		for _, b := range [][]*S{
			{Ret(made)},
			{For(lt("i", "3"), inc, Asg("v", e("v*u")), Ret(made)), Ret(V("g"))},
			{For(lt("i", "3"), inc, Asg("v", e("v*u")), If([]*Cond{lt("1", "i")}, []*S{Ret(made)})), Ret(V("g"))},
			{For(lt("i", "2"), inc, Asg("v", e("v*u"))), Ret(made)},
			{If([]*Cond{lt("1", "2")}, []*S{Ret(made)}), Ret(V("g"))},
			{If([]*Cond{lt("2", "1"), nil}, []*S{Ret(V("g"))}, []*S{Asg("v", V("u")), Ret(made)}), Ret(V("g"))},
			{If([]*Cond{lt("2", "1"), lt("1", "3"), nil}, []*S{Ret(V("g"))}, []*S{If([]*Cond{lt("1", "2")}, []*S{Ret(made)})}, []*S{Ret(V("g"))}), Ret(V("g"))},
			{Decl("r", V("g")), Asg("r", made), Ret(V("r"))},
			{Decl("r", V("g")), For(lt("i", "2"), inc, Asg("r", made), Asg("u", e("u+1"))), Ret(V("r"))},
			{Decl("r", V("g")), If([]*Cond{lt("1", "2")}, []*S{Asg("r", made), Asg("v", e("v+3"))}), Ret(V("r"))},
			{DeclArr("m", V("g"), made), For(lt("i", "1"), inc, Ret(I("m", N("1")))), Ret(V("g"))},
		} {
			// a function is created anew where it is defined, before the position it is returned from
			pick := append([]*S{Decl("i", N("0")), mk, mk2}, b...)
			gl := []*S{Fn("K", []string{"u", "v", "b"}, Ret(e("u-v*b"))), Fn("two", []string{"u"}, FnVar("w", []string{"b"}, Ret(e("u*b"))), Ret(V("w"))), Fn("pick", []string{"g", "u", "v"}, pick...), Fn("neg", []string{"b"}, Ret(e("0-b")))}
			run(gl, 4, Decl("f", C("pick", V("neg"), V("x"), V("y"))), Eq(C("f", V("y")), V("p")), Decl("h", C("pick", V("neg"), V("y"), N("2"))), Eq(C("h", e("x+1")), V("q")), Eq(C("f", V("x")), V("r")), Ret(nil))
			run(gl, 0, Decl("P", C("pick", V("neg"))), Decl("f", C("P", V("x"), V("y"))), Eq(C("app2", V("f"), V("y")), V("p")), Eq(C("f", e("x+1")), V("q")), Ret(nil))
			run(append([]*S{Fn("app2", []string{"f", "b"}, Ret(C("f", V("b"))))}, gl...), 5, Decl("P", C("pick", V("neg"))), Decl("f", C("P", V("x"), V("y"))), Eq(C("app2", V("f"), V("y")), V("p")), Eq(C("f", e("x+1")), V("q")), Ret(nil))
		}
	}
	// ---- activations: functions with state, made by factories, called in every order
	counter := func(v string, as string) *S { return FnVar("f", []string{"b"}, Asg(v, e(as)), Ret(e(v))) }
	facts := []struct {
		decl *S
		args []*E
	}{
		{Fn("mk", nil, Decl("a", N("1")), counter("a", "a+b"), Ret(V("f"))), nil},
		{Fn("mk", nil, Decl("a", e("x*y")), counter("a", "a*b"), Ret(V("f"))), nil},
		{Fn("mk", []string{"u"}, counter("u", "u*2+b"), Ret(V("f"))), []*E{V("y")}},
		{Fn("mk", []string{"u"}, Decl("a", V("u")), Fn("g", nil, Asg("a", e("a+u")), Ret(V("a"))), FnVar("f", []string{"b"}, Asg("u", e("u+b")), Ret(C("g"))), Ret(V("f"))), []*E{e("x+1")}},
		{Fn("mk", []string{"u", "v"}, Decl("a", e("u*v")), FnVar("f", []string{"b"}, Asg("a", e("a+b")), Asg("u", e("u+1")), Ret(e("a*u"))), Ret(V("f"))), []*E{V("x"), V("y")}},
		{Fn("mk", nil, Fn("in", nil, Decl("a", N("2")), counter("a", "a*a+b"), Ret(V("f"))), Ret(C("in"))), nil},
		{Fn("mk", nil, Decl("i", N("0")), Decl("a", N("3")), For(Cmp(V("i"), "<", N("2")), Asg("i", e("i+1")), Asg("a", e("a+i"))), counter("a", "a+b*i"), Ret(V("f"))), nil},
	}
	acc := func(c *E) *S { return Asg("s", B('+', e("s*3"), c)) }
	for fi := range facts {
		f := facts[fi]
		mk := C("mk", f.args...)
		ops := []*S{acc(C("g", V("x"))), acc(C("h", V("y"))), acc(C("k", N("2"))), Asg("k", V("g")), Asg("g", V("h")), Asg("g", mk), acc(C("use", V("g"), V("y"))), acc(C("z")), acc(C(
			"once", V("y")))}
		depth := 3
		if x.Thorough {
			depth = 4
		}
		for n := 1; n <= depth; n++ {
			product(len(ops), n, func(v []int) {
				b := []*S{Decl("s", N("0")), Decl("g", mk), Decl("h", mk), Decl("k", V("h")), FnVar("z", nil, Asg("s", e("s+1")), Ret(C("g", N("5"))))}
				for _, k := range v {
					b = append(b, ops[k])
				}
				b = append(b, Eq(V("s"), V("p")), Eq(C("g", N("1")), V("q")), Eq(C("h", N("1")), V("r")), Ret(nil))
				use := Fn("use", []string{"t", "b"}, Ret(C("t", V("b"))))
				once := func(args ...*E) *S {
					return Fn("once", []string{"w"}, Decl("o", C("mk", args...)), Decl("o2", C("mk", args...)), Decl("r", C("o", V("w"))), Ret(B('+', B('*', V("r"), N("2")), C("o2", V("w")))))
				}
				if fi == 1 || n < 3 || x.Thorough {
					run(nil, 0, append([]*S{f.decl, use, once(f.args...)}, b...)...)
				}
				if fi != 1 {
					run([]*S{f.decl, use, once(ints2E(len(f.args))...)}, 3, b...)
				}
			})
		}
	}
	// ---- recursion
	maxN := 4
	if x.Thorough {
		maxN = 6
	}
	base := []*E{e("v"), e("1"), e("v*v")}
	loc := []*E{e("v*n"), e("v+2"), e("v*v")}
	arg := []*E{e("v+1"), e("t"), e("v*t")}
	res := []*E{e("t+s"), e("t*s-v"), e("s*n+t"), e("s"), e("n*v+s")}
	for n := 0; n <= maxN; n++ {
		for _, b0 := range base {
			for _, l := range loc {
				for _, a := range arg {
					for _, r := range res {
						rec := func(name string) *S {
							return Fn(name, []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(b0)}), Decl("t", l), Decl("s", C(name, e("n-1"), a)), Ret(r))
						}
						call := Decl("z", C("R", N(fmt.Sprint(n)), V("x")))
						end := []*S{Eq(V("z"), V("p")), Eq(C("R", N("1"), V("y")), V("q")), Eq(V("z"), V("r")), Ret(nil)}
						run([]*S{rec("R")}, 1, append([]*S{Decl("v", N("9")), call}, end...)...)
						run(nil, 0, append([]*S{Decl("v", N("9")), rec("R"), call}, end...)...) // defined inside main
						// two recursive calls per activation
						if n <= 3 {
							two := Fn("R", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "<", N("1")), nil}, []*S{Ret(b0)}, []*S{Decl("t", l), Decl("s", C("R", e("n-1"), a)), Decl("w", C("R", e("n-1"), e("s+1"))), Ret(B('+', r, V("w")))}))
							run([]*S{two}, 0, append([]*S{call}, end...)...)
						}
						// a closure per activation, called after the recursive call
						cl := Fn("R", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(b0)}), Decl("t", l), FnVar("c", []string{"s"}, Ret(r)), Decl("s", C("R", e("n-1"), a)), Asg("t", e("t+1")), Ret(C("c", V("s"))))
						run([]*S{cl}, 0, append([]*S{call}, end...)...)
					}
				}
			}
		}
	}
	// mutual recursion and iteration with callbacks
	for n := 0; n <= maxN; n++ {
		for _, l := range loc {
			for _, r := range []*E{e("s+v"), e("s*v"), e("s-n")} {
				ev := Fn("ev", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(V("v"))}), Decl("s", C("od", e("n-1"), l)), Ret(r))
				od := Fn("od", []string{"n", "v"}, If([]*Cond{Cmp(V("n"), "==", N("0"))}, []*S{Ret(e("v*v"))}), Decl("s", C("ev", e("n-1"), e("v+1"))), Ret(r))
				run([]*S{ev, od}, 1, Eq(C("ev", N(fmt.Sprint(n)), V("x")), V("p")), Eq(C("od", N(fmt.Sprint(n)), V("y")), V("q")), Ret(nil))
				it := Fn("iterate", []string{"from", "to", "step", "call"}, If([]*Cond{Cmp(V("from"), "==", V("to"))}, []*S{Ret(nil)}), CallS(C("call", V("from"))),
					CallS(C("iterate", e("from+step"), V("to"), V("step"), V("call"))), Ret(nil))
				run([]*S{it}, 1, Decl("v", V("x")), Decl("s", N("1")), FnVar("cb", []string{"n"}, Asg("s", r), Asg("v", l)), CallS(C("iterate", N("0"), N(fmt.Sprint(n)), N("1"), V("cb"))),
					Eq(V("s"), V("p")), Eq(V("v"), V("q")), Ret(nil))
			}
		}
	}
	// functions in arrays and in loops
	for _, f1 := range []string{"f", "loc", "bump"} {
		for _, f2 := range []string{"f", "loc", "bump"} {
			for _, f3 := range []string{"f", "loc", "bump"} {
				body := append(append([]*S{}, prelude...), DeclArr("m", V(f1), V(f2), V("x")), Decl("v0", C("app", I("m", N("0")), V("x"))), AsgIdx("m", N("0"), V(f3)), Decl("t0", I("m", N("0"))),
					Decl("i", N("0")), Decl("s", N("1")),
					For(Cmp(V("i"), "<", N("2")), Asg("i", e("i+1")), Decl("g", C("h", V("i"))), Asg("s", B('+', C("g", V("s")), C("app", I("m", V("i")), V("i"))))),
					Eq(V("s"), V("p")), Eq(e("v0*3+a"), V("q")), Eq(C("t0", V("y")), V("r")), Ret(nil))
				run(globals, 3, body...)
			}
		}
	}
	if x.Thorough {
		rec(0, 3, prelude, env0, nil, len(env0))
	} else {
		rec(0, 3, prelude, envSmall, nil, len(envSmall))
	}
}

func restLen(s *S) int { return len(s.e.a) }

func ints2E(n int) (r []*E) {
	for i := 0; i < n; i++ {
		r = append(r, N(fmt.Sprint(i+4)))
	}
	return
}
