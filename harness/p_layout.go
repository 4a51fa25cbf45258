package main

// C08: the meaning of a program does not depend on its layout.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

func init() {
	register("C08", runC08)
	metas["C08"] = meta{
		rule:           "non-trivial: a text that differs from the base text and compiled, or a tokenized string with at least one token",
		bounds:         "tokenizer: all strings of up to 4 symbols over 22 symbols; layout: every gap of 9 programs with every filler, all pairs of gaps with two fillers; parentheses: up to 3 around every subexpression, all pairs of subexpressions; all orders of up to 4 functions and main, all ways to move them to imported files, also to files of one name in different folders with another content before",
		boundsThorough: "tokenizer: all strings of up to 5 symbols over 22 symbols and 6 over 14; layout: pairs of gaps with all pairs of fillers, triples with one; parentheses: triples of subexpressions",
	}
}

// ---------------------------------------------------------------- a tokenizer of our own

type lexeme struct {
	s    string
	word bool
}

// lex splits a source text; bad is the first character that is not part of the language
func lex(src string) (toks []lexeme, bad string) {
	two := map[string]bool{"-=": true, "+=": true, "*=": true, "/=": true, "||": true, "&&": true, ">>": true, "<<": true, "==": true, "!=": true, ">=": true, "<=": true}
	isDigit := func(b byte) bool { return b >= '0' && b <= '9' }
	isWord := func(b byte) bool {
		return isDigit(b) || b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i < len(src); {
		b := src[i]
		j := i + 1
		switch {
		case b == ' ' || b == '\t' || b == '\r':
		case isDigit(b):
			for j < len(src) && isDigit(src[j]) {
				j++
			}
			toks = append(toks, lexeme{src[i:j], true})
		case isWord(b):
			for j < len(src) && isWord(src[j]) {
				j++
			}
			toks = append(toks, lexeme{src[i:j], true})
		case b == '#':
			for j < len(src) && src[j] != '\n' {
				j++
			}
			toks = append(toks, lexeme{src[i:j], false})
		case b == '"':
			e := strings.IndexByte(src[j:], '"')
			if e < 0 {
				return toks, `"`
			}
			toks = append(toks, lexeme{src[j : j+e], false})
			j += e + 1
		case j < len(src) && two[src[i:j+1]]:
			j++
			toks = append(toks, lexeme{src[i:j], false})
		case strings.IndexByte("():,;\n{}[]=-+*/><", b) >= 0:
			toks = append(toks, lexeme{src[i:j], false})
		default:
			return toks, src[i:j]
		}
		i = j
	}
	return
}

type lexed struct {
	s string
	t cc.TokenType
}

// tokenize reads all tokens of the implementation. Runs of newlines count as one.
func tokenize(src string) (toks []lexed, reported bool) {
	l := cc.New(src, cc.ProbablyWhitespaceState)
	l.ErrorHandler = func(string) { reported = true }
	l.Start()
	for n := 0; ; n++ {
		t, done := l.NextToken()
		if done {
			return
		}
		toks = append(toks, lexed{t.Identifier, t.Type})
		if n > 2*len(src)+2 {
			panic(fmt.Sprintf("more than %d tokens", n))
		}
	}
}

func noBlanks(s string) string { return strings.NewReplacer(" ", "", "\t", "", "\r", "").Replace(s) }

func oneNewline(in []lexeme) (out []lexeme) {
	for _, t := range in {
		if t.s == "\n" && len(out) > 0 && out[len(out)-1].s == "\n" {
			continue
		}
		out = append(out, t)
	}
	return
}

func checkTokens(x *X, src string) error {
	want, bad := lex(src)
	want = oneNewline(want)
	got, reported := tokenize(src)
	x.Eval(1)
	x.Trans(len(got))
	if reported != (bad != "") {
		return fmt.Errorf("characters outside the language: %q, error reported: %v", bad, reported)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d tokens %q, expected %d %q", len(got), got, len(want), want)
	}
	for i := range got {
		if noBlanks(got[i].s) != noBlanks(want[i].s) {
			return fmt.Errorf("token %d is %q, expected %q", i, got[i].s, want[i].s)
		}
	}
	if len(got) > 0 {
		x.Nontrivial("T" + src)
	}
	// the same tokens with blanks between them, each of the same kind
	if bad == "" && !strings.Contains(src, `"`) && len(got) > 0 {
		var sb strings.Builder
		for i, t := range got {
			sb.WriteString([]string{" ", "\t", "\r "}[i%3])
			sb.WriteString(t.s)
		}
		spaced, rep := tokenize(sb.String())
		x.Eval(1)
		if rep || len(spaced) != len(got) {
			return fmt.Errorf("with blanks between the tokens: %q, without: %q", spaced, got)
		}
		for i := range got {
			same := spaced[i].t == got[i].t
			if i+1 < len(got) && got[i+1].s == "(" {
				same = true // a name and the bracket of a call belong together
			}
			if noBlanks(spaced[i].s) != noBlanks(got[i].s) || !same {
				return fmt.Errorf("with blanks between the tokens, token %d is %q, without %q", i, spaced[i], got[i])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- layout

// systemKey is everything a compiled program consists of, as seen from outside
func systemKey(src string) (string, error) {
	c, err := compile(src, false)
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v %v %d %d|", c.inputs, c.prog.PublicInputs, c.npub, c.dense.WitnessLength)
	sb.WriteString(matrixKey(c))
	return sb.String(), nil
}

var blanks = []string{" ", "\t", "\r", " \t \r"}
var breaks = []string{"\n", "#c\n", "\n\n \n", "# x=( \" {\n", "\t#a\r\n\n#b#b\n", "#}é$\n"}

// gaps returns, for every gap of the token list, the fillers the language allows there
func gaps(toks []lexeme) [][]string {
	kw := map[string]bool{"if": true, "for": true, "func": true, "return": true, "else": true, "var": true, "import": true, "public": true}
	r := make([][]string, len(toks)+1)
	for g := range r {
		prev, next := lexeme{"\n", false}, lexeme{"", false}
		if g > 0 {
			prev = toks[g-1]
		}
		if g < len(toks) {
			next = toks[g]
		}
		if prev.word && !kw[prev.s] && next.s == "(" && (g < 2 || toks[g-2].s != "func") {
			continue // the name of a called function
		}
		r[g] = append(r[g], blanks...)
		if prev.s == "\n" {
			r[g] = append(r[g], breaks...)
		}
		if next.s == "\n" || next.s == "" {
			r[g] = append(r[g], "#c", " # return 1 ", "\n", "#c\n")
		}
	}
	for g, ok := range breakable(toks, kw) {
		if ok {
			r[g] = append(r[g], breaks...)
		}
	}
	return r
}

// breakable tells before which tokens a line may be broken: next to the commas and brackets of the parameters of a
// function, of a public declaration and of the calls within a statement that is a call
func breakable(toks []lexeme, kw map[string]bool) []bool {
	r := make([]bool, len(toks)+1)
	at := func(i int) lexeme {
		if i < 0 || i >= len(toks) {
			return lexeme{"\n", false}
		}
		return toks[i]
	}
	for i := 0; i < len(toks); i++ {
		if p := at(i - 1).s; p != "\n" && p != "}" && (p != "{" || at(i-2).s == "=") {
			continue
		}
		open := 0
		switch {
		case at(i).s == "func" && at(i+2).s == "(":
			open = i + 2
		case at(i).s == "public" && at(i+1).s == "{", at(i).word && !kw[at(i).s] && at(i+1).s == "(":
			open = i + 1
		default:
			continue
		}
		var st []byte // c: arguments, g: other brackets
		for j := open; j < len(toks); j++ {
			top := byte(0)
			if len(st) > 0 {
				top = st[len(st)-1]
			}
			if t := at(j).s; top == 'c' && (t == "," || t == ")" || t == "}" || at(j-1).s == "," || (at(j-1).s == "(" || j == open+1)) {
				r[j] = true
			}
			switch at(j).s {
			case "(", "{":
				if j == open || at(j-1).word && !kw[at(j-1).s] {
					st = append(st, 'c')
				} else {
					st = append(st, 'g')
				}
			case "[":
				st = append(st, 'g')
			case ")", "]", "}":
				st = st[:len(st)-1]
			}
			if len(st) == 0 {
				break
			}
		}
	}
	return r
}

func layOut(toks []lexeme, fill func(g int) string) string {
	var sb strings.Builder
	for i, t := range toks {
		f := fill(i)
		sb.WriteString(f)
		if i > 0 && t.word && toks[i-1].word && f == "" {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.s)
	}
	sb.WriteString(fill(len(toks)))
	return sb.String()
}

// layoutPrograms exercise every construct of the language
func layoutPrograms() (ps []*P) {
	e := mustExpr
	xs := func(t string) *E { return I("a", e(t)) }
	ps = append(ps,
		&P{params: []string{"x", "y"}, body: []*S{Ret(e("x*(y+3)-x/(y*y)"))}},
		&P{params: []string{"x", "y[2]", "p"}, body: []*S{
			Public("p", "x"), Decl("i", N("0")), DeclArr("a", V("x"), I("y", N("1")), e("2*x")),
			Fn("f", []string{"u", "v"}, Ret(B('+', e("u*v"), xs("0")))),
			For(Cmp(V("i"), "<", N("3")), Asg("i", e("i+1")), AsgIdx("a", N("1"), C("f", xs("1"), V("x")))),
			If([]*Cond{Cmp(V("i"), "==", N("3")), Cmp(V("i"), ">", N("4")), nil}, []*S{Eq(xs("1"), V("p"))}, []*S{AsgIdx("a", N("2"), e("(x+1)*2"))}, []*S{AsgIdx("a", N("2"), V("x"))}),
			Eq(C("f", V("x"), I("y", N("0"))), V("p")), Ret(C("f", xs("2"), N("3")))}},
		&P{globals: []*S{Decl("k", N("7")), Fn("f", []string{"u"}, Decl("w", e("u*u")), Ret(e("w*k"))), Fn("g", []string{"u", "v"}, Ret(B('-', C("f", e("u+v")), C("f", V("v")))))}, mainAt: 2,
			params: []string{"x", "y"}, body: []*S{Decl("v", C("g", V("x"), e("y*x"))), Asg("v", e("v+k")), Ret(B('*', V("v"), C("f", V("v"))))}},
		&P{params: []string{"x", "y"}, body: []*S{
			Decl("v", e("x*y")), Fn("f", []string{"u"}, Fn("h", []string{"z"}, Ret(e("z*u+v"))), Ret(C("h", e("u*u")))),
			FnVar("g", []string{"u", "w"}, Asg("v", e("v*w")), Ret(C("f", e("u-w")))),
			CallS(C("g", V("x"), N("2"))), Ret(C("g", V("x"), C("g", V("y"), V("v"))))}},
		&P{params: []string{"x", "p"}, body: []*S{Public("x"), Split(V("x")), Decl("v", B('+', B('*', I("x", N("0")), N("3")), I("x", N("2")))), Eq(B('*', V("v"), I("x", N("1"))), V("p")), Ret(nil)}},
		&P{params: []string{"x", "y"}, body: []*S{Decl("v", C("scalarBaseMultiply", e("x+2*y"))), Ret(C("addGateConstraint", V("v"), e("x*y")))}},
		&P{params: []string{"b[2][2]", "x"}, body: []*S{Public("b"), Decl("i", N("0")), Decl("s", N("0")),
			For(Cmp(V("i"), "<", N("2")), Asg("i", e("i+1")), Decl("j", N("0")), For(Cmp(V("j"), "<=", N("1")), Asg("j", e("j+1")), Asg("s", B('+', V("s"), B('*', I("b", V("i"), V("j")), I("b", V("j"), e("1-i"))))))), Ret(e("s*x"))}},
		&P{params: []string{"x", "y"}, body: []*S{Decl("i", N("5")),
			If([]*Cond{Cmp(e("i*2"), "!=", N("10")), Cmp(e("i-1"), ">=", e("2*2")), Cmp(V("i"), "<", N("9")), nil}, []*S{Asg("i", N("1"))}, []*S{If([]*Cond{Cmp(N("4"), "<", V("i"))}, []*S{Asg("i", e("x*i"))}), Asg("i", e("i*y"))}, []*S{Asg("i", N("2"))}, []*S{Asg("i", N("3"))}),
			Ret(e("i*x-(y-2)*(y-x)"))}},
		&P{globals: []*S{Fn("f", []string{"u"}, Ret(C("g", e("u*u")))), Fn("g", []string{"u"}, Ret(e("(u+1)*u"))), Fn("h", []string{"t", "u"}, Ret(C("t", C("t", V("u")))))}, mainAt: 1,
			params: []string{"x"}, body: []*S{Ret(C("h", V("g"), C("f", V("x"))))}},
	)
	return
}

// slots returns the places of a program that hold an expression
func slots(p *P) (r []**E) {
	var ex func(e **E)
	ex = func(e **E) {
		if *e == nil {
			return
		}
		r = append(r, e)
		for i := range (*e).a {
			ex(&(*e).a[i])
		}
	}
	var st func(s *S)
	st = func(s *S) {
		ex(&s.e)
		ex(&s.e2)
		for i := range s.idx {
			ex(&s.idx[i])
		}
		for i := range s.elems {
			ex(&s.elems[i])
		}
		for _, b := range s.body {
			st(b)
		}
		for _, c := range s.conds {
			if c != nil {
				ex(&c.l)
				ex(&c.r)
			}
		}
		for _, b := range s.bodies {
			for _, t := range b {
				st(t)
			}
		}
		if s.inc != nil {
			st(s.inc)
		}
	}
	for _, s := range p.globals {
		st(s)
	}
	for _, s := range p.body {
		st(s)
	}
	return
}

// parens lists the slots around which parentheses change nothing: not the call that is a statement of its own, and
// not the names of functions
func parens(p *P) (r []**E) {
	skip := map[*E]bool{}
	var st func(s *S)
	st = func(s *S) {
		if s.k == 'c' {
			skip[s.e] = true
		}
		for _, b := range s.body {
			st(b)
		}
		for _, b := range s.bodies {
			for _, t := range b {
				st(t)
			}
		}
	}
	for _, s := range append(append([]*S{}, p.globals...), p.body...) {
		st(s)
	}
	for _, s := range slots(p) {
		if !skip[*s] {
			r = append(r, s)
		}
	}
	return
}

func wrap(slot **E, n int) (undo func()) {
	old := *slot
	for ; n > 0; n-- {
		*slot = &E{op: '(', a: []*E{*slot}}
	}
	return func() { *slot = old }
}

// permutations of 0..n-1
func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func runC08(x *X) {
	// the tokenizer
	symbols := strings.Split("a|_|1|=|<|>|!|&|+|-|/|(|{|]|\n| |\t|\r|#|;|$|\"", "|")
	depth := 4
	if x.Thorough {
		depth = 5
	}
	var gen func(sym []string, pre string, n int, f func(s string))
	gen = func(sym []string, pre string, n int, f func(s string)) {
		if n == 0 {
			f(pre)
			return
		}
		for _, s := range sym {
			gen(sym, pre+s, n-1, f)
		}
	}
	strs := func(sym []string, n int) {
		// one case per prefix
		pn := n - 2
		if pn < 0 {
			pn = 0
		}
		gen(sym, "", pn, func(pre string) {
			x.Case(fmt.Sprintf("tokens of all strings of %d symbols that begin with %q", n, pre), func() (err error) {
				gen(sym, pre, n-pn, func(s string) {
					if err != nil {
						return
					}
					x.State("T" + s)
					if e := checkTokens(x, s); e != nil {
						err = fmt.Errorf("%q: %v", s, e)
					}
				})
				return
			})
		})
	}
	for n := 0; n <= depth; n++ {
		strs(symbols, n)
	}
	words := []string{"return", "var", "if", "else", "for", "func", "import", "public", "ab_1", "returnx", "7", "007", "==", "<=", "+=", "=", "(", ",", "\n", " ", "#", `"`, "é"}
	for n := 1; n <= 3; n++ {
		strs(words, n)
	}
	if x.Thorough {
		strs(strings.Split("a|1|=|<|!|&|+|(|\n| |\r|#|$|\"", "|"), 6)
	}

	ps := layoutPrograms()
	for pi, p := range ps {
		base := p.text(style{})
		toks, bad := lex(base)
		if bad != "" {
			panic("base program")
		}
		var want string
		same := func(kind, src string) error {
			if want == "" {
				k, err := systemKey(base)
				if err != nil {
					return fmt.Errorf("base program: %v", err)
				}
				want = k
			}
			got, err := systemKey(src)
			x.Eval(1)
			if err != nil {
				return fmt.Errorf("%s\n%s", src, err)
			}
			if got != want {
				return fmt.Errorf("the constraint system differs after %s:\n%s\n--- %s\n--- base %s", kind, src, got, want)
			}
			x.Trans(1)
			if src != base {
				x.Nontrivial(src)
			}
			x.State(src)
			return nil
		}
		one := func(kind, src string) {
			x.Case(fmt.Sprintf("%s\n%s", kind, src), func() error { return same(kind, src) })
		}
		one("nothing", base)
		one("removing blanks", layOut(toks, func(int) string { return "" }))
		gp := gaps(toks)
		for g, fs := range gp {
			for _, f := range fs {
				one(fmt.Sprintf("filling gap %d with %q", g, f), layOut(toks, func(h int) string {
					if h == g {
						return f
					}
					return ""
				}))
			}
		}
		// the same filler wherever it is allowed
		all := map[string]bool{}
		for _, fs := range gp {
			for _, f := range fs {
				all[f] = true
			}
		}
		var fl []string
		for f := range all {
			fl = append(fl, f)
		}
		sort.Strings(fl)
		allowed := func(g int, f string) string {
			for _, h := range gp[g] {
				if h == f {
					return f
				}
			}
			return ""
		}
		for _, f := range fl {
			one(fmt.Sprintf("filling all gaps with %q", f), layOut(toks, func(g int) string { return allowed(g, f) }))
			for _, f2 := range fl {
				if f2 == f {
					continue
				}
				one(fmt.Sprintf("filling all gaps with %q or %q", f, f2), layOut(toks, func(g int) string {
					if r := allowed(g, f); r != "" {
						return r
					}
					return allowed(g, f2)
				}))
			}
		}
		// pairs of gaps
		for g := range gp {
			if len(gp[g]) == 0 {
				continue
			}
			g := g
			x.Case(fmt.Sprintf("pairs of gaps with gap %d of\n%s", g, base), func() error {
				for h := g + 1; h < len(gp); h++ {
					if len(gp[h]) == 0 {
						continue
					}
					var ch [][2]string
					if x.Thorough {
						for _, f := range gp[g] {
							for _, f2 := range gp[h] {
								ch = append(ch, [2]string{f, f2})
							}
						}
					} else {
						lf, lh := gp[g], gp[h]
						ch = [][2]string{{lf[(g+h)%len(lf)], lh[(g*3+h)%len(lh)]}, {lf[len(lf)-1], lh[len(lh)-1]}}
					}
					for _, c := range ch {
						if err := same("filling two gaps", layOut(toks, func(i int) string {
							if i == g {
								return c[0]
							}
							if i == h {
								return c[1]
							}
							return ""
						})); err != nil {
							return err
						}
					}
					x.Tick()
				}
				return nil
			})
		}
		// blocks in one line
		for _, keep := range []int{0, 1, 2} {
			var t2 []lexeme
			for i, t := range toks {
				after := i > 0 && toks[i-1].s == "{"
				before := i+1 < len(toks) && toks[i+1].s == "}"
				if t.s == "\n" && (after && keep != 1 || before && keep != 2) {
					continue
				}
				t2 = append(t2, t)
			}
			src := layOut(t2, func(int) string { return "" })
			one("removing the line breaks next to the brackets of blocks", src)
		}
		// parentheses
		sl := parens(p)
		for i := range sl {
			for n := 1; n <= 3; n++ {
				u := wrap(sl[i], n)
				one(fmt.Sprintf("parentheses around expression %d", i), p.text(style{}))
				u()
			}
		}
		one("all parentheses", p.text(style{full: true}))
		for n := 1; n <= 2; n++ {
			var us []func()
			for i := len(sl) - 1; i >= 0; i-- {
				us = append(us, wrap(sl[i], n))
			}
			one("parentheses around every expression", p.text(style{}))
			for i := len(us) - 1; i >= 0; i-- {
				us[i]()
			}
			if p.text(style{}) != base {
				panic("not undone")
			}
		}
		for i := range sl {
			for j := i + 1; j < len(sl); j++ {
				v := wrap(sl[j], 1) // the inner one first
				u := wrap(sl[i], 1)
				one(fmt.Sprintf("parentheses around expressions %d and %d", i, j), p.text(style{}))
				if x.Thorough {
					u()
					for k := j + 1; k < len(sl); k++ {
						v()
						w := wrap(sl[k], 1)
						v = wrap(sl[j], 1)
						u = wrap(sl[i], 2)
						one(fmt.Sprintf("parentheses around expressions %d, %d and %d", i, j, k), p.text(style{}))
						u()
						v()
						w()
						v = wrap(sl[j], 1)
					}
					u = wrap(sl[i], 1)
				}
				u()
				v()
			}
		}
		// notation of nested functions
		var fns []*S
		var find func(b []*S)
		find = func(b []*S) {
			for _, s := range b {
				if s.k == 'f' || s.k == 'F' {
					fns = append(fns, s)
				}
				find(s.body)
				for _, t := range s.bodies {
					find(t)
				}
			}
		}
		find(p.body)
		for m := 1; m < 1<<uint(len(fns)); m++ {
			flip := func() {
				for i, s := range fns {
					if m>>uint(i)&1 == 1 {
						s.k ^= 'f' ^ 'F'
					}
				}
			}
			flip()
			one("the other notation of nested functions", p.text(style{}))
			flip()
		}
		// order of the functions
		var vars, funcs []string
		for _, g := range p.globals {
			var sb strings.Builder
			printBody(&sb, []*S{g}, "", style{})
			if g.k == 'f' {
				funcs = append(funcs, sb.String())
			} else {
				vars = append(vars, sb.String())
			}
		}
		main := (&P{params: p.params, body: p.body}).text(style{})
		funcs = append(funcs, main)
		head := strings.Join(vars, "")
		permutations(len(funcs), func(o []int) {
			src := head
			for _, i := range o {
				src += funcs[i]
			}
			one("another order of the functions", src)
		})
		// imported files: every function stays (0) or moves to file 1..3, and how the files are imported
		files := 3
		if len(funcs) == 1 {
			files = 1
		}
		total := 1
		for range funcs {
			total *= files + 1
		}
		for m := 1; m < total; m++ {
			for _, mode := range []string{"first", "last", "nested", "in place", "no line break at the end", "folders"} {
				m, mode := m, mode
				desc := fmt.Sprintf("program %d with functions moved to files: %d, %s\n%s", pi, m, mode, base)
				x.Case(desc, func() error {
					dir, err := os.MkdirTemp("", "imports")
					if err != nil {
						panic(err)
					}
					defer os.RemoveAll(dir)
					name := func(f int) string {
						if mode == "folders" { // files of the same name in different folders
							return filepath.Join(dir, fmt.Sprintf("f%d", f), "f.ap")
						}
						return filepath.Join(dir, fmt.Sprintf("f%d.ap", f))
					}
					content := make([]string, files+1)
					imp := map[int]bool{}
					stay := ""
					for i, r := 0, m; i < len(funcs); i, r = i+1, r/(files+1) {
						f := r % (files + 1)
						if f == 0 {
							stay += funcs[i]
							continue
						}
						if mode == "in place" && !imp[f] {
							stay += `import "` + name(f) + "\"\n"
						}
						content[f] += funcs[i]
						imp[f] = true
					}
					src := head + stay
					top, end := "", ""
					for f := 1; f <= files; f++ {
						if !imp[f] {
							continue
						}
						switch mode {
						case "first", "no line break at the end", "folders":
							top += `import "` + name(f) + "\"\n"
						case "last":
							end += `import "` + name(f) + "\"\n"
						case "nested": // a chain: each file imports the next one
							if top == "" {
								top = `import "` + name(f) + "\"\n"
							} else {
								for k := f - 1; k > 0; k-- {
									if imp[k] {
										content[k] = "\n# next\n" + `import "` + name(f) + "\" \n" + content[k]
										break
									}
								}
							}
						}
					}
					for f := 1; f <= files; f++ {
						if imp[f] {
							t := content[f]
							if mode == "no line break at the end" {
								t = strings.TrimRight(t, "\n")
							}
							if mode == "folders" {
								if err := os.Mkdir(filepath.Dir(name(f)), 0700); err != nil {
									panic(err)
								}
								// the file had another content before
								if err := os.WriteFile(name(f), []byte("func main(x,y){\nreturn (x+3)*y\n}\n"), 0600); err != nil {
									panic(err)
								}
								if _, err := compile(`import "`+name(f)+"\"\n", false); err != nil {
									return fmt.Errorf("importing main: %v", err)
								}
							}
							if err := os.WriteFile(name(f), []byte(t), 0600); err != nil {
								panic(err)
							}
						}
					}
					// globals come before the functions that use them
					src = head + top + stay + end
					err = same("moving functions to files", src)
					if err != nil {
						for f := 1; f <= files; f++ {
							err = fmt.Errorf("%v\n--- file %d\n%s", err, f, content[f])
						}
					}
					return err
				})
			}
		}
	}
}
