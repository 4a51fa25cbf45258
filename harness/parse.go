package main

// mustExpr parses an expression of the harness itself (single letters, numbers, + - * / and parentheses).
func mustExpr(s string) *E {
	p := &exprParser{s: s}
	e := p.sum()
	if p.i != len(p.s) {
		panic("bad expression " + s)
	}
	return e
}

type exprParser struct {
	s string
	i int
}

func (p *exprParser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}
func (p *exprParser) sum() *E {
	l := p.prod()
	for p.peek() == '+' || p.peek() == '-' {
		op := p.peek()
		p.i++
		l = B(op, l, p.prod())
	}
	return l
}
func (p *exprParser) prod() *E {
	l := p.atom()
	for p.peek() == '*' || p.peek() == '/' {
		op := p.peek()
		p.i++
		l = B(op, l, p.atom())
	}
	return l
}
func (p *exprParser) atom() *E {
	if p.peek() == '(' {
		p.i++
		e := p.sum()
		p.i++
		return e
	}
	j := p.i
	for p.i < len(p.s) && (p.s[p.i] >= '0' && p.s[p.i] <= '9' || p.s[p.i] >= 'a' && p.s[p.i] <= 'z' || p.s[p.i] >= 'A' && p.s[p.i] <= 'Z') {
		p.i++
	}
	t := p.s[j:p.i]
	if t[0] <= '9' {
		return N(t)
	}
	return V(t)
}
