package main

// Independent affine arithmetic on y^2 = x^3 + 3 over the base field, and on the twist.

import (
	"math/big"
)

var refP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
var refOrder, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

type affine struct{ x, y *big.Int } // x == nil: infinity

func affAdd(a, b affine) affine {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, refP).Sign() == 0 {
			return affine{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, refP), refP))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		l.Mul(l, d.ModInverse(d.Mod(d, refP), refP))
	}
	l.Mod(l, refP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, refP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, refP)
	return affine{x, y}
}
func affMul(a affine, k *big.Int) affine {
	r := affine{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = affAdd(r, r)
		if k.Bit(i) == 1 {
			r = affAdd(r, a)
		}
	}
	return r
}

var refGen = affine{big.NewInt(1), big.NewInt(2)}
var refXCache = map[string]*big.Int{}

// refScalarBaseX is the x coordinate of e times the generator as an element of the scalar field (0 for infinity)
func refScalarBaseX(e *big.Int) *big.Int {
	k := new(big.Int).Mod(e, refOrder)
	if v, ok := refXCache[k.String()]; ok {
		return v
	}
	p := affMul(refGen, k)
	r := new(big.Int)
	if p.x != nil {
		r.Mod(p.x, refOrder)
	}
	refXCache[k.String()] = r
	return r
}
