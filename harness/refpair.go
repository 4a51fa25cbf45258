package main

// Independent arithmetic for the three pairing groups: Fp2 = Fp[i]/(i^2+1), the twist y^2 = x^3 + 3/(9+i) over Fp2,
// and Fp12 = Fp2[w]/(w^6-(9+i)).

import (
	"math/big"
)

type f2 struct{ a, b *big.Int } // a + b*i

func mp(x *big.Int) *big.Int { return x.Mod(x, refP) }
func f2of(a, b int64) f2     { return f2{mp(big.NewInt(a)), mp(big.NewInt(b))} }
func (x f2) add(y f2) f2 {
	return f2{mp(new(big.Int).Add(x.a, y.a)), mp(new(big.Int).Add(x.b, y.b))}
}
func (x f2) sub(y f2) f2 {
	return f2{mp(new(big.Int).Sub(x.a, y.a)), mp(new(big.Int).Sub(x.b, y.b))}
}
func (x f2) mul(y f2) f2 {
	r := new(big.Int).Mul(x.a, y.a)
	r.Sub(r, new(big.Int).Mul(x.b, y.b))
	s := new(big.Int).Mul(x.a, y.b)
	s.Add(s, new(big.Int).Mul(x.b, y.a))
	return f2{mp(r), mp(s)}
}
func (x f2) neg() f2 { return f2of(0, 0).sub(x) }
func (x f2) inv() f2 {
	n := new(big.Int).Mul(x.a, x.a)
	n.Add(n, new(big.Int).Mul(x.b, x.b))
	n.ModInverse(mp(n), refP)
	return f2{mp(new(big.Int).Mul(x.a, n)), mp(new(big.Int).Neg(new(big.Int).Mul(x.b, n)))}
}
func (x f2) zero() bool     { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x f2) eq(y f2) bool   { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x f2) String() string { return x.a.String() + "+" + x.b.String() + "i" }
func (x f2) sqrt() (f2, bool) {
	if x.zero() {
		return x, true
	}
	// (u+vi)^2 = a+bi: u^2 = (a+-n)/2, v = b/(2u) with n^2 = a^2+b^2
	n := new(big.Int).Mul(x.a, x.a)
	n.Add(n, new(big.Int).Mul(x.b, x.b))
	if n.ModSqrt(mp(n), refP) == nil {
		return f2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), refP)
	for _, s := range []*big.Int{n, new(big.Int).Neg(n)} {
		t := new(big.Int).Add(x.a, s)
		t.Mul(t, half)
		u := new(big.Int).ModSqrt(mp(t), refP)
		if u == nil {
			continue
		}
		var v *big.Int
		if u.Sign() == 0 {
			v = new(big.Int).ModSqrt(mp(new(big.Int).Neg(x.a)), refP)
			if v == nil {
				continue
			}
		} else {
			v = new(big.Int).Mul(x.b, half)
			v.Mul(v, new(big.Int).ModInverse(u, refP))
		}
		r := f2{u, mp(v)}
		if r.mul(r).eq(x) {
			return r, true
		}
	}
	return f2{}, false
}

var refXi = f2of(9, 1)
var refTwistB = f2of(3, 0).mul(refXi.inv())

type affine2 struct {
	x, y f2
	inf  bool
}

func aff2Add(p, q affine2) affine2 {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l f2
	if p.x.eq(q.x) {
		if p.y.add(q.y).zero() {
			return affine2{inf: true}
		}
		l = p.x.mul(p.x).mul(f2of(3, 0)).mul(p.y.add(p.y).inv())
	} else {
		l = q.y.sub(p.y).mul(q.x.sub(p.x).inv())
	}
	x := l.mul(l).sub(p.x).sub(q.x)
	return affine2{x: x, y: p.x.sub(x).mul(l).sub(p.y)}
}
func aff2Mul(p affine2, k *big.Int) affine2 {
	r := affine2{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = aff2Add(r, r)
		if k.Bit(i) == 1 {
			r = aff2Add(r, p)
		}
	}
	return r
}
func (p affine2) onCurve() bool {
	return p.inf || p.y.mul(p.y).eq(p.x.mul(p.x).mul(p.x).add(refTwistB))
}
func (p affine) onCurve() bool {
	if p.x == nil {
		return true
	}
	r := new(big.Int).Mul(p.x, p.x)
	r.Mul(r, p.x)
	r.Add(r, big.NewInt(3))
	r.Sub(r, new(big.Int).Mul(p.y, p.y))
	return mp(r).Sign() == 0
}

func decstr(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number")
	}
	return r
}

// the standard generator of the second group of the curve alt_bn128 (EIP 197)
var refGen2 = affine2{
	x: f2{decstr("10857046999023057135944570762232829481370756359578518086990519993285655852781"), decstr("11559732032986387107991004021392285783925812861821192530917403151452391805634")},
	y: f2{decstr("8495653923123431417604973247489272438418190587263600148770280649306958101930"), decstr("4082367875863433681332203403145435568316851327593401208105741076214120093531")},
}

type f12 [6]f2

func f12one() f12 {
	var r f12
	for i := range r {
		r[i] = f2of(0, 0)
	}
	r[0] = f2of(1, 0)
	return r
}
func (x f12) mul(y f12) f12 {
	var lo [11]f2
	for i := range lo {
		lo[i] = f2of(0, 0)
	}
	for i := range x {
		if x[i].zero() {
			continue
		}
		for j := range y {
			lo[i+j] = lo[i+j].add(x[i].mul(y[j]))
		}
	}
	var r f12
	for i := range r {
		r[i] = lo[i]
		if i+6 < 11 {
			r[i] = r[i].add(lo[i+6].mul(refXi))
		}
	}
	return r
}
func (x f12) pow(k *big.Int) f12 {
	r := f12one()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if k.Bit(i) == 1 {
			r = r.mul(x)
		}
	}
	return r
}
func (x f12) eq(y f12) bool {
	for i := range x {
		if !x[i].eq(y[i]) {
			return false
		}
	}
	return true
}

// byte encodings
func enc32(vs ...*big.Int) []byte {
	r := make([]byte, 32*len(vs))
	for i, v := range vs {
		v.FillBytes(r[32*i : 32*i+32])
	}
	return r
}
func encode1(p affine) []byte {
	if p.x == nil {
		return make([]byte, 64)
	}
	return enc32(p.x, p.y)
}
func encode2(p affine2) []byte {
	if p.inf {
		return make([]byte, 128)
	}
	return enc32(p.x.b, p.x.a, p.y.b, p.y.a)
}

// powers of w in the order of the encoding
var gtOrder = []int{5, 3, 1, 4, 2, 0}

func encode12(x f12) []byte {
	var v []*big.Int
	for _, k := range gtOrder {
		v = append(v, x[k].b, x[k].a)
	}
	return enc32(v...)
}
func decode12(m []byte) f12 {
	r := f12one()
	for i, k := range gtOrder {
		r[k] = f2{new(big.Int).SetBytes(m[64*i+32 : 64*i+64]), new(big.Int).SetBytes(m[64*i : 64*i+32])}
	}
	return r
}

// cached multiples of the generators
var (
	ref1Cache = map[string]affine{}
	ref2Cache = map[string]affine2{}
	ref12     = map[string]f12{}
)

func ref1(k *big.Int) affine {
	e := new(big.Int).Mod(k, refOrder)
	s := e.String()
	if v, ok := ref1Cache[s]; ok {
		return v
	}
	v := affMul(refGen, e)
	ref1Cache[s] = v
	return v
}
func ref2(k *big.Int) affine2 {
	e := new(big.Int).Mod(k, refOrder)
	s := e.String()
	if v, ok := ref2Cache[s]; ok {
		return v
	}
	v := aff2Mul(refGen2, e)
	ref2Cache[s] = v
	return v
}
