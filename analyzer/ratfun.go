package main

// Rational functions: floating point terms compared as in exact arithmetic.

import (
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// rpoly is a polynomial with rational coefficients: monomial (sorted atom names) -> coefficient.
type rpoly map[string]*big.Rat

func rconst(r *big.Rat) rpoly {
	if r.Sign() == 0 {
		return rpoly{}
	}
	return rpoly{"": r}
}

func ratom(n string) rpoly { return rpoly{n: big.NewRat(1, 1)} }

func (a rpoly) add(b rpoly, k int64) rpoly {
	r := rpoly{}
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		x := new(big.Rat).Mul(c, big.NewRat(k, 1))
		if o := r[m]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func joinMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	l := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(l)
	return strings.Join(l, "*")
}

func (a rpoly) mul(b rpoly) rpoly {
	r := rpoly{}
	for m, c := range a {
		for n, d := range b {
			k := joinMono(m, n)
			x := new(big.Rat).Mul(c, d)
			if o := r[k]; o != nil {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = x
			}
		}
	}
	return r
}

func (a rpoly) String() string {
	var l []string
	for m, c := range a {
		l = append(l, c.RatString()+"*"+m)
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

// ratio is num/den.
type ratio struct{ num, den rpoly }

func rInt(i int64) ratio   { return ratio{rconst(big.NewRat(i, 1)), rconst(big.NewRat(1, 1))} }
func rAtom(n string) ratio { return ratio{ratom(n), rconst(big.NewRat(1, 1))} }
func (a ratio) add(b ratio) ratio {
	if a.den.String() == b.den.String() {
		return ratio{a.num.add(b.num, 1), a.den}
	}
	return ratio{a.num.mul(b.den).add(b.num.mul(a.den), 1), a.den.mul(b.den)}
}
func (a ratio) neg() ratio        { return ratio{rpoly{}.add(a.num, -1), a.den} }
func (a ratio) sub(b ratio) ratio { return a.add(b.neg()) }
func (a ratio) mul(b ratio) ratio { return ratio{a.num.mul(b.num), a.den.mul(b.den)} }
func (a ratio) div(b ratio) ratio { return ratio{a.num.mul(b.den), a.den.mul(b.num)} }
func (a ratio) eq(b ratio) bool {
	return len(a.den) > 0 && len(b.den) > 0 && len(a.num.mul(b.den).add(b.num.mul(a.den), -1)) == 0
}

// ratOf reads a term as a rational function. env gives the meaning of atoms; others stand for
// themselves. big limits the size.
func ratOf(t *Term, env func(*Term) (ratio, bool)) (r ratio, ok bool) {
	if env != nil {
		if r, ok := env(t); ok {
			return r, true
		}
	}
	two := func() (a, b ratio, ok bool) {
		a, ok1 := ratOf(t.Args[0], env)
		b, ok2 := ratOf(t.Args[1], env)
		return a, b, ok1 && ok2
	}
	if f, isF := floatVal(t); isF {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return ratio{}, false
		}
		x := new(big.Rat)
		x.SetFloat64(f)
		return ratio{rconst(x), rconst(big.NewRat(1, 1))}, true
	}
	switch t.Op {
	case "int":
		return rInt(t.sval()), true
	case "fadd":
		a, b, ok := two()
		if !ok {
			return r, false
		}
		return a.add(b), true
	case "fsub":
		a, b, ok := two()
		if !ok {
			return r, false
		}
		return a.sub(b), true
	case "fmul":
		a, b, ok := two()
		if !ok {
			return r, false
		}
		return a.mul(b), true
	case "fdiv":
		a, b, ok := two()
		if !ok || len(b.num) == 0 {
			return r, false
		}
		return a.div(b), true
	case "fneg":
		a, ok := ratOf(t.Args[0], env)
		return a.neg(), ok
	case "i2f", "u2f":
		// integers are taken not to overflow
		return ratOf(t.Args[0], env)
	case "call":
		switch t.Aux {
		case "math.FMA":
			a, ok1 := ratOf(t.Args[0], env)
			b, ok2 := ratOf(t.Args[1], env)
			c, ok3 := ratOf(t.Args[2], env)
			return a.mul(b).add(c), ok1 && ok2 && ok3
		case "math.Pow":
			if e, isF := floatVal(t.Args[1]); isF && e == 2 {
				a, ok := ratOf(t.Args[0], env)
				return a.mul(a), ok
			}
		}
	case "poly":
		k := int64(t.V)
		if t.W == 32 {
			k = int64(int32(t.V))
		}
		r = rInt(k)
		for _, m := range t.Monos {
			x := rInt(int64(m.coef))
			for _, a := range m.atoms {
				y, ok := ratOf(a, env)
				if !ok {
					return r, false
				}
				x = x.mul(y)
			}
			r = r.add(x)
		}
		return r, true
	}
	return rAtom("t" + strconv.Itoa(t.ID)), true
}
