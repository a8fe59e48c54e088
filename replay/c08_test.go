//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

// C08: the scalar-field helpers against big-integer arithmetic modulo r, on
// boundary and random operands, with honest and dishonest hint answers.
func TestVerifC08(t *testing.T) {
	defer vDone(t)
	vals := vBoundary()
	for i := 0; i < 20; i++ {
		vals = append(vals, vRandR())
	}
	type op struct {
		name  string
		f     func(api frontend.API, a, b frontend.Variable) frontend.Variable
		want  func(a, b *big.Int) *big.Int
		bound int // 0: < r, 1: <= r
	}
	ops := []op{
		{"mod", func(api frontend.API, a, b frontend.Variable) frontend.Variable { return mod(api, a) }, func(a, b *big.Int) *big.Int { return a }, 0},
		{"fr_add", fr_add, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }, 0},
		{"fr_sub", fr_sub, func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }, 0},
		{"fr_mul", fr_mul, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }, 0},
		{"fr_mul_neg", fr_mul_neg, func(a, b *big.Int) *big.Int { return new(big.Int).Neg(new(big.Int).Mul(a, b)) }, 1},
		{"fr_neg", func(api frontend.API, a, b frontend.Variable) frontend.Variable { return fr_neg(api, a) }, func(a, b *big.Int) *big.Int { return new(big.Int).Neg(a) }, 1},
	}
	check := func(what string, res frontend.Variable, want *big.Int, bound int) string {
		v := vBig(res)
		if !vEqR(v, want) {
			return fmt.Sprintf("returns %v, want %v modulo r", v, vModR(want))
		}
		if v.Sign() < 0 || v.Cmp(vR) > bound-1 {
			return fmt.Sprintf("returns %v, which is not a canonical representative", v)
		}
		return ""
	}
	for _, o := range ops {
		var pairs [][2]*big.Int
		for i, a := range vals {
			for j, b := range vals {
				if i < 14 && j < 14 || i%7 == 3 || j%7 == 2 {
					pairs = append(pairs, [2]*big.Int{a, b})
				}
			}
		}
		vParallel(len(pairs), func(k int) {
			a, b := pairs[k][0], pairs[k][1]
			what := fmt.Sprintf("%s(%v, %v)", o.name, a, b)
			f := func(api frontend.API) (func() string, error) {
				x, y := new(big.Int).Set(a), new(big.Int).Set(b)
				res := o.f(api, x, y)
				if _, bad := res.(error); bad {
					return nil, res.(error)
				}
				if x.Cmp(a) != 0 || y.Cmp(b) != 0 {
					return func() string { return "modifies its operands" }, nil
				}
				return func() string { return check(what, res, o.want(a, b), o.bound) }, nil
			}
			if err := vRun(func(api frontend.API) error { _, e := f(api); return e }); err != nil {
				vFail("%s is rejected: %v", what, err)
			}
			vAttack(what, f)
		})
	}
	// division
	vParallel(60, func(k int) {
		a, b := vals[(3*k)%len(vals)], vals[(5*k+1)%len(vals)]
		if k%3 == 0 {
			a = vRandR()
		}
		var q *big.Int
		if b.Sign() != 0 {
			q = vMulR(a, vInvR(b))
		}
		div := func(aux *big.Int) func(api frontend.API) (func() string, error) {
			return func(api frontend.API) (func() string, error) {
				res := fr_div(api, new(big.Int).Set(a), new(big.Int).Set(b), new(big.Int).Set(aux))
				if e, bad := res.(error); bad {
					return nil, e
				}
				return func() string {
					v := vBig(res)
					if !vEqR(new(big.Int).Mul(v, b), a) {
						return fmt.Sprintf("accepts the quotient %v (result %v)", aux, v)
					}
					if !vEqR(v, aux) || v.Cmp(vR) >= 0 {
						return fmt.Sprintf("returns %v for the quotient %v", v, aux)
					}
					return ""
				}, nil
			}
		}
		what := fmt.Sprintf("fr_div(%v, %v)", a, b)
		if q != nil {
			if err := vRun(func(api frontend.API) error { _, e := div(q)(api); return e }); err != nil {
				vFail("%s rejects the quotient %v: %v", what, q, err)
			}
			vAttack(what, div(q))
		}
		for _, w := range []*big.Int{vI(0), vI(1), vRandR(), a, b} {
			vAttack(fmt.Sprintf("%s with claimed quotient %v", what, w), div(w))
		}
		if q != nil {
			vAttack(what, div(vAddR(q, vI(1))))
			vAttack(what, div(vSubR(vI(0), q)))
		}
	})
	// powers
	exps := []int64{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 63, 64, 65, 100, 255, 256, 257, 1000, 65537, 70003}
	vParallel(len(exps)*4, func(k int) {
		n := exps[k/4]
		a := vals[(k*7)%len(vals)]
		if k%4 == 1 {
			a = vRandR()
		}
		want := new(big.Int).Exp(a, vI(n), vR)
		f := func(api frontend.API) (func() string, error) {
			e := vI(n)
			res := fr_pow(api, new(big.Int).Set(a), e)
			if x, bad := res.(error); bad {
				return nil, x
			}
			if e.Cmp(vI(n)) != 0 {
				return func() string { return "modifies its exponent" }, nil
			}
			return func() string { return check("", res, want, 0) }, nil
		}
		what := fmt.Sprintf("fr_pow(%v, %d)", a, n)
		if err := vRun(func(api frontend.API) error { _, e := f(api); return e }); err != nil {
			vFail("%s is rejected: %v", what, err)
		}
		if n < 20 {
			vAttack(what, f)
		} else {
			vCase()
			_ = vRun(func(api frontend.API) error {
				post, e := f(api)
				if e == nil {
					if s := post(); s != "" {
						vFail("%s: %s", what, s)
					}
				}
				return e
			})
		}
	})
	for _, s := range []string{"0", "1", "255", "21888242871839275222246405745257275088548364400416034343698204186575808495616"} {
		vCase()
		if v := vBig(fr_from_string(s)); v.String() != s {
			vFail("fr_from_string(%q) = %v", s, v)
		}
	}
}
