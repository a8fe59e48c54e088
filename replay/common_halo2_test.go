//go:build go1.22

package main

// The halo2 / SHPLONK verification equation of the aggregation circuit, from
// the protocol, in big integers and gnark-crypto's group arithmetic; and a
// run of the real VerifyProof1..3 with honest auxiliary values.

import (
	"errors"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

var vVK = [20][2]string{
	{"14938380413158645463746726818663993049411440720262319458512240364576743949172", "612698444000497655149316219443956538920213548045757527589465098726453410217"},
	{"1602442613231540506062434465510844080484629772386483161935289973450738328411", "8632200768118172237953570969696965645934378330803102067059028669153881824687"},
	{"7302810833326292183657845455542786945088085612690237136517265240120492143686", "12265020872042776853325862543934338413628778238311540007481750568301839403357"},
	{"15714457855017303792793529634633875645702708944223275612000098593544931343989", "15257349176403661815620892222123615612513039066905856829097618251943836626674"},
	{"6588502116763777047662055789514359601800459134197048587585162560883404012798", "11714447983073049655392713639630119352182916653299642193786804830268642535746"},
	{"9125246457194062079192598275178850075343678690105278369118112655547944406336", "294075161521838319967190643963225379772318561607769296285010787743709643736"},
	{"21619461572256759847460179508152708219554585855297084173283796582786124555803", "4345524860916738024637605707697977254152854672257192099656709386158566955621"},
	{"17258678549324502889708499924818360135272319280666991023610380123832805047961", "5334989116053542497869652553010890811115308152577125353854023583257775982812"},
	{"5308159394739710035241344480420553410175387652800783904684585252715061491340", "3019131547261358901530790449779825851153791728474681515444029058543922522335"},
	{"15488644080723619432119612346004359086916581306660788742559926675716559909239", "8754616038193501373921013994731307318251353370144049595366428636287857472101"},
	{"9621060932553241457331309181312468446375012848693562416915297961501104714797", "18774224011527979955178720803820949077824414817387957068075380161701868796982"},
	{"7332275780326935691999111227339181700750973508937555651107089016408829877447", "10101962784746658718602667114782992736503033294933308373536577801383886245995"},
	{"18180235640340843615912844522870848024440129915340282133294923228193557588624", "16150223963193906991297402627411591966306440109235686551266596870812093013098"},
	{"14330957265734295635487529150089503047509680887155412481838936779763595454159", "11657029790297552620042403612079612021781553164410884915460958808861335447799"},
	{"3217632689962165131030083420553195932069690674124201615821228288158667916559", "11279851209809827628209572028517900058696331891386803672043677236706605258017"},
	{"6052548824579324632823008857297151984962554125394528409163563861993455062230", "5253299219790956244634070239415866732913146545893144333850618503587190167918"},
	{"20134811260136067172423268982757475565512657205230154765724273546621797752349", "6892971650116630821526804754060441250258363920342589425839414580605638919318"},
	{"17209526517725877136177243553045588666670528061781328851527842192340596792007", "673380535462416015709313880421335139519451950072360935904307055208109203957"},
	{"9973741392326192617521393709476164203221054644042980686853312098867551316157", "9696890272060053851986158851707718469926088811173404342570425124396426957984"},
	{"14118917696035322873139367456503207319385222068825598680486765986706935215403", "18580702656451937158771044279900207779359395181895031379070145857747412641911"},
}

type vRef struct {
	t                                      []*big.Int // proof words
	inst                                   bn254.G1Affine
	theta, beta, gamma, y, x, yp, vc, u, h *big.Int
}

func vPow(a *big.Int, k int64) *big.Int {
	if k < 0 {
		return new(big.Int).Exp(vInvR(a), vI(-k), vR)
	}
	return new(big.Int).Exp(a, vI(k), vR)
}

func vProd(a ...*big.Int) *big.Int {
	r := vI(1)
	for _, x := range a {
		r = vMulR(r, x)
	}
	return r
}

func vSum(a ...*big.Int) *big.Int {
	r := vI(0)
	for _, x := range a {
		r = vAddR(r, x)
	}
	return r
}

const vN = 1 << 23

var (
	vOmega = vDec("8374374965308410102411073611984011876711565317741801500439755773472076597347")
	vDelta = vDec("4131629893567559867359510883348571134090853742863529169391034518566172092834")
)

func (p *vRef) w(k int64) *big.Int { return vPow(vOmega, ((k%vN)+vN)%vN) }
func (p *vRef) vanish() *big.Int   { return vSubR(vPow(p.x, vN), vI(1)) }
func (p *vRef) lag(k int64) *big.Int {
	return vProd(p.w(k), vInvR(vI(vN)), p.vanish(), vInvR(vSubR(p.x, p.w(k))))
}

func vHorner(z *big.Int, l []*big.Int) *big.Int {
	r := vI(0)
	for _, x := range l {
		r = vAddR(vMulR(r, z), x)
	}
	return r
}

func vHornerP(z *big.Int, l []bn254.G1Affine) bn254.G1Affine {
	var r bn254.G1Affine
	for _, x := range l {
		r = vAdd(vSmul(z, r), x)
	}
	return r
}

// numerator: all constraints folded with y
func (p *vRef) numerator() *big.Int {
	t := p.t
	one, active := vI(1), vI(1)
	for k := int64(1); k <= 6; k++ {
		active = vSubR(active, p.lag(-k))
	}
	l0, ll := p.lag(0), p.lag(-6)
	sel := t[70]
	sub := vSubR
	sh := func(i int, n uint) *big.Int { return vMulR(t[i], new(big.Int).Lsh(one, n)) }
	var l []*big.Int
	l = append(l, vSum(t[58], vProd(t[50], t[59]), vProd(t[45], t[60]), vProd(t[46], t[61]), vProd(t[47], t[62]), vProd(t[48], t[63]), vProd(t[49], t[64]),
		vProd(t[45], t[46], t[65]), vProd(t[47], t[48], t[66])))
	l = append(l, vProd(sub(t[51], t[52]), sel, sub(sel, vI(2)), sub(sel, vI(3))))
	l = append(l, vProd(sub(t[51], vSum(t[53], sh(54, 18), sh(52, 36), sh(55, 54))), sel, sub(sel, vI(1)), sub(sel, vI(3))))
	l = append(l, vProd(sub(t[51], vSum(t[53], sh(54, 18), sh(56, 36), sh(52, 54), sh(55, 72), sh(57, 90))), sel, sub(sel, vI(1)), sub(sel, vI(2))))
	l = append(l, vProd(l0, sub(one, t[79])), vProd(ll, sub(vProd(t[88], t[88]), t[88])))
	for i := 0; i < 3; i++ {
		l = append(l, vProd(l0, sub(t[82+3*i], t[81+3*i])))
	}
	cols := []*big.Int{t[45], t[46], t[47], t[48], t[49], t[51], t[44]}
	for i := 0; i < 4; i++ {
		z, zn := t[79+3*i], t[80+3*i]
		a, b := zn, z
		for c := 2 * i; c < 2*i+2 && c < 7; c++ {
			a = vProd(a, vSum(cols[c], vProd(p.beta, t[72+c]), p.gamma))
			b = vProd(b, vSum(cols[c], vProd(vPow(vDelta, int64(c)), p.beta, p.x), p.gamma))
		}
		l = append(l, vProd(active, sub(a, b)))
	}
	look := func(o int, in *big.Int) {
		z, zn, a, am, s := t[o], t[o+1], t[o+2], t[o+3], t[o+4]
		l = append(l, vProd(l0, sub(one, z)), vProd(ll, sub(vProd(z, z), z)),
			vProd(active, sub(vProd(zn, vAddR(a, p.beta), vAddR(s, p.gamma)), vProd(z, vAddR(in, p.beta), vSum(vProd(p.theta, t[68]), t[69], p.gamma)))),
			vProd(l0, sub(a, s)), vProd(active, sub(a, s), sub(a, am)))
	}
	look(90, vSum(vProd(p.theta, t[67]), t[52]))
	look(95, vSum(vProd(p.theta, vI(18)), t[53]))
	return vHorner(p.y, l)
}

// quotient: the value claimed for h(x)
func (p *vRef) quotient() *big.Int { return vMulR(p.numerator(), vInvR(p.vanish())) }

func (p *vRef) pt(i int) bn254.G1Affine { return vPt(p.t[i], p.t[i+1]) }

// left: the SHPLONK accumulator paired with the second G2 point
func (p *vRef) left(h *big.Int) bn254.G1Affine {
	rot := map[int]*big.Int{0: p.x, 1: vMulR(p.w(1), p.x), 2: vMulR(p.w(2), p.x), -1: vMulR(p.w(-1), p.x), -6: vMulR(p.w(-6), p.x)}
	d := func(k int) *big.Int { return vSubR(p.u, rot[k]) }
	// Lagrange interpolation through the opening points, at u
	interp := func(ks []int, es ...*big.Int) *big.Int {
		r := vI(0)
		for i, k := range ks {
			c := es[i]
			for j, m := range ks {
				if j != i {
					c = vProd(c, d(m), vInvR(vSubR(rot[k], rot[m])))
				}
			}
			r = vAddR(r, c)
		}
		return r
	}
	t := p.t
	type set struct {
		rots []int
		ev   []*big.Int
		cm   []bn254.G1Affine
	}
	var A, B, C, D, E set
	A.rots = []int{0}
	for _, i := range []int{44, 45, 46, 47, 48, 51, 94, 99} {
		A.ev = append(A.ev, t[i])
	}
	for i := 58; i < 71; i++ {
		A.ev = append(A.ev, t[i])
	}
	for i := 72; i < 79; i++ {
		A.ev = append(A.ev, t[i])
	}
	A.ev = append(A.ev, h, t[71])
	A.cm = append(A.cm, p.inst)
	for _, i := range []int{0, 2, 4, 6, 10, 18, 22} {
		A.cm = append(A.cm, p.pt(i))
	}
	for _, q := range vVK {
		A.cm = append(A.cm, vPt(vDec(q[0]), vDec(q[1])))
	}
	xn := vPow(p.x, vN)
	A.cm = append(A.cm, vHornerP(xn, []bn254.G1Affine{p.pt(42), p.pt(40), p.pt(38)}), p.pt(36))
	B.rots = []int{0, 1, -6}
	for i := 0; i < 3; i++ {
		B.ev = append(B.ev, interp(B.rots, t[79+3*i], t[80+3*i], t[81+3*i]))
		B.cm = append(B.cm, p.pt(24+2*i))
	}
	C.rots = []int{0, -1}
	C.ev = []*big.Int{interp(C.rots, t[92], t[93]), interp(C.rots, t[97], t[98])}
	C.cm = []bn254.G1Affine{p.pt(16), p.pt(20)}
	D.rots = []int{0, 1}
	for i, a := range []int{49, 88, 90, 95} {
		D.ev = append(D.ev, interp(D.rots, t[a], t[a+1]))
		D.cm = append(D.cm, p.pt([]int{8, 30, 32, 34}[i]))
	}
	E.rots = []int{0, 1, 2}
	E.ev = []*big.Int{interp(E.rots, t[52], t[55], t[57]), interp(E.rots, t[53], t[54], t[56])}
	E.cm = []bn254.G1Affine{p.pt(12), p.pt(14)}
	zset := func(rs []int) *big.Int {
		r := vI(1)
		for _, k := range rs {
			r = vMulR(r, d(k))
		}
		return r
	}
	// normalised by the set B, which is first in the protocol's order
	var acc []bn254.G1Affine
	zb := zset(B.rots)
	for _, s := range []set{B, C, A, D, E} {
		f := vMulR(zb, vInvR(zset(s.rots)))
		c := vAdd(vHornerP(p.yp, s.cm), vNeg(vSmul(vHorner(p.yp, s.ev), vG)))
		acc = append(acc, vSmul(f, c))
	}
	r := vHornerP(p.vc, acc)
	r = vAdd(r, vNeg(vSmul(zb, p.pt(100))))
	return vAdd(r, vSmul(p.u, p.pt(102)))
}

// vRandRef is a random proof with random challenges.
func vRandRef() *vRef {
	p := &vRef{inst: vRandPt()}
	for i := 0; i < 104; i++ {
		if i < 44 || i >= 100 {
			if i%2 == 0 {
				x, y := vXY(vRandPt())
				p.t = append(p.t, x, y)
			}
			continue
		}
		p.t = append(p.t, vRandR())
	}
	p.theta, p.beta, p.gamma, p.y, p.x, p.yp, p.vc, p.u = vRandR(), vRandR(), vRandR(), vRandR(), vRandR(), vRandR(), vRandR(), vRandR()
	return p
}

func (p *vRef) buf() [43]frontend.Variable {
	var buf [43]frontend.Variable
	for i := range buf {
		buf[i] = new(big.Int)
	}
	x, y := vXY(p.inst)
	buf[0], buf[1] = x, y
	for i, c := range []*big.Int{p.theta, p.beta, p.gamma, p.y, p.x, p.yp, p.vc, p.u} {
		buf[2+i] = new(big.Int).Set(c)
	}
	return buf
}

var errStop = errors.New("stop")

// verify runs the real VerifyProof1..3 (up to step last) on the proof.  With
// solve, the auxiliary quotients are computed on the way: whenever a claimed
// quotient is compared with what it should give, it is corrected in place.
func (p *vRef) verify(aux []*big.Int, solve bool, last int) (buf [43]frontend.Variable, err error) {
	tr := vVars(p.t...)
	ax := vVars(aux...)
	err = vRun(func(api frontend.API) error {
		w := vWrap(api, nil)
		if solve {
			cur := -1
			var other *big.Int
			done := map[int]bool{}
			w.onMul = func(a, b frontend.Variable) {
				for i := range ax {
					if done[i] {
						continue
					}
					if a == ax[i] {
						cur, other = i, vBig(b)
					} else if b == ax[i] {
						cur, other = i, vBig(a)
					}
				}
			}
			w.onEq = func(a, b frontend.Variable) bool {
				if cur < 0 || vEqR(vBig(a), vBig(b)) {
					return false
				}
				got := vMulR(other, vBig(ax[cur]))
				var want *big.Int
				if vEqR(got, vBig(a)) {
					want = vBig(b)
				} else if vEqR(got, vBig(b)) {
					want = vBig(a)
				} else {
					return false
				}
				inv := vInvR(other)
				if inv == nil {
					return false
				}
				q := vMulR(want, inv)
				ax[cur].(*big.Int).Set(q)
				aux[cur].Set(q)
				done[cur] = true
				cur = -1
				return true
			}
		}
		buf = p.buf()
		var e error
		if buf, e = VerifyProof1(w, tr, ax, buf); e != nil || last == 1 {
			return e
		}
		if buf, e = VerifyProof2(w, tr, ax, buf); e != nil || last == 2 {
			return e
		}
		buf, e = VerifyProof3(w, tr, ax, buf)
		return e
	})
	return buf, err
}

// honestAux: the auxiliary quotients, by what each of them divides.
func (p *vRef) honestAux() []*big.Int {
	r := func(k int64) *big.Int { return vMulR(p.w(k), p.x) }
	inv := func(a, b *big.Int) *big.Int { return vInvR(vSubR(a, b)) }
	x := p.x
	a := []*big.Int{
		inv(r(-6), x), inv(r(-6), r(1)), inv(x, r(-6)), inv(x, r(1)), inv(r(1), r(-6)), inv(r(1), x),
		inv(r(-1), x), inv(x, r(-1)), vMulR(inv(p.u, r(-1)), inv(p.u, r(2))),
		p.lag(0), p.lag(-6), p.lag(-5), p.lag(-4), p.lag(-3), p.lag(-2), p.lag(-1),
		p.quotient(), inv(x, r(2)), inv(r(1), r(2)), inv(r(2), x), inv(r(2), r(1)),
	}
	for i := range a {
		a[i] = new(big.Int).Set(a[i])
	}
	return a
}

func vHalo2(quotients bool) {
	n := 6
	if vThorough {
		n = 24
	}
	vParallel(n, func(i int) {
		vCase()
		p := vRandRef()
		if i%3 == 1 { // degenerate evaluations
			for k := 44; k < 100; k++ {
				switch (k*5 + i) % 7 {
				case 0:
					p.t[k] = vI(0)
				case 1:
					p.t[k] = vI(1)
				}
			}
		}
		aux := p.honestAux()
		buf, err := p.verify(aux, true, 3)
		if err != nil {
			vFail("the verifier rejects the proof words %v, challenges %v with honest auxiliary values %v: %v", p.t, p.buf(), aux, err)
			return
		}
		if q := p.quotient(); !vEqR(aux[16], q) {
			vFail("the verifier takes %v, not %v, as the quotient of the identity at x: proof words %v, challenges %v", aux[16], q, p.t, p.buf())
			return
		}
		l := p.left(p.quotient())
		if !vIs(vBig(buf[12]), vBig(buf[13]), l) {
			vFail("the left accumulator is (%v, %v), not %v: proof words %v, challenges %v", buf[12], buf[13], l, p.t, p.buf())
		}
		if !vIs(vBig(buf[10]), vBig(buf[11]), p.pt(102)) {
			vFail("the right accumulator is (%v, %v), not W': proof words %v", buf[10], buf[11], p.t)
		}
	})
	if !quotients || vOver() {
		return
	}
	p := vRandRef()
	aux := p.honestAux()
	if _, err := p.verify(aux, true, 2); err != nil {
		vFail("the verifier rejects honest auxiliary values: %v", err)
		return
	}
	if _, err := p.verify(aux, false, 2); err != nil {
		vFail("the verifier rejects honest auxiliary values %v of the proof %v: %v", aux, p.t, err)
		return
	}
	vParallel(3*len(aux), func(k int) {
		i := k / 3
		vCase()
		bad := make([]*big.Int, len(aux))
		for j := range aux {
			bad[j] = new(big.Int).Set(aux[j])
		}
		switch k % 3 {
		case 0:
			bad[i] = vAddR(aux[i], vI(1))
		case 1:
			bad[i] = vSubR(vI(0), aux[i])
		case 2:
			bad[i] = vI(0)
		}
		if _, err := p.verify(bad, false, 2); err == nil {
			vFail("the verifier accepts %v as auxiliary quotient %d, which is %v (proof words %v, challenges %v)", bad[i], i, aux[i], p.t, p.buf())
		}
	})
}
