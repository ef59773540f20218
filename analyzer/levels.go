package main

import (
	"fmt"
	"go/types"
	"math/big"
)

const glChip = "(*" + modPath + "/goldilocks.Chip)."

// Abstraction levels. A gadget is replaced by its contract above the level at which an obligation
// of C02/C05/C13 establishes the contract.
//
//	0: nothing replaced
//	1: MulAdd, Reduce, ReduceWithMaxBits, Inverse, RangeCheck, RangeCheckWithMaxBits
//	2: + InverseExtension
//	3: + both Poseidon permutations and BN254Chip.ToVec
func (it *Interp) setLevel(n int) {
	it.level = n
	it.table = map[string]intrinsic{}
	if n >= 1 {
		it.level1()
	}
	if n >= 2 {
		it.level2()
	}
	if n >= 3 {
		it.level3()
	}
}

func (it *Interp) limb(v V) *Term {
	a, ok := v.(*Agg)
	if !ok || len(a.e) != 1 {
		it.undecided("field element of kind %T", v)
	}
	return it.natOf(a.e[0])
}

func (it *Interp) fromTerm(t *Term, kind int) V { return &Agg{[]V{it.mkVar(t, kind)}} }

func (it *Interp) needCanon(t *Term, what string) {
	it.run.checks++
	if !t.canonical() {
		it.violate("C03,C20", fmt.Sprintf("%s receives an operand that is not constrained to be canonical: %v", what, t))
	}
}

func (it *Interp) reduceTo(x *Term, w int, what string) V {
	it.run.checks++
	q := new(big.Int).Lsh(pMod, uint(w)) // 2^w p
	if new(big.Int).Add(q, pMod).Cmp(rMod) > 0 {
		it.violate("C03", fmt.Sprintf("%s with a quotient of %d bits: quotient*modulus+remainder can exceed the native field order", what, w))
	}
	switch {
	case !x.exact():
		if x.lo != nil && x.lo.Sign() < 0 {
			it.violate("C03,C20", fmt.Sprintf("%s receives a value that can be negative: %v", what, x))
		} else {
			it.violate("C03,C20", fmt.Sprintf("%s receives a value that can exceed the native field order: %v", what, x))
		}
	case x.hi.Cmp(q) >= 0:
		it.violate("C03,C20", fmt.Sprintf("%s receives values of up to %d bits, more than its quotient of %d bits can absorb: %v", what, x.hi.BitLen(), w, x))
	}
	return it.fromTerm(it.ts.Mod(x), instHint)
}

func (it *Interp) level1() {
	ts := it.ts
	it.table[glChip+"MulAdd"] = func(c *callCtx) V {
		a, b, d := it.limb(c.args[0]), it.limb(c.args[1]), it.limb(c.args[2])
		it.needCanon(a, "MulAdd")
		it.needCanon(b, "MulAdd")
		it.needCanon(d, "MulAdd")
		return it.fromTerm(ts.Mod(ts.Add(ts.Mul(a, b), d)), instHint)
	}
	it.table[glChip+"Reduce"] = func(c *callCtx) V {
		return it.reduceTo(it.limb(c.args[0]), reduceWidth(it.w), "Reduce")
	}
	it.table[glChip+"ReduceWithMaxBits"] = func(c *callCtx) V {
		n, ok := c.args[1].(I)
		if !ok {
			it.undecided("width of a reduction depends on circuit data")
		}
		if n > 1<<20 {
			n = 1 << 20
		}
		if n%16 != 0 {
			it.violate("C14", fmt.Sprintf("reduction with a quotient of %d bits, which the commitment-based range checker refuses", n))
		}
		return it.reduceTo(it.limb(c.args[0]), int(n), "ReduceWithMaxBits")
	}
	it.table[glChip+"Inverse"] = func(c *callCtx) V {
		x := it.limb(c.args[0])
		it.needCanon(x, "Inverse")
		return Tuple{it.fromTerm(ts.GlInv(x), instHint), it.mkVar(ts.Sub(ts.NatU(1), ts.IsZero(x)), instOwned)}
	}
	it.table[glChip+"RangeCheck"] = func(c *callCtx) V {
		x := it.limb(c.args[0])
		if x.isConst() {
			if x.k.Cmp(pMod) >= 0 {
				it.gopanic("range check of a constant fails")
			}
			return nil
		}
		it.emit("CANON", 0, x)
		return nil
	}
	it.table[glChip+"RangeCheckWithMaxBits"] = func(c *callCtx) V {
		n, ok := c.args[1].(I)
		if !ok {
			it.undecided("width of a range check depends on circuit data")
		}
		x := it.limb(c.args[0])
		if n == 0 {
			it.emit("EQ", 0, x)
		} else if n < 254 {
			it.emit("BITS", int64(n), x)
		}
		return nil
	}
}

func (it *Interp) qe(v V) [2]*Term {
	a, ok := v.(*Agg)
	if !ok || len(a.e) != 2 {
		it.undecided("extension element of kind %T", v)
	}
	return [2]*Term{it.limb(a.e[0]), it.limb(a.e[1])}
}

func (it *Interp) level2() {
	ts := it.ts
	it.table[glChip+"InverseExtension"] = func(c *callCtx) V {
		a := it.qe(c.args[0])
		it.needCanon(a[0], "InverseExtension")
		it.needCanon(a[1], "InverseExtension")
		if a[0].isConst() && a[0].k.Sign() == 0 && a[1].isConst() && a[1].k.Sign() == 0 {
			it.gopanic("inverse of the constant zero")
		}
		it.emit("NZ", 0, a[0], a[1])
		m1 := ts.Const(SNat, pM1)
		n := ts.Mod(ts.Add(ts.Mul(a[0], a[0]), ts.Mul(ts.Const(SNat, new(big.Int).Sub(pMod, big.NewInt(7))), ts.Mul(a[1], a[1]))))
		inv := ts.GlInv(n)
		r0 := ts.Mod(ts.Mul(a[0], inv))
		r1 := ts.Mod(ts.Mul(ts.Mod(ts.Mul(a[1], m1)), inv))
		return Tuple{&Agg{[]V{it.fromTerm(r0, instHint), it.fromTerm(r1, instHint)}}, it.mkVar(ts.NatU(1), instOwned)}
	}
}

func (it *Interp) level3() {
	ts := it.ts
	perm := func(name string, canon bool) intrinsic {
		return func(c *callCtx) V {
			st, ok := c.args[0].(*Agg)
			if !ok {
				it.undecided("permutation state of kind %T", c.args[0])
			}
			var in []*Term
			for _, e := range st.e {
				var t *Term
				if canon {
					t = it.limb(e)
					it.needCanon(t, "the Poseidon permutation")
				} else {
					t = it.natOf(e)
				}
				in = append(in, t)
			}
			r := &Agg{}
			for i := range st.e {
				if canon {
					r.e = append(r.e, it.fromTerm(ts.UF(SNat, name, int64(i), bigZero, pM1, in...), instHint))
				} else {
					r.e = append(r.e, it.mkVar(ts.UF(SNat, name, int64(i), nil, nil, in...), instOwned))
				}
			}
			return r
		}
	}
	it.table["(*"+modPath+"/poseidon.BN254Chip).ToVec"] = func(c *callCtx) V {
		h := it.natOf(c.args[0])
		lt := c.sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		var l []V
		for i := int64(0); i < 5; i++ {
			l = append(l, it.fromTerm(ts.UF(SNat, "bnvec", i, bigZero, mask56, h), instOwned))
		}
		return it.mkSlice(lt, l)
	}
	it.table["(*"+modPath+"/poseidon.GoldilocksChip).Poseidon"] = perm("glposeidon", true)
	it.table["(*"+modPath+"/poseidon.BN254Chip).Poseidon"] = perm("bnposeidon", false)
}
