package spec

import (
	gfield "github.com/consensys/gnark-crypto/field/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
)

// Reference definitions of Plonky2's gates: constraint evaluations as a function of the gate's
// constants, wires and the public-input hash.

type gateDef struct {
	id            string
	wires, consts int
	ref           func(c, w []E, pih []N) []E
	make          func() gates.Gate
}

func alg(w []E, i int) A { return A{w[i], w[i+1]} }

func flatA(as ...A) []E {
	var r []E
	for _, a := range as {
		r = append(r, a[0], a[1])
	}
	return r
}

const phantom = "_phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }<D=2>"
const width12 = "(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"

func arithmeticGate(n int) gateDef {
	return gateDef{
		id: "ArithmeticGate { num_ops: " + itoa(n) + " }", wires: 4 * n, consts: 2,
		make: func() gates.Gate { return gates.NewArithmeticGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for i := 0; i < n; i++ {
				x := eadd(emul(emul(w[4*i], w[4*i+1]), c[0]), emul(w[4*i+2], c[1]))
				r = append(r, esub(w[4*i+3], x))
			}
			return r
		},
	}
}

func arithmeticExtensionGate(n int) gateDef {
	return gateDef{
		id: "ArithmeticExtensionGate { num_ops: " + itoa(n) + " }", wires: 8 * n, consts: 2,
		make: func() gates.Gate { return gates.NewArithmeticExtensionGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for i := 0; i < n; i++ {
				x := asc(c[0], amul(alg(w, 8*i), alg(w, 8*i+2)))
				x = aadd(x, asc(c[1], alg(w, 8*i+4)))
				r = append(r, flatA(asub(alg(w, 8*i+6), x))...)
			}
			return r
		},
	}
}

func mulExtensionGate(n int) gateDef {
	return gateDef{
		id: "MulExtensionGate { num_ops: " + itoa(n) + " }", wires: 6 * n, consts: 1,
		make: func() gates.Gate { return gates.NewMultiplicationExtensionGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for i := 0; i < n; i++ {
				x := asc(c[0], amul(alg(w, 6*i), alg(w, 6*i+2)))
				r = append(r, flatA(asub(alg(w, 6*i+4), x))...)
			}
			return r
		},
	}
}

func baseSumGate(n, base int) gateDef {
	return gateDef{
		id: "BaseSumGate { num_limbs: " + itoa(n) + " } + Base: " + itoa(base), wires: n + 1,
		make: func() gates.Gate { return gates.NewBaseSumGate(uint64(n), uint64(base)) },
		ref: func(c, w []E, pih []N) []E {
			r := []E{esub(epowsum(w[1:n+1], ec(uint64(base))), w[0])}
			for i := 0; i < n; i++ {
				p := e1()
				for k := 0; k < base; k++ {
					p = emul(p, esub(w[1+i], ec(uint64(k))))
				}
				r = append(r, p)
			}
			return r
		},
	}
}

func constantGate(n int) gateDef {
	return gateDef{
		id: "ConstantGate { num_consts: " + itoa(n) + " }", wires: n, consts: n,
		make: func() gates.Gate { return gates.NewConstantGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for i := 0; i < n; i++ {
				r = append(r, esub(c[i], w[i]))
			}
			return r
		},
	}
}

func noopGate() gateDef {
	return gateDef{
		id: "NoopGate", make: func() gates.Gate { return gates.NewNoopGate() },
		ref: func(c, w []E, pih []N) []E { return nil },
	}
}

func publicInputGate() gateDef {
	return gateDef{
		id: "PublicInputGate", wires: 4, make: func() gates.Gate { return gates.NewPublicInputGate() },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for i := 0; i < 4; i++ {
				r = append(r, esub(w[i], eb(pih[i])))
			}
			return r
		},
	}
}

func exponentiationGate(n int) gateDef {
	return gateDef{
		id: "ExponentiationGate { num_power_bits: " + itoa(n) + ", " + phantom, wires: 2 + 2*n,
		make: func() gates.Gate { return gates.NewExponentiationGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			prev := e1()
			for i := 0; i < n; i++ {
				bit := w[1+n-1-i]
				inter := w[2+n+i]
				by := eadd(emul(bit, w[0]), esub(e1(), bit))
				r = append(r, esub(emul(prev, by), inter))
				prev = emul(inter, inter)
			}
			return append(r, esub(w[1+n], w[2+n+n-1]))
		},
	}
}

func randomAccessGate(bits, copies, extra int) gateDef {
	n := 1 << uint(bits)
	routed := (2+n)*copies + extra
	return gateDef{
		id:     "RandomAccessGate { bits: " + itoa(bits) + ", num_copies: " + itoa(copies) + ", num_extra_constants: " + itoa(extra) + ", " + phantom,
		wires:  routed + copies*bits,
		consts: extra,
		make:   func() gates.Gate { return gates.NewRandomAccessGate(uint64(bits), uint64(copies), uint64(extra)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			for k := 0; k < copies; k++ {
				at := (2 + n) * k
				bs := w[routed+k*bits : routed+(k+1)*bits]
				for _, b := range bs {
					r = append(r, emul(b, esub(b, e1())))
				}
				r = append(r, esub(epowsum(bs, ec(2)), w[at]))
				l := w[at+2 : at+2+n]
				for _, b := range bs {
					var m []E
					for i := 0; i < len(l); i += 2 {
						m = append(m, eadd(l[i], emul(b, esub(l[i+1], l[i]))))
					}
					l = m
				}
				r = append(r, esub(l[0], w[at+1]))
			}
			for i := 0; i < extra; i++ {
				r = append(r, esub(c[i], w[(2+n)*copies+i]))
			}
			return r
		},
	}
}

func reducingGate(n int) gateDef {
	return gateDef{
		id: "ReducingGate { num_coeffs: " + itoa(n) + " }", wires: 6 + n + 2*(n-1),
		make: func() gates.Gate { return gates.NewReducingGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			acc := alg(w, 4)
			for i := 0; i < n; i++ {
				next := alg(w, 0)
				if i < n-1 {
					next = alg(w, 6+n+2*i)
				}
				x := aadd(amul(acc, alg(w, 2)), A{w[6+i], e0()})
				r = append(r, flatA(asub(x, next))...)
				acc = next
			}
			return r
		},
	}
}

func reducingExtensionGate(n int) gateDef {
	return gateDef{
		id: "ReducingExtensionGate { num_coeffs: " + itoa(n) + " }", wires: 6 + 2*n + 2*(n-1),
		make: func() gates.Gate { return gates.NewReducingExtensionGate(uint64(n)) },
		ref: func(c, w []E, pih []N) []E {
			var r []E
			acc := alg(w, 4)
			for i := 0; i < n; i++ {
				next := alg(w, 0)
				if i < n-1 {
					next = alg(w, 6+2*n+2*i)
				}
				x := aadd(amul(acc, alg(w, 2)), alg(w, 6+2*i))
				r = append(r, flatA(asub(x, next))...)
				acc = next
			}
			return r
		},
	}
}

func poseidonMdsGate() gateDef {
	return gateDef{
		id: "PoseidonMdsGate" + width12, wires: 48, make: func() gates.Gate { return gates.NewPoseidonMdsGate() },
		ref: func(c, w []E, pih []N) []E {
			var in [2][]E
			for i := 0; i < 12; i++ {
				in[0] = append(in[0], w[2*i])
				in[1] = append(in[1], w[2*i+1])
			}
			o0, o1 := mdsE(in[0]), mdsE(in[1])
			var r []E
			for i := 0; i < 12; i++ {
				r = append(r, esub(w[24+2*i], o0[i]), esub(w[24+2*i+1], o1[i]))
			}
			return r
		},
	}
}

func sboxE(x E) E { return epow(x, 7) }

func poseidonGate() gateDef {
	return gateDef{
		id: "PoseidonGate" + width12, wires: 135, make: func() gates.Gate { return gates.NewPoseidonGate() },
		ref: func(c, w []E, pih []N) []E {
			const swap, delta, full0, partial, full1 = 24, 25, 29, 65, 87
			r := []E{emul(w[swap], esub(w[swap], e1()))}
			for i := 0; i < 4; i++ {
				r = append(r, esub(emul(w[swap], esub(w[i+4], w[i])), w[delta+i]))
			}
			var s []E
			for i := 0; i < 12; i++ {
				switch {
				case i < 4:
					s = append(s, eadd(w[i], w[delta+i]))
				case i < 8:
					s = append(s, esub(w[i], w[delta+i-4]))
				default:
					s = append(s, w[i])
				}
			}
			for k := 0; k < 4; k++ {
				var u []E
				for i := 0; i < 12; i++ {
					x := eadd(s[i], ec(rcGL[12*k+i]))
					if k > 0 {
						in := w[full0+12*(k-1)+i]
						r = append(r, esub(x, in))
						x = in
					}
					u = append(u, sboxE(x))
				}
				s = mdsE(u)
			}
			var u []E
			for i := 0; i < 12; i++ {
				u = append(u, eadd(s[i], ec(firstGL[i])))
			}
			s = partialInitE(u)
			for k := 0; k < 22; k++ {
				in := w[partial+k]
				r = append(r, esub(s[0], in))
				x := sboxE(in)
				if k < 21 {
					x = eadd(x, ec(fastGL[k]))
				}
				v := append([]E{x}, s[1:]...)
				s = partialFastE(v, k)
			}
			for k := 0; k < 4; k++ {
				var u []E
				for i := 0; i < 12; i++ {
					x := eadd(s[i], ec(rcGL[12*(26+k)+i]))
					in := w[full1+12*k+i]
					r = append(r, esub(x, in))
					u = append(u, sboxE(in))
				}
				s = mdsE(u)
			}
			for i := 0; i < 12; i++ {
				r = append(r, esub(s[i], w[12+i]))
			}
			return r
		},
	}
}

// cosetInterpolationGate with arbitrary weights: the gate takes them from its identifier.
func cosetInterpolationGate(bits, degree int) gateDef {
	n := 1 << uint(bits)
	inter := (n - 2) / (degree - 1)
	var ws []uint64
	str := ""
	for i := 0; i < n; i++ {
		x := uint64(i+1)*104729*4294967279 + 98765432109876543
		ws = append(ws, x)
		if i > 0 {
			str += ", "
		}
		str += utoa(x)
	}
	start := 1 + 2*n
	return gateDef{
		id:    "CosetInterpolationGate { subgroup_bits: " + itoa(bits) + ", degree: " + itoa(degree) + ", barycentric_weights: [" + str + "], " + phantom,
		wires: start + 4 + 4*inter + 2,
		make: func() gates.Gate {
			var es []gfield.Element
			for _, x := range ws {
				es = append(es, gfield.NewElement(x))
			}
			return gates.NewCosetInterpolationGate(uint64(bits), uint64(degree), es)
		},
		ref: func(c, w []E, pih []N) []E {
			mid := start + 4
			shifted := alg(w, mid+4*inter)
			r := flatA(asub(alg(w, start), asc(w[0], shifted)))
			var domain []N
			x, g := C(1), root(bits)
			for i := 0; i < n; i++ {
				domain = append(domain, x)
				x = gmul(x, g)
			}
			ev, pr := A{e0(), e0()}, A{e1(), e0()}
			k := 0
			for i := 0; i < n; i++ {
				// after the first `degree` points and every degree-1 further ones the running
				// evaluation and product are stored in wires
				if i >= degree && (i-degree)%(degree-1) == 0 {
					ie, ip := alg(w, mid+2*k), alg(w, mid+2*inter+2*k)
					r = append(r, flatA(asub(ie, ev), asub(ip, pr))...)
					ev, pr = ie, ip
					k++
				}
				term := asub(shifted, A{eb(domain[i]), e0()})
				ev = aadd(amul(ev, term), asc(eb(Mod(C(ws[i]))), amul(alg(w, 1+2*i), pr)))
				pr = amul(pr, term)
			}
			return append(r, flatA(asub(alg(w, start+2), ev))...)
		},
	}
}

func utoa(x uint64) string {
	if x == 0 {
		return "0"
	}
	s := ""
	for x > 0 {
		s = string(rune('0'+int(x%10))) + s
		x /= 10
	}
	return s
}

// par picks a parameter; the small enumeration has the first and the last value only.
func (t T) par(small bool, name string, lo, hi int, vals ...int) int {
	if small {
		return t.IntNovel(name, lo, hi, vals[0], vals[len(vals)-1])
	}
	return t.IntNovel(name, lo, hi, vals...)
}

// gateDef picks a gate and its parameters.
func (t T) gateDef(small bool) gateDef {
	switch t.Str("gate", "arithmetic", "arithmeticExtension", "mulExtension", "baseSum", "constant", "noop", "publicInput", "exponentiation", "randomAccess", "reducing", "reducingExtension", "poseidonMds", "poseidon", "cosetInterpolation") {
	case "arithmetic":
		return arithmeticGate(t.par(small, "ops", 0, 60, 1, 0, 2, 3, 13, 20, 33))
	case "arithmeticExtension":
		return arithmeticExtensionGate(t.par(small, "ops", 0, 60, 1, 0, 2, 3, 10, 17))
	case "mulExtension":
		return mulExtensionGate(t.par(small, "ops", 0, 60, 1, 0, 2, 3, 13, 22))
	case "baseSum":
		return baseSumGate(t.par(small, "limbs", 0, 70, 1, 0, 2, 3, 32, 63), t.par(small, "base", 1, 20, 2, 3, 4, 5, 16))
	case "constant":
		return constantGate(t.par(small, "constants", 0, 60, 2, 0, 1, 3, 9))
	case "noop":
		return noopGate()
	case "publicInput":
		return publicInputGate()
	case "exponentiation":
		return exponentiationGate(t.par(small, "bits", 1, 80, 1, 2, 3, 13, 64, 66, 67))
	case "randomAccess":
		return randomAccessGate(t.par(small, "bits", 0, 7, 1, 0, 2, 3, 4, 5, 6), t.par(small, "copies", 0, 40, 1, 0, 2, 4, 13), t.par(small, "extra", 0, 20, 0, 1, 2, 5))
	case "reducing":
		return reducingGate(t.par(small, "coeffs", 1, 80, 1, 2, 3, 11, 44))
	case "reducingExtension":
		return reducingExtensionGate(t.par(small, "coeffs", 1, 80, 1, 2, 3, 11, 33))
	case "poseidonMds":
		return poseidonMdsGate()
	case "poseidon":
		return poseidonGate()
	}
	b := t.par(small, "bits", 1, 6, 4, 1, 2, 3, 5)
	n := 1 << uint(b)
	d := t.par(small, "degree", 2, 64, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32)
	if d > n {
		d = n
	}
	return cosetInterpolationGate(b, d)
}
