package spec

// Reference permutations, in their textbook form.

func sbox7(x N) N {
	x2 := gmul(x, x)
	x3 := gmul(x2, x)
	return gmul(gmul(x3, x3), x)
}

// mdsGL multiplies by circ(17, 15, 41, ...) + diag(8, 0, ...).
func mdsGL(s []N) []N {
	var r []N
	for i := 0; i < 12; i++ {
		var l []N
		for j := 0; j < 12; j++ {
			l = append(l, Mul(s[(i+j)%12], C(circGL[j])))
		}
		l = append(l, Mul(s[i], C(diagGL[i])))
		r = append(r, Mod(Add(l...)))
	}
	return r
}

// permGL: 4 full, 22 partial and 4 full rounds.
func permGL(s []N) []N {
	for r := 0; r < 30; r++ {
		var u []N
		for i := 0; i < 12; i++ {
			x := gadd(s[i], C(rcGL[12*r+i]))
			if r < 4 || r >= 26 || i == 0 {
				x = sbox7(x)
			}
			u = append(u, x)
		}
		s = mdsGL(u)
	}
	return s
}

func permBN(s []N) []N {
	for r := 0; r < 64; r++ {
		var u []N
		for i := 0; i < 4; i++ {
			x := Add(s[i], CS(rcBN[4*r+i]))
			if r < 4 || r >= 60 || i == 0 {
				x2 := Mul(x, x)
				x = Mul(Mul(x2, x2), x)
			}
			u = append(u, x)
		}
		var v []N
		for i := 0; i < 4; i++ {
			var l []N
			for j := 0; j < 4; j++ {
				l = append(l, Mul(u[j], CS(mdsBN[i][j])))
			}
			v = append(v, Add(l...))
		}
		s = v
	}
	return s
}

// the permutations as uninterpreted functions, for obligations above the level that establishes them

func pGL(s []N) []N {
	var r []N
	for i := 0; i < 12; i++ {
		r = append(r, UFG("glposeidon", i, s...))
	}
	return r
}

func pBN(s []N) []N {
	var r []N
	for i := 0; i < 4; i++ {
		r = append(r, UF("bnposeidon", i, s...))
	}
	return r
}

// spongeGL is Plonky2's hash_n_to_m_no_pad.
func spongeGL(in []N, m int) []N {
	var s []N
	for i := 0; i < 12; i++ {
		s = append(s, C(0))
	}
	for i := 0; i < len(in); i += 8 {
		u := append([]N{}, s...)
		for j := 0; j < 8 && i+j < len(in); j++ {
			u[j] = in[i+j]
		}
		s = pGL(u)
	}
	var out []N
	for {
		for i := 0; i < 8; i++ {
			out = append(out, s[i])
			if len(out) == m {
				return out
			}
		}
		s = pGL(s)
	}
}

const two64 = "18446744073709551616"

// packBN packs up to three Goldilocks elements into one BN254 element.
func packBN(in []N) N {
	r := C(0)
	f := C(1)
	for _, x := range in {
		r = Add(r, Mul(x, f))
		f = Mul(f, CS(two64))
	}
	return r
}

func hashBN(in []N) N {
	s := []N{C(0), C(0), C(0), C(0)}
	for i := 0; i < len(in); i += 9 {
		u := append([]N{}, s...)
		for j := 0; j < 3; j++ {
			lo := i + 3*j
			hi := lo + 3
			if hi > len(in) {
				hi = len(in)
			}
			if lo < hi {
				u[1+j] = packBN(in[lo:hi])
			}
		}
		s = pBN(u)
	}
	return s[0]
}

func hashOrNoopBN(in []N) N {
	if len(in) <= 3 {
		return packBN(in)
	}
	return hashBN(in)
}

func twoToOneBN(l, r N) N { return pBN([]N{C(0), C(0), l, r})[0] }

// vecBN splits a BN254 element into five Goldilocks elements of 56 bits.
func vecBN(h N) []N {
	var r []N
	for i := 0; i < 5; i++ {
		r = append(r, bnvec(h, i))
	}
	return r
}

// bnvec is the i-th group of 56 bits of h (established by the obligation bnVec).
func bnvec(h N, i int) N

func vecBNDef(h N) []N {
	var r []N
	for i := 0; i < 254; i += 56 {
		var l []N
		w := C(1)
		for j := 0; j < 56 && i+j < 254; j++ {
			l = append(l, Mul(Bit(h, i+j), w))
			w = Add(w, w)
		}
		r = append(r, Add(l...))
	}
	return r
}
