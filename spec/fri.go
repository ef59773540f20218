package spec

// Reference FRI verifier.

// root is the primitive 2^bits-th root of unity Plonky2 uses.
func root(bits int) N {
	w := CS(twoAdicGen)
	for i := 0; i < 32-bits; i++ {
		w = gmul(w, w)
	}
	return w
}

// expBits is base^(sum bits[i] 2^i).
func expBits(base N, bits []N) N {
	r := C(1)
	for _, b := range bits {
		r = gmul(r, Sel(b, base, C(1)))
		base = gmul(base, base)
	}
	return r
}

func rev(bits []N) []N {
	var r []N
	for i := len(bits) - 1; i >= 0; i-- {
		r = append(r, bits[i])
	}
	return r
}

// pick selects xs[sum bits[i] 2^i].
func pick(bits []N, xs []N) N {
	if len(bits) == 0 {
		return xs[0]
	}
	var l []N
	for i := 0; i < len(xs); i += 2 {
		l = append(l, Sel(bits[0], xs[i+1], xs[i]))
	}
	return pick(bits[1:], l)
}

func pickE(bits []N, xs []E) E {
	var a, b []N
	for _, x := range xs {
		a = append(a, x[0])
		b = append(b, x[1])
	}
	return E{pick(bits, a), pick(bits, b)}
}

func merkleRoot(leaf []N, bits []N, sib []N) N {
	d := hashOrNoopBN(leaf)
	for i, s := range sib {
		d = twoToOneBN(Sel(bits[i], s, d), Sel(bits[i], d, s))
	}
	return d
}

// lagrange evaluates at x the polynomial through (xs[i], ys[i]).
func (t T) lagrange(x E, xs, ys []E) E {
	sum := e0()
	for i := range xs {
		num, den := e1(), e1()
		for j := range xs {
			if i != j {
				num = emul(num, esub(x, xs[j]))
				den = emul(den, esub(xs[i], xs[j]))
			}
		}
		t.OptNZ(den[0], den[1])
		d := esub(x, xs[i])
		t.OptNZ(d[0], d[1])
		t.OptNZ(num[0], num[1])
		sum = eadd(sum, emul(ys[i], emul(num, einv(den))))
	}
	return sum
}

func brev(i, bits int) int {
	r := 0
	for k := 0; k < bits; k++ {
		if i&(1<<uint(k)) != 0 {
			r |= 1 << uint(bits-1-k)
		}
	}
	return r
}

type friTags struct{ merkle, fold, pow string }

// friVerify states the constraints of Plonky2's FRI verifier for the batches opened at zeta and
// g*zeta.
func (t T) friVerify(tg friTags, s shape, p proofN, caps [][]N, ch friCh, zeta E) {
	t.Bits(tg.pow, "proof-of-work response has the required leading zeros", ch.pow, 64-s.pow)

	var open []E
	open = append(open, p.constants...)
	open = append(open, p.sigmas...)
	open = append(open, p.wires...)
	open = append(open, p.zs...)
	open = append(open, p.pps...)
	open = append(open, p.quos...)
	red0 := epowsum(open, ch.alpha)
	red1 := epowsum(p.zsNext, ch.alpha)
	zetaNext := esc(zeta, root(s.degree))

	for q, r := range p.rounds {
		nm := "query " + itoa(q)
		var bits []N
		for i := 0; i < s.lde(); i++ {
			bits = append(bits, Bit(ch.indices[q], i))
		}
		capBits := bits[s.lde()-s.cap:]
		var ev0, ev1 []E
		for o, l := range r.leaves {
			t.EQ(tg.merkle, nm+": leaf of oracle "+itoa(o)+" against its cap", merkleRoot(l.elems, bits, l.sib), pick(capBits, caps[o]))
			for i, x := range l.elems {
				if i >= s.oracle(o) {
					continue // salt
				}
				ev0 = append(ev0, eb(x))
				if o == 2 && i < s.challenges {
					ev1 = append(ev1, eb(x))
				}
			}
		}
		x := gmul(C(7), expBits(root(s.lde()), rev(bits)))
		d0 := esub(eb(x), zeta)
		d1 := esub(eb(x), zetaNext)
		t.NZ(tg.fold, nm+": the queried point differs from zeta", d0[0], d0[1])
		t.NZ(tg.fold, nm+": the queried point differs from g*zeta", d1[0], d1[1])
		sum := emul(esub(epowsum(ev0, ch.alpha), red0), einv(d0))
		sum = emul(sum, epow(ch.alpha, uint64(len(ev1))))
		sum = eadd(sum, emul(esub(epowsum(ev1, ch.alpha), red1), einv(d1)))

		for i, a := range s.arities {
			st := r.steps[i]
			in := bits[:a]
			bits = bits[a:]
			got := pickE(in, st.evals)
			t.EQ(tg.fold, nm+": value of folding step "+itoa(i), got[0], sum[0])
			t.EQ(tg.fold, nm+": value of folding step "+itoa(i), got[1], sum[1])
			g := root(a)
			n := 1 << uint(a)
			start := gmul(x, expBits(GInv(g), rev(in)))
			var xs, ys []E
			w := start
			for k := 0; k < n; k++ {
				xs = append(xs, eb(w))
				w = gmul(w, g)
				ys = append(ys, st.evals[brev(k, a)])
			}
			sum = t.lagrange(ch.betas[i], xs, ys)
			var flat []N
			for _, e := range st.evals {
				flat = append(flat, e[0], e[1])
			}
			t.EQ(tg.merkle, nm+": leaf of folding step "+itoa(i)+" against its cap", merkleRoot(flat, bits, st.sib), pick(capBits, p.commitCaps[i]))
			for k := 0; k < a; k++ {
				x = gmul(x, x)
			}
		}
		fin := epowsum(p.final, eb(x))
		t.EQ(tg.fold, nm+": final polynomial", fin[0], sum[0])
		t.EQ(tg.fold, nm+": final polynomial", fin[1], sum[1])
	}
}
