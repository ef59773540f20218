package spec

// Reference PLONK verifier.

const unusedSelector = 4294967295

// evalGates sums the filtered constraints of all gates, slot by slot.
func (s shape) evalGates(constants, wires []E, pih []N) []E {
	var sum []E
	for i := 0; i < s.ngc; i++ {
		sum = append(sum, e0())
	}
	ns := len(s.selLo)
	for row, g := range s.defs {
		k := s.selIdx[row]
		sel := constants[k]
		f := e1()
		for i := s.selLo[k]; i < s.selHi[k]; i++ {
			if i != uint64(row) {
				f = emul(f, esub(ec(i), sel))
			}
		}
		if ns > 1 {
			f = emul(f, esub(ec(unusedSelector), sel))
		}
		for i, c := range g.ref(constants[ns:], wires, pih) {
			sum[i] = eadd(sum[i], emul(f, c))
		}
	}
	return sum
}

// plonkVerify states the PLONK identity at zeta for every challenge round.
func (t T) plonkVerify(tag string, s shape, p proofN, ch allCh, pih []N) {
	zn := ch.zeta
	for i := 0; i < s.degree; i++ {
		zn = emul(zn, zn)
	}
	zh := esub(zn, e1())
	zm1 := esub(ch.zeta, e1())
	t.NZ(tag, "zeta differs from one", zm1[0], zm1[1])
	l0 := emul(zh, einv(esc(zm1, C(uint64(1)<<uint(s.degree)))))
	var terms []E
	for k := 0; k < s.challenges; k++ {
		terms = append(terms, emul(l0, esub(p.zs[k], e1())))
	}
	for k := 0; k < s.challenges; k++ {
		prev := p.zs[k]
		for j := 0; j <= s.npp; j++ {
			next := p.zsNext[k]
			if j < s.npp {
				next = p.pps[k*s.npp+j]
			}
			num, den := e1(), e1()
			for i := j * s.qdf; i < (j+1)*s.qdf && i < s.routed; i++ {
				wg := eadd(p.wires[i], eb(ch.gammas[k]))
				num = emul(num, eadd(wg, esc(esc(ch.zeta, Mod(C(s.kis[i]))), ch.betas[k])))
				den = emul(den, eadd(wg, esc(p.sigmas[i], ch.betas[k])))
			}
			terms = append(terms, esub(emul(prev, num), emul(next, den)))
			prev = next
		}
	}
	terms = append(terms, s.evalGates(p.constants, p.wires, pih)...)
	for k := 0; k < s.challenges; k++ {
		van := epowsum(terms, eb(ch.alphas[k]))
		quo := epowsum(p.quos[k*s.qdf:(k+1)*s.qdf], zn)
		rhs := emul(zh, quo)
		t.EQ(tag, "vanishing polynomial of challenge round "+itoa(k), van[0], rhs[0])
		t.EQ(tag, "vanishing polynomial of challenge round "+itoa(k), van[1], rhs[1])
	}
}

// withGates installs gates, partitioned into the given groups.
func (s *shape) withGates(groups ...[]gateDef) {
	s.defs, s.gates, s.selIdx, s.selLo, s.selHi = nil, nil, nil, nil, nil
	maxW, maxC := 0, 0
	for k, g := range groups {
		lo := len(s.defs)
		for _, d := range g {
			s.defs = append(s.defs, d)
			s.gates = append(s.gates, d.id)
			s.selIdx = append(s.selIdx, uint64(k))
			if d.wires > maxW {
				maxW = d.wires
			}
			if d.consts > maxC {
				maxC = d.consts
			}
		}
		s.selLo = append(s.selLo, uint64(lo))
		s.selHi = append(s.selHi, uint64(len(s.defs)))
	}
	if s.wires < maxW {
		s.wires = maxW
	}
	s.constants = len(groups) + maxC
	s.ngc = 0
	for _, d := range s.defs {
		var c, w []E
		for i := 0; i < d.consts; i++ {
			c = append(c, e1())
		}
		for i := 0; i < d.wires; i++ {
			w = append(w, e1())
		}
		n := len(d.ref(c, w, []N{C(1), C(1), C(1), C(1)}))
		if n > s.ngc {
			s.ngc = n
		}
	}
}

// gateSet picks a list of gates and groups.
func (t T) gateSet(s *shape) {
	switch t.Int("gates", 0, 1, 2, 3, 4, 5, 6, 7) {
	case 0:
		s.withGates([]gateDef{noopGate(), publicInputGate(), constantGate(2), arithmeticGate(1)})
	case 1:
		s.withGates([]gateDef{noopGate(), publicInputGate()}, []gateDef{constantGate(2), arithmeticGate(1), arithmeticExtensionGate(1)})
	case 2:
		s.withGates([]gateDef{baseSumGate(3, 2)}, []gateDef{randomAccessGate(1, 1, 1)}, []gateDef{noopGate(), reducingGate(2), mulExtensionGate(1)})
	case 3:
		s.withGates([]gateDef{noopGate()})
	case 4: // one gate twice, constraint slots left over
		s.withGates([]gateDef{arithmeticGate(1), arithmeticGate(2)}, []gateDef{arithmeticGate(3)})
		s.ngc += 3
	case 5:
		s.withGates([]gateDef{publicInputGate()}, []gateDef{reducingExtensionGate(2)}, []gateDef{exponentiationGate(3)}, []gateDef{cosetInterpolationGate(2, 3)}, []gateDef{constantGate(3)})
		s.constants++
	case 6:
		s.withGates([]gateDef{noopGate(), constantGate(2), poseidonMdsGate(), publicInputGate(), baseSumGate(4, 2), reducingExtensionGate(2)},
			[]gateDef{reducingGate(3), arithmeticExtensionGate(2), arithmeticGate(3), mulExtensionGate(2)},
			[]gateDef{randomAccessGate(2, 2, 2), cosetInterpolationGate(2, 2)})
	case 7: // a single gate per group next to a large group
		s.withGates([]gateDef{arithmeticGate(2)}, []gateDef{noopGate(), publicInputGate(), constantGate(1), baseSumGate(2, 3), exponentiationGate(2), mulExtensionGate(1), reducingGate(1), arithmeticExtensionGate(1)})
	}
}

// standardGates are the gates of Plonky2's recursive circuits.
func (s *shape) standardGates() {
	s.withGates(
		[]gateDef{noopGate(), constantGate(2), poseidonMdsGate(), publicInputGate(), baseSumGate(63, 2)},
		[]gateDef{reducingExtensionGate(33), reducingGate(44), arithmeticExtensionGate(10), arithmeticGate(20), mulExtensionGate(13), exponentiationGate(67)},
		[]gateDef{randomAccessGate(4, 4, 2), cosetInterpolationGate(4, 6), poseidonGate()},
	)
}
