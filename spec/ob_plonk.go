package spec

import (
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func (t T) allCh(s shape) allCh {
	return allCh{
		betas: t.syms("beta", s.challenges), gammas: t.syms("gamma", s.challenges), alphas: t.syms("alpha", s.challenges), zeta: t.symE("zeta"),
	}
}

func (a allCh) vars() variables.ProofChallenges {
	return variables.ProofChallenges{PlonkBetas: gvs(a.betas), PlonkGammas: gvs(a.gammas), PlonkAlphas: gvs(a.alphas), PlonkZeta: qv(a.zeta)}
}

func (t T) plonkShape() shape {
	s := shape{challenges: 2, npp: 1, qdf: 2, degree: 5, rate: 3, cap: 4, pow: 16, queries: 1, wires: 4}
	switch t.Int("permutation", 0, 1, 2, 3, 4, 5, 6) {
	case 1:
		s.challenges = 1
		s.degree = 1
	case 2:
		s.challenges = 3
		s.npp = 0
		s.qdf = 3
		s.degree = 0
	case 3:
		s.npp = 2
		s.qdf = 1
		s.degree = 13
	case 4:
		s.npp = 3
		s.qdf = 4
		s.degree = 20
	case 5:
		s.challenges = 4
		s.npp = 0
		s.qdf = 1
	case 6:
		s.npp = 4
		s.qdf = 8
		s.degree = 31
	}
	s.routed = (s.npp + 1) * s.qdf
	if s.wires < s.routed {
		s.wires = s.routed
	}
	s.wires += 1
	s.kis = mkKis(s.routed)
	return s
}

//ob: props=C10,C12,C03,C20,C17,C21,C19 extra=C10 level=2
func plonkIdentity(t T) {
	s := t.plonkShape()
	t.gateSet(&s)
	api := t.API("none")
	chip := plonk.NewPlonkChip(api, s.common())
	var p proofN
	t.openN(s, &p)
	ch := t.allCh(s)
	pih := t.syms("pih", 4)
	chip.Verify(ch.vars(), p.openings(), hashOut(pih))
	t.plonkVerify("C10", s, p, ch, pih)
}

//ob: props=C10,C12,C03,C20,C17,C21,C19 extra=C10 level=2
func plonkStandard(t T) {
	s := standard()
	s.standardGates()
	api := t.API("none")
	chip := plonk.NewPlonkChip(api, s.common())
	var p proofN
	t.openN(s, &p)
	ch := t.allCh(s)
	pih := t.syms("pih", 4)
	chip.Verify(ch.vars(), p.openings(), hashOut(pih))
	t.plonkVerify("C10", s, p, ch, pih)
}
