package spec

import (
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

func (t T) friCh(s shape) friCh {
	return friCh{alpha: t.symE("alpha"), betas: t.symEs("beta", len(s.arities)), pow: t.Sym("pow_response"), indices: t.syms("index", s.queries)}
}

func (c friCh) vars() variables.FriChallenges {
	return variables.FriChallenges{FriAlpha: qv(c.alpha), FriBetas: qvs(c.betas), FriPowResponse: gv(c.pow), FriQueryIndices: gvs(c.indices)}
}

func (t T) friShapes() shape {
	s := shape{wires: 6, routed: 4, constants: 3, challenges: 2, npp: 1, qdf: 2, degree: 5, rate: 3, cap: 4, pow: 16, queries: 1, arities: []int{4}}
	switch t.Int("parameters", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19) {
	case 1: // no folding
		s.arities = nil
	case 2: // minimal domain, path length 0
		s.arities = nil
		s.degree = 1
	case 3: // constant final polynomial
		s.degree = 4
		s.rate = 4
	case 4: // two folding steps
		s.degree = 9
		s.arities = []int{4, 4}
	case 5: // two folding steps, constant final polynomial
		s.degree = 8
		s.rate = 4
		s.arities = []int{4, 4}
	case 6: // three
		s.degree = 12
		s.rate = 5
		s.arities = []int{4, 4, 4}
	case 7:
		s.challenges = 1
		s.degree = 6
	case 8:
		s.challenges = 3
		s.npp = 2
		s.qdf = 3
		s.degree = 7
	case 9:
		s.queries = 2
		s.pow = 0
	case 10:
		s.queries = 4
		s.pow = 1
		s.arities = nil
	case 11: // leaves of at most three elements are not hashed
		s.wires = 3
		s.routed = 1
		s.constants = 1
		s.challenges = 1
		s.npp = 0
		s.qdf = 1
	case 12:
		s.rate = 1
		s.degree = 8
		s.pow = 63
	case 13:
		s.rate = 8
		s.degree = 4
		s.pow = 32
	case 14: // no partial products
		s.npp = 0
		s.constants = 0
		s.degree = 6
	case 15: // wide leaves
		s.wires = 30
		s.routed = 20
		s.constants = 7
		s.qdf = 8
		s.npp = 9
		s.arities = nil
	case 16: // large domain
		s.degree = 24
		s.rate = 6
		s.arities = []int{4, 4, 4, 4, 4}
	case 17:
		s.queries = 28
		s.arities = nil
		s.degree = 2
		s.rate = 2
	case 18: // the largest domain
		s.degree = 29
		s.rate = 3
		s.queries = 1
		s.arities = []int{4, 4, 4, 4, 4, 4}
	case 19:
		s.degree = 17
		s.rate = 3
		s.arities = []int{4, 4, 4}
	}
	return s
}

//ob: props=C08,C09,C03,C20,C17,C21,C19,C14 extra=C08,C09 level=3
func friVerifyProof(t T) {
	s := t.friShapes()
	api := t.API("none")
	common := s.common()
	var params types.FriParams = common.FriParams
	chip := fri.NewChip(api, &common, &params)
	p := t.proof(s)
	ch := t.friCh(s)
	zeta := t.symE("zeta")
	var caps [][]N
	var vcaps []variables.FriMerkleCap
	for i := 0; i < 4; i++ {
		c := t.nats("cap"+itoa(i), 16)
		caps = append(caps, c)
		vcaps = append(vcaps, hv(c))
	}
	fp := p.fri()
	fc := ch.vars()
	chip.VerifyFriProof(chip.GetInstance(qv(zeta)), chip.ToOpenings(p.openings()), &fc, vcaps, &fp)
	t.friVerify(friTags{"C08", "C09", "C09"}, s, p, caps, ch, zeta)
}

// the instance and the openings list the polynomials of every oracle in Plonky2's order
//
//ob: props=C09,C06,C08,C17,C21,C19 extra=C09 level=3
func friInstance(t T) {
	s := t.friShapes()
	common := s.common()
	chip := fri.NewChip(t.API("none"), &common, &common.FriParams)
	zeta := t.symE("zeta")
	in := chip.GetInstance(qv(zeta))
	t.EqualInt("C09", "oracles", uint64(len(in.Oracles)), 4)
	for i := 0; i < len(in.Oracles); i++ {
		t.EqualInt("C09,C08", "width of oracle "+itoa(i), in.Oracles[i].NumPolys, uint64(s.oracle(i)))
	}
	t.EqualInt("C09", "batches", uint64(len(in.Batches)), 2)
	t.eqE("C09", "first batch is opened at zeta", in.Batches[0].Point, zeta)
	t.eqE("C09", "second batch is opened at g*zeta", in.Batches[1].Point, esc(zeta, root(s.degree)))
	k := 0
	for o := 0; o < 4; o++ {
		for i := 0; i < s.oracle(o); i++ {
			if k < len(in.Batches[0].Polynomials) {
				x := in.Batches[0].Polynomials[k]
				t.EqualInt("C09", "oracle of polynomial", x.OracleIndex, uint64(o))
				t.EqualInt("C09", "index of polynomial", x.PolynomialInfo, uint64(i))
			}
			k++
		}
	}
	t.EqualInt("C09", "polynomials opened at zeta", uint64(len(in.Batches[0].Polynomials)), uint64(k))
	t.EqualInt("C09", "polynomials opened at g*zeta", uint64(len(in.Batches[1].Polynomials)), uint64(s.challenges))
	for i, x := range in.Batches[1].Polynomials {
		t.EqualInt("C09", "oracle of polynomial", x.OracleIndex, 2)
		t.EqualInt("C09", "index of polynomial", x.PolynomialInfo, uint64(i))
	}
	p := t.proof(s)
	op := chip.ToOpenings(p.openings())
	var l []E
	l = append(l, p.constants...)
	l = append(l, p.sigmas...)
	l = append(l, p.wires...)
	l = append(l, p.zs...)
	l = append(l, p.pps...)
	l = append(l, p.quos...)
	t.EqualInt("C09,C06", "opening batches", uint64(len(op.Batches)), 2)
	t.EqualInt("C09,C06", "openings at zeta", uint64(len(op.Batches[0].Values)), uint64(len(l)))
	t.EqualInt("C09,C06", "openings at g*zeta", uint64(len(op.Batches[1].Values)), uint64(s.challenges))
	for i := 0; i < len(l) && i < len(op.Batches[0].Values); i++ {
		t.eqE("C09,C06", "opening "+itoa(i)+" at zeta", op.Batches[0].Values[i], l[i])
	}
	for i := 0; i < s.challenges && i < len(op.Batches[1].Values); i++ {
		t.eqE("C09,C06", "opening "+itoa(i)+" at g*zeta", op.Batches[1].Values[i], p.zsNext[i])
	}
}
