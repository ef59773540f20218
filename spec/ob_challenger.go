package spec

import (
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

const numOps = 14

// step performs operation op on both challengers and compares what they return.
func chalStep(t T, c *challenger.Chip, r *chal, op int, nm string) {
	switch op {
	case 0:
		x := t.Sym(nm)
		c.ObserveElement(gv(x))
		r.observe(x)
	case 1:
		g := c.GetChallenge()
		t.eqG("C07", "GetChallenge", g, r.get())
	case 2:
		xs := t.syms(nm, 3)
		c.ObserveElements(gvs(xs))
		r.observe(xs...)
	case 3:
		xs := t.syms(nm, 4)
		c.ObserveHash(poseidon.GoldilocksHashOut{gv(xs[0]), gv(xs[1]), gv(xs[2]), gv(xs[3])})
		r.observe(xs...)
	case 4:
		h := t.SymNat(nm)
		c.ObserveBN254Hash(Var(h))
		r.observeBN(h)
	case 5:
		hs := t.nats(nm, 3)
		c.ObserveCap(hv(hs))
		r.observeBN(hs...)
	case 6:
		e := t.symE(nm)
		c.ObserveExtensionElement(qv(e))
		r.observeE(e)
	case 7:
		es := t.symEs(nm, 5)
		c.ObserveExtensionElements(qvs(es))
		r.observeE(es...)
	case 8:
		a, b := t.symEs(nm+"a", 3), t.symEs(nm+"b", 2)
		c.ObserveOpenings(fri.Openings{Batches: []fri.OpeningBatch{{Values: qvs(a)}, {Values: qvs(b)}}})
		r.observeE(a...)
		r.observeE(b...)
	case 9:
		gs := c.GetNChallenges(5)
		t.EqualInt("C07", "number of challenges", uint64(len(gs)), 5)
		ws := r.getN(5)
		for i := 0; i < len(gs) && i < 5; i++ {
			t.eqG("C07", "GetNChallenges", gs[i], ws[i])
		}
	case 10:
		g := c.GetExtensionChallenge()
		t.eqE("C07", "GetExtensionChallenge", g, r.getE())
	case 11:
		g := c.GetHash()
		for i := 0; i < 4; i++ {
			t.eqG("C07", "GetHash", g[i], r.get())
		}
	case 12:
		x := t.SymBits(nm, 130)
		c.ObserveElement(gv(x))
		r.observe(x)
	case 13:
		// nothing to observe
		c.ObserveElements(nil)
		c.ObserveCap(nil)
		gs := c.GetNChallenges(0)
		t.EqualInt("C07", "no challenges", uint64(len(gs)), 0)
	}
}

//ob: props=C07,C06,C03,C20,C17,C21,C19 extra=C07 level=3
func chalHistories(t T) {
	api := t.API("none")
	ab := t.IntNovel("absorbed", 0, 40, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	sq := t.Int("squeezed", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	for a := 0; a < numOps; a++ {
		for b := 0; b < numOps; b++ {
			c := challenger.NewChip(api)
			r := newChal()
			for i := 0; i < ab; i++ {
				chalStep(t, c, r, 0, "x"+itoa(i))
			}
			for i := 0; i < sq; i++ {
				chalStep(t, c, r, 1, "")
			}
			chalStep(t, c, r, a, "a")
			chalStep(t, c, r, b, "b")
			chalStep(t, c, r, 1, "")
			chalStep(t, c, r, 10, "")
		}
	}
}

// longer histories: a third operation after every pair, and long squeezes
//
//ob: props=C07,C06,C03,C20,C17,C21 extra=C07 level=3
func chalLong(t T) {
	api := t.API("none")
	a := t.Int("first", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
	for b := 0; b < 12; b++ {
		for d := 0; d < 12; d++ {
			c := challenger.NewChip(api)
			r := newChal()
			chalStep(t, c, r, a, "a")
			chalStep(t, c, r, b, "b")
			chalStep(t, c, r, d, "d")
			chalStep(t, c, r, 2, "e")
			chalStep(t, c, r, b, "f")
			chalStep(t, c, r, 9, "")
		}
	}
	n := t.IntNovel("long squeeze", 0, 200, 8, 9, 17, 28, 40)
	c := challenger.NewChip(api)
	r := newChal()
	chalStep(t, c, r, a, "a")
	gs := c.GetNChallenges(uint64(n))
	ws := r.getN(n)
	t.EqualInt("C07", "number of challenges", uint64(len(gs)), uint64(n))
	for i := 0; i < n && i < len(gs); i++ {
		t.eqG("C07", "GetNChallenges", gs[i], ws[i])
	}
	// many inputs
	c = challenger.NewChip(api)
	r = newChal()
	xs := t.syms("m", n)
	c.ObserveElements(gvs(xs))
	r.observe(xs...)
	chalStep(t, c, r, 1, "")
}

// two challengers on one builder do not influence each other
//
//ob: props=C07,C21,C17 extra=C07 level=3
func chalIndependent(t T) {
	api := t.API("none")
	c1, c2 := challenger.NewChip(api), challenger.NewChip(api)
	r1, r2 := newChal(), newChal()
	k := t.Int("seed", 0, 1, 2, 3, 4, 5)
	for i := 0; i < 12; i++ {
		chalStep(t, c1, r1, (i*5+k)%12, "p"+itoa(i))
		chalStep(t, c2, r2, (i*7+3*k)%12, "q"+itoa(i))
	}
	chalStep(t, c1, r1, 9, "")
	chalStep(t, c2, r2, 9, "")
}

func friChecks(t T, tag string, g variables.FriChallenges, w friCh) {
	t.eqE(tag, "FRI alpha", g.FriAlpha, w.alpha)
	t.EqualInt(tag, "number of FRI betas", uint64(len(g.FriBetas)), uint64(len(w.betas)))
	for i := 0; i < len(g.FriBetas) && i < len(w.betas); i++ {
		t.eqE(tag, "FRI beta "+itoa(i), g.FriBetas[i], w.betas[i])
	}
	t.eqG(tag, "proof-of-work response", g.FriPowResponse, w.pow)
	t.EqualInt(tag, "number of query indices", uint64(len(g.FriQueryIndices)), uint64(len(w.indices)))
	for i := 0; i < len(g.FriQueryIndices) && i < len(w.indices); i++ {
		t.eqG(tag, "query index "+itoa(i), g.FriQueryIndices[i], w.indices[i])
	}
}

//ob: props=C06,C07,C03,C20,C17,C21,C19 extra=C06,C07 level=3
func chalFri(t T) {
	c := challenger.NewChip(t.API("none"))
	r := newChal()
	pre := t.Int("absorbed", 0, 3)
	xs := t.syms("pre", pre)
	c.ObserveElements(gvs(xs))
	r.observe(xs...)
	n := t.Int("folding commitments", 0, 1, 2, 3)
	capn := t.Int("cap size", 16, 1, 2)
	f := t.IntNovel("final polynomial", 0, 40, 1, 0, 2, 4)
	q := t.IntNovel("queries", 0, 60, 2, 28, 0)
	var caps [][]N
	var vcaps []variables.FriMerkleCap
	for i := 0; i < n; i++ {
		cp := t.nats("cap"+itoa(i), capn)
		caps = append(caps, cp)
		vcaps = append(vcaps, hv(cp))
	}
	final := t.symEs("final", f)
	pow := t.Sym("pow")
	g := c.GetFriChallenges(vcaps, variables.PolynomialCoeffs{Coeffs: qvs(final)}, gv(pow), types.FriConfig{RateBits: 3, CapHeight: 4, ProofOfWorkBits: 16, NumQueryRounds: uint64(q)})
	friChecks(t, "C06,C07", g, r.fri(caps, final, pow, q))
	// the challenger's state afterwards
	t.eqG("C06,C07", "challenge after FRI", c.GetChallenge(), r.get())
}

// shapes for the transcript and the whole verifier
func (t T) shapes() shape {
	s := shape{wires: 6, routed: 4, constants: 3, challenges: 2, npp: 1, qdf: 2, degree: 5, rate: 3, cap: 4, pow: 16, queries: 2, arities: []int{4}, pis: 3}
	switch t.Int("shape", 0, 1, 2, 3, 4, 5, 6) {
	case 1:
		s.challenges = 1
		s.queries = 1
		s.degree = 9
		s.arities = []int{4, 4}
	case 2:
		s.challenges = 3
		s.degree = 2
		s.rate = 2
		s.arities = nil
		s.pow = 0
		s.pis = 0
	case 3:
		s.challenges = 2
		s.npp = 0
		s.routed = 2
		s.degree = 6
		s.pow = 8
		s.queries = 3
		s.pis = 9
	case 4:
		s.degree = 8
		s.rate = 1
		s.npp = 2
		s.qdf = 3
		s.routed = 9
		s.wires = 11
		s.constants = 5
		s.pis = 17
	case 5:
		s.degree = 12
		s.arities = []int{4, 4, 4}
		s.rate = 4
		s.challenges = 4
		s.queries = 1
		s.pow = 32
	case 6:
		s.degree = 10
		s.arities = []int{4, 4}
		s.queries = 5
		s.pow = 48
		s.rate = 5
		s.constants = 1
		s.pis = 8
	}
	s.kis = mkKis(s.routed)
	return s
}

// standard is the shape of Plonky2's standard recursion configuration.
func standard() shape {
	s := shape{wires: 135, routed: 80, constants: 5, challenges: 2, npp: 9, qdf: 8, degree: 12, rate: 3, cap: 4, pow: 16, queries: 28, arities: []int{4, 4}, pis: 36}
	s.kis = mkKis(80)
	return s
}

func chChecks(t T, tag string, g variables.ProofChallenges, w allCh) {
	l := func(what string, got []gl.Variable, want []N) {
		t.EqualInt(tag, "number of "+what, uint64(len(got)), uint64(len(want)))
		for i := 0; i < len(got) && i < len(want); i++ {
			t.eqG(tag, what+" "+itoa(i), got[i], want[i])
		}
	}
	l("betas", g.PlonkBetas, w.betas)
	l("gammas", g.PlonkGammas, w.gammas)
	l("alphas", g.PlonkAlphas, w.alphas)
	t.eqE(tag, "zeta", g.PlonkZeta, w.zeta)
	friChecks(t, tag, g.FriChallenges, w.fri)
}

//ob: props=C06,C07,C03,C20,C17,C21,C19,C14 extra=C06 level=3
func transcriptAll(t T) {
	s := t.shapes()
	if t.Int("standard", 0, 1) == 1 {
		s = standard()
	}
	s.noGates()
	chip := verifier.NewVerifierChip(t.API("none"), s.common())
	p, v := t.proof(s), t.vd(s)
	pih := t.syms("pih", 4)
	g := chip.GetChallenges(p.vars(), poseidon.GoldilocksHashOut{gv(pih[0]), gv(pih[1]), gv(pih[2]), gv(pih[3])}, v.vars())
	chChecks(t, "C06", g, transcript(s, p, pih, v))
	// public inputs
	xs := t.syms("pi", s.pis)
	h := chip.GetPublicInputsHash(gvs(xs))
	want := spongeGL(xs, 4)
	for i := 0; i < 4; i++ {
		t.eqG("C06,C19", "public input hash", h[i], want[i])
	}
}

func (s *shape) noGates() {
	s.gates = []string{"NoopGate"}
	s.selIdx = []uint64{0}
	s.selLo = []uint64{0}
	s.selHi = []uint64{1}
	s.ngc = 0
}
