package spec

import (
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// Chips used more than once: whatever a chip keeps from one call must not leak into the next one,
// whether the second call is made through the same chip, through another chip of the same builder,
// or on another builder.

func (t T) otherShape(s shape) shape {
	o := t.smallShape()
	o.queries = 1
	o.challenges = s.challenges%3 + 1
	o.degree = s.degree + 1
	o.rate = s.rate
	o.arities = nil
	if o.degree+o.rate >= 8 {
		o.arities = []int{4}
	}
	o.npp = 0
	o.qdf = 3
	o.routed = 3
	o.wires = s.wires + 2
	o.pis = s.pis + 1
	o.kis = mkKis(o.routed)
	o.withGates([]gateDef{noopGate(), arithmeticGate(1)}, []gateDef{publicInputGate(), constantGate(2), arithmeticExtensionGate(1)})
	return o
}

// two proofs are verified one after the other
//
//ob: props=C01,C03,C06,C08,C09,C10,C12,C17,C19,C20,C21 extra=C19 level=3
func reuseVerifier(t T) {
	s := t.smallShape()
	s.queries = 1
	if t.Int("folded", 1, 0) == 0 {
		s.arities = nil
		s.degree = 3
	}
	api := t.API("none")
	how := t.Str("second", "same chip", "another chip", "another shape", "another builder", "another shape on another builder")
	differs := "everything"
	if how == "same chip" || how == "another chip" {
		differs = t.Str("which differs in", "everything", "proof", "public inputs", "verifier data", "openings", "queries")
	}
	chip := verifier.NewVerifierChip(api, s.common())
	p, v, pis := t.proof(s), t.vd(s), t.syms("pi", s.pis)
	chip.Verify(p.vars(), gvs(pis), v.vars())
	uses := t.verifierFacts(s, p, pis, v)

	s2 := s
	switch how {
	case "another chip":
		chip = verifier.NewVerifierChip(api, s.common())
	case "another shape":
		s2 = t.otherShape(s)
		chip = verifier.NewVerifierChip(api, s2.common())
	case "another builder":
		chip = verifier.NewVerifierChip(t.API("none"), s2.common())
	case "another shape on another builder":
		s2 = t.otherShape(s)
		chip = verifier.NewVerifierChip(t.API("none"), s2.common())
	}
	t.Names("second.")
	p2, v2, pis2 := t.proof(s2), t.vd(s2), t.syms("pi", s2.pis)
	switch differs {
	case "proof":
		v2, pis2 = v, pis
	case "public inputs":
		v2, p2 = v, p
	case "verifier data":
		p2, pis2 = p, pis
	case "openings":
		v2, pis2 = v, pis
		p2.wiresCap, p2.zsCap, p2.quoCap, p2.commitCaps, p2.rounds, p2.final, p2.pow = p.wiresCap, p.zsCap, p.quoCap, p.commitCaps, p.rounds, p.final, p.pow
	case "queries":
		v2, pis2 = v, pis
		p2.wiresCap, p2.zsCap, p2.quoCap, p2.commitCaps = p.wiresCap, p.zsCap, p.quoCap, p.commitCaps
		p2.constants, p2.sigmas, p2.wires, p2.zs, p2.zsNext, p2.pps, p2.quos = p.constants, p.sigmas, p.wires, p.zs, p.zsNext, p.pps, p.quos
	}
	chip.Verify(p2.vars(), gvs(pis2), v2.vars())
	uses = append(uses, t.verifierFacts(s2, p2, pis2, v2)...)
	t.UsesOnly("C06,C19", "challenges used in constraints come from the transcript", "glposeidon", uses...)
}

// the circuit is built twice, as for compilation and proving, or for two builders
//
//ob: props=C01,C06,C08,C09,C10,C12,C17,C19,C21 extra=C19 level=3
func reuseCircuit(t T) {
	s := t.smallShape()
	s.queries = 1
	p, v, pis := t.proof(s), t.vd(s), t.syms("pi", s.pis)
	c := verifier.ExampleVerifierCircuit{PublicInputs: gvs(pis), Proof: p.vars(), VerifierOnlyCircuitData: v.vars(), CommonCircuitData: s.common()}
	api := t.API("none")
	if err := c.Define(api); err != nil {
		t.Fail("C19", "Define fails")
	}
	t.ClearEffects()
	// the same circuit value, with the variables of another builder
	t.Names("second.")
	p2, v2, pis2 := t.proof(s), t.vd(s), t.syms("pi", s.pis)
	c.Proof, c.VerifierOnlyCircuitData, c.PublicInputs = p2.vars(), v2.vars(), gvs(pis2)
	if err := c.Define(t.API("none")); err != nil {
		t.Fail("C19", "Define fails the second time")
	}
	t.verifierSpec(s, p2, pis2, v2)
}

// two vanishing identities
//
//ob: props=C10,C12,C03,C17,C20,C21 extra=C10 level=2
func reusePlonk(t T) {
	s := shape{challenges: 2, npp: 1, qdf: 2, degree: 5, rate: 3, cap: 4, pow: 16, queries: 1, wires: 5, routed: 4}
	s.kis = mkKis(s.routed)
	t.gateSet(&s)
	api := t.API("none")
	chip := plonk.NewPlonkChip(api, s.common())
	var p, p2 proofN
	t.openN(s, &p)
	ch, pih := t.allCh(s), t.syms("pih", 4)
	chip.Verify(ch.vars(), p.openings(), hashOut(pih))
	t.plonkVerify("C10", s, p, ch, pih)
	s2 := s
	how := t.Str("second", "same chip", "another chip", "another shape", "another builder")
	switch how {
	case "another chip":
		chip = plonk.NewPlonkChip(api, s.common())
	case "another shape":
		s2.degree = s.degree + 2
		s2.challenges = 3
		s2.npp, s2.qdf, s2.routed = 0, 3, 3
		s2.kis = mkKis(9)[5:8]
		chip = plonk.NewPlonkChip(api, s2.common())
	case "another builder":
		chip = plonk.NewPlonkChip(t.API("none"), s.common())
	}
	differs := t.Str("which differs in", "everything", "openings", "challenges", "zeta", "public inputs")
	t.Names("second.")
	t.openN(s2, &p2)
	ch2, pih2 := t.allCh(s2), t.syms("pih", 4)
	if how != "another shape" {
		switch differs {
		case "openings":
			ch2, pih2 = ch, pih
		case "challenges":
			p2, pih2 = p, pih
		case "zeta":
			p2, pih2 = p, pih
			ch2.betas, ch2.gammas, ch2.alphas = ch.betas, ch.gammas, ch.alphas
		case "public inputs":
			p2, ch2 = p, ch
		}
	}
	chip.Verify(ch2.vars(), p2.openings(), hashOut(pih2))
	t.plonkVerify("C10", s2, p2, ch2, pih2)
	// and the first one again
	if how == "same chip" {
		t.ClearEffects()
		t.Names("third.")
		p3 := p
		t.openN(s, &p3)
		chip.Verify(ch.vars(), p3.openings(), hashOut(pih))
		chip.Verify(ch2.vars(), p2.openings(), hashOut(pih2))
		chip.Verify(ch.vars(), p.openings(), hashOut(pih))
		t.plonkVerify("C10", s, p3, ch, pih)
	}
}

// two opening proofs
//
//ob: props=C08,C09,C03,C17,C20,C21,C19 extra=C08,C09 level=3
func reuseFri(t T) {
	s := t.smallShape()
	s.queries = 2
	switch t.Int("folding", 2, 1, 0) {
	case 1:
		s.degree = 6
		s.arities = []int{4}
	case 0:
		s.degree = 2
		s.arities = nil
	}
	api := t.API("none")
	common := s.common()
	chip := fri.NewChip(api, &common, &common.FriParams)
	caps := func() ([][]N, []variables.FriMerkleCap) {
		var a [][]N
		var b []variables.FriMerkleCap
		for i := 0; i < 4; i++ {
			c := t.nats("cap"+itoa(i), 16)
			a = append(a, c)
			b = append(b, hv(c))
		}
		return a, b
	}
	p, ch, zeta := t.proof(s), t.friCh(s), t.symE("zeta")
	cs, cv := caps()
	fp, fc := p.fri(), ch.vars()
	chip.VerifyFriProof(chip.GetInstance(qv(zeta)), chip.ToOpenings(p.openings()), &fc, cv, &fp)
	t.friVerify(friTags{"C08", "C09", "C09"}, s, p, cs, ch, zeta)

	s2 := s
	how := t.Str("second", "same chip", "another chip", "another shape", "another builder")
	common2 := s.common()
	switch how {
	case "another chip":
		chip = fri.NewChip(api, &common2, &common2.FriParams)
	case "another shape":
		s2 = t.otherShape(s)
		common2 = s2.common()
		chip = fri.NewChip(api, &common2, &common2.FriParams)
	case "another builder":
		chip = fri.NewChip(t.API("none"), &common2, &common2.FriParams)
	}
	differs := "everything"
	if how != "another shape" {
		differs = t.Str("which differs in", "everything", "proof", "commitments", "zeta", "challenges", "indices")
	}
	t.Names("second.")
	p2, ch2, zeta2 := t.proof(s2), t.friCh(s2), t.symE("zeta")
	cs2, cv2 := caps()
	switch differs {
	case "proof":
		ch2, zeta2, cs2, cv2 = ch, zeta, cs, cv
	case "commitments":
		p2, ch2, zeta2 = p, ch, zeta
	case "zeta":
		p2, ch2, cs2, cv2 = p, ch, cs, cv
	case "challenges":
		p2, zeta2, cs2, cv2 = p, zeta, cs, cv
	case "indices":
		p2, zeta2, cs2, cv2 = p, zeta, cs, cv
		ch2.alpha, ch2.betas, ch2.pow = ch.alpha, ch.betas, ch.pow
	}
	fp2, fc2 := p2.fri(), ch2.vars()
	chip.VerifyFriProof(chip.GetInstance(qv(zeta2)), chip.ToOpenings(p2.openings()), &fc2, cv2, &fp2)
	t.friVerify(friTags{"C08", "C09", "C09"}, s2, p2, cs2, ch2, zeta2)
}

// the filtered constraints of several rows
//
//ob: props=C12,C10,C11,C03,C17,C20,C21,C19 extra=C12 level=1
func reuseFilter(t T) {
	api := t.API("none")
	var s shape
	t.gateSet(&s)
	var gs []gates.Gate
	for _, d := range s.defs {
		gs = append(gs, d.make())
	}
	mk := func(api frontend.API) *gates.EvaluateGatesChip {
		return gates.NewEvaluateGatesChip(api, gs, uint64(s.ngc), *gates.NewSelectorsInfo(s.selIdx, s.selLo, s.selHi))
	}
	chip := mk(api)
	c, w, pih := t.symEs("const", s.constants), t.symEs("wire", s.wires), t.syms("pih", 4)
	t.eqConstraints("C12,C10", "filtered constraints", chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih))), s.evalGates(c, w, pih))
	switch t.Str("second", "same chip", "another chip", "another builder") {
	case "another chip":
		chip = mk(api)
	case "another builder":
		chip = mk(t.API("none"))
	}
	t.Names("second.")
	c2, w2, pih2 := t.symEs("const", s.constants), t.symEs("wire", s.wires), t.syms("pih", 4)
	for k := 0; k < 4; k++ {
		x, y, z := c, w, pih
		if k&1 == 0 {
			x = c2
		}
		if k&2 == 0 {
			y = w2
		}
		if k != 2 {
			z = pih2
		}
		t.eqConstraints("C12,C10,C17", "filtered constraints of another row", chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(x), qvs(y), hashOut(z))), s.evalGates(x, y, z))
	}
	// one constant at a time
	for k := 0; k < len(c); k++ {
		x := append([]E{}, c...)
		x[k] = c2[k]
		t.eqConstraints("C12,C10,C17", "filtered constraints of a row that differs in constant "+itoa(k), chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(x), qvs(w), hashOut(pih))), s.evalGates(x, w, pih))
	}
}

// the gates are evaluated on several rows
//
//ob: props=C11,C03,C17,C20,C21,C19 extra=C11 level=1
func reuseGate(t T) {
	api := t.API("none")
	d := t.gateDef(!t.Thorough())
	g := d.make()
	chip := gl.New(api)
	for k, nm := range []string{"", "second.", "third."} {
		t.Names(nm)
		c, w := t.symEs("const", d.consts+k%2), t.symEs("wire", d.wires+k%2)
		pih := t.syms("pih", 4)
		if k == 2 {
			api = t.API("none")
			chip = gl.New(api)
		}
		t.eqConstraints("C11", d.id+" on row "+itoa(k), g.EvalUnfiltered(api, chip, *gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih))), d.ref(c, w, pih))
	}
}

// sponges and permutations are used on several inputs
//
//ob: props=C13,C07,C08,C03,C17,C20,C21,C19,C06 extra=C13 level=3
func reusePoseidon(t T) {
	api := t.API("none")
	g, b := poseidon.NewGoldilocksChip(api), poseidon.NewBN254Chip(api)
	n := t.Int("inputs", 0, 1, 3, 4, 5, 8, 9, 12, 16, 17)
	for k, nm := range []string{"", "second.", "third.", ""} {
		t.Names(nm)
		m := n
		if k == 2 {
			m = n + 5
			api = t.API("none")
			g, b = poseidon.NewGoldilocksChip(api), poseidon.NewBN254Chip(api)
		}
		in := t.syms("x", m)
		h := g.HashNoPad(gvs(in))
		w := spongeGL(in, 4)
		for i := 0; i < 4; i++ {
			t.eqG("C13", "HashNoPad, output "+itoa(i), h[i], w[i])
		}
		out := g.HashNToMNoPad(gvs(in), 9)
		w = spongeGL(in, 9)
		for i := 0; i < 9; i++ {
			t.eqG("C13", "HashNToMNoPad, output "+itoa(i), out[i], w[i])
		}
		t.Equal("C13,C08", "HashOrNoop", Of(b.HashOrNoop(gvs(in))), hashOrNoopBN(in))
		t.Equal("C13,C08", "HashNoPad", Of(b.HashNoPad(gvs(in))), hashBN(in))
		l, r := t.SymNat("l"), t.SymNat("r")
		t.Equal("C13,C08", "TwoToOne", Of(b.TwoToOne(Var(l), Var(r))), twoToOneBN(l, r))
		t.Equal("C13,C08", "TwoToOne", Of(b.TwoToOne(Var(r), Var(l))), twoToOneBN(r, l))
		v := b.ToVec(Var(l))
		for i := 0; i < len(v) && i < 5; i++ {
			t.Equal("C13,C06,C07", "ToVec, element "+itoa(i), gn(v[i]), bnvec(l, i))
		}
	}
}

// transcripts of several proofs, on one builder and on several
//
//ob: props=C06,C07,C03,C17,C20,C21 extra=C06 level=3
func reuseTranscript(t T) {
	s := t.smallShape()
	api := t.API("none")
	chip := verifier.NewVerifierChip(api, s.common())
	how := t.Str("second", "same chip", "another chip", "another builder")
	var first proofN
	for k, nm := range []string{"", "second.", "third.", ""} {
		t.Names(nm)
		if k > 0 {
			switch how {
			case "another chip":
				chip = verifier.NewVerifierChip(api, s.common())
			case "another builder":
				chip = verifier.NewVerifierChip(t.API("none"), s.common())
			}
		}
		p, v, pih := t.proof(s), t.vd(s), t.syms("pih", 4)
		if k == 0 {
			first = p
		}
		if k == 2 { // differs from the first one in its openings only
			q := first
			q.wires = p.wires
			p = q
			t.Names("")
			v, pih = t.vd(s), t.syms("pih", 4)
		}
		got := chip.GetChallenges(p.vars(), hashOut(pih), v.vars())
		chChecks(t, "C06", got, transcript(s, p, pih, v))
	}
}

// the caller's buffers are read when they are handed over, and left as they are
//
//ob: props=C07,C06,C17 extra=C07 level=3
func chalBuffers(t T) {
	c := challenger.NewChip(t.API("none"))
	r := newChal()
	n := t.Int("buffer", 1, 3, 8, 12)
	spare := t.Int("spare capacity", 0, 4)
	pre := t.Int("observed before", 0, 3, 7)
	for i := 0; i < pre; i++ {
		chalStep(t, c, r, 0, "x"+itoa(i))
	}
	if t.Int("squeezed before", 0, 1) == 1 {
		chalStep(t, c, r, 1, "")
	}
	xs := t.syms("buf", n+spare)
	all := gvs(xs)
	buf := all[:n]
	kind := t.Str("buffer of", "elements", "extension elements", "digests")
	es := t.symEs("ebuf", n+spare)
	eall := qvs(es)
	hs := t.nats("hbuf", n+spare)
	hall := hv(hs)
	put := func() {
		switch kind {
		case "elements":
			c.ObserveElements(buf)
			r.observe(xs[:n]...)
		case "extension elements":
			c.ObserveExtensionElements(eall[:n])
			r.observeE(es[:n]...)
		case "digests":
			c.ObserveCap(hall[:n])
			r.observeBN(hs[:n]...)
		}
	}
	put()
	if t.Int("then", 0, 1) == 1 {
		chalStep(t, c, r, 0, "y")
		chalStep(t, c, r, 6, "ye")
	}
	for i := n; i < n+spare; i++ {
		t.eqG("C07,C17", "the caller's memory behind the buffer is left as it is", all[i], xs[i])
		t.eqE("C07,C17", "the caller's memory behind the buffer is left as it is", eall[i], es[i])
		t.Equal("C07,C17", "the caller's memory behind the buffer is left as it is", Of(hall[i]), hs[i])
	}
	// the caller reuses its buffer
	t.Names("second.")
	xs, es, hs = t.syms("buf", n+spare), t.symEs("ebuf", n+spare), t.nats("hbuf", n+spare)
	for i := range xs {
		all[i] = gv(xs[i])
		eall[i] = qv(es[i])
		hall[i] = Var(hs[i])
	}
	if t.Int("squeezed between", 0, 1) == 1 {
		chalStep(t, c, r, 1, "")
	}
	put()
	chalStep(t, c, r, 1, "")
	gs := c.GetNChallenges(5)
	ws := r.getN(5)
	chalStep(t, c, r, 2, "z")
	chalStep(t, c, r, 9, "")
	// challenges handed out stay what they are
	for i := 0; i < len(gs) && i < 5; i++ {
		t.eqG("C07", "a challenge handed out before", gs[i], ws[i])
	}
	for i := range xs {
		t.eqG("C07,C17", "the caller's buffer is left as it is", all[i], xs[i])
		t.eqE("C07,C17", "the caller's buffer is left as it is", eall[i], es[i])
	}
}

// a long-lived process builds many circuits: none of them takes another one's chip away
//
//ob: props=C16 extra=C16,C04 level=0
func reuseManyBuilders(t T) {
	n := t.IntNovel("builders", 2, 1500, 2, 17, 65, 130, 257, 520, 1030)
	var apis []frontend.API
	var chips []*gl.Chip
	sc := t.Str("builder", "none", "commit", "native")
	for i := 0; i < n; i++ {
		api := t.API(sc)
		apis = append(apis, api)
		chips = append(chips, gl.New(api))
	}
	u, v := t.SymNat("u"), t.SymNat("v")
	if sc == "commit" {
		t.pad(chips[0], 700)
	}
	chips[0].RangeCheckWithMaxBits(gv(u), 32)
	for i := 0; i < n; i++ {
		t.True("C16", "the chip of builder "+itoa(i)+" of "+itoa(n)+" is replaced", t.SamePtr(chips[i], gl.New(apis[i])))
	}
	gl.New(apis[0]).RangeCheckWithMaxBits(gv(v), 16)
	t.Finalize(apis[0])
	t.Bits("C16,C04", "check on the first builder", u, 32)
	t.Bits("C16,C04", "check on the first builder after the others", v, 16)
}

// sponge inputs that are constants, canonical or not
//
//ob: props=C13,C03,C06,C17,C20,C21 extra=C13 level=3
func glSpongeConstants(t T) {
	chip := poseidon.NewGoldilocksChip(t.API("none"))
	n := t.Int("inputs", 1, 3, 8, 13)
	first := t.Int("constant", 0, 1, 2, 3, 4, 5)
	ks := []string{"18446744069414584321", "18446744069414584326", "18446744073709551615", "1267650600228229401496703205379", "7", "0"}
	var in []gl.Variable
	var ns []N
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			x := t.Sym("x." + itoa(i))
			in = append(in, gv(x))
			ns = append(ns, x)
			continue
		}
		k := ks[(first+i)%6]
		if i%2 == 0 {
			in = append(in, gl.NewVariable(t.BigC(k)))
		} else {
			in = append(in, gl.NewVariable(Own(CS(k))))
		}
		ns = append(ns, Mod(CS(k)))
	}
	out := chip.HashNoPad(in)
	want := spongeGL(ns, 4)
	for i := 0; i < 4; i++ {
		t.eqG("C13", "HashNoPad, output "+itoa(i), out[i], want[i])
	}
}
