package spec

import (
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

// shape is the part of the common circuit data that the verifier's behaviour depends on.
type shape struct {
	wires, routed, constants int // constants: number of constant polynomials, selectors included
	challenges               int
	npp, qdf                 int
	degree, rate, cap, pow   int
	queries                  int
	arities                  []int
	gates                    []string
	defs                     []gateDef
	selIdx, selLo, selHi     []uint64
	ngc                      int
	pis                      int
	kis                      []uint64
}

func (s shape) lde() int { return s.degree + s.rate }
func (s shape) finalLen() int {
	n := s.degree
	for _, a := range s.arities {
		n -= a
	}
	return 1 << uint(n)
}
func (s shape) oracle(i int) int {
	switch i {
	case 0:
		return s.constants + s.routed
	case 1:
		return s.wires
	case 2:
		return s.challenges * (1 + s.npp)
	}
	return s.challenges * s.qdf
}

func (s shape) common() types.CommonCircuitData {
	var c types.CommonCircuitData
	c.Config.NumWires = uint64(s.wires)
	c.Config.NumRoutedWires = uint64(s.routed)
	c.Config.NumConstants = 2
	c.Config.UseBaseArithmeticGate = true
	c.Config.SecurityBits = 100
	c.Config.NumChallenges = uint64(s.challenges)
	c.Config.MaxQuotientDegreeFactor = uint64(s.qdf)
	fc := types.FriConfig{RateBits: uint64(s.rate), CapHeight: uint64(s.cap), ProofOfWorkBits: uint64(s.pow), NumQueryRounds: uint64(s.queries)}
	c.Config.FriConfig = fc
	c.FriParams.Config = fc
	c.FriParams.DegreeBits = uint64(s.degree)
	for _, a := range s.arities {
		c.FriParams.ReductionArityBits = append(c.FriParams.ReductionArityBits, uint64(a))
	}
	c.GateIds = append([]string{}, s.gates...)
	c.SelectorsInfo = *gates.NewSelectorsInfo(append([]uint64{}, s.selIdx...), append([]uint64{}, s.selLo...), append([]uint64{}, s.selHi...))
	c.DegreeBits = uint64(s.degree)
	c.QuotientDegreeFactor = uint64(s.qdf)
	c.NumGateConstraints = uint64(s.ngc)
	c.NumConstants = uint64(s.constants)
	c.NumPublicInputs = uint64(s.pis)
	c.KIs = append([]uint64{}, s.kis...)
	c.NumPartialProducts = uint64(s.npp)
	return c
}

// ki's are distinct odd constants; the reference uses the same ones
func mkKis(n int) []uint64 {
	var r []uint64
	k := uint64(1)
	for i := 0; i < n; i++ {
		r = append(r, k)
		k = k*7 + 3
		if k > 18446744069414584320 {
			k = k - 18446744069414584321
		}
		k = k % 1000000007
	}
	return r
}

// symbolic proof

type leafN struct {
	elems []N
	sib   []N
}
type stepN struct {
	evals []E
	sib   []N
}
type roundN struct {
	leaves []leafN
	steps  []stepN
}
type proofN struct {
	wiresCap, zsCap, quoCap                            []N
	constants, sigmas, wires, zs, zsNext, pps, quos    []E
	commitCaps                                         [][]N
	rounds                                             []roundN
	final                                              []E
	pow                                                N
}
type vdN struct {
	cap    []N
	digest N
}

func (t T) nats(name string, n int) []N {
	var r []N
	for i := 0; i < n; i++ {
		r = append(r, t.SymNat(name+"."+itoa(i)))
	}
	return r
}

// openN fills in the opened evaluations
func (t T) openN(s shape, p *proofN) {
	p.constants = t.symEs("constants", s.constants)
	p.sigmas = t.symEs("sigmas", s.routed)
	p.wires = t.symEs("wires", s.wires)
	p.zs = t.symEs("zs", s.challenges)
	p.zsNext = t.symEs("zs_next", s.challenges)
	p.pps = t.symEs("partial_products", s.challenges*s.npp)
	p.quos = t.symEs("quotients", s.challenges*s.qdf)
}

func (t T) proof(s shape) proofN {
	var p proofN
	nc := 1 << uint(s.cap)
	p.wiresCap = t.nats("wires_cap", nc)
	p.zsCap = t.nats("zs_cap", nc)
	p.quoCap = t.nats("quotient_cap", nc)
	t.openN(s, &p)
	for i := range s.arities {
		p.commitCaps = append(p.commitCaps, t.nats("commit_cap"+itoa(i), nc))
	}
	for q := 0; q < s.queries; q++ {
		var r roundN
		nm := "q" + itoa(q)
		for o := 0; o < 4; o++ {
			r.leaves = append(r.leaves, leafN{t.syms(nm+".leaf"+itoa(o), s.oracle(o)), t.nats(nm+".path"+itoa(o), s.lde()-s.cap)})
		}
		n := s.lde()
		for i, a := range s.arities {
			n -= a
			r.steps = append(r.steps, stepN{t.symEs(nm+".evals"+itoa(i), 1<<uint(a)), t.nats(nm+".steppath"+itoa(i), n-s.cap)})
		}
		p.rounds = append(p.rounds, r)
	}
	p.final = t.symEs("final", s.finalLen())
	p.pow = t.Sym("pow_witness")
	return p
}

func (t T) vd(s shape) vdN {
	return vdN{t.nats("sigmas_cap", 1<<uint(s.cap)), t.SymNat("circuit_digest")}
}

func hv(ns []N) []poseidon.BN254HashOut {
	var r []poseidon.BN254HashOut
	for _, n := range ns {
		r = append(r, Var(n))
	}
	return r
}

func (p proofN) openings() variables.OpeningSet {
	return variables.OpeningSet{
		Constants: qvs(p.constants), PlonkSigmas: qvs(p.sigmas), Wires: qvs(p.wires), PlonkZs: qvs(p.zs),
		PlonkZsNext: qvs(p.zsNext), PartialProducts: qvs(p.pps), QuotientPolys: qvs(p.quos),
	}
}

func (p proofN) fri() variables.FriProof {
	var f variables.FriProof
	for _, c := range p.commitCaps {
		f.CommitPhaseMerkleCaps = append(f.CommitPhaseMerkleCaps, hv(c))
	}
	for _, r := range p.rounds {
		var q variables.FriQueryRound
		for _, l := range r.leaves {
			q.InitialTreesProof.EvalsProofs = append(q.InitialTreesProof.EvalsProofs, variables.FriEvalProof{Elements: gvs(l.elems), MerkleProof: variables.FriMerkleProof{Siblings: hv(l.sib)}})
		}
		for _, s := range r.steps {
			q.Steps = append(q.Steps, variables.FriQueryStep{Evals: qvs(s.evals), MerkleProof: variables.FriMerkleProof{Siblings: hv(s.sib)}})
		}
		f.QueryRoundProofs = append(f.QueryRoundProofs, q)
	}
	f.FinalPoly = variables.PolynomialCoeffs{Coeffs: qvs(p.final)}
	f.PowWitness = gv(p.pow)
	return f
}

func (p proofN) vars() variables.Proof {
	return variables.Proof{
		WiresCap: hv(p.wiresCap), PlonkZsPartialProductsCap: hv(p.zsCap), QuotientPolysCap: hv(p.quoCap),
		Openings: p.openings(), OpeningProof: p.fri(),
	}
}

func (v vdN) vars() variables.VerifierOnlyCircuitData {
	return variables.VerifierOnlyCircuitData{ConstantSigmasCap: hv(v.cap), CircuitDigest: Var(v.digest)}
}

var _ = gl.Zero
var _ frontend.Variable
