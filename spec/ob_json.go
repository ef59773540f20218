package spec

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

// The documents are symbolic: every leaf is an unknown value named by its key path, lists have the
// lengths the obligations choose.

// jl says how long the list at a path is. Lists of different keys have different lengths.
type jl struct {
	base, k int
}

func (t T) lens() *jl { return &jl{base: t.Int("list lengths", 0, 1, 2, 3)} }

func (l *jl) next(t T, path string) int {
	l.k++
	n := 0
	switch l.base {
	case 1:
		n = 1 + l.k%3
	case 2:
		n = 1 + (l.k*2+1)%5
	case 3:
		n = (l.k + 2) % 4
	}
	t.JSONLen(path, n)
	return n
}

func (t T) docU(what string, got uint64, path string) {
	t.EqualInt("C15", what+" is not the value under "+path, got, t.DocInt(path))
}

func (t T) docGl(what string, got gl.Variable, path string) {
	t.Equal("C15,C19", what+" is not the value under "+path, Of(got.Limb), Of(t.DocInt(path)))
}

func (t T) docE(what string, got gl.QuadraticExtensionVariable, path string) {
	t.docGl(what+" limb 0", got[0], path+"[0]")
	t.docGl(what+" limb 1", got[1], path+"[1]")
}

func (t T) docEs(what string, got []gl.QuadraticExtensionVariable, path string, n int) {
	t.EqualInt("C15,C19", "number of "+what, uint64(len(got)), uint64(n))
	for i := 0; i < len(got) && i < n; i++ {
		t.docE(what+" "+itoa(i), got[i], path+"["+itoa(i)+"]")
	}
}

func (t T) docGls(what string, got []gl.Variable, path string, n int) {
	t.EqualInt("C15,C19", "number of "+what, uint64(len(got)), uint64(n))
	for i := 0; i < len(got) && i < n; i++ {
		t.docGl(what+" "+itoa(i), got[i], path+"["+itoa(i)+"]")
	}
}

func (t T) docHash(what string, got poseidon.BN254HashOut, path string) {
	x, _ := new(big.Int).SetString(t.DocStr(path), 10)
	t.Equal("C15,C19", what+" is not the number under "+path, Of(got), Of(x))
}

func (t T) docHashes(what string, got []poseidon.BN254HashOut, path string, n int) {
	t.EqualInt("C15,C19", "number of entries of "+what, uint64(len(got)), uint64(n))
	for i := 0; i < len(got) && i < n; i++ {
		t.docHash(what+" "+itoa(i), got[i], path+"["+itoa(i)+"]")
	}
}

//ob: props=C15,C19 extra=C15 level=1
func jsonCommon(t T) {
	const d = "common.json"
	l := t.lens()
	na := l.next(t, d+".fri_params.reduction_arity_bits")
	l.next(t, d+".config.fri_config.reduction_strategy.constantaritybits")
	l.next(t, d+".fri_params.config.reduction_strategy.constantaritybits")
	ng := l.next(t, d+".gates")
	ns := l.next(t, d+".selectors_info.selector_indices")
	nr := l.next(t, d+".selectors_info.groups")
	nk := l.next(t, d+".k_is")
	t.JSONBool(d+".fri_params.hiding", false)
	c := types.ReadCommonCircuitData(d)
	t.docU("number of wires", c.Config.NumWires, d+".config.num_wires")
	t.docU("number of routed wires", c.Config.NumRoutedWires, d+".config.num_routed_wires")
	t.docU("number of configured constants", c.Config.NumConstants, d+".config.num_constants")
	t.True("C15", "use_base_arithmetic_gate is not the value read", c.Config.UseBaseArithmeticGate == t.DocBool(d+".config.use_base_arithmetic_gate"))
	t.docU("security bits", c.Config.SecurityBits, d+".config.security_bits")
	t.docU("number of challenges", c.Config.NumChallenges, d+".config.num_challenges")
	t.True("C15", "zero_knowledge is not the value read", c.Config.ZeroKnowledge == t.DocBool(d+".config.zero_knowledge"))
	t.docU("maximal quotient degree factor", c.Config.MaxQuotientDegreeFactor, d+".config.max_quotient_degree_factor")
	f := func(who string, fc types.FriConfig, p string) {
		t.docU("rate bits of "+who, fc.RateBits, p+".rate_bits")
		t.docU("cap height of "+who, fc.CapHeight, p+".cap_height")
		t.docU("proof-of-work bits of "+who, fc.ProofOfWorkBits, p+".proof_of_work_bits")
		t.docU("number of query rounds of "+who, fc.NumQueryRounds, p+".num_query_rounds")
	}
	f("the configuration", c.Config.FriConfig, d+".config.fri_config")
	f("the FRI parameters", c.FriParams.Config, d+".fri_params.config")
	t.True("C15", "hiding is not the value read", !c.FriParams.Hiding)
	t.docU("degree bits of the FRI parameters", c.FriParams.DegreeBits, d+".fri_params.degree_bits")
	t.docU("degree bits", c.DegreeBits, d+".fri_params.degree_bits")
	t.EqualInt("C15", "number of folding arities", uint64(len(c.FriParams.ReductionArityBits)), uint64(na))
	for i := 0; i < na && i < len(c.FriParams.ReductionArityBits); i++ {
		t.docU("folding arity "+itoa(i), c.FriParams.ReductionArityBits[i], d+".fri_params.reduction_arity_bits["+itoa(i)+"]")
	}
	t.EqualInt("C15", "number of gates", uint64(len(c.GateIds)), uint64(ng))
	for i := 0; i < ng && i < len(c.GateIds); i++ {
		t.StrEq("C15", "gate "+itoa(i), c.GateIds[i], t.DocStr(d+".gates["+itoa(i)+"]"))
	}
	var idx, lo, hi []uint64
	for i := 0; i < ns; i++ {
		idx = append(idx, t.DocInt(d+".selectors_info.selector_indices["+itoa(i)+"]"))
	}
	for i := 0; i < nr; i++ {
		lo = append(lo, t.DocInt(d+".selectors_info.groups["+itoa(i)+"].start"))
		hi = append(hi, t.DocInt(d+".selectors_info.groups["+itoa(i)+"].end"))
	}
	t.DeepEqual("C15", "selectors information", c.SelectorsInfo, *gates.NewSelectorsInfo(idx, lo, hi))
	t.docU("quotient degree factor", c.QuotientDegreeFactor, d+".quotient_degree_factor")
	t.docU("number of gate constraints", c.NumGateConstraints, d+".num_gate_constraints")
	t.docU("number of constants", c.NumConstants, d+".num_constants")
	t.docU("number of public inputs", c.NumPublicInputs, d+".num_public_inputs")
	t.docU("number of partial products", c.NumPartialProducts, d+".num_partial_products")
	t.EqualInt("C15", "number of k_is", uint64(len(c.KIs)), uint64(nk))
	for i := 0; i < nk && i < len(c.KIs); i++ {
		t.docU("k_i "+itoa(i), c.KIs[i], d+".k_is["+itoa(i)+"]")
	}
}

// the gate groups and identifiers that were read select the gates of the circuit
//
//ob: props=C15,C12,C19 extra=C15 level=1
func jsonGates(t T) {
	const d = "common.json"
	var s shape
	t.gateSet(&s)
	t.JSONBool(d+".fri_params.hiding", false)
	t.JSONLen(d+".gates", len(s.gates))
	for i, g := range s.gates {
		t.JSONStr(d+".gates["+itoa(i)+"]", g)
	}
	t.JSONLen(d+".selectors_info.selector_indices", len(s.selIdx))
	for i, x := range s.selIdx {
		t.JSONInt(d+".selectors_info.selector_indices["+itoa(i)+"]", x)
	}
	t.JSONLen(d+".selectors_info.groups", len(s.selLo))
	for i := range s.selLo {
		t.JSONInt(d+".selectors_info.groups["+itoa(i)+"].start", s.selLo[i])
		t.JSONInt(d+".selectors_info.groups["+itoa(i)+"].end", s.selHi[i])
	}
	t.JSONInt(d+".num_gate_constraints", uint64(s.ngc))
	cd := types.ReadCommonCircuitData(d)
	api := t.API("none")
	var gs []gates.Gate
	for _, id := range cd.GateIds {
		gs = append(gs, gates.GateInstanceFromId(id))
	}
	c, w := t.symEs("const", s.constants), t.symEs("wire", s.wires)
	pih := t.syms("pih", 4)
	chip := gates.NewEvaluateGatesChip(api, gs, cd.NumGateConstraints, cd.SelectorsInfo)
	got := chip.EvaluateGateConstraints(*gates.NewEvaluationVars(qvs(c), qvs(w), hashOut(pih)))
	t.eqConstraints("C15,C12", "filtered constraints of the gates read", got, s.evalGates(c, w, pih))
}

//ob: props=C15,C19 extra=C15 level=1
func jsonProof(t T) {
	const d = "proof.json"
	const pr = d + ".proof"
	const op = pr + ".opening_proof"
	l := t.lens()
	nw, nz, nq := l.next(t, pr+".wires_cap"), l.next(t, pr+".plonk_zs_partial_products_cap"), l.next(t, pr+".quotient_polys_cap")
	o := pr + ".openings"
	n1 := l.next(t, o+".constants")
	n2 := l.next(t, o+".plonk_sigmas")
	n3 := l.next(t, o+".wires")
	n4 := l.next(t, o+".plonk_zs")
	n5 := l.next(t, o+".plonk_zs_next")
	n6 := l.next(t, o+".partial_products")
	n7 := l.next(t, o+".quotient_polys")
	nc := l.next(t, op+".commit_phase_merkle_caps")
	var caps []int
	for i := 0; i < nc; i++ {
		caps = append(caps, l.next(t, op+".commit_phase_merkle_caps["+itoa(i)+"]"))
	}
	nr := l.next(t, op+".query_round_proofs")
	var trees, steps []int
	var leaves, paths, evals, spaths [][]int
	for i := 0; i < nr; i++ {
		q := op + ".query_round_proofs[" + itoa(i) + "]"
		trees = append(trees, l.next(t, q+".initial_trees_proof.evals_proofs"))
		var a, b []int
		for j := 0; j < trees[i]; j++ {
			e := q + ".initial_trees_proof.evals_proofs[" + itoa(j) + "]"
			t.JSONLen(e, 2)
			a = append(a, l.next(t, e+"[0]"))
			b = append(b, l.next(t, e+"[1].siblings"))
		}
		leaves, paths = append(leaves, a), append(paths, b)
		steps = append(steps, l.next(t, q+".steps"))
		var c, e []int
		for j := 0; j < steps[i]; j++ {
			p := q + ".steps[" + itoa(j) + "]"
			c = append(c, l.next(t, p+".evals"))
			e = append(e, l.next(t, p+".merkle_proof.siblings"))
		}
		evals, spaths = append(evals, c), append(spaths, e)
	}
	nf := l.next(t, op+".final_poly.coeffs")
	np := l.next(t, d+".public_inputs")

	g := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(d))
	t.docHashes("wires cap", g.Proof.WiresCap, pr+".wires_cap", nw)
	t.docHashes("permutation cap", g.Proof.PlonkZsPartialProductsCap, pr+".plonk_zs_partial_products_cap", nz)
	t.docHashes("quotient cap", g.Proof.QuotientPolysCap, pr+".quotient_polys_cap", nq)
	t.docEs("constant opening", g.Proof.Openings.Constants, o+".constants", n1)
	t.docEs("sigma opening", g.Proof.Openings.PlonkSigmas, o+".plonk_sigmas", n2)
	t.docEs("wire opening", g.Proof.Openings.Wires, o+".wires", n3)
	t.docEs("Z opening", g.Proof.Openings.PlonkZs, o+".plonk_zs", n4)
	t.docEs("next Z opening", g.Proof.Openings.PlonkZsNext, o+".plonk_zs_next", n5)
	t.docEs("partial product opening", g.Proof.Openings.PartialProducts, o+".partial_products", n6)
	t.docEs("quotient opening", g.Proof.Openings.QuotientPolys, o+".quotient_polys", n7)
	f := g.Proof.OpeningProof
	t.EqualInt("C15,C19", "number of folding commitments", uint64(len(f.CommitPhaseMerkleCaps)), uint64(nc))
	for i := 0; i < nc && i < len(f.CommitPhaseMerkleCaps); i++ {
		t.docHashes("folding commitment "+itoa(i), f.CommitPhaseMerkleCaps[i], op+".commit_phase_merkle_caps["+itoa(i)+"]", caps[i])
	}
	t.EqualInt("C15,C19", "number of query rounds", uint64(len(f.QueryRoundProofs)), uint64(nr))
	for i := 0; i < nr && i < len(f.QueryRoundProofs); i++ {
		q := op + ".query_round_proofs[" + itoa(i) + "]"
		ep := f.QueryRoundProofs[i].InitialTreesProof.EvalsProofs
		t.EqualInt("C15,C19", "number of oracles in a query", uint64(len(ep)), uint64(trees[i]))
		for j := 0; j < len(ep) && j < trees[i]; j++ {
			e := q + ".initial_trees_proof.evals_proofs[" + itoa(j) + "]"
			t.docGls("leaf elements", ep[j].Elements, e+"[0]", leaves[i][j])
			t.docHashes("path of a leaf", ep[j].MerkleProof.Siblings, e+"[1].siblings", paths[i][j])
		}
		ss := f.QueryRoundProofs[i].Steps
		t.EqualInt("C15,C19", "number of folding steps in a query", uint64(len(ss)), uint64(steps[i]))
		for j := 0; j < len(ss) && j < steps[i]; j++ {
			e := q + ".steps[" + itoa(j) + "]"
			t.docEs("folding evaluations", ss[j].Evals, e+".evals", evals[i][j])
			t.docHashes("path of a folding step", ss[j].MerkleProof.Siblings, e+".merkle_proof.siblings", spaths[i][j])
		}
	}
	t.docEs("final polynomial coefficient", f.FinalPoly.Coeffs, op+".final_poly.coeffs", nf)
	t.docGl("proof-of-work witness", f.PowWitness, op+".pow_witness")
	t.docGls("public inputs", g.PublicInputs, d+".public_inputs", np)
}

//ob: props=C15,C19 extra=C15 level=1
func jsonVerifierData(t T) {
	const d = "vd.json"
	l := t.lens()
	l.next(t, d)
	n := l.next(t, d+".constants_sigmas_cap")
	v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(d))
	t.docHashes("constants and sigmas cap", v.ConstantSigmasCap, d+".constants_sigmas_cap", n)
	t.docHash("circuit digest", v.CircuitDigest, d+".circuit_digest")
}

// unreadable and malformed files
//
//ob: props=C15 extra=C15 level=1
func jsonFaults(t T) {
	k := t.Int("failing operation", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)
	what := t.Str("reader", "common", "proof", "verifier data")
	t.JSONBool("f.json.fri_params.hiding", false)
	t.JSONLen("f.json.proof.opening_proof.query_round_proofs[0].initial_trees_proof.evals_proofs[0]", 2)
	read := func() {
		switch what {
		case "common":
			types.ReadCommonCircuitData("f.json")
		case "proof":
			types.ReadProofWithPublicInputs("f.json")
		default:
			types.ReadVerifierOnlyCircuitData("f.json")
		}
	}
	t.FaultAt(k)
	out := t.Outcome(read)
	if k == 0 || k > t.Faults() {
		t.StrEq("C15", "reading "+what+" without any failure", out, "ok")
		return
	}
	t.True("C15", "reading "+what+" goes on after a failure of "+t.FaultName(k), out == "panic" || out == "exit")
}

// circuits with hiding are not supported
//
//ob: props=C14,C15 extra=C14 level=1
func jsonHiding(t T) {
	t.JSONBool("f.json.fri_params.hiding", true)
	t.JSONBool("f.json.config.zero_knowledge", t.Int("zero knowledge", 0, 1) == 1)
	t.Panics("C14", "circuit data with hiding is accepted", func() { types.ReadCommonCircuitData("f.json") })
}

// the conversions the readers are built from, on lists of every length
//
//ob: props=C15,C19 extra=C15 level=1
func jsonConversions(t T) {
	n := t.IntNovel("length", 0, 200, 0, 1, 2, 3, 16, 17, 33, 64)
	var us []uint64
	var es [][]uint64
	var hs []string
	for i := 0; i < n; i++ {
		us = append(us, t.DocInt("u["+itoa(i)+"]"))
		es = append(es, []uint64{t.DocInt("e[" + itoa(i) + "][0]"), t.DocInt("e[" + itoa(i) + "][1]")})
		hs = append(hs, t.DocStr("h["+itoa(i)+"]"))
	}
	t.docGls("elements", gl.Uint64ArrayToVariableArray(us), "u", n)
	t.docEs("extension elements", gl.Uint64ArrayToQuadraticExtensionArray(es), "e", n)
	t.docHashes("hashes", variables.StringArrayToHashBN254Array(hs), "h", n)
	t.docHashes("cap", variables.DeserializeMerkleCap(hs), "h", n)
	if n > 0 {
		t.docE("extension element", gl.Uint64ArrayToQuadraticExtension(es[0]), "e[0]")
	}
	for i, b := range gl.StrArrayToBigIntArray(hs) {
		x, _ := new(big.Int).SetString(hs[i], 10)
		t.ZEq("C15", "number "+itoa(i), new(big.Int).Set(&b), x)
	}
	for i, b := range gl.StrArrayToFrontendVariableArray(hs) {
		t.docHash("variable "+itoa(i), b, "h["+itoa(i)+"]")
	}
	// no list shares memory with its source
	if n > 0 {
		r := gl.Uint64ArrayToVariableArray(us)
		us[0] = 7
		t.docGl("element 0 after a change of the source", r[0], "u[0]")
	}
}

var _ frontend.Variable
