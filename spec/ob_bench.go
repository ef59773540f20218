package spec

import (
	"strings"

	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// The main package is analysed with the proving library replaced by a model that names every
// object and records what was derived from what: once per combination of flags in which nothing
// fails, and once more per failing library call.

type benchRun struct {
	name, system         string
	profile, dummy, save bool
	circuit, witness     string
	ev                   []string
	out                  string
	fault                string
}

func yes(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func benchWant(t T, name string) (string, string) {
	d := "testdata/" + name + "/"
	for _, f := range []string{"common_circuit_data.json"} {
		t.JSONBool(d+f+".fri_params.hiding", false)
	}
	p := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(d + "proof_with_public_inputs.json"))
	c := verifier.ExampleVerifierCircuit{
		Proof:                   p.Proof,
		PublicInputs:            p.PublicInputs,
		VerifierOnlyCircuitData: variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData(d + "verifier_only_circuit_data.json")),
		CommonCircuitData:       types.ReadCommonCircuitData(d + "common_circuit_data.json"),
	}
	return t.Circuit(&c), t.Witness(&c)
}

func runBench(t T, r *benchRun, k int) {
	t.JSONLen("testdata/"+r.name+"/proof_with_public_inputs.json.public_inputs", 3)
	r.circuit, r.witness = benchWant(t, r.name)
	t.Participants(176)
	t.ClearEvents()
	t.FaultAt(k)
	r.out = t.Outcome(func() { t.RunMain() })
	r.ev = t.Events()
	if k > 0 && k <= t.Faults() {
		r.fault = t.FaultName(k)
	}
}

// mustStop: a failure of this operation must end the process unsuccessfully
func mustStop(what string) bool {
	for _, p := range []string{"os.Open", "os.ReadFile", "io.ReadAll", "json.Unmarshal", "frontend.", "SRS.ReadFrom", "test.NewKZGSRS", "plonk.", "groth16.", "Witness.Public", "reading "} {
		if strings.HasPrefix(what, p) {
			return true
		}
	}
	return false
}

// words that occur in a printed line: the ranges of proof bytes, in order
func proofRanges(e string) []string {
	var l []string
	for {
		i := strings.Index(e, "<")
		if i < 0 {
			return l
		}
		e = e[i+1:]
		j := strings.Index(e, ">")
		if j < 0 {
			return l
		}
		l = append(l, e[:j])
	}
}

func (r *benchRun) check(t T) {
	failed := r.fault != "" && mustStop(r.fault)
	// a failing Stat means the file is missing; what becomes of artifacts that cannot be saved, or
	// of a public witness nobody needs, is left open
	open := r.fault != "" && !failed && !strings.HasPrefix(r.fault, "os.Stat")
	if strings.HasPrefix(r.fault, "Witness.Public") && r.system == "groth16" && r.dummy {
		failed, open = false, true
	}
	if open {
		failed = true
	} else if failed {
		t.True("C22", "the command goes on or reports success after a failure of "+r.fault, r.out == "exit" || r.out == "panic")
	} else {
		t.True("C22", "the command fails although nothing failed: "+r.out+" "+r.lastMsg(t), r.out == "ok" || r.out == "exit0")
	}
	// what was derived from what
	cs, pk, vk, proof, wit, pub := "", "", "", "", "", ""
	verified, srsFile := false, false
	words := 0
	wantBuilder := "r1cs"
	if r.system == "plonk" {
		wantBuilder = "scs"
	}
	saved := []string{}
	created := false
	for _, e := range r.ev {
		f := strings.Split(e, "|")
		switch f[0] {
		case "stat":
			if r.dummy {
				t.True("C22", "the test setup looks for the SRS file", f[1] != "srs_setup")
			}
		case "create":
			if f[1] == "srs_setup" {
				created = true
				t.True("C22", "the SRS is downloaded although the file exists", strings.HasPrefix(r.fault, "os.Stat"))
				t.True("C22", "the SRS is downloaded with a test setup", !r.dummy && r.system == "plonk")
			}
		case "compile":
			t.True("C22", "the circuit is compiled twice", cs == "")
			cs = f[1]
			t.StrEq("C22", "builder of "+r.system, f[2], wantBuilder)
			t.StrEq("C22", "field the circuit is compiled over", f[3], "bn254")
			t.True("C22", "the circuit compiled is not the verifier circuit of the files of "+r.name, f[4] == r.circuit)
		case "testsrs":
			t.True("C22", "the test SRS is used without -dummy", r.dummy)
			t.StrEq("C22", "constraint system of the test SRS", f[2], cs)
		case "readsrs":
			t.True("C22", "an SRS is read with -dummy", !r.dummy)
			t.StrEq("C22", "file the SRS is read from", f[2], "srs_setup")
			srsFile = true
			if strings.HasPrefix(r.fault, "os.Stat") {
				t.True("C22", "the missing SRS is not downloaded before it is read", created)
			}
		case "setup":
			t.StrEq("C22", "proof system of the setup", f[1], r.system)
			t.StrEq("C22", "constraint system of the setup", f[4], cs)
			pk, vk = f[2], f[3]
			if r.system == "plonk" {
				if r.dummy {
					t.StrEq("C22", "SRS of a dummy setup", f[5], "test")
				} else {
					t.True("C22", "the setup does not use the SRS read from srs_setup", srsFile && f[5] == "srs_setup")
				}
			} else {
				t.True("C22", "a real setup is made with -dummy", !r.dummy)
			}
		case "dummysetup":
			t.True("C22", "the dummy setup is used without -dummy", r.dummy)
			t.StrEq("C22", "constraint system of the setup", f[3], cs)
			pk, vk = f[2], ""
		case "witness":
			t.StrEq("C22", "field of the witness", f[2], "bn254")
			full := f[3] == r.witness
			public := f[3] == r.witness[:strings.Index(r.witness, " secret")]
			t.True("C22", "the witness is not the public inputs of the files of "+r.name, full || public)
			if full {
				wit = f[1]
			} else {
				pub = f[1]
			}
		case "public":
			t.StrEq("C22", "witness whose public part is taken", f[2], wit)
			pub = f[1]
		case "prove":
			t.StrEq("C22", "proof system of the proof", f[1], r.system)
			t.StrEq("C22", "constraint system of the proof", f[3], cs)
			t.StrEq("C22", "proving key of the proof", f[4], pk)
			t.StrEq("C22", "witness of the proof", f[5], wit)
			proof = f[2]
		case "verified":
			t.StrEq("C22", "proof that is verified", f[2], proof)
			t.StrEq("C22", "verifying key the proof is verified with", f[3], vk)
			t.StrEq("C22", "public witness the proof is verified with", f[4], pub)
			verified = true
		case "save":
			saved = append(saved, f[1]+" "+f[2]+" "+f[3])
			t.True("C22", "the artifact "+f[2]+" is written without -save", r.save)
		case "print":
			for _, w := range proofRanges(f[1]) {
				t.True("C22", "the proof's bytes are printed before the proof is verified", verified)
				if r.system == "plonk" {
					t.StrEq("C22", "bytes printed", w, "WriteRawTo "+proof+"[0:388]")
					words++
					continue
				}
				for j, l := range []string{"a[0]", "a[1]", "b[0][0]", "b[0][1]", "b[1][0]", "b[1][1]", "c[0]", "c[1]"} {
					if strings.Contains(f[1], l) {
						t.StrEq("C22", "word printed as "+l, w, "WriteRawTo "+proof+"["+itoa(32*j)+":"+itoa(32*j+32)+"]")
					}
				}
				t.StrEq("C22", "coordinate "+itoa(words), w, "WriteRawTo "+proof+"["+itoa(32*words)+":"+itoa(32*words+32)+"]")
				words++
			}
		}
	}
	if failed {
		return
	}
	t.True("C22", "no circuit is compiled", cs != "")
	t.True("C22", "no proof is made", proof != "")
	if vk == "" {
		t.True("C22", "coordinates of an unverifiable proof are printed", words == 0)
	} else {
		t.True("C22", "the proof is not verified", verified)
		n := 8
		if r.system == "plonk" {
			n = 1
		}
		t.EqualInt("C22", "numbers of the proof that are printed", uint64(words), uint64(n))
	}
	if r.save && r.fault == "" {
		want := []string{pk + " out:proving.key", wit + " out:witness", proof + " out:proof.proof"}
		if vk != "" {
			want = append(want, vk+" out:verifying.key")
			t.True("C22", "the Solidity verifier of the key is not saved in proof.sol", exists(saved, vk+" out:proof.sol ExportSolidity"))
		}
		for _, w := range want {
			t.True("C22", "the artifacts saved lack "+w, exists(saved, w+" WriteTo") || exists(saved, w+" WriteRawTo"))
		}
	}
}

func (r *benchRun) lastMsg(t T) string {
	if r.out == "ok" || r.out == "exit0" {
		return ""
	}
	return t.LastMsg()
}

//ob: props=C22 extra=C22 level=1
func benchmarkCommand(t T) {
	r := &benchRun{}
	r.name = t.Str("circuit", "step", "decode_block", "other")
	r.system = t.Str("proof system", "plonk", "groth16")
	r.profile = t.Int("profile", 0, 1) == 1
	r.dummy = t.Int("dummy", 0, 1) == 1
	r.save = t.Int("save", 0, 1) == 1
	t.Flag("plonky2-circuit", r.name)
	t.Flag("proof-system", r.system)
	t.Flag("profile", yes(r.profile))
	t.Flag("dummy", yes(r.dummy))
	t.Flag("save", yes(r.save))
	runBench(t, r, 0)
	r.check(t)
}

//ob: props=C22 extra=C22 level=1
func benchmarkFailures(t T) {
	r := &benchRun{name: "step"}
	r.system = t.Str("proof system", "plonk", "groth16")
	r.dummy = t.Int("dummy", 0, 1) == 1
	r.save = t.Int("save", 0, 1) == 1
	t.Flag("plonky2-circuit", r.name)
	t.Flag("proof-system", r.system)
	t.Flag("profile", "false")
	t.Flag("dummy", yes(r.dummy))
	t.Flag("save", yes(r.save))
	var ks []int
	for i := 1; i <= 80; i++ {
		ks = append(ks, i)
	}
	k := t.Int("failing call", ks...)
	runBench(t, r, k)
	if r.fault == "" {
		return
	}
	r.check(t)
}

// without flags the defaults apply
//
//ob: props=C22 extra=C22 level=1
func benchmarkDefaults(t T) {
	r := &benchRun{name: "step", system: "plonk", profile: true, dummy: true}
	k := t.Int("flag given", 0, 1, 2, 3, 4)
	switch k {
	case 1:
		r.name = "decode_block"
		t.Flag("plonky2-circuit", r.name)
	case 2:
		r.system = "groth16"
		t.Flag("proof-system", r.system)
	case 3:
		r.dummy = false
		t.Flag("dummy", "false")
	case 4:
		r.save = true
		t.Flag("save", "true")
	}
	runBench(t, r, 0)
	r.check(t)
}

// unknown proof systems and missing circuit names are refused before anything is compiled
//
//ob: props=C22 extra=C22 level=1
func benchmarkRefuses(t T) {
	r := &benchRun{name: "step", system: "plonk"}
	switch t.Int("refused", 0, 1, 2, 3) {
	case 0:
		r.name = ""
	case 1:
		r.system = "plonkfri"
	case 2:
		r.system = ""
	case 3:
		r.system = "PLONK"
	}
	t.Flag("plonky2-circuit", r.name)
	t.Flag("proof-system", r.system)
	t.Flag("dummy", yes(t.Int("dummy", 0, 1) == 1))
	t.JSONBool("testdata/step/common_circuit_data.json.fri_params.hiding", false)
	t.ClearEvents()
	out := t.Outcome(func() { t.RunMain() })
	t.True("C22", "an unknown proof system or an empty circuit name is accepted: "+out, out == "exit" || out == "panic")
	for _, e := range t.Events() {
		t.True("C22", "a circuit is compiled for an unknown proof system or an empty circuit name", !strings.HasPrefix(e, "compile|"))
		t.True("C22", "a proof is made for an unknown proof system or an empty circuit name", !strings.HasPrefix(e, "prove|"))
	}
}
