package spec

import (
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

// Every obligation of this file runs at level 0, down to the builder's range checker.

// backend picks a builder and the environment setting.
func (t T) backend() (frontend.API, string) {
	sc := t.Str("builder", "none", "native", "commit")
	env := t.Str("USE_BIT_DECOMPOSITION_RANGE_CHECK", "", "true", "false")
	if env != "" {
		t.Env("USE_BIT_DECOMPOSITION_RANGE_CHECK", env)
	}
	kind := sc
	if env == "true" {
		kind = "bits"
	}
	return t.API(sc), kind
}

// pad requests enough checks for the optimal table width to be 16: 16000-bit checks are vacuous in
// the native field.
func (t T) pad(chip *gl.Chip, n int) {
	x := gv(t.SymNat("pad"))
	for i := 0; i < n; i++ {
		chip.RangeCheckWithMaxBits(x, 16000)
	}
}

// requested widths are enforced
//
//ob: props=C04,C02,C03,C20,C21,C14 extra=C04 level=0
func rangeWidths(t T) {
	api, kind := t.backend()
	chip := gl.New(api)
	if kind == "commit" {
		t.pad(chip, 700)
	}
	n := t.IntNovel("checks", 0, 60, 1, 2, 9, 33)
	widths := []int{16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 192, 240}
	if kind != "commit" {
		widths = []int{1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 144, 192, 200, 253}
	}
	for k := 0; k < n; k++ {
		for _, w := range widths {
			x := t.SymNat("x" + itoa(k) + "w" + itoa(w))
			if k%2 == 1 {
				gl.New(api).RangeCheckWithMaxBits(gv(x), uint64(w))
			} else {
				chip.RangeCheckWithMaxBits(gv(x), uint64(w))
			}
			t.Bits("C04", "range check "+itoa(k)+" of width "+itoa(w)+" with "+kind, x, w)
		}
	}
	// the same variable with two widths
	y := t.SymNat("y")
	chip.RangeCheckWithMaxBits(gv(y), 64)
	chip.RangeCheckWithMaxBits(gv(y), 32)
	t.Bits("C04", "second check of a variable with "+kind, y, 32)
	t.Bits("C04", "first check of a variable with "+kind, y, 64)
	t.Finalize(api)
}

// checks of field elements are enforced
//
//ob: props=C04,C01,C02,C03,C20,C21 extra=C04,C01 level=0
func rangeCanonical(t T) {
	api, kind := t.backend()
	chip := gl.New(api)
	if kind == "commit" {
		t.pad(chip, 700)
	}
	n := t.IntNovel("checks", 0, 60, 1, 2, 40)
	for k := 0; k < n; k++ {
		x := t.SymNat("x" + itoa(k))
		chip.RangeCheck(gv(x))
		t.Canon("C04,C01,C02", "canonical check "+itoa(k)+" with "+kind, x)
		e := E{t.SymNat("e" + itoa(k)), t.SymNat("f" + itoa(k))}
		chip.RangeCheckQE(qv(e))
		t.Canon("C04,C01,C02", "canonical check of an extension element with "+kind, e[0])
		t.Canon("C04,C01,C02", "canonical check of an extension element with "+kind, e[1])
	}
	t.Finalize(api)
}

// the arithmetic gadgets determine their results with every builder
//
//ob: props=C04,C02,C03,C20,C21 extra=C04,C02 level=0
func rangeGadgets(t T) {
	api, kind := t.backend()
	chip := gl.New(api)
	if kind == "commit" {
		t.pad(chip, 700)
	}
	a, b, c := t.Sym("a"), t.Sym("b"), t.Sym("c")
	var got gl.Variable
	var want N
	switch t.Int("operation", 0, 1, 2, 3, 4, 5) {
	case 0:
		got, want = chip.MulAdd(gv(a), gv(b), gv(c)), Mod(Add(Mul(a, b), c))
	case 1:
		x := t.SymBits("x", 190)
		got, want = chip.Reduce(gv(x)), Mod(x)
	case 2:
		x := t.SymBits("x", 140)
		got, want = chip.ReduceWithMaxBits(gv(x), 128), Mod(x)
	case 3:
		x, _ := chip.Inverse(gv(a))
		got, want = x, GInv(a)
	case 4:
		got, want = chip.Sub(gv(a), gv(b)), gsub(a, b)
	case 5:
		got, want = chip.Add(gv(a), gv(b)), gadd(a, b)
	}
	t.Finalize(api)
	t.eqG("C02,C04", "result with "+kind, got, want)
}

// the commitment-based checker refuses other table widths and unaligned widths
//
//ob: props=C04,C14 extra=C04 level=0
func rangeRefused(t T) {
	api := t.API("commit")
	chip := gl.New(api)
	what := ""
	switch t.Int("reason", 0, 1, 2, 3) {
	case 0:
		what = "a table width other than 16 (few checks)"
		n := t.Int("checks", 1, 5, 20)
		for i := 0; i < n; i++ {
			chip.RangeCheckWithMaxBits(gv(t.SymNat("x")), 64)
		}
	case 1:
		what = "a table width other than 16 (many checks of 17 bits)"
		for i := 0; i < 900; i++ {
			chip.RangeCheckWithMaxBits(gv(t.SymNat("x")), 17*1600)
		}
	case 2:
		w := t.Int("width", 1, 8, 15, 17, 20, 33, 63, 65, 100, 127, 143, 145)
		what = "a width of " + itoa(w)
		t.pad(chip, 700)
		chip.RangeCheckWithMaxBits(gv(t.SymNat("x")), uint64(w))
		if t.Int("last", 0, 1) == 0 {
			t.pad(chip, 3)
		}
	case 3:
		what = "a check requested after the collected checks were enforced"
		t.pad(chip, 700)
		api.Compiler().Defer(func(frontend.API) error {
			chip.RangeCheckWithMaxBits(gv(t.SymNat("x")), 32)
			return nil
		})
	}
	t.Panics("C04,C14", "the build is not refused for "+what, func() { t.Finalize(api) })
	t.IgnoreEffects()
}

// two builders at once
//
//ob: props=C04,C21 extra=C04 level=0
func rangeTwoBuilders(t T) {
	api1, kind1 := t.backend()
	api2 := t.API("none")
	c1 := gl.New(api1)
	c2 := gl.New(api2)
	if kind1 == "commit" {
		t.pad(c1, 700)
	}
	for i := 0; i < 4; i++ {
		x, y := t.SymNat("x"+itoa(i)), t.SymNat("y"+itoa(i))
		c1.RangeCheckWithMaxBits(gv(x), 64)
		c2.RangeCheckWithMaxBits(gv(y), 48)
		t.Bits("C04", "check on the first builder", x, 64)
		t.Bits("C04", "check on the second builder", y, 48)
	}
	t.Finalize(api2)
	t.Finalize(api1)
}

// range checks of constants: kept unless the constant fits, and never satisfied by one that does not
//
//ob: props=C04,C02,C21,C17 extra=C04 level=0
func rangeConstants(t T) {
	api, kind := t.backend()
	chip := gl.New(api)
	if kind == "commit" {
		t.pad(chip, 700)
	}
	w := t.Int("width", 16, 64, 144)
	var k N
	fits := true
	switch t.Int("constant", 0, 1, 2, 3, 4, 5, 6, 7, 8) {
	case 0:
		k = C(0)
	case 1:
		k = C(1)
	case 2:
		k = C(65535)
	case 3:
		k, fits = C(65536), w > 16
	case 4:
		k, fits = C(4294967295), w >= 32
	case 5:
		k, fits = C(4294967296), w > 32
	case 6:
		k, fits = CS("18446744073709551615"), w >= 64
	case 7:
		k, fits = CS("18446744073709551616"), w > 64
	case 8:
		k, fits = CS("22300745198530623141535718272648361505980416"), false // 2^144
	}
	outcome := t.Outcome(func() {
		if t.Int("form", 0, 1) == 0 {
			chip.RangeCheckWithMaxBits(gv(k), uint64(w))
		} else {
			chip.RangeCheckWithMaxBits(gl.NewVariable(Own(k)), uint64(w))
		}
		chip.RangeCheckWithMaxBits(gv(t.SymNat("x")), uint64(w))
		t.Finalize(api)
	})
	if fits {
		t.True("C04", "a constant within its width is refused with "+kind+": "+t.LastMsg(), outcome == "ok")
	}
	if outcome == "ok" {
		t.Bits("C04", "range check of a constant with "+kind, k, w)
		t.Bits("C04", "range check next to a constant with "+kind, t.SymNat("x"), w)
	} else {
		t.IgnoreEffects()
	}
}

// range checks of values that were computed, and of the same value under different forms
//
//ob: props=C04,C02,C21,C17 extra=C04 level=0
func rangeForms(t T) {
	api, kind := t.backend()
	chip := gl.New(api)
	if kind == "commit" {
		t.pad(chip, 700)
	}
	x, y := t.SymNat("x"), t.SymNat("y")
	sum := api.Add(Var(x), Var(y))
	prod := api.Mul(Var(x), Var(y))
	bit := api.IsZero(Var(x))
	var todo []int
	switch t.Int("order", 0, 1, 2, 3) {
	case 0:
		todo = []int{0, 1, 2, 3, 4, 5}
	case 1:
		todo = []int{5, 4, 3, 2, 1, 0}
	case 2:
		todo = []int{2, 0, 4, 1, 5, 3}
	case 3:
		todo = []int{1, 1, 0, 0, 3, 2, 5, 4}
	}
	for _, k := range todo {
		switch k {
		case 0:
			chip.RangeCheckWithMaxBits(gl.NewVariable(sum), 128)
			t.Bits("C04", "check of a sum with "+kind, Add(x, y), 128)
		case 1:
			chip.RangeCheckWithMaxBits(gl.NewVariable(sum), 64)
			t.Bits("C04", "narrower check of a sum with "+kind, Add(x, y), 64)
		case 2:
			chip.RangeCheckWithMaxBits(gl.NewVariable(prod), 112)
			t.Bits("C04", "check of a product with "+kind, Mul(x, y), 112)
		case 3:
			chip.RangeCheckWithMaxBits(gl.NewVariable(api.Add(Var(y), Var(x))), 32)
			t.Bits("C04", "check of an equal sum with "+kind, Add(x, y), 32)
		case 4:
			chip.RangeCheckWithMaxBits(gl.NewVariable(api.Sub(bit, Var(y))), 16)
			t.Bits("C04", "check of a difference with "+kind, Sub(IsZero(x), y), 16)
		case 5:
			chip.RangeCheck(gl.NewVariable(prod))
			t.Canon("C04,C02", "canonical check of a product with "+kind, Mul(x, y))
		}
	}
	t.Finalize(api)
	t.Equal("C17", "a checked value changed", Of(sum), Add(x, y))
	t.Equal("C17", "a checked value changed", Of(prod), Mul(x, y))
}
