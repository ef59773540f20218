package spec

import (
	"strings"

	"github.com/succinctlabs/gnark-plonky2-verifier/trusted_setup"
)

// The trusted setup is analysed once per failing operation. Every library call that can fail is
// numbered; the analysed configurations are "none fails" and "call k fails".

// contribution is the point data of participant i, as the analyzer names it.
func contributionOf(i int) string {
	p := func(a, b int) string { return "{P" + itoa(i) + "." + itoa(a) + " P" + itoa(i) + "." + itoa(b) + "}" }
	return "{[" + p(1, 2) + " " + p(3, 4) + "] {{" + p(5, 6) + " " + p(7, 8) + "} {" + p(9, 10) + " " + p(11, 12) + "}}}"
}

func after(e, prefix string) string { return e[len(prefix):] }

//ob: props=C18 extra=C18 level=1
func srsFaults(t T) {
	s := t.IntNovel("start", 0, 200, 0, 1, 3, 17)
	n := s + t.Int("contributions", 2, 3, 4, 6)
	k := t.Int("failing call", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29)
	t.Participants(n)
	t.FaultAt(k)
	out := t.Outcome(func() { trusted_setup.DownloadAndSaveAztecIgnitionSrs(s, "srs file") })
	ev := t.Events()
	// position of the first file creation
	created := len(ev)
	for i := len(ev) - 1; i >= 0; i-- {
		if strings.HasPrefix(ev[i], "create|") {
			created = i
		}
	}
	if k > t.Faults() {
		k = 0
	}
	if k > 0 {
		what := t.FaultName(k)
		if strings.HasPrefix(what, "os.Stat") || strings.HasPrefix(what, "os.Remove") {
			return
		}
		t.True("C18", "the process goes on after a failure of "+what, out == "exit" || out == "panic")
		if !strings.HasPrefix(what, "os.Create") && !strings.HasPrefix(what, "SRS.Write") && !strings.HasPrefix(what, "os.WriteFile") && !strings.HasPrefix(what, "os.Open") && !strings.HasPrefix(what, "bufio") {
			t.True("C18", "the file is created although "+what+" failed", created == len(ev))
		}
		return
	}
	t.StrEq("C18", "outcome without failures", out, "ok")
	if created == len(ev) {
		t.Fail("C18", "no file is created although nothing failed")
		return
	}
	done := func(e string) bool {
		for i := 0; i < created; i++ {
			if ev[i] == e {
				return true
			}
		}
		return false
	}
	for i := s; i < n; i++ {
		t.True("C18", "contribution "+itoa(i)+" (range "+itoa(s)+" to "+itoa(n-1)+") is not fetched before the file is created", done("get|P"+itoa(i)))
		if i > s {
			t.True("C18", "contribution "+itoa(i)+" (range "+itoa(s)+" to "+itoa(n-1)+") is not verified to follow contribution "+itoa(i-1)+" before the file is created",
				done("follows|"+contributionOf(i)+" <- "+contributionOf(i-1)))
		}
	}
	t.True("C18", "the file has another name", ev[created] == "create|srs file" || exists(ev, "create|srs file"))
	// what is written
	written := ""
	for i := created; i < len(ev); i++ {
		if strings.HasPrefix(ev[i], "write|") {
			f := strings.Split(ev[i], "|")
			if written != "" && written != f[1] {
				t.Fail("C18", "two different strings are written")
			}
			written = f[1]
		}
	}
	for i := 0; i < created; i++ {
		if strings.HasPrefix(ev[i], "write|") {
			t.Fail("C18", "the string is written before the file exists")
		}
	}
	last := contributionOf(n - 1)
	pk := "{" + last[1:strings.Index(last, "]")+1] + "}"
	t.True("C18", "what is written is not the last contribution's string", strings.HasPrefix(written, "{"+pk+" {"))
	// the verifying part: the base of the powers, and the generator of G2 with its multiple
	who := "P" + itoa(n-1)
	g2 := "{{" + who + ".5 " + who + ".6} {" + who + ".7 " + who + ".8}}"
	gen := "{{gen3.1 gen3.2} {gen3.3 gen3.4}}"
	vk := "{{" + gen + " " + g2 + "} {" + who + ".1 " + who + ".2}}"
	t.StrEq("C18", "the verifying key written with the last contribution's string", after(written, "{"+pk+" "), vk+"}")
	for i := 0; i < len(ev); i++ {
		if f := strings.Split(ev[i], "|"); f[0] == "write" && f[2] != "out:srs file" {
			t.Fail("C18", "the string is written to another file")
		}
	}
	// an opening made with what is written was verified
	verified, compared := false, false
	for i := 0; i < created; i++ {
		if !strings.HasPrefix(ev[i], "verify|") {
			continue
		}
		v := strings.Split(ev[i], "|") // vk, digest, point, proof
		if "{"+pk+" "+v[1]+"}" != written {
			continue
		}
		for j := 0; j < i; j++ {
			if !strings.HasPrefix(ev[j], "commit|") {
				continue
			}
			c := strings.Split(ev[j], "|") // pk, polynomial, digest
			if c[1] != pk || c[3] != v[2] || trivialPolynomial(c[2]) {
				continue
			}
			for l := 0; l < i; l++ {
				if !strings.HasPrefix(ev[l], "open|") {
					continue
				}
				o := strings.Split(ev[l], "|") // pk, polynomial, point, proof
				if o[1] == pk && o[2] == c[2] && o[3] == v[3] && o[4] == v[4] {
					verified = true
					claimed := o[4][strings.LastIndex(o[4], " ")+1 : len(o[4])-1]
					for m := 0; m < created; m++ {
						q := strings.Split(ev[m], "|")
						if q[0] == "ext" && q[1] == "fr.Equal" && q[2] != q[3] && (q[2] == claimed || q[3] == claimed) {
							compared = true
						}
					}
				}
			}
		}
	}
	t.True("C18", "no commitment opening made with the string that is written was verified before the file is created", verified)
	t.True("C18", "the claimed value of the opening is not compared with the polynomial's value", compared)
}

// A polynomial of degree zero is committed to without the setup's powers: its opening shows nothing.
func trivialPolynomial(p string) bool {
	c := strings.Fields(strings.Trim(p, "[]"))
	for i := 1; i < len(c); i++ {
		if c[i] != "0" {
			return false
		}
	}
	return true
}

func exists(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// a range of one contribution has nothing to verify
//
//ob: props=C18 extra=C18 level=1
func srsShort(t T) {
	s := t.Int("start", 0, 1, 5)
	t.Participants(s + t.Int("contributions", 0, 1))
	out := t.Outcome(func() { trusted_setup.DownloadAndSaveAztecIgnitionSrs(s, "srs file") })
	t.True("C18", "the process goes on with too few contributions", out == "exit" || out == "panic")
	for _, e := range t.Events() {
		t.True("C18", "a file is created with too few contributions", !strings.HasPrefix(e, "create|"))
	}
}
