package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// The driver: loads /repo's working tree, analyses every obligation that supports the property and
// reports.

type task struct {
	ob     *Obligation
	script []int
}

type found struct {
	Obligation string `json:"obligation"`
	Config     string `json:"configuration"`
	Message    string `json:"message"`
	Position   string `json:"position"`
	Props      string `json:"properties"`
}

type summary struct {
	mu       sync.Mutex
	configs  int
	checks   int
	effects  int
	hints    int
	steps    int64
	terms    int
	funcs    map[string]bool
	found    []found
	perOb    map[string]*obSum
	samples  []string
	nontriv  int
	truncate []string
	state    []string // package-level state that successive circuits share
}

type obSum struct {
	Configs int     `json:"configurations"`
	Warm    int     `json:"configurations_after_others,omitempty"`
	Checks  int     `json:"facts_decided"`
	Effects int     `json:"constraints_seen"`
	Seconds float64 `json:"seconds"`
}

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/spec", "specification package")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known_findings.txt", "known findings")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "recorded in the evidence")
	dbg := flag.Bool("debug", false, "crash on internal errors")
	one := flag.String("config", "", "only configurations containing this text")
	baseFile := flag.String("guards", "/verif/analyzer/guards.json", "baseline of guard constants")
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debugPanics = *dbg
	thorough = *tier == "thorough"
	if flag.NArg() < 1 {
		fmt.Println("usage: analyzer [flags] check <property> | ob <name> | list | guards")
		os.Exit(2)
	}
	start := time.Now()
	prop := ""
	if flag.Arg(0) == "check" {
		prop = flag.Arg(1)
	}
	fatal := func(msg string) {
		if prop != "" {
			report(prop, *out, *known, *tier, *seed, start, nil, nil, []found{{Message: msg, Position: "-", Props: prop, Obligation: "load", Config: "-"}}, 0)
		}
		fmt.Println(msg)
		os.Exit(1)
	}
	w, err := Load(*repo, *spec)
	if err != nil {
		fatal("not decidable: " + err.Error())
	}
	if flag.Arg(0) == "guards" {
		b, _ := json.Marshal(guardConstants(w))
		fmt.Println(string(b))
		return
	}
	novelConsts = novelGuards(w, *baseFile)
	obs, err := obligations(w)
	if err != nil {
		fatal(err.Error())
	}
	var sel []*Obligation
	for _, o := range obs {
		if o.thorough && !thorough && prop != "" {
			continue
		}
		switch flag.Arg(0) {
		case "list":
			fmt.Printf("%-28s level %d  %s\n", o.name, o.level, strings.Join(o.props, ","))
		case "check":
			if o.has(prop) {
				sel = append(sel, o)
			}
		case "ob":
			for _, n := range flag.Args()[1:] {
				if o.name == n || n == "all" {
					sel = append(sel, o)
				}
			}
		}
	}
	if flag.Arg(0) == "list" {
		return
	}
	if prop != "" {
		go watchdog(func(msg string) {
			os.Exit(report(prop, *out, *known, *tier, *seed, start, nil, nil, []found{{Message: "not decidable: " + msg, Position: "-", Props: prop, Obligation: "watchdog", Config: "-"}}, 0))
		})
	}
	s := runAll(w, sel, *one)
	if prop == "" {
		for _, f := range s.found {
			fmt.Printf("%s [%s] {%s}\n   %s\n   at %s\n", f.Obligation, f.Config, f.Props, f.Message, f.Position)
		}
		for _, o := range sel {
			if p := s.perOb[o.name]; p != nil {
				fmt.Printf("%-28s configs %d+%d facts %d constraints %d  %.1fs\n", o.name, p.Configs, p.Warm, p.Checks, p.Effects, p.Seconds)
			}
		}
		fmt.Printf("violations %d  configs %d  facts %d  wall %.1fs novel %v\n", len(s.found), s.configs, s.checks, time.Since(start).Seconds(), novelConsts)
		return
	}
	var mine []found
	for _, f := range s.found {
		v := &Viol{props: f.Props}
		if v.has(prop) {
			mine = append(mine, f)
		}
	}
	if len(sel) == 0 || s.checks == 0 {
		mine = append(mine, found{Message: "no obligation was analysed", Position: "-", Props: prop, Obligation: "-", Config: "-"})
	}
	os.Exit(report(prop, *out, *known, *tier, *seed, start, s, sel, mine, len(sel)))
}

const maxConfigs = 4000

func runAll(w *World, obs []*Obligation, only string) *summary {
	s := &summary{funcs: map[string]bool{}, perOb: map[string]*obSum{}}
	hist := map[*Obligation]*history{}
	nw := runtime.NumCPU()
	queue := make(chan task, 100000)
	var pend sync.WaitGroup
	for _, o := range obs {
		pend.Add(1)
		queue <- task{o, nil}
	}
	for i := 0; i < nw; i++ {
		go func() {
			for t := range queue {
				t0 := time.Now()
				r := analyse(w, t.ob, t.script, nil)
				r.it = nil
				dt := time.Since(t0).Seconds()
				s.mu.Lock()
				p := s.perOb[t.ob.name]
				if p == nil {
					p = &obSum{}
					s.perOb[t.ob.name] = p
				}
				p.Configs++
				p.Checks += r.checks
				p.Effects += r.effects
				p.Seconds += dt
				s.configs++
				s.checks += r.checks
				s.effects += r.effects
				s.hints += r.hints
				s.steps += r.steps
				s.terms += r.terms
				if r.checks > 0 {
					s.nontriv++
				}
				for f := range r.funcs {
					s.funcs[f] = true
				}
				if len(s.samples) < 12 && p.Configs == 1 {
					s.samples = append(s.samples, fmt.Sprintf("%s [%s]: %d facts, %d constraints, %d value-graph nodes", t.ob.name, r.config, r.checks, r.effects, r.terms))
				}
				if only == "" || strings.Contains(r.config, only) {
					for _, v := range r.viol {
						s.found = append(s.found, found{t.ob.name, r.config, v.msg, v.pos, v.props})
						if os.Getenv("ANALYZER_FIRST") != "" {
							fmt.Printf("FIRST %s [%s] {%s} %s at %s\n", t.ob.name, r.config, v.props, v.msg, v.pos)
							os.Exit(1)
						}
					}
				}
				n := p.Configs
				h := hist[t.ob]
				if h == nil {
					h = &history{ob: t.ob}
					hist[t.ob] = h
				}
				h.scripts = append(h.scripts, r.script)
				h.steps = append(h.steps, int64(r.terms))
				if r.glob != "" && h.glob == "" {
					h.glob = r.glob
				}
				h.bad = h.bad || len(r.viol) > 0
				s.mu.Unlock()
				// fan the configurations out: each analysed script enqueues its siblings once
				if n < maxConfigs {
					for _, nx := range r.siblings {
						pend.Add(1)
						queue <- task{t.ob, nx}
					}
				}
				pend.Done()
			}
		}()
	}
	pend.Wait()
	close(queue)
	s.warm(w, hist, only)
	sort.Slice(s.found, func(i, j int) bool {
		a, b := s.found[i], s.found[j]
		if a.Obligation != b.Obligation {
			return a.Obligation < b.Obligation
		}
		if a.Config != b.Config {
			return a.Config < b.Config
		}
		return a.Message < b.Message
	})
	sort.Strings(s.samples)
	return s
}

type history struct {
	ob      *Obligation
	scripts [][]int
	steps   []int64 // value-graph nodes of each
	glob    string
	bad     bool
}

// warm analyses the configurations of an obligation one after the other in a process that keeps its
// package-level state, forwards and backwards. It is needed only if the code keeps such state (other
// than the registry of builders); without it every configuration starts from the same state anyway.
func (s *summary) warm(w *World, hist map[*Obligation]*history, only string) {
	var l []*history
	for _, h := range hist {
		if (h.glob != "" || thorough || forceWarm) && !h.bad && len(h.scripts) > 0 {
			l = append(l, h)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ob.name < l[j].ob.name })
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, h := range l {
		if h.glob != "" {
			if debugPanics {
				fmt.Println("package-level state:", h.ob.name, h.glob)
			}
			s.state = append(s.state, h.ob.name+": "+h.glob)
		}
		ix := make([]int, len(h.scripts))
		for i := range ix {
			ix[i] = i
		}
		sort.Slice(ix, func(a, b int) bool { return lessScript(h.scripts[ix[a]], h.scripts[ix[b]]) })
		// configurations that are much larger than the others are left out
		var total, sum int64
		for _, n := range h.steps {
			total += n
		}
		med := total / int64(len(h.steps)) * 8
		var order []int
		for _, i := range ix {
			if h.steps[i] <= med && sum < warmTerms && len(order) < 400 {
				order = append(order, i)
				sum += h.steps[i]
			}
		}
		for dir := 0; dir < 2; dir++ {
			wg.Add(1)
			sem <- true
			go func(h *history, order []int, dir int) {
				defer func() { <-sem; wg.Done() }()
				var prev *Interp
				for k := range order {
					i := order[k]
					if dir == 1 {
						i = order[len(order)-1-k]
					}
					var ms runtime.MemStats
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > warmHeap {
						return
					}
					t0 := time.Now()
					r := analyse(w, h.ob, h.scripts[i], prev)
					prev = r.it
					s.mu.Lock()
					p := s.perOb[h.ob.name]
					p.Warm++
					p.Checks += r.checks
					p.Seconds += time.Since(t0).Seconds()
					s.configs++
					s.checks += r.checks
					for _, v := range r.viol {
						if only == "" || strings.Contains(r.config, only) {
							s.found = append(s.found, found{h.ob.name, r.config + " after other circuits", v.msg, v.pos, v.props})
						}
					}
					s.mu.Unlock()
					if len(r.viol) > 0 {
						return
					}
				}
			}(h, order, dir)
		}
	}
	wg.Wait()
}

func lessScript(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

const warmTerms = 1_500_000 // nodes of a chain
const warmHeap = 12 << 30   // bytes

var forceWarm = os.Getenv("ANALYZER_WARM") != ""

func report(prop, out, known, tier string, seed int, start time.Time, s *summary, sel []*Obligation, mine []found, nob int) int {
	kn := loadKnown(known, prop)
	var fresh []found
	seenKnown := map[string]bool{}
	for _, f := range mine {
		hit := false
		for _, k := range kn {
			if f.Obligation == k.ob && strings.Contains(f.Message, k.msg) && strings.Contains(f.Position, k.pos) {
				hit = true
				if !seenKnown[k.line] {
					seenKnown[k.line] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
			}
		}
		if !hit {
			fresh = append(fresh, f)
		}
	}
	cov := map[string]interface{}{}
	if s != nil {
		var fs []string
		for f := range s.funcs {
			fs = append(fs, strings.ReplaceAll(f, modPath+"/", ""))
		}
		sort.Strings(fs)
		cov["programs"] = s.configs
		cov["disagreements_checked"] = s.checks
		cov["samples"] = s.samples
		cov["obligations"] = nob
		cov["per_obligation"] = s.perOb
		cov["functions_analysed"] = len(fs)
		cov["functions"] = fs
		cov["constraints_seen"] = s.effects
		cov["hint_calls_seen"] = s.hints
		cov["expressions_interpreted"] = s.steps
		cov["value_graph_nodes"] = s.terms
		cov["novel_guard_constants"] = novelConsts
		cov["rule"] = "every obligation function of /verif/spec that names this property is analysed by abstract interpretation of /repo's current source for each of its shape configurations; a configuration counts as a program, every equality, required or unexpected constraint, range and abort fact decided on it counts as a checked disagreement"
		cov["shared_package_state"] = s.state
		cov["explanation"] = fmt.Sprintf("%d obligations, %d shape configurations (%d with at least one decided fact), %d facts, %d repository functions reached", nob, s.configs, s.nontriv, s.checks, len(fs))
	} else {
		cov["programs"] = 0
		cov["disagreements_checked"] = 0
		cov["samples"] = []string{}
		cov["explanation"] = "the repository could not be loaded"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": []string{
			"the models of gnark's constraint builder, range checker, math/big, gnark-crypto elements and encoding/json in /verif/analyzer describe those libraries",
			"structurally different value-graph nodes are identified when they agree under 16 pseudo-random valuations (identity testing; one-sided error below 2^-60 per valuation for values that are not selected by single bits)",
			"shape parameters outside the enumerated configurations behave like the enumerated ones; guard constants added to the source are enumerated as well",
		},
	}
	os.MkdirAll(out, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, prop+".json"), append(b, '\n'), 0o644)
	if s != nil {
		fmt.Printf("property=%s obligations=%d configurations=%d facts=%d functions=%d constraints=%d wall=%.1fs\n", prop, nob, s.configs, s.checks, len(s.funcs), s.effects, time.Since(start).Seconds())
	}
	if len(fresh) == 0 {
		return 0
	}
	rp := filepath.Join(out, "replay-"+prop+".json")
	b, _ = json.MarshalIndent(fresh, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	shown := map[string]bool{}
	for _, f := range fresh {
		k := f.Obligation + f.Message + f.Position
		if shown[k] || len(shown) >= 8 {
			continue
		}
		shown[k] = true
		fmt.Printf("  %s [%s]: %s\n    at %s\n", f.Obligation, f.Config, f.Message, f.Position)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func levelOf(prop string) string {
	switch prop {
	case "C16", "C17", "C18", "C21", "C22":
		return "other"
	}
	return "translation_validation"
}

type knownF struct{ ob, msg, pos, what, line string }

// known findings: "known: property=<id> ob=<obligation> msg=<text> pos=<text> :: description"
func loadKnown(path, prop string) []knownF {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownF
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		head, what, _ := strings.Cut(l, " :: ")
		k := knownF{what: what, line: l}
		for _, p := range strings.Split(head, "\t") {
			kk, v, _ := strings.Cut(strings.TrimSpace(p), "=")
			switch kk {
			case "ob":
				k.ob = v
			case "msg":
				k.msg = v
			case "pos":
				k.pos = v
			}
		}
		if k.ob != "" && k.msg != "" {
			r = append(r, k)
		}
	}
	return r
}

// watchdog turns runaway analyses into an undecided outcome.
func watchdog(f func(string)) {
	limit := 840 * time.Second
	if thorough {
		limit = 3 * time.Hour
	}
	t0 := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if time.Since(t0) > limit {
			f("the analysis does not end in time")
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 26<<30 {
			f("the analysis needs too much memory")
		}
	}
}
