package main

// The check driver: which units decide a property, evidence, violations.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func has(xs []string, p string) bool {
	for _, x := range xs {
		if x == p {
			return true
		}
	}
	return false
}

// concerns: the contract contributes obligations to property p
func (ct *Contract) concerns(p string) bool {
	if has(ct.Props, p) || has(ct.Safety, p) {
		return true
	}
	for _, cs := range [][]*Clause{ct.Ensures, ct.Covers} {
		for _, c := range cs {
			if has(c.Props, p) {
				return true
			}
		}
	}
	for _, h := range ct.Hooks {
		for _, c := range h.Asserts {
			if has(c.Props, p) {
				return true
			}
		}
	}
	return false
}

type finding struct {
	Kind       string `json:"kind"` // known, fixed
	Property   string `json:"property"`
	Obligation string `json:"obligation,omitempty"`
	Commit     string `json:"commit,omitempty"`
	What       string `json:"what"`
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(*verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=C13 obligation=<name> what...
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{Kind: "known"}
		ws := strings.Fields(strings.TrimPrefix(l, "known: "))
		var rest []string
		for _, w := range ws {
			switch {
			case strings.HasPrefix(w, "property=") && f.Property == "":
				f.Property = w[len("property="):]
			case strings.HasPrefix(w, "obligation=") && f.Obligation == "":
				f.Obligation = w[len("obligation="):]
			default:
				rest = append(rest, w)
			}
		}
		f.What = strings.Join(rest, " ")
		out = append(out, f)
	}
	return out
}

// the property lock discipline belongs to: every unit touching a declared lock concerns it
const lockProperty = "C23"

type failure struct {
	name, pos, detail string
}

func runCheck(p string, thorough bool) int {
	t0 := time.Now()
	tier := "quick"
	to := *timeout
	if thorough {
		tier = "thorough"
		to = 3 * to
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	softDeadline = t0.Add(8 * time.Minute)
	var fails []failure
	e, err := loadEngine(*repoDir, *contractDir)
	var results []*UnitResult
	var skipped, unchecked []string
	if err != nil {
		fails = append(fails, failure{name: p + "/load", detail: err.Error()})
	} else {
		done := map[string]bool{}
		queue := []string{}
		direct := map[string]bool{}
		for _, k := range e.specs.Order {
			if ct := e.specs.Contracts[k]; !ct.Trusted && (ct.concerns(p) || p == lockProperty && e.touchesLock(ct)) {
				queue = append(queue, k)
				direct[k] = true
			}
		}
		if len(queue) == 0 {
			fails = append(fails, failure{name: p + "/no-units", detail: "no contract mentions this property"})
		}
		covered := map[string]bool{}
		for len(queue) > 0 {
			k := queue[0]
			queue = queue[1:]
			if done[k] {
				continue
			}
			if len(fails) >= 8 {
				// decided: the remaining units would only add to the report
				skipped = append(skipped, k)
				continue
			}
			done[k] = true
			ct := e.specs.Contracts[k]
			us, err := e.unitsOf(ct)
			if err != nil {
				fails = append(fails, failure{name: k, detail: err.Error()})
				continue
			}
			rel := func(o *Obligation) bool { return has(o.Props, p) || has(o.Props, "*") }
			if !direct[k] {
				rel = func(o *Obligation) bool { return true }
			}
			// panics end the path and lock states are facts of the path: those are assumed
			// whichever property they belong to
			factOK = func(o *Obligation) bool {
				return o.Kind == "panic" || o.Kind == "lock" || o.Kind == "guard" || rel(o)
			}
			for _, u := range us {
				r := e.runUnit(u, rel, to)
				results = append(results, r)
				covered[k] = true
				for _, f := range r.Inlined {
					covered[f] = true
				}
				for _, x := range r.Errs {
					fails = append(fails, failure{name: u.Name + "/translate", detail: x})
				}
				for _, o := range r.Obls {
					if !o.ok() {
						d := o.Res.Status + " " + o.Res.Solver + "\n" + o.Res.Out
						fails = append(fails, failure{name: o.Name, pos: o.Pos, detail: d})
					}
				}
				for _, x := range r.Used {
					if c2 := e.specs.Contracts[x]; c2 != nil && !c2.Trusted && !done[x] {
						queue = append(queue, x)
					}
				}
			}
		}
		// the units above rely on the invariants and discipline of the locks they take: everything
		// else that touches those locks keeps them too
		if len(fails) < 8 {
			var peers []string
			for _, f := range e.lockPeers(covered) {
				if ct := e.specs.Contracts[f]; ct != nil && !ct.Trusted {
					peers = append(peers, f)
				} else if fs := e.reachedFrom(f); len(fs) > 0 {
					peers = append(peers, fs...)
				} else {
					peers = append(peers, f)
				}
			}
			for _, f := range peers {
				if done[f] {
					continue
				}
				done[f] = true
				ct := e.specs.Contracts[f]
				auto := ct == nil || ct.Trusted
				if auto {
					// in no function under contract: the discipline alone
					ct = &Contract{Func: f, Key: f, Helper: true, Config: map[string]string{}}
				}
				us, err := e.unitsOf(ct)
				if err != nil {
					continue // reported with the properties of that contract
				}
				rel := func(o *Obligation) bool {
					return o.Kind == "monitor-inv" && !auto || o.Kind == "lock" || o.Kind == "guard"
				}
				factOK = nil
				for _, u := range us {
					r := e.runUnit(u, rel, to)
					if auto && len(r.Errs) > 0 {
						unchecked = append(unchecked, f)
						continue
					}
					if len(r.Errs) == 0 {
						results = append(results, r)
					}
					for _, o := range r.Obls {
						if !o.ok() {
							fails = append(fails, failure{name: o.Name, pos: o.Pos, detail: o.Res.Status + " " + o.Res.Solver + "\n" + o.Res.Out})
						}
					}
				}
			}
		}
	}
	// totals
	obls, disch := 0, 0
	backends := map[string]int{}
	kinds := map[string]int{}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	inl := map[string]bool{}
	units := []string{}
	samples := []string{}
	vac := 0
	for _, r := range results {
		units = append(units, r.Name)
		for _, o := range r.Obls {
			if o.Cover {
				vac++
				continue
			}
			obls++
			kinds[o.Kind]++
			if o.ok() {
				disch++
				backends[o.Res.Solver]++
			}
			if len(samples) < 400 && o.Kind == "ensures" {
				samples = append(samples, o.Name+" @ "+o.Pos)
			}
		}
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		for _, x := range r.Axioms {
			assume["axiom: "+x] = true
		}
		for _, x := range r.Assume {
			assume[x] = true
		}
		for _, x := range r.Inlined {
			inl[x] = true
		}
	}
	for _, x := range unchecked {
		assume["outside the verifier's reach: "+x+" keeps the lock discipline"] = true
	}
	for _, x := range baseAssumptions {
		assume[x] = true
	}
	if obls == 0 && len(fails) == 0 {
		fails = append(fails, failure{name: p + "/no-obligations", detail: "none of the functions under contract for this property exists"})
	}
	// stand-in or replay
	var known []string
	fs := loadFindings()
	var real []failure
	for _, f := range fails {
		k := false
		for _, x := range fs {
			if x.Property == p && x.Obligation != "" && x.Obligation == f.name {
				known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", p, x.What, f.name))
				k = true
			}
		}
		if !k {
			real = append(real, f)
		}
	}
	_, bounded := boundedProps()[p]
	var rep replayResult
	ran := false
	if len(real) > 0 || thorough || bounded {
		rep = runReplay(p, seed, thorough)
		ran = rep.ran
	}
	violation := len(real) > 0 || rep.failed
	cov := map[string]any{
		"obligations":                  obls,
		"discharged":                   disch,
		"checker_cmd":                  fmt.Sprintf("vgo check %s (verification conditions from SSA of /repo; z3 5.x ematching/mbqi, cvc5 1.1.2)", p),
		"trusted_base":                 setKeys(trusted),
		"functions_under_contract":     units,
		"functions_inlined":            setKeys(inl),
		"discharged_by_backend":        backends,
		"obligation_kinds":             kinds,
		"vacuity_checks":               vac,
		"solver_seconds":               float64(atomic.LoadInt64(&solverTime)) / 1e9,
		"solver_calls":                 atomic.LoadInt64(&solverCalls),
		"failed_obligations":           failNames(fails),
		"units_not_run_after_failures": append([]string{}, skipped...),
		"postconditions":               samples,
	}
	if ran {
		cov["bounded_replay"] = map[string]any{"label": "bounded: never counted as proved", "seconds": rep.dur.Seconds(), "failed": rep.failed, "summary": rep.summary}
	}
	ev := map[string]any{
		"property": p, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": setKeys(assume), "wall_s": time.Since(t0).Seconds(), "violations": len(real),
	}
	os.MkdirAll(filepath.Join(*verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verifDir, "evidence", p+".json"), b, 0o644)
	sort.Strings(known)
	for _, k := range known {
		fmt.Println(k)
	}
	fmt.Printf("%s: %d units, %d obligations, %d discharged, %d failed, %.1fs\n", p, len(units), obls, disch, len(fails), time.Since(t0).Seconds())
	if !violation {
		return 0
	}
	for _, f := range real {
		fmt.Printf("FAILED %s %s\n", f.name, f.pos)
		if strings.HasSuffix(f.name, "/translate") || !strings.Contains(f.detail, "\n") {
			fmt.Println("   ", firstLine(f.detail))
		}
	}
	dir := filepath.Join(*verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, p+".txt")
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s violated\n\n", p)
	for _, f := range real {
		fmt.Fprintf(&rb, "failed obligation: %s\n  at %s\n  %s\n\n", f.name, f.pos, clip(f.detail, 6000))
	}
	if rep.ran {
		fmt.Fprintf(&rb, "replay against the real code (failed=%v):\n%s\n", rep.failed, clip(rep.out, 20000))
	}
	os.WriteFile(path, []byte(rb.String()), 0o644)
	sfx := ""
	if !rep.failed {
		sfx = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", p, path, sfx)
	return 1
}

var baseAssumptions = []string{
	"the Go compiler, runtime and x/tools SSA construction are correct; memory and stack are never exhausted",
	"each goroutine runs its function to the next synchronisation point in sequential consistency; state guarded by a mutex changes only while the mutex is held (obligations of C23)",
	"solver answers unsat are correct (z3, cvc5)",
}

func failNames(fs []failure) []string {
	out := []string{}
	for _, f := range fs {
		out = append(out, f.name)
	}
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...[clipped]"
	}
	return s
}

// properties whose replay harness also runs on every check as a bounded
// stand-in for functions out of the verifier's reach
func boundedProps() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*verifDir, "replay", "bounded.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.SplitN(strings.TrimSpace(l), " ", 2); len(f) == 2 {
			out[f[0]] = f[1]
		}
	}
	return out
}

type replayResult struct {
	ran, failed bool
	out         string
	summary     string
	dur         time.Duration
}

// runReplay runs the property's harness against the real code.
func runReplay(p string, seed int, thorough bool) replayResult {
	var res replayResult
	files, _ := filepath.Glob(filepath.Join(*verifDir, "replay", p, "*_test.go"))
	if len(files) == 0 {
		return res
	}
	sort.Strings(files)
	tmp, err := os.MkdirTemp("", "vgo-replay")
	if err != nil {
		return res
	}
	defer os.RemoveAll(tmp)
	t0 := time.Now()
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		// first line: // pkg: DIR [race]
		h := strings.Fields(strings.TrimPrefix(firstLine(string(src)), "// pkg:"))
		if len(h) == 0 {
			continue
		}
		pkg := h[0]
		ov := map[string]map[string]string{"Replace": {filepath.Join(*repoDir, pkg, "zz_verif_"+strings.ToLower(p)+"_test.go"): f}}
		common, _ := filepath.Glob(filepath.Join(*verifDir, "replay", "common", "*_test.go"))
		for _, cf := range common {
			csrc, _ := os.ReadFile(cf)
			ch := strings.Fields(strings.TrimPrefix(firstLine(string(csrc)), "// pkg:"))
			if len(ch) > 0 && ch[0] == pkg {
				ov["Replace"][filepath.Join(*repoDir, pkg, "zz_verifcommon_"+filepath.Base(cf))] = cf
			}
		}
		ob, _ := json.Marshal(ov)
		of := filepath.Join(tmp, "overlay.json")
		os.WriteFile(of, ob, 0o644)
		limit := "90s"
		if thorough {
			limit = "240s"
		}
		args := []string{"test", "-overlay", of, "-run", "^TestVerif" + p, "-count=1", "-vet=off", "-timeout", limit}
		if has(h, "race") {
			args = append(args, "-race")
		}
		args = append(args, "./"+pkg)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = *repoDir
		budget := "5"
		if thorough {
			budget = "60"
		}
		cmd.Env = append(os.Environ(), "GOPROXY=off", "GOWORK=off", "VERIF_SEED="+strconv.Itoa(seed), "VERIF_BUDGET="+budget)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err = cmd.Run()
		cancel()
		res.ran = true
		o := out.String()
		res.out += "== " + filepath.Base(f) + "\n" + o + "\n"
		if err != nil && !strings.Contains(o, "[build failed]") && !strings.Contains(o, "[setup failed]") && strings.Contains(o, "FAIL") {
			res.failed = true
		}
		for _, l := range strings.Split(o, "\n") {
			if strings.Contains(l, "REPLAY-SUMMARY") {
				res.summary += strings.TrimSpace(l) + "; "
			}
		}
	}
	res.dur = time.Since(t0)
	return res
}
