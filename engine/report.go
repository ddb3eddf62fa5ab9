package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func (d *driver) writeReplay(name string, body map[string]any) string {
	dir := filepath.Join(d.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, sanitizeFile(name)+".json")
	b, _ := json.MarshalIndent(body, "", " ")
	must(os.WriteFile(p, append(b, '\n'), 0o644))
	return p
}

func sanitizeFile(s string) string {
	out := []byte(s)
	for i, c := range out {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.') {
			out[i] = '_'
		}
	}
	if len(out) > 120 {
		out = out[:120]
	}
	return string(out)
}

// report confirms what was found, validates sampled paths against the real
// build, writes the evidence and returns the exit code.
func (d *driver) report(eng *Engine, hs []*Harness, _ any) int {
	cov := map[string]any{}
	ev := map[string]any{"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "model_checking", "coverage": cov}
	finish := func(viol int) {
		ev["wall_s"] = round(time.Since(d.t0).Seconds())
		ev["violations"] = viol
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
		must(os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), append(b, '\n'), 0o644))
	}
	if d.genFail != "" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		cov["samples"] = []any{d.genFail}
		p := d.writeReplay(d.prop+"-generate", map[string]any{"property": d.prop, "kind": "generate", "detail": d.genFail,
			"how": "build go-zserio from /repo and run: go-zserio generate --out - --rootpackage gen/zs --only NAME --sql /verif/schemas/NAME.zs, then compile the result"})
		fmt.Println(d.genFail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, p)
		finish(1)
		return 1
	}

	// confirm violations on the real code
	t := time.Now()
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, h := range hs {
		for _, v := range h.Viol {
			if v.Kind == "frozen" {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				d.confirm(v)
				<-sem
			}()
		}
	}
	wg.Wait()
	for _, h := range hs {
		for _, v := range h.Viol {
			if v.Kind == "frozen" {
				d.confirm(v)
			}
		}
	}
	// validate sampled paths: the native run must observe what the engine computed
	validated, mismatch := 0, 0
	var samples []any
	var mu sync.Mutex
	for _, h := range hs {
		for si, s := range h.Samples {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				r := d.native(nativeCase{Harness: h.Name, Inputs: s.Inputs, Thorough: d.thorough}, 60*time.Second, false)
				<-sem
				mu.Lock()
				defer mu.Unlock()
				switch r.Status {
				case "ok":
					if strings.Join(r.Obs, "\n") == strings.Join(s.Obs, "\n") {
						validated++
						s.Native = "agrees"
					} else {
						mismatch++
						s.Native = "differs: " + strings.Join(r.Obs, " ")
						d.notes = append(d.notes, fmt.Sprintf("engine and native run differ in %s:\n inputs %s\n engine %v\n native %v", h.Name, inputText(s.Inputs), s.Obs, r.Obs))
					}
				case "skip":
					mismatch++
					s.Native = "skipped: " + r.Detail
					d.notes = append(d.notes, fmt.Sprintf("native run of %s skips a sampled path: %s: %s", h.Name, r.Detail, inputText(s.Inputs)))
				default:
					// the real code fails where the engine saw no failure: a violation all the same
					h.Viol = append(h.Viol, &Violation{Harness: h.Name, Label: r.Label, Kind: r.Status, Detail: "found while validating a path: " + r.Detail,
						Inputs: s.Inputs, Status: "confirmed", NStatus: r.Status, NDetail: r.Detail})
					s.Native = r.Status
				}
				if si < 2 && len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": h.Name, "inputs": inputText(s.Inputs), "observed": s.Obs, "native": s.Native})
				}
			}()
		}
	}
	wg.Wait()
	d.mark("native replay", t)

	var viol, knownN, notRep int
	incomplete := []string{}
	vac := []string{}
	states, trans, asserts, trivial, solved, undec := 0, int64(0), 0, 0, 0, 0
	var hev []any
	for _, h := range hs {
		states += h.Paths
		trans += h.Steps
		asserts += h.Asserts
		trivial += h.Trivial
		solved += h.Solved
		undec += h.Undec
		printed := map[string]bool{}
		for _, v := range h.Viol {
			if v.Status != "confirmed" {
				notRep++
				d.notes = append(d.notes, fmt.Sprintf("not reproduced natively (%s %s): %s %s %s: %s", v.NStatus, v.NDetail, h.Name, v.Label, v.Detail, inputText(v.Inputs)))
				continue
			}
			if what, ok := d.known[h.Name+"/"+labelKey(v.Label)]; ok {
				if !printed[v.Label] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, what)
					knownN++
				}
				printed[v.Label] = true
				continue
			}
			viol++
			if printed[v.Label] {
				continue
			}
			printed[v.Label] = true
			p := d.writeReplay(d.prop+"-"+h.Name+"-"+v.Label, map[string]any{"property": d.prop, "kind": v.Kind, "label": v.Label, "detail": v.Detail,
				"native": v.NStatus + " " + v.NDetail,
				"case":   nativeCase{Harness: h.Name, Inputs: v.Inputs, Thorough: d.thorough},
				"how":    "/verif/check " + d.prop + " -replay FILE runs the harness natively on these inputs"})
			fmt.Printf("%s %s: %s; inputs %s; native: %s %s\n", h.Name, v.Label, v.Detail, inputText(v.Inputs), v.NStatus, tail(v.NDetail, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, p)
		}
		for l := range h.Reach {
			if h.Reached[l] == 0 {
				vac = append(vac, h.Name+": "+l)
			}
		}
		if h.Done == 0 && len(h.Viol) == 0 {
			vac = append(vac, h.Name+": no path completes")
		}
		he := map[string]any{"harness": h.Name, "paths": h.Paths, "completed": h.Done, "pruned": h.Pruned, "steps": h.Steps,
			"assertions": h.Asserts, "wall_s": round(h.Wall.Seconds())}
		if len(h.Cut)+len(h.Unsup) > 0 {
			he["incomplete"] = map[string]any{"cut": h.Cut, "unsupported": h.Unsup}
			incomplete = append(incomplete, fmt.Sprintf("%s: %v %v", h.Name, h.Cut, h.Unsup))
		}
		hev = append(hev, he)
		fmt.Printf("%-44s paths %6d done %6d pruned %5d asserts %7d (rewriting %d, solver %d) steps %9d %6.1fs", h.Name, h.Paths, h.Done, h.Pruned, h.Asserts, h.Trivial, h.Solved, h.Steps, h.Wall.Seconds())
		if h.Undec > 0 {
			fmt.Printf(" undecided %d", h.Undec)
		}
		if len(h.Cut)+len(h.Unsup) > 0 {
			fmt.Printf(" INCOMPLETE %v %v", h.Cut, h.Unsup)
		}
		fmt.Println()
	}
	q, sat, unsat, unk, fb := 0, 0, 0, 0, 0
	var st time.Duration
	xn, xd := 0, 0
	var solErr error
	merges := 0
	for _, w := range eng.workers {
		q += w.sol.Queries
		sat += w.sol.SatN
		unsat += w.sol.UnsatN
		unk += w.sol.UnknownN
		fb += w.sol.Fallback
		st += w.sol.Time
		xn += w.xDone
		xd += w.xDiff
		merges += w.merges
		if w.sol.fatal != nil {
			solErr = w.sol.fatal
		}
	}
	if xd > 0 {
		d.notes = append(d.notes, fmt.Sprintf("%d queries decided differently by a second solver", xd))
	}
	funcs := []string{}
	var gen []string
	instrs := 0
	for f, n := range eng.fnTotal {
		instrs += n
		if strings.Contains(f, "woven-planet/go-zserio/") && !strings.Contains(f, "zzverif") {
			funcs = append(funcs, strings.ReplaceAll(f, "github.com/woven-planet/go-zserio/", ""))
		} else if strings.Contains(f, "gen/zs/") {
			gen = append(gen, f)
		}
	}
	sort.Strings(funcs)
	sort.Strings(gen)
	if len(gen) > 60 {
		gen = append(gen[:60], fmt.Sprintf("… %d more", len(gen)-60))
	}
	if len(funcs) > 150 {
		funcs = append(funcs[:150], fmt.Sprintf("… %d more", len(funcs)-150))
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = len(incomplete) == 0 && undec == 0
	cov["unit"] = "states: symbolic paths; transitions: SSA instructions executed symbolically; traces_validated: path models whose native run observed the same values"
	cov["harnesses"] = hev
	cov["assertions_decided"] = map[string]any{"evaluated": asserts, "by_term_rewriting": trivial, "by_solver": solved, "undecided": undec}
	cov["solver"] = map[string]any{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "fresh_process_retries": fb, "time_s": round(st.Seconds()),
		"command": strings.Join(eng.solver, " "), "cross_checked_with_cvc5": xn, "disagreements": xd, "merged_branches": merges}
	cov["functions_encoded"] = map[string]any{"total": len(eng.fnTotal), "ssa_instructions": instrs, "repository": funcs, "generated": gen}
	cov["incomplete"] = incomplete
	cov["bounds"] = d.bounds()
	cov["known_findings"] = knownN
	cov["not_reproduced"] = notRep
	cov["phases_s"] = d.phase
	ev["assumptions"] = d.assumptions()
	finish(viol)
	for _, n := range d.notes {
		fmt.Println("NOTE", n)
	}
	fmt.Printf("%s %s: %d paths, %d assertions (%d by the solver), %d queries, solver %.1fs, %d traces validated, wall %.1fs %v\n", d.prop, d.tier,
		states, asserts, solved, q, st.Seconds(), validated, time.Since(d.t0).Seconds(), d.phase)
	if viol > 0 {
		return 1
	}
	if d.only == "" && len(vac) > 0 {
		fmt.Println("ERROR vacuous:", vac)
		return 2
	}
	if solErr != nil {
		fmt.Println("ERROR", solErr)
		return 2
	}
	if xd > 0 || mismatch > 0 {
		fmt.Println("ERROR the engine disagrees with the native run or with the second solver")
		return 2
	}
	return 0
}

func inputText(in []InputVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i == 60 {
			fmt.Fprintf(&sb, "… %d more", len(in)-60)
			break
		}
		fmt.Fprintf(&sb, "%s:%d=%s", v.Name, v.W, v.V)
	}
	return sb.String()
}

// bounds are the //sv:bound lines of the harness package.
func (d *driver) bounds() []string { return d.tagged("//sv:bound ") }

func (d *driver) assumptions() []string {
	return append(d.tagged("//sv:assume "),
		"the SSA interpreter models Go semantics (checked by native replay of sampled paths)",
		"fmt, errors, sync, math/bits and parts of strings are modelled, not executed",
		"the solver is right (a sample of its unsat answers is cross-checked with cvc5)")
}

func (d *driver) tagged(tag string) []string {
	out := []string{}
	fs, _ := filepath.Glob(filepath.Join(d.verif, "harness", strings.ToLower(d.prop), "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSpace(l); strings.HasPrefix(l, tag) {
				out = append(out, strings.TrimPrefix(l, tag))
			}
		}
	}
	return out
}
