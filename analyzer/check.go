package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var variants = []string{"default", "purego"}

// line is what a worker reports.
type report struct {
	Kind    string   `json:"kind"` // start, verdict, done, loaded, error
	Name    string   `json:"name,omitempty"`
	Op      string   `json:"operation,omitempty"`
	Rule    string   `json:"rule,omitempty"`
	Verdict string   `json:"verdict,omitempty"` // ok, violation, undecided
	Why     []string `json:"why,omitempty"`
	Pos     string   `json:"pos,omitempty"`
	Known   string   `json:"known,omitempty"`
	Funcs   []string `json:"funcs,omitempty"`
	Sites   int      `json:"sites,omitempty"`
	Nodes   int      `json:"nodes,omitempty"`
	Ms      int64    `json:"ms,omitempty"`
	Variant string   `json:"variant,omitempty"`
	NFuncs  int      `json:"nfuncs,omitempty"`
	Agree   bool     `json:"agree,omitempty"` // counts only if the variants differ
}

func has(list []string, x string) bool {
	for _, y := range list {
		if y == x {
			return true
		}
	}
	return false
}

// worker decides the obligations of one property in one build variant.
func worker(variant, prop string, skip map[string]bool) int {
	debug.SetMaxStack(1 << 30)
	debug.SetMemoryLimit(8 << 30)
	w := bufio.NewWriter(os.Stdout)
	emit := func(r report) {
		r.Variant = variant
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	p, err := load(variant)
	if err != nil {
		emit(report{Kind: "error", Why: []string{err.Error()}})
		return 0
	}
	n := 0
	for f := range p.all {
		if isOurs(f) && f.Blocks != nil && !p.isSpecFunc(f) {
			n++
		}
	}
	emit(report{Kind: "loaded", NFuncs: n})
	for _, o := range p.obs {
		// all that is decided for both variants has to come out alike
		agree := prop == "P33" && !has(o.props, prop) && o.opts["only"] == ""
		if !has(o.props, prop) && !agree || skip[o.name] {
			continue
		}
		emit(report{Kind: "start", Name: o.name, Op: o.impl})
		t := time.Now()
		v := p.checkSafe(o)
		r := report{Kind: "verdict", Name: o.name, Op: o.impl, Rule: "equal to reference " + o.spec + " (" + filepath.Base(o.file) + ")", Verdict: "ok", Why: v.diffs, Sites: v.sites, Nodes: v.nodes, Ms: time.Since(t).Milliseconds(), Agree: agree}
		if v.undec {
			r.Verdict = "undecided"
		} else if !v.ok {
			r.Verdict = "violation"
		}
		if v.pos.IsValid() {
			r.Pos = relPos(v.pos.String())
		}
		for f := range v.funcs {
			if !strings.Contains(f, "spec") {
				r.Funcs = append(r.Funcs, trimPkg(f))
			}
		}
		sort.Strings(r.Funcs)
		emit(r)
	}
	for _, ru := range rules {
		if !has(ru.props, prop) || skip["rule:"+ru.name] {
			continue
		}
		emit(report{Kind: "start", Name: "rule:" + ru.name})
		t := time.Now()
		for _, r := range p.runRule(ru) {
			r.Kind, r.Ms = "verdict", time.Since(t).Milliseconds()
			r.Pos = relPos(r.Pos)
			emit(r)
		}
	}
	emit(report{Kind: "done"})
	return 0
}

func relPos(s string) string { return strings.TrimPrefix(s, *flagRepo+"/") }

// checkSafe turns a failure of the engine into "undecided".
func (p *Program) checkSafe(o *Obligation) (v *verdict) {
	defer func() {
		if e := recover(); e != nil {
			v = &verdict{ob: o, variant: p.variant, undec: true, funcs: map[string]bool{}, diffs: []string{fmt.Sprintf("the analysis failed: %v", e)}}
		}
	}()
	return p.check(o)
}

const (
	perObligation = 150 * time.Second
	perVariant    = 400 * time.Second
)

// collect runs workers until every obligation of the property has a verdict.
func collect(variant, prop string) (out []report, nfuncs int, errs []string) {
	skip := []string{}
	deadline := time.Now().Add(perVariant)
	for attempt := 0; attempt < 12; attempt++ {
		self, err := os.Executable()
		if err != nil {
			return nil, 0, []string{err.Error()}
		}
		cmd := exec.Command(self, "-repo", *flagRepo, "-verif", *flagVerif, "-worker", variant, "-prop", prop, "-skip", strings.Join(skip, "\x1f"))
		var stderr bytes.Buffer
		cmd.Stderr = &limited{w: &stderr, n: 4000}
		pipe, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return nil, 0, []string{err.Error()}
		}
		lines := make(chan report)
		go func() {
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var r report
				if json.Unmarshal(sc.Bytes(), &r) == nil {
					lines <- r
				}
			}
			close(lines)
		}()
		current := ""
		done := false
		timer := time.NewTimer(perObligation)
	loop:
		for {
			select {
			case r, ok := <-lines:
				if !ok {
					break loop
				}
				if !timer.Stop() {
					select {
					case <-timer.C:
					default:
					}
				}
				d := perObligation
				if left := time.Until(deadline); left < d {
					d = left
				}
				timer.Reset(d)
				switch r.Kind {
				case "loaded":
					nfuncs = r.NFuncs
				case "start":
					current = r.Name
				case "verdict":
					out = append(out, r)
					skip = append(skip, current)
				case "error":
					errs = append(errs, r.Why...)
					done = true
				case "done":
					done = true
				}
			case <-timer.C:
				cmd.Process.Kill()
			}
		}
		cmd.Wait()
		if done {
			return
		}
		why := firstLine(stderr.String())
		if why == "" {
			why = "the analysis did not end in time"
		}
		if current == "" || has(skip, current) {
			errs = append(errs, why)
			return
		}
		out = append(out, report{Kind: "verdict", Variant: variant, Name: current, Verdict: "undecided", Why: []string{why}})
		skip = append(skip, current)
		if time.Now().After(deadline) {
			errs = append(errs, "out of time")
			return
		}
	}
	errs = append(errs, "too many failures of the analysis")
	return
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if l.n > 0 {
		k := len(b)
		if k > l.n {
			k = l.n
		}
		l.w.Write(b[:k])
		l.n -= k
	}
	return len(b), nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

type knownFinding struct{ prop, key, text string }

// the file has lines "finding: property=<id> <rule>|<construct> -- <text>"
func knownFindings() []knownFinding {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 {
			continue
		}
		g := strings.SplitN(f[1], " -- ", 2)
		if len(g) != 2 {
			continue
		}
		out = append(out, knownFinding{f[0], strings.TrimSpace(g[0]), strings.TrimSpace(g[1])})
	}
	return out
}

func checkProperty(prop string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if *flagTier != "" {
		tier = *flagTier
	}
	if tier != "thorough" {
		tier = "quick"
	}
	type res struct {
		out  []report
		n    int
		errs []string
	}
	results := make([]res, len(variants))
	ch := make(chan int)
	for i, v := range variants {
		go func(i int, v string) {
			o, n, e := collect(v, prop)
			results[i] = res{o, n, e}
			ch <- i
		}(i, v)
	}
	for range variants {
		<-ch
	}
	// results that only have to agree
	byName := map[string]map[string]string{}
	for _, r := range results {
		for _, o := range r.out {
			if byName[o.Name] == nil {
				byName[o.Name] = map[string]string{}
			}
			byName[o.Name][o.Variant] = o.Verdict
		}
	}
	for _, r := range results {
		for i := range r.out {
			o := &r.out[i]
			if !o.Agree || o.Verdict != "violation" {
				continue
			}
			alone := false
			for v, w := range byName[o.Name] {
				if v != o.Variant && w == "ok" {
					alone = true
				}
			}
			if alone {
				o.Why = append([]string{"only in the build variant " + o.Variant + ":"}, o.Why...)
			} else {
				o.Verdict = "same"
			}
		}
	}
	known := knownFindings()
	var all []report
	var errs []string
	funcs := map[string]bool{}
	sites, nodes, nok, nviol, nundec, nfuncs := 0, 0, 0, 0, 0, 0
	usedKnown := map[string]string{}
	var viols []report
	var undecs []string
	perVariantN := map[string]int{}
	for i, r := range results {
		for _, e := range r.errs {
			errs = append(errs, variants[i]+": "+e)
		}
		if r.n > nfuncs {
			nfuncs = r.n
		}
		for _, o := range r.out {
			perVariantN[variants[i]]++
			all = append(all, o)
			sites += o.Sites
			nodes += o.Nodes
			for _, f := range o.Funcs {
				funcs[f] = true
			}
			switch o.Verdict {
			case "ok":
				nok++
			case "undecided":
				nundec++
				undecs = append(undecs, fmt.Sprintf("%s [%s]: %s", o.Name, variants[i], strings.Join(o.Why, "; ")))
			case "violation":
				isKnown := false
				for _, k := range known {
					if k.prop == prop && k.key == o.Known && o.Known != "" {
						usedKnown[k.key] = k.text
						isKnown = true
					}
				}
				if !isKnown {
					nviol++
					viols = append(viols, o)
				}
			}
		}
	}
	for _, e := range errs {
		fmt.Println("UNDECIDED", prop, e)
	}
	for _, u := range undecs {
		fmt.Println("UNDECIDED", prop, u)
	}
	for _, k := range sortedStrings(usedKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, usedKnown[k])
	}
	evDir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, prop+".report.txt")
	var rep strings.Builder
	seen := map[string]bool{}
	for _, v := range viols {
		fmt.Fprintf(&rep, "%s: %s [%s]\n  rule: %s\n", v.Pos, v.Name, v.Variant, v.Rule)
		for _, d := range v.Why {
			fmt.Fprintf(&rep, "  %s\n", d)
		}
		if !seen[v.Name] {
			seen[v.Name] = true
			fmt.Printf("%s: %s: %s\n", v.Pos, v.Name, firstOf(v.Why))
		}
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	// evidence
	fl := []string{}
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	samples := []map[string]interface{}{}
	for i, o := range all {
		if i < 8 {
			samples = append(samples, map[string]interface{}{"obligation": o.Name, "variant": o.Variant, "rule": o.Rule, "verdict": o.Verdict, "functions": len(o.Funcs), "value_graph_nodes": o.Nodes})
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         "Static analysis of the type-checked SSA form of /repo's current source, in every build variant. Each obligation evaluates an operation of the library and its reference definition to gated value graphs (all paths, loops as fixed points, no execution and no unrolling of unknown bounds) and compares the normal forms; rules inspect call graph, stores, effects and control flow. obligations_total counts obligation instances over the build variants; functions_analysed are the functions of the library that were part of the compared graphs.",
			"obligations_total":   len(all),
			"obligations_hold":    nok,
			"violations":          nviol,
			"undecided":           nundec,
			"undecided_list":      undecs,
			"load_errors":         errs,
			"by_variant":          perVariantN,
			"functions_in_source": nfuncs,
			"functions_analysed":  fl,
			"call_sites":          sites,
			"value_graph_nodes":   nodes,
			"samples":             samples,
		},
		"assumptions": []string{
			"the semantics of Go and of the standard library functions that the analysis models (bytes.Buffer, fmt verbs, strings, sort, go/types and reflect accessors as uninterpreted observers)",
			"an obligation listed as undecided is not claimed for this run",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations hold, %d violated, %d undecided (%d functions, %d call sites, %.1f s)\n", prop, nok, nviol, nundec, len(fl), sites, time.Since(t0).Seconds())
	if nviol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	return 0
}

func firstOf(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}

func sortedStrings(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
