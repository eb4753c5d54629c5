package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// propDef describes the check of one property.
type propDef struct {
	build    func(t *T) // registers the cases
	rule     string     // how cases are made and what makes one non-trivial
	assume   []string
	variants []string // builds the workload is run under: "", "race", "asan"
	progs    []string // programs of the repository the workload runs
	serial   bool
	minEvals int64 // fewer evaluations than this are inconclusive
	jobs     int
}

var props = map[string]*propDef{}

func register(id string, d *propDef) { props[id] = d }

const (
	watchdog     = 150 * time.Second
	soloWatchdog = 220 * time.Second
	maxRSS       = 14 << 30
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	root := flag.String("root", "/verif", "framework folder")
	build := flag.String("build", "", "build folder")
	worker := flag.Bool("worker", false, "internal")
	only := flag.String("only", "", "internal: file with the cases to run")
	out := flag.String("out", "", "internal")
	variant := flag.String("variant", "", "internal")
	jobs := flag.Int("jobs", numJobs(), "parallel cases")
	helper := flag.String("helper", "", "internal: helper program")
	list := flag.Bool("list", false, "list the properties and their builds")
	flag.Parse()

	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *list {
		for id, d := range props {
			v := []string{}
			for _, x := range d.variants {
				if x == "" {
					x = "plain"
				}
				v = append(v, x)
			}
			fmt.Printf("%s|%s|%s\n", id, strings.Join(v, " "), strings.Join(d.progs, " "))
		}
		return
	}
	trustAuthority(*root)
	if *helper != "" {
		log.SetOutput(io.Discard)
		runHelper(*helper, flag.Args())
		return
	}
	if *build == "" {
		*build = filepath.Join(*root, ".build")
	}
	d := props[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if len(d.variants) == 0 {
		d.variants = []string{""}
	}

	if *worker {
		runWorker(*prop, *tier, seed, d, *only, *out, *build, *variant, *jobs)
		return
	}
	os.Exit(runParent(*prop, *tier, seed, d, *root, *build, *replay, *jobs))
}

func newT(prop, tier string, seed int64, d *propDef, work, build string) *T {
	t := &T{Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough",
		Work: work, Bin: filepath.Join(build, "bin"),
		names: map[string]bool{}, distinct: map[uint64]bool{}, obs: map[string]int64{}, serial: d.serial}
	return t
}

// variantName is the build the worker runs under.
var variantName string

func runWorker(prop, tier string, seed int64, d *propDef, onlyFile, out, build, variant string, jobs int) {
	variantName = variant
	log.SetOutput(io.Discard)
	debug.SetGCPercent(100)
	debug.SetTraceback("all")
	t := newT(prop, tier, seed, d, out, build)
	d.build(t)
	var only map[string]bool
	if onlyFile != "" {
		b, err := os.ReadFile(onlyFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var l []string
		json.Unmarshal(b, &l)
		only = map[string]bool{}
		for _, n := range l {
			only[n] = true
		}
	}
	if d.jobs > 0 && jobs > d.jobs {
		jobs = d.jobs
	}
	t.run(only, jobs, out)
}

type outcome struct {
	res    workerResult
	crash  string   // how the worker died, if it did not finish
	flight []string // the cases in flight then
	hang   bool
	memory bool
	races  []string
	asan   string
}

// runOnce runs the worker under one build.
func runOnce(prop, tier, build, variant string, only []string, jobs int, limit time.Duration) outcome {
	var o outcome
	out, err := os.MkdirTemp("", "vh-"+prop+"-")
	if err != nil {
		o.crash = "no scratch folder: " + err.Error()
		return o
	}
	defer os.RemoveAll(out)
	bin := filepath.Join(build, "vh")
	if variant != "" {
		bin += "-" + variant
	}
	args := []string{"-worker", "-prop", prop, "-tier", tier, "-out", out, "-build", build,
		"-variant", variant, "-jobs", strconv.Itoa(jobs)}
	if only != nil {
		b, _ := json.Marshal(only)
		f := filepath.Join(out, "only.json")
		os.WriteFile(f, b, 0o644)
		args = append(args, "-only", f)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = out
	var stdout bytes.Buffer
	errf, _ := os.Create(filepath.Join(out, "stderr"))
	cmd.Stdout = &stdout
	cmd.Stderr = errf
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=0 log_path="+filepath.Join(out, "race"),
		"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:halt_on_error=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		o.crash = "cannot start the worker: " + err.Error()
		return o
	}
	kill := func(sig syscall.Signal) { syscall.Kill(-cmd.Process.Pid, sig) }
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var werr error
	var hung string
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if rss(cmd.Process.Pid) > maxRSS {
				o.memory = true
				kill(syscall.SIGKILL)
				continue
			}
			for _, e := range readJournal(out) {
				if time.Since(e.Since) > limit && !o.hang {
					o.hang = true
					hung = e.Case
					kill(syscall.SIGQUIT)
					time.AfterFunc(3*time.Second, func() { kill(syscall.SIGKILL) })
				}
			}
		}
	}
	kill(syscall.SIGKILL) // what the worker left behind
	errf.Close()
	stderr, _ := os.ReadFile(filepath.Join(out, "stderr"))
	if os.Getenv("VH_DEBUG") != "" || os.Getenv("VH_SLOW") != "" {
		os.Stderr.Write(stderr)
	}
	if b, err := os.ReadFile(filepath.Join(out, "result.json")); err == nil {
		json.Unmarshal(b, &o.res)
	}
	if m, _ := filepath.Glob(filepath.Join(out, "race.*")); len(m) > 0 {
		for _, f := range m {
			b, _ := os.ReadFile(f)
			for _, r := range strings.Split(string(b), "==================") {
				if strings.Contains(r, "DATA RACE") {
					o.races = append(o.races, strings.TrimSpace(r))
				}
			}
		}
	}
	if i := bytes.Index(stderr, []byte("ERROR: AddressSanitizer")); i >= 0 {
		o.asan = clip(string(stderr[i:]), 2500)
	}
	if !o.res.Done {
		o.crash = fmt.Sprintf("worker ended before its work was done: %v", werr)
		if o.memory {
			o.crash = "memory use without bound"
		}
		if o.hang {
			o.crash = "no progress for " + limit.String()
		}
		o.crash += "\n" + excerpt(string(stderr))
		for _, e := range readJournal(out) {
			if hung == "" || e.Case == hung {
				o.flight = append(o.flight, e.Case)
			}
		}
	}
	return o
}

func readJournal(out string) []journalEntry {
	var l []journalEntry
	b, _ := os.ReadFile(filepath.Join(out, "journal.json"))
	json.Unmarshal(b, &l)
	return l
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func excerpt(s string) string {
	for _, k := range []string{"ERROR: AddressSanitizer", "fatal error:", "panic:", "SIGQUIT"} {
		if i := strings.Index(s, k); i >= 0 {
			return clip(s[i:], 2500)
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func runParent(prop, tier string, seed int64, d *propDef, root, build, replay string, jobs int) int {
	start := time.Now()
	var only []string
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var r struct {
			Case, Tier string
			Seed       int64
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if !strings.HasPrefix(r.Case, "post-") {
			only = []string{r.Case}
		}
		tier, seed = r.Tier, r.Seed
		os.Setenv("VERIF_SEED", strconv.FormatInt(seed, 10))
	}
	finds, err := loadFindings(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	total := workerResult{Obs: map[string]int64{}}
	var viols []Violation
	var incon []string
	limit, solo := watchdog, soloWatchdog
	if tier == "thorough" {
		limit, solo = 3*watchdog, 3*soloWatchdog
	}
	for _, v := range d.variants {
		o := runOnce(prop, tier, build, v, only, jobs, limit)
		if o.crash != "" && len(o.flight) == 0 && !o.res.Done {
			// nothing was running: the harness itself does not work, or the
			// code dies while the cases are prepared
			if strings.Contains(o.crash, "panic") || strings.Contains(o.crash, "fatal error") || o.asan != "" {
				viols = append(viols, Violation{"setup", "preparation of the cases", o.crash})
			} else {
				incon = append(incon, o.crash)
			}
			continue
		}
		if o.crash != "" {
			// which of the cases in flight is it?
			found := false
			for _, k := range o.flight {
				s := runOnce(prop, tier, build, v, []string{k}, 1, solo)
				if s.crash != "" {
					viols = append(viols, Violation{k, k, s.crash})
					found = true
					break
				}
				viols = append(viols, s.res.Viols...)
				if len(s.res.Viols) > 0 {
					found = true
					break
				}
			}
			if !found {
				if o.hang {
					incon = append(incon, "did not finish in time, but does alone: "+strings.Join(o.flight, ", "))
				} else {
					viols = append(viols, Violation{o.flight[0], "one of: " + strings.Join(o.flight, ", "), o.crash})
				}
			}
		}
		if o.asan != "" && o.crash == "" {
			viols = append(viols, Violation{"asan", "address sanitizer report", o.asan})
		}
		for i, r := range o.races {
			if i < 3 {
				viols = append(viols, Violation{fmt.Sprintf("race-%d", i), "race detector report", clip(r, 3000)})
			}
		}
		viols = append(viols, o.res.Viols...)
		incon = append(incon, o.res.Incon...)
		total.Evals += o.res.Evals
		if o.res.Distinct > total.Distinct {
			total.Distinct = o.res.Distinct
		}
		total.Cases += o.res.Cases
		for k, n := range o.res.Obs {
			total.Obs[k] += n
		}
		total.Obs["data_race_reports"] += int64(len(o.races))
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, o.res.Samples...)
		}
		if len(viols) > 0 {
			break
		}
	}

	// known findings are reported, not alarms
	var alarms []Violation
	for _, v := range viols {
		known := false
		for _, f := range finds {
			if f.prop == prop && f.re.MatchString(v.Case+" "+v.Message) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
				known = true
				break
			}
		}
		if !known {
			alarms = append(alarms, v)
		}
	}

	if len(total.Samples) > 12 {
		total.Samples = total.Samples[:12]
	}
	if total.Obs["data_race_reports"] == 0 {
		delete(total.Obs, "data_race_reports")
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": total.Distinct,
		"rule":                d.rule,
		"samples":             total.Samples,
		"cases":               total.Cases,
		"builds":              buildNames(d.variants),
	}
	for _, k := range sortedKeys(total.Obs) {
		cov["observed_"+k] = total.Obs[k]
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(alarms),
		"assumptions": d.assume,
	}
	if d.assume == nil {
		ev["assumptions"] = []string{}
	}
	if len(incon) > 0 {
		cov["inconclusive"] = incon
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	if replay == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	for i, v := range alarms {
		p := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": prop, "tier": tier, "seed": seed,
			"case": v.Case, "desc": v.Desc, "message": v.Message}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  case: %s\n  %s\n", clip(v.Desc, 400), strings.ReplaceAll(clip(v.Message, 1500), "\n", "\n  "))
	}
	if len(alarms) > 0 {
		return 1
	}
	if len(incon) > 0 {
		fmt.Printf("inconclusive: %s\n", strings.Join(incon, "\n"))
		return 2
	}
	if replay == "" && (total.Evals == 0 || total.Evals < d.minEvals) {
		fmt.Printf("inconclusive: only %d evaluations were observed\n", total.Evals)
		return 2
	}
	fmt.Printf("%s held on %d evaluations (%d distinct non-trivial, %d cases) in %.1f s\n",
		prop, total.Evals, total.Distinct, total.Cases, time.Since(start).Seconds())
	return 0
}

func buildNames(v []string) []string {
	var out []string
	for _, s := range v {
		switch s {
		case "":
			out = append(out, "plain")
		case "race":
			out = append(out, "race detector")
		case "asan":
			out = append(out, "address sanitizer")
		}
	}
	return out
}
