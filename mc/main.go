// Command mc is the model checker for tfhe-go: it enumerates executions of harnesses over the real library.
package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/core"
)

func seed() int {
	s, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc list|check|task|one|replay")
		os.Exit(2)
	}
	core.BaseSeed = uint64(seed())
	switch os.Args[1] {
	case "list":
		for _, h := range core.Registry {
			fmt.Printf("%s\t%s\t%s\n", h.Key(), strings.Join(h.Backends, ","), h.Bound)
		}
	case "task":
		task(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "rewrite":
		if err := rewrite(os.Args[2]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "serve":
		serve(os.Args[2])
	default:
		os.Exit(2)
	}
}

func task(args []string) {
	fs := flag.NewFlagSet("task", flag.ExitOnError)
	hk := fs.String("harness", "", "")
	tier := fs.String("tier", "quick", "")
	backend := fs.String("backend", "avx2", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	cur := fs.String("cursor", "", "")
	limit := fs.Float64("limit", 600, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	h := core.Find(*hk)
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", *hk)
		os.Exit(2)
	}
	if *cur != "" {
		if err := core.OpenCursor(*cur); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	core.OwnRandom()
	r, hs := core.RunTask(h, *tier, *backend, *shard, *shards, time.Now().Add(time.Duration(*limit*float64(time.Second))))
	b, _ := json.Marshal(r)
	hb := make([]byte, 8*len(hs))
	for i, v := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], v)
	}
	os.WriteFile(*out+".states", hb, 0o600)
	if err := os.WriteFile(*out, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func parseChoices(s string) []int {
	var ch []int
	for _, f := range strings.Split(s, ",") {
		if f == "" {
			continue
		}
		v, _ := strconv.Atoi(f)
		ch = append(ch, v)
	}
	return ch
}

func fmtChoices(c []int) string {
	s := make([]string, len(c))
	for i, v := range c {
		s[i] = strconv.Itoa(v)
	}
	return strings.Join(s, ",")
}

// one executes a single choice vector and prints its result as JSON.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	hk := fs.String("harness", "", "")
	tier := fs.String("tier", "quick", "")
	backend := fs.String("backend", "avx2", "")
	choices := fs.String("choices", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	h := core.Find(*hk)
	if h == nil {
		os.Exit(2)
	}
	core.OwnRandom()
	r := core.RunChoices(h, *tier, *backend, parseChoices(*choices))
	json.NewEncoder(os.Stdout).Encode(r)
}

type artefact struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Backend  string `json:"backend"`
	Tier     string `json:"tier"`
	Seed     int    `json:"seed"`
	Choices  []int  `json:"choices"`
	Trace    string `json:"trace"`
	Message  string `json:"message"`
	Stack    string `json:"stack,omitempty"`
	Mode     string `json:"mode"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	HowTo    string `json:"how_to_replay"`
}

var thePurego string

func bin(backend, purego string) string {
	if purego != "" {
		thePurego = purego
	}
	if backend == "purego" {
		return purego
	}
	self, _ := os.Executable()
	if backend == "sched" || backend == "race" {
		return filepath.Join(filepath.Dir(self), "mc-"+backend)
	}
	return self
}

func backendEnv(backend string) []string {
	env := append(os.Environ(), "MC_PUREGO="+thePurego)
	if backend == "race" {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66")
	}
	if o, ok := map[string]string{"cpuoff": "all", "noavx2": "avx2", "nofma": "fma"}[backend]; ok {
		env = append(env, "GODEBUG=cpu."+o+"=off")
	}
	return env
}

func runOneProc(a artefact, purego string, timeout time.Duration) (*core.TaskResult, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin(a.Backend, purego), "one", "-harness", a.Harness, "-tier", a.Tier, "-backend", a.Backend, "-choices", fmtChoices(a.Choices))
	cmd.Env = backendEnv(a.Backend)
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return nil, "hang"
	}
	if err != nil {
		return nil, "crash: " + err.Error()
	}
	var r core.TaskResult
	if json.Unmarshal(out, &r) != nil {
		return nil, "crash: bad output"
	}
	return &r, ""
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	purego := fs.String("purego", "", "")
	scratch := fs.String("scratch", "", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "only harnesses whose name contains this")
	budget := fs.Float64("budget", 0, "seconds")
	level := fs.String("level", "model_checking", "")
	extra := fs.String("extra", "", "extra evidence JSON file merged into coverage")
	fs.Parse(args)
	start := time.Now()
	if *budget == 0 {
		*budget = 420
		if *tier == "thorough" {
			*budget = 780
		}
	}
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))

	type job struct {
		h       *core.Harness
		backend string
		shard   int
	}
	var jobs []job
	nh := map[string]bool{}
	for _, h := range core.Registry {
		if h.Prop != *prop || (h.ThoroughOnly && *tier != "thorough") || (*only != "" && !strings.Contains(h.Name, *only)) {
			continue
		}
		nh[h.Key()] = true
		for _, b := range h.Backends {
			if only := os.Getenv("MC_BACKENDS"); only != "" && !strings.Contains(only, b) { // for development
				continue
			}
			for s := 0; s < h.Shards; s++ {
				jobs = append(jobs, job{h, b, s})
			}
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	// interleave so that every harness gets started before the deadline
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].shard < jobs[j].shard })

	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	var mu sync.Mutex
	next := 0
	stop := false
	var results []*core.TaskResult
	states := map[uint64]struct{}{}
	var cands []artefact
	var skipped int
	var procs []*exec.Cmd
	errs := []string{}
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				id := next
				next++
				remJobs := len(jobs) - id
				mu.Unlock()
				left := time.Until(deadline).Seconds()
				if left < 1 {
					mu.Lock()
					skipped++
					mu.Unlock()
					continue
				}
				// a shard may use its fair share of what is left, but never less than 10 s
				share := left * float64(par) / float64(remJobs) * 4
				if share > left {
					share = left
				}
				if share < 10 {
					share = 10
				}
				out := filepath.Join(*scratch, fmt.Sprintf("t%d.json", id))
				cur := filepath.Join(*scratch, fmt.Sprintf("t%d.cur", id))
				cmd := exec.Command(bin(j.backend, *purego), "task", "-harness", j.h.Key(), "-tier", *tier, "-backend", j.backend,
					"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.h.Shards), "-out", out, "-cursor", cur, "-limit", fmt.Sprintf("%.1f", share))
				cmd.Env = backendEnv(j.backend)
				var errb strings.Builder
				cmd.Stderr = &errb
				cmd.Stdout = &errb
				art := artefact{Property: *prop, Harness: j.h.Key(), Backend: j.backend, Tier: *tier, Seed: seed(), Shard: j.shard, Shards: j.h.Shards}
				err := cmd.Start()
				mu.Lock()
				procs = append(procs, cmd)
				mu.Unlock()
				hung := false
				if err == nil {
					done := make(chan error, 1)
					go func() { done <- cmd.Wait() }()
					last, lastT := uint32(0), time.Now()
				wait:
					for {
						select {
						case err = <-done:
							break wait
						case <-time.After(500 * time.Millisecond):
							_, p := core.ReadCursor(cur)
							if p != last {
								last, lastT = p, time.Now()
							} else if time.Since(lastT) > 150*time.Second {
								hung = true
								cmd.Process.Kill()
								err = <-done
								break wait
							}
						}
					}
				}
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				b, rerr := os.ReadFile(out)
				var r core.TaskResult
				if err == nil && rerr == nil && json.Unmarshal(b, &r) == nil {
					if sb, e := os.ReadFile(out + ".states"); e == nil && len(states) < 4<<20 {
						for i := 0; i+8 <= len(sb); i += 8 {
							states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
						}
					}
					results = append(results, &r)
					if r.HarnessErr {
						errs = append(errs, j.h.Key()+": "+r.Message+"\n"+r.Stack)
						stop = true
					} else if r.Failed {
						art.Choices, art.Trace, art.Message, art.Stack = r.Choices, r.Trace, r.Message, r.Stack
						cands = append(cands, art)
						stop = true
					}
				} else {
					art.Choices, _ = core.ReadCursor(cur)
					art.Message = "process died"
					if hung {
						art.Message = "no progress for 150 s (hang)"
					}
					es := errb.String()
					if len(es) > 3000 {
						es = es[:3000]
					}
					art.Stack = es
					cands = append(cands, art)
					stop = true
				}
				if stop {
					for _, p := range procs {
						if p != cmd && p.Process != nil && p.ProcessState == nil {
							p.Process.Kill()
						}
					}
				}
				os.Remove(out)
				os.Remove(out + ".states")
				os.Remove(cur)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(errs, "\n"))
		return 2
	}

	var violation *artefact
	for i := range cands {
		a := cands[i]
		// confirm in fresh processes: the single execution, repeatedly
		ok := 0
		for k := 0; k < 3; k++ {
			r, bad := runOneProc(a, *purego, 170*time.Second)
			if bad != "" || (r != nil && r.Failed && !r.HarnessErr) {
				ok++
				if r != nil {
					a.Message, a.Trace, a.Stack = r.Message, r.Trace, r.Stack
				}
				if bad == "hang" {
					break
				}
			} else {
				break
			}
		}
		if ok > 0 {
			a.Mode = "single"
			violation = &a
			break
		}
		// not reproducible alone: it depends on earlier executions of the same process; re-run the shard prefix
		cnt := 0
		for k := 0; k < 2; k++ {
			out := filepath.Join(*scratch, "confirm.json")
			cmd := exec.Command(bin(a.Backend, *purego), "task", "-harness", a.Harness, "-tier", *tier, "-backend", a.Backend,
				"-shard", strconv.Itoa(a.Shard), "-shards", strconv.Itoa(a.Shards), "-out", out, "-limit", "300")
			cmd.Env = backendEnv(a.Backend)
			err := cmd.Run()
			b, _ := os.ReadFile(out)
			var r core.TaskResult
			if err != nil || (json.Unmarshal(b, &r) == nil && r.Failed) {
				cnt++
			}
			os.Remove(out)
			os.Remove(out + ".states")
		}
		if cnt == 2 {
			a.Mode = "shard"
			violation = &a
			break
		}
		fmt.Fprintf(os.Stderr, "discarded unreproducible failure of %s: %s\n", a.Harness, a.Message)
	}

	// evidence
	var ex, steps int64
	exhaustive := skipped == 0 && len(cands) == 0
	outcomes := map[string]int64{}
	per := map[string]map[string]any{}
	var samples []string
	for _, r := range results {
		ex += r.Executions
		steps += r.Steps
		if !r.Complete {
			exhaustive = false
		}
		for k, v := range r.Outcomes {
			outcomes[k] += v
		}
		key := r.Harness
		if per[key] == nil {
			h := core.Find(key)
			per[key] = map[string]any{"bound": h.Bound, "executions": int64(0), "transitions": int64(0), "complete_shards": 0, "shards": 0, "backends": h.Backends}
		}
		per[key]["executions"] = per[key]["executions"].(int64) + r.Executions
		per[key]["transitions"] = per[key]["transitions"].(int64) + r.Steps
		per[key]["shards"] = per[key]["shards"].(int) + 1
		if r.Complete {
			per[key]["complete_shards"] = per[key]["complete_shards"].(int) + 1
		}
		if len(samples) < 24 && len(r.Samples) > 0 {
			samples = append(samples, r.Harness+"@"+r.Backend+": "+r.Samples[len(r.Samples)-1])
		}
	}
	keys := make([]string, 0, len(outcomes))
	for k := range outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	oc := map[string]int64{}
	for i, k := range keys {
		if i < 60 || os.Getenv("MC_ALL") != "" {
			oc[k] = outcomes[k]
		}
	}
	cov := map[string]any{
		"samples": samples, "harnesses": per, "exhaustive": exhaustive,
		"distinct_outcomes": len(outcomes), "outcomes": oc,
	}
	rule := "one case per complete path of the choice tree of a harness, replayed on the implementation; distinct by the hash of the model-visible state(s) it checks"
	if *level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = ex
		cov["rule"] = rule
	} else {
		cov["evaluations"] = ex
		cov["distinct_nontrivial"] = len(states)
		cov["rule"] = rule
		cov["transitions"] = steps
	}
	if *extra != "" {
		if b, err := os.ReadFile(*extra); err == nil {
			var m map[string]any
			if json.Unmarshal(b, &m) == nil {
				for k, v := range m {
					if n, ok := v.(float64); ok && k != "schedules" {
						if old, ok := cov[k].(int64); ok {
							cov[k] = old + int64(n)
							continue
						}
						if old, ok := cov[k].(int); ok {
							cov[k] = int64(old) + int64(n)
							continue
						}
					}
					cov[k] = v
				}
			}
		}
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed(), "level": *level, "coverage": cov, "wall_s": time.Since(start).Seconds()}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: harnesses=%d executions=%d transitions=%d states=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		*prop, *tier, len(nh), ex, steps, len(states), len(outcomes), exhaustive, time.Since(start).Seconds())
	if violation != nil {
		violation.HowTo = "bash /verif/check.sh replay <this file>"
		dir := filepath.Join(*verif, "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, *prop+".json")
		vb, _ := json.MarshalIndent(violation, "", " ")
		os.WriteFile(p, vb, 0o644)
		fmt.Printf("harness %s backend %s\n  %s\n  %s\n", violation.Harness, violation.Backend, violation.Message, violation.Trace)
		if violation.Stack != "" {
			fmt.Printf("%s\n", violation.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		return 1
	}
	return 0
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	purego := fs.String("purego", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var a artefact
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if a.Mode == "shard" {
		fmt.Println("this violation needs the executions before it; re-run the shard:")
		cmd := exec.Command(bin(a.Backend, *purego), "task", "-harness", a.Harness, "-tier", a.Tier, "-backend", a.Backend,
			"-shard", strconv.Itoa(a.Shard), "-shards", strconv.Itoa(a.Shards), "-out", "/dev/stdout")
		cmd.Env = backendEnv(a.Backend)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Run()
		return 1
	}
	r, bad := runOneProc(a, *purego, 170*time.Second)
	if bad != "" {
		fmt.Println(bad)
		return 1
	}
	fmt.Printf("failed=%v\n%s\n%s\n%s\n", r.Failed, r.Message, r.Trace, r.Stack)
	if r.Failed {
		return 1
	}
	return 0
}
