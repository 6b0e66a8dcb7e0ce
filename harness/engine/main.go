package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// replayFile is what a VIOLATION line points at.
type replayFile struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"` // case: the draws of one case; cases: a run of cases in one process
	Index    int      `json:"index"`
	Draws    []uint64 `json:"draws,omitempty"`
	Seed     uint64   `json:"seed"`
	From     int      `json:"from,omitempty"`
	To       int      `json:"to,omitempty"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	Original []string `json:"original_case,omitempty"`
}

// Main is the entry point of the harness binary.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID quick|thorough | replay FILE | list -")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range IDs() {
			fmt.Println(id)
		}
		return
	case "replay":
		replayMain(os.Args[2])
		return
	}
	p := Find(os.Args[2])
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	args := os.Args[3:]
	atoi := func(i int) int { v, _ := strconv.Atoi(args[i]); return v }
	switch os.Args[1] {
	case "run":
		runMain(p, args[0])
	case "worker":
		worker(p, envSeed(), atoi(0), atoi(1), args[2])
	case "record":
		record(p, envSeed(), atoi(0), args[1])
	case "guided":
		guided(p, envSeed(), atoi(0), time.Duration(atoi(1))*time.Second, args[2])
	case "recordguided":
		recordGuided(p, args[0], args[1])
	case "case":
		replayCase(p, atoi(0), readDraws(args[1]), true)
	case "shrink":
		shrinkChild(p, atoi(0), readDraws(args[1]), args[2], time.Now().Add(time.Duration(atoi(3))*time.Second))
	default:
		os.Exit(2)
	}
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func readDraws(path string) []uint64 {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var draws []uint64
	if json.Unmarshal(data, &draws) == nil {
		return draws
	}
	for _, l := range strings.Fields(string(data)) {
		v, err := strconv.ParseUint(l, 10, 64)
		if err != nil {
			fatal(err)
		}
		draws = append(draws, v)
	}
	return draws
}

type child struct {
	code   int // exit code, -1 when killed by a signal
	stdout string
	stderr string
	state  string
}

func spawn(timeout time.Duration, env []string, args ...string) child {
	return spawnBinary(os.Args[0], timeout, env, args...)
}

func spawnBinary(binary string, timeout time.Duration, env []string, args ...string) child {
	cmd := exec.Command(binary, args...)
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66"), env...)
	if p := Find(args[1]); p != nil {
		cmd.Env = append(cmd.Env, p.Env...)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{buf: &se}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	timer := time.AfterFunc(timeout, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	timer.Stop()
	return child{cmd.ProcessState.ExitCode(), so.String(), se.String(), cmd.ProcessState.String()}
}

type limited struct{ buf *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.buf.Len() < 1<<16 {
		l.buf.Write(p)
	}
	return len(p), nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runMain(p *Prop, tier string) {
	start := time.Now()
	seed := envSeed()
	total := p.Quick
	budget := 500 * time.Second
	if tier == "thorough" {
		total = p.Thorough
		budget = 6 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil {
		total = v
	}
	total += len(p.Fixed)
	work, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fatal(err)
	}
	code := 0
	defer func() {
		_ = os.RemoveAll(work)
		os.Exit(code)
	}()

	type job struct{ from, to int }
	var jobs []job
	if f := len(p.Fixed); f > 0 {
		jobs = append(jobs, job{0, f})
	}
	for i := len(p.Fixed); i < total; i += p.Chunk {
		end := i + p.Chunk
		if end > total {
			end = total
		}
		jobs = append(jobs, job{i, end})
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if p.Serial {
		workers = 1
	}

	var mu sync.Mutex
	next := 0
	merged := &result{Classes: map[string]int{}}
	keys := map[uint64]bool{}
	var bad *replayFile
	harnessErr := ""
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || bad != nil || harnessErr != "" || time.Since(start) > budget {
					mu.Unlock()
					return
				}
				j := jobs[next]
				n := next
				next++
				mu.Unlock()
				out := filepath.Join(work, fmt.Sprintf("out%d", n))
				var res *result
				var c child
				for attempt := 0; attempt < 3; attempt++ {
					c = spawn(30*time.Minute, nil, "worker", p.ID, strconv.Itoa(j.from), strconv.Itoa(j.to), out)
					res = readResult(out)
					if res != nil || !outside(c) {
						break
					}
				}
				if res != nil && res.Done && c.code == 0 {
					mu.Lock()
					merged.Cases += res.Cases
					merged.Trivial += res.Trivial
					for _, k := range res.Keys {
						keys[k] = true
					}
					for k, v := range res.Classes {
						merged.Classes[k] += v
					}
					if len(merged.Samples) < 6 {
						merged.Samples = append(merged.Samples, res.Samples...)
					}
					mu.Unlock()
					_ = os.Remove(out)
					continue
				}
				rf, problem := diagnose(p, seed, j.from, j.to, out, res, c)
				mu.Lock()
				if rf != nil && (bad == nil || rf.Index < bad.Index) {
					bad = rf
				}
				if rf == nil && problem != "" && harnessErr == "" {
					harnessErr = problem
				}
				mu.Unlock()
				return
			}
		}(w)
	}
	wg.Wait()

	var guidedStats map[string]interface{}
	if binary := os.Getenv("VERIF_COV"); binary != "" && bad == nil && harnessErr == "" && !p.Serial {
		limit := 600
		if v, err := strconv.Atoi(os.Getenv("VERIF_GUIDED")); err == nil {
			limit = v
		}
		guidedStats, bad, harnessErr = runGuided(p, binary, seed, time.Duration(limit)*time.Second, work)
	}

	if bad != nil {
		minimise(p, bad, work)
		dir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, bad.Index))
		data, _ := json.MarshalIndent(bad, "", " ")
		_ = os.WriteFile(path, data, 0o644)
		fmt.Printf("property %s does not hold:\n%s\n", p.ID, clip(bad.Message, 4000))
		for _, n := range bad.Case {
			fmt.Println("  |", clip(n, 2000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	} else if harnessErr != "" {
		fmt.Println("check error:", harnessErr)
		code = 2
	}

	if len(merged.Samples) > 6 {
		merged.Samples = merged.Samples[:6]
	}
	if len(merged.Samples) == 0 {
		merged.Samples = append(merged.Samples, "none kept")
	}
	classes := make([]string, 0, len(merged.Classes))
	for k := range merged.Classes {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	byClass := map[string]int{}
	for _, k := range classes {
		byClass[k] = merged.Classes[k]
	}
	evidence := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(start).Seconds(),
		"coverage": map[string]interface{}{
			"evaluations":         merged.Cases,
			"distinct_nontrivial": len(keys),
			"trivial":             merged.Trivial,
			"planned":             total,
			"fixed_examples":      len(p.Fixed),
			"rule":                p.Rule,
			"classes":             byClass,
			"samples":             merged.Samples,
		},
	}
	if guidedStats != nil {
		evidence["coverage"].(map[string]interface{})["coverage_guided"] = guidedStats
	}
	data, _ := json.MarshalIndent(evidence, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), data, 0o644); err != nil {
		fatal(err)
	}
	if code == 0 {
		if guidedStats != nil {
			fmt.Printf("%s: coverage-guided search: %v\n", p.ID, guidedStats)
		}
		fmt.Printf("%s: property held on %d cases (%d distinct non-trivial) in %.1fs\n", p.ID, merged.Cases, len(keys), time.Since(start).Seconds())
	}
}

// outside says that the process was ended by something other than the code under test.
func outside(c child) bool {
	if c.code == exitFail || c.code == exitHang || c.code == exitMemory {
		return false
	}
	return c.code == -1 && !strings.Contains(c.stderr, "goroutine ") // killed without a word
}

func readResult(out string) *result {
	data, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	res := &result{}
	if json.Unmarshal(data, res) != nil {
		return nil
	}
	return res
}

// diagnose turns an unhappy end of a worker into a replay, confirming deaths in a fresh process.
func diagnose(p *Prop, seed uint64, from, to int, out string, res *result, c child) (*replayFile, string) {
	if res != nil && res.Failed {
		return &replayFile{Property: p.ID, Kind: "case", Index: res.Index, Draws: res.Draws, Seed: seed,
			From: from, To: res.Index + 1, Message: res.Message, Case: res.Notes}, ""
	}
	if c.code == 2 && strings.Contains(c.stderr, "harness error:") {
		return nil, clip(c.stderr, 500)
	}
	index := from
	if data, err := os.ReadFile(out + ".at"); err == nil && len(data) == 8 {
		index = int(binary.LittleEndian.Uint64(data))
	}
	why := clip(c.state+"\n"+c.stderr, 3000)
	// confirm in a fresh process, first the case alone
	draws := out + ".draws"
	r := spawn(10*time.Minute, []string{"VERIF_CONFIRM=1"}, "record", p.ID, strconv.Itoa(index), draws)
	if r.code != 0 && !outside(r) {
		return &replayFile{Property: p.ID, Kind: "case", Index: index, Draws: readDraws(draws), Seed: seed,
			From: from, To: index + 1, Message: "the process died: " + why}, ""
	}
	for i := 0; i < 3; i++ { // then the whole history of the process
		again := out + ".again"
		_ = os.Remove(again)
		c2 := spawn(20*time.Minute, []string{"VERIF_CONFIRM=1"}, "worker", p.ID, strconv.Itoa(from), strconv.Itoa(to), again)
		if res := readResult(again); res != nil && res.Failed {
			return &replayFile{Property: p.ID, Kind: "case", Index: res.Index, Draws: res.Draws, Seed: seed,
				From: from, To: res.Index + 1, Message: res.Message, Case: res.Notes}, ""
		}
		if c2.code != 0 && !outside(c2) {
			return &replayFile{Property: p.ID, Kind: "cases", Index: index, Seed: seed, From: from, To: to,
				Message: "the process died: " + why}, ""
		}
	}
	if strings.Contains(c.stderr, "fatal error:") || strings.Contains(c.stderr, "SIGSEGV") || strings.Contains(c.stderr, "DATA RACE") {
		return &replayFile{Property: p.ID, Kind: "cases", Index: index, Seed: seed, From: from, To: to,
			Message: "the process died (not reproduced in 3 more runs): " + why}, ""
	}
	return nil, "a worker died and the death could not be reproduced: " + why
}

// minimise shrinks the failing case and checks that it fails in a process of its own.
func minimise(p *Prop, rf *replayFile, work string) {
	rf.Original = rf.Case
	if rf.Kind != "case" {
		return
	}
	in, best := filepath.Join(work, "in"), filepath.Join(work, "best")
	write(in, rf.Draws)
	alone := spawn(5*time.Minute, nil, "case", p.ID, strconv.Itoa(rf.Index), in)
	if alone.code == 0 {
		rf.Kind = "cases" // it needs the history of its process
		rf.Draws = nil
		return
	}
	deadline := time.Now().Add(40 * time.Second)
	current := rf.Draws
	for round := 0; round < 60 && time.Now().Before(deadline); round++ {
		_ = os.Remove(best)
		left := int(time.Until(deadline).Seconds()) + 1
		c := spawn(time.Duration(left+60)*time.Second, nil, "shrink", p.ID, strconv.Itoa(rf.Index), in, best, strconv.Itoa(left))
		better := current
		if _, err := os.Stat(best); err == nil {
			better = readDraws(best)
		}
		if c.code != 0 { // the tried sequence killed the process: that is a failure as well
			if tried, err := os.Stat(best + ".try"); err == nil && tried.Size() > 0 {
				seq := readDraws(best + ".try")
				if len(seq) < len(better) || sum(seq) < sum(better) {
					better = seq
				} else {
					break
				}
			}
		}
		if len(better) == len(current) && sum(better) == sum(current) && round > 0 {
			break
		}
		current = better
		write(in, current)
		if c.code == 0 {
			break
		}
	}
	write(in, current)
	final := spawn(5*time.Minute, nil, "case", p.ID, strconv.Itoa(rf.Index), in)
	if final.code == 0 {
		return // keep the original draws
	}
	rf.Draws = current
	lines := strings.Split(strings.TrimRight(final.stdout, "\n"), "\n")
	rf.Case = nil
	if final.code == exitFail {
		rf.Case = lines
		rf.Message = "shrunk case:\n" + clip(final.stdout, 4000)
	} else {
		rf.Message = "the process died: " + clip(final.state+"\n"+final.stderr, 3000)
	}
}

func sum(xs []uint64) (s float64) {
	for _, x := range xs {
		s += float64(x)
	}
	return s
}

// replayMain re-runs a replay file: exit 1 if the property fails again.
func replayMain(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(data, rf); err != nil {
		fatal(err)
	}
	p := Find(rf.Property)
	if p == nil {
		fatal(fmt.Errorf("unknown property %v", rf.Property))
	}
	work, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(work)
	var c child
	if rf.Kind == "case" {
		in := filepath.Join(work, "in")
		write(in, rf.Draws)
		c = spawn(10*time.Minute, nil, "case", p.ID, strconv.Itoa(rf.Index), in)
	} else {
		out := filepath.Join(work, "out")
		c = spawn(30*time.Minute, []string{fmt.Sprintf("VERIF_SEED=%d", rf.Seed)}, "worker", p.ID, strconv.Itoa(rf.From), strconv.Itoa(rf.To), out)
		if res := readResult(out); res != nil && res.Failed {
			fmt.Println(strings.Join(res.Notes, "\n"))
			fmt.Println(res.Message)
		}
	}
	fmt.Print(c.stdout)
	if c.code != 0 {
		fmt.Print(clip(c.stderr, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		_ = os.RemoveAll(work)
		os.Exit(1)
	}
}
