package engine

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// result of one child process that ran cases from..to.
type result struct {
	Done     bool
	Cases    int
	Keys     []uint64
	Trivial  int
	Classes  map[string]int
	Samples  []string
	Failed   bool
	Index    int
	Message  string
	Notes    []string
	Draws    []uint64
	Verified bool
}

const (
	exitFail   = 11
	exitHang   = 12
	exitMemory = 13
)

var caseStart int64 // wall clock, ns

func watchdog(maxCase time.Duration, maxRSS int64) {
	cpu := func() time.Duration {
		var u syscall.Rusage
		_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	var seen int64
	var cpuAt time.Duration
	page := int64(os.Getpagesize())
	for {
		time.Sleep(50 * time.Millisecond)
		if data, err := os.ReadFile("/proc/self/statm"); err == nil {
			var size, rss int64
			fmt.Sscan(string(data), &size, &rss)
			if rss*page > maxRSS {
				fmt.Fprintf(os.Stderr, "memory runaway: %d MB resident\n", rss*page>>20)
				os.Exit(exitMemory)
			}
		}
		start := atomic.LoadInt64(&caseStart)
		if start != seen {
			seen, cpuAt = start, cpu()
			continue
		}
		wall := time.Since(time.Unix(0, start))
		// a case is hung if it burned that much processor time, or did nothing for much longer
		if start != 0 && (cpu()-cpuAt > maxCase || wall > 6*maxCase) {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "hang: one case ran for %v (cpu %v)\n%s\n", wall, cpu()-cpuAt, buf[:n])
			os.Exit(exitHang)
		}
	}
}

func childSetup() {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
	go watchdog(caseLimit(), memLimit())
}

func caseLimit() time.Duration {
	if os.Getenv("VERIF_CONFIRM") != "" {
		return 40 * time.Second
	}
	return 20 * time.Second
}

func memLimit() int64 {
	return 2500 << 20
}

// worker runs cases from..to (exclusive) of a property, writing its result to out.
func worker(p *Prop, seed uint64, from, to int, out string) {
	childSetup()
	progress, err := os.Create(out + ".at")
	if err != nil {
		fatal(err)
	}
	res := &result{Classes: map[string]int{}}
	keys := map[uint64]bool{}
	var buf [8]byte
	for i := from; i < to; i++ {
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		_, _ = progress.WriteAt(buf[:], 0)
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		body, name := p.body(i)
		t := newRandom(seed, p.ID, i)
		msg := run(body, t)
		res.Cases++
		for k, v := range t.classes {
			res.Classes[k] += v
		}
		if msg != "" {
			res.Failed, res.Index, res.Message, res.Notes, res.Draws = true, i, msg, t.notes, t.drawn
			if name != "" {
				res.Message = name + ": " + msg
			}
			write(out, res)
			os.Exit(exitFail)
		}
		if t.hasKey {
			keys[t.key] = true
		} else {
			res.Trivial++
		}
		if len(res.Samples) < 4 && !t.trivial && len(t.notes) > 0 && i >= len(p.Fixed) {
			res.Samples = append(res.Samples, clip(strings.Join(t.notes, "\n"), 1200))
		}
	}
	atomic.StoreInt64(&caseStart, 0)
	for k := range keys {
		res.Keys = append(res.Keys, k)
	}
	res.Done = true
	write(out, res)
}

// record re-runs one case writing its draws as they are made, for cases that kill the process.
func record(p *Prop, seed uint64, index int, out string) {
	childSetup()
	atomic.StoreInt64(&caseStart, time.Now().UnixNano())
	f, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	t := newRandom(seed, p.ID, index)
	t.sink = f
	body, _ := p.body(index)
	if msg := run(body, t); msg != "" {
		fmt.Fprintln(os.Stderr, msg)
		os.Exit(exitFail)
	}
}

// replayCase runs given draws once; exit code exitFail if the property fails.
func replayCase(p *Prop, index int, draws []uint64, verbose bool) {
	childSetup()
	atomic.StoreInt64(&caseStart, time.Now().UnixNano())
	body, _ := p.body(index)
	t := newReplay(draws)
	msg := run(body, t)
	if verbose {
		for _, n := range t.notes {
			fmt.Println(n)
		}
	}
	if msg != "" {
		fmt.Println(msg)
		os.Exit(exitFail)
	}
	if verbose {
		fmt.Println("the property held")
	}
}

// shrinkChild minimises draws in this process; state is the file carrying the best and the tried sequence.
func shrinkChild(p *Prop, index int, draws []uint64, out string, deadline time.Time) {
	childSetup()
	body, _ := p.body(index)
	var want string
	fails := func(c []uint64) ([]uint64, bool) {
		write(out+".try", c)
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		t := newReplay(c)
		msg := run(body, t)
		if msg == "" {
			return nil, false
		}
		if want != "" && kindOf(msg) != want {
			return nil, false
		}
		used := t.drawn
		write(out, used)
		return used, true
	}
	t := newReplay(draws)
	want = kindOf(run(body, t))
	shrink(draws, fails, deadline)
	_ = os.Remove(out + ".try")
}

// kindOf keeps shrinking from drifting from one kind of failure to another.
func kindOf(msg string) string {
	if strings.HasPrefix(msg, "panic: ") {
		return "panic"
	}
	return "mismatch"
}

func write(path string, v interface{}) {
	data, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, data, 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		fatal(err)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(2)
}
