package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Coverage-guided search over the draws of a case: sequences that made the code under test execute a
// block, or a block a number of times, not seen before are kept and mutated. It runs in a binary built
// with -cover, as a second phase of the thorough tier.

// guidedInput is one input of the guided search: draws to begin with, random ones follow.
type guidedInput struct {
	Data []uint64
	Rng  uint64
}

func (g guidedInput) t() *T {
	return &T{data: g.Data, prefix: true, rng: g.Rng, trivial: true, classes: map[string]int{}}
}

type guidedStats struct {
	Cases  int
	Corpus int
	Blocks []uint64
	Bits   int
}

// guidedResult is the result of a worker of the guided search.
type guidedResult struct {
	result
	Stats guidedStats
}

// counters calls f with every executed block since the counters were cleared and how often it was.
func counters(buf *bytes.Buffer, f func(block uint64, count uint64)) error {
	buf.Reset()
	if err := coverage.WriteCounters(buf); err != nil {
		return err
	}
	data := buf.Bytes()
	const header, segment = 32, 16
	if len(data) < header+segment || data[24] != 2 {
		return fmt.Errorf("unexpected format of coverage counters")
	}
	functions := binary.LittleEndian.Uint64(data[header:])
	skip := int(binary.LittleEndian.Uint32(data[header+8:])) + int(binary.LittleEndian.Uint32(data[header+12:]))
	at := (header + segment + skip + 3) &^ 3
	next := func() uint64 {
		v, n := binary.Uvarint(data[at:])
		if n <= 0 {
			panic("engine: truncated coverage counters")
		}
		at += n
		return v
	}
	for i := uint64(0); i < functions; i++ {
		blocks, pkg, function := next(), next(), next()
		for j := uint64(0); j < blocks; j++ {
			if count := next(); count > 0 {
				f(pkg<<40|function<<20|j, count)
			}
		}
	}
	return nil
}

// bucket maps counts to one of 8 classes.
func bucket(count uint64) uint8 {
	switch {
	case count <= 3:
		return 1 << (count - 1)
	case count <= 7:
		return 1 << 3
	case count <= 15:
		return 1 << 4
	case count <= 31:
		return 1 << 5
	case count <= 127:
		return 1 << 6
	}
	return 1 << 7
}

// guided searches for the given time, writing its result to out.
func guided(p *Prop, seed uint64, worker int, limit time.Duration, out string) {
	childSetup()
	last, err := os.Create(out + ".at")
	if err != nil {
		fatal(err)
	}
	rng := seedOf(seed, p.ID+"/guided", worker)
	draw := func(n int) int { return int(splitmix(&rng) % uint64(n)) }
	res := &guidedResult{result: result{Classes: map[string]int{}}}
	seen := map[uint64]uint8{}
	keys := map[uint64]bool{}
	var corpus [][]uint64
	var buf bytes.Buffer
	mutate := func() []uint64 {
		pick := func() []uint64 {
			if n := len(corpus); draw(2) == 0 && n > 64 { // the newest are the most promising
				return corpus[n-1-draw(64)]
			}
			return corpus[draw(len(corpus))]
		}
		data := append([]uint64(nil), pick()...)
		for n := 1 + draw(4); n > 0 && len(data) > 0; n-- {
			i := draw(len(data))
			switch draw(7) {
			case 0:
				data[i] = splitmix(&rng)
			case 1:
				data[i]++
			case 2:
				if data[i] > 0 {
					data[i]--
				}
			case 3:
				data = data[:i] // a random end
			case 4:
				end := i + 1 + draw(8)
				if end > len(data) {
					end = len(data)
				}
				data = append(data[:i], data[end:]...)
			case 5: // a part of another one
				other := pick()
				if len(other) == 0 {
					continue
				}
				from := draw(len(other))
				to := from + 1 + draw(32)
				if to > len(other) {
					to = len(other)
				}
				data = append(append(append([]uint64(nil), data[:i]...), other[from:to]...), data[i:]...)
			case 6: // the end of another one
				other := pick()
				if len(other) > i {
					data = append(data[:i], other[i:]...)
				}
			}
		}
		return data
	}
	deadline := time.Now().Add(limit)
	for time.Now().Before(deadline) {
		if res.Cases%64 == 0 {
			if _, err := os.Stat(filepath.Join(filepath.Dir(out), "stop")); err == nil {
				break
			}
		}
		in := guidedInput{Rng: splitmix(&rng)}
		if len(corpus) > 0 && draw(10) > 0 {
			in.Data = mutate()
		}
		data, _ := json.Marshal(in)
		_ = last.Truncate(0)
		_, _ = last.WriteAt(data, 0)
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		t := in.t()
		if err := coverage.ClearCounters(); err != nil {
			fatal(err)
		}
		msg := run(p.Run, t)
		res.Cases++
		if msg != "" {
			res.Failed, res.Index, res.Message, res.Notes, res.Draws = true, len(p.Fixed), msg, t.notes, t.drawn
			write(out, res)
			os.Exit(exitFail)
		}
		if t.hasKey {
			keys[t.key] = true
		} else {
			res.Trivial++
		}
		novel := false
		if err := counters(&buf, func(block, count uint64) {
			if b := bucket(count); seen[block]&b == 0 {
				seen[block] |= b
				res.Stats.Bits++
				novel = true
			}
		}); err != nil {
			fatal(err)
		}
		if novel && len(t.drawn) < 20000 {
			corpus = append(corpus, t.drawn)
		}
	}
	atomic.StoreInt64(&caseStart, 0)
	for k := range keys {
		res.Keys = append(res.Keys, k)
	}
	res.Stats.Cases, res.Stats.Corpus = res.Cases, len(corpus)
	for block := range seen {
		res.Stats.Blocks = append(res.Stats.Blocks, block)
	}
	res.Done = true
	write(out, res)
}

// recordGuided re-runs one input of the guided search writing its draws as they are made.
func recordGuided(p *Prop, in string, out string) {
	childSetup()
	data, err := os.ReadFile(in)
	if err != nil {
		fatal(err)
	}
	var input guidedInput
	if err := json.Unmarshal(data, &input); err != nil {
		fatal(err)
	}
	f, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	atomic.StoreInt64(&caseStart, time.Now().UnixNano())
	t := input.t()
	t.sink = f
	if msg := run(p.Run, t); msg != "" {
		fmt.Fprintln(os.Stderr, msg)
		os.Exit(exitFail)
	}
}

// runGuided runs workers of the guided search and returns what they covered, a failing case if any, and the reason why
// there is no answer.
func runGuided(p *Prop, binary string, seed uint64, limit time.Duration, work string) (map[string]interface{}, *replayFile, string) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var bad *replayFile
	problem := ""
	cases, corpus, bits := 0, 0, 0
	keys, blocks := map[uint64]bool{}, map[uint64]bool{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("guided%d", w))
			c := spawnBinary(binary, limit+20*time.Minute, []string{"GOCOVERDIR=" + work}, "guided", p.ID, strconv.Itoa(w), strconv.Itoa(int(limit.Seconds())), out)
			res := &guidedResult{}
			data, err := os.ReadFile(out)
			if err != nil || json.Unmarshal(data, res) != nil {
				res = nil
			}
			mu.Lock()
			defer mu.Unlock()
			defer func() {
				if bad != nil || problem != "" {
					_ = os.WriteFile(filepath.Join(work, "stop"), nil, 0o644)
				}
			}()
			switch {
			case res != nil && res.Failed:
				bad = &replayFile{Property: p.ID, Kind: "case", Index: res.Index, Draws: res.Draws, Seed: seed,
					From: res.Index, To: res.Index + 1, Message: res.Message, Case: res.Notes}
			case res != nil && res.Done && c.code == 0:
				cases += res.Stats.Cases
				corpus += res.Stats.Corpus
				bits += res.Stats.Bits
				for _, k := range res.Keys {
					keys[k] = true
				}
				for _, b := range res.Stats.Blocks {
					blocks[b] = true
				}
			default:
				draws := out + ".draws"
				r := spawn(10*time.Minute, []string{"VERIF_CONFIRM=1"}, "recordguided", p.ID, out+".at", draws)
				if r.code != 0 && !outside(r) {
					bad = &replayFile{Property: p.ID, Kind: "case", Index: len(p.Fixed), Draws: readDraws(draws), Seed: seed,
						From: len(p.Fixed), To: len(p.Fixed) + 1, Message: "the process died: " + clip(c.state+"\n"+c.stderr, 3000)}
				} else if problem == "" {
					problem = "a guided worker died and the death could not be reproduced: " + clip(c.state+"\n"+c.stderr, 3000)
				}
			}
		}(w)
	}
	wg.Wait()
	stats := map[string]interface{}{"evaluations": cases, "distinct_nontrivial": len(keys), "corpus": corpus, "blocks_executed": len(blocks),
		"blocks_and_counts": bits, "seconds": limit.Seconds(), "workers": workers}
	return stats, bad, problem
}
