// Package engine is a small property-based testing engine: every random decision of a generator is
// a recorded bounded draw, so that a failing case is a sequence of numbers which can be replayed and
// shrunk without knowing what the generator makes of it.
package engine

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
)

// T is one generated case.
type T struct {
	data    []uint64
	pos     int
	replay  bool
	prefix  bool // draws of data first, random ones after
	rng     uint64
	drawn   []uint64
	sink    *os.File
	notes   []string
	key     uint64
	hasKey  bool
	trivial bool
	classes map[string]int
}

type failure struct{ msg string }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedOf(seed uint64, id string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, index)
	return h.Sum64()
}

func newRandom(seed uint64, id string, index int) *T {
	return &T{rng: seedOf(seed, id, index), trivial: true, classes: map[string]int{}}
}

func newReplay(data []uint64) *T {
	return &T{data: data, replay: true, trivial: true, classes: map[string]int{}}
}

// Uint draws a number below n; 0 is the simplest.
func (t *T) Uint(n uint64) uint64 {
	if n == 0 {
		panic("engine: empty draw")
	}
	var v uint64
	if t.replay || (t.prefix && t.pos < len(t.data)) {
		if t.pos < len(t.data) {
			v = t.data[t.pos]
			if v >= n {
				v %= n
			}
		}
		t.pos++
	} else {
		v = splitmix(&t.rng) % n
	}
	t.drawn = append(t.drawn, v)
	if t.sink != nil {
		fmt.Fprintf(t.sink, "%d\n", v)
	}
	return v
}

// Bits draws any 64 bits.
func (t *T) Bits() uint64 {
	hi := t.Uint(1 << 32)
	return hi<<32 | t.Uint(1<<32)
}

// Int draws from lo..hi inclusive, lo is the simplest.
func (t *T) Int(lo, hi int) int { return lo + int(t.Uint(uint64(hi-lo)+1)) }

func (t *T) Bool() bool { return t.Uint(2) == 1 }

// Chance is true in num of den cases; false is the simplest.
func (t *T) Chance(num, den int) bool { return t.Uint(uint64(den)) >= uint64(den-num) }

// More drives loops: it says whether to add one more element, up to max, about avg of them.
func (t *T) More(have, max, avg int) bool {
	if have >= max {
		return false
	}
	return t.Chance(avg, avg+1)
}

// Small draws from 0..max, small values being much more likely.
func (t *T) Small(max int) int {
	for hi := 3; hi < max; hi *= 4 {
		if !t.Chance(1, 3) {
			return t.Int(0, hi)
		}
	}
	return t.Int(0, max)
}

func (t *T) Weighted(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := int(t.Uint(uint64(sum)))
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

func Pick[V any](t *T, values ...V) V { return values[t.Uint(uint64(len(values)))] }

// Note describes the case for humans.
func (t *T) Note(format string, args ...interface{}) {
	t.notes = append(t.notes, fmt.Sprintf(format, args...))
}

// Notes are the notes of the case.
func (t *T) Notes() []string { return t.notes }

// Fail reports that the property does not hold for this case.
func (t *T) Fail(format string, args ...interface{}) { panic(failure{fmt.Sprintf(format, args...)}) }

// NonTrivial marks the case as non-trivial; the case counts as distinct by its key.
func (t *T) NonTrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	t.key, t.hasKey, t.trivial = h.Sum64(), true, false
}

// Class counts what kind of cases were generated.
func (t *T) Class(name string) { t.classes[name]++ }

// Protect runs f and returns the value of its panic, if any.
func Protect(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if fail, ok := r.(failure); ok {
				panic(fail)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// run executes the property on t and returns the failure message, or "".
func run(prop func(*T), t *T) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fail, ok := r.(failure); ok {
				msg = fail.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	prop(t)
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/props/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}
