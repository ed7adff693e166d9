// Package pbt is the thin layer between the checks and pgregory.net/rapid: it
// scales the number of cases by tier, counts what was generated, and writes
// the counts where the runner (/verif/run.py) picks them up as evidence.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
}

// Case is handed to the property for every generated case.
type Case struct {
	s          *stats
	nontrivial bool
	parts      []string
}

// Key adds a description of the generated case; the distinctness of a case is
// decided on the concatenation of its keys.
func (c *Case) Key(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 400 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = fmt.Sprintf("%s...(%d bytes, fnv %x)", s[:200], len(s), h.Sum64())
	}
	c.parts = append(c.parts, s)
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (c *Case) NonTrivial(cond bool) { c.nontrivial = c.nontrivial || cond }

// Label counts a class of cases.
func (c *Case) Label(format string, a ...interface{}) {
	c.s.Labels[fmt.Sprintf(format, a...)]++
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Cases scales a per-shard number of cases for the tier.
func Cases(quick int) int {
	f := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && v > 0 {
		f = v
	}
	n := quick * f
	if os.Getenv("VERIF_REPLAY") != "" {
		n = 1
	}
	return n
}

var mu sync.Mutex

// Check runs prop on quick (scaled by tier) generated cases.
func Check(t *testing.T, quick int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	check(t, Cases(quick), rule, prop)
}

// CheckSlow is Check for cases that wait; the tier scales their number by a fortieth.
func CheckSlow(t *testing.T, quick int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	n := Cases(quick)
	if n > quick {
		n = max(quick, n/40)
	}
	check(t, n, rule, prop)
}

func check(t *testing.T, n int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	if s := os.Getenv("VERIF_STEPS"); s != "" {
		_ = flag.Set("rapid.steps", s)
	}
	defer func() {
		for k := range seen {
			st.Nontrivial = append(st.Nontrivial, k)
		}
		writeStats(st)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{s: st}
		defer func() {
			mu.Lock()
			defer mu.Unlock()
			st.Evaluations++
			if c.nontrivial {
				d := strings.Join(c.parts, " | ")
				h := fnv.New64a()
				h.Write([]byte(d))
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					n := len(seen)
					if n <= 2 || n == 10 || n == 50 {
						if len(d) > 600 {
							d = d[:600] + "..."
						}
						st.Samples = append(st.Samples, d)
					}
				}
			}
		}()
		prop(rt, c)
	})
}

func writeStats(st *stats) {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	b, _ := json.Marshal(st)
	f.Write(append(b, '\n'))
}

// NoPanic runs f and returns a description of the panic it raised, if any.
func NoPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trim(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trim(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 24 {
		ls = ls[:24]
	}
	// without addresses, so that the same failure reads the same when shrinking
	return hexAddr.ReplaceAllString(strings.Join(ls, "\n"), "0x?")
}

var hexAddr = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+`)

// Within runs f in a goroutine and reports whether it finished in d. It is used
// only with limits several orders of magnitude above the normal duration, and
// only for calls that by contract return.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// Known reports an occurrence of a listed known finding; the runner turns it
// into a KNOWN-FINDING line when (and only when) the finding is listed.
func Known(id string) {
	path := os.Getenv("VERIF_KNOWN")
	if path == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if knownSeen[id] {
		return
	}
	knownSeen[id] = true
	if f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintln(f, id)
		f.Close()
	}
}

var knownSeen = map[string]bool{}

// The integer generators of rapid favour small values a lot; these draw uniformly, and shrink to 0 and false.

func uniform(bits int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		v := 0
		for i := 0; i < bits; i++ {
			v <<= 1
			if rapid.Bool().Draw(t, "b") {
				v |= 1
			}
		}
		return v
	})
}

var uni = func() (g [24]*rapid.Generator[int]) {
	for i := range g {
		g[i] = uniform(i)
	}
	return
}()

// Pick draws a number below n, uniformly.
func Pick(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	b := bits.Len(uint(n-1)) + 3
	return uni[b].Draw(t, label) * n >> b
}

// Pct is true in n of a hundred draws.
func Pct(t *rapid.T, label string, n int) bool { return uni[8].Draw(t, label) >= 256-n*256/100 }

// Weighted draws an index with the given weights.
func Weighted(t *rapid.T, label string, ws ...int) int {
	total := 0
	for _, x := range ws {
		total += x
	}
	r := Pick(t, label, total)
	for i, x := range ws {
		if r < x {
			return i
		}
		r -= x
	}
	panic("weights")
}
