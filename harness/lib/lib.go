// Package lib is shared by the failing-input searches.
package lib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"
)

// H drives a search for inputs on which the code disagrees with an oracle.
type H struct {
	Rand     *rand.Rand
	deadline time.Time
	mu       sync.Mutex
	evals    int
	distinct map[string]bool
	samples  []interface{}
	fails    int
	current  func() interface{}
	what     string
	started  time.Time
	caseTime time.Duration
	maxFails int
	trace    bool
	out      *os.File
	known    map[string]bool
	counts   map[string]int
}

func envInt(n string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(n), 10, 64); err == nil {
		return v
	}
	return d
}

// New starts a search with the seed and budget of the environment.
func New() *H {
	h := &H{
		Rand:     rand.New(rand.NewSource(envInt("VERIF_SEED", 1))),
		deadline: time.Now().Add(time.Duration(envInt("VERIF_BUDGET_MS", 5000)) * time.Millisecond),
		distinct: map[string]bool{},
		caseTime: 10 * time.Second,
		maxFails: int(envInt("VERIF_MAXFAILS", 3)),
		trace:    os.Getenv("VERIF_TRACE") != "",
		out:      os.Stdout,
	}
	// the code under test must not write to our result channel
	os.Stdout = os.Stderr
	go h.watch()
	return h
}

func (h *H) watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		h.mu.Lock()
		if h.current != nil && time.Since(h.started) > h.caseTime {
			h.emit("fail", map[string]interface{}{"what": h.what, "input": h.current(), "observed": "no answer within " + h.caseTime.String(), "expected": "an answer"})
			h.emit("stats", h.stats())
			os.Exit(0)
		}
		h.mu.Unlock()
	}
}

func (h *H) emit(k string, v interface{}) {
	b, err := json.Marshal(map[string]interface{}{k: v})
	if err != nil {
		b, _ = json.Marshal(map[string]interface{}{k: fmt.Sprintf("%#v", v)})
	}
	fmt.Fprintf(h.out, "%s\n", b)
}

func (h *H) stats() interface{} {
	return map[string]interface{}{"evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples, "counts": h.counts}
}

// Count adds one to a named total.
func (h *H) Count(n string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.counts == nil {
		h.counts = map[string]int{}
	}
	h.counts[n]++
}

// Expired says the time budget is spent or enough failures were found.
func (h *H) Expired() bool {
	return h.fails >= h.maxFails || time.Now().After(h.deadline)
}

// Case runs one comparison. f returns what was observed and what was expected
// when they differ, and "" otherwise. key identifies a distinct non-trivial
// case ("" for trivial ones).
func (h *H) Case(what, key string, input func() interface{}, f func() (observed, expected string)) {
	h.mu.Lock()
	h.current, h.what, h.started = input, what, time.Now()
	h.evals++
	if key != "" && len(h.distinct) < 2000000 {
		if !h.distinct[key] && len(h.distinct)%997 == 0 && len(h.samples) < 5 {
			h.samples = append(h.samples, map[string]interface{}{"what": what, "input": input()})
		}
		h.distinct[key] = true
	}
	h.mu.Unlock()
	if h.trace {
		h.emit("case", map[string]interface{}{"what": what, "input": input()})
	}
	obs, exp := h.guard(f)
	h.mu.Lock()
	h.current = nil
	if obs != "" {
		h.fails++
		h.emit("fail", map[string]interface{}{"what": what, "input": input(), "observed": obs, "expected": exp})
	}
	h.mu.Unlock()
}

func (h *H) guard(f func() (string, string)) (obs, exp string) {
	defer func() {
		if e := recover(); e != nil {
			obs, exp = fmt.Sprintf("panic: %v", e), "no panic"
		}
	}()
	return f()
}

// Known reports an input on which a recorded finding shows, once per finding.
func (h *H) Known(id string, input interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.known == nil {
		h.known = map[string]bool{}
	}
	if !h.known[id] {
		h.known[id] = true
		h.emit("known", map[string]interface{}{"id": id, "input": input})
	}
}

// Done prints the totals.
func (h *H) Done() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.emit("stats", h.stats())
}
