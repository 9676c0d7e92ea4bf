// Package vt is the small layer every check is written on: it runs a rapid
// property, counts what was generated, and leaves the counts where the runner
// (/verif/check.py) turns them into the evidence file.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Thorough reports whether the thorough tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a case count by tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// budget is the wall time one property may spend generating; cases past it are
// not run and are counted as such. It can only shorten a run, never fail it.
func budget() time.Duration {
	if s := os.Getenv("VT_BUDGET_S"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return time.Duration(f * float64(time.Second))
		}
	}
	if Thorough() {
		return 400 * time.Second
	}
	return 40 * time.Second
}

// Case collects what one generated case was like.
type Case struct {
	labels map[string]int
	key    string
	trace  []string
	extra  bool
}

// Label counts an event of this case.
func (c *Case) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	c.labels[format]++
}

// NonTrivial marks the case as meeting the stated rule.
func (c *Case) NonTrivial() { c.extra = true }

// Log adds a line to the case's trace: what makes two cases distinct and what a
// sample shows.
func (c *Case) Log(format string, args ...any) {
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

// Trace is the case written out.
func (c *Case) Trace() string { return strings.Join(c.trace, "\n") }

type report struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Skipped     int            `json:"not_run_for_budget"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	WallS       float64        `json:"wall_s"`
	Failed      bool           `json:"failed"`
	Hashes      []uint64       `json:"hashes"`
}

// Check runs prop over n generated cases. rule states how cases are made and
// what makes one non-trivial.
func Check(t *testing.T, n int, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	var (
		mu       sync.Mutex
		rep      = report{Test: t.Name(), Rule: rule, Labels: map[string]int{}}
		distinct = map[uint64]struct{}{}
		failed   bool
		start    = time.Now()
		limit    = budget()
	)
	t.Cleanup(func() {
		rep.Distinct = len(distinct)
		rep.WallS = time.Since(start).Seconds()
		rep.Failed = t.Failed()
		for k := range distinct {
			rep.Hashes = append(rep.Hashes, k)
		}
		write(t, &rep)
	})
	rapid.Check(t, func(rt *rapid.T) {
		mu.Lock()
		over := !failed && time.Since(start) > limit
		if over {
			rep.Skipped++
		}
		mu.Unlock()
		if over {
			return
		}
		c := &Case{labels: map[string]int{}}
		done := false
		defer func() {
			mu.Lock()
			defer mu.Unlock()
			if !done || rt.Failed() {
				failed = true
				rt.Logf("case:\n%s", c.Trace())
			}
			if failed {
				return
			}
			rep.Evaluations++
			for k, v := range c.labels {
				rep.Labels[k] += v
			}
			if c.extra {
				h := fnv.New64a()
				_, _ = h.Write([]byte(c.Trace()))
				k := h.Sum64()
				if _, ok := distinct[k]; !ok {
					distinct[k] = struct{}{}
					// a few early ones and some sparse later ones
					d := len(distinct)
					if len(rep.Samples) < 2 || (d&(d-1) == 0 && d >= 64 && len(rep.Samples) < 5) {
						s := c.Trace()
						if len(s) > 1500 {
							s = s[:1500] + "…"
						}
						rep.Samples = append(rep.Samples, s)
					}
				}
			}
		}()
		Watch(60*time.Second, func() { prop(rt, c) })
		done = true
	})
}

// Watch runs fn and reports, with every goroutine's stack, if it has not come
// back after limit. It is far above anything a case takes.
func Watch(limit time.Duration, fn func()) {
	stop := time.AfterFunc(limit, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "VT-HANG: a case did not finish within %s\n%s\n", limit, buf)
		os.Exit(97)
	})
	defer stop.Stop()
	fn()
}

func write(t testing.TB, rep *report) {
	dir := os.Getenv("VT_OUT")
	if dir == "" {
		keys := make([]string, 0, len(rep.Labels))
		for k := range rep.Labels {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			t.Logf("  %7d %s", rep.Labels[k], k)
		}
		t.Logf("evaluations=%d distinct_nontrivial=%d skipped=%d wall=%.1fs", rep.Evaluations, rep.Distinct, rep.Skipped, rep.WallS)
		return
	}
	b, err := json.Marshal(rep)
	if err != nil {
		t.Errorf("vt: %v", err)
		return
	}
	name := strings.NewReplacer("/", "_", " ", "_").Replace(rep.Test)
	if err := os.WriteFile(filepath.Join(dir, name+".json"), b, 0o666); err != nil {
		t.Errorf("vt: %v", err)
	}
}

// Known reports whether the committed known-findings file lists key, and says so
// on stdout for the runner to repeat.
func Known(key string) bool {
	for _, k := range strings.Split(os.Getenv("VT_KNOWN"), ",") {
		if k != "" && k == key {
			fmt.Printf("VT-KNOWN %s\n", key)
			return true
		}
	}
	return false
}

// Panics runs fn and reports what it panicked with, nil if it did not.
func Panics(fn func()) (v any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			v, stack = r, string(buf)
		}
	}()
	fn()
	return nil, ""
}
