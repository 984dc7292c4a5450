// Package harness holds the generated-input checks of osv-detector's properties.
package harness

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// the code under test writes warnings to os.Stderr, which is discarded
var realStderr = os.Stderr

// ---------------------------------------------------------------- settings

var (
	envBin     = os.Getenv("VERIF_BIN")     // the osv-detector binary built from /repo
	envOut     = os.Getenv("VERIF_OUT")     // where this shard writes its statistics
	envScratch = os.Getenv("VERIF_SCRATCH") // scratch directory of this shard
	envTier    = os.Getenv("VERIF_TIER")
)

// scale multiplies the number of cases per sub-check.
func scale() float64 {
	s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	if err != nil || s <= 0 {
		return 0.02
	}

	return s
}

func budget() time.Duration {
	s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET_S"), 64)
	if err != nil || s <= 0 {
		s = 240
	}

	return time.Duration(s * float64(time.Second))
}

// hangLimit is how long a single case may take before it counts as a hang.
const hangLimit = 150 * time.Second

// runLimit is how long a single run of the binary may take before it counts as a hang.
const runLimit = 100 * time.Second

// ---------------------------------------------------------------- statistics

type shardStats struct {
	mu          sync.Mutex
	start       time.Time
	Evaluations int                 `json:"evaluations"`
	Runs        int                 `json:"runs"`
	Skipped     int                 `json:"skipped_over_budget"`
	Subs        map[string]int      `json:"subs"`
	Labels      map[string]int      `json:"labels"`
	Hashes      map[string]struct{} `json:"-"`
	HashList    []string            `json:"hashes"`
	Samples     []any               `json:"samples"`
	perSub      map[string]int
}

var stats = &shardStats{
	start:  time.Now(),
	Subs:   map[string]int{},
	Labels: map[string]int{},
	Hashes: map[string]struct{}{},
	perSub: map[string]int{},
}

func (s *shardStats) flush() {
	s.mu.Lock()
	defer s.mu.Unlock()

	if envOut == "" {
		return
	}

	s.HashList = make([]string, 0, len(s.Hashes))
	for h := range s.Hashes {
		s.HashList = append(s.HashList, h)
	}

	sort.Strings(s.HashList)

	b, err := json.Marshal(s)
	if err != nil {
		infra("could not marshal the statistics: %v", err)
	}

	if err := os.WriteFile(envOut, b, 0o600); err != nil {
		infra("could not write the statistics: %v", err)
	}
}

// infra stops the shard because of a problem of the harness or its environment,
// which says nothing about the property.
func infra(format string, a ...any) {
	fmt.Fprintf(realStderr, "\nVERIF-INFRA: "+format+"\n", a...)
	os.Exit(3)
}

// ---------------------------------------------------------------- cases

// Case is one generated case.
type Case struct {
	sub        string
	dir        string
	nontrivial bool
	key        []string
	labels     []string
	sample     any
	runs       atomic.Int64
}

// Dir returns the scratch directory of this case, which is removed when it ends.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(envScratch, "case-*")
		if err != nil {
			infra("could not create a scratch directory: %v", err)
		}

		c.dir = d
	}

	return c.dir
}

// Nontrivial marks the case as non-trivial, identified by the given description.
func (c *Case) Nontrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Key adds to what identifies this case among all others.
func (c *Case) Key(parts ...any) {
	for _, p := range parts {
		c.key = append(c.key, fmt.Sprintf("%v", p))
	}
}

func (c *Case) Label(cond bool, label string) {
	if cond {
		c.labels = append(c.labels, label)
	}
}

func (c *Case) Sample(v any) { c.sample = v }

func (c *Case) finish() {
	stats.mu.Lock()
	defer stats.mu.Unlock()

	stats.Evaluations++
	stats.Runs += int(c.runs.Load())
	stats.Subs[c.sub]++

	seen := map[string]bool{}
	for _, l := range c.labels {
		if !seen[l] {
			stats.Labels[c.sub+"/"+l]++
			seen[l] = true
		}
	}

	if c.nontrivial {
		h := sha256.Sum256([]byte(c.sub + "\x00" + strings.Join(c.key, "\x00")))
		k := hex.EncodeToString(h[:8])

		if _, ok := stats.Hashes[k]; !ok {
			stats.Hashes[k] = struct{}{}

			if stats.perSub[c.sub] < 1 && c.sample != nil {
				stats.perSub[c.sub]++
				stats.Samples = append(stats.Samples, map[string]any{"sub": c.sub, "case": c.sample})
			}
		}
	}
}

// ---------------------------------------------------------------- journal and watchdog

var (
	journalMu   sync.Mutex
	journalText string
	caseStart   time.Time
	caseActive  bool
)

// Journal records what is about to be executed, so that if the process dies or
// hangs the last case can be shown.
func Journal(format string, a ...any) {
	journalMu.Lock()
	defer journalMu.Unlock()

	journalText += fmt.Sprintf(format, a...) + "\n"
	if envOut != "" {
		_ = os.WriteFile(envOut+".journal", []byte(journalText), 0o600)
	}
}

func watchdog() {
	for {
		time.Sleep(2 * time.Second)
		journalMu.Lock()

		if caseActive && time.Since(caseStart) > hangLimit {
			fmt.Fprintf(realStderr, "\nVERIF-HANG: a case took longer than %s\n%s\n", hangLimit, journalText)
			journalMu.Unlock()
			os.Exit(4)
		}

		journalMu.Unlock()
	}
}

// Check runs one sub-check of a property: the given number of generated cases per
// shard at scale 1.
func Check(t *testing.T, sub string, cases int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()

	t.Run(sub, func(t *testing.T) {
		n := int(float64(cases) * scale())
		if n < 1 {
			n = 1
		}

		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			infra("could not set the number of checks: %v", err)
		}

		rapid.Check(t, func(rt *rapid.T) {
			c := &Case{sub: sub}

			journalMu.Lock()
			journalText = ""
			caseStart = time.Now()
			caseActive = true
			journalMu.Unlock()

			defer func() {
				journalMu.Lock()
				caseActive = false
				journalMu.Unlock()

				if c.dir != "" {
					makeRemovable(c.dir)
					_ = os.RemoveAll(c.dir)
				}
			}()

			if time.Since(stats.start) > budget() {
				stats.mu.Lock()
				stats.Skipped++
				stats.mu.Unlock()

				return
			}

			prop(rt, c)
			c.finish()
		})
	})
}

// CheckDirect is Check for sub-checks that call the code under test in this process.
func CheckDirect(t *testing.T, sub string, cases int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()

	if directAvailable {
		Check(t, sub, cases, prop)
	}
}

// directAvailable is set by the tests.
var directAvailable bool

func makeRemovable(dir string) {
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, _ error) error {
		if info != nil && info.IsDir() {
			_ = os.Chmod(p, 0o700)
		}

		return nil
	})
}

// ---------------------------------------------------------------- little helpers

func mustWrite(path string, content []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		infra("mkdir: %v", err)
	}

	if err := os.WriteFile(path, content, 0o600); err != nil {
		infra("write: %v", err)
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		infra("marshal: %v", err)
	}

	return b
}

// uniform draws a number from [0, n) with (almost) equal probabilities, unlike the
// generators of rapid, which prefer small numbers; it shrinks towards 0.
func uniform(rt *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}

	k := bits.Len(uint(n-1)) + 4
	u := 0

	for range k {
		u <<= 1
		if bit.Draw(rt, label) {
			u |= 1
		}
	}

	return u % n
}

var bit = rapid.Bool()

func pick[T any](rt *rapid.T, label string, xs []T) T {
	return xs[uniform(rt, label, len(xs))]
}

func chance(rt *rapid.T, label string, percent int) bool {
	// the simplest (shrunk) value is false
	return uniform(rt, label, 100) >= 100-percent
}

func intIn(rt *rapid.T, label string, lo, hi int) int {
	return lo + uniform(rt, label, hi-lo+1)
}

// count draws how many of something there are: from lo to hi, and now and then many more.
func count(rt *rapid.T, label string, lo, hi int) int {
	if uniform(rt, label+" (many)", 100) == 99 {
		return intIn(rt, label+" in a big one", hi+1, 25*hi)
	}

	return intIn(rt, label, lo, hi)
}

func shuffled[T any](rt *rapid.T, label string, xs []T) []T {
	if len(xs) < 2 {
		return append([]T(nil), xs...)
	}

	return rapid.Permutation(append([]T(nil), xs...)).Draw(rt, label)
}

func sortedCopy(xs []string) []string {
	out := append([]string{}, xs...)
	sort.Strings(out)

	return out
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	out := []string{}

	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}

	return out
}

// sliceFrom draws between lo and hi elements (with repetition).
func sliceFrom[T any](rt *rapid.T, label string, xs []T, lo, hi int) []T {
	out := []T{}
	for range intIn(rt, label+" count", lo, hi) {
		out = append(out, pick(rt, label, xs))
	}

	return out
}

// subsetOf draws a subset of between lo and hi distinct elements, in a random order.
func subsetOf[T any](rt *rapid.T, label string, xs []T, lo, hi int) []T {
	if hi > len(xs) {
		hi = len(xs)
	}

	rest := append([]T(nil), xs...)
	out := []T{}

	for range intIn(rt, label+" count", min(lo, hi), hi) {
		i := uniform(rt, label, len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}

	return out
}
