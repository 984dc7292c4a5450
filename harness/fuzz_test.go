//go:build direct

package harness

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// The coverage-guided part of C27 and C28. The inputs to start from are those of the
// generators, so what is mutated is well-formed.

// within fails if the function does not return in time.
func within(t *testing.T, what string, f func()) {
	t.Helper()

	done := make(chan any, 1)

	go func() {
		defer func() { done <- recover() }()
		f()
	}()

	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(60 * time.Second):
		t.Fatalf("%s: did not return within 60 s", what)
	}
}

func FuzzC27(f *testing.F) {
	for i, format := range hostileFormats {
		for _, gen := range lockGens[format] {
			for k := range 6 {
				g := rapid.Custom(func(rt *rapid.T) []byte { return gen(rt).Content }).Example(1000*i + k)
				f.Add(uint8(i), g)
			}
		}
	}

	dir, err := os.MkdirTemp(envScratch, "fuzz-*")
	if err != nil {
		infra("scratch: %v", err)
	}

	f.Fuzz(func(t *testing.T, format uint8, content []byte) {
		if len(content) > 60000 {
			return
		}

		name := hostileFormats[int(format)%len(hostileFormats)]
		p := filepath.Join(dir, fmt.Sprintf("f-%d-%d", os.Getpid(), rand.Intn(1<<30)))

		if err := os.WriteFile(p, content, 0o600); err != nil {
			infra("write: %v", err)
		}

		defer os.Remove(p)

		within(t, "parsing "+name, func() {
			pkgs, _, err := directParse(p, name)
			if err == nil && len(pkgs) > 0 {
				again, _, err := directParse(p, name)
				if err != nil || diffPkgs(again, pkgs) != "" {
					panic(fmt.Sprintf("parsed differently the second time: %v, %v, %v", pkgs, again, err))
				}
			}
		})
	})
}

func FuzzC28(f *testing.F) {
	for i, eco := range ladderEcos {
		for k := range 4 {
			type input struct {
				adv     []byte
				version string
			}

			in := rapid.Custom(func(rt *rapid.T) input {
				l := genLadder(rt, eco)

				return input{mustJSON(Advisory{ID: "OSV-1", Affected: []Affected{l.respell(rt, genAffected(rt, eco, "foo", l.Steps))}}), pick(rt, "version", l.Steps)}
			}).Example(1000*i + k)
			f.Add(in.adv, "foo", in.version, eco, "")
		}
	}

	f.Fuzz(func(t *testing.T, adv []byte, name, version, eco, compareAs string) {
		if len(adv) > 60000 || len(version) > 2000 {
			return
		}

		if compareAs == "" {
			compareAs = eco
		}

		within(t, "checking", func() {
			_, _ = directAffected(adv, []Pkg{
				{Name: name, Version: version, Ecosystem: eco, CompareAs: compareAs},
				{Name: "foo", Version: version, Ecosystem: eco, CompareAs: compareAs},
				{Name: "foo", Version: version, Ecosystem: "npm", CompareAs: compareAs},
			})
		})
	})
}
