package harness

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// A Ladder is a strictly increasing list of versions of an ecosystem: which of two
// is greater is known by construction, from the specification of the ecosystem.
type Ladder struct {
	Eco   string
	Steps []string
	Alts  []string // other spellings of some of the steps
	alts  map[string][]string
	rank  map[string]int
}

func newLadder(eco string, steps []string) *Ladder {
	l := &Ladder{Eco: eco, rank: map[string]int{}, alts: map[string][]string{}}

	for _, s := range steps {
		if _, ok := l.rank[s]; ok {
			continue
		}

		l.rank[s] = len(l.Steps)
		l.Steps = append(l.Steps, s)
	}

	for _, s := range l.Steps {
		for _, a := range spellings(eco, s) {
			if _, ok := l.rank[a]; ok {
				continue
			}

			l.rank[a] = l.rank[s]
			l.alts[s] = append(l.alts[s], a)
			l.Alts = append(l.Alts, a)
		}
	}

	return l
}

// respell sometimes replaces the bounds of ranges by other spellings of the same
// versions, and adds other spellings to the lists of versions: a bound is a version,
// a listed version is a string.
func (l *Ladder) respell(rt *rapid.T, a Affected) Affected {
	one := func(v *string) {
		if alts := l.alts[*v]; len(alts) > 0 && chance(rt, "other spelling", 25) {
			*v = pick(rt, "spelling", alts)
		}
	}

	for _, r := range a.Ranges {
		if r.Type == "GIT" {
			continue
		}

		for i := range r.Events {
			one(&r.Events[i].Introduced)
			one(&r.Events[i].Fixed)
			one(&r.Events[i].LastAffected)
		}
	}

	for i := range a.Versions {
		switch {
		case len(l.alts[a.Versions[i]]) > 0 && chance(rt, "other spelling listed", 25):
			a.Versions[i] = pick(rt, "listed spelling", l.alts[a.Versions[i]])
		case chance(rt, "other case listed", 10):
			a.Versions[i] = strings.ToUpper(a.Versions[i])
		}
	}

	return a
}

// spellings returns other ways to write the same version.
func spellings(eco, v string) []string {
	plain := !strings.ContainsAny(v, "-+~_!:") && strings.Count(v, ".") == 2 && strings.IndexFunc(v, unicode.IsLetter) < 0
	out := []string{}

	switch eco {
	case "npm", "crates.io", "Hex":
		out = append(out, v+"+build.1", v+"+0a1")
	case "Go":
		out = append(out, v+"+incompatible")
	case "NuGet":
		out = append(out, v+"+build.1")
		if plain {
			out = append(out, v+".0")
		} else if i := strings.Index(v, "-"); i >= 0 {
			out = append(out, v[:i]+strings.ToUpper(v[i:]))
		}
	case "PyPI":
		out = append(out, "v"+v, "0!"+v)
		if strings.Contains(v, "!") {
			out = out[:0]
		}

		if plain {
			out = append(out, v+".0")
			if s, ok := strings.CutSuffix(v, ".0"); ok {
				out = append(out, s)
			}
		}

		if i := strings.IndexAny(v, "abr"); i >= 0 && !strings.Contains(v, ".post") {
			long := map[byte]string{'a': "alpha", 'b': "beta", 'r': "c"}[v[i]]
			num := strings.TrimLeft(v[i:], "abrc")
			out = append(out, v[:i]+"-"+long+num, v[:i]+"."+long+"."+num, v[:i]+strings.ToUpper(v[i:]))
		}

		if core, n, ok := strings.Cut(v, ".post"); ok {
			out = append(out, core+"-"+n, core+"-r"+n)
		}
	case "Maven":
		if plain {
			out = append(out, v+".0", v+"-ga", v+".Final", v+"-final")
			if s, ok := strings.CutSuffix(v, ".0"); ok {
				out = append(out, s)
			}
		}

		if s, ok := strings.CutSuffix(v, "-rc-1"); ok {
			out = append(out, s+"-cr-1", s+"-RC-1", s+"-rc1")
		}

		if s, ok := strings.CutSuffix(v, "-alpha-1"); ok {
			out = append(out, s+"-a1", s+"-Alpha-1", s+"-alpha1")
		}
	case "RubyGems":
		if plain {
			out = append(out, v+".0")
			if s, ok := strings.CutSuffix(v, ".0"); ok {
				out = append(out, s)
			}
		}
	case "Debian:10", "Debian", "Ubuntu:22.04":
		if !strings.Contains(v, ":") {
			out = append(out, "0:"+v)
		}

		if plain {
			out = append(out, v+"-0")
		}
	case "Red Hat:enterprise_linux:8::appstream", "Rocky Linux:8", "AlmaLinux:8":
		if !strings.Contains(v, ":") {
			out = append(out, "0:"+v)
		}
	case "CRAN":
		out = append(out, strings.ReplaceAll(v, ".", "-"))
	}

	return out
}

// Rank tells where on the ladder a version is; "0" is below everything.
func (l *Ladder) Rank(v string) int {
	if r, ok := l.rank[v]; ok {
		return r
	}

	if v == "0" {
		return -1
	}

	infra("version %q is not on the %s ladder", v, l.Eco)

	return 0
}

// around returns, for a core version x.y.z, increasing versions around it
func around(eco, core string) []string {
	add := func(pre []string, post []string) []string {
		out := make([]string, 0, len(pre)+len(post)+1)
		for _, p := range pre {
			out = append(out, core+p)
		}

		out = append(out, core)
		for _, p := range post {
			out = append(out, core+p)
		}

		return out
	}

	switch eco {
	case "npm", "crates.io", "Hex":
		return add([]string{"-0", "-2", "-10", "-alpha", "-alpha.1", "-alpha.beta", "-beta", "-beta.2", "-beta.11", "-rc.1"}, nil)
	case "Go":
		return add([]string{"-0.20190101000000-0123456789ab", "-0.20201231235959-ba9876543210", "-alpha", "-alpha.1", "-beta.2", "-beta.11", "-rc.1"}, nil)
	case "Pub":
		return add([]string{"-alpha", "-alpha.1", "-beta", "-beta.2", "-beta.11", "-rc.1"}, nil)
	case "NuGet":
		return add([]string{"-alpha", "-alpha.1", "-beta", "-beta.2", "-beta.11", "-rc.1"}, []string{".1", ".2", ".10"})
	case "PyPI":
		return add([]string{".dev1", ".dev10", "a1", "a2", "a10", "b1", "rc1", "rc2"}, []string{".post1", ".post2", ".post10"})
	case "Maven":
		return add([]string{"-alpha-1", "-alpha-2", "-alpha-10", "-beta-1", "-milestone-1", "-rc-1", "-SNAPSHOT"}, []string{"-sp"})
	case "RubyGems":
		return add([]string{".a", ".beta.1", ".beta.2", ".beta.10", ".rc1"}, nil)
	case "Packagist":
		return add([]string{"-alpha1", "-alpha2", "-alpha10", "-beta1", "-RC1", "-RC2"}, []string{"-p1", "-p2"})
	case "Debian:10", "Debian", "Ubuntu:22.04":
		return add([]string{"~beta1-1", "~rc1-1", "~rc1-2"}, []string{"-1", "-1+deb10u1", "-1+deb10u2", "-2", "-10", "+dfsg-1"})
	case "Alpine:v3.18":
		return add([]string{"_alpha1", "_alpha2", "_beta1", "_pre1", "_rc1"}, []string{"-r1", "-r2", "-r10", "_p1"})
	case "CRAN":
		return add(nil, []string{"-1", "-2", "-10"})
	case "Hackage":
		return add(nil, []string{".1", ".2", ".10"})
	case "Red Hat:enterprise_linux:8::appstream", "Rocky Linux:8", "AlmaLinux:8":
		return add([]string{"~rc1-1.el8", "~rc2-1.el8"}, []string{"-1.el8", "-2.el8", "-10.el8"})
	}

	return []string{core}
}

var ladderEcos = []string{
	"npm", "PyPI", "Maven", "Go", "crates.io", "RubyGems", "Packagist", "NuGet", "Hex", "Pub",
	"Debian:10", "Debian", "Ubuntu:22.04", "Alpine:v3.18", "CRAN", "Hackage",
	"Red Hat:enterprise_linux:8::appstream", "Rocky Linux:8", "AlmaLinux:8",
}

// epochs are versions above everything else, where the ecosystem has them
func epochs(eco string) []string {
	switch eco {
	case "PyPI":
		return []string{"1!0.1.0", "1!2.0.0", "2!0.0.1"}
	case "Debian:10", "Debian", "Ubuntu:22.04":
		return []string{"1:0.1.0-1", "1:2.0.0-1", "2:0.0.1-1"}
	case "Red Hat:enterprise_linux:8::appstream", "Rocky Linux:8", "AlmaLinux:8":
		return []string{"1:0.1.0-1.el8", "1:2.0.0-1.el8", "2:0.0.1-1.el8"}
	}

	return nil
}

// genLadder draws a ladder of the given ecosystem.
func genLadder(rt *rapid.T, eco string) *Ladder {
	n := intIn(rt, "cores", 2, 4)
	type core [3]int
	seen := map[core]bool{}
	cores := []core{}
	num := rapid.SampledFrom([]int{0, 1, 2, 3, 9, 10, 11, 19, 20, 99, 100, 2021})

	for range n {
		c := core{num.Draw(rt, "major"), num.Draw(rt, "minor"), num.Draw(rt, "patch")}
		// 0.0.0 and its prereleases are at or below the "0" that stands for the beginning
		if seen[c] || c == (core{}) {
			continue
		}

		seen[c] = true
		cores = append(cores, c)
	}

	for _, c := range []core{{1, 0, 0}, {1, 2, 3}} {
		if !seen[c] {
			seen[c] = true
			cores = append(cores, c)
		}
	}

	sort.Slice(cores, func(i, j int) bool {
		for k := range 3 {
			if cores[i][k] != cores[j][k] {
				return cores[i][k] < cores[j][k]
			}
		}

		return false
	})

	steps := []string{}
	for _, c := range cores {
		steps = append(steps, around(eco, fmt.Sprintf("%d.%d.%d", c[0], c[1], c[2]))...)
	}

	steps = append(steps, epochs(eco)...)

	return newLadder(eco, steps)
}
