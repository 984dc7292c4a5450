package harness

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// Event is one event of a range: exactly one of its fields is set.
type Event struct {
	Introduced   string `json:"introduced,omitempty"`
	Fixed        string `json:"fixed,omitempty"`
	LastAffected string `json:"last_affected,omitempty"`
}

func (e Event) version() string { return e.Introduced + e.Fixed + e.LastAffected }

// Range is a range of an advisory.
type Range struct {
	Type   string  `json:"type"`
	Repo   string  `json:"repo,omitempty"`
	Events []Event `json:"events"`
}

// AdvPackage identifies the package of an affected entry.
type AdvPackage struct {
	Ecosystem string `json:"ecosystem"`
	Name      string `json:"name"`
}

// Affected is an affected entry of an advisory.
type Affected struct {
	Package  AdvPackage `json:"package"`
	Ranges   []Range    `json:"ranges,omitempty"`
	Versions []string   `json:"versions,omitempty"`
}

// Advisory is an OSV document.
type Advisory struct {
	ID        string     `json:"id"`
	Aliases   []string   `json:"aliases,omitempty"`
	Summary   string     `json:"summary,omitempty"`
	Details   string     `json:"details,omitempty"`
	Published string     `json:"published,omitempty"`
	Modified  string     `json:"modified,omitempty"`
	Withdrawn string     `json:"withdrawn,omitempty"`
	Affected  []Affected `json:"affected"`
}

// Pkg is a package to check.
type Pkg struct {
	Name      string `json:"name"`
	Version   string `json:"version"`
	Commit    string `json:"commit,omitempty"`
	Ecosystem string `json:"ecosystem,omitempty"`
	CompareAs string `json:"compareAs,omitempty"`
}

func (p Pkg) String() string {
	s := p.Ecosystem + ": " + p.Name + "@" + p.Version
	if p.Commit != "" {
		s += " (" + p.Commit + ")"
	}

	return s
}

// ---------------------------------------------------------------- the oracle

// rangeContains is the evaluation algorithm of the OSV schema, on ranks.
func rangeContains(r Range, version string, rank func(string) int) bool {
	if r.Type != "SEMVER" && r.Type != "ECOSYSTEM" {
		return false
	}

	events := append([]Event(nil), r.Events...)
	// insertion sort by rank: small, stable and obviously right
	for i := 1; i < len(events); i++ {
		for j := i; j > 0 && rank(events[j].version()) < rank(events[j-1].version()); j-- {
			events[j], events[j-1] = events[j-1], events[j]
		}
	}

	v := rank(version)
	vulnerable := false

	for _, e := range events {
		switch {
		case e.Introduced != "":
			if v >= rank(e.Introduced) {
				vulnerable = true
			}
		case e.Fixed != "":
			if v >= rank(e.Fixed) {
				vulnerable = false
			}
		case e.LastAffected != "":
			if v > rank(e.LastAffected) {
				vulnerable = false
			}
		}
	}

	return vulnerable
}

var pep503 = regexp.MustCompile(`[-_.]+`)

func baseEco(e string) string {
	b, _, _ := strings.Cut(e, ":")

	return b
}

func suffixEco(e string) string {
	_, s, _ := strings.Cut(e, ":")

	return s
}

func sameEco(a, b string) bool {
	if baseEco(a) != baseEco(b) {
		return false
	}

	return suffixEco(a) == "" || suffixEco(b) == "" || suffixEco(a) == suffixEco(b)
}

func normName(eco, name string) string {
	if baseEco(eco) == "PyPI" {
		return strings.ToLower(pep503.ReplaceAllString(name, "-"))
	}

	return name
}

func samePackage(p AdvPackage, eco, name string) bool {
	return sameEco(p.Ecosystem, eco) && normName(p.Ecosystem, p.Name) == normName(eco, name)
}

func entryAffects(a Affected, p Pkg, rank func(string) int) bool {
	if !samePackage(a.Package, p.Ecosystem, p.Name) {
		return false
	}

	if len(a.Ranges) == 0 && len(a.Versions) == 0 {
		return false
	}

	if p.Version == "" {
		return true
	}

	for _, v := range a.Versions {
		if v == p.Version {
			return true
		}
	}

	for _, r := range a.Ranges {
		if rangeContains(r, p.Version, rank) {
			return true
		}
	}

	return false
}

func affects(a Advisory, p Pkg, rank func(string) int) bool {
	for _, e := range a.Affected {
		if entryAffects(e, p, rank) {
			return true
		}
	}

	return false
}

// related tells if two advisories are about the same vulnerability.
func related(a, b Advisory) bool {
	if a.ID == b.ID {
		return true
	}

	for _, x := range a.Aliases {
		if x == b.ID {
			return true
		}

		for _, y := range b.Aliases {
			if x == y {
				return true
			}
		}
	}

	for _, y := range b.Aliases {
		if y == a.ID {
			return true
		}
	}

	return false
}

// simpleRank orders versions of the form x.y.z with small numbers.
func simpleRank(v string) int {
	if v == "0" {
		return -1
	}

	var a, b, c int
	if n, err := fmt.Sscanf(v, "%d.%d.%d", &a, &b, &c); n != 3 || err != nil {
		infra("version %q is not a simple version", v)
	}

	return a*1000000 + b*1000 + c
}

// ---------------------------------------------------------------- generators

// genRange draws a version range over the versions of a ladder; no two of its
// events are about the same version.
func genRange(rt *rapid.T, steps []string) Range {
	r := Range{Type: pick(rt, "range type", []string{"ECOSYSTEM", "SEMVER"})}
	idx := []int{}
	for i := range steps {
		idx = append(idx, i)
	}

	most := 5
	if chance(rt, "many events", 2) {
		most = 30
	}

	cuts := subsetOf(rt, "bounds", idx, 1, most)
	sortInts(cuts)

	i := 0
	if chance(rt, "introduced 0", 40) {
		r.Events = append(r.Events, Event{Introduced: "0"})
	} else {
		r.Events = append(r.Events, Event{Introduced: steps[cuts[0]]})
		i = 1
	}

	open := true

	for ; i < len(cuts); i++ {
		v := steps[cuts[i]]

		switch {
		case open && chance(rt, "last_affected", 35):
			r.Events = append(r.Events, Event{LastAffected: v})
		case open:
			r.Events = append(r.Events, Event{Fixed: v})
		default:
			r.Events = append(r.Events, Event{Introduced: v})
		}

		open = !open
	}

	r.Events = shuffled(rt, "event order", r.Events)

	return r
}

func sortInts(xs []int) {
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

func genGitRange(rt *rapid.T) Range {
	return Range{
		Type: "GIT",
		Repo: "https://github.com/a/b",
		Events: shuffled(rt, "git events", []Event{
			{Introduced: pick(rt, "git introduced", []string{"0", "6879efc2c1596d11a6a6ad296f80063b558d5e0f"})},
			{Fixed: "bb9f8b2d2b6f9a3c5e7d1a4c8e0f2b4d6a8c0e2f"},
		}),
	}
}

// genAffected draws an affected entry over the versions of a ladder.
func genAffected(rt *rapid.T, eco, name string, steps []string) Affected {
	a := Affected{Package: AdvPackage{eco, name}}

	shape := intIn(rt, "entry shape", 0, 9)
	if shape == 9 {
		// neither ranges nor versions, or only git
		if chance(rt, "git only", 50) {
			a.Ranges = []Range{genGitRange(rt)}
		}

		return a
	}

	if shape != 8 {
		n := intIn(rt, "ranges", 1, 3)
		if uniform(rt, "many ranges", 100) == 99 {
			n = intIn(rt, "ranges", 4, 14)
		}

		for range n {
			a.Ranges = append(a.Ranges, genRange(rt, steps))
		}
	}

	if chance(rt, "git range", 30) {
		at := intIn(rt, "git position", 0, len(a.Ranges))
		a.Ranges = append(a.Ranges[:at:at], append([]Range{genGitRange(rt)}, a.Ranges[at:]...)...)
	}

	if shape >= 7 {
		most := 4
		if chance(rt, "many versions", 5) {
			most = 60
		}

		a.Versions = sliceFrom(rt, "versions", steps, 1, most)
		if chance(rt, "strange version", 20) {
			a.Versions = append(a.Versions, "not-a-version")
		}
	}

	return a
}
