package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// c35Entry is an entry about a package whose verdict is known for that package
// without knowing how versions are ordered: its bounds are the version itself.
func c35Entry(rt *rapid.T, p Pkg) (Affected, string) {
	name := p.Name
	if p.Ecosystem == "PyPI" && chance(rt, "other spelling", 30) {
		name = strings.ToUpper(strings.ReplaceAll(name, "-", "_"))
	}

	e := Affected{Package: AdvPackage{p.Ecosystem, name}}
	typ := pick(rt, "type", []string{"ECOSYSTEM", "SEMVER"})
	r := func(events ...Event) Affected {
		e.Ranges = []Range{{Type: typ, Events: events}}

		return e
	}

	kinds := []string{"all"}
	if p.Version != "" && p.Version != "0" {
		kinds = []string{"listed", "not listed", "all", "before", "until", "from"}

		if laterVersion(p.Version) != "" {
			kinds = append(kinds, "well before", "well after")
		}
	}

	kind := pick(rt, "kind", kinds)

	switch kind {
	case "listed":
		e.Versions = []string{"not-a-version", p.Version}

		return e, kind
	case "not listed":
		e.Versions = []string{p.Version + ".not", "not-" + p.Version}

		return e, kind
	case "before":
		return r(Event{Introduced: "0"}, Event{Fixed: p.Version}), kind
	case "until":
		return r(Event{Introduced: "0"}, Event{LastAffected: p.Version}), kind
	case "from":
		return r(Event{Introduced: p.Version}), kind
	case "well before":
		return r(Event{Introduced: "0"}, Event{Fixed: laterVersion(p.Version)}), kind
	case "well after":
		return r(Event{Introduced: laterVersion(p.Version)}), kind
	}

	return r(Event{Introduced: "0"}), kind
}

// c35Verdict is whether the entry of the kind, made for package q, affects the
// package; not known if that takes comparing versions.
func c35Verdict(kind string, q, p Pkg) (affected, known bool) {
	if !samePackage(AdvPackage{q.Ecosystem, q.Name}, p.Ecosystem, p.Name) {
		return false, true
	}

	// those with and without a release have different databases
	if p.Ecosystem != q.Ecosystem {
		return false, false
	}

	if p.Version == "" || kind == "all" {
		return true, true
	}

	if p.Version != q.Version {
		return false, kind == "listed" && p.Version != "not-a-version"
	}

	return kind != "before" && kind != "not listed" && kind != "well after", true
}

var simpleVersion = regexp.MustCompile(`^((?:[0-9]+\.)+|[0-9]+(?:\.[0-9]+)*-r)([0-9]{1,6})$`)

// laterVersion is later than the version in every ecosystem it may be from, "" if
// that is not obvious.
func laterVersion(v string) string {
	m := simpleVersion.FindStringSubmatch(v)
	if m == nil {
		return ""
	}

	n, err := strconv.Atoi(m[2])
	if err != nil || m[2] != strconv.Itoa(n) {
		return ""
	}

	// one digit more, and as text mostly before it
	return m[1] + "1" + strings.Repeat("0", len(m[2])-1) + "3"
}

// the ecosystems of OSV, which CSV files can mention
var csvEcos = []string{
	"AlmaLinux", "Alpine", "Android", "Bioconductor", "Bitnami", "Chainguard", "ConanCenter", "CRAN", "crates.io", "Debian", "GHC", "GitHub Actions", "Go", "Hackage", "Hex", "Linux",
	"Mageia", "Maven", "npm", "NuGet", "openSUSE", "OSS-Fuzz", "Packagist", "Photon OS", "Pub", "PyPI", "Red Hat", "Rocky Linux", "RubyGems", "SUSE", "SwiftURL", "Ubuntu", "Wolfi",
	"Debian:12", "Alpine:v3.18", "Rocky Linux:9", "Red Hat:enterprise_linux:9::baseos", "Ubuntu:22.04:LTS",
}

// genCSVLock makes a CSV file of packages of any ecosystem.
func genCSVLock(rt *rapid.T) Gen {
	g := Gen{}
	taken := map[string]bool{}

	for range intIn(rt, "rows", 1, 5) {
		p := Pkg{
			Name:      pick(rt, "name", []string{"foo", "bar/baz", "@a/b", "example.com/x", "a:b", "c++"}),
			Version:   fmt.Sprintf("%d.%d.%d", intIn(rt, "major", 0, 12), intIn(rt, "minor", 0, 12), intIn(rt, "patch", 0, 12)),
			Ecosystem: pick(rt, "ecosystem", csvEcos),
			CompareAs: pick(rt, "compare as", []string{"npm", "Debian", "Alpine", "Maven", "PyPI", "RubyGems", "NuGet"}),
		}

		if p.CompareAs == "Alpine" {
			p.Version += fmt.Sprintf("-r%d", intIn(rt, "release", 0, 12))
		}

		if k := p.Ecosystem + "\x00" + p.Name; !taken[k] {
			taken[k] = true
			g.Want = append(g.Want, p)
		}
	}

	g.Content = csvOf(g.Want)

	return g
}

func TestC35(t *testing.T) {
	Check(t, "cli", 130, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		args := []string{"--json"}

		type lock struct {
			Format string
			g      Gen
		}

		locks := []lock{}
		pkgs := []Pkg{}

		for i := range intIn(rt, "lockfiles", 1, 3) {
			format := pick(rt, "format", append([]string{"csv-file"}, allParsers...))
			prefix := ""

			var g Gen

			if format == "csv-file" {
				g = genCSVLock(rt)
				prefix = "csv-file:"
			} else {
				g = pick(rt, "generator", lockGens[format])(rt)
			}

			if g.Err {
				continue
			}

			locks = append(locks, lock{format, g})
			dir := fmt.Sprintf("d%d/d", i)
			mustWrite(w.path(dir, format), g.Content)

			for _, f := range g.Extra {
				mustWrite(w.path(dir, f.Name), f.Content)
			}

			args = append(args, prefix+dir+"/"+format)
			pkgs = append(pkgs, g.Want...)
		}

		pkgs = distinctPkgs(pkgs)

		if len(pkgs) == 0 {
			return
		}

		type about struct {
			Advisory
			kind string
			pkg  Pkg
		}

		advs := map[string][]about{}
		n := 0

		for _, p := range sliceFrom(rt, "package", pkgs, 1, 8) {
			e, kind := c35Entry(rt, p)
			n++
			a := Advisory{ID: fmt.Sprintf("OSV-%d", n), Summary: kind, Affected: []Affected{e}}
			eco := p.Ecosystem

			// archives of ecosystems also mention others
			if chance(rt, "also about others", 20) {
				a.Affected = append([]Affected{{Package: AdvPackage{"other", p.Name}, Versions: []string{p.Version}}}, a.Affected...)
			}

			advs[eco] = append(advs[eco], about{a, kind, p})
		}

		ecos := []string{}
		for _, p := range pkgs {
			ecos = append(ecos, p.Ecosystem)
		}

		useAPI := chance(rt, "api", 20)
		if useAPI {
			args = append([]string{"--use-api", "--use-dbs=false", fmt.Sprintf("--batch-size=%d", intIn(rt, "batch size", 1, 5))}, args...)
			byID := map[string]Advisory{}

			for _, as := range advs {
				for _, a := range as {
					byID[a.ID] = a.Advisory
				}
			}

			w.serveAPI(apiBase, func(q APIQuery) []string {
				ids := []string{}

				for _, as := range advs {
					for _, a := range as {
						yes, known := c35Verdict(a.kind, a.pkg, Pkg{Name: q.Package.Name, Ecosystem: q.Package.Ecosystem, Version: q.Version})
						if yes && known {
							ids = append(ids, a.ID)
						}
					}
				}

				return sortedCopy(ids)
			}, byID)
		} else {
			for _, e := range uniq(sortedCopy(ecos)) {
				files := []File{}
				for _, a := range advs[e] {
					files = append(files, advFile("", a.Advisory))
				}

				w.serveBytes(ecoBase+e+"/all.zip", zipOf(files))
			}
		}

		out := w.run(args...)
		res := parseResults(rt, out)

		if len(res) != len(locks) {
			rt.Fatalf("%d results of %d lockfiles: %s", len(res), len(locks), show(out))
		}

		yes, no, total := 0, 0, 0

		for i, l := range locks {
			if d := diffSorted(pkgsOf(res[i].Packages), l.g.Want); d != "" {
				rt.Fatalf("%s for\n%s\n%s", d, l.g.Content, show(out))
			}

			for _, p := range res[i].Packages {
				total += len(p.Vulnerabilities)

				for _, v := range p.Vulnerabilities {
					if !strings.HasPrefix(v.ID, "OSV-") {
						rt.Fatalf("unknown advisory %s: %s", v.ID, show(out))
					}
				}

				for _, as := range advs {
					for _, a := range as {
						want, known := c35Verdict(a.kind, a.pkg, p.Pkg)
						if !known || useAPI && p.Version == "" {
							continue
						}

						if p.has(a.ID) != want {
							rt.Fatalf("%s (%s of %s) is reported for %s: %v, want %v: %s\n%s", a.ID, a.kind, a.pkg, p.Pkg, p.has(a.ID), want, show(out), l.g.Content)
						}

						if want {
							yes++
						} else {
							no++
						}
					}
				}
			}
		}

		wantCode := 0
		if total > 0 {
			wantCode = 1
		}

		if out.Code != wantCode {
			rt.Fatalf("exit code %d with %d findings: %s", out.Code, total, show(out))
		}

		formats := []string{}
		for _, l := range locks {
			formats = append(formats, l.Format)
			c.Label(true, "format "+l.Format)
			c.Key(l.Format, string(l.g.Content))
		}

		c.Nontrivial(yes > 0 && no > 0)
		c.Key(string(mustJSON(advs)), useAPI)
		c.Label(useAPI, "api")
		c.Sample(map[string]any{"formats": formats, "packages": pkgs, "advisories": advs})
	})
}
