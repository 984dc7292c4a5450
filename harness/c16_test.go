package harness

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func TestC16(t *testing.T) {
	// the same run again and again
	Check(t, "scenes", 60, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: chance(rt, "broken lockfiles", 20), BrokenConfs: chance(rt, "broken configs", 20), BrokenDBs: chance(rt, "broken databases", 20),
			InvalidDBs: chance(rt, "invalid databases", 20), Aliases: true, Withdrawn: true, RichText: true, Commits: true,
		})
		r := s.genRun(rt, chance(rt, "path problems", 20))
		r.ExtraBefore = []string{fmt.Sprintf("--batch-size=%d", intIn(rt, "batch size", 1, 3))}

		// answers take a while, each time a different one
		s.w.slow()

		asJSON := chance(rt, "json", 50)
		first := s.exec(r, asJSON)

		for i := range 4 {
			again := s.exec(r, asJSON)
			if again.Stdout != first.Stdout || again.Stderr != first.Stderr || again.Code != first.Code {
				rt.Fatalf("run %d differs: %s\nfirst run: %s", i+2, show(again), show(first))
			}
		}

		c.Nontrivial(strings.Contains(first.Stdout, "vulnerabilit"))
		c.Label(asJSON, "json")
		c.Label(strings.Contains(first.Stdout+first.Stderr, "Updated "), "updates")
		c.Key(s.key(r), asJSON)
		c.Sample(s.describe(r))
	})

	// updating several configs, from the same state
	Check(t, "updates", 20, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{Aliases: true, PlainConfs: true, OnlyLocal: true})
		r := s.genRun(rt, false)
		r.Config, r.NoConfig, r.Update = "", false, true
		r.Args = nil

		for _, l := range s.locks {
			r.Args = append(r.Args, s.argFor(rt, l))
		}

		asJSON := chance(rt, "json", 50)

		s.exec(r, asJSON)
		first := s.exec(r, asJSON)

		for i := range 3 {
			again := s.exec(r, asJSON)
			if again.Stdout != first.Stdout || again.Stderr != first.Stderr || again.Code != first.Code {
				rt.Fatalf("run %d differs: %s\nfirst run: %s", i+2, show(again), show(first))
			}
		}

		c.Nontrivial(strings.Count(first.Stdout+first.Stderr, "Updated ") > 1)
		c.Key(s.key(r), asJSON)
		c.Sample(s.describe(r))
	})

	// the order of packages does not depend on the order in the file
	order := func(rt *rapid.T, c *Case, parse func(format string, content []byte) []Pkg) {
		format := pick(rt, "format", []string{"package-lock.json", "npm-v1", "pnpm-lock.yaml", "bun.lock", "yarn.lock", "packages.lock.json", "Pipfile.lock", "pubspec.lock", "renv.lock", "mix.lock"})
		names := []string{"aa", "ab", "a-b", "a", "b", "B", "zz", "a_b", "a1", "a10", "a2", "m", "mm", "mmm", "x", "y", "z", "q", "r", "s"}
		versions := []string{"1.0.0", "1.10.0", "1.2.0", "10.0.0", "2.0.0", "2.0.0-rc.1"}

		if format == "mix.lock" {
			// hex packages are named like Elixir's atoms
			names = append(append([]string{}, names[:2]...), "a", "b", "zz", "a_b", "a1", "a10", "a2", "m", "mm", "mmm", "x", "y", "z", "q", "r", "s")
		}

		type entry struct{ name, version, commit string }

		entries := []entry{}
		single := contains([]string{"Pipfile.lock", "pubspec.lock", "renv.lock", "mix.lock"}, format)

		for i := range count(rt, "more names", 0, 4) {
			names = append(names, fmt.Sprintf("more%d", i))
		}

		for _, n := range subsetOf(rt, "names", names, 2, len(names)) {
			k := 1
			if !single {
				k = intIn(rt, "versions", 1, 3)
			}

			for _, v := range subsetOf(rt, "version", versions, k, k) {
				entries = append(entries, entry{n, v, ""})
			}
		}

		if format == "package-lock.json" && chance(rt, "git dependencies", 40) {
			// one version from several commits
			for _, h := range subsetOf(rt, "commits", []string{"1", "2", "3", "a", "b", "c"}, 2, 6) {
				entries = append(entries, entry{"git", "1.0.0", strings.Repeat(h, 40)})
			}
		}

		write := func(entries []entry) []byte {
			keyed := []string{}
			seen := map[string]int{}
			text := ""

			for _, e := range entries {
				seen[e.name]++
				nest := strings.Repeat("node_modules/x/", seen[e.name]-1)

				switch format {
				case "package-lock.json":
					resolved := ""
					if e.commit != "" {
						resolved = fmt.Sprintf(", \"resolved\": \"git+ssh://git@github.com/x/git.git#%s\"", e.commit)
					}

					keyed = append(keyed, fmt.Sprintf("%q: {\"version\": %q%s}", nest+"node_modules/"+e.name, e.version, resolved))
				case "bun.lock":
					keyed = append(keyed, fmt.Sprintf("%q: [%q, \"\", {}, \"\"]", strings.Repeat("x/", seen[e.name]-1)+e.name, e.name+"@"+e.version))
				case "pnpm-lock.yaml":
					text += fmt.Sprintf("  /%s@%s:\n    resolution: {integrity: x}\n", e.name, e.version)
				case "yarn.lock":
					text += fmt.Sprintf("\n%s@%s:\n  version \"%s\"\n", e.name, e.version, e.version)
				case "Pipfile.lock":
					keyed = append(keyed, fmt.Sprintf("%q: {\"version\": %q}", e.name, "=="+e.version))
				case "renv.lock":
					keyed = append(keyed, fmt.Sprintf("%q: {\"Package\": %q, \"Version\": %q, \"Repository\": \"CRAN\"}", e.name, e.name, e.version))
				case "pubspec.lock":
					text += fmt.Sprintf("  %s:\n    source: hosted\n    version: \"%s\"\n", e.name, e.version)
				case "mix.lock":
					text += fmt.Sprintf("  \"%s\": {:hex, :%s, \"%s\", \"\", [:mix], [], \"hexpm\", \"\"},\n", e.name, e.name, e.version)
				}
			}

			join := strings.Join(keyed, ", ")

			switch format {
			case "package-lock.json":
				return []byte(`{"lockfileVersion": 3, "packages": {` + join + `}}`)
			case "bun.lock":
				return []byte(`{"lockfileVersion": 0, "packages": {` + join + `}}`)
			case "pnpm-lock.yaml":
				return []byte("lockfileVersion: '6.0'\npackages:\n" + text)
			case "yarn.lock":
				return []byte("# yarn lockfile v1\n" + text)
			case "Pipfile.lock":
				return []byte(`{"default": {` + join + `}}`)
			case "renv.lock":
				return []byte(`{"Packages": {` + join + `}}`)
			case "pubspec.lock":
				return []byte("packages:\n" + text)
			case "mix.lock":
				return []byte("%{\n" + text + "}\n")
			case "npm-v1", "packages.lock.json":
				// one level or framework for each version of a name
				levels := [][]entry{}

				for i := range entries {
					e := entries[i]
					k := 0

					for _, f := range entries[:i] {
						if f.name == e.name {
							k++
						}
					}

					for len(levels) <= k {
						levels = append(levels, nil)
					}

					levels[k] = append(levels[k], e)
				}

				if format == "npm-v1" {
					inner := ""

					for i := len(levels) - 1; i >= 0; i-- {
						ks := []string{}

						for j, e := range levels[i] {
							deps := ""
							if j == 0 && inner != "" {
								deps = ", \"dependencies\": {" + inner + "}"
							}

							ks = append(ks, fmt.Sprintf("%q: {\"version\": %q%s}", e.name, e.version, deps))
						}

						inner = strings.Join(ks, ", ")
					}

					return []byte(`{"lockfileVersion": 1, "dependencies": {` + inner + `}}`)
				}

				fws := []string{}

				for i, l := range levels {
					ks := []string{}
					for _, e := range l {
						ks = append(ks, fmt.Sprintf("%q: {\"resolved\": %q}", e.name, e.version))
					}

					fws = append(fws, fmt.Sprintf("\"net%d\": {%s}", i, strings.Join(ks, ", ")))
				}

				return []byte(`{"version": 1, "dependencies": {` + strings.Join(fws, ", ") + `}}`)
			}

			return nil
		}

		real := format
		if real == "npm-v1" {
			real = "package-lock.json"
		}

		want := append([]entry{}, entries...)
		sort.Slice(want, func(i, j int) bool {
			if want[i].name != want[j].name {
				return want[i].name < want[j].name
			}

			if want[i].version != want[j].version {
				return want[i].version < want[j].version
			}

			return want[i].commit < want[j].commit
		})

		for i := range 3 {
			content := write(shuffled(rt, fmt.Sprintf("order %d", i), entries))
			got := []entry{}

			for _, p := range parse(real, content) {
				got = append(got, entry{p.Name, p.Version, p.Commit})
			}

			if fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("the packages are listed as %v, want %v\n%s", got, want, content)
			}
		}

		c.Nontrivial(len(entries) > 3)
		c.Label(len(entries) > 12, "more than 12 packages")
		c.Label(true, format)
		c.Key(format, entries)
		c.Sample(map[string]any{"format": format, "packages": fmt.Sprint(entries)})
	}

	CheckDirect(t, "order", 800, func(rt *rapid.T, c *Case) {
		order(rt, c, func(format string, content []byte) []Pkg {
			p := c.Dir() + "/" + format
			mustWrite(p, content)

			pkgs, _, err := directParse(p, "")
			if err != nil {
				rt.Fatalf("a valid %s could not be parsed: %v\n%s", format, err, content)
			}

			return pkgs
		})
	})

	Check(t, "order-cli", 40, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		order(rt, c, func(format string, content []byte) []Pkg {
			mustWrite(w.path(format), content)

			out := w.run("--json", "--use-dbs=false", format)
			res := parseResults(rt, out)

			if len(res) != 1 {
				rt.Fatalf("a valid %s could not be parsed\n%s\n%s", format, content, show(out))
			}

			return pkgsOf(res[0].Packages)
		})
	})
}

// slow makes the answers of the APIs take a different time each.
func (w *Workdir) slow() {
	w.mu.Lock()
	defer w.mu.Unlock()

	for u, h := range w.route {
		if strings.HasSuffix(u, "/querybatch") || strings.HasSuffix(u, "/vulns/") {
			w.route[u] = func(rw http.ResponseWriter, r *http.Request, body []byte) {
				time.Sleep(time.Duration(rand.IntN(1500)) * time.Microsecond)
				h(rw, r, body)
			}
		}
	}
}
