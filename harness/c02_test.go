package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// ecosystems and names that differ only in ways that are easy to confuse
var identityEcos = []string{
	"npm", "NPM", "npm ", "PyPI", "pypi", "PyPI:3", "Debian", "Debian:10", "Debian:11", "Debian:1", "Debian:", "debian", "Deb", "Alpine:v3.2", "Alpine:V3.2", "Alpine:v3.20",
	"Alpine", "Maven", "Go", "my", "my-eco", "my-eco:1", "GIT", "Packagist",
}

var identityNames = []string{
	"foo", "Foo", "FOO", "foo-bar", "foo_bar", "foo.bar", "foo--bar", "foo-_.bar", "foobar", "Foo.Bar", "eco-foo", "foo:bar", "a/b", "@a/b", "", " foo", "foo ", "fo", "foo-", "-foo",
	"foo/v1", "foo/v2", "foo/V1", "foo-js", "foo.js", "foo-dev", "libfoo", "@types/foo", "@a/foo", "a:foo", "foo2", "foo+", "foo[x]", "foo@1", "foo#x", "foo/", "/foo",
	"föö", "FÖÖ", "_foo", "foo_", ".foo",
}

func genIdentity(rt *rapid.T) (string, string) {
	return pick(rt, "ecosystem", identityEcos), pick(rt, "name", identityNames)
}

// near draws a pair close to the given one.
func nearIdentity(rt *rapid.T, eco, name string) (string, string) {
	switch intIn(rt, "near", 0, 6) {
	case 0, 1:
		return eco, name
	case 2:
		return eco, pick(rt, "name", identityNames)
	case 3:
		return pick(rt, "ecosystem", identityEcos), name
	case 4:
		// the same base with or without a suffix
		b := baseEco(eco)

		return pick(rt, "suffix", []string{b, b + ":10", b + ":11", b + ":", strings.ToUpper(eco), strings.ToLower(eco)}), name
	case 5:
		// the same name with or without an affix
		cut := pick(rt, "affix", []string{"/v1", "/v2", "-js", ".js", "-dev", "2", "/"})

		return eco, pick(rt, "affixed", []string{name + cut, strings.TrimSuffix(name, cut), "@types/" + name, strings.TrimPrefix(name, "lib"), strings.ToLower(name), strings.ToUpper(name)})
	default:
		return genIdentity(rt)
	}
}

func genMatchAll(rt *rapid.T) Affected {
	switch intIn(rt, "match", 0, 2) {
	case 0:
		return Affected{Versions: []string{"1.2.3"}}
	case 1:
		return Affected{Ranges: []Range{{Type: "ECOSYSTEM", Events: []Event{{Introduced: "0"}}}}}
	default:
		return Affected{Ranges: []Range{{Type: "SEMVER", Events: []Event{{Introduced: "1.0.0"}, {Fixed: "2.0.0"}}}}}
	}
}

func TestC02(t *testing.T) {
	CheckDirect(t, "direct", 6000, func(rt *rapid.T, c *Case) {
		eco, name := genIdentity(rt)
		adv := Advisory{ID: "OSV-1", Affected: []Affected{}}

		for range count(rt, "entries", 1, 3) {
			e := genMatchAll(rt)
			e.Package.Ecosystem, e.Package.Name = nearIdentity(rt, eco, name)
			adv.Affected = append(adv.Affected, e)
		}

		pkgs := []Pkg{}

		for range 8 {
			e, n := nearIdentity(rt, eco, name)
			pkgs = append(pkgs, Pkg{Name: n, Ecosystem: e, Version: "1.2.3", CompareAs: "npm"})
		}

		Journal("%s\n%s", mustJSON(adv), mustJSON(pkgs))

		got, err := directAffected(mustJSON(adv), pkgs)
		if err != nil {
			rt.Fatalf("%v", err)
		}

		yes, no := 0, 0

		for i, p := range pkgs {
			want := affects(adv, p, simpleRank)
			if got[i] != want {
				rt.Fatalf("IsAffected(%+v) = %v, want %v for %s", p, got[i], want, mustJSON(adv))
			}

			if want {
				yes++
			} else {
				no++
			}
		}

		c.Nontrivial(yes > 0 && no > 0)
		c.Key(string(mustJSON(adv)), string(mustJSON(pkgs)))
		c.Sample(map[string]any{"advisory": adv, "packages": pkgs})
	})

	// through every kind of local database, in which loading is restricted to the
	// names of all packages of the scan
	Check(t, "cli", 150, func(rt *rapid.T, c *Case) {
		eco, name := genIdentity(rt)
		dbs := [][]Advisory{}
		id := 0
		fillers := 0

		if chance(rt, "fillers", 3) {
			fillers = intIn(rt, "filler count", 8, 40)
		}

		filler := func(i int) string { return fmt.Sprintf("filler-%d", i) }

		for range intIn(rt, "databases", 1, 2) {
			advs := []Advisory{}

			for range intIn(rt, "advisories", 1, 6) {
				a := Advisory{ID: "OSV-" + string(rune('A'+id)), Affected: []Affected{}}
				id++

				for i := range fillers {
					e := genMatchAll(rt)
					e.Package.Ecosystem, e.Package.Name = eco, filler(i)
					a.Affected = append(a.Affected, e)
				}

				for range count(rt, "entries", 1, 3) {
					e := genMatchAll(rt)
					e.Package.Ecosystem, e.Package.Name = nearIdentity(rt, eco, name)
					a.Affected = append(a.Affected, e)
				}

				advs = append(advs, a)
			}

			dbs = append(dbs, advs)
		}

		w := newWorkdir(c)
		for i, advs := range dbs {
			w.addDB("db"+string(rune('0'+i)), pick(rt, "db kind", []string{"dir", "zip"}), advs)
		}

		files := [][]Pkg{}
		args := []string{"--json", "--use-dbs=false", "--parse-as", "csv-file", "--config", w.writeConfig("conf.yml")}

		for f := range intIn(rt, "files", 1, 3) {
			pkgs := []Pkg{}

			for i := range fillers {
				pkgs = append(pkgs, Pkg{Name: filler(i), Ecosystem: eco, Version: "1.2.3", CompareAs: "npm"})
			}

			for range count(rt, "packages", 1, 6) {
				e, n := nearIdentity(rt, eco, name)
				if n == "" {
					n = "x"
				}

				pkgs = append(pkgs, Pkg{Name: n, Ecosystem: e, Version: "1.2.3", CompareAs: "npm"})
			}

			fn := "f" + string(rune('0'+f)) + ".csv"
			mustWrite(w.path(fn), csvOf(pkgs))
			files = append(files, pkgs)
			args = append(args, fn)
		}

		out := w.run(args...)
		res := parseResults(rt, out)

		if len(res) != len(files) {
			rt.Fatalf("expected %d results: %s", len(files), show(out))
		}

		yes, no := 0, 0

		for f := range files {
			if len(res[f].Packages) != len(files[f]) {
				rt.Fatalf("expected %d packages in file %d: %s", len(files[f]), f, show(out))
			}

			for _, rp := range res[f].Packages {
				for _, advs := range dbs {
					for _, a := range advs {
						want := affects(a, rp.Pkg, simpleRank)
						if rp.has(a.ID) != want {
							rt.Fatalf("%s reported for %+v: %v, want %v\n%s\n%s", a.ID, rp.Pkg, rp.has(a.ID), want, mustJSON(a), show(out))
						}

						if want {
							yes++
						} else {
							no++
						}
					}
				}
			}
		}

		c.Nontrivial(yes > 0 && no > 0)
		c.Key(string(mustJSON(dbs)), string(mustJSON(files)))
		c.Label(len(files) > 1, "several files")
		c.Label(len(dbs) > 1, "several databases")
		c.Sample(map[string]any{"databases": dbs, "files": files})
	})
}
