package harness

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"
)

var c05IDs = []string{
	"GHSA-1", "OSV-2", "CVE-3", "CVE-1", "CVE-10", "CVE-100", "GHSA-10", "ghsa-1", "OSV-1", "OSV-10", "GHSA-1-1", "GHSA-xx-1", "CVE-3 ", "PYSEC-5",
}

func TestC05(t *testing.T) {
	Check(t, "cli", 300, func(rt *rapid.T, c *Case) {
		// an arbitrary graph of aliases over advisories that mostly affect the same few packages
		n := intIn(rt, "advisories", 2, 10)
		// among them IDs that are prefixes of others or only differ in case
		ids := subsetOf(rt, "id", c05IDs, n, n)

		for i := range count(rt, "more advisories", 0, 5) {
			ids = append(ids, fmt.Sprintf("MORE-%d", i))
		}

		manyAliases := chance(rt, "many aliases", 8)

		names := []string{"foo", "bar", "baz"}
		advs := []Advisory{}
		sameText := chance(rt, "same text", 35)
		density := intIn(rt, "density", 0, 60)

		for _, id := range ids {
			a := Advisory{ID: id, Affected: []Affected{}, Summary: "about " + id}

			// unrelated advisories can have the same text and dates
			if sameText {
				a.Summary, a.Details = "a vulnerability", "the same details"
				a.Published, a.Modified = "2022-01-02T03:04:05Z", "2022-02-03T04:05:06Z"
			}

			if manyAliases {
				for i := range intIn(rt, "own aliases", 0, 40) {
					a.Aliases = append(a.Aliases, fmt.Sprintf("%s-alias-%d", id, i))
				}
			}

			for _, x := range append([]string{"CVE-X", "CVE-XY", "CVE-Z"}, ids[:min(len(ids), 20)]...) {
				if x != id && chance(rt, "alias", density*2/(3+n)) {
					a.Aliases = append(a.Aliases, x)
				}
			}

			for _, nm := range subsetOf(rt, "affected", names, 1, 3) {
				e := genMatchAll(rt)
				if chance(rt, "not affected", 10) {
					e = Affected{Versions: []string{"9.9.9"}}
				}

				e.Package = AdvPackage{pick(rt, "advisory ecosystem", []string{"npm", "npm", "npm", "crates.io"}), nm}
				a.Affected = append(a.Affected, e)
			}

			if chance(rt, "withdrawn", 15) {
				a.Withdrawn = pick(rt, "withdrawn at", []string{"2021-03-04T05:06:07Z", "2030-01-01T00:00:00Z", "2021-03-04T05:06:07.123+01:00", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z"})
			}

			advs = append(advs, a)
		}

		w := newWorkdir(c)
		f := &SceneFile{}
		kinds := []string{}
		versions := map[string]int{}

		for i := range intIn(rt, "databases", 1, 3) {
			kind := pick(rt, "kind", []string{"dir", "zip", "api"})
			db := &SceneDB{}

			for _, a := range advs {
				if chance(rt, "in this database", 60) && !(kind == "api" && a.Withdrawn != "") {
					db.Advs = append(db.Advs, a)
					versions[a.ID]++
				}
			}

			db.Advs = shuffled(rt, "order", db.Advs)
			w.addDB(fmt.Sprintf("db%d", i), kind, db.Advs)
			f.DBs = append(f.DBs, db)
			kinds = append(kinds, kind)
		}

		pkgs := []Pkg{}
		for _, nm := range names {
			for _, v := range subsetOf(rt, "version", []string{"1.2.3", "1.5.0"}, 1, 2) {
				for _, eco := range subsetOf(rt, "ecosystem", []string{"npm", "crates.io"}, 1, 2) {
					pkgs = append(pkgs, Pkg{Name: nm, Version: v, Ecosystem: eco, CompareAs: eco})
				}
			}
		}

		ignores := subsetOf(rt, "ignored", append([]string{"CVE-X"}, ids[:min(len(ids), 20)]...), 0, 3)
		args := []string{"--json", "--use-dbs=false", "--parse-as", "csv-file", "--config", w.writeConfig("conf.yml")}

		for _, i := range ignores {
			args = append(args, "--ignore", i)
		}

		mustWrite(w.path("p.csv"), csvOf(pkgs))

		out := w.run(append(args, "p.csv")...)
		res := parseResults(rt, out)

		if len(res) != 1 || diffPkgs(byEcosystem(pkgsOf(res[0].Packages)), byEcosystem(pkgs)) != "" {
			rt.Fatalf("unexpected packages: %s", show(out))
		}

		dups, hidden := 0, 0

		for _, p := range res[0].Packages {
			cands := f.candidates(p.Pkg)
			if err := checkFindings(p.Pkg, p.Vulnerabilities, p.Ignored, cands, ignores); err != nil {
				rt.Fatalf("%v\nall candidates: %s\n%s", err, mustJSON(cands), show(out))
			}

			total := map[string]bool{}
			for _, advs := range cands {
				for _, a := range advs {
					total[a.ID] = true
				}
			}

			if len(p.Vulnerabilities)+len(p.Ignored) < len(total) {
				dups++
			}

			if len(p.Vulnerabilities)+len(p.Ignored) > 1 {
				hidden++
			}
		}

		c.Nontrivial(dups > 0 || hidden > 0)
		c.Key(string(mustJSON(f.DBs)), kinds, string(mustJSON(pkgs)), ignores)
		c.Label(dups > 0, "suppressed as duplicate")
		c.Label(hidden > 0, "several kept")
		c.Label(dups > 0 && hidden > 0, "both")
		c.Sample(map[string]any{"databases": f.DBs, "kinds": kinds, "packages": pkgs, "ignores": ignores})
	})
}

// byEcosystem sorts packages completely, those that only differ by their ecosystem too.
func byEcosystem(ps []Pkg) []Pkg {
	out := append([]Pkg{}, ps...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Ecosystem < out[j].Ecosystem })

	return sortPkgs(out)
}
