package harness

import (
	"testing"

	"pgregory.net/rapid"
)

var pkgNameFor = map[string]string{"Maven": "org.foo:bar", "Go": "github.com/foo/bar", "Packagist": "foo/bar"}

func nameFor(eco string) string {
	if n, ok := pkgNameFor[baseEco(eco)]; ok {
		return n
	}

	return "foo"
}

// genC01 draws an advisory and packages to check against it; all packages use
// the version ordering of the same ecosystem.
func genC01(rt *rapid.T) (*Ladder, Advisory, []Pkg) {
	eco := pick(rt, "ecosystem", ladderEcos)
	l := genLadder(rt, eco)
	name := nameFor(eco)
	pkgEco := eco
	cmp := eco

	// arbitrary ecosystems can be compared as a known one
	if chance(rt, "compare as", 10) {
		pkgEco = "my-ecosystem"
	}

	adv := Advisory{ID: "OSV-1", Affected: []Affected{}}

	n := intIn(rt, "entries", 1, 3)
	if uniform(rt, "many entries", 150) == 149 {
		n = intIn(rt, "entries", 4, 14)
	}

	for range n {
		nm := name
		if chance(rt, "other package", 15) {
			nm = name + "-other"
		}

		e := pkgEco
		if chance(rt, "other ecosystem", 10) {
			e = "other"
		}

		adv.Affected = append(adv.Affected, l.respell(rt, genAffected(rt, e, nm, l.Steps)))
	}

	// every version of the ladder, in a random order, and sometimes none at all
	pkgs := []Pkg{}
	for _, v := range shuffled(rt, "package order", append(append([]string{}, l.Steps...), l.Alts...)) {
		pkgs = append(pkgs, Pkg{Name: name, Version: v, Ecosystem: pkgEco, CompareAs: cmp})
	}

	pkgs = append(pkgs, Pkg{Name: name, Version: "", Ecosystem: pkgEco, CompareAs: cmp})

	return l, adv, pkgs
}

func TestC01(t *testing.T) {
	CheckDirect(t, "direct", 4000, func(rt *rapid.T, c *Case) {
		l, adv, pkgs := genC01(rt)
		yes, no := 0, 0

		Journal("%s", mustJSON(adv))

		all, err := directAffected(mustJSON(adv), pkgs)
		if err != nil {
			rt.Fatalf("%v", err)
		}

		for i, p := range pkgs {
			want := affects(adv, p, l.Rank)
			got := all[i]

			if got != want {
				rt.Fatalf("IsAffected(%s compared as %s) = %v, want %v for\n%s", p, p.CompareAs, got, want, mustJSON(adv))
			}

			if want && p.Version != "" {
				yes++
			} else if !want {
				no++
			}
		}

		c.Nontrivial(yes > 0 && no > 0)
		c.Key(string(mustJSON(adv)), l.Steps)
		c.Label(true, "eco "+l.Eco)
		c.Sample(map[string]any{"advisory": adv, "ladder": l.Steps})
	})

	// a whole table of packages and advisories through the command line
	Check(t, "cli", 60, func(rt *rapid.T, c *Case) {
		eco := pick(rt, "ecosystem", ladderEcos)
		l := genLadder(rt, eco)
		name := nameFor(eco)

		advs := []Advisory{}
		for i := range intIn(rt, "advisories", 1, 8) {
			a := Advisory{ID: "OSV-" + string(rune('A'+i)), Affected: []Affected{}}
			for range intIn(rt, "entries", 1, 2) {
				a.Affected = append(a.Affected, l.respell(rt, genAffected(rt, eco, name, l.Steps)))
			}

			advs = append(advs, a)
		}

		pkgs := []Pkg{{Name: name, Ecosystem: eco, CompareAs: eco}}
		for _, v := range append(append([]string{}, l.Steps...), l.Alts...) {
			pkgs = append(pkgs, Pkg{Name: name, Version: v, Ecosystem: eco, CompareAs: eco})
		}

		w := newWorkdir(c)
		kind := pick(rt, "db kind", []string{"dir", "zip"})
		w.addDB("db", kind, advs)
		mustWrite(w.path("pkgs.csv"), csvOf(pkgs))

		out := w.run("--json", "--use-dbs=false", "--parse-as", "csv-file", "--config", w.writeConfig("conf.yml"), "pkgs.csv")
		res := parseResults(rt, out)

		if len(res) != 1 || len(res[0].Packages) != len(pkgs) {
			rt.Fatalf("expected one result with %d packages: %s", len(pkgs), show(out))
		}

		yes, no := 0, 0

		for _, rp := range res[0].Packages {
			p := rp.pkg()

			for _, a := range advs {
				want := affects(a, p, l.Rank)
				got := rp.has(a.ID)

				if got != want {
					rt.Fatalf("%s reported for %s: %v, want %v\n%s", a.ID, p, got, want, mustJSON(a))
				}

				if want {
					yes++
				} else {
					no++
				}
			}
		}

		c.Nontrivial(yes > 0 && no > 0)
		c.Key(string(mustJSON(advs)), l.Steps, kind)
		c.Label(true, "eco "+l.Eco)
		c.Sample(map[string]any{"advisories": advs, "versions": l.Steps, "db": kind})
	})
}
