package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func TestC32(t *testing.T) {
	Check(t, "cli", 130, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		ecos := subsetOf(rt, "ecosystem", sceneEcos, 1, 2)
		eco := ecos[0]
		format := "csv-file"

		if f := sceneFormats[eco]; f != "" && chance(rt, "lockfile", 60) {
			format = f
			ecos = ecos[:1]
		}

		// the packages whose verdict is watched, and others around them
		watched, others := []Pkg{}, []Pkg{}
		isWatched := map[string]bool{}

		for _, e := range ecos {
			cands := append([]string{}, sceneNames[e]...)
			// names close to those
			for _, n := range sceneNames[e] {
				cands = append(cands, n+"x", strings.TrimRight(n, "abcdefg")+n[len(n)-1:]+"1", n+"-core")

				if e != "PyPI" && e != "Hex" {
					cands = append(cands, strings.ToUpper(n[:1])+n[1:], strings.ToUpper(n))
				}
			}

			for i, n := range uniq(cands) {
				versions := sceneVersions
				if e == "Go" {
					versions = sceneVersions[:4]
				}

				if strings.Contains(n, "+") && i >= 4 || e == "Hex" && strings.Contains(n, "-") {
					continue
				}

				p := Pkg{Name: n, Version: pick(rt, "version", versions), Ecosystem: e, CompareAs: e}

				switch {
				case i < 4 && (e == eco && i == 0 || chance(rt, "watched", 60)):
					watched = append(watched, p)
					isWatched[e+"\x00"+n] = true
				case chance(rt, "other", 40):
					others = append(others, p)
				}
			}
		}

		ids := []string{"GHSA-1", "GHSA-2", "OSV-3", "CVE-4", "OSV-5", "OSV-6"}
		aliases := append([]string{"CVE-1", "CVE-2"}, ids...)
		advs, more := []Advisory{}, []Advisory{}
		entry := func(p Pkg) Affected {
			e := Affected{Package: AdvPackage{p.Ecosystem, p.Name}}

			switch intIn(rt, "entry", 0, 2) {
			case 0:
				e.Versions = sliceFrom(rt, "versions", sceneVersions, 1, 4)
			case 1:
				e.Ranges = []Range{{Type: "SEMVER", Events: []Event{{Introduced: "0"}}}}
			default:
				e.Ranges = []Range{genRange(rt, sceneVersions)}
			}

			return e
		}
		alias := func(a *Advisory) {
			if chance(rt, "aliases", 40) {
				for _, x := range subsetOf(rt, "alias", aliases, 1, 2) {
					if x != a.ID {
						a.Aliases = append(a.Aliases, x)
					}
				}
			}
		}

		for _, id := range ids {
			a := Advisory{ID: id, Summary: "about " + id, Affected: []Affected{}}
			for range intIn(rt, "entries", 1, 2) {
				a.Affected = append(a.Affected, entry(pick(rt, "affected package", watched)))
			}

			alias(&a)
			advs = append(advs, a)
		}

		// advisories about packages that are not watched
		unrelated := append([]Pkg{{Name: "not-in-any-lockfile", Ecosystem: eco}}, others...)
		for _, e := range sceneEcos {
			for _, n := range sceneNames[e] {
				if !isWatched[e+"\x00"+n] {
					unrelated = append(unrelated, Pkg{Name: n, Ecosystem: e})
				}
			}
		}

		for i := range intIn(rt, "unrelated advisories", 0, 8) {
			id := fmt.Sprintf("%s-%d", pick(rt, "prefix", []string{"AAA", "GHSA-1", "OSV", "ZZZ"}), 10+i)
			a := Advisory{ID: id, Summary: "about " + id, Affected: []Affected{}}
			for range intIn(rt, "unrelated entries", 1, 2) {
				a.Affected = append(a.Affected, entry(pick(rt, "unrelated package", unrelated)))
			}

			alias(&a)

			if chance(rt, "withdrawn", 10) {
				a.Withdrawn = "2021-03-04T05:06:07Z"
			}

			more = append(more, a)
		}

		if chance(rt, "many unrelated advisories", 3) {
			about := pick(rt, "unrelated package", unrelated)
			e := []Affected{entry(about)}

			for i := range pick(rt, "many", []int{30, 110, 260}) {
				more = append(more, Advisory{ID: fmt.Sprintf("%s-%d", pick(rt, "prefix", []string{"AAA", "ZZZ"}), 1000+i), Summary: "one of many", Affected: e})
			}
		}

		// the related advisories may also say something about other packages
		extended := []Advisory{}
		for _, a := range advs {
			if chance(rt, "also about others", 30) {
				e := []Affected{}
				for range intIn(rt, "other entries", 1, 2) {
					e = append(e, entry(pick(rt, "unrelated package", unrelated)))
				}

				if chance(rt, "first", 50) {
					a.Affected = append(e, a.Affected...)
				} else {
					a.Affected = append(append([]Affected{}, a.Affected...), e...)
				}
			}

			extended = append(extended, a)
		}

		kind := pick(rt, "kind", []string{"dir", "zip", "api"})
		if kind == "api" {
			plain := []Advisory{}
			for _, a := range more {
				if a.Withdrawn == "" {
					plain = append(plain, a)
				}
			}

			more = plain
		}

		name := format
		arg := format
		if format == "csv-file" {
			name, arg = "p.csv", "csv-file:p.csv"
		}

		ignores := subsetOf(rt, "ignored", ids, 0, 2)
		args := []string{"--json", "--use-dbs=false", fmt.Sprintf("--batch-size=%d", intIn(rt, "batch size", 1, 6))}

		for _, i := range ignores {
			args = append(args, "--ignore", i)
		}

		scan := func(dir string, pkgs []Pkg, advs []Advisory) (map[Pkg]string, Out) {
			w.dbs = nil
			w.addDB("db-"+dir, kind, advs)
			mustWrite(w.path(dir, name), lockContent(format, pkgs))
			conf := w.writeConfig(dir + "/conf.yml")
			a := strings.Replace(arg, name, dir+"/"+name, 1)
			out := w.run(append(append([]string{}, args...), "--config", conf, a)...)
			res := parseResults(rt, out)

			if len(res) != 1 || diffPkgs(byEcosystem(pkgsOf(res[0].Packages)), byEcosystem(pkgs)) != "" {
				rt.Fatalf("unexpected packages: %s", show(out))
			}

			verdicts := map[Pkg]string{}
			for _, p := range res[0].Packages {
				verdicts[Pkg{Name: p.Name, Version: p.Version, Ecosystem: p.Ecosystem}] = fmt.Sprintf("vulnerable %q ignored %q", sortedCopy(idsOf(p.Vulnerabilities)), sortedCopy(idsOf(p.Ignored)))
			}

			return verdicts, out
		}

		small, smallOut := scan("small", watched, advs)
		big, bigOut := scan("big", shuffled(rt, "package order", append(append([]Pkg{}, watched...), others...)), append(append([]Advisory{}, extended...), more...))
		found := 0

		for _, p := range watched {
			k := Pkg{Name: p.Name, Version: p.Version, Ecosystem: p.Ecosystem}
			if small[k] != big[k] {
				rt.Fatalf("%s is\n  %s\non its own, but with other packages and advisories\n  %s\n--- %s\n--- %s", p, small[k], big[k], show(smallOut), show(bigOut))
			}

			if small[k] != `vulnerable [] ignored []` {
				found++
			}
		}

		c.Nontrivial(found > 0 && len(others)+len(more) > 0)
		c.Key(string(mustJSON(watched)), string(mustJSON(others)), string(mustJSON(advs)), string(mustJSON(extended)), string(mustJSON(more)), kind, format)
		c.Label(found < len(watched), "not affected")
		c.Label(kind == "api", "api")
		c.Label(format != "csv-file", "lockfile")
		c.Sample(map[string]any{"watched": watched, "others": others, "advisories": advs, "extended": extended, "unrelated": more, "kind": kind, "format": format})
	})

	// each of very many packages is judged as if it were alone
	Check(t, "crowd", 3, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		n := pick(rt, "packages", []int{600, 1100, 1600, 2600, 4200})
		every := pick(rt, "affected", []int{1, 2, 7})
		pkgs, advs, want := []Pkg{}, []Advisory{}, []string{}

		for i := range n {
			p := Pkg{Name: fmt.Sprintf("p%d", i), Version: pick(rt, "version", []string{"1.0.0", "2.0.0"}), Ecosystem: "npm", CompareAs: "npm"}
			pkgs = append(pkgs, p)

			if i%every != 0 && i != n-1 {
				continue
			}

			a := Advisory{ID: fmt.Sprintf("OSV-%d", i), Affected: []Affected{{
				Package: AdvPackage{"npm", p.Name}, Ranges: []Range{{Type: "ECOSYSTEM", Events: []Event{{Introduced: "0"}, {Fixed: "2.0.0"}}}},
			}}}
			advs = append(advs, a)

			if p.Version == "1.0.0" {
				want = append(want, p.Name+" "+a.ID)
			}
		}

		kind := pick(rt, "kind", []string{"dir", "zip", "api"})
		w.addDB("db", kind, advs)
		args := []string{"--json", "--use-dbs=false", "--config", w.writeConfig("conf.yml"), "csv-file:p.csv"}
		mustWrite(w.path("p.csv"), csvOf(shuffled(rt, "order", pkgs)))

		out := w.run(args...)
		res := parseResults(rt, out)

		if len(res) != 1 || len(res[0].Packages) != n {
			rt.Fatalf("not all of %d packages: %.2000s", n, show(out))
		}

		got := []string{}

		for _, p := range res[0].Packages {
			for _, id := range idsOf(p.Vulnerabilities) {
				got = append(got, p.Name+" "+id)
			}
		}

		if a, b := strings.Join(sortedCopy(got), "\n"), strings.Join(sortedCopy(want), "\n"); a != b {
			rt.Fatalf("%d findings of %d packages, want %d", len(got), n, len(want))
		}

		c.Nontrivial(len(want) > 1)
		c.Label(kind == "api", "api")
		c.Key(n, every, kind, len(want))
		c.Sample(map[string]any{"packages": n, "kind": kind, "findings": len(want)})
	})

	// versions that mean something else elsewhere
	Check(t, "versions", 70, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		ecos := subsetOf(rt, "ecosystems", []string{"npm", "Maven", "PyPI", "Packagist", "RubyGems", "crates.io", "Debian", "NuGet", "Alpine"}, 2, 4)
		versions := subsetOf(rt, "versions", []string{
			"1.0.0", "1.0.0-1", "1.0.0-sp", "1.0.0-rc1", "1.0.0.1", "1.0.0-alpha", "1.0.0_p1", "1.0", "1.0.0-5", "1.0.0~rc1", "1.0.0.post1", "1.0.0+b", "1:0.9", "1.0.0.a", "2.0.0-0",
		}, 2, 4)
		pkgs, advs := []Pkg{}, []Advisory{}

		for _, e := range ecos {
			for range intIn(rt, "packages", 1, 3) {
				p := Pkg{Name: pick(rt, "name", []string{"foo", "bar"}), Version: pick(rt, "version", versions), Ecosystem: e, CompareAs: e}

				if chance(rt, "other comparison", 30) {
					p.CompareAs = pick(rt, "compare as", ecos)
				}

				pkgs = append(pkgs, p)
			}

			for range intIn(rt, "advisories", 1, 3) {
				events := []Event{{Introduced: "0"}}

				for _, v := range subsetOf(rt, "events", versions, 1, 2) {
					switch ev := events[len(events)-1]; {
					case ev.Introduced == "":
						events = append(events, Event{Introduced: v})
					case chance(rt, "last affected", 30):
						events = append(events, Event{LastAffected: v})
					default:
						events = append(events, Event{Fixed: v})
					}
				}

				if chance(rt, "later", 30) {
					events = []Event{{Introduced: pick(rt, "introduced", versions)}}
				}

				advs = append(advs, Advisory{ID: fmt.Sprintf("OSV-%d", len(advs)), Affected: []Affected{{
					Package: AdvPackage{e, pick(rt, "affected", []string{"foo", "bar"})}, Ranges: []Range{{Type: "ECOSYSTEM", Events: events}},
				}}})
			}
		}

		pkgs = distinctPkgs(pkgs)
		w.addDB("db", pick(rt, "kind", []string{"dir", "zip"}), advs)
		args := []string{"--json", "--use-dbs=false", "--config", w.writeConfig("conf.yml")}
		scan := func(pkgs []Pkg) (map[Pkg]string, Out) {
			mustWrite(w.path("p.csv"), csvOf(pkgs))
			out := w.run(append(append([]string{}, args...), "csv-file:p.csv")...)
			res := parseResults(rt, out)

			if len(res) != 1 || len(res[0].Packages) != len(pkgs) {
				rt.Fatalf("unexpected packages: %s", show(out))
			}

			// those that only differ in how they are compared do not show it
			verdicts := map[Pkg]string{}
			for _, p := range res[0].Packages {
				k := Pkg{Name: p.Name, Version: p.Version, Ecosystem: p.Ecosystem, CompareAs: p.CompareAs}
				verdicts[k] = strings.Join(sortedCopy(idsOf(p.Vulnerabilities)), " ")
			}

			return verdicts, out
		}

		together, togetherOut := scan(shuffled(rt, "order", pkgs))
		found := 0

		for _, p := range subsetOf(rt, "watched", pkgs, 1, 4) {
			alone, aloneOut := scan([]Pkg{p})

			if alone[p] != together[p] {
				rt.Fatalf("%s is affected by %q on its own, but by %q with others\n--- %s\n--- %s", p, alone[p], together[p], show(aloneOut), show(togetherOut))
			}

			if alone[p] != "" {
				found++
			}
		}

		c.Nontrivial(found > 0 && len(pkgs) > 1)
		c.Key(string(mustJSON(pkgs)), string(mustJSON(advs)))
		c.Sample(map[string]any{"packages": pkgs, "advisories": advs})
	})
}
