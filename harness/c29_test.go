package harness

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// listed returns how --list-packages shows the package.
func listed(p Pkg) string {
	eco := p.Ecosystem
	if eco == "" {
		eco = "<unknown>"
	}

	s := "  " + eco + ": " + p.Name
	if p.Version != "" {
		s += "@" + p.Version
	}

	if p.Commit != "" {
		s += " (" + p.Commit + ")"
	}

	return s
}

func TestC29(t *testing.T) {
	Check(t, "scenes", 180, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: chance(rt, "broken lockfiles", 40), BrokenConfs: true, BrokenDBs: true, InvalidDBs: true, Aliases: true, Commits: true,
		})
		r := s.genRun(rt, chance(rt, "path problems", 30))
		r.ListPkgs = true

		if chance(rt, "missing config", 10) {
			r.Config = "nowhere/conf.yml"
		}

		r.Update = chance(rt, "update", 10)
		r.ExtraBefore = append(r.ExtraBefore, pick(rt, "other flags", [][]string{
			nil, nil, nil, {"--offline"}, {"--batch-size", "1"}, {"--batch-size=0"}, {"--offline", "--use-api"}, {"--ignore", "X"}, {"--use-api"},
		})...)

		before := snapshot(c.Dir())
		s.w.net.Reset()

		asJSON, asText := s.exec(r, true), s.exec(r, false)

		if n := s.w.net.Conns(); n != 0 {
			rt.Fatalf("there were %d network connections (%v): %s", n, s.w.net.Requests(), show(asText))
		}

		if d := diffSnapshots(before, snapshot(c.Dir()), nil); d != "" {
			rt.Fatalf("%s changed: %s", d, show(asText))
		}

		good, failed := []SceneItem{}, 0

		for _, it := range r.items() {
			if it.Fails {
				failed++
			} else {
				good = append(good, it)
			}
		}

		want := 0

		for _, a := range r.Args {
			if a.Fails {
				want = 127
			}
		}

		if failed > 0 {
			want = 127
		} else if want == 0 && len(good) == 0 {
			want = 128
		}

		if asJSON.Code != want || asText.Code != want {
			rt.Fatalf("exit codes %d and %d, want %d: %s\n%s", asJSON.Code, asText.Code, want, show(asJSON), show(asText))
		}

		for _, o := range []Out{asJSON, asText} {
			all := o.Stdout + o.Stderr
			if strings.Contains(all, "Using ") || strings.Contains(all, "Loaded ") || strings.Contains(all, "invalid database") || strings.Contains(all, "osv-detector.y") || strings.Contains(all, "conf.yml") {
				rt.Fatalf("a config or database was consulted: %s", show(o))
			}

			if n := strings.Count(o.Stderr, "Error, "); n != failed {
				rt.Fatalf("%d files are reported as errors, want %d: %s", n, failed, show(o))
			}
		}

		res := parseResults(rt, asJSON)
		secs := sections(asText.Stdout)

		if len(res) != len(good) || len(secs) != len(good) {
			rt.Fatalf("%d results and %d sections, want %d: %s\n%s", len(res), len(secs), len(good), show(asJSON), show(asText))
		}

		pkgs := 0

		for i, it := range good {
			if filepath.Base(res[i].FilePath) != it.Lock.Name || res[i].ParsedAs != it.ParsedAs || secs[i].Path != res[i].FilePath {
				rt.Fatalf("result %d is of %s (parsed as %s) and section of %s, want %s (%s): %s", i, res[i].FilePath, res[i].ParsedAs, secs[i].Path, it.Lock.path(), it.ParsedAs, show(asJSON))
			}

			if d := diffPkgs(pkgsOf(res[i].Packages), it.Lock.Pkgs); d != "" {
				rt.Fatalf("packages of %s: %s: %s", res[i].FilePath, d, show(asJSON))
			}

			want := fmt.Sprintf("%s: found %d %s", secs[i].Path, len(it.Lock.Pkgs), plural(len(it.Lock.Pkgs), "package", "packages"))
			for _, p := range it.Lock.Pkgs {
				want += "\n" + listed(p)
				pkgs++
			}

			if secs[i].Text != want {
				rt.Fatalf("section %d is\n%s\nwant\n%s\n%s", i, secs[i].Text, want, show(asText))
			}
		}

		if strings.Contains(asJSON.Stdout, "vulnerabilities") {
			rt.Fatalf("the packages come with findings: %s", show(asJSON))
		}

		c.Nontrivial(pkgs > 0)
		c.Label(failed > 0 && pkgs > 0, "failed files")
		c.Label(len(good) > 1, "several files")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// packages without a version or an ecosystem, with any characters in their names
	Check(t, "rows", 80, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		rows, pkgs := []string{}, []Pkg{}

		for i := range intIn(rt, "rows", 0, 14) {
			p := Pkg{
				Name:      pick(rt, "name", []string{"foo", "@scope/bar", "100%d", "a b", "ünï", "a@b", "\"quoted\"", "x,y", "%s", "<b>&amp;"}) + fmt.Sprintf("%02d", i),
				Ecosystem: pick(rt, "ecosystem", []string{"npm", "PyPI", "", "Custom", "Debian:11"}),
				Version:   pick(rt, "version", []string{"1.0.0", "", "1.0%", "abc", "1 2"}),
			}
			p.CompareAs = p.Ecosystem

			if p.Ecosystem == "" {
				p.Commit, p.Version = "abcdef0", ""
			}

			if len(pkgs) > 0 && chance(rt, "again", 15) {
				p = pick(rt, "again", pkgs)
			}

			pkgs = append(pkgs, p)

			q := p
			if q.Ecosystem == "" {
				q.Version = q.Commit
			}

			rows = append(rows, strings.TrimSuffix(string(csvOf([]Pkg{q})), "\n"))
		}

		pkgs = sortPkgs(pkgs)
		args := []string{"--list-packages", "--parse-as", "csv-row"}
		flags := pick(rt, "flags", [][]string{nil, nil, {"--offline"}, {"--use-api"}, {"--config", "nowhere.yml"}, {"--no-config-databases"}, {"--update-config-ignores"}})
		file := chance(rt, "file", 50)

		if file {
			mustWrite(w.path("p.csv"), []byte(strings.Join(rows, "\n")))
			args = []string{"--list-packages", "csv-file:p.csv"}
		} else {
			args = append(args, append([]string{"--"}, rows...)...)
		}

		args = append(flags, args...)
		asJSON, asText := w.run(append([]string{"--json"}, args...)...), w.run(args...)
		res := parseResults(rt, asJSON)

		if w.net.Conns() != 0 || asJSON.Code != 0 || asText.Code != 0 || asText.Stderr != "" {
			rt.Fatalf("want exit code 0 and no network connections: %s\n%s", show(asJSON), show(asText))
		}

		if len(res) != 1 {
			rt.Fatalf("want one result: %s", show(asJSON))
		}

		if d := diffPkgs(pkgsOf(res[0].Packages), pkgs); d != "" {
			rt.Fatalf("%s: %s", d, show(asJSON))
		}

		want := fmt.Sprintf(": found %d %s\n", len(pkgs), plural(len(pkgs), "package", "packages"))
		lines := []string{}

		for _, p := range pkgs {
			lines = append(lines, listed(p))
		}

		want += strings.Join(lines, "\n")

		if !strings.HasSuffix(strings.TrimRight(asText.Stdout, "\n"), strings.TrimRight(want, "\n")) {
			rt.Fatalf("the output has to end with\n%s\n%s", want, show(asText))
		}

		c.Nontrivial(len(pkgs) > 0)
		c.Key(rows, file)
		c.Sample(rows)
	})

	// packages with a version and a commit
	Check(t, "commits", 30, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		ps := []map[string]any{}
		pkgs := []Pkg{}
		both := 0

		for i := range intIn(rt, "packages", 1, 10) {
			p := Pkg{
				Name:      fmt.Sprintf("%s/p%d", pick(rt, "vendor", []string{"a", "b", "vendor-x"}), i),
				Version:   pick(rt, "version", []string{"1.0.0", "dev-main", "abcdef0", "", someCommit, "v1.2.3"}),
				Commit:    pick(rt, "commit", []string{"", "abcdef0", someCommit, strings.ToUpper(someCommit), strings.Repeat("0", 64), "dev-main"}),
				Ecosystem: "Packagist",
				CompareAs: "Packagist",
			}

			if p.Version != "" && p.Commit != "" {
				both++
			}

			pkgs = append(pkgs, p)
			ps = append(ps, map[string]any{"name": p.Name, "version": p.Version, "dist": map[string]any{"reference": p.Commit}})
		}

		mustWrite(w.path("composer.lock"), mustJSON(map[string]any{"packages": ps}))

		asText := w.run("--list-packages", "composer.lock")
		want := fmt.Sprintf("composer.lock: found %d %s\n", len(pkgs), plural(len(pkgs), "package", "packages"))

		for _, p := range sortPkgs(pkgs) {
			want += listed(p) + "\n"
		}

		if asText.Code != 0 || strings.TrimSpace(asText.Stdout) != strings.TrimSpace(want) {
			rt.Fatalf("want\n%s\n%s", want, show(asText))
		}

		c.Nontrivial(both > 0)
		c.Key(want)
		c.Sample(want)
	})
}
