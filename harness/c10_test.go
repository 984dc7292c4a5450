package harness

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// sameAdvisory checks that the finding has the content of the advisory.
func sameAdvisory(v map[string]any, a Advisory) error {
	str := func(k string) string { s, _ := v[k].(string); return s }

	if str("id") != a.ID || str("summary") != a.Summary || str("details") != a.Details {
		return fmt.Errorf("id, summary or details differ")
	}

	for k, want := range map[string]string{"published": a.Published, "modified": a.Modified} {
		if want == "" {
			continue
		}

		tw, err := time.Parse(time.RFC3339Nano, want)
		if err != nil {
			infra("time: %v", err)
		}

		if tg, err := time.Parse(time.RFC3339Nano, str(k)); err != nil || !tg.Equal(tw) {
			return fmt.Errorf("%s is %q, want %q", k, str(k), want)
		}
	}

	aliases := []any{}
	for _, x := range a.Aliases {
		aliases = append(aliases, x)
	}

	if got, _ := v["aliases"].([]any); len(got)+len(aliases) > 0 && !reflect.DeepEqual(got, aliases) {
		return fmt.Errorf("aliases are %v, want %v", v["aliases"], aliases)
	}

	entries, ok := v["affected"].([]any)
	if !ok && len(a.Affected) > 0 || len(entries) != len(a.Affected) {
		return fmt.Errorf("there are %d affected entries, want %d", len(entries), len(a.Affected))
	}

	for i, e := range entries {
		var got Affected
		if err := json.Unmarshal(mustJSON(e), &got); err != nil {
			return fmt.Errorf("affected entry %d: %w", i, err)
		}

		want := a.Affected[i]
		if len(got.Versions) == 0 {
			got.Versions = nil
		}

		// the repository of GIT ranges is not part of the output
		want.Ranges = append([]Range(nil), want.Ranges...)
		for j := range want.Ranges {
			want.Ranges[j].Repo = ""
		}

		if len(got.Ranges) == 0 {
			got.Ranges = nil
		}

		if len(want.Versions) == 0 {
			want.Versions = nil
		}

		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("affected entry %d is %s, want %s", i, mustJSON(got), mustJSON(want))
		}
	}

	return nil
}

func TestC10(t *testing.T) {
	Check(t, "scenes", 220, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: chance(rt, "broken lockfiles", 30), BrokenConfs: chance(rt, "broken configs", 20), BrokenDBs: chance(rt, "broken databases", 20),
			InvalidDBs: chance(rt, "invalid databases", 20), Aliases: true, Withdrawn: true, RichText: true, Commits: true,
		})
		r := s.genRun(rt, chance(rt, "path problems", 30))

		if r.Config != "" && s.confs[r.Config].Invalid && chance(rt, "valid config", 70) {
			r.Config = ""
		}

		out := s.exec(r, true)
		parseResults(rt, out)

		var doc map[string]any
		if err := json.Unmarshal([]byte(out.Stdout), &doc); err != nil {
			rt.Fatalf("stdout is not JSON: %v: %s", err, show(out))
		}

		if len(doc) != 1 {
			rt.Fatalf("the document has more than the results: %s", show(out))
		}

		results, ok := doc["results"].([]any)
		if !ok {
			rt.Fatalf("the results are not a list: %s", show(out))
		}

		want := []SceneFile{}

		if !(r.Config != "" && !r.NoConfig && s.confs[r.Config].Invalid) {
			for _, f := range s.filesOf(r) {
				if !f.Failed {
					want = append(want, f)
				}
			}
		}

		if len(results) != len(want) {
			rt.Fatalf("%d results, want %d: %s", len(results), len(want), show(out))
		}

		all := map[string]Advisory{}
		for _, db := range s.allDBs() {
			for _, a := range db.Advs {
				all[a.ID] = a
			}
		}

		findings := 0

		for i, x := range results {
			f := want[i]
			res, _ := x.(map[string]any)
			fp, _ := res["filePath"].(string)

			// the path is the one given, cleaned
			if filepath.IsAbs(fp) {
				if fp != s.w.path(filepath.FromSlash(f.Item.Lock.path())) {
					rt.Fatalf("result %d is of %q, want %q: %s", i, fp, f.Item.Lock.path(), show(out))
				}
			} else if fp != f.Item.Lock.path() {
				rt.Fatalf("result %d is of %q, want %q: %s", i, fp, f.Item.Lock.path(), show(out))
			}

			if res["parsedAs"] != f.Item.ParsedAs {
				rt.Fatalf("result %d is parsed as %v, want %v: %s", i, res["parsedAs"], f.Item.ParsedAs, show(out))
			}

			pkgs, ok := res["packages"].([]any)
			if !ok || len(pkgs) != len(f.Item.Lock.Pkgs) {
				rt.Fatalf("result %d has packages %v, want %v: %s", i, res["packages"], f.Item.Lock.Pkgs, show(out))
			}

			for j, y := range pkgs {
				p, _ := y.(map[string]any)
				q := f.Item.Lock.Pkgs[j]
				opt := func(k string) string { v, _ := p[k].(string); return v }

				if p["name"] != q.Name || p["version"] != q.Version || opt("commit") != q.Commit || opt("ecosystem") != q.Ecosystem {
					rt.Fatalf("package %d of %s is %v, want %+v: %s", j, fp, p, q, show(out))
				}

				shown := []Advisory{}

				for _, k := range []string{"vulnerabilities", "ignored"} {
					vs, ok := p[k].([]any)
					if !ok {
						rt.Fatalf("the %s of %v are not a list: %s", k, p["name"], show(out))
					}

					for _, z := range vs {
						v, _ := z.(map[string]any)
						id, _ := v["id"].(string)
						a, ok := all[id]

						if !ok {
							rt.Fatalf("%q is reported but in no database: %s", id, show(out))
						}

						if err := sameAdvisory(v, a); err != nil {
							rt.Fatalf("%s is not reported as it is (%v)\n got: %s\nwant: %s\n%s", id, err, mustJSON(v), mustJSON(a), show(out))
						}

						shown = append(shown, a)
						findings++
					}
				}

				// every finding
				for _, advs := range f.candidates(q) {
				next:
					for _, a := range advs {
						for _, b := range shown {
							if related(a, b) {
								continue next
							}
						}

						for _, x := range advs {
							for _, b := range shown {
								if related(a, x) && related(x, b) {
									continue next
								}
							}
						}

						rt.Fatalf("%s of %v is not in the document: %s", a.ID, p["name"], show(out))
					}
				}
			}
		}

		c.Nontrivial(findings > 0 || len(results) != len(r.items()))
		c.Label(findings > 0, "findings")
		c.Label(len(results) != len(r.items()), "failed files")
		c.Label(strings.Contains(out.Stdout, "commit"), "commits")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// packages with unusual fields
	Check(t, "packages", 40, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		pkgs, advs := []Pkg{}, []Advisory{}
		odd := 0

		for i := range intIn(rt, "packages", 1, 8) {
			p := Pkg{
				Name:      fmt.Sprintf("p%d%s", i, pick(rt, "suffix", []string{"", "", " x", "<b>&", "\"q\"", "\\", "é漢", "/a", "\t", "@1"})),
				Version:   pick(rt, "version", []string{"1.0.0", "1.0.0", "", "", "0", "<1>", "1.0 beta", "null", "é"}),
				Ecosystem: pick(rt, "ecosystem", []string{"npm", "PyPI", "Debian:11", "Alpine:v3.1", "no & such"}),
			}
			p.CompareAs = pick(rt, "compare as", []string{p.Ecosystem, "npm", "PyPI"})

			if chance(rt, "by commit", 20) {
				p.Commit = pick(rt, "commit", []string{genCommit(rt), "abc", "0"})
				p.Ecosystem, p.CompareAs, p.Version = "", "", ""
			}

			if p.Ecosystem != "" && chance(rt, "affected", 60) {
				advs = append(advs, Advisory{ID: fmt.Sprintf("OSV-%d", i), Affected: []Affected{matchEverything(p.Ecosystem, p.Name)}})
			}

			if p.Version == "" {
				odd++
			}

			pkgs = append(pkgs, p)
		}

		w.addDB("db", "dir", advs)
		mustWrite(w.path("p.csv"), csvCommits(pkgs))

		args := []string{"--json", "--use-dbs=false", "--config", w.writeConfig("conf.yml"), "csv-file:p.csv"}
		list := chance(rt, "list", 25)

		if list {
			args = []string{"--json", "--list-packages", "csv-file:p.csv"}
		}

		out := w.run(args...)
		parseResults(rt, out)

		var doc struct {
			Results []struct {
				Packages []map[string]any `json:"packages"`
			} `json:"results"`
		}

		if err := json.Unmarshal([]byte(out.Stdout), &doc); err != nil || len(doc.Results) != 1 || len(doc.Results[0].Packages) != len(pkgs) {
			rt.Fatalf("want one result with %d packages (%v): %s", len(pkgs), err, show(out))
		}

		key := func(p Pkg) string { return strings.Join([]string{p.Name, p.Version, p.Commit, p.Ecosystem}, "\x00") }
		rest := map[string]int{}

		for _, p := range pkgs {
			rest[key(p)]++
		}

		for _, m := range doc.Results[0].Packages {
			opt := func(k string) string { v, _ := m[k].(string); return v }

			// only what a package can lack is left out
			for _, k := range []string{"name", "version"} {
				if _, ok := m[k].(string); !ok {
					rt.Fatalf("a package has no %s: %s", k, show(out))
				}
			}

			k := key(Pkg{Name: opt("name"), Version: opt("version"), Commit: opt("commit"), Ecosystem: opt("ecosystem")})
			if rest[k]--; rest[k] < 0 {
				rt.Fatalf("package %q is not in the file: %s", k, show(out))
			}
		}

		c.Nontrivial(odd > 0)
		c.Label(odd > 0, "packages without version")
		c.Label(list, "listed")
		c.Key(string(mustJSON(pkgs)), list)
		c.Sample(pkgs)
	})

	// runs that end early
	Check(t, "early", 25, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		mustWrite(w.path("empty", "README.md"), []byte("x"))
		mustWrite(w.path("Cargo.lock"), []byte("not toml ["))
		mustWrite(w.path("bad.yml"), []byte("ignore: ["))
		mustWrite(w.path("requirements.txt"), nil)

		args := pick(rt, "args", [][]string{
			{"--version"}, {"--list-ecosystems"}, {"--parse-as", "nonsense", "x"}, {}, {"empty"}, {"nowhere"}, {"Cargo.lock"}, {"--list-packages", "Cargo.lock"},
			{"--config", "bad.yml", "requirements.txt"}, {"--config", "nowhere.yml", "requirements.txt"}, {"csv-file:Cargo.lock"}, {"--parse-as", "csv-row", "x"},
			{"empty", "nowhere"}, {"README.md"}, {"unknown:requirements.txt"}, {"--use-dbs=false", "requirements.txt"}, {"--list-packages", "requirements.txt"},
			{"--parse-as", "csv-row"}, {"--use-dbs=false", "--update-config-ignores", "requirements.txt"},
		})
		out := w.run(append([]string{"--json"}, args...)...)
		res := parseResults(rt, out)

		want := 0
		if contains(args, "requirements.txt") && !contains(args, "--config") || strings.Join(args, " ") == "--parse-as csv-row" {
			want = 1
		}

		if len(res) != want {
			rt.Fatalf("%d results, want %d: %s", len(res), want, show(out))
		}

		c.Nontrivial(true)
		c.Key(args)
		c.Sample(args)
	})
}

// rawPkg is a package in the JSON output with its findings as they are written.
type rawPkg struct {
	Pkg
	Vulnerabilities []json.RawMessage `json:"vulnerabilities"`
	Ignored         []json.RawMessage `json:"ignored"`
}

// rawDoc is a result in the JSON output with its findings as they are written.
type rawDoc struct {
	FilePath string   `json:"filePath"`
	ParsedAs string   `json:"parsedAs"`
	Packages []rawPkg `json:"packages"`
}

func rawDocs(rt *rapid.T, o Out) []rawDoc {
	parseResults(rt, o)

	var doc struct {
		Results []rawDoc `json:"results"`
	}

	if err := json.Unmarshal([]byte(o.Stdout), &doc); err != nil {
		rt.Fatalf("stdout is not JSON: %s", show(o))
	}

	return doc.Results
}

func idOf(v json.RawMessage) string {
	var x struct {
		ID string `json:"id"`
	}

	_ = json.Unmarshal(v, &x)

	return x.ID
}

func joinRaw(vs []json.RawMessage) string {
	out := []string{}
	for _, v := range vs {
		out = append(out, string(v))
	}

	return strings.Join(out, "\n")
}

// numberedFiles are the files of advisories whose ids are no good file names.
func numberedFiles(advs []Advisory) []File {
	out := []File{}
	for i, a := range advs {
		out = append(out, File{fmt.Sprintf("%03d.json", i), mustJSON(a)})
	}

	return out
}
