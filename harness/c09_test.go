package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// wantCodes returns the exit codes that are right for the run, which reported the
// given number of unignored findings.
func (s *Scene) wantCodes(r *SceneRun, findings int) []int {
	if strings.HasPrefix(r.ParseAs, "unknown") {
		return []int{127}
	}

	items, unreadable := r.items(), false

	for _, a := range r.Args {
		if a.Fails {
			unreadable = true
		}
	}

	if len(items) == 0 {
		if unreadable || len(r.Args) == 0 {
			return []int{127}
		}

		return []int{128}
	}

	if r.Config != "" && !r.NoConfig && s.confs[r.Config].Invalid {
		return []int{127}
	}

	soft, unclear := unreadable, false

	for _, f := range s.filesOf(r) {
		if f.Conf != nil && !f.Conf.Invalid {
			for _, db := range f.Conf.DBs {
				if db.Fault == "invalid" {
					if r.NoDBs {
						unclear = true
					} else {
						soft = true
					}
				}
			}
		}

		if f.Failed {
			return []int{127}
		}

		for _, db := range f.DBs {
			switch db.Fault {
			case "load":
				return []int{127}
			case "check":
				// an API is only asked if there is something to ask
				if len(f.Item.Lock.Pkgs) > 0 {
					soft = true
				}
			}
		}
	}

	switch {
	case findings > 0 && (soft || unclear):
		return []int{1, 127}
	case findings > 0:
		return []int{1}
	case soft:
		return []int{127}
	case unclear:
		return []int{0, 127}
	}

	return []int{0}
}

func hasInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}

	return false
}

func countFindings(res []Res) (findings, ignored int) {
	for _, r := range res {
		for _, p := range r.Packages {
			findings += len(p.Vulnerabilities)
			ignored += len(p.Ignored)
		}
	}

	return findings, ignored
}

func TestC09(t *testing.T) {
	Check(t, "scenes", 150, func(rt *rapid.T, c *Case) {
		o := SceneOpts{Aliases: true, Withdrawn: true}

		// each kind of problem in some of the scenes, so that the other outcomes are seen as well
		if chance(rt, "problems", 60) {
			o.BrokenLocks = chance(rt, "broken lockfiles", 40)
			o.BrokenConfs = chance(rt, "broken configs", 40)
			o.BrokenDBs = chance(rt, "broken databases", 40)
			o.InvalidDBs = chance(rt, "invalid databases", 40)
		}

		s := genScene(rt, c, o)
		r := s.genRun(rt, chance(rt, "path problems", 40))

		switch intIn(rt, "special", 0, 19) {
		case 0:
			r.ParseAs = "unknown.lock"
		case 1:
			r.Args = nil
		case 2:
			r.Args = []SceneArg{{Arg: s.emptyDir()}}
		case 3:
			r.Args = []SceneArg{{Arg: s.emptyDir()}, {Arg: "nowhere", Fails: true}}
		case 4:
			// ignore everything
			r.Ignores = s.ids
		case 5:
			r.Config = "nowhere.yml"
			s.confs[r.Config] = &SceneConf{Path: r.Config, Invalid: true}
		}

		asJSON := s.exec(r, true)
		res := parseResults(rt, asJSON)
		findings, ignored := countFindings(res)
		want := s.wantCodes(r, findings)

		if !hasInt(want, asJSON.Code) {
			rt.Fatalf("exit code %d, want one of %v: %s", asJSON.Code, want, show(asJSON))
		}

		asText := s.exec(r, false)
		if asText.Code != asJSON.Code {
			rt.Fatalf("exit code %d without --json but %d with it: %s\n%s", asText.Code, asJSON.Code, show(asText), show(asJSON))
		}

		if chance(rt, "update", 30) {
			r.Update = true

			if updating := s.exec(r, chance(rt, "json", 50)); updating.Code != asJSON.Code {
				rt.Fatalf("exit code %d with --update-config-ignores but %d without it: %s\n%s", updating.Code, asJSON.Code, show(updating), show(asJSON))
			}
		}

		c.Nontrivial(asJSON.Code != 0 || ignored > 0 || len(res) > 0)
		c.Label(true, fmt.Sprintf("exit %d", asJSON.Code))
		c.Label(asJSON.Code == 127 && findings > 0, "failed and vulnerable")
		c.Label(asJSON.Code == 0 && ignored > 0, "all ignored")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// packages given on the command line
	Check(t, "rows", 60, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		w.addDB("db", "dir", []Advisory{{ID: "OSV-1", Affected: []Affected{matchEverything("npm", "foo")}}})

		args := []string{"--use-dbs=false", "--config", w.writeConfig("conf.yml"), "--parse-as", "csv-row"}
		rows := sliceFrom(rt, "rows", []string{"npm,,foo,1.0.0", "npm,,bar,1.0.0", "PyPI,,foo,1.0.0", ",,foo,abcdef"}, 0, 3)
		want := 0

		for _, r := range rows {
			if r == "npm,,foo,1.0.0" {
				want = 1
			}
		}

		if want == 1 && chance(rt, "ignore", 30) {
			args = append(args, "--ignore", "OSV-1")
			want = 0
		}

		if chance(rt, "bad row", 30) {
			rows = append(rows, pick(rt, "bad", []string{"npm,,foo", "npm,,,1.0.0", ",,foo,", "\"npm,,foo,1.0.0"}))
			rows = shuffled(rt, "order", rows)
			want = 127
		}

		asJSON := w.run(append(append([]string{"--json"}, args...), rows...)...)
		parseResults(rt, asJSON)

		asText := w.run(append(args, rows...)...)

		if asJSON.Code != want || asText.Code != want {
			rt.Fatalf("exit codes %d and %d, want %d: %s\n%s", asJSON.Code, asText.Code, want, show(asJSON), show(asText))
		}

		c.Nontrivial(want != 0)
		c.Label(true, fmt.Sprintf("exit %d", want))
		c.Key(args, rows)
		c.Sample(append(args, rows...))
	})

	// a config that cannot be updated any more when the scan is done
	Check(t, "lost config", 12, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		found := chance(rt, "found", 50)
		how := pick(rt, "how", []string{"gone", "directory", "not a config"})
		names := []string{"conf.yml"}

		if chance(rt, "own configs", 50) {
			names = []string{"a/.osv-detector.yml", "b/.osv-detector.yml"}
		}

		lost := pick(rt, "lost", names)
		done := false

		var mu sync.Mutex

		w.serve("http://db.test/v1/querybatch", func(rw http.ResponseWriter, _ *http.Request, body []byte) {
			var req struct {
				Queries []APIQuery `json:"queries"`
			}

			_ = json.Unmarshal(body, &req)

			mu.Lock()
			if !done {
				done = true
				_ = os.Remove(w.path(filepath.FromSlash(lost)))

				switch how {
				case "directory":
					_ = os.Mkdir(w.path(filepath.FromSlash(lost)), 0o755)
				case "not a config":
					mustWrite(w.path(filepath.FromSlash(lost)), []byte("ignore: {a: b}\n"))
				}
			}
			mu.Unlock()

			results := []map[string]any{}

			for range req.Queries {
				res := map[string]any{}
				if found {
					res["vulns"] = []map[string]any{{"id": "OSV-1"}}
				}

				results = append(results, res)
			}

			_, _ = rw.Write(mustJSON(map[string]any{"results": results}))
		})
		w.serve("http://db.test/v1/vulns/", func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
			_, _ = rw.Write([]byte(`{"id":"OSV-1"}`))
		})

		for _, n := range names {
			mustWrite(w.path(filepath.FromSlash(n)), yamlOf(ConfigFile{Databases: []DBEntry{{Name: "api", URL: "http://db.test/v1"}}}))
		}

		for _, d := range []string{"a", "b"} {
			mustWrite(w.path(d, "p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))
		}

		args := []string{"--use-dbs=false", "--update-config-ignores"}
		if len(names) == 1 {
			args = append(args, "--config", names[0])
		}

		if chance(rt, "json", 40) {
			args = append(args, "--json")
		}

		out := w.run(append(args, "csv-file:a/p.csv", "csv-file:b/p.csv")...)

		// where there are findings, both that and the error are worth their code
		if out.Code != 127 && (!found || out.Code != 1) {
			rt.Fatalf("the config %s was lost (%s), but the exit code is %d: %s", lost, how, out.Code, show(out))
		}

		if !strings.Contains(out.Stderr, path.Base(lost)) {
			rt.Fatalf("the config %s was lost (%s), but that is not reported: %s", lost, how, show(out))
		}

		c.Nontrivial(true)
		c.Label(true, how)
		c.Key(found, how, lost, args)
		c.Sample(map[string]any{"how": how, "lost": lost, "found": found, "args": args})
	})
}
