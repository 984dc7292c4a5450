package harness

import (
	"fmt"
	"net/http"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

type c31DB struct {
	Kind  string
	Fault string
	Advs  []Advisory
	entry DBEntry
}

// advisory as far as it can be told apart in the results
func (v ResVuln) adv() Advisory {
	return Advisory{ID: v.ID, Aliases: v.Aliases, Summary: v.Summary}
}

func TestC31(t *testing.T) {
	Check(t, "cli", 110, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		names := []string{"foo", "bar", "baz"}
		pkgs := []Pkg{}

		for _, nm := range names {
			for _, v := range subsetOf(rt, "version", []string{"1.2.3", "1.5.0", "3.0.0"}, 1, 2) {
				pkgs = append(pkgs, Pkg{Name: nm, Version: v, Ecosystem: "npm", CompareAs: "npm"})
			}
		}

		ids := subsetOf(rt, "id", c05IDs, 3, 9)
		density := intIn(rt, "density", 0, 40)
		dbs := []*c31DB{}
		sameName := chance(rt, "same name", 15)
		same := false

		n := intIn(rt, "databases", 2, 4)
		if chance(rt, "many databases", 4) {
			n = intIn(rt, "databases", 5, 12)
		}

		for i := range n {
			db := &c31DB{Kind: pick(rt, "kind", []string{"dir", "zip", "dir", "zip", "api"})}
			name := fmt.Sprintf("db%d", i)

			// each database has its own view of a vulnerability
			for _, id := range ids {
				if !chance(rt, "in this database", 55) {
					continue
				}

				a := Advisory{ID: id, Affected: []Affected{}, Summary: id + " as of " + name}

				for _, x := range append([]string{"CVE-X", "CVE-XY"}, ids...) {
					if x != id && chance(rt, "alias", density*2/(3+len(ids))) {
						a.Aliases = append(a.Aliases, x)
					}
				}

				for _, nm := range subsetOf(rt, "affected", names, 1, 3) {
					e := genMatchAll(rt)
					e.Package = AdvPackage{"npm", nm}
					a.Affected = append(a.Affected, e)
				}

				if db.Kind != "api" && chance(rt, "withdrawn", 10) {
					a.Withdrawn = "2021-03-04T05:06:07Z"
				}

				db.Advs = append(db.Advs, a)
			}

			db.Advs = shuffled(rt, "order", db.Advs)
			db.entry = w.makeDB(name, db.Kind, db.Advs)

			// two parts of one directory or archive
			if i > 0 && dbs[i-1].Kind == db.Kind && db.Kind != "api" && dbs[i-1].Fault == "" && dbs[i-1].entry.WorkDir == "" && len(db.Advs) > 0 && len(dbs[i-1].Advs) > 0 && chance(rt, "same place", 30) {
				prev := dbs[i-1]
				subs := pick(rt, "working directories", [][]string{{"one", "two"}, {"a/b", "a/c"}, {"a", "a-b"}, {"x", "X"}})
				files := append(advFiles(subs[0], prev.Advs), advFiles(subs[1]+"/deep", db.Advs)...)

				if db.Kind == "dir" {
					db.entry.URL = fileURL(w.writeTree(name+"-both", files))
				} else {
					w.serveBytes(db.entry.URL, zipOf(files))
				}

				prev.entry.URL, prev.entry.WorkDir, db.entry.WorkDir = db.entry.URL, subs[0], subs[1]
				same = true
			} else if chance(rt, "fails", 12) {
				db.Fault = "fails"

				switch db.Kind {
				case "dir":
					db.entry.URL = fileURL(filepath.Join(w.c.Dir(), "dbs", "nowhere"))
				case "zip":
					w.serveBytes(db.entry.URL, []byte("not a zip"))
				case "api":
					w.serve(db.entry.URL+"/querybatch", func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
						http.Error(rw, "no", http.StatusInternalServerError)
					})
				}
			}

			if sameName {
				db.entry.Name = "a database"
			}

			dbs = append(dbs, db)
		}

		mustWrite(w.path("p.csv"), csvOf(pkgs))

		ignores := subsetOf(rt, "ignored", ids, 0, 3)
		args := []string{"--json", "--use-dbs=false", "--parse-as", "csv-file", fmt.Sprintf("--batch-size=%d", intIn(rt, "batch size", 1, 8))}

		for _, i := range ignores {
			args = append(args, "--ignore", i)
		}

		scan := func(name string, entries []DBEntry) (Res, Out) {
			mustWrite(w.path(name), yamlOf(ConfigFile{Databases: entries}))
			out := w.run(append(append([]string{}, args...), "--config", name, "p.csv")...)
			res := parseResults(rt, out)

			if len(res) != 1 || diffPkgs(pkgsOf(res[0].Packages), sortPkgs(pkgs)) != "" {
				rt.Fatalf("unexpected packages: %s", show(out))
			}

			return res[0], out
		}

		all := []DBEntry{}
		alone := []Res{}
		aloneOut := ""
		local := true
		working := 0

		for i, db := range dbs {
			all = append(all, db.entry)
			res, out := scan(fmt.Sprintf("conf%d.yml", i), []DBEntry{db.entry})
			alone = append(alone, res)
			aloneOut += "\n--- alone: " + show(out)

			if db.Kind == "api" {
				local = false
			}

			if db.Fault == "" || db.Kind == "api" {
				working++
			}

			if db.Fault != "" && out.Code != 127 {
				rt.Fatalf("a database that cannot be used gives exit code %d: %s", out.Code, show(out))
			}
		}

		// the same database twice is the same as once
		if chance(rt, "repeated", 20) {
			e := pick(rt, "repeated database", all)
			if chance(rt, "other name", 50) {
				e.Name = "another name"
			}

			all = append(all, e)
		}

		got, out := scan("conf.yml", all)

		if n := strings.Count(out.Stderr, "Using db "); n != working {
			rt.Fatalf("%d databases are used, want %d: %s", n, working, show(out))
		}

		merged, skipped := 0, 0

		for i, p := range got.Packages {
			fail := func(format string, a ...any) {
				rt.Fatalf("%s of %s: %s%s", fmt.Sprintf(format, a...), p.Pkg, show(out), aloneOut)
			}

			// what each database says, in their order, without what is already listed
			listed := []Advisory{}
			want := map[bool][]Advisory{}
			known := func(a Advisory) bool {
				for _, b := range listed {
					if related(a, b) {
						return true
					}
				}

				return false
			}

			contributing := 0

			for _, res := range alone {
				added := false

				// the order of findings and of ignored findings is given, but not the one between
				// them; a database never has two related findings
				for k, vs := range [][]ResVuln{res.Packages[i].Vulnerabilities, res.Packages[i].Ignored} {
					fresh := []Advisory{}

					for _, v := range vs {
						if known(v.adv()) {
							skipped++
						} else {
							fresh = append(fresh, v.adv())
						}
					}

					want[k == 1] = append(want[k == 1], fresh...)
					added = added || len(fresh) > 0
					listed = append(listed, fresh...)
				}

				if added {
					contributing++
				}
			}

			if contributing > 1 {
				merged++
			}

			for _, ignored := range []bool{false, true} {
				vs := p.Vulnerabilities
				if ignored {
					vs = p.Ignored
				}

				if local {
					have := []Advisory{}
					for _, v := range vs {
						have = append(have, v.adv())
					}

					if string(mustJSON(have)) != string(mustJSON(append([]Advisory{}, want[ignored]...))) {
						fail("findings (ignored: %v) are\n%s\nbut the databases together say\n%s\n", ignored, mustJSON(have), mustJSON(want[ignored]))
					}

					continue
				}

				// an API lists advisories without leaving out those that are the same, so that
				// another of those can be listed when its first is already known
				for _, v := range vs {
					found := false

					for _, db := range dbs {
						for _, a := range db.Advs {
							if a.ID == v.ID && a.Summary == v.Summary && db.Fault == "" && a.Withdrawn == "" {
								found = true
							}
						}
					}

					if !found {
						fail("%s (%s) is not what a database says", v.ID, v.Summary)
					}
				}
			}

			if !local {
				have := []Advisory{}
				for _, v := range append(append([]ResVuln{}, p.Vulnerabilities...), p.Ignored...) {
					have = append(have, v.adv())
				}

				for d, res := range alone {
					for _, v := range append(append([]ResVuln{}, res.Packages[i].Vulnerabilities...), res.Packages[i].Ignored...) {
						ok := false

						for _, a := range have {
							// all of the first database is listed as it is there
							if d == 0 && a.ID == v.ID && a.Summary == v.Summary || d > 0 && related(a, v.adv()) {
								ok = true
							}
						}

						if !ok {
							fail("%s (%s) is missing", v.ID, v.Summary)
						}
					}
				}
			}
		}

		failing := false
		for _, db := range dbs {
			failing = failing || db.Fault != ""
		}

		if failing && out.Code != 127 && out.Code != 1 || !failing && out.Code > 1 {
			rt.Fatalf("exit code %d: %s", out.Code, show(out))
		}

		c.Nontrivial(merged > 0)
		c.Key(string(mustJSON(dbs)), string(mustJSON(pkgs)), ignores)
		c.Label(skipped > 0, "the same vulnerability in several databases")
		c.Label(merged > 0 && failing, "with a failing database")
		c.Label(!local, "with an API")
		c.Label(same, "parts of one directory or archive")
		c.Sample(map[string]any{"databases": dbs, "packages": pkgs, "ignores": ignores})
	})
}
