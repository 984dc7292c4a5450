package harness

import (
	"fmt"
	"net/http"
	"os"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var usedDB = regexp.MustCompile(`(?m)^  Using db (.+?)(?: \(\d+ vulnerabilit.*\)| \(using batches of.*\))?$`)

// usedDBs returns the names of the databases a section of the output says are used.
func usedDBs(text string) []string {
	out := []string{}
	for _, m := range usedDB.FindAllStringSubmatch(text, -1) {
		out = append(out, m[1])
	}

	return out
}

func TestC07(t *testing.T) {
	Check(t, "histories", 70, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		trace := []string{}
		next := 0
		newAdvs := func() []Advisory {
			out := []Advisory{}

			for range intIn(rt, "advisories", 1, 3) {
				next++
				e := genMatchAll(rt)
				e.Package = AdvPackage{pick(rt, "ecosystem", []string{"npm", "PyPI"}), pick(rt, "name", []string{"foo", "bar"})}
				out = append(out, Advisory{ID: fmt.Sprintf("OSV-%d", next), Affected: []Affected{e}})
			}

			return out
		}

		// two entries with one archive but different working directories are one download
		archives := map[string]map[string][]Advisory{} // url -> directory -> advisories
		cached := map[string]map[string][]Advisory{}   // nil: no usable copy
		refresh := func(u string) {
			archives[u] = map[string][]Advisory{"one": newAdvs(), "two": newAdvs()}
			body := zipOf(append(advFiles("one", archives[u]["one"]), advFiles("two", archives[u]["two"])...))

			switch intIn(rt, "way", 0, 5) {
			case 0: // in pieces, without saying how much there is
				w.serve(u, func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
					rw.Header().Set("Date", fixedDate)

					for rest := body; len(rest) > 0; {
						n := min(len(rest), 500)
						_, _ = rw.Write(rest[:n])
						rest = rest[n:]

						rw.(http.Flusher).Flush()
					}
				})
			case 2: // compressed
				w.serve(u, func(rw http.ResponseWriter, r *http.Request, _ []byte) {
					rw.Header().Set("Date", fixedDate)
					writeZipped(rw, r, body)
				})
			case 1: // from elsewhere
				moved := fmt.Sprintf("http://db.test/moved/%d", next)
				w.serveBytes(moved, body)
				w.serve(u, func(rw http.ResponseWriter, r *http.Request, _ []byte) {
					http.Redirect(rw, r, moved, http.StatusFound)
				})
			default:
				w.serveBytes(u, body)
			}
		}
		zips := []string{"http://db.test/x.zip", "http://db.test/y.zip", ecoBase + "npm/all.zip", ecoBase + "PyPI/all.zip"}

		for _, u := range zips {
			refresh(u)
		}

		dirAdvs := newAdvs()
		dirURL := fileURL(w.writeTree("local", advFiles("", dirAdvs)))

		apiAdvs := newAdvs()
		w.serveAPIOf("http://db.test/v1", apiAdvs)
		w.serveAPIOf(apiBase, apiAdvs)

		entries := []DBEntry{
			{Name: "x-all", URL: zips[0]}, {Name: "x-one", URL: zips[0], WorkDir: "one"}, {Name: "y-two", URL: zips[1], WorkDir: "two"},
			{Name: "y-all", URL: zips[1]}, {Name: "local", URL: dirURL}, {Name: "api", URL: "http://db.test/v1"},
		}

		pkgs := []Pkg{}
		for _, e := range subsetOf(rt, "ecosystems", []string{"npm", "PyPI"}, 1, 2) {
			for _, n := range []string{"foo", "bar"} {
				pkgs = append(pkgs, Pkg{Name: n, Version: "1.2.3", Ecosystem: e, CompareAs: "npm"})
			}
		}

		mustWrite(w.path("p.csv"), csvOf(pkgs))

		offlineRuns, fromCache, missing := 0, 0, 0

		doRun := func(offline bool) {
			conf := subsetOf(rt, "databases", entries, 0, 4)
			useDBs := chance(rt, "use-dbs", 50)
			useAPI := chance(rt, "use-api", 20)

			if !offline {
				// the API is not what this is about
				useAPI = false
				kept := []DBEntry{}

				for _, e := range conf {
					if e.Kind() != "api" {
						kept = append(kept, e)
					}
				}

				conf = kept
			}

			mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: conf}))
			args := []string{"--json", "--config", "conf.yml", fmt.Sprintf("--use-dbs=%v", useDBs)}

			if useAPI {
				args = append(args, "--use-api")
				conf = append(conf, DBEntry{Name: "osv.dev v1 API", URL: apiBase, Type: "api"})
			}

			if offline {
				args = append(args, "--offline")
			}

			if useDBs {
				ecos := []string{}
				for _, p := range pkgs {
					ecos = append(ecos, p.Ecosystem)
				}

				for _, e := range uniq(sortedCopy(ecos)) {
					conf = append(conf, DBEntry{Name: e, URL: ecoBase + e + "/all.zip", Type: "zip"})
				}
			}

			w.net.Reset()

			out := w.run(append(args, "csv-file:p.csv")...)
			res := parseResults(rt, out)
			trace = append(trace, fmt.Sprintf("run %q: exit %d", args, out.Code))
			fail := func(format string, a ...any) {
				rt.Fatalf("%s\nhistory:\n%s\n%s", fmt.Sprintf(format, a...), strings.Join(trace, "\n"), show(out))
			}

			if offline && w.net.Conns() != 0 {
				fail("there were %d network connections offline: %v", w.net.Conns(), w.net.Requests())
			}

			// what each database has for this run
			wantFailed := []string{}
			have := []Advisory{}

			for _, e := range conf {
				switch e.Kind() {
				case "api":
					wantFailed = append(wantFailed, e.Name)
				case "dir":
					have = append(have, dirAdvs...)
				case "zip":
					content := archives[e.URL]

					if offline {
						content = cached[e.URL]
						if content == nil {
							missing++
							wantFailed = append(wantFailed, e.Name)

							continue
						}

						fromCache++
					} else {
						cached[e.URL] = content
					}

					if e.WorkDir == "" || e.WorkDir == "one" {
						have = append(have, content["one"]...)
					}

					if e.WorkDir == "" || e.WorkDir == "two" {
						have = append(have, content["two"]...)
					}
				}
			}

			if offline {
				offlineRuns++
			}

			wantUsed := []string{}
			for _, e := range conf {
				if !contains(wantFailed, e.Name) {
					wantUsed = append(wantUsed, e.Name)
				}
			}

			if got := sortedCopy(usedDBs(out.Stderr)); strings.Join(got, ",") != strings.Join(sortedCopy(wantUsed), ",") {
				fail("databases %v are used, want %v", got, wantUsed)
			}

			if n := strings.Count(out.Stderr, " failed: "); n != len(wantFailed) {
				fail("%d databases are said to have failed, want %v", n, wantFailed)
			}

			if len(res) != 1 || diffPkgs(pkgsOf(res[0].Packages), sortPkgs(pkgs)) != "" {
				fail("unexpected packages")
			}

			total := 0

			for _, p := range res[0].Packages {
				want := []string{}

				for _, a := range have {
					if affects(a, p.Pkg, simpleRank) {
						want = append(want, a.ID)
					}
				}

				want = uniq(sortedCopy(want))
				got := sortedCopy(idsOf(p.Vulnerabilities))
				total += len(got)

				if strings.Join(got, " ") != strings.Join(want, " ") {
					fail("findings of %s are %v, want %v", p.Pkg, got, want)
				}
			}

			wantCode := 0
			if total > 0 {
				wantCode = 1
			}

			if len(wantFailed) > 0 {
				wantCode = 127
			}

			if out.Code != wantCode {
				fail("exit code %d, want %d", out.Code, wantCode)
			}
		}

		for range intIn(rt, "steps", 3, 9) {
			switch intIn(rt, "step", 0, 7) {
			case 0:
				u := pick(rt, "archive", zips)
				refresh(u)
				trace = append(trace, "new archive at "+u)
			case 1:
				u := pick(rt, "archive", zips)
				p := cacheFile(w.tmp, u)

				if !exists(p) {
					break
				}

				if chance(rt, "remove", 50) {
					if err := os.Remove(p); err != nil {
						infra("remove: %v", err)
					}
				} else {
					content, err := os.ReadFile(p)
					if err != nil {
						infra("read: %v", err)
					}

					mustWrite(p, content[:uniform(rt, "cut", len(content))])
				}

				cached[u] = nil
				trace = append(trace, "the cache of "+u+" is gone")
			case 2, 3, 4:
				doRun(false)
			default:
				doRun(true)
			}
		}

		doRun(true)

		// other things to do offline
		if chance(rt, "list", 20) {
			w.net.Reset()
			w.run("--offline", "--list-packages", "csv-file:p.csv")

			if w.net.Conns() != 0 {
				rt.Fatalf("there were network connections offline when listing packages")
			}
		}

		c.Nontrivial(fromCache > 0)
		c.Key(strings.Join(trace, "\n"))
		c.Label(fromCache > 0, "cached copy used offline")
		c.Label(missing > 0, "no usable copy offline")
		c.Label(offlineRuns > 1, "several offline runs")
		c.Sample(trace)
	})

	// whatever the flags, configs and lockfiles
	Check(t, "scenes", 60, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{BrokenLocks: true, BrokenConfs: true, InvalidDBs: true, Aliases: true})
		r := s.genRun(rt, true)
		r.ExtraBefore = []string{"--offline"}

		if chance(rt, "online first", 50) {
			o := *r
			o.ExtraBefore = nil
			s.exec(&o, false)
		}

		r.Update = chance(rt, "update", 10)
		r.ListPkgs = chance(rt, "list", 10)
		s.w.net.Reset()

		out := s.exec(r, chance(rt, "json", 50))
		if out.Crashed() {
			rt.Fatalf("the run crashed: %s", show(out))
		}

		if n := s.w.net.Conns(); n != 0 {
			rt.Fatalf("there were %d network connections offline (%v): %s", n, s.w.net.Requests(), show(out))
		}

		remote := 0
		for _, f := range s.filesOf(r) {
			for _, db := range f.DBs {
				if db.Entry.Kind() != "dir" {
					remote++
				}
			}
		}

		c.Nontrivial(remote > 0)
		c.Key(s.key(r))
		c.Label(remote > 0, "remote databases")
		c.Sample(s.describe(r))
	})
}
