package harness

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// a server of archives, and what a client may know of them
type cacheServer struct {
	version int    // of the archive that is served now
	etag    string // its validators
	date    string
	mode    string
}

type cacheEntry struct {
	version int
	etag    string
	date    string
}

func archiveOf(url string, version int) []byte {
	files := []File{}

	// some of them are big
	if version%8 == 5 {
		pad := make([]byte, 1<<20+version*1000)
		seed := uint64(version)

		for i := range pad {
			seed = seed*6364136223846793005 + 1442695040888963407
			pad[i] = byte(seed >> 56)
		}

		files = append(files, File{"dir/pad.bin", pad})
	}

	return zipOf(append(files, File{"dir/x.json", mustJSON(Advisory{
		ID:       fmt.Sprintf("OSV-%s-%d", url[len(url)-1:], version),
		Affected: []Affected{matchEverything("npm", "foo")},
	})}))
}

func cacheFile(tmp, url string) string {
	return filepath.Join(tmp, fmt.Sprintf("osv-detector-%x-db.json", sha256.Sum256([]byte(url))))
}

var cacheDates = []string{
	"Mon, 02 Jan 2023 03:04:05 GMT", "Tue, 03 Jan 2023 03:04:05 GMT", "Wed, 04 Jan 2023 03:04:05 GMT", "Thu, 05 Jan 2023 03:04:05 GMT",
}

func TestC06(t *testing.T) {
	Check(t, "histories", 45, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		// urls that are easy to confuse
		urls := subsetOf(rt, "urls", []string{
			"http://db.test/a", "http://db.test/b", "http://db.test/a?x=1", "http://db.test/A", "http://db.test/a/a", "http://other.db.test/a", "https://db.test/a", "http://db.test:8080/a", "http://db.test/a?x=2", "http://db.test/a%20a",
		}, 1, 2)
		servers := map[string]*cacheServer{}
		cache := map[string]*cacheEntry{} // nil: no usable copy
		blocked := map[string]bool{}      // the cache cannot be written
		next := 0
		trace := []string{}
		named := false // copies are where they are expected, and so can be damaged
		confirmed, damaged, failures, noValidators := 0, 0, 0, 0

		newArchive := func(s *cacheServer) {
			next++
			s.version = next

			// not every server changes what it is to be known by
			if s.etag != "" && chance(rt, "same etag", 15) {
				return
			}

			s.etag = ""
			s.date = pick(rt, "date", cacheDates)

			if chance(rt, "etag", 60) {
				s.etag = fmt.Sprintf(`"v%d"`, next)
				if chance(rt, "weak", 30) {
					s.etag = "W/" + s.etag
				}

				if chance(rt, "no date", 15) {
					s.date = ""
				}
			}
		}

		for _, u := range urls {
			servers[u] = &cacheServer{mode: "ok"}
			newArchive(servers[u])
		}

		// what the handler did for the request of the current run
		var handled struct {
			url    string
			status int
			inm    []string
			ims    []string
			n      int
		}

		w.serve("http://", func(rw http.ResponseWriter, _ *http.Request, _ []byte) { http.Error(rw, "?", http.StatusNotFound) })
		w.net = UseNet(func(rw http.ResponseWriter, r *http.Request, _ []byte) {
			u := r.URL.String()
			s, ok := servers[u]
			handled.n++
			handled.url = u
			handled.inm = r.Header.Values("If-None-Match")
			handled.ims = r.Header.Values("If-Modified-Since")

			if !ok {
				handled.status = 404
				http.Error(rw, "not found", http.StatusNotFound)

				return
			}

			switch s.mode {
			case "error":
				handled.status = 500
				rw.WriteHeader(pickStatus(s.version))

				return
			case "drop":
				handled.status = 0
				hangUp(rw)

				return
			case "short":
				handled.status = 0
				rw.Header().Set("ETag", s.etag)
				shortBody(rw, archiveOf(u, s.version))

				return
			case "lying":
				// claims that nothing changed whatever was asked
				handled.status = 304
				rw.WriteHeader(http.StatusNotModified)

				return
			}

			// RFC 9110: If-Modified-Since only counts without If-None-Match
			match := false
			inm := r.Header.Get("If-None-Match")

			if inm != "" {
				match = s.etag != "" && inm == s.etag
			} else if ims := r.Header.Get("If-Modified-Since"); ims != "" {
				match = s.date == ims
			}

			// nor does every server look at what it is asked
			if match && s.mode != "always" {
				handled.status = 304
				rw.WriteHeader(http.StatusNotModified)

				return
			}

			handled.status = 200

			if s.mode == "bare" {
				rw.Header()["Date"] = nil
			} else {
				rw.Header()["Date"] = nil
				if s.date != "" {
					rw.Header().Set("Date", s.date)
				}

				if s.etag != "" {
					rw.Header().Set("ETag", s.etag)
				}
			}

			body := archiveOf(u, s.version)

			if s.version%4 == 2 {
				// in two pieces, without saying how much there is
				_, _ = rw.Write(body[:len(body)/2])
				body = body[len(body)/2:]

				rw.(http.Flusher).Flush()
			}

			if s.version%4 == 3 {
				writeZipped(rw, r, body)

				return
			}

			_, _ = rw.Write(body)
		})

		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		doRun := func(u string) {
			s := servers[u]
			entry := DBEntry{Name: "db", URL: u, Type: "zip"}

			if chance(rt, "working directory", 30) {
				entry.WorkDir = "dir"
			}

			mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: []DBEntry{entry}}))
			handled.n = 0

			out := w.run("--json", "--use-dbs=false", "--config", "conf.yml", "csv-file:p.csv")
			res := parseResults(rt, out)
			have := cache[u]
			desc := fmt.Sprintf("run %s (server: %+v, cached: %+v): exit %d", u, *s, have, out.Code)
			trace = append(trace, desc)
			fail := func(format string, a ...any) {
				rt.Fatalf("%s\nhistory:\n%s\n%s", fmt.Sprintf(format, a...), strings.Join(trace, "\n"), show(out))
			}

			if handled.n == 0 || handled.url != u {
				fail("the archive was not requested")
			}

			// validators
			if have == nil {
				if strings.Join(handled.inm, "")+strings.Join(handled.ims, "") != "" {
					fail("validators %q %q were sent although there is no usable copy", handled.inm, handled.ims)
				}
			} else {
				if strings.Join(handled.inm, ",") != have.etag || strings.Join(handled.ims, ",") != have.date {
					fail("validators %q %q were sent, but the ones of the cached copy are %q %q", handled.inm, handled.ims, have.etag, have.date)
				}
			}

			used := 0

			switch {
			case handled.status == 200:
				used = s.version

				if s.mode == "bare" {
					// nothing to validate it by: the copy that was there stays as it was
					noValidators++
				} else if !blocked[u] {
					cache[u] = &cacheEntry{s.version, s.etag, s.date}
					named = exists(cacheFile(w.tmp, u))
				}
			case handled.status == 304 && have != nil:
				used = have.version
				confirmed++
			default:
				failures++
			}

			if used == 0 {
				if out.Code != 127 {
					fail("the download failed but the exit code is %d", out.Code)
				}

				for _, r := range res {
					for _, p := range r.Packages {
						if len(p.Vulnerabilities) != 0 {
							fail("the download failed but there are findings")
						}
					}
				}

				return
			}

			if out.Code != 1 {
				fail("exit code %d, want 1", out.Code)
			}

			want := fmt.Sprintf("OSV-%s-%d", u[len(u)-1:], used)
			if len(res) != 1 || len(res[0].Packages) != 1 || strings.Join(idsOf(res[0].Packages[0].Vulnerabilities), " ") != want {
				fail("archive %d has to be used, with %s", used, want)
			}
		}

		if chance(rt, "start with a run", 50) {
			doRun(urls[0])
		}

		steps := intIn(rt, "steps", 3, 12)
		for range steps {
			u := pick(rt, "url", urls)
			s := servers[u]

			switch intIn(rt, "step", 0, 11) {
			case 0, 1:
				newArchive(s)
				trace = append(trace, fmt.Sprintf("new archive %+v", *s))
			case 2, 3:
				s.mode = pick(rt, "mode", []string{"ok", "ok", "error", "drop", "short", "bare", "lying", "always", "always"})
				trace = append(trace, "server of "+u+" now: "+s.mode)
			case 4:
				// damage
				p := cacheFile(w.tmp, u)
				content, err := os.ReadFile(p)

				if err != nil {
					break
				}

				how := intIn(rt, "damage", 0, 6)
				switch how {
				case 0:
					content = content[:uniform(rt, "cut", len(content))]
				case 1:
					content = []byte("garbage")
				case 2:
					content = nil
				case 3:
					content = []byte(strings.Replace(string(content), `"body":"`, `"body":"!!`, 1))
				case 4:
					content = []byte(`[]`)
				case 5:
					content = []byte(strings.Replace(string(content), `"etag":"`, `"etag":5,"x":"`, 1))
				case 6:
					content = append(content, "}"...)
				}

				var probe struct {
					ETag string `json:"etag"`
					Body []byte `json:"body"`
				}

				if json.Unmarshal(content, &probe) == nil {
					// there was nothing to damage in that way
					break
				}

				mustWrite(p, content)
				cache[u] = nil
				damaged++
				trace = append(trace, fmt.Sprintf("damage %d to the cache of %s", how, u))
			case 5:
				if !named {
					break
				}

				p := cacheFile(w.tmp, u)
				if blocked[u] {
					if err := os.Remove(p); err != nil {
						infra("remove: %v", err)
					}

					blocked[u] = false
				} else {
					_ = os.Remove(p)

					if chance(rt, "block", 30) {
						if err := os.Mkdir(p, 0o755); err != nil {
							infra("mkdir: %v", err)
						}

						blocked[u] = true
					}
				}

				cache[u] = nil
				trace = append(trace, fmt.Sprintf("the cache of %s is removed (unwritable: %v)", u, blocked[u]))
			default:
				doRun(u)
			}
		}

		// the end is always a run with a server that works
		for _, u := range urls {
			doRun(u)
			servers[u].mode = "ok"
			doRun(u)
		}

		c.Nontrivial(confirmed > 0 && (damaged > 0 || failures > 0 || noValidators > 0))
		c.Key(strings.Join(trace, "\n"))
		c.Label(confirmed > 0, "confirmed copy used")
		c.Label(damaged > 0, "damaged cache")
		c.Label(failures > 0, "failed download")
		c.Label(noValidators > 0, "no validators")
		c.Label(len(urls) > 1, "two urls")
		c.Sample(trace)
	})

	// several runs at the same time, with one cache
	Check(t, "concurrent", 14, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		n := intIn(rt, "runs at the same time", 2, 6)
		urls := []string{"http://db.test/a", "http://db.test/b"}[:intIn(rt, "urls", 1, 2)]
		versions := map[string]int{}
		size := pick(rt, "size", []int{0, 1000, 300000})
		archive := func(u string, v int) []byte {
			return zipOf([]File{
				{"pad.txt", []byte(strings.Repeat("x", size*(v%3)))},
				{"dir/x.json", mustJSON(Advisory{ID: fmt.Sprintf("OSV-%s-%d", u[len(u)-1:], v), Affected: []Affected{matchEverything("npm", "foo")}})},
			})
		}

		var mu sync.Mutex

		confirmed := 0
		w.net = UseNet(func(rw http.ResponseWriter, r *http.Request, _ []byte) {
			u := r.URL.String()
			etag := fmt.Sprintf(`"v%d"`, versions[u])

			if r.Header.Get("If-None-Match") == etag {
				mu.Lock()
				confirmed++
				mu.Unlock()
				rw.WriteHeader(http.StatusNotModified)

				return
			}

			rw.Header().Set("ETag", etag)
			rw.Header().Set("Date", cacheDates[versions[u]%len(cacheDates)])
			_, _ = rw.Write(archive(u, versions[u]))
		})

		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		for _, u := range urls {
			mustWrite(w.path("conf-"+u[len(u)-1:]+".yml"), yamlOf(ConfigFile{Databases: []DBEntry{{Name: "db", URL: u, Type: "zip"}}}))
		}

		rounds := intIn(rt, "rounds", 1, 4)
		for round := range rounds {
			for _, u := range urls {
				if round == 0 || chance(rt, "new archive", 70) {
					versions[u]++
				}
			}

			offline := chance(rt, "offline afterwards", 50)
			outs := make([]Out, n)

			var wg sync.WaitGroup

			for i := range outs {
				wg.Add(1)

				go func() {
					defer wg.Done()

					u := urls[i%len(urls)]
					outs[i] = w.run("--json", "--use-dbs=false", "--config", "conf-"+u[len(u)-1:]+".yml", "csv-file:p.csv")
				}()
			}

			wg.Wait()

			for i := range urls {
				if offline && i < n {
					u := urls[i]
					outs = append(outs[:n:n], w.run("--offline", "--json", "--use-dbs=false", "--config", "conf-"+u[len(u)-1:]+".yml", "csv-file:p.csv"))
				}

				for k, out := range outs {
					u := urls[k%len(urls)]
					if k == n {
						u = urls[i]
					}

					want := fmt.Sprintf("OSV-%s-%d", u[len(u)-1:], versions[u])
					res := parseResults(rt, out)

					if out.Code != 1 || len(res) != 1 || len(res[0].Packages) != 1 || strings.Join(idsOf(res[0].Packages[0].Vulnerabilities), " ") != want {
						rt.Fatalf("run %d of %d at the same time (round %d) has to use %s: %s", k+1, n, round+1, want, show(out))
					}
				}
			}
		}

		c.Nontrivial(n > 1)
		c.Label(confirmed > 0, "confirmed copy used")
		c.Key(n, len(urls), size, rounds, versions)
		c.Sample(map[string]any{"runs at the same time": n, "urls": urls, "rounds": rounds, "size": size})
	})
}

func pickStatus(n int) int { return []int{500, 503, 404, 403, 429, 204, 206}[n%7] }
