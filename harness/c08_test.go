package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// apiKey is what a query of the package has to ask.
func apiKey(p Pkg) string {
	if p.Name != "" && p.Ecosystem != "" && p.Version != "" {
		return "pkg\x00" + p.Ecosystem + "\x00" + p.Name + "\x00" + p.Version
	}

	if p.Commit != "" {
		return "commit\x00" + p.Commit
	}

	return "nothing"
}

func queryKey(q APIQuery) string {
	switch {
	case q.Package.Name != "" || q.Package.Ecosystem != "" || q.Version != "":
		k := "pkg\x00" + q.Package.Ecosystem + "\x00" + q.Package.Name + "\x00" + q.Version
		if q.Commit != "" {
			k += "\x00with commit " + q.Commit
		}

		return k
	case q.Commit != "":
		return "commit\x00" + q.Commit
	}

	return "nothing"
}

func TestC08(t *testing.T) {
	run := func(rt *rapid.T, c *Case, faults bool) {
		w := newWorkdir(c)
		n := intIn(rt, "packages", 1, 12)

		if chance(rt, "many packages", 15) {
			n = intIn(rt, "packages", 13, 120)
		}

		manyBatches := chance(rt, "many batches", 3)
		if manyBatches {
			n = intIn(rt, "packages", 101, 150)
		}

		// every package has a query of its own
		pkgs := []Pkg{}

		for i := range n {
			p := Pkg{Name: fmt.Sprintf("p%03d", i), Ecosystem: pick(rt, "ecosystem", []string{"npm", "PyPI", "Debian:11"}), Version: pick(rt, "version", []string{"1.0.0", "2.0.0", "1:2.3-4"})}
			p.CompareAs = p.Ecosystem

			switch intIn(rt, "package kind", 0, 9) {
			case 0, 1:
				// by commit only
				p.Ecosystem, p.CompareAs, p.Version, p.Commit = "", "", "", fmt.Sprintf("%040x", i+1)
			case 2:
				// nothing is known
				p.Version = ""
			}

			pkgs = append(pkgs, p)
		}

		batch := pick(rt, "batch size", []int{1, 2, 3, 4, 5, 7, 10, 1000})
		if chance(rt, "exact batch", 20) {
			batch = max(1, n/intIn(rt, "batches", 1, 3))
		}

		if n/batch > 40 {
			batch = n / 40
		}

		if manyBatches {
			batch = 1
		}

		if uniform(rt, "very many packages", 100) == 99 {
			for i := range intIn(rt, "more packages", 800, 2200) {
				pkgs = append(pkgs, Pkg{Name: fmt.Sprintf("q%04d", i), Ecosystem: "npm", CompareAs: "npm", Version: "1.0.0"})
			}

			batch = pick(rt, "big batch size", []int{90, 500, 999, 1000, 1000})
		}

		// what the API says
		answers := map[string][]string{}
		pool := []string{}

		ids, most := intIn(rt, "ids", 1, 12), 4
		if chance(rt, "many ids", 12) {
			ids = intIn(rt, "ids", 13, 130)

			if n <= 12 {
				most = pick(rt, "ids of one", []int{4, 20, 120})
			}
		}

		for i := range ids {
			pool = append(pool, fmt.Sprintf("%s-%d", pick(rt, "prefix", []string{"GHSA", "OSV", "CVE"}), i))
		}

		for _, p := range pkgs {
			if k := apiKey(p); k != "nothing" && chance(rt, "affected", 60) {
				answers[k] = sliceFrom(rt, "ids of "+p.Name, pool, min(len(pool), most/4), most)
			}
		}

		noDetails := map[string]int{}

		for _, id := range pool {
			if chance(rt, "no details", 25) {
				noDetails[id] = intIn(rt, "why", 1, 5)
			}
		}

		// other names of them, sometimes ones that are IDs too
		details := map[string]Advisory{}

		for _, id := range pool {
			a := Advisory{ID: id, Summary: "This is " + id, Affected: []Affected{}}

			if chance(rt, "aliases", 20) {
				for _, x := range subsetOf(rt, "alias", append([]string{"CVE-X"}, pool...), 1, 2) {
					if x != id {
						a.Aliases = append(a.Aliases, x)
					}
				}
			}

			details[id] = a
		}

		delays := map[string]time.Duration{}
		for _, p := range pkgs {
			if chance(rt, "slow", 15) {
				delays[apiKey(p)] = time.Duration(intIn(rt, "delay", 1, 12)) * time.Millisecond
			}
		}

		fault, faultAt := 0, ""
		if faults {
			fault = intIn(rt, "fault", 1, 8)
			faultAt = pick(rt, "fault at", pkgs).Name
		}

		faultKey := ""
		for _, p := range pkgs {
			if p.Name == faultAt {
				faultKey = apiKey(p)
			}
		}

		// when nothing is known of the package the query cannot be told from others
		if faultKey == "nothing" {
			faultKey = ""
		}

		hit := false

		var mu sync.Mutex

		batches := [][]string{}

		w.serve("http://db.test/v1/querybatch", func(rw http.ResponseWriter, r *http.Request, body []byte) {
			var req struct {
				Queries []APIQuery `json:"queries"`
			}

			if err := json.Unmarshal(body, &req); err != nil || r.Method != http.MethodPost {
				http.Error(rw, "bad request", http.StatusBadRequest)

				return
			}

			keys := []string{}
			results := []map[string]any{}
			isFault := false

			var wait time.Duration

			for _, q := range req.Queries {
				k := queryKey(q)
				keys = append(keys, k)
				wait += delays[k]

				if k == faultKey {
					isFault = true
				}

				vulns := []map[string]any{}
				for _, id := range answers[k] {
					vulns = append(vulns, map[string]any{"id": id, "modified": "2022-01-01T00:00:00Z"})
				}

				res := map[string]any{}
				if len(vulns) > 0 {
					res["vulns"] = vulns
				}

				results = append(results, res)
			}

			mu.Lock()
			batches = append(batches, keys)

			if isFault {
				hit = true
			}
			mu.Unlock()
			time.Sleep(min(wait, 60*time.Millisecond))

			if isFault {
				switch fault {
				case 1:
					http.Error(rw, "no", http.StatusInternalServerError)

					return
				case 2:
					hangUp(rw)

					return
				case 3:
					_, _ = rw.Write([]byte("this is not json"))

					return
				case 4:
					results = results[:len(results)-1]
				case 5:
					results = append(results, map[string]any{"vulns": []map[string]any{{"id": "OSV-extra"}}})
				case 6:
					_, _ = rw.Write([]byte(`{"results": `))

					return
				case 7:
					shortBody(rw, mustJSON(map[string]any{"results": results}))

					return
				case 8:
					rw.WriteHeader(http.StatusNotFound)
					_, _ = rw.Write(mustJSON(map[string]any{"results": results}))

					return
				}
			}

			_, _ = rw.Write(mustJSON(map[string]any{"results": results}))
		})

		w.serve("http://db.test/v1/vulns/", func(rw http.ResponseWriter, r *http.Request, _ []byte) {
			id := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]

			switch noDetails[id] {
			case 1:
				http.Error(rw, "no", http.StatusInternalServerError)

				return
			case 2:
				hangUp(rw)

				return
			case 3:
				_, _ = rw.Write([]byte("not json"))

				return
			case 4:
				http.Error(rw, "no such thing", http.StatusNotFound)

				return
			case 5:
				rw.WriteHeader([]int{http.StatusInternalServerError, http.StatusTooManyRequests}[len(id)%2])
				_, _ = rw.Write(mustJSON(Advisory{ID: id, Summary: "Try again later", Aliases: []string{"ERROR-1"}}))

				return
			}

			if a, ok := details[id]; ok {
				_, _ = rw.Write(mustJSON(a))
			} else {
				http.Error(rw, "no such thing", http.StatusNotFound)
			}
		})

		// a second database, to see that it is used whatever happens to the API
		other := w.makeDB("other", "dir", []Advisory{{ID: "LOCAL-1", Affected: []Affected{matchEverything("npm", pkgs[0].Name)}}})
		dbs := shuffled(rt, "order of databases", []DBEntry{{Name: "api", URL: "http://db.test/v1"}, other})
		mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: dbs}))
		mustWrite(w.path("p.csv"), csvCommits(pkgs))

		out := w.run("--json", "--use-dbs=false", "--batch-size", fmt.Sprint(batch), "--config", "conf.yml", "csv-file:p.csv")
		res := parseResults(rt, out)

		if len(res) != 1 || diffPkgs(pkgsOf(res[0].Packages), pkgs) != "" {
			rt.Fatalf("unexpected packages: %s", show(out))
		}

		if faultKey != "" && fault != 0 {
			if !hit {
				rt.Fatalf("the package %q was not queried: %s", faultAt, show(out))
			}

			for _, p := range res[0].Packages {
				for _, id := range idsOf(p.Vulnerabilities) {
					if id != "LOCAL-1" {
						rt.Fatalf("a batch failed but %s is reported for %s: %s", id, p.Pkg, show(out))
					}
				}
			}

			if out.Code == 0 || !strings.Contains(out.Stderr, "p.csv") || !strings.Contains(out.Stderr, "error") {
				rt.Fatalf("a batch failed but no error is reported: %s", show(out))
			}

			c.Label(true, fmt.Sprintf("fault %d", fault))
		} else {
			// all queries, once and in order
			want := []string{}
			index := map[string]int{}

			for i, p := range pkgs {
				k := apiKey(p)
				want = append(want, k)

				if k != "nothing" {
					index[k] = i
				}
			}

			first := func(b []string) int {
				// where in the list the batch has to be, from the first query that is known
				for j, k := range b {
					if i, ok := index[k]; ok {
						return i - j
					}
				}

				return -1
			}

			anonymous := 0
			got := make([]string, len(want))

			for _, b := range batches {
				if len(b) == 0 || len(b) > batch {
					rt.Fatalf("a batch has %d queries, the batch size is %d: %s", len(b), batch, show(out))
				}

				at := first(b)
				if at < 0 {
					anonymous += len(b)

					continue
				}

				for j, k := range b {
					if at+j >= len(got) || got[at+j] != "" {
						rt.Fatalf("a query is repeated or out of order: %q in %q: %s", k, batches, show(out))
					}

					got[at+j] = k
				}
			}

			for i := range got {
				if got[i] == "" && anonymous > 0 {
					got[i] = "nothing"
					anonymous--
				}

				if got[i] != want[i] {
					rt.Fatalf("query %d is %q, want %q: %q", i, got[i], want[i], batches)
				}
			}

			if anonymous != 0 {
				rt.Fatalf("there were more queries than packages: %q", batches)
			}

			reported := 0

			for _, p := range res[0].Packages {
				advs, local := []Advisory{}, []Advisory{}

				for _, id := range uniq(sortedCopy(answers[apiKey(p.Pkg)])) {
					if noDetails[id] != 0 {
						advs = append(advs, Advisory{ID: id})
					} else {
						advs = append(advs, details[id])
					}
				}

				if p.Ecosystem == "npm" && p.Name == pkgs[0].Name {
					local = []Advisory{{ID: "LOCAL-1"}}
				}

				if err := checkFindings(p.Pkg, p.Vulnerabilities, p.Ignored, [][]Advisory{advs, local}, nil); err != nil {
					rt.Fatalf("%v: %s", err, show(out))
				}

				for _, v := range p.Vulnerabilities {
					if v.ID == "LOCAL-1" {
						continue
					}

					reported++

					want := details[v.ID]
					if noDetails[v.ID] != 0 {
						want = Advisory{}
					}

					if v.Summary != want.Summary || strings.Join(v.Aliases, " ") != strings.Join(want.Aliases, " ") {
						rt.Fatalf("the details of %s are %q (%v), want %q (%v): %s", v.ID, v.Summary, v.Aliases, want.Summary, want.Aliases, show(out))
					}
				}
			}

			if wantCode := map[bool]int{true: 1, false: 0}[reported > 0 || pkgs[0].Ecosystem == "npm"]; out.Code != wantCode {
				rt.Fatalf("exit code %d, want %d: %s", out.Code, wantCode, show(out))
			}

			c.Label(len(batches) > 1, "several batches")
			c.Label(reported > 0, "findings")
		}

		c.Nontrivial(len(batches) > 1 && len(answers) > 0)
		c.Key(string(mustJSON(pkgs)), batch, string(mustJSON(answers)), fault, faultAt, string(mustJSON(noDetails)))
		c.Label(len(delays) > 0, "delays")
		c.Sample(map[string]any{"packages": pkgs, "batch size": batch, "answers": answers, "fault": fault, "fault at": faultAt, "no details": noDetails})
	}

	Check(t, "batches", 140, func(rt *rapid.T, c *Case) { run(rt, c, false) })
	Check(t, "faults", 70, func(rt *rapid.T, c *Case) { run(rt, c, true) })
	// packages that are listed more than once or that have both a version and a commit
	Check(t, "shared queries", 50, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		composer := chance(rt, "composer", 50)
		pkgs := []Pkg{}
		repeated, both := 0, 0

		for range intIn(rt, "packages", 1, 14) {
			p := Pkg{Name: pick(rt, "name", []string{"a/b", "a/c", "d/e", "a/B"}), Version: pick(rt, "version", []string{"1.0.0", "2.0.0", "dev-main"})}

			if composer {
				p.Ecosystem = "Packagist"
				p.Commit = pick(rt, "commit", []string{"", someCommit, strings.Repeat("ab", 20), "abcdef0"})

				if chance(rt, "no version", 25) {
					p.Version = ""
				}
			} else {
				p.Ecosystem = pick(rt, "ecosystem", []string{"npm", "PyPI", "Debian:11", ""})

				if p.Ecosystem == "" {
					p.Version, p.Commit = "", pick(rt, "commit", []string{someCommit, strings.Repeat("ab", 20)})
				}
			}

			p.CompareAs = p.Ecosystem

			if len(pkgs) > 0 && chance(rt, "again", 30) {
				p = pick(rt, "again", pkgs)
			}

			for _, q := range pkgs {
				if apiKey(p) == apiKey(q) {
					repeated++
				}
			}

			if p.Version != "" && p.Commit != "" {
				both++
			}

			pkgs = append(pkgs, p)
		}

		answers := map[string][]string{}

		for _, p := range pkgs {
			k := apiKey(p)
			if _, ok := answers[k]; !ok && k != "nothing" {
				answers[k] = subsetOf(rt, "ids", []string{"OSV-1", "OSV-2", "OSV-3", "GHSA-4"}, 0, 3)
			}
		}

		// nothing is found by the commit of what has a version
		batch := intIn(rt, "batch size", 1, 9)

		var mu sync.Mutex

		batches := [][]string{}

		w.serve("http://db.test/v1/querybatch", func(rw http.ResponseWriter, r *http.Request, body []byte) {
			var req struct {
				Queries []APIQuery `json:"queries"`
			}

			if err := json.Unmarshal(body, &req); err != nil {
				http.Error(rw, "bad request", http.StatusBadRequest)

				return
			}

			keys := []string{}
			results := []map[string]any{}

			for _, q := range req.Queries {
				k := queryKey(q)
				keys = append(keys, k)
				vulns := []map[string]any{}

				for _, id := range answers[k] {
					vulns = append(vulns, map[string]any{"id": id})
				}

				results = append(results, map[string]any{"vulns": vulns})
			}

			mu.Lock()
			batches = append(batches, keys)
			mu.Unlock()

			writeZipped(rw, r, mustJSON(map[string]any{"results": results}))
		})
		w.serve("http://db.test/v1/vulns/", func(rw http.ResponseWriter, r *http.Request, _ []byte) {
			writeZipped(rw, r, mustJSON(Advisory{ID: r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:], Affected: []Affected{}}))
		})

		mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: []DBEntry{{Name: "api", URL: "http://db.test/v1"}}}))

		lock := "csv-file:p.csv"

		if composer {
			lock = "composer.lock"
			ps := []map[string]any{}

			for _, p := range pkgs {
				ps = append(ps, map[string]any{"name": p.Name, "version": p.Version, "dist": map[string]any{"reference": p.Commit}})
			}

			mustWrite(w.path(lock), mustJSON(map[string]any{"packages": ps}))
		} else {
			mustWrite(w.path("p.csv"), csvCommits(pkgs))
		}

		out := w.run("--json", "--use-dbs=false", "--batch-size", fmt.Sprint(batch), "--config", "conf.yml", lock)
		res := parseResults(rt, out)

		if len(res) != 1 || len(res[0].Packages) != len(pkgs) {
			rt.Fatalf("unexpected packages: %s", show(out))
		}

		// all queries, in the order of the packages
		order := []string{}
		found := 0

		for _, p := range res[0].Packages {
			k := apiKey(p.Pkg)
			order = append(order, k)

			if a, b := sortedCopy(idsOf(p.Vulnerabilities)), sortedCopy(answers[k]); strings.Join(a, " ") != strings.Join(b, " ") {
				rt.Fatalf("the findings of %s are %q, want %q: %s", p.Pkg, a, b, show(out))
			}

			found += len(answers[k])
		}

		if want := map[bool]int{true: 1, false: 0}[found > 0]; out.Code != want {
			rt.Fatalf("exit code %d, want %d: %s", out.Code, want, show(out))
		}

		all := "\x01" + strings.Join(order, "\x01") + "\x01"
		asked := []string{}

		for _, b := range batches {
			if len(b) == 0 || len(b) > batch {
				rt.Fatalf("a batch has %d queries, the batch size is %d: %s", len(b), batch, show(out))
			}

			if !strings.Contains(all, "\x01"+strings.Join(b, "\x01")+"\x01") {
				rt.Fatalf("the batch %q is not in the order of the packages %q: %s", b, order, show(out))
			}

			asked = append(asked, b...)
		}

		if a, b := sortedCopy(asked), sortedCopy(order); strings.Join(a, "\n") != strings.Join(b, "\n") {
			rt.Fatalf("the queries are %q, want %q: %s", a, b, show(out))
		}

		c.Nontrivial((repeated > 0 || both > 0) && found > 0)
		c.Label(repeated > 0, "the same query again")
		c.Label(both > 0, "version and commit")
		c.Key(string(mustJSON(pkgs)), batch, string(mustJSON(answers)))
		c.Sample(map[string]any{"packages": pkgs, "batch size": batch, "answers": answers})
	})

	Check(t, "bad batch size", 3, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		w.addDB("api", "api", []Advisory{{ID: "OSV-1", Affected: []Affected{matchEverything("npm", "foo")}}})
		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		size := -intIn(rt, "batch size", 0, 3)
		out := w.run("--json", "--use-dbs=false", "--config", w.writeConfig("conf.yml"), "--batch-size", fmt.Sprint(size), "csv-file:p.csv")
		parseResults(rt, out)

		if out.Code != 127 {
			rt.Fatalf("a batch size of %d gives exit code %d: %s", size, out.Code, show(out))
		}

		c.Nontrivial(true)
		c.Key(size)
		c.Sample(size)
	})
}

// csvCommits writes packages as CSV, with those that have no ecosystem by commit.
func csvCommits(pkgs []Pkg) []byte {
	rows := []Pkg{}

	for _, p := range pkgs {
		if p.Ecosystem == "" {
			p.Version = p.Commit
		}

		rows = append(rows, p)
	}

	return csvOf(rows)
}
