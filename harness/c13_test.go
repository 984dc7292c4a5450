package harness

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var usedConf = regexp.MustCompile(`(?m)^  Using config at (.+) \((?:\d+ ignores?|skipping any ignores)\)$`)

// remoteURLs returns the addresses the requests were made to: of zip archives, and of
// APIs without what comes after their base.
func remoteURLs(reqs []Req) []string {
	out := []string{}

	for _, r := range reqs {
		u := r.URL
		if i := strings.Index(u, "/querybatch"); i >= 0 {
			u = u[:i]
		} else if i := strings.Index(u, "/vulns/"); i >= 0 {
			u = u[:i]
		}

		if d, err := url.PathUnescape(u); err == nil {
			u = d
		}

		out = append(out, u)
	}

	return uniq(sortedCopy(out))
}

func TestC13(t *testing.T) {
	// which config and databases are used for each lockfile
	Check(t, "scenes", 200, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenConfs: chance(rt, "broken configs", 50), InvalidDBs: true, BrokenDBs: chance(rt, "broken databases", 20), PlainConfs: true, UniqueIDs: true, Commits: true,
		})
		r := s.genRun(rt, false)
		noise := chance(rt, "other files", 40)

		// configs that are not for any of the lockfiles
		if noise {
			home := filepath.Join(filepath.Dir(s.w.root), "home")
			s.env = append(s.env, "HOME="+home, "XDG_CONFIG_HOME="+filepath.Join(home, ".config"))

			for _, p := range []string{"../home/.osv-detector.yml", "../home/.osv-detector.yaml", "../home/.config/.osv-detector.yml", "../home/.config/osv-detector.yml", "../.osv-detector.yml", "osv-detector.yml", ".osv-detector.json", ".osv-detector", "sub/.osv-detector.yaml", "a/.osv-detector.yml.bak"} {
				if strings.HasPrefix(p, "../") || chance(rt, "noise "+p, 50) {
					mustWrite(s.w.path(filepath.FromSlash(p)), []byte("ignore: ["+strings.Join(s.ids, ", ")+"]\nextra-databases:\n  - url: http://db.test/not-this.zip\n"))
				}
			}
		}

		// a config that cannot be read
		if chance(rt, "directory as config", 10) {
			l := pick(rt, "lockfile of it", s.locks)
			p := path.Join(l.Dir, ".osv-detector"+pick(rt, "extension of it", []string{".yml", ".yaml"}))

			if s.confs[p] == nil {
				if err := os.MkdirAll(s.w.path(filepath.FromSlash(p)), 0o755); err != nil {
					infra("mkdir: %v", err)
				}

				s.confs[p] = &SceneConf{Path: p, Invalid: true}
			}
		}

		if chance(rt, "missing config", 5) {
			r.Config = "conf/nowhere.yml"
			s.confs[r.Config] = &SceneConf{Path: r.Config, Invalid: true}
		}

		s.w.net.Reset()

		out := s.exec(r, true)
		res := parseResults(rt, out)
		reqs := remoteURLs(s.w.net.Requests())
		files := s.filesOf(r)

		if r.Config != "" && !r.NoConfig && s.confs[r.Config].Invalid && len(files) > 0 {
			if out.Code != 127 || len(res) != 0 || len(reqs) != 0 {
				rt.Fatalf("an invalid --config has to stop the run: %s", show(out))
			}

			c.Nontrivial(true)
			c.Label(true, "invalid --config")
			c.Key(s.key(r))
			c.Sample(s.describe(r))

			return
		}

		secs := sections(out.Stderr)
		good, failed, invalid := []SceneFile{}, 0, 0
		wantReqs := []string{}

		for _, f := range files {
			if f.Failed {
				failed++

				continue
			}

			good = append(good, f)

			if f.Conf != nil {
				for _, db := range f.Conf.DBs {
					if db.Fault == "invalid" {
						invalid++

						if !r.NoDBs && !strings.Contains(out.Stderr, "contains an invalid database") {
							rt.Fatalf("the invalid database is not reported: %s", show(out))
						}
					}
				}
			}

			for _, db := range f.DBs {
				switch db.Entry.Kind() {
				case "zip":
					wantReqs = append(wantReqs, db.Entry.URL)
				case "api":
					for _, p := range f.Item.Lock.Pkgs {
						if p.Version != "" || p.Commit != "" {
							wantReqs = append(wantReqs, db.Entry.URL)
						}
					}
				}
			}
		}

		if failed > 0 && out.Code != 127 {
			rt.Fatalf("%d lockfiles have an invalid config, but the exit code is %d: %s", failed, out.Code, show(out))
		}

		if len(res) != len(good) || len(secs) != len(good) {
			rt.Fatalf("%d results, want %d: %s", len(res), len(good), show(out))
		}

		for i, f := range good {
			wantConf := ""

			switch {
			case f.Conf == nil:
			case r.Config != "":
				wantConf = filepath.Clean(r.Config)
			default:
				wantConf = filepath.Join(filepath.Dir(res[i].FilePath), path.Base(f.Conf.Path))
			}

			gotConf := ""
			if m := usedConf.FindStringSubmatch(secs[i].Text); m != nil {
				gotConf = m[1]
			}

			if gotConf != wantConf {
				rt.Fatalf("%s uses config %q, want %q: %s", res[i].FilePath, gotConf, wantConf, show(out))
			}

			want := []string{}

			for _, db := range f.DBs {
				if db.Fault != "load" {
					want = append(want, db.Entry.DisplayName())
				}
			}

			if got := usedDBs(secs[i].Text); strings.Join(sortedCopy(got), "\n") != strings.Join(sortedCopy(want), "\n") {
				rt.Fatalf("%s uses databases %q, want %q: %s", res[i].FilePath, got, want, show(out))
			}
		}

		if want := uniq(sortedCopy(wantReqs)); strings.Join(reqs, "\n") != strings.Join(want, "\n") {
			rt.Fatalf("requests were made to %q, want %q: %s", reqs, want, show(out))
		}

		// what the databases say is what is found
		findings, ignored := checkResults(rt, s, files, out)

		c.Nontrivial(len(s.confs) > 0)
		c.Label(failed > 0, "unusable local config")
		c.Label(invalid > 0, "invalid database")
		c.Label(r.Config != "", "--config")
		c.Label(findings+ignored > 0, "findings")
		c.Label(r.NoDBs, "--no-config-databases")
		c.Key(s.key(r), noise)
		c.Sample(s.describe(r))
	})

	// how an entry of a config says what kind of database it is
	Check(t, "entries", 150, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		pkg := Pkg{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}
		mustWrite(w.path("p.csv"), csvOf([]Pkg{pkg}))

		adv := func(id string) Advisory { return Advisory{ID: id, Affected: []Affected{matchEverything("npm", "foo")}} }
		tree := w.writeTree("tree.zip", []File{advFile("", adv("DIR")), advFile("sub", adv("DIR-SUB"))})
		rel := w.path("local db")
		mustWrite(filepath.Join(rel, "x.json"), mustJSON(adv("REL")))
		mustWrite(w.path("$HOME/x.json"), mustJSON(adv("REL")))
		mustWrite(w.path("$x/x.json"), mustJSON(adv("REL")))

		archive := zipOf([]File{advFile("", adv("ZIP")), advFile("sub", adv("ZIP-SUB"))})
		zips := []string{"http://db.test/a.zip", "http://db.test/b", "http://db.test/c.zip?x=1", "https://db.test/d/all.zip", "http://db.test/e.ZIP", "http://db.test/zip"}
		apis := []string{"http://db.test/v1", "https://db.test/api.zip", "http://db.test/v2/v1", "https://other.db.test/v1", "http://db.test/my.zip/v1", "http://file.db.test/v1", "http://db.test/dir", "http://db.test/f.ZIP"}

		for _, u := range zips {
			w.serveBytes(strings.TrimSuffix(u, "?x=1"), archive)
		}

		for _, u := range apis {
			w.serveAPI(u, func(APIQuery) []string { return []string{"API"} }, map[string]Advisory{"API": adv("API")})
		}

		type expected struct {
			e       DBEntry
			kind    string // empty: invalid
			ids     []string
			checked bool // the database works
		}

		entries := []expected{}
		names := map[string]bool{}

		for i := range intIn(rt, "entries", 1, 5) {
			x := expected{checked: true}

			switch intIn(rt, "kind of entry", 0, 9) {
			case 0, 1:
				x.kind = "dir"
				x.e.URL = fileURL(tree)
				x.ids = []string{"DIR", "DIR-SUB"}
			case 2:
				x.kind = "dir"
				x.e.URL = pick(rt, "local url", []string{"file:/local%20db", "file:/$HOME", "file:/$x"})
				x.ids = []string{"REL"}
			case 3, 4:
				x.kind = "zip"
				x.e.URL = pick(rt, "zip url", zips)
				x.ids = []string{"ZIP", "ZIP-SUB"}
			case 5, 6:
				x.kind = "api"
				x.e.URL = pick(rt, "api url", apis)
				x.ids = []string{"API"}
			case 7:
				// a bad type
				x.e.URL = pick(rt, "url", append([]string{fileURL(tree)}, append(zips, apis...)...))
				x.e.Type = pick(rt, "bad type", []string{"file", "ZIP", "Dir", "rest", "zip ", "apis", "archive"})
			case 8:
				// a bad url
				x.e.URL = pick(rt, "bad url", []string{"", "db.test/a.zip", "not a url", "./db", "tree", "%zz", "http://db.test/%zz"})
				x.e.Type = pick(rt, "type", []string{"", "zip", "api", "dir"})
			case 9:
				// a type that is not the right one for what is there
				x.e.URL, x.e.Type, x.kind = pick(rt, "zip url", zips), "dir", "dir"
				x.checked = false
			}

			if x.kind != "" && x.e.Type == "" {
				// the type has to be given if it cannot be told from the url
				if (DBEntry{URL: x.e.URL}).Kind() != x.kind || chance(rt, "explicit type", 40) {
					x.e.Type = x.kind
				}
			}

			if (x.kind == "dir" && x.e.URL == fileURL(tree) || x.kind == "zip") && chance(rt, "working directory", 30) {
				x.e.WorkDir = "sub"
				x.ids = x.ids[1:]
			}

			if chance(rt, "named", 60) {
				x.e.Name = pick(rt, "name", []string{"My db", "100%d", "a: b", "#1"}) + fmt.Sprint(i)
			}

			if x.kind != "" {
				// once each
				if names[x.e.ID()] {
					continue
				}

				names[x.e.ID()] = true
			}

			entries = append(entries, x)
		}

		conf := ConfigFile{Ignore: []string{}}
		for _, x := range entries {
			conf.Databases = append(conf.Databases, x.e)
		}

		content := yamlOf(conf)
		p := pick(rt, "config name", []string{".osv-detector.yml", ".osv-detector.yaml"})
		mustWrite(w.path(p), content)

		off := chance(rt, "no-config-databases", 10)
		args := []string{"--use-dbs=false"}

		if off {
			args = append(args, "--no-config-databases")
		}

		asText := chance(rt, "as text", 30)
		if !asText {
			args = append(args, "--json")
		}

		w.net.Reset()

		out := w.run(append(args, "csv-file:p.csv")...)
		if out.Crashed() {
			rt.Fatalf("the run crashed: %s", show(out))
		}

		text := out.Stderr
		if asText {
			text = out.Stdout
		}

		wantUsed, wantIDs, bad, broken := []string{}, []string{}, 0, 0

		for _, x := range entries {
			switch {
			case x.kind == "":
				bad++
			case off:
			case !x.checked:
				broken++
			default:
				wantUsed = append(wantUsed, x.e.DisplayName())
				wantIDs = append(wantIDs, x.ids...)
			}
		}

		if n := strings.Count(out.Stderr, " contains an invalid database: "); n != bad && !off {
			rt.Fatalf("%d invalid databases are reported, want %d\n%s\n%s", n, bad, content, show(out))
		}

		if n := strings.Count(out.Stderr, " failed: "); n != broken {
			rt.Fatalf("%d databases are said to have failed, want %d\n%s\n%s", n, broken, content, show(out))
		}

		if got := sortedCopy(usedDBs(text)); strings.Join(got, "\n") != strings.Join(sortedCopy(wantUsed), "\n") {
			rt.Fatalf("databases %q are used, want %q\n%s\n%s", got, wantUsed, content, show(out))
		}

		for _, x := range entries {
			if x.kind == "" || !x.checked || off {
				continue
			}

			desc := map[string]string{"zip": "vulnerabilit(?:y|ies), including withdrawn - last updated", "dir": `vulnerabilit(?:y|ies), including withdrawn\)$`, "api": "using batches of 1000"}[x.kind]
			if !regexp.MustCompile(`(?m)^  Using db ` + regexp.QuoteMeta(x.e.DisplayName()) + ` \((?:\d+ )?` + desc).MatchString(text) {
				rt.Fatalf("%q is not used as %s\n%s\n%s", x.e.DisplayName(), x.kind, content, show(out))
			}
		}

		if !asText {
			res := parseResults(rt, out)
			if len(res) != 1 || len(res[0].Packages) != 1 {
				rt.Fatalf("want one package: %s", show(out))
			}

			if got, want := sortedCopy(idsOf(res[0].Packages[0].Vulnerabilities)), uniq(sortedCopy(wantIDs)); strings.Join(got, " ") != strings.Join(want, " ") {
				rt.Fatalf("findings are %v, want %v\n%s\n%s", got, want, content, show(out))
			}
		}

		if want := []int{0, 1, 127}; (broken > 0 || bad > 0 && len(wantIDs) == 0 && !off) && out.Code != 127 || !hasInt(want, out.Code) {
			rt.Fatalf("exit code %d\n%s\n%s", out.Code, content, show(out))
		}

		c.Nontrivial(len(entries) > 1 || bad > 0)
		c.Label(bad > 0, "invalid entry")
		c.Label(broken > 0, "broken database")
		c.Label(len(wantUsed) > 2, "three or more used")
		c.Key(string(content), args)
		c.Sample(map[string]any{"config": string(content), "args": args})
	})

	// contents that are (not) a config
	Check(t, "contents", 60, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))
		mustWrite(w.path("other", "p.csv"), csvOf([]Pkg{{Name: "bar", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		valid := []string{"", "# nothing\n", "ignore:\n", "ignore: []\n", "{}\n", "ignore: [a]\nextra-databases: []\n", "other: 5\n", "---\nignore: [a]\n", "ignore: [1, 2.5, true]\n", "extra-databases:\n"}
		invalid := []string{"ignore: [\n", "ignore: {a: b}\n", "ignore: a\n", "- a\n", "text\n", "\tignore: []\n", "ignore: [[a]]\n", "extra-databases: x\n", "extra-databases: [x]\n", "ignore: []\nignore: []\n", "a: &x [*y]\n", "ignore: [{}]\n", "\x00", "ignore: [\"\xff\"]\n"}
		isValid := chance(rt, "valid", 50)
		content := pick(rt, "valid content", valid)

		if !isValid {
			content = pick(rt, "invalid content", invalid)
		}

		other := pick(rt, "other content", append([]string{"ignore: [z]\n", "none"}, invalid...))
		name := pick(rt, "config name", []string{".osv-detector.yml", ".osv-detector.yaml", "conf.yml"})
		mustWrite(w.path(name), []byte(content))

		args := []string{"--json", "--use-dbs=false"}

		if name == ".osv-detector.yml" && other != "none" {
			// the other one is not looked at
			mustWrite(w.path(".osv-detector.yaml"), []byte(other))
		}

		if name == "conf.yml" {
			args = append(args, "--config", pick(rt, "path of it", []string{"conf.yml", "./conf.yml", "other/../conf.yml", w.path("conf.yml")}))

			// local configs are not looked at
			if other != "none" {
				mustWrite(w.path(".osv-detector.yml"), []byte(other))
				mustWrite(w.path("other", ".osv-detector.yaml"), []byte(other))
			}
		}

		args = append(args, "csv-file:p.csv", "csv-file:other/p.csv")
		out := w.run(args...)
		res := parseResults(rt, out)

		want, code := 2, 0

		switch {
		case !isValid && name == "conf.yml":
			want, code = 0, 127
		case !isValid:
			want, code = 1, 127
		}

		if len(res) != want || out.Code != code {
			rt.Fatalf("%d results and exit code %d, want %d and %d: config %q, other config %q: %s", len(res), out.Code, want, code, content, other, show(out))
		}

		if !isValid && !strings.Contains(out.Stderr, "Error, ") {
			rt.Fatalf("config %q is not reported as an error: %s", content, show(out))
		}

		if want == 1 && res[0].FilePath != "other/p.csv" {
			rt.Fatalf("the result is of %s, want other/p.csv: %s", res[0].FilePath, show(out))
		}

		confs := usedConf.FindAllStringSubmatch(out.Stderr, -1)
		wantConfs := 0

		if isValid {
			wantConfs = 1
			if name == "conf.yml" {
				wantConfs = 2
			}
		}

		if len(confs) != wantConfs {
			rt.Fatalf("%d configs are said to be used, want %d: config %q, other config %q: %s", len(confs), wantConfs, content, other, show(out))
		}

		c.Nontrivial(true)
		c.Label(!isValid, "invalid")
		c.Key(content, other, args)
		c.Sample(map[string]any{"config": content, "other": other, "name": name, "args": args})
	})
}
