package harness

import (
	"archive/zip"
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// treeFile is a file of a generated tree.
type treeFile struct {
	Path  string
	Adv   *Advisory // nil if it is not an advisory
	Bytes []byte
	Link  bool // it is a symbolic link in a directory
}

func lastAdvisory(files []treeFile) *Advisory {
	for i := len(files) - 1; i >= 0; i-- {
		if files[i].Adv != nil {
			return files[i].Adv
		}
	}

	return nil
}

var treeDirs = []string{
	"", "a", "a/b", "a/b/c", "ab", "a b", "a.json", "a.json/x", "A", ".hidden", "advisories/github-reviewed/2021", "advisories/github", "ä", "a/b.json", "100%", "a/bc", "abc/a/b",
}

var treeNames = []string{"x.json", "GHSA-1.json", ".json", "a b.json", "ü.json", "x.y.json", "x%20y.json", "json.json", "..json", "#1.json"}

var treeOtherNames = []string{"x.JSON", "x.json.bak", "xjson", "README.md", "x.yaml", "json", "x.jsonl", "x.json~", "x"}

var badAdvisories = []string{
	"", "{", "not json", "[]", "\"x\"", "5", `{"id": 5}`, `{"id": "OSV-X", "affected": {}}`, `{"id":"OSV-X","published":"yesterday"}`, `{"id": "OSV-X", "aliases": "CVE-1"}`,
	`{"id": "OSV-X"} trailing`, "\x00\x01\x02", `{"id": "OSV-X", "affected": [{"versions": "1.0.0"}]}`,
}

func genTree(rt *rapid.T) []treeFile {
	files := []treeFile{}
	taken := map[string]bool{}
	dirs := subsetOf(rt, "directories", treeDirs, 1, 6)

	if chance(rt, "deep", 10) {
		dirs = append(dirs, path.Join(pick(rt, "deep in", dirs), strings.Repeat("deep/", intIn(rt, "depth", 3, 30))))
	}

	for i := range count(rt, "files", 1, 12) {
		d := pick(rt, "dir", dirs)
		f := treeFile{}

		switch intIn(rt, "file kind", 0, 7) {
		case 0:
			f.Path = path.Join(d, pick(rt, "other name", treeOtherNames))
			f.Bytes = mustJSON(Advisory{ID: fmt.Sprintf("NOT-%d", i), Affected: []Affected{matchEverything("npm", "foo")}})
		case 1:
			f.Path = path.Join(d, pick(rt, "name", treeNames))
			f.Bytes = []byte(pick(rt, "bad advisory", badAdvisories))
		default:
			f.Path = path.Join(d, pick(rt, "name", treeNames))
			name := "foo"

			if chance(rt, "other package", 25) {
				name = "bar"
			}

			a := Advisory{ID: fmt.Sprintf("OSV-%d", i), Affected: []Affected{matchEverything("npm", name)}}

			if chance(rt, "withdrawn", 10) {
				a.Withdrawn = "2021-03-04T05:06:07Z"
			}

			if chance(rt, "no entries", 5) {
				a.Affected = []Affected{}
			}

			// the same one again somewhere else, for the same package or for another
			if prev := lastAdvisory(files); prev != nil && chance(rt, "same id", 12) {
				a.ID = prev.ID
			}

			f.Adv = &a
			f.Bytes = mustJSON(a)
			f.Link = chance(rt, "link", 6)

			if chance(rt, "big", 10) {
				a.Details = strings.Repeat("0123456789", pick(rt, "size", []int{1000, 12000, 12000, 300000}))
				f.Bytes = mustJSON(a)
			}
		}

		// a file cannot be where a directory is
		conflict := taken[f.Path]

		for _, o := range files {
			if strings.HasPrefix(o.Path+"/", f.Path+"/") || strings.HasPrefix(f.Path+"/", o.Path+"/") {
				conflict = true
			}
		}

		if !conflict {
			taken[f.Path] = true
			files = append(files, f)
		}
	}

	if chance(rt, "many advisories", 3) {
		d := pick(rt, "dir", dirs)
		for i := range pick(rt, "many", []int{20, 110, 260, 1100}) {
			a := Advisory{ID: fmt.Sprintf("MANY-%d", i), Affected: []Affected{matchEverything("npm", "foo")}}
			f := treeFile{Path: path.Join(d, fmt.Sprintf("many-%d.json", i)), Adv: &a, Bytes: mustJSON(a)}
			conflict := false

			for _, o := range files[:min(len(files), 12)] {
				conflict = conflict || strings.HasPrefix(f.Path+"/", o.Path+"/")
			}

			if !conflict {
				files = append(files, f)
			}
		}
	}

	return files
}

func matchEverything(eco, name string) Affected {
	return Affected{Package: AdvPackage{eco, name}, Ranges: []Range{{Type: "SEMVER", Events: []Event{{Introduced: "0"}}}}}
}

// zipTree makes an archive of the tree in one of the ways archives are made.
func zipTree(rt *rapid.T, files []treeFile) []byte {
	var buf bytes.Buffer

	z := zip.NewWriter(&buf)
	dirs := map[string]bool{}
	withDirs := chance(rt, "directory entries", 50)
	method := pick(rt, "method", []uint16{zip.Store, zip.Deflate})

	for _, f := range shuffled(rt, "archive order", files) {
		if withDirs {
			for d := path.Dir(f.Path); d != "."; d = path.Dir(d) {
				if !dirs[d] {
					dirs[d] = true

					if _, err := z.Create(d + "/"); err != nil {
						infra("zip: %v", err)
					}
				}
			}
		}

		w, err := z.CreateHeader(&zip.FileHeader{Name: f.Path, Method: method})
		if err != nil {
			infra("zip: %v", err)
		}

		if _, err := w.Write(f.Bytes); err != nil {
			infra("zip: %v", err)
		}
	}

	if err := z.Close(); err != nil {
		infra("zip: %v", err)
	}

	return buf.Bytes()
}

var dbCount = regexp.MustCompile(`(?m)^  Using db (.+) \((\d+) vulnerabilit(?:y|ies), including withdrawn`)

func dbCounts(stderr string) map[string]int {
	out := map[string]int{}

	for _, m := range dbCount.FindAllStringSubmatch(stderr, -1) {
		n, _ := strconv.Atoi(m[2])
		out[m[1]] = n
	}

	return out
}

func TestC04(t *testing.T) {
	Check(t, "trees", 220, func(rt *rapid.T, c *Case) {
		files := genTree(rt)
		workdir := ""

		// a working directory that exists in the tree
		if chance(rt, "working directory", 60) {
			var ds []string

			for _, f := range files {
				for d := path.Dir(f.Path); d != "."; d = path.Dir(d) {
					ds = append(ds, d)
				}
			}

			if len(ds) > 0 {
				workdir = pick(rt, "working directory", uniq(sortedCopy(ds)))
			}
		}

		count := 0
		want := []string{}
		outside := 0

		for _, f := range files {
			if workdir != "" && !strings.HasPrefix(f.Path, workdir+"/") {
				outside++

				continue
			}

			if f.Adv == nil {
				continue
			}

			count++

			if f.Adv.Withdrawn == "" && affects(*f.Adv, Pkg{Name: "foo", Version: "1.0.0", Ecosystem: "npm"}, simpleRank) {
				want = append(want, f.Adv.ID)
			}
		}

		w := newWorkdir(c)
		written := workdir

		if workdir != "" {
			written = pick(rt, "spelling", []string{"%s", "%s", "%s/", "./%s", "/%s"})
			written = fmt.Sprintf(written, workdir)
		}

		fs := []File{}
		for _, f := range files {
			fs = append(fs, File{f.Path, f.Bytes})
		}

		root := w.writeTree(pick(rt, "root", []string{"tree", "tree", "my tree", "tree%20x", "bäume", "tree#1", "tree?x", "a+b", "tree.zip"}), fs)
		w.serveBytes("http://db.test/tree.zip", zipTree(rt, files))

		for i, f := range files {
			if f.Link {
				p := filepath.Join(root, filepath.FromSlash(f.Path))
				to := filepath.Join(c.Dir(), fmt.Sprintf("linked-%d", i))

				if err := os.Rename(p, to); err != nil {
					infra("rename: %v", err)
				}

				if err := os.Symlink(to, p); err != nil {
					infra("symlink: %v", err)
				}
			}
		}

		dirURL := fileURL(root)

		// relative to where the run starts
		if chance(rt, "relative url", 25) {
			rel, err := filepath.Rel(w.root, root)
			if err != nil {
				infra("%v", err)
			}

			dirURL = pick(rt, "slashes", []string{"file:", "file://"}) + (&url.URL{Path: "/" + filepath.ToSlash(rel)}).EscapedPath()
		}

		pkgs := []Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}
		if chance(rt, "no packages", 5) {
			pkgs = nil
			want = nil
		}

		mustWrite(w.path("p.csv"), csvOf(pkgs))

		for _, db := range []DBEntry{
			{Name: "the-dir", URL: dirURL, Type: "dir", WorkDir: written},
			{Name: "the-zip", URL: "http://db.test/tree.zip", WorkDir: written},
		} {
			mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: []DBEntry{db}}))

			out := w.run("--json", "--use-dbs=false", "--config", "conf.yml", "csv-file:p.csv")
			res := parseResults(rt, out)

			if n, ok := dbCounts(out.Stderr)[db.Name]; !ok || n != count {
				rt.Fatalf("%s: %d advisories are said to be loaded, want %d (working directory %q): %s\n%s", db.Name, n, count, written, show(out), describeTree(files))
			}

			got := []string{}

			for _, r := range res {
				for _, p := range r.Packages {
					got = append(got, idsOf(p.Vulnerabilities)...)
				}
			}

			if strings.Join(sortedCopy(got), " ") != strings.Join(uniq(sortedCopy(want)), " ") {
				rt.Fatalf("%s: findings are %v, want %v (working directory %q): %s\n%s", db.Name, got, want, written, show(out), describeTree(files))
			}

			wantCode := 0
			if len(want) > 0 {
				wantCode = 1
			}

			if out.Code != wantCode {
				rt.Fatalf("%s: exit code %d, want %d: %s", db.Name, out.Code, wantCode, show(out))
			}
		}

		bad := 0

		for _, f := range files {
			if f.Adv == nil {
				bad++
			}
		}

		c.Nontrivial(count > 0 && (bad > 0 || outside > 0))
		c.Label(dirURL != fileURL(root), "relative url")
		c.Label(outside > 0, "files outside of the working directory")
		c.Label(bad > 0, "files that are not advisories")
		c.Label(count > 0 && bad > 0 && outside > 0, "all of it")
		c.Key(describeTree(files), written, dirURL != fileURL(root))
		c.Sample(map[string]any{"files": strings.Split(describeTree(files), "\n"), "working directory": written})
	})

	// sources that are not there or not what they should be
	Check(t, "missing", 60, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		good := w.makeDB("good", pick(rt, "good kind", []string{"dir", "zip"}), []Advisory{{ID: "OSV-good", Affected: []Affected{matchEverything("npm", "foo")}}})

		var bad DBEntry

		fault := intIn(rt, "fault", 0, 4)
		switch fault {
		case 0:
			bad = DBEntry{Name: "bad", URL: fileURL(filepath.Join(c.Dir(), "nowhere"))}
		case 1:
			d := w.writeTree("tree", []File{{"a/x.json", mustJSON(Advisory{ID: "OSV-bad", Affected: []Affected{matchEverything("npm", "foo")}})}})
			bad = DBEntry{Name: "bad", URL: fileURL(d), WorkDir: pick(rt, "missing directory", []string{"b", "a/b", "a/x", "aa"})}
		case 2:
			body := []byte(pick(rt, "not a zip", []string{"", "hello", "{}", "PK", "PK\x03\x04", strings.Repeat("x", 5000)}))
			w.serveBytes("http://db.test/bad.zip", body)
			bad = DBEntry{Name: "bad", URL: "http://db.test/bad.zip"}
		case 3:
			z := zipOf([]File{{"x.json", mustJSON(Advisory{ID: "OSV-bad", Affected: []Affected{matchEverything("npm", "foo")}})}})
			w.serveBytes("http://db.test/bad.zip", z[:intIn(rt, "cut at", 0, len(z)-22)])
			bad = DBEntry{Name: "bad", URL: "http://db.test/bad.zip"}
		case 4:
			status := pick(rt, "status", []int{400, 403, 404, 500, 503, 204})
			w.serve("http://db.test/bad.zip", func(rw http.ResponseWriter, _ *http.Request, _ []byte) { rw.WriteHeader(status) })
			bad = DBEntry{Name: "bad", URL: "http://db.test/bad.zip"}
		}

		dbs := shuffled(rt, "order", []DBEntry{good, bad})
		mustWrite(w.path("conf.yml"), yamlOf(ConfigFile{Databases: dbs}))

		pkg := pick(rt, "package", []string{"foo", "other"})
		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: pkg, Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		out := w.run("--json", "--use-dbs=false", "--config", "conf.yml", "csv-file:p.csv")
		res := parseResults(rt, out)

		if out.Code != 127 {
			rt.Fatalf("a database could not be loaded but the exit code is %d: %s", out.Code, show(out))
		}

		if _, ok := dbCounts(out.Stderr)["bad"]; ok {
			rt.Fatalf("a database that could not be loaded is used: %s", show(out))
		}

		if pkg == "foo" && (len(res) != 1 || len(res[0].Packages) != 1 || !res[0].Packages[0].has("OSV-good")) {
			rt.Fatalf("the other database is not used: %s", show(out))
		}

		c.Nontrivial(true)
		c.Label(true, fmt.Sprintf("fault %d", fault))
		c.Key(fault, bad, dbs[0].Name, pkg)
		c.Sample(map[string]any{"databases": dbs, "fault": fault})
	})
}

func describeTree(files []treeFile) string {
	lines := []string{}

	for _, f := range files {
		b := string(f.Bytes)
		if len(b) > 200 {
			b = fmt.Sprintf("%s... (%d bytes)", b[:200], len(b))
		}

		lines = append(lines, fmt.Sprintf("%q: %q", f.Path, b))
	}

	return strings.Join(lines, "\n")
}
