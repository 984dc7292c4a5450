package harness

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- databases

// File is a file of a database tree or archive.
type File struct {
	Name    string
	Content []byte
}

// advFile returns the file an advisory is stored in.
func advFile(dir string, a Advisory) File {
	n := a.ID + ".json"
	if dir != "" {
		n = dir + "/" + n
	}

	return File{n, mustJSON(a)}
}

func advFiles(dir string, advs []Advisory) []File {
	out := []File{}
	for _, a := range advs {
		out = append(out, advFile(dir, a))
	}

	return out
}

func zipOf(files []File) []byte {
	var buf bytes.Buffer

	z := zip.NewWriter(&buf)

	for _, f := range files {
		w, err := z.Create(f.Name)
		if err != nil {
			infra("zip: %v", err)
		}

		if _, err := w.Write(f.Content); err != nil {
			infra("zip: %v", err)
		}
	}

	if err := z.Close(); err != nil {
		infra("zip: %v", err)
	}

	return buf.Bytes()
}

// DBEntry is how a database is listed in a config.
type DBEntry struct {
	URL     string `yaml:"url"`
	Name    string `yaml:"name,omitempty"`
	Type    string `yaml:"type,omitempty"`
	WorkDir string `yaml:"working-directory,omitempty"`
}

// Kind tells how the entry is meant to be loaded, from the documentation of the
// config file.
func (d DBEntry) Kind() string {
	switch {
	case d.Type != "":
		return d.Type
	case strings.HasPrefix(d.URL, "file:/"):
		return "dir"
	case strings.HasSuffix(d.URL, ".zip"):
		return "zip"
	default:
		return "api"
	}
}

// ID identifies the database.
func (d DBEntry) ID() string { return d.Kind() + "\x00" + d.URL + "\x00" + d.WorkDir }

// DisplayName is what the output calls the database.
func (d DBEntry) DisplayName() string {
	if d.Name != "" {
		return d.Name
	}

	n := d.Kind() + "#" + d.URL
	if d.WorkDir != "" {
		n += "#" + d.WorkDir
	}

	return n
}

// ConfigFile is the content of a config.
type ConfigFile struct {
	Ignore    []string  `yaml:"ignore"`
	Databases []DBEntry `yaml:"extra-databases,omitempty"`
}

func yamlOf(v any) []byte {
	b, err := yaml.Marshal(v)
	if err != nil {
		infra("yaml: %v", err)
	}

	return b
}

const fixedDate = "Mon, 02 Jan 2023 03:04:05 GMT"

// ---------------------------------------------------------------- workdir

// Workdir is a directory tree, network and set of databases to run the binary in.
type Workdir struct {
	c     *Case
	root  string // the working directory of the runs
	tmp   string // their temporary directory
	net   *Net
	mu    sync.Mutex
	route map[string]func(w http.ResponseWriter, r *http.Request, body []byte)
	dbs   []DBEntry
	env   []string
}

func newWorkdir(c *Case) *Workdir {
	w := &Workdir{
		c:     c,
		root:  filepath.Join(c.Dir(), "w"),
		tmp:   filepath.Join(c.Dir(), "tmp"),
		route: map[string]func(w http.ResponseWriter, r *http.Request, body []byte){},
	}

	for _, d := range []string{w.root, w.tmp} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			infra("mkdir: %v", err)
		}
	}

	w.net = UseNet(w.handle)

	return w
}

func (w *Workdir) path(elem ...string) string {
	return filepath.Join(append([]string{w.root}, elem...)...)
}

func (w *Workdir) handle(rw http.ResponseWriter, r *http.Request, body []byte) {
	u := r.URL.Scheme + "://" + r.URL.Host + r.URL.Path

	w.mu.Lock()
	h, ok := w.route[u]
	best := ""

	if !ok {
		// routes that end with a slash match everything below them
		for k := range w.route {
			if strings.HasSuffix(k, "/") && strings.HasPrefix(u, k) && len(k) > len(best) {
				best = k
			}
		}

		if best != "" {
			h, ok = w.route[best], true
		}
	}
	w.mu.Unlock()

	if !ok {
		http.Error(rw, "nothing here", http.StatusNotFound)

		return
	}

	h(rw, r, body)
}

// serve answers requests for the url.
func (w *Workdir) serve(u string, h func(rw http.ResponseWriter, r *http.Request, body []byte)) {
	w.mu.Lock()
	defer w.mu.Unlock()

	w.route[u] = h
}

func (w *Workdir) serveBytes(u string, b []byte) {
	w.serve(u, func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
		rw.Header().Set("Date", fixedDate)
		_, _ = rw.Write(b)
	})
}

// writeZipped writes the body compressed, if the client says that it can handle that.
func writeZipped(rw http.ResponseWriter, r *http.Request, body []byte) {
	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		_, _ = rw.Write(body)

		return
	}

	rw.Header().Set("Content-Encoding", "gzip")

	z := gzip.NewWriter(rw)
	_, _ = z.Write(body)
	_ = z.Close()
}

// serveAPI makes the url an API that finds the advisories affecting a package
// according to match.
func (w *Workdir) serveAPI(base string, find func(q APIQuery) []string, advs map[string]Advisory) {
	w.serve(base+"/querybatch", func(rw http.ResponseWriter, r *http.Request, body []byte) {
		var req struct {
			Queries []APIQuery `json:"queries"`
		}

		if err := json.Unmarshal(body, &req); err != nil {
			http.Error(rw, err.Error(), http.StatusBadRequest)

			return
		}

		type vuln struct {
			ID string `json:"id"`
		}

		type result struct {
			Vulns []vuln `json:"vulns,omitempty"`
		}

		out := struct {
			Results []result `json:"results"`
		}{Results: []result{}}

		for _, q := range req.Queries {
			res := result{}
			for _, id := range find(q) {
				res.Vulns = append(res.Vulns, vuln{id})
			}

			out.Results = append(out.Results, res)
		}

		writeZipped(rw, r, mustJSON(out))
	})
	w.serve(base+"/vulns/", func(rw http.ResponseWriter, r *http.Request, _ []byte) {
		id := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
		if a, ok := advs[id]; ok {
			writeZipped(rw, r, mustJSON(a))

			return
		}

		http.Error(rw, "not found", http.StatusNotFound)
	})
}

// APIQuery is one query of a batch.
type APIQuery struct {
	Commit  string `json:"commit"`
	Version string `json:"version"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

// writeTree writes the files of a directory database and returns its absolute path.
func (w *Workdir) writeTree(name string, files []File) string {
	d := filepath.Join(w.c.Dir(), "dbs", name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		infra("mkdir: %v", err)
	}

	for _, f := range files {
		mustWrite(filepath.Join(d, filepath.FromSlash(f.Name)), f.Content)
	}

	return d
}

func fileURL(abs string) string { return "file:///" + (&url.URL{Path: abs}).EscapedPath() }

// makeDB makes a database of the kind with the advisories, and returns its entry.
func (w *Workdir) makeDB(name, kind string, advs []Advisory) DBEntry {
	switch kind {
	case "dir":
		return DBEntry{Name: name, URL: fileURL(w.writeTree(name, advFiles("", advs)))}
	case "zip":
		u := "http://db.test/" + name + ".zip"
		w.serveBytes(u, zipOf(advFiles("", advs)))

		return DBEntry{Name: name, URL: u}
	case "api":
		u := "http://db.test/" + name + "/v1"
		byID := map[string]Advisory{}

		for _, a := range advs {
			byID[a.ID] = a
		}

		w.serveAPI(u, func(q APIQuery) []string {
			ids := []string{}

			for _, a := range advs {
				if q.Package.Name != "" && affects(a, Pkg{Name: q.Package.Name, Ecosystem: q.Package.Ecosystem, Version: q.Version}, simpleRank) {
					ids = append(ids, a.ID)
				}
			}

			return ids
		}, byID)

		return DBEntry{Name: name, URL: u}
	}

	infra("unknown kind of database %s", kind)

	return DBEntry{}
}

func (w *Workdir) addDB(name, kind string, advs []Advisory) {
	w.dbs = append(w.dbs, w.makeDB(name, kind, advs))
}

// writeConfig writes a config with the databases added so far.
func (w *Workdir) writeConfig(name string) string {
	mustWrite(w.path(name), yamlOf(ConfigFile{Ignore: []string{}, Databases: w.dbs}))

	return name
}

func (w *Workdir) run(args ...string) Out {
	return RunCLI(w.c, RunOpts{Cwd: w.root, TmpDir: w.tmp, Env: w.env, Net: w.net}, args...)
}

// ---------------------------------------------------------------- results

// ResVuln is a finding in the JSON output.
type ResVuln struct {
	ID        string     `json:"id"`
	Aliases   []string   `json:"aliases"`
	Summary   string     `json:"summary"`
	Details   string     `json:"details"`
	Published string     `json:"published"`
	Modified  string     `json:"modified"`
	Withdrawn *string    `json:"withdrawn"`
	Affected  []Affected `json:"affected"`
}

// ResPkg is a package in the JSON output.
type ResPkg struct {
	Pkg
	Vulnerabilities []ResVuln `json:"vulnerabilities"`
	Ignored         []ResVuln `json:"ignored"`
}

func (p ResPkg) pkg() Pkg { return p.Pkg }

func (p ResPkg) has(id string) bool {
	for _, v := range p.Vulnerabilities {
		if v.ID == id {
			return true
		}
	}

	return false
}

func idsOf(vs []ResVuln) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.ID)
	}

	return out
}

// Res is the result of one lockfile in the JSON output.
type Res struct {
	FilePath string   `json:"filePath"`
	ParsedAs string   `json:"parsedAs"`
	Packages []ResPkg `json:"packages"`
}

// parseResults decodes the output of a run with --json, which must be exactly one
// JSON object.
func parseResults(rt *rapid.T, o Out) []Res {
	if o.Crashed() {
		rt.Fatalf("the run crashed: %s", show(o))
	}

	d := json.NewDecoder(strings.NewReader(o.Stdout))

	var doc struct {
		Results *[]Res `json:"results"`
	}

	if err := d.Decode(&doc); err != nil {
		rt.Fatalf("stdout is not a JSON document (%v): %s", err, show(o))
	}

	var extra any
	if err := d.Decode(&extra); err != io.EOF {
		rt.Fatalf("stdout has more than one JSON document: %s", show(o))
	}

	if doc.Results == nil {
		rt.Fatalf("stdout has no list of results: %s", show(o))
	}

	return *doc.Results
}

func show(o Out) string {
	cut := func(s string) string {
		if len(s) > 2500 {
			return s[:2500] + "..."
		}

		return s
	}

	return fmt.Sprintf("args %q\nexit code %d\nstdout:\n%s\nstderr:\n%s", o.Args, o.Code, cut(o.Stdout), cut(o.Stderr))
}

// csvOf writes packages as CSV.
func csvOf(pkgs []Pkg) []byte {
	var b bytes.Buffer

	w := csv.NewWriter(&b)
	for _, p := range pkgs {
		version := p.Version
		if p.Ecosystem == "" && p.Commit != "" {
			version = p.Commit
		}

		if err := w.Write([]string{p.Ecosystem, p.CompareAs, p.Name, version}); err != nil {
			infra("csv: %v", err)
		}
	}

	w.Flush()

	return b.Bytes()
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}
