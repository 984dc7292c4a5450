package harness

import (
	"fmt"
	"net/http"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// A scene is a directory tree of lockfiles and configs together with databases, and
// a model of what a scan of it has to report.

// SceneDB is a database of a scene.
type SceneDB struct {
	Entry DBEntry
	Advs  []Advisory
	Fault string // "", "load" (cannot be loaded), "check" (an API whose queries fail), "invalid" (entry is not valid)
	Sub   string // for dir and zip: the working directory the advisories are in
	Gone  bool   // for zip: the archive cannot be fetched
	tree  string // for dir: what its directory is called
}

// SceneLock is a lockfile of a scene.
type SceneLock struct {
	Dir    string // "" or a directory below the root
	Name   string
	Format string // the parser
	Pkgs   []Pkg  // in the order they have to be listed
	Broken bool
}

func (l *SceneLock) path() string { return path.Join(l.Dir, l.Name) }

// SceneConf is a config of a scene.
type SceneConf struct {
	Path    string
	Ignore  []string
	DBs     []*SceneDB
	Invalid bool
}

// Scene is everything together.
type Scene struct {
	env    []string // of the runs
	w      *Workdir
	dbs    []*SceneDB            // extra databases
	eco    map[string]*SceneDB   // default databases
	osvdev *SceneDB              // the osv.dev API
	locks  []*SceneLock          //
	confs  map[string]*SceneConf // by path
	ids    []string
}

// SceneOpts says what a scene may have.
type SceneOpts struct {
	BrokenLocks  bool
	BrokenConfs  bool
	BrokenDBs    bool
	InvalidDBs   bool
	Aliases      bool
	Withdrawn    bool
	RichText     bool // unusual summaries and details
	Commits      bool
	OnlyLocal    bool // no API databases
	PlainConfs   bool // at least one config
	UniqueIDs    bool // the databases don't share advisories
	NoDefaultDBs bool
}

const (
	ecoBase = "https://osv-vulnerabilities.storage.googleapis.com/"
	apiBase = "https://api.osv.dev/v1"
)

// those without a format are only in CSV files
var sceneEcos = []string{"npm", "PyPI", "crates.io", "Packagist", "Go", "RubyGems", "Hex", "Debian:10", "Rocky Linux:8"}

var sceneFormats = map[string]string{
	"npm": "package-lock.json", "PyPI": "requirements.txt", "crates.io": "Cargo.lock", "Packagist": "composer.lock",
	"Go": "go.mod", "RubyGems": "Gemfile.lock", "Hex": "mix.lock",
}

var sceneNames = map[string][]string{
	"npm":       {"aaa", "@scope/bbb", "ccc", "ddd"},
	"PyPI":      {"aaa", "django", "ccc", "ddd"},
	"crates.io": {"aaa", "bbb_x", "ccc", "ddd"},
	"Packagist": {"aaa/bbb", "sentry/sdk", "c/ccc", "d/ddd"},
	"Go":        {"example.com/aaa", "example.com/bbb", "github.com/ccc/ddd", "golang.org/x/eee"},
	"RubyGems":  {"aaa", "bbb_x", "ccc", "ddd-e"},
	"Hex":       {"aaa", "bbb_x", "ccc", "ddd"},

	"Debian:10":     {"aaa", "libb1", "c++", "ddd-e"},
	"Rocky Linux:8": {"aaa", "libb1", "C", "ddd-e"},
}

var sceneVersions = []string{"0.1.0", "1.0.0", "1.2.3", "1.10.0", "2.0.0", "10.0.1"}

var sceneDirs = []string{"", "a", "b", "a/c", "odd dir", "100%d", "a%2Fb%41", "[x]*?#é"}

var sceneTexts = []string{
	"", "A short text", "100% of <script> & \"quotes\"", "%s %d %n",
	"Ünïcödé ✓ 漢字", "several\nlines\nof text", "tabs\tand  spaces",
	"A text which is a good deal longer than the eighty characters that are shown of it, so it has to be cut somewhere",
	"Anunbrokentextwhichisagooddeallongerthantheeightycharactersthatareshownofitsoithastobecutsomewhere",
	"漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字",
	"Ein Text mit Ümläuten, der länger ist als achtzig Zeichen – und daher ÄÖÜ gekürzt werden muß, ähem, ohne Zeichen zu zerteilen",
	"   ", "lines\r\nof Windows\r\n", "with a \x00 and a \x1b[0m and a \u2028 in it", "\\u0000 \\n \\\\ <b>",
}

func lockContent(format string, pkgs []Pkg) []byte {
	var b strings.Builder

	switch format {
	case "package-lock.json":
		m := map[string]any{}
		for _, p := range pkgs {
			m["node_modules/"+p.Name] = map[string]any{"version": p.Version}
		}

		return mustJSON(map[string]any{"lockfileVersion": 2, "packages": m})
	case "requirements.txt":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s==%s\n", p.Name, p.Version)
		}
	case "Cargo.lock":
		b.WriteString("version = 3\n")

		for _, p := range pkgs {
			fmt.Fprintf(&b, "\n[[package]]\nname = %q\nversion = %q\n", p.Name, p.Version)
		}
	case "composer.lock":
		ps := []any{}
		for _, p := range pkgs {
			ps = append(ps, map[string]any{"name": p.Name, "version": p.Version, "dist": map[string]any{"reference": p.Commit}})
		}

		return mustJSON(map[string]any{"packages": ps})
	case "go.mod":
		b.WriteString("module my/module\n\ngo 1.20\n\nrequire (\n")

		for _, p := range pkgs {
			fmt.Fprintf(&b, "\t%s v%s\n", p.Name, p.Version)
		}

		b.WriteString(")\n")
	case "Gemfile.lock":
		b.WriteString("GEM\n  remote: https://rubygems.org/\n  specs:\n")

		for _, p := range pkgs {
			fmt.Fprintf(&b, "    %s (%s)\n", p.Name, p.Version)
		}

		b.WriteString("\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n\nBUNDLED WITH\n   2.1.4\n")
	case "mix.lock":
		b.WriteString("%{\n")

		for _, p := range pkgs {
			fmt.Fprintf(&b, "  \"%s\": {:hex, :%s, \"%s\", \"%s\", [:mix], [], \"hexpm\", \"d41\"},\n", p.Name, p.Name, p.Version, p.Commit)
		}

		b.WriteString("}\n")
	case "csv-file":
		return csvOf(pkgs)
	default:
		infra("no writer for %s", format)
	}

	return []byte(b.String())
}

func sortPkgs(ps []Pkg) []Pkg {
	out := append([]Pkg{}, ps...)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Name != out[j].Name {
			return out[i].Name < out[j].Name
		}

		if out[i].Version != out[j].Version {
			return out[i].Version < out[j].Version
		}

		return out[i].Commit < out[j].Commit
	})

	return out
}

const someCommit = "9c3d4b1f0a2e5d6c7b8a9f0e1d2c3b4a5f6e7d8c"

func genScenePkgs(rt *rapid.T, eco string, o SceneOpts, lo int) []Pkg {
	pkgs := []Pkg{}

	for _, n := range subsetOf(rt, "package", sceneNames[eco], lo, 4) {
		versions := sceneVersions
		if eco == "Go" {
			versions = sceneVersions[:4] // later ones need another module path
		}

		p := Pkg{Name: n, Version: pick(rt, "version", versions), Ecosystem: eco, CompareAs: eco}

		if o.Commits && (eco == "Packagist" || eco == "Hex") && chance(rt, "commit", 50) {
			p.Commit = someCommit
		}

		pkgs = append(pkgs, p)
	}

	// now and then a lot of others
	if chance(rt, "many packages", 3) {
		prefix := "filler-"

		switch eco {
		case "Go":
			prefix = "example.com/filler"
		case "Packagist":
			prefix = "filler/f"
		case "Hex":
			prefix = "filler_"
		}

		for i := range pick(rt, "fillers", []int{12, 40, 120}) {
			pkgs = append(pkgs, Pkg{Name: fmt.Sprint(prefix, i), Version: "1.0.0", Ecosystem: eco, CompareAs: eco})
		}
	}

	return pkgs
}

func genSceneAdvisory(rt *rapid.T, id string, ids []string, ecos []string, o SceneOpts) Advisory {
	a := Advisory{ID: id, Affected: []Affected{}}

	for range pick(rt, "entries", []int{1, 1, 1, 1, 2, 2, 2, 2, 4, 6}) {
		eco := pick(rt, "advisory ecosystem", ecos)
		e := Affected{Package: AdvPackage{eco, pick(rt, "advisory package", sceneNames[eco])}}

		switch intIn(rt, "entry", 0, 12) {
		case 12: // nothing that can match
		case 0, 6:
			e.Versions = sliceFrom(rt, "versions", sceneVersions, 1, 3)
		case 1, 2, 3, 7, 8, 9:
			e.Ranges = []Range{{Type: "SEMVER", Events: []Event{{Introduced: "0"}}}}
		default:
			e.Ranges = []Range{genRange(rt, sceneVersions)}
		}

		// ranges of commits say nothing about versions
		if len(e.Ranges) > 0 && chance(rt, "commits", 10) {
			g := genGitRange(rt)
			g.Repo = ""
			e.Ranges = shuffled(rt, "order of ranges", append(e.Ranges, g))
		}

		a.Affected = append(a.Affected, e)
	}

	if o.Aliases && chance(rt, "aliases", 50) {
		for _, x := range subsetOf(rt, "alias", append([]string{"CVE-1", "CVE-2", "CVE-3"}, ids...), 1, 2) {
			if x != id {
				a.Aliases = append(a.Aliases, x)
			}
		}
	}

	if o.Withdrawn && chance(rt, "withdrawn", 20) {
		a.Withdrawn = "2021-03-04T05:06:07Z"
	}

	a.Summary = "Summary of " + id
	if o.RichText {
		a.Summary = ""
		if chance(rt, "summary", 40) {
			a.Summary = pick(rt, "summary", sceneTexts)
		}

		if chance(rt, "details", 80) {
			a.Details = pick(rt, "details", sceneTexts)
		}

		a.Published = pick(rt, "published", []string{"2021-02-03T04:05:06Z", "2020-12-31T23:59:59.123Z", "2020-12-31T23:59:59.999999999Z", "2021-02-03T04:05:06.123456Z", "2021-02-03T04:05:06+02:00", "1969-12-31T23:00:00-11:30"})
		a.Modified = pick(rt, "modified", []string{"2022-02-03T04:05:06Z", "2022-02-03T04:05:06.000001Z", "2022-02-03T04:05:06.5+05:45"})
	}

	return a
}

func genScene(rt *rapid.T, c *Case, o SceneOpts) *Scene {
	s := &Scene{w: newWorkdir(c), eco: map[string]*SceneDB{}, confs: map[string]*SceneConf{}}
	ecos := subsetOf(rt, "ecosystem", sceneEcos, 1, 3)
	all := []string{"GHSA-1", "GHSA-2", "OSV-3", "CVE-4", "PYSEC-5", "OSV-6", "GHSA-7", "OSV-8"}

	if chance(rt, "other ids", 25) {
		all = []string{"GHSA-1", "osv-3", "OSV-3", "go-10", "GHSA-10", "A_9", "Zé-7", "OSV-30"}
	}

	s.ids = all[:intIn(rt, "advisories", 3, len(all))]

	if chance(rt, "bulk", 3) {
		for i := range pick(rt, "bulk", []int{20, 60, 150}) {
			s.ids = append(s.ids, fmt.Sprintf("BULK-%d", i))
		}
	}

	// lockfiles
	taken := map[string]bool{}
	dirs := sceneDirs

	if chance(rt, "all in one directory", 25) {
		dirs = []string{pick(rt, "dir", sceneDirs)}
	}

	files := intIn(rt, "lockfiles", 1, 4)

	if uniform(rt, "many lockfiles", 50) == 49 {
		files = intIn(rt, "lockfiles", 10, 20)
		dirs = []string{}

		for i := range files {
			dirs = append(dirs, fmt.Sprintf("many/d%d", i))
		}
	}

	for range files {
		l := &SceneLock{Dir: pick(rt, "dir", dirs)}
		kind := intIn(rt, "lockfile kind", 0, 3)
		eco := pick(rt, "lockfile ecosystem", ecos)

		if kind == 0 || sceneFormats[eco] == "" {
			l.Format = "csv-file"
			l.Name = pick(rt, "csv name", []string{"x.csv", "y.csv"})

			for _, eco := range ecos {
				// without packages that only differ by their ecosystem, whose order is open
			next:
				for _, p := range genScenePkgs(rt, eco, SceneOpts{}, intIn(rt, "least packages", 0, 2)) {
					for _, q := range l.Pkgs {
						if p.Name == q.Name && p.Version == q.Version {
							continue next
						}
					}

					l.Pkgs = append(l.Pkgs, p)
				}
			}

			// one that is only known by its commit
			if chance(rt, "commit only", 15) {
				l.Pkgs = append(l.Pkgs, Pkg{Name: "from-git", Commit: someCommit})
			}
		} else {
			l.Format = sceneFormats[eco]
			l.Name = l.Format
			l.Pkgs = genScenePkgs(rt, eco, o, intIn(rt, "least packages", 0, 2))

			if kind == 1 {
				l.Name = "my.lock"
			}
		}

		if taken[l.path()] {
			continue
		}

		taken[l.path()] = true
		content := lockContent(l.Format, shuffled(rt, "package order", l.Pkgs))
		l.Pkgs = sortPkgs(l.Pkgs)

		if o.BrokenLocks && chance(rt, "broken lockfile", 15) && l.Format != "Gemfile.lock" && l.Format != "requirements.txt" && l.Format != "mix.lock" {
			l.Broken = true
			content = []byte("{\"!\n<")
		}

		mustWrite(s.w.path(filepath.FromSlash(l.path())), content)
		s.locks = append(s.locks, l)
	}

	// databases
	advisories := map[string]Advisory{}
	for _, id := range s.ids {
		advisories[id] = genSceneAdvisory(rt, id, s.ids[:min(len(s.ids), 8)], ecos, o)
	}

	free := append([]string(nil), s.ids...)
	some := func(label string, only func(Advisory) bool) []Advisory {
		out := []Advisory{}

		from := s.ids
		if o.UniqueIDs {
			from = free
		}

		chosen := subsetOf(rt, label, from, 1, 6)
		if len(s.ids) > 8 && chance(rt, "all of them", 60) {
			chosen = from
		}

		for _, id := range chosen {
			a := advisories[id]
			if only != nil && !only(a) {
				continue
			}

			out = append(out, a)

			if o.UniqueIDs {
				for i := range free {
					if free[i] == id {
						free = append(free[:i:i], free[i+1:]...)

						break
					}
				}
			}
		}

		return out
	}
	notWithdrawn := func(a Advisory) bool { return a.Withdrawn == "" }

	kinds := []string{"dir", "dir", "zip", "api"}
	if o.OnlyLocal {
		kinds = []string{"dir", "dir", "zip"}
	}

	for i := range intIn(rt, "extra databases", 0, 3) {
		kind := pick(rt, "database kind", kinds)
		name := fmt.Sprintf("db%d", i)
		only := notWithdrawn

		if kind != "api" {
			only = nil
		}

		db := &SceneDB{Advs: some("advisory of "+name, only)}
		sub := ""

		if kind != "api" && chance(rt, "working directory", 20) {
			sub = "some/where"
			db.Sub = sub
		}

		// another part of the directory of the one before
		if before := len(s.dbs) - 1; kind == "dir" && before >= 0 && s.dbs[before].Sub == "some/where" && s.dbs[before].tree != "" && chance(rt, "same directory", 50) {
			sub = "another/place"
			db.Sub = sub
			name = s.dbs[before].tree
		}

		db.Entry = s.makeDB(rt, name, kind, sub, db.Advs)
		if kind == "dir" {
			db.tree = name
			db.Entry.Name = fmt.Sprintf("db%d", i)
		}

		if chance(rt, "unnamed", 30) {
			db.Entry.Name = ""
		}

		if chance(rt, "explicit type", 25) {
			db.Entry.Type = db.Entry.Kind()
		}

		switch {
		case o.BrokenDBs && chance(rt, "broken database", 20):
			s.breakDB(rt, db, kind)
		case o.InvalidDBs && chance(rt, "invalid database", 20):
			db.Fault = "invalid"

			if chance(rt, "bad type", 50) {
				db.Entry.Type = "file"
			} else {
				db.Entry.URL = "db.test/no-scheme.zip"
			}
		}

		s.dbs = append(s.dbs, db)
	}

	if !o.NoDefaultDBs {
		for _, eco := range ecos {
			db := &SceneDB{
				Entry: DBEntry{URL: ecoBase + eco + "/all.zip", Name: eco, Type: "zip"},
				Advs:  some("advisory of "+eco, nil),
			}
			files := advFiles("", db.Advs)
			s.w.serveBytes(db.Entry.URL, zipOf(files))
			s.eco[eco] = db

			if o.BrokenDBs && chance(rt, "broken default database", 8) {
				s.breakDB(rt, db, "zip")
			}
		}
	}

	s.osvdev = &SceneDB{Entry: DBEntry{URL: apiBase, Name: "osv.dev v1 API", Type: "api"}, Advs: some("advisory of the api", notWithdrawn)}
	s.w.serveAPIOf(apiBase, s.osvdev.Advs)

	// configs
	dirs = []string{}
	for _, l := range s.locks {
		dirs = append(dirs, l.Dir)
	}

	n := 0

	for _, d := range uniq(dirs) {
		if !chance(rt, "local config", 60) && !(o.PlainConfs && n == 0) {
			continue
		}

		n++

		for _, ext := range pick(rt, "extension", [][]string{{".yml"}, {".yaml"}, {".yml", ".yaml"}}) {
			s.addConf(rt, path.Join(d, ".osv-detector"+ext), o)
		}
	}

	if chance(rt, "other config", 50) {
		s.addConf(rt, pick(rt, "other config path", []string{"conf.yml", "configs/100%d.yaml"}), o)
	}

	return s
}

func (s *Scene) makeDB(rt *rapid.T, name, kind, sub string, advs []Advisory) DBEntry {
	if kind == "api" || sub == "" {
		return s.w.makeDB(name, kind, advs)
	}

	// a file outside the working directory that must not be used
	files := append(advFiles(sub+"/deep", advs), advFile("some/where-else", Advisory{
		ID:       "OUTSIDE",
		Affected: []Affected{},
	}), File{sub + "/README.md", []byte("advisories")})

	if kind == "dir" {
		return DBEntry{Name: name, URL: fileURL(s.w.writeTree(name, files)), WorkDir: sub}
	}

	u := "http://db.test/" + name + ".zip"
	if chance(rt, "no zip extension", 50) {
		u = "http://db.test/" + name + "/archive"
	}

	s.w.serveBytes(u, zipOf(files))

	e := DBEntry{Name: name, URL: u, WorkDir: sub}
	if e.Kind() != "zip" {
		e.Type = "zip"
	}

	return e
}

func (s *Scene) breakDB(rt *rapid.T, db *SceneDB, kind string) {
	db.Fault = "load"

	switch kind {
	case "dir":
		db.Entry.URL = fileURL(filepath.Join(s.w.c.Dir(), "dbs", "nowhere"))
	case "zip":
		fault := intIn(rt, "zip fault", 0, 3)
		db.Gone = fault != 2

		switch fault {
		case 0:
			s.w.serve(db.Entry.URL, func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
				http.Error(rw, "no", http.StatusInternalServerError)
			})
		case 1:
			s.w.serve(db.Entry.URL, func(rw http.ResponseWriter, _ *http.Request, _ []byte) { hangUp(rw) })
		case 2:
			s.w.serveBytes(db.Entry.URL, []byte("this is not a zip"))
		case 3:
			s.w.serve(db.Entry.URL, func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
				shortBody(rw, zipOf(advFiles("", db.Advs)))
			})
		}
	case "api":
		db.Fault = "check"
		s.w.serve(db.Entry.URL+"/querybatch", func(rw http.ResponseWriter, _ *http.Request, _ []byte) {
			http.Error(rw, "no", http.StatusInternalServerError)
		})
	}
}

func (s *Scene) addConf(rt *rapid.T, p string, o SceneOpts) {
	conf := &SceneConf{Path: p, Ignore: subsetOf(rt, "ignores", append([]string{"OSV-unused"}, s.ids[:min(len(s.ids), 12)]...), 0, 3)}
	conf.DBs = subsetOf(rt, "databases of config", s.dbs, 0, 3)

	content := s.confContent(conf)

	if chance(rt, "long comment", 4) {
		content = append(content, []byte("# "+strings.Repeat("a comment ", 600)+"\n")...)
	}

	if o.BrokenConfs && chance(rt, "broken config", 15) {
		conf.Invalid = true
		content = []byte(pick(rt, "broken config content", []string{"ignore: [\n", "ignore: {a: b}\n", "\tignore:\n", "extra-databases: 5\n"}))
	}

	s.confs[p] = conf
	mustWrite(s.w.path(filepath.FromSlash(p)), content)
}

func (s *Scene) confContent(conf *SceneConf) []byte {
	f := ConfigFile{Ignore: conf.Ignore}
	for _, db := range conf.DBs {
		f.Databases = append(f.Databases, db.Entry)
	}

	return yamlOf(f)
}

func (w *Workdir) serveAPIOf(base string, advs []Advisory) {
	byID := map[string]Advisory{}
	for _, a := range advs {
		byID[a.ID] = a
	}

	w.serveAPI(base, func(q APIQuery) []string {
		ids := []string{}

		for _, a := range advs {
			if q.Package.Name != "" && affects(a, Pkg{Name: q.Package.Name, Ecosystem: q.Package.Ecosystem, Version: q.Version}, simpleRank) {
				ids = append(ids, a.ID)
			}
		}

		return ids
	}, byID)
}

// ---------------------------------------------------------------- flags and arguments

// SceneRun is how the binary is called.
type SceneRun struct {
	Config      string
	NoConfig    bool
	NoIgnores   bool
	NoDBs       bool
	UseDBs      *bool
	UseAPI      *bool
	PreferAPI   bool
	Ignores     []string
	ParseAs     string
	Args        []SceneArg
	ListPkgs    bool
	Update      bool
	ExtraBefore []string
}

// SceneArg is one path argument and the lockfiles it stands for.
type SceneArg struct {
	Arg   string
	Locks []SceneItem
	Fails bool // the path cannot be read
}

// SceneItem is a lockfile as scanned.
type SceneItem struct {
	Lock     *SceneLock
	ParsedAs string
	Fails    bool // it cannot be parsed
}

func (r *SceneRun) useDBs() bool {
	if r.UseDBs != nil {
		return *r.UseDBs
	}

	return !r.PreferAPI
}

func (r *SceneRun) useAPI() bool {
	if r.UseAPI != nil {
		return *r.UseAPI
	}

	return r.PreferAPI
}

func (r *SceneRun) args(json bool) []string {
	out := append([]string{}, r.ExtraBefore...)

	if json {
		out = append(out, "--json")
	}

	if r.Config != "" {
		out = append(out, "--config", r.Config)
	}

	if r.NoConfig {
		out = append(out, "--no-config")
	}

	if r.NoIgnores {
		out = append(out, "--no-config-ignores")
	}

	if r.NoDBs {
		out = append(out, "--no-config-databases")
	}

	if r.UseDBs != nil {
		out = append(out, fmt.Sprintf("--use-dbs=%v", *r.UseDBs))
	}

	if r.UseAPI != nil {
		out = append(out, fmt.Sprintf("--use-api=%v", *r.UseAPI))
	}

	for _, i := range r.Ignores {
		out = append(out, "--ignore", i)
	}

	if r.ParseAs != "" {
		out = append(out, "--parse-as", r.ParseAs)
	}

	if r.ListPkgs {
		out = append(out, "--list-packages")
	}

	if r.Update {
		out = append(out, "--update-config-ignores")
	}

	for _, a := range r.Args {
		out = append(out, a.Arg)
	}

	return out
}

func (r *SceneRun) items() []SceneItem {
	out := []SceneItem{}
	for _, a := range r.Args {
		out = append(out, a.Locks...)
	}

	return out
}

// argFor returns an argument that scans exactly the lockfile.
func (s *Scene) argFor(rt *rapid.T, l *SceneLock) SceneArg {
	p := l.path()
	if chance(rt, "absolute path", 10) {
		p = s.w.path(filepath.FromSlash(p))
	}

	item := SceneItem{Lock: l, ParsedAs: l.Format, Fails: l.Broken}

	if l.Name == l.Format && chance(rt, "no prefix", 70) {
		if chance(rt, "empty prefix", 20) {
			p = ":" + p
		}

		return SceneArg{Arg: p, Locks: []SceneItem{item}}
	}

	return SceneArg{Arg: l.Format + ":" + p, Locks: []SceneItem{item}}
}

// argForDir returns an argument that scans the lockfiles of the directory with a
// supported name.
func (s *Scene) argForDir(d string) SceneArg {
	arg := SceneArg{Arg: d}
	if d == "" {
		arg.Arg = "."
	}

	for _, l := range s.locks {
		if l.Dir == d && l.Name == l.Format {
			arg.Locks = append(arg.Locks, SceneItem{Lock: l, ParsedAs: l.Format, Fails: l.Broken})
		}
	}

	sort.Slice(arg.Locks, func(i, j int) bool { return arg.Locks[i].Lock.Name < arg.Locks[j].Lock.Name })

	return arg
}

func (s *Scene) genArgs(rt *rapid.T, errors bool) []SceneArg {
	args := []SceneArg{}

	for range intIn(rt, "arguments", max(1, len(s.locks)-6), max(4, len(s.locks)+4)) {
		k := intIn(rt, "argument kind", 0, 9)

		switch {
		case errors && k == 0:
			args = append(args, SceneArg{Arg: "does/not/exist", Fails: true})
		case k <= 2:
			args = append(args, s.argForDir(pick(rt, "directory", s.locks).Dir))
		case errors && k == 3:
			args = append(args, SceneArg{Arg: s.emptyDir()})
		default:
			args = append(args, s.argFor(rt, pick(rt, "lockfile", s.locks)))
		}
	}

	return args
}

func (s *Scene) emptyDir() string {
	mustWrite(s.w.path("empty", "README.md"), []byte("nothing here"))

	return "empty"
}

func (s *Scene) genRun(rt *rapid.T, errors bool) *SceneRun {
	r := &SceneRun{Args: s.genArgs(rt, errors)}
	b := func(label string) *bool {
		if !chance(rt, label, 50) {
			return nil
		}

		v := chance(rt, label+" value", 50)

		return &v
	}

	if chance(rt, "config flag", 25) && len(s.confs) > 0 {
		r.Config = pick(rt, "config", sortedKeys(s.confs))
	}

	r.NoConfig = chance(rt, "no-config", 10)
	r.NoIgnores = chance(rt, "no-config-ignores", 15)
	r.NoDBs = chance(rt, "no-config-databases", 15)
	r.UseDBs = b("use-dbs")
	r.UseAPI = b("use-api")
	r.PreferAPI = chance(rt, "prefer api", 10)
	r.Ignores = subsetOf(rt, "ignore flag", append([]string{"OSV-none"}, s.ids[:min(len(s.ids), 12)]...), 0, 2)

	return r
}

func (s *Scene) exec(r *SceneRun, json bool) Out {
	s.w.env = s.env[:len(s.env):len(s.env)]
	if r.PreferAPI {
		s.w.env = append(s.w.env, "OSV_DETECTOR_PREFER_API=true")
	}

	return s.w.run(r.args(json)...)
}

// ---------------------------------------------------------------- the model

// SceneFile is what a scan has to do with one lockfile.
type SceneFile struct {
	Item    SceneItem
	Path    string // as listed
	Failed  bool   // the lockfile or its config cannot be loaded
	Conf    *SceneConf
	DBs     []*SceneDB
	Ignores []string
}

func (s *Scene) configOf(r *SceneRun, l *SceneLock) *SceneConf {
	switch {
	case r.NoConfig:
		return nil
	case r.Config != "":
		return s.confs[r.Config]
	}

	for _, ext := range []string{".yml", ".yaml"} {
		if c, ok := s.confs[path.Join(l.Dir, ".osv-detector"+ext)]; ok {
			return c
		}
	}

	return nil
}

// fileOf is what has to happen with the lockfile.
func (s *Scene) fileOf(r *SceneRun, it SceneItem) SceneFile {
	f := SceneFile{Item: it, Failed: it.Fails, Conf: s.configOf(r, it.Lock)}

	if f.Conf != nil && f.Conf.Invalid {
		f.Failed = true
	}

	if f.Failed {
		return f
	}

	seen := map[string]bool{}
	add := func(db *SceneDB) {
		if db.Fault != "invalid" && !seen[db.Entry.ID()] {
			seen[db.Entry.ID()] = true
			f.DBs = append(f.DBs, db)
		}
	}

	if f.Conf != nil && !r.NoDBs {
		for _, db := range f.Conf.DBs {
			add(db)
		}
	}

	if r.useAPI() {
		add(s.osvdev)
	}

	if r.useDBs() {
		ecos := []string{}
		for _, p := range it.Lock.Pkgs {
			if p.Ecosystem != "" {
				ecos = append(ecos, p.Ecosystem)
			}
		}

		for _, e := range uniq(sortedCopy(ecos)) {
			if db, ok := s.eco[e]; ok {
				add(db)
			} else {
				// nothing is served for it
				add(&SceneDB{Entry: DBEntry{URL: ecoBase + e + "/all.zip", Name: e, Type: "zip"}, Fault: "load"})
			}
		}
	}

	f.Ignores = append(f.Ignores, r.Ignores...)
	if f.Conf != nil && !r.NoIgnores {
		f.Ignores = append(f.Ignores, f.Conf.Ignore...)
	}

	return f
}

func (s *Scene) filesOf(r *SceneRun) []SceneFile {
	out := []SceneFile{}
	for _, it := range r.items() {
		out = append(out, s.fileOf(r, it))
	}

	return out
}

// candidates returns the advisories (one per database that has it) that affect the
// package according to the databases of the file.
func (f *SceneFile) candidates(p Pkg) [][]Advisory {
	out := [][]Advisory{}

	for _, db := range f.DBs {
		if db.Fault != "" {
			continue
		}

		advs := []Advisory{}

		for _, a := range db.Advs {
			if a.Withdrawn == "" && affects(a, p, simpleRank) {
				advs = append(advs, a)
			}
		}

		out = append(out, advs)
	}

	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}

	return false
}

// checkFindings checks the findings of one package against the advisories that
// affect it, by database.
func checkFindings(p Pkg, reported, ignored []ResVuln, cands [][]Advisory, ignores []string) error {
	byID := map[string]Advisory{}
	for _, advs := range cands {
		for _, a := range advs {
			byID[a.ID] = a
		}
	}

	shown := []Advisory{}

	for i, v := range append(append([]ResVuln{}, reported...), ignored...) {
		a, ok := byID[v.ID]
		if !ok {
			return fmt.Errorf("%s is reported for %s, which no database in use says", v.ID, p)
		}

		for _, b := range shown {
			if related(a, b) {
				return fmt.Errorf("%s and %s are both reported for %s, but are the same vulnerability", a.ID, b.ID, p)
			}
		}

		shown = append(shown, a)

		if isIgnored := i >= len(reported); isIgnored != contains(ignores, v.ID) {
			return fmt.Errorf("%s of %s is ignored: %v, but the ignores are %v", v.ID, p, isIgnored, ignores)
		}
	}

	isShown := func(a Advisory) bool {
		for _, b := range shown {
			if related(a, b) {
				return true
			}
		}

		return false
	}

	for _, advs := range cands {
	next:
		for _, a := range advs {
			if isShown(a) {
				continue
			}

			if len(cands) > 1 {
				for _, b := range advs {
					if related(a, b) && isShown(b) {
						continue next
					}
				}
			}

			return fmt.Errorf("%s affects %s but is neither reported nor the same as something that is: %s", a.ID, p, mustJSON(a))
		}
	}

	return nil
}

// checkResults checks the results of a run: one for each lockfile that did not fail,
// in order, with its packages and findings.
func checkResults(rt *rapid.T, s *Scene, files []SceneFile, out Out) (findings, ignored int) {
	res := parseResults(rt, out)
	want := []SceneFile{}

	for _, f := range files {
		if !f.Failed {
			want = append(want, f)
		}
	}

	if len(res) != len(want) {
		rt.Fatalf("%d results, want %d: %s", len(res), len(want), show(out))
	}

	for i, f := range want {
		r := res[i]

		if filepath.Base(r.FilePath) != f.Item.Lock.Name || r.ParsedAs != f.Item.ParsedAs {
			rt.Fatalf("result %d is of %s (parsed as %s), want %s (%s): %s", i, r.FilePath, r.ParsedAs, f.Item.Lock.path(), f.Item.ParsedAs, show(out))
		}

		if d := diffPkgs(pkgsOf(r.Packages), f.Item.Lock.Pkgs); d != "" {
			rt.Fatalf("packages of %s: %s: %s", r.FilePath, d, show(out))
		}

		for _, p := range r.Packages {
			if err := checkFindings(p.Pkg, p.Vulnerabilities, p.Ignored, f.candidates(p.Pkg), f.Ignores); err != nil {
				rt.Fatalf("%s: %v: %s", r.FilePath, err, show(out))
			}

			findings += len(p.Vulnerabilities)
			ignored += len(p.Ignored)
		}
	}

	return findings, ignored
}

func pkgsOf(rs []ResPkg) []Pkg {
	out := []Pkg{}
	for _, r := range rs {
		out = append(out, r.Pkg)
	}

	return out
}

func diffPkgs(got, want []Pkg) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d packages %v, want %d packages %v", len(got), got, len(want), want)
	}

	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("package %d is %+v, want %+v", i, got[i], want[i])
		}
	}

	return ""
}

// describe is what a sample of a case shows.
func (s *Scene) describe(r *SceneRun) map[string]any {
	locks := map[string]any{}
	for _, l := range s.locks {
		locks[l.path()] = map[string]any{"format": l.Format, "packages": l.Pkgs, "broken": l.Broken}
	}

	confs := map[string]any{}
	for p, c := range s.confs {
		confs[p] = map[string]any{"content": string(s.confContent(c)), "broken": c.Invalid}
	}

	dbs := []any{}
	for _, d := range s.allDBs() {
		dbs = append(dbs, map[string]any{"entry": d.Entry, "advisories": d.Advs, "fault": d.Fault})
	}

	m := map[string]any{"lockfiles": locks, "configs": confs, "databases": dbs}
	if r != nil {
		m["args"] = r.args(true)
	}

	return m
}

func (s *Scene) allDBs() []*SceneDB {
	out := append([]*SceneDB{}, s.dbs...)
	for _, e := range sortedKeys(s.eco) {
		out = append(out, s.eco[e])
	}

	return append(out, s.osvdev)
}

// key identifies the scene.
func (s *Scene) key(r *SceneRun) string { return string(mustJSON(s.describe(r))) }
