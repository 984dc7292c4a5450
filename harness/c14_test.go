package harness

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// snapshot returns the contents of all files below the directories.
func snapshot(dirs ...string) map[string]string {
	out := map[string]string{}

	for _, d := range dirs {
		_ = filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return nil
			}

			if e.Type()&fs.ModeSymlink != 0 {
				l, _ := os.Readlink(p)
				out[p] = "-> " + l

				return nil
			}

			b, err := os.ReadFile(p)
			if err != nil {
				infra("read: %v", err)
			}

			info, _ := e.Info()
			out[p] = info.Mode().String() + "\n" + string(b)

			return nil
		})
	}

	return out
}

func TestC14(t *testing.T) {
	Check(t, "scenes", 160, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{Aliases: true, Withdrawn: true, PlainConfs: true, Commits: true})
		r := s.genRun(rt, false)
		r.Update = true
		root := s.w.root

		if chance(rt, "default config", 60) {
			r.Config = ""
		}

		// one config for several directories
		linked := false

		if chance(rt, "linked config", 15) && r.Config == "" {
			dirs := []string{}
			for _, l := range s.locks {
				dirs = append(dirs, l.Dir)
			}

			dirs = uniq(dirs)

			var shared *SceneConf

			for _, d := range dirs {
				p := filepath.ToSlash(filepath.Join(d, ".osv-detector.yml"))
				q := filepath.ToSlash(filepath.Join(d, ".osv-detector.yaml"))

				if shared == nil {
					shared = s.confs[p]

					continue
				}

				if s.confs[p] == nil && s.confs[q] == nil {
					if err := os.Symlink(s.w.path(filepath.FromSlash(shared.Path)), s.w.path(filepath.FromSlash(p))); err != nil {
						infra("symlink: %v", err)
					}

					s.confs[p] = shared
					linked = true
				}
			}
		}

		files := s.filesOf(r)
		before := snapshot(root, filepath.Join(c.Dir(), "dbs"))
		asJSON := chance(rt, "json", 70)

		// the findings of the run, which are those without updating
		look := *r
		look.Update = false
		ref := s.exec(&look, true)
		res := parseResults(rt, ref)

		if len(res) != len(files) {
			rt.Fatalf("%d results, want %d: %s", len(res), len(files), show(ref))
		}

		if d := diffSnapshots(before, snapshot(root, filepath.Join(c.Dir(), "dbs")), nil); d != "" {
			rt.Fatalf("a run without --update-config-ignores changed %s: %s", d, show(ref))
		}

		out := s.exec(r, asJSON)
		if out.Code != ref.Code || asJSON && out.Stdout != ref.Stdout {
			rt.Fatalf("updating changed the results: %s\n%s", show(out), show(ref))
		}

		used := map[string]*SceneConf{}
		ids := map[string][]string{}

		for i, f := range files {
			if f.Conf == nil {
				continue
			}

			used[f.Conf.Path] = f.Conf

			for _, p := range res[i].Packages {
				ids[f.Conf.Path] = append(ids[f.Conf.Path], append(idsOf(p.Vulnerabilities), idsOf(p.Ignored)...)...)
			}
		}

		check := func(label string, out Out) map[string]string {
			after := snapshot(root, filepath.Join(c.Dir(), "dbs"))
			except := []string{}

			for p, conf := range used {
				abs := s.w.path(filepath.FromSlash(p))
				except = append(except, abs)

				b, err := os.ReadFile(abs)
				if err != nil {
					rt.Fatalf("%s: config %s is gone: %s", label, p, show(out))
				}

				if strings.Split(before[abs], "\n")[0] != strings.Split(after[abs], "\n")[0] {
					rt.Fatalf("%s: the mode of %s changed: %s", label, p, show(out))
				}

				var got ConfigFile
				if err := yaml.Unmarshal(b, &got); err != nil {
					rt.Fatalf("%s: config %s is not YAML anymore: %v\n%s", label, p, err, b)
				}

				want := uniq(sortedCopy(ids[p]))
				if strings.Join(got.Ignore, "\n") != strings.Join(want, "\n") {
					rt.Fatalf("%s: %s lists %q, want %q\n%s", label, p, got.Ignore, want, show(out))
				}

				dbs := []DBEntry{}
				for _, db := range conf.DBs {
					dbs = append(dbs, db.Entry)
				}

				if string(mustJSON(append([]DBEntry{}, got.Databases...))) != string(mustJSON(dbs)) {
					rt.Fatalf("%s: the databases of %s are %v, want %v\n%s", label, p, got.Databases, dbs, show(out))
				}
			}

			if d := diffSnapshots(before, after, except); d != "" {
				rt.Fatalf("%s: %s changed: %s", label, d, show(out))
			}

			return after
		}

		after := check("after the run", out)

		again := s.exec(r, chance(rt, "json again", 50))
		if d := diffSnapshots(after, check("after repeating the run", again), nil); d != "" {
			rt.Fatalf("repeating the run changed %s: %s", d, show(again))
		}

		// nothing new is left in the lockfiles that have a config
		plain := look
		plain.Ignores = nil
		plain.NoIgnores = false
		last := s.exec(&plain, true)

		for i, x := range parseResults(rt, last) {
			if files[i].Conf == nil {
				continue
			}

			for _, p := range x.Packages {
				if len(p.Vulnerabilities) > 0 {
					rt.Fatalf("%v of %s in %s is still not ignored: %s", idsOf(p.Vulnerabilities), p.Pkg, x.FilePath, show(last))
				}
			}
		}

		total := 0
		for _, x := range ids {
			total += len(x)
		}

		c.Nontrivial(total > 0)
		c.Label(total > 0, "ignores to record")
		c.Label(len(used) > 1, "several configs")
		c.Label(linked, "linked config")
		c.Label(len(files) > len(used) && len(used) > 0, "several lockfiles with one config")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// long lists of findings are recorded as a whole
	Check(t, "many", 8, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		n := pick(rt, "findings", []int{30, 70, 130, 300, 700})
		pkgs := []Pkg{}

		for i := range intIn(rt, "packages", 1, 4) {
			pkgs = append(pkgs, Pkg{Name: fmt.Sprintf("p%d", i), Ecosystem: "npm", Version: "1.0.0"})
		}

		advs := []Advisory{}
		ids := []string{}

		for i := range n {
			a := Advisory{ID: fmt.Sprintf("%s-%d", pick(rt, "prefix", []string{"GHSA", "OSV", "a"}), i), Modified: "2021-01-01T00:00:00Z"}

			for _, p := range pkgs[:1+i%len(pkgs)] {
				a.Affected = append(a.Affected, Affected{Package: AdvPackage{"npm", p.Name}, Versions: []string{"1.0.0"}})
			}

			advs = append(advs, a)
			ids = append(ids, a.ID)
		}

		kind := pick(rt, "kind", []string{"dir", "zip", "api"})
		w.addDB("db", kind, advs)

		dbs := w.dbs
		for range intIn(rt, "listed again", 0, 2) {
			dbs = append(dbs[:len(dbs):len(dbs)], w.dbs[0])
		}

		dbs[0].Name = pick(rt, "name", []string{dbs[0].Name, kind, kind, dbs[0].URL, "ignore", "null"})
		dbs[0].Type = kind
		old := ConfigFile{Databases: dbs, Ignore: subsetOf(rt, "already ignored", append([]string{"GONE-1", "GONE-2"}, ids[:8]...), 0, 5)}
		name := pick(rt, "config", []string{"c.yml", ".osv-detector.yml"})
		mustWrite(w.path(name), yamlOf(old))
		mustWrite(w.path("p.csv"), csvOf(pkgs))

		args := []string{"--use-dbs=false", "--parse-as", "csv-file", "--update-config-ignores"}
		if name == "c.yml" {
			args = append(args, "--config", name)
		}

		out := w.run(append(args, "p.csv")...)

		b, err := os.ReadFile(w.path(name))
		if err != nil {
			rt.Fatalf("config is gone: %s", show(out))
		}

		var got ConfigFile
		if err := yaml.Unmarshal(b, &got); err != nil {
			rt.Fatalf("the config is not YAML anymore: %v\n%s", err, b)
		}

		if a, b := strings.Join(got.Ignore, "\n"), strings.Join(sortedCopy(ids), "\n"); a != b {
			rt.Fatalf("%d are listed of %d: %s\nwant %s\n%s", len(got.Ignore), n, a, b, show(out))
		}

		if string(mustJSON(got.Databases)) != string(mustJSON(dbs)) {
			rt.Fatalf("the databases are %v, want %v", got.Databases, dbs)
		}

		again := w.run(append(args, "p.csv")...)
		if again.Code != 0 {
			rt.Fatalf("not all is ignored: %s", show(again))
		}

		c.Nontrivial(true)
		c.Label(n > 100, "more than 100")
		c.Key(fmt.Sprint(n, len(pkgs), old.Ignore, name, kind))
		c.Sample(fmt.Sprintf("%d findings over %d packages, %v ignored before", n, len(pkgs), old.Ignore))
	})
}

func diffSnapshots(a, b map[string]string, except []string) string {
	for _, p := range sortedKeys(a) {
		if x, ok := b[p]; !contains(except, p) && (!ok || x != a[p]) {
			return p
		}
	}

	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			return p + " (new)"
		}
	}

	return ""
}
