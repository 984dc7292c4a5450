package harness

import (
	"encoding/json"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// copyTree copies the files below a directory.
func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil || !info.Mode().IsRegular() {
			return err
		}

		rel, _ := filepath.Rel(from, p)
		b, err := os.ReadFile(p)

		if err == nil {
			mustWrite(filepath.Join(to, rel), b)
		}

		return err
	})
	if err != nil {
		infra("copy: %v", err)
	}
}

// respellPath writes a path in another way.
func respellPath(rt *rapid.T, p string, isDir bool) string {
	abs := strings.HasPrefix(p, "/")
	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
	out := []string{}

	for i, x := range parts {
		out = append(out, x)

		if i == len(parts)-1 && !isDir || x == ".." || x == "." {
			continue
		}

		switch intIn(rt, "detour", 0, 9) {
		case 0:
			out = append(out, ".")
		case 1:
			out = append(out, "..", x)
		case 2:
			out = append(out, "")
		}
	}

	q := strings.Join(out, "/")

	switch {
	case abs:
		q = "/" + q
	case chance(rt, "dot", 25):
		q = "./" + q
	}

	if isDir && chance(rt, "trailing slash", 40) {
		q += "/"
	}

	return q
}

// withoutPaths are the results without where the lockfiles are.
func withoutPaths(rt *rapid.T, o Out) []map[string]any {
	var doc struct {
		Results []map[string]any `json:"results"`
	}

	if o.Crashed() {
		rt.Fatalf("the run crashed: %s", show(o))
	}

	if err := json.Unmarshal([]byte(o.Stdout), &doc); err != nil {
		rt.Fatalf("stdout is not JSON: %s", show(o))
	}

	for _, r := range doc.Results {
		delete(r, "filePath")
	}

	return doc.Results
}

func TestC34(t *testing.T) {
	Check(t, "cli", 100, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: true, BrokenConfs: true, BrokenDBs: chance(rt, "with broken databases", 20), InvalidDBs: true, Aliases: true, Withdrawn: true, RichText: true, Commits: true,
		})
		r := s.genRun(rt, true)

		// a directory with lockfiles of any kind
		if chance(rt, "directory of lockfiles", 20) {
			for _, format := range subsetOf(rt, "format", allParsers, 2, 6) {
				g := pick(rt, "generator", lockGens[format])(rt)
				mustWrite(s.w.path("more", format), g.Content)

				for _, f := range g.Extra {
					mustWrite(s.w.path("more", f.Name), f.Content)
				}
			}

			// they are not about the packages of the scene
			no := false
			r.NoDBs, r.UseDBs, r.UseAPI = true, &no, &no
			r.Args = append(r.Args, SceneArg{Arg: "more"})
		}

		want := s.exec(r, true)
		wantRes := withoutPaths(rt, want)

		// the same tree somewhere else, with other times and modes
		base := filepath.Join(c.Dir(), pick(rt, "place", []string{"else", "other place/deep down", "100% é ✓", "-dash", "package-lock.json", "node_modules/x", ".hidden", "csv-file", strings.Repeat(strings.Repeat("long", 20)+"/", 4) + "x"}))
		copyTree(s.w.root, base)

		_ = filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}

			if chance(rt, "other time", 30) {
				at := time.Date(pick(rt, "year", []int{1980, 2001, 2038, 2090}), 1, 2, 3, 4, 5, 6, time.UTC)
				_ = os.Chtimes(p, at, at)
			}

			if info.Mode().IsRegular() && chance(rt, "other mode", 30) {
				_ = os.Chmod(p, pick(rt, "mode", []os.FileMode{0o400, 0o755, 0o600}))
			}

			return nil
		})

		// the directory the run starts in
		cwd := base
		if chance(rt, "other working directory", 70) {
			cwd = filepath.Join(base, filepath.FromSlash(pick(rt, "working directory", []string{"..", "sub/sub", "../..", "a"})))
			if err := os.MkdirAll(cwd, 0o755); err != nil {
				infra("mkdir: %v", err)
			}
		}

		move := func(p string, isDir bool) string {
			abs := filepath.Join(base, filepath.FromSlash(p))
			if strings.HasPrefix(p, "/") {
				rel, err := filepath.Rel(s.w.root, p)
				if err != nil {
					infra("%v", err)
				}

				abs = filepath.Join(base, rel)
			}

			q := abs

			if chance(rt, "relative", 70) {
				rel, err := filepath.Rel(cwd, abs)
				if err != nil {
					infra("%v", err)
				}

				q = filepath.ToSlash(rel)
			}

			q = respellPath(rt, q, isDir)
			if strings.HasPrefix(q, "-") {
				q = "./" + q
			}

			return q
		}

		moved := *r
		moved.Args = nil

		if r.Config != "" {
			moved.Config = move(r.Config, false)
		}

		for _, a := range r.Args {
			prefix, p := "", a.Arg
			if i := strings.Index(p, ":"); i >= 0 {
				prefix, p = p[:i+1], p[i+1:]
			}

			isDir := a.Fails
			if info, err := os.Stat(s.resolve(p)); err == nil {
				isDir = info.IsDir()
			}

			if a.Fails {
				isDir = false
			}

			a.Arg = prefix + move(p, isDir)
			moved.Args = append(moved.Args, a)
		}

		s.w.env = pick(rt, "environment", [][]string{nil, {"TZ=Asia/Tokyo"}, {"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"HOME=/nonexistent"}, {"TERM=xterm-256color", "COLUMNS=10"}, {"USER=nobody", "CI=true"}})
		if r.PreferAPI {
			s.w.env = append(append([]string{}, s.w.env...), "OSV_DETECTOR_PREFER_API=true")
		}

		got := RunCLI(c, RunOpts{Cwd: cwd, TmpDir: s.w.tmp, Env: s.w.env, Net: s.w.net}, moved.args(true)...)
		gotRes := withoutPaths(rt, got)

		if got.Code != want.Code || string(mustJSON(gotRes)) != string(mustJSON(wantRes)) {
			rt.Fatalf("the same tree in another place gives something else\n--- there (in %s): %s\n--- here: %s", cwd, show(got), show(want))
		}

		found := strings.Contains(want.Stdout, `"id":`)
		c.Nontrivial(len(wantRes) > 0)
		c.Key(s.key(r), moved.args(true), strings.TrimPrefix(cwd, c.Dir()))
		c.Label(found, "with findings")
		c.Label(cwd != base, "other working directory")
		c.Label(want.Code == 127, "with errors")
		c.Sample(map[string]any{"scene": s.describe(r), "moved": moved.args(true), "cwd": strings.TrimPrefix(cwd, c.Dir())})
	})
}

// resolve returns where a path of an argument is.
func (s *Scene) resolve(p string) string {
	if path.IsAbs(p) {
		return p
	}

	return s.w.path(filepath.FromSlash(p))
}
