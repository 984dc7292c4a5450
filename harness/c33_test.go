package harness

import (
	"crypto/sha256"
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// treeOf describes everything below the directory.
func treeOf(dir string) map[string]string {
	out := map[string]string{}

	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}

		rel, _ := filepath.Rel(dir, p)
		desc := info.Mode().String()

		switch {
		case info.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			desc += " to " + to
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}

			desc += fmt.Sprintf(" %d bytes %x", len(b), sha256.Sum256(b))
		}

		out[rel] = desc

		return nil
	})
	if err != nil {
		infra("treeOf: %v", err)
	}

	return out
}

// changes lists what differs between snapshots.
func changes(before, after map[string]string) (created, changed, removed []string) {
	for _, p := range sortedKeys(after) {
		b, ok := before[p]

		switch {
		case !ok:
			created = append(created, p)
		case b != after[p]:
			changed = append(changed, p)
		}
	}

	for _, p := range sortedKeys(before) {
		if _, ok := after[p]; !ok {
			removed = append(removed, p)
		}
	}

	return created, changed, removed
}

func TestC33(t *testing.T) {
	Check(t, "cli", 85, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: true, BrokenConfs: true, BrokenDBs: chance(rt, "with broken databases", 40), InvalidDBs: true, Aliases: true, Withdrawn: true, Commits: true,
		})

		// files of others
		for _, f := range []string{
			"w/notes.txt", "w/package-lock.json.bak", "w/a/.osv-detector.yml.orig", "w/.osv-detector.yml.tmp", "w/p.csv~",
			"tmp/something-else.txt", "tmp/osv-detector-of-another.json", "tmp/sub/dir/file", "dbs/extra/not-an-advisory.json",
		} {
			if chance(rt, "file of others", 60) {
				mustWrite(filepath.Join(c.Dir(), filepath.FromSlash(f)), []byte("content of "+f))
			}
		}

		linked := 0

		for _, l := range s.locks {
			p := s.w.path(filepath.FromSlash(l.path()))

			switch {
			case chance(rt, "link", 10):
				// a link to a file elsewhere
				linked++
				elsewhere := filepath.Join(c.Dir(), "elsewhere", fmt.Sprint(linked), l.Name)
				b, err := os.ReadFile(p)

				if err != nil {
					infra("%v", err)
				}

				mustWrite(elsewhere, b)

				if err := os.Remove(p); err != nil {
					infra("%v", err)
				}

				if err := os.Symlink(elsewhere, p); err != nil {
					infra("%v", err)
				}
			case chance(rt, "read-only", 15):
				_ = os.Chmod(p, 0o444)
			}
		}

		for _, p := range sortedKeys(s.confs) {
			if chance(rt, "mode of config", 30) {
				_ = os.Chmod(s.w.path(filepath.FromSlash(p)), pick(rt, "mode", []os.FileMode{0o600, 0o640, 0o664, 0o666, 0o755, 0o777}))
			}
		}

		// those that cannot be fetched are not cached
		gone := map[string]bool{}
		for _, db := range s.dbs {
			gone[db.Entry.URL] = db.Gone
		}

		for _, db := range s.eco {
			gone[db.Entry.URL] = db.Gone
		}

		mode := ""
		archives := map[string]bool{}
		asked := func() {
			for _, q := range s.w.net.Requests() {
				if q.Method == http.MethodGet && !strings.Contains(q.URL, "/vulns/") && !gone[q.URL] {
					archives[q.URL] = true
				}
			}

			s.w.net.Reset()
		}

		wrote, updated := 0, 0

		// several runs after each other
		for i := range intIn(rt, "runs", 1, 3) {
			r := s.genRun(rt, true)
			asJSON := chance(rt, "json", 40)
			offline := chance(rt, "offline", 15)
			r.ListPkgs = chance(rt, "list packages", 10)
			r.Update = chance(rt, "update", 35)

			if chance(rt, "unknown parser", 5) {
				r.ParseAs = "nope"
			}

			if offline {
				r.ExtraBefore = append(r.ExtraBefore, "--offline")
			}

			before := treeOf(c.Dir())
			s.w.net.Reset()

			out := s.exec(r, asJSON)
			if out.Crashed() {
				rt.Fatalf("the run crashed: %s", show(out))
			}

			fresh := len(archives)
			asked()
			fresh = len(archives) - fresh

			after := treeOf(c.Dir())
			created, changed, removed := changes(before, after)

			// what may change
			cached, rewritten := 0, []string{}

			for _, p := range created {
				if !strings.HasPrefix(p, "tmp/") {
					rt.Fatalf("run %d created %s: %s", i+1, p, show(out))
				}

				if strings.HasPrefix(after[p], "-") {
					cached++
				}
			}

			if len(removed) > 0 {
				rt.Fatalf("run %d removed %q: %s", i+1, removed, show(out))
			}

			if cached > fresh || cached > 0 && (offline || r.ListPkgs) {
				rt.Fatalf("run %d created %q in the temporary directory, but only fetched %d new archives: %s", i+1, created, fresh, show(out))
			}

			inUse := map[string]bool{}

			if r.Update && !r.ListPkgs && r.ParseAs == "" {
				for _, f := range s.filesOf(r) {
					if !f.Failed && f.Conf != nil {
						inUse[path.Join("w", f.Conf.Path)] = true
					}
				}
			}

			for _, p := range changed {
				switch {
				case inUse[p]:
					rewritten = append(rewritten, p)
				case strings.HasPrefix(p, "tmp/") && strings.HasPrefix(after[p], "-") && before[p][:10] == after[p][:10] && !c33OfOthers(p) && !offline && !r.ListPkgs:
					// an archive was fetched again
				default:
					rt.Fatalf("run %d changed %s from %s to %s: %s", i+1, p, before[p], after[p], show(out))
				}
			}

			for _, p := range rewritten {
				if before[p][:10] != after[p][:10] {
					rt.Fatalf("run %d changed the mode of %s from %s to %s: %s", i+1, p, before[p], after[p], show(out))
				}
			}

			wrote += cached
			updated += len(rewritten)
			mode += fmt.Sprintf("/%v%v%v%v", offline, r.ListPkgs, r.Update, asJSON) + s.key(r)

			if len(rewritten) > 0 {
				break // the model of the configs is not up to date anymore
			}
		}

		c.Nontrivial(wrote+updated > 0)
		c.Key(mode)
		c.Label(wrote > 0, "archives cached")
		c.Label(updated > 0, "configs updated")
		c.Label(linked > 0, "links")
		c.Sample(map[string]any{"runs": mode})
	})
}

func c33OfOthers(p string) bool {
	return strings.HasSuffix(p, "something-else.txt") || strings.HasSuffix(p, "of-another.json") || strings.HasPrefix(p, "tmp/sub/")
}
