package harness

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// nearIDs are strings that resemble ids but are not.
func nearIDs(ids []string) []string {
	out := []string{"CVE-1", "CVE-2", "CVE-3", "*", "GHSA", "OSV-", "Summary of " + ids[0], strings.Join(ids, ","), strings.Join(ids, " "), ids[0] + "," + ids[len(ids)-1]}

	for _, id := range ids {
		out = append(out, strings.ToLower(id), id+"0", id[:len(id)-1], id+" ", "x"+id, "^"+id+"$")
	}

	return out
}

func TestC12(t *testing.T) {
	Check(t, "scenes", 170, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{Aliases: true, Withdrawn: true, PlainConfs: true})
		near := nearIDs(s.ids)
		some := func(label string) []string {
			out := subsetOf(rt, label, s.ids, 0, 4)
			if chance(rt, label+" with near misses", 60) {
				out = shuffled(rt, label+" order", append(out, subsetOf(rt, label+" near misses", near, 1, 4)...))
			}

			return out
		}

		for _, p := range sortedKeys(s.confs) {
			s.confs[p].Ignore = some("ignores of " + p)
			mustWrite(s.w.path(filepath.FromSlash(p)), s.confContent(s.confs[p]))
		}

		r := s.genRun(rt, false)
		r.Ignores = some("ignore flags")

		// the same run, with nothing ignored
		none := *r
		none.Ignores = nil
		none.NoIgnores = true

		ref := s.exec(&none, true)
		got := s.exec(r, true)
		refs, ress := rawDocs(rt, ref), rawDocs(rt, got)

		if len(refs) != len(ress) {
			rt.Fatalf("%d results, but %d with nothing ignored: %s\n%s", len(ress), len(refs), show(got), show(ref))
		}

		files := s.filesOf(r)
		findings, ignored, near2 := 0, 0, 0

		for i := range refs {
			f := files[i]

			if len(refs[i].Packages) != len(ress[i].Packages) || refs[i].FilePath != ress[i].FilePath {
				rt.Fatalf("result %d differs by more than its ignores: %s\n%s", i, show(got), show(ref))
			}

			for j := range refs[i].Packages {
				p, q := refs[i].Packages[j], ress[i].Packages[j]

				if len(p.Ignored) != 0 {
					rt.Fatalf("something is ignored although nothing should be: %s", show(ref))
				}

				// what is found stays as it is and in its order, and only moves
				shown, hidden := []string{}, []string{}

				for _, v := range p.Vulnerabilities {
					id := idOf(v)
					if contains(f.Ignores, id) {
						hidden = append(hidden, string(v))
					} else {
						shown = append(shown, string(v))

						for _, x := range f.Ignores {
							if strings.HasPrefix(strings.ToLower(x), strings.ToLower(id[:min(3, len(id))])) {
								near2++
							}
						}
					}
				}

				if a, b := joinRaw(q.Vulnerabilities), strings.Join(shown, "\n"); a != b {
					rt.Fatalf("unignored findings of %s in %s are\n%s\nwant\n%s\nignores: %q\n%s", p.Name, refs[i].FilePath, a, b, f.Ignores, show(got))
				}

				if a, b := joinRaw(q.Ignored), strings.Join(hidden, "\n"); a != b {
					rt.Fatalf("ignored findings of %s in %s are\n%s\nwant\n%s\nignores: %q\n%s", p.Name, refs[i].FilePath, a, b, f.Ignores, show(got))
				}

				findings += len(shown)
				ignored += len(hidden)
			}
		}

		want := 0

		switch {
		case len(files) == 0:
			want = 128
		case findings > 0:
			want = 1
		}

		if got.Code != want {
			rt.Fatalf("exit code %d with %d unignored findings: %s", got.Code, findings, show(got))
		}

		c.Nontrivial(ignored > 0 || near2 > 0)
		c.Label(ignored > 0, "ignored")
		c.Label(ignored > 0 && findings > 0, "ignored and found")
		c.Label(near2 > 0, "near miss")
		c.Label(len(files) > 1 && ignored > 0, "several lockfiles")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// every way to write a list of ignores
	Check(t, "lists", 80, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		ids := []string{"OSV-1", "OSV-2", "GHSA-x", "1234", "null", "true", "1.10", "OSV-é", "a b"}
		advs := []Advisory{}

		for _, id := range ids {
			advs = append(advs, Advisory{ID: id, Affected: []Affected{matchEverything("npm", "foo")}})
		}

		w.addDB("db", "dir", nil)
		w.dbs[0].URL = fileURL(w.writeTree("all", numberedFiles(advs)))
		mustWrite(w.path("p.csv"), csvOf([]Pkg{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}}))

		ignores := subsetOf(rt, "ignored", ids, 0, len(ids))
		dup := sliceFrom(rt, "again", append([]string{"OSV-1"}, ignores...), 0, 2)
		all := shuffled(rt, "order", append(append([]string{}, ignores...), dup...))

		var b strings.Builder

		fmt.Fprintf(&b, "extra-databases:\n  - url: %s\n", w.dbs[0].URL)

		if len(all) > 0 {
			if chance(rt, "flow", 50) {
				qs := []string{}
				for _, x := range all {
					qs = append(qs, fmt.Sprintf("%q", x))
				}

				fmt.Fprintf(&b, "ignore: [%s] # a comment\n", strings.Join(qs, ", "))
			} else {
				b.WriteString("ignore:\n")

				for _, x := range all {
					fmt.Fprintf(&b, "  # a comment\n  - '%s'\n", x)
				}
			}
		}

		many := pick(rt, "unknown flags", []int{0, 0, 0, 0, 0, 0, 20, 150})
		flags := subsetOf(rt, "flags", append([]string{"OSV-1,OSV-2", "null,", ",1234", "a", "b", "OSV-1 OSV-2"}, ids...), 0, 3)
		args := []string{"--json", "--use-dbs=false"}

		for i := range many {
			args = append(args, fmt.Sprintf("--ignore=X-%d", i))
		}

		for _, x := range flags {
			args = append(args, pick(rt, "flag form", []string{"--ignore=" + x, "-ignore=" + x}))
		}

		mustWrite(w.path(".osv-detector.yml"), []byte(b.String()))

		noIgnores := chance(rt, "no ignores", 20)
		if noIgnores {
			args = append(args, "--no-config-ignores")
			all = nil
		}

		out := w.run(append(args, "csv-file:p.csv")...)
		res := parseResults(rt, out)

		if len(res) != 1 || len(res[0].Packages) != 1 {
			rt.Fatalf("want one package: %s", show(out))
		}

		wantShown, wantHidden := []string{}, []string{}

		for _, id := range ids {
			if contains(all, id) || contains(flags, id) {
				wantHidden = append(wantHidden, id)
			} else {
				wantShown = append(wantShown, id)
			}
		}

		shown, hidden := sortedCopy(idsOf(res[0].Packages[0].Vulnerabilities)), sortedCopy(idsOf(res[0].Packages[0].Ignored))
		if strings.Join(shown, "\n") != strings.Join(sortedCopy(wantShown), "\n") || strings.Join(hidden, "\n") != strings.Join(sortedCopy(wantHidden), "\n") {
			rt.Fatalf("shown %q and ignored %q, want %q and %q\n%s\n%s", shown, hidden, wantShown, wantHidden, b.String(), show(out))
		}

		if want := min(1, len(wantShown)); out.Code != want {
			rt.Fatalf("exit code %d, want %d: %s", out.Code, want, show(out))
		}

		c.Nontrivial(len(wantHidden) > 0)
		c.Label(len(wantShown) == 0, "all ignored")
		c.Label(noIgnores, "no-config-ignores")
		c.Key(b.String(), args)
		c.Sample(map[string]any{"config": b.String(), "args": args})
	})
}
