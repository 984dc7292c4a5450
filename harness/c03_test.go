package harness

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// rawResults returns the results as they are in the output.
func rawResults(rt *rapid.T, o Out) []string {
	parseResults(rt, o)

	var doc struct {
		Results []json.RawMessage `json:"results"`
	}

	if err := json.Unmarshal([]byte(o.Stdout), &doc); err != nil {
		rt.Fatalf("stdout is not JSON: %s", show(o))
	}

	out := []string{}
	for _, r := range doc.Results {
		out = append(out, string(r))
	}

	return out
}

var sectionStart = regexp.MustCompile(`(?m)^(\S.*): found (\d+) packages?$`)

// section is what the text output says about one lockfile.
type section struct {
	Path  string
	Count string
	Text  string
}

// sections splits the text output by lockfile.
func sections(out string) []section {
	idx := sectionStart.FindAllStringSubmatchIndex(out, -1)
	res := []section{}

	for i, m := range idx {
		end := len(out)
		if i+1 < len(idx) {
			end = idx[i+1][0]
		}

		res = append(res, section{
			Path:  out[m[2]:m[3]],
			Count: out[m[4]:m[5]],
			Text:  strings.TrimRight(out[m[0]:end], "\n"),
		})
	}

	return res
}

func TestC03(t *testing.T) {
	check := func(rt *rapid.T, c *Case, asText bool) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: true, BrokenConfs: true, BrokenDBs: chance(rt, "with broken databases", 30), InvalidDBs: true, Aliases: true, Withdrawn: true, Commits: true,
		})
		r := s.genRun(rt, true)
		// at least two different files
		for len(r.Args) < 2 {
			r.Args = append(r.Args, s.argFor(rt, pick(rt, "another lockfile", s.locks)))
		}

		if r.Config != "" && s.confs[r.Config].Invalid {
			r.Config = ""
		}

		together := s.exec(r, !asText)
		if together.Crashed() {
			rt.Fatalf("the run crashed: %s", show(together))
		}

		want := []string{}
		alone := []Out{}

		for _, a := range r.Args {
			one := *r
			one.Args = []SceneArg{a}

			// every file of a directory on its own as well
			parts := []SceneArg{}
			for _, it := range a.Locks {
				parts = append(parts, SceneArg{Arg: it.ParsedAs + ":" + relArg(a, it), Locks: []SceneItem{it}})
			}

			if len(parts) == 0 {
				continue
			}

			for _, p := range parts {
				one.Args = []SceneArg{p}
				o := s.exec(&one, !asText)
				alone = append(alone, o)

				if asText {
					for _, sec := range sections(o.Stdout) {
						want = append(want, sec.Text)
					}
				} else {
					want = append(want, rawResults(rt, o)...)
				}
			}
		}

		got := []string{}
		if asText {
			for _, sec := range sections(together.Stdout) {
				got = append(got, sec.Text)
			}
		} else {
			got = rawResults(rt, together)
		}

		if strings.Join(got, "\n\x00") != strings.Join(want, "\n\x00") {
			all := ""
			for _, o := range alone {
				all += "\n--- alone: " + show(o)
			}

			rt.Fatalf("scanning the files together gives\n%s\nbut scanning them alone gives\n%s\n--- together: %s%s",
				strings.Join(got, "\n"), strings.Join(want, "\n"), show(together), all)
		}

		files := s.filesOf(r)
		failed := 0

		for _, f := range files {
			if f.Failed {
				failed++
			}
		}

		c.Nontrivial(len(want) >= 2)
		c.Key(s.key(r))
		c.Label(failed > 0 && len(want) > 0, "with a failing file")
		c.Label(strings.Contains(strings.Join(want, ""), `"id":`) || strings.Contains(strings.Join(want, ""), "is affected by"), "with findings")
		c.Label(len(want) >= 3, "three or more")
		c.Sample(s.describe(r))
	}

	Check(t, "json", 55, func(rt *rapid.T, c *Case) { check(rt, c, false) })
	Check(t, "text", 45, func(rt *rapid.T, c *Case) { check(rt, c, true) })
}

// relArg is the path of the lockfile the way the argument gives it.
func relArg(a SceneArg, it SceneItem) string {
	p := a.Arg
	if i := strings.Index(p, ":"); i >= 0 {
		p = p[i+1:]
	}

	if filepath.Base(p) == it.Lock.Name {
		return p
	}

	return filepath.Join(p, it.Lock.Name)
}

var _ = fmt.Sprint
