package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// flag spellings: how a flag and its value can be written
type c30Flag struct {
	name  string
	value string
	bool_ bool
	multi bool
}

func (f c30Flag) words(rt *rapid.T) []string {
	dash := pick(rt, "dashes", []string{"-", "--"})

	if f.bool_ {
		if f.value == "true" && chance(rt, "bare", 60) {
			return []string{dash + f.name}
		}

		v := f.value
		if chance(rt, "other spelling of the value", 40) {
			v = pick(rt, "value", map[string][]string{"true": {"1", "t", "T", "TRUE", "True"}, "false": {"0", "f", "F", "FALSE", "False"}}[v])
		}

		return []string{dash + f.name + "=" + v}
	}

	if chance(rt, "with equals sign", 50) {
		return []string{dash + f.name + "=" + f.value}
	}

	return []string{dash + f.name, f.value}
}

// flagsOf are the flags of the run, in the order they are usually written.
func (r *SceneRun) flags(json bool) []c30Flag {
	out := []c30Flag{}
	b := func(name string, v bool) {
		out = append(out, c30Flag{name: name, value: fmt.Sprint(v), bool_: true})
	}

	if json {
		b("json", true)
	}

	if r.Config != "" {
		out = append(out, c30Flag{name: "config", value: r.Config})
	}

	if r.NoConfig {
		b("no-config", true)
	}

	if r.NoIgnores {
		b("no-config-ignores", true)
	}

	if r.NoDBs {
		b("no-config-databases", true)
	}

	if r.UseDBs != nil {
		b("use-dbs", *r.UseDBs)
	}

	if r.UseAPI != nil {
		b("use-api", *r.UseAPI)
	}

	for _, i := range r.Ignores {
		out = append(out, c30Flag{name: "ignore", value: i, multi: true})
	}

	if r.ParseAs != "" {
		out = append(out, c30Flag{name: "parse-as", value: r.ParseAs})
	}

	if r.ListPkgs {
		b("list-packages", true)
	}

	return out
}

func TestC30(t *testing.T) {
	Check(t, "cli", 75, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: true, BrokenConfs: true, BrokenDBs: chance(rt, "with broken databases", 20), InvalidDBs: true, Aliases: true, Withdrawn: true, Commits: true,
		})
		r := s.genRun(rt, true)
		r.ListPkgs = chance(rt, "list packages", 8)
		json := chance(rt, "json", 60)
		prefer := chance(rt, "prefer the api", 65)

		// as it would be written usually, with what the environment stands for spelled out
		plain := *r
		plain.PreferAPI = false

		if prefer {
			yes, no := true, false
			if plain.UseAPI == nil {
				plain.UseAPI = &yes
			}

			if plain.UseDBs == nil {
				plain.UseDBs = &no
			}
		}

		// the same flags in another way: order, spelling, defaults made explicit, earlier
		// values that are overruled by later ones
		flags := r.flags(json)
		before := []string{}
		changes := []string{}

		for _, f := range flags {
			if f.bool_ && chance(rt, "overruled", 15) {
				o := f
				o.value = map[string]string{"true": "false", "false": "true"}[f.value]
				before = append(before, o.words(rt)...)
				changes = append(changes, "overruled")
			} else if f.name == "config" && chance(rt, "overruled", 15) {
				o := f
				o.value = "no-such-config.yml"
				before = append(before, o.words(rt)...)
				changes = append(changes, "overruled")
			}
		}

		for _, f := range []c30Flag{
			{name: "offline", value: "false", bool_: true}, {name: "batch-size", value: "1000"}, {name: "parse-as", value: ""},
			{name: "version", value: "false", bool_: true}, {name: "list-ecosystems", value: "false", bool_: true},
			{name: "update-config-ignores", value: "false", bool_: true}, {name: "config", value: ""}, {name: "no-config", value: "false", bool_: true},
			{name: "no-config-ignores", value: "false", bool_: true}, {name: "no-config-databases", value: "false", bool_: true}, {name: "list-packages", value: "false", bool_: true},
			{name: "json", value: "false", bool_: true}, {name: "use-dbs", value: fmt.Sprint(!prefer), bool_: true}, {name: "use-api", value: fmt.Sprint(prefer), bool_: true},
		} {
			given := false
			for _, g := range flags {
				given = given || g.name == f.name
			}

			if !given && chance(rt, "explicit default", 12) {
				flags = append(flags, f)
				changes = append(changes, "explicit default")
			}
		}

		words := append([]string{}, before...)
		order := shuffled(rt, "flag order", flags)

		// the order of ignores doesn't matter either, and one may be repeated
		for _, f := range order {
			words = append(words, f.words(rt)...)

			if f.multi && chance(rt, "repeated", 20) {
				words = append(words, f.words(rt)...)
			}
		}

		if chance(rt, "end of flags", 25) {
			words = append(words, "--")
		}

		for _, a := range r.Args {
			words = append(words, a.Arg)
		}

		env := pick(rt, "other environment", []string{"", "", "OSV_DETECTOR_PREFER_API=", "OSV_DETECTOR_PREFER_API=false", "OSV_DETECTOR_PREFER_API=0"})
		if prefer {
			env = "OSV_DETECTOR_PREFER_API=true"
		}

		// the cached archives show up in requests only: fill the cache first
		s.exec(&plain, json)

		s.w.net.Reset()
		want := s.exec(&plain, json)
		wantReqs := c30Requests(s)

		s.w.net.Reset()
		s.w.env = nil

		if env != "" {
			s.w.env = []string{env}
		}

		got := s.w.run(words...)
		gotReqs := c30Requests(s)

		if want.Crashed() || got.Crashed() {
			rt.Fatalf("the run crashed: %s\n%s", show(want), show(got))
		}

		if got.Stdout != want.Stdout || got.Stderr != want.Stderr || got.Code != want.Code {
			rt.Fatalf("the same flags written in another way give something else (environment %q):\n%s\n--- instead of\n%s", env, show(got), show(want))
		}

		if strings.Join(gotReqs, "\n") != strings.Join(wantReqs, "\n") {
			rt.Fatalf("the same flags written in another way ask for\n%s\ninstead of\n%s\n(environment %q) %s", strings.Join(gotReqs, "\n"), strings.Join(wantReqs, "\n"), env, show(got))
		}

		asked := strings.Join(wantReqs, "\n")
		c.Nontrivial(len(words) > len(r.Args))
		c.Key(s.key(&plain), words, env)
		c.Label(prefer && strings.Contains(asked, apiBase), "prefers the API")
		c.Label(prefer && strings.Contains(asked, ecoBase), "environment overruled")
		c.Label(len(changes) > 0, "overruled or explicit flags")
		c.Label(strings.Contains(want.Stdout, `"id":`) || strings.Contains(want.Stdout, "is affected by"), "with findings")
		c.Sample(map[string]any{"scene": s.describe(&plain), "words": words, "environment": env})
	})

	// what comes after the end of the flags is a path, whatever it looks like
	Check(t, "paths", 15, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		names := sliceFrom(rt, "names", []string{"-x.csv", "--json", "-json", "--offline", "-", "--", "--ignore=GHSA-1", "a.csv", "-version", "--parse-as", "--no-such-flag", "-h"}, 1, 4)
		want := map[string]string{}

		for i, n := range names {
			p := Pkg{Name: fmt.Sprintf("p%d", i), Version: "1.0.0", Ecosystem: "npm"}
			mustWrite(w.path(n), csvOf([]Pkg{p}))
			want[n] = p.Name
		}

		args := []string{"--use-dbs=false", "--json", "--parse-as", "csv-file"}
		if chance(rt, "joined value", 50) {
			args = []string{"-parse-as=csv-file", "-json=true", "--use-dbs=false"}
		}

		out := w.run(append(append(args, "--"), names...)...)
		if out.Code != 0 {
			rt.Fatalf("%q are files without findings: %s", names, show(out))
		}

		res := parseResults(rt, out)
		if len(res) != len(names) {
			rt.Fatalf("%d results for %q: %s", len(res), names, show(out))
		}

		for _, r := range res {
			if len(r.Packages) != 1 || r.Packages[0].Name != want[r.FilePath] {
				rt.Fatalf("%q has other packages: %s", r.FilePath, show(out))
			}
		}

		c.Nontrivial(len(names) > 1 || strings.HasPrefix(names[0], "-"))
		c.Key(names, args)
		c.Sample(names)
	})
}

// c30Requests are the addresses that were asked for, without the order of those that
// run at the same time.
func c30Requests(s *Scene) []string {
	out := []string{}
	for _, q := range s.w.net.Requests() {
		out = append(out, q.Method+" "+q.URL)
	}

	sort.Strings(out)

	return out
}
