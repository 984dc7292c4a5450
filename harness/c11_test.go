package harness

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// shortened returns the ways the details of an advisory may be shown.
func shortened(details string) []string {
	rs := []rune(details)
	if len(rs) < 80 {
		return []string{details}
	}

	// cut at the last white space of the first 80 characters, if there is any
	at := 80

	for i := 79; i >= 0; i-- {
		if unicode.IsSpace(rs[i]) {
			at = i

			break
		}
	}

	out := []string{string(rs[:at]) + "..."}
	if len(rs) == 80 {
		out = append(out, details)
	}

	return out
}

// described returns the ways the text report may describe the advisory.
func described(v ResVuln) []string {
	var out []string

	switch {
	case v.Summary != "":
		out = []string{v.Summary}
	case v.Details != "":
		out = shortened(v.Details)
	default:
		out = []string{"(no details available)"}
	}

	if strings.HasPrefix(v.ID, "GHSA") {
		for i := range out {
			out[i] += " (https://github.com/advisories/" + v.ID + ")"
		}
	}

	return out
}

func plural(n int, one, more string) string {
	if n == 1 {
		return one
	}

	return more
}

// checkReport checks what the text report says about the findings of a lockfile.
func checkReport(text string, res Res) error {
	rest := text
	eat := func(options ...string) error {
		for _, o := range options {
			if strings.HasPrefix(rest, o) {
				rest = rest[len(o):]

				return nil
			}
		}

		return fmt.Errorf("the report continues with %q, want %q", rest, options)
	}

	findings, ignored := countFindings([]Res{res})
	word, suffix := "known", ""

	if ignored > 0 {
		word = "new"
		suffix = fmt.Sprintf(" (%d %s ignored)", ignored, plural(ignored, "was", "were"))
	}

	if findings == 0 {
		if err := eat(fmt.Sprintf("  no %s vulnerabilities found%s\n", word, suffix)); err != nil {
			return err
		}
	} else {
		for _, p := range res.Packages {
			if len(p.Vulnerabilities) == 0 {
				continue
			}

			if err := eat(fmt.Sprintf("  %s@%s is affected by the following vulnerabilities:\n", p.Name, p.Version)); err != nil {
				return err
			}

			for _, v := range p.Vulnerabilities {
				options := described(v)
				for i := range options {
					options[i] = fmt.Sprintf("    %s: %s\n", v.ID, options[i])
				}

				if err := eat(options...); err != nil {
					return err
				}
			}
		}

		if err := eat(fmt.Sprintf("\n  %d %s %s found in %s%s\n", findings, word, plural(findings, "vulnerability", "vulnerabilities"), res.FilePath, suffix)); err != nil {
			return err
		}
	}

	if strings.Trim(rest, "\n") != "" {
		return fmt.Errorf("the report ends with %q", rest)
	}

	return nil
}

func TestC11(t *testing.T) {
	Check(t, "scenes", 150, func(rt *rapid.T, c *Case) {
		s := genScene(rt, c, SceneOpts{
			BrokenLocks: chance(rt, "broken lockfiles", 20), BrokenConfs: chance(rt, "broken configs", 20), BrokenDBs: chance(rt, "broken databases", 20),
			InvalidDBs: chance(rt, "invalid databases", 20), Aliases: true, Withdrawn: true, RichText: true, Commits: true,
		})
		r := s.genRun(rt, chance(rt, "path problems", 20))

		if r.Config != "" && s.confs[r.Config].Invalid {
			r.Config = ""
		}

		asJSON, asText := s.exec(r, true), s.exec(r, false)
		res := parseResults(rt, asJSON)
		secs := sections(asText.Stdout)

		if asText.Crashed() || len(secs) != len(res) {
			rt.Fatalf("there are %d lockfiles in the text report but %d in the document: %s\n%s", len(secs), len(res), show(asText), show(asJSON))
		}

		files := []SceneFile{}

		for _, f := range s.filesOf(r) {
			if !f.Failed {
				files = append(files, f)
			}
		}

		if len(files) != len(res) {
			rt.Fatalf("%d results, want %d: %s", len(res), len(files), show(asJSON))
		}

		long := false

		for i, sec := range secs {
			f := files[i]

			if sec.Path != res[i].FilePath || sec.Count != fmt.Sprint(len(res[i].Packages)) {
				rt.Fatalf("section %d is of %q with %s packages, want %q with %d: %s", i, sec.Path, sec.Count, res[i].FilePath, len(res[i].Packages), show(asText))
			}

			head, report, ok := strings.Cut(sec.Text, "\n\n")
			if !ok {
				rt.Fatalf("section %d has no report: %s", i, show(asText))
			}

			lines := strings.Split(head, "\n")[1:]

			if f.Conf != nil {
				p := filepath.Clean(filepath.FromSlash(f.Conf.Path))
				if r.Config == "" {
					p = filepath.Join(filepath.Dir(res[i].FilePath), filepath.Base(p))
				}

				ignores := fmt.Sprintf("%d %s", len(f.Conf.Ignore), plural(len(f.Conf.Ignore), "ignore", "ignores"))
				if r.NoIgnores {
					ignores = "skipping any ignores"
				}

				if want := fmt.Sprintf("  Using config at %s (%s)", p, ignores); len(lines) == 0 || lines[0] != want {
					rt.Fatalf("section %d does not say %q: %s", i, want, show(asText))
				}

				lines = lines[1:]
			}

			dbs := []string{}
			for _, db := range f.DBs {
				if db.Fault == "" || db.Fault == "check" {
					dbs = append(dbs, db.Entry.DisplayName())
				}
			}

			if got := usedDBs(strings.Join(lines, "\n")); len(got) != len(lines) || strings.Join(got, "\n") != strings.Join(dbs, "\n") {
				rt.Fatalf("section %d says databases %q are used, want %q: %s", i, lines, dbs, show(asText))
			}

			if err := checkReport(report+"\n", res[i]); err != nil {
				rt.Fatalf("section %d: %v: %s\n%s", i, err, show(asText), show(asJSON))
			}

			long = long || strings.Contains(report, "...")
		}

		findings, ignored := countFindings(res)
		c.Nontrivial(findings > 0 || ignored > 0)
		c.Label(findings > 0 && ignored > 0, "found and ignored")
		c.Label(long, "shortened")
		c.Key(s.key(r))
		c.Sample(s.describe(r))
	})

	// any number of findings, of packages that can have the same name and version
	Check(t, "counts", 60, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		advs, pkgs, ignores := []Advisory{}, []Pkg{}, []string{}
		most := pick(rt, "most findings", []int{2, 5, 15, 40, 120})

		for range intIn(rt, "packages", 1, 5) {
			p := Pkg{Name: pick(rt, "name", []string{"foo", "bar"}), Version: pick(rt, "version", []string{"1.0.0", "1.0.0", "2.0.0", ""})}
			p.Ecosystem = pick(rt, "ecosystem", []string{"npm", "PyPI", "Go"})
			p.CompareAs = p.Ecosystem
			pkgs = append(pkgs, p)
		}

		some := intIn(rt, "ignored", 0, 100)

		for _, p := range pkgs {
			for range intIn(rt, "findings", 0, most/len(pkgs)+1) {
				a := Advisory{ID: fmt.Sprintf("OSV-%d", len(advs)), Affected: []Affected{matchEverything(p.Ecosystem, p.Name)}}
				if chance(rt, "summary", 50) {
					a.Summary = pick(rt, "text", []string{"the same text", a.ID, "no known vulnerabilities found"})
				}

				if chance(rt, "ignore", some) {
					ignores = append(ignores, a.ID)
				}

				advs = append(advs, a)
			}
		}

		w.addDB("db", "dir", advs)
		mustWrite(w.path("p.csv"), csvOf(pkgs))

		args := []string{"--use-dbs=false", "--config", w.writeConfig("conf.yml")}
		for _, i := range ignores {
			args = append(args, "--ignore", i)
		}

		args = append(args, "csv-file:p.csv")
		asJSON, asText := w.run(append([]string{"--json"}, args...)...), w.run(args...)
		res := parseResults(rt, asJSON)

		if len(res) != 1 || len(res[0].Packages) != len(pkgs) {
			rt.Fatalf("want one result with %d packages: %s", len(pkgs), show(asJSON))
		}

		_, report, _ := strings.Cut(asText.Stdout, "p.csv: found ")
		_, report, _ = strings.Cut(report, "\n\n")

		if err := checkReport(report, res[0]); err != nil {
			rt.Fatalf("%v: %s", err, show(asText))
		}

		findings, ignored := countFindings(res)
		c.Nontrivial(findings+ignored > 1)
		c.Label(findings > 9, "ten or more findings")
		c.Label(ignored > 9, "ten or more ignored")
		c.Key(string(mustJSON(advs)), string(mustJSON(pkgs)), ignores)
		c.Sample(map[string]any{"packages": pkgs, "advisories": len(advs), "ignores": ignores})
	})

	// descriptions of every length
	Check(t, "descriptions", 120, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		advs, pkgs := []Advisory{}, []Pkg{}
		alphabet := pick(rt, "alphabet", []string{"abc", "abc ", "abcdefghijk ", "äöü ", "漢字 a", "😀a ", "a\u00a0\t", "%s%d ", "a\u3000字", "e\u0301 "})
		rs := []rune(alphabet)
		text := func(n int) string {
			var b strings.Builder
			for range n {
				b.WriteRune(rs[uniform(rt, "character", len(rs))])
			}

			return b.String()
		}
		long := false

		for i := range intIn(rt, "advisories", 1, 8) {
			p := Pkg{Name: fmt.Sprintf("p%d", i), Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}
			a := Advisory{ID: fmt.Sprintf("%s-%d", pick(rt, "prefix", []string{"GHSA", "OSV", "ghsa", "CVE-GHSA"}), i), Affected: []Affected{matchEverything("npm", p.Name)}}

			if chance(rt, "summary", 15) {
				a.Summary = text(intIn(rt, "summary length", 1, 120))
			}

			if chance(rt, "details", 95) {
				a.Details = text(intIn(rt, "details length", 60, 100))
			}

			long = long || a.Summary == "" && utf8.RuneCountInString(a.Details) > 80
			advs = append(advs, a)
			pkgs = append(pkgs, p)
		}

		w.addDB("db", "dir", advs)
		mustWrite(w.path("p.csv"), csvOf(pkgs))

		args := []string{"--use-dbs=false", "--config", w.writeConfig("conf.yml"), "csv-file:p.csv"}
		asJSON, asText := w.run(append([]string{"--json"}, args...)...), w.run(args...)
		res := parseResults(rt, asJSON)

		if !utf8.ValidString(asText.Stdout) {
			rt.Fatalf("the report splits a character: %q", asText.Stdout)
		}

		if len(res) != 1 || len(res[0].Packages) != len(pkgs) {
			rt.Fatalf("want one result with %d packages: %s", len(pkgs), show(asJSON))
		}

		for i, p := range res[0].Packages {
			if len(p.Vulnerabilities) != 1 || p.Vulnerabilities[0].Details != advs[i].Details || p.Vulnerabilities[0].Summary != advs[i].Summary {
				rt.Fatalf("%s is not reported: %s", advs[i].ID, show(asJSON))
			}
		}

		_, report, _ := strings.Cut(asText.Stdout, "p.csv: found ")
		_, report, _ = strings.Cut(report, "\n\n")

		if err := checkReport(report, res[0]); err != nil {
			rt.Fatalf("%v: %s", err, show(asText))
		}

		c.Nontrivial(long)
		c.Label(long, "shortened")
		c.Key(string(mustJSON(advs)))
		c.Sample(advs)
	})
}
