package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// csvField writes a field as it is, or quoted.
func csvField(rt *rapid.T, f string) string {
	if strings.ContainsAny(f, "\",\n") || chance(rt, "quoted", 15) {
		return `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
	}

	return f
}

type csvInput struct {
	rows []string
	want []Pkg
	bad  string // why it has to be an error
}

func genCSV(rt *rapid.T) csvInput {
	in := csvInput{}
	extra := pick(rt, "extra fields", []int{0, 0, 0, 1, 2, 3, 5, 12})
	n := count(rt, "rows", 0, 9)
	badAt := -1

	if n > 0 && chance(rt, "malformed", 30) {
		badAt = uniform(rt, "malformed row", n)
	}

	for i := range n {
		p := Pkg{
			Ecosystem: pick(rt, "ecosystem", []string{"npm", "PyPI", "Go", "crates.io", "Packagist", "Custom", "Debian:11", "", "Rocky Linux", "ünï", "npm ", "#npm", ";x", "Ecosystem"}),
			CompareAs: pick(rt, "compare as", []string{"", "", "", "npm", "PyPI", "crates.io", "Other"}),
			Name:      pick(rt, "name", []string{"foo", "@scope/bar", "a b", "x,y", `q"uote`, "org.x:y", "ünï", " lead", "two\nlines", "-dash", "100%", "trail ", "#foo", "Name", "it's", "\ttab"}),
			Version:   pick(rt, "version", []string{"1.0.0", "1.2.3-beta+x", "", "v1", "0", "1,5", "abc", " 1.0.0", "1.0.0 ", "Version"}),
		}

		if p.Ecosystem == "" {
			p.Version = pick(rt, "commit", []string{someCommit, "abc123", "not a commit"})
		}

		if len(in.want) > 0 && chance(rt, "again", 15) {
			p = pick(rt, "again", in.want)
			if p.Ecosystem == "" {
				p.Version = p.Commit
				p.Commit = ""
			}
		}

		fields := []string{p.Ecosystem, p.CompareAs, p.Name, p.Version}
		for range extra {
			fields = append(fields, pick(rt, "extra", []string{"", "x", "1.0.0"}))
		}

		if p.CompareAs == "" {
			p.CompareAs = p.Ecosystem
		}

		if p.Ecosystem == "" {
			p.Version, p.Commit = "", p.Version
		}

		raw := ""

		if i == badAt {
			switch uniform(rt, "problem", 6) {
			case 0:
				fields, in.bad = fields[:intIn(rt, "fields", 1, 3)], "too few fields"

				if len(fields) == 1 && fields[0] == "" {
					fields[0] = "npm"
				}
			case 1:
				fields[2], in.bad = "", "no name"
			case 2:
				fields[0], fields[3], in.bad = "", "", "no commit"
			case 3:
				raw, in.bad = `npm,,fo"o,1.0.0`+strings.Repeat(",", extra), "bare quote"
			case 4:
				raw, in.bad = `npm,,"foo"x,1.0.0`+strings.Repeat(",", extra), "text after a quoted field"
			case 5:
				raw, in.bad = `npm,,"foo,1.0.0`+strings.Repeat(",", extra), "open quote"

				if i < n-1 {
					// must not be closed by a later row
					n = i + 1
				}
			}
		}

		if raw == "" {
			out := []string{}
			for _, f := range fields {
				out = append(out, csvField(rt, f))
			}

			raw = strings.Join(out, ",")
		}

		in.rows = append(in.rows, raw)
		in.want = append(in.want, p)

		if i+1 >= n {
			break
		}
	}

	return in
}

func TestC26(t *testing.T) {
	label := func(c *Case, in csvInput) {
		c.Nontrivial(len(in.want) > 0)
		c.Label(in.bad != "", "malformed: "+in.bad)
		c.Label(in.bad == "" && len(distinctPkgs(in.want)) < len(in.want), "duplicates")
		c.Key(in.rows)
		c.Sample(map[string]any{"rows": in.rows, "want": in.want, "malformed": in.bad})
	}

	CheckDirect(t, "file-direct", 800, func(rt *rapid.T, c *Case) {
		in := genCSV(rt)
		nl := pick(rt, "line endings", []string{"\n", "\n", "\r\n"})

		text := strings.Join(in.rows, nl)
		if chance(rt, "newline at the end", 70) {
			text += nl
		}

		mustWrite(c.Dir()+"/p.csv", []byte(text))

		got, _, err := directParse(c.Dir()+"/p.csv", "csv-file")

		switch {
		case in.bad != "" && err == nil:
			rt.Fatalf("no error for (%s)\n%s\nbut %v", in.bad, text, got)
		case in.bad == "" && err != nil:
			rt.Fatalf("%v for\n%s", err, text)
		case in.bad == "":
			if d := diffSorted(got, in.want); d != "" {
				rt.Fatalf("%s for\n%s", d, text)
			}
		}

		label(c, in)
	})

	Check(t, "rows", 70, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		in := genCSV(rt)

		mustWrite(w.path("p.csv"), []byte(strings.Join(in.rows, "\n")+"\n"))
		mustWrite(w.path("yarn.lock"), []byte("# yarn lockfile v1\n"))

		asRows := w.run(append([]string{"--list-packages", "--json", "--parse-as", "csv-row", "--"}, in.rows...)...)
		asFile := w.run("--list-packages", "--json", "csv-file:p.csv", "yarn.lock")
		asFlag := w.run("--list-packages", "--json", "--parse-as", "csv-file", "p.csv")

		for i, o := range []Out{asRows, asFile, asFlag} {
			res := parseResults(rt, o)
			want := 0

			if in.bad != "" {
				want = 127
			}

			if o.Crashed() || o.Code != want {
				rt.Fatalf("exit code %d, want %d (%s): %s", o.Code, want, in.bad, show(o))
			}

			others := 0
			if i == 1 {
				others = 1
			}

			if in.bad != "" {
				if len(res) != others || !strings.Contains(o.Stderr, "Error, ") {
					rt.Fatalf("the rows are not (only) reported as an error (%s): %s", in.bad, show(o))
				}

				continue
			}

			if len(res) != 1+others {
				rt.Fatalf("%d results: %s", len(res), show(o))
			}

			if as := []string{"csv-row", "csv-file", "csv-file"}[i]; res[0].ParsedAs != as {
				rt.Fatalf("parsed as %q: %s", res[0].ParsedAs, show(o))
			}

			if d := diffSorted(pkgsOf(res[0].Packages), in.want); d != "" {
				rt.Fatalf("%s: %s", d, show(o))
			}
		}

		label(c, in)
	})

	// the packages are compared as their second field says
	Check(t, "compared", 40, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		advs := []Advisory{}
		rows := []string{}
		want := []string{}

		// 1.0.0-1 is before 1.0.0 for npm, after it for Packagist and PyPI (a post release)
		before := map[string]bool{"npm": true, "crates.io": true, "Packagist": false, "PyPI": false}

		for i := range intIn(rt, "packages", 1, 6) {
			eco := pick(rt, "ecosystem", []string{"npm", "PyPI", "Custom", "Packagist", "crates.io"})
			as := pick(rt, "compare as", []string{"", "npm", "PyPI", "Packagist", "crates.io"})
			name := fmt.Sprintf("p%d", i)

			if eco == "Custom" && as == "" {
				as = "npm"
			}

			advs = append(advs, Advisory{ID: fmt.Sprintf("OSV-%d", i), Affected: []Affected{{
				Package: AdvPackage{Ecosystem: eco, Name: name},
				Ranges:  []Range{{Type: "ECOSYSTEM", Events: []Event{{Introduced: "0"}, {Fixed: "1.0.0"}}}},
			}}})
			rows = append(rows, eco+","+as+","+name+",1.0.0-1")

			if as == "" {
				as = eco
			}

			if before[as] {
				want = append(want, fmt.Sprintf("OSV-%d", i))
			}
		}

		w.addDB("db", "dir", advs)
		conf := w.writeConfig("conf.yml")
		file := chance(rt, "file", 50)
		args := []string{"--json", "--use-dbs=false", "--config", conf, "--parse-as", "csv-row"}

		if file {
			mustWrite(w.path("p.csv"), []byte(strings.Join(rows, "\n")))
			args = []string{"--json", "--use-dbs=false", "--config", conf, "csv-file:p.csv"}
		} else {
			args = append(args, rows...)
		}

		out := w.run(args...)
		got := []string{}

		for _, r := range parseResults(rt, out) {
			for _, p := range r.Packages {
				got = append(got, idsOf(p.Vulnerabilities)...)
			}
		}

		if strings.Join(sortedCopy(got), " ") != strings.Join(sortedCopy(want), " ") {
			rt.Fatalf("found %v, want %v: %v\n%s", got, want, rows, show(out))
		}

		c.Nontrivial(true)
		c.Key(rows, file)
		c.Sample(rows)
	})
}
