package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// genGoModule draws a module path and a version that is valid for it.
func genGoModule(rt *rapid.T, base string) (string, string) {
	minor := fmt.Sprintf("%d.%d", uniform(rt, "minor", 12), uniform(rt, "patch", 4))
	suffix := ""

	switch uniform(rt, "version kind", 8) {
	case 4:
		suffix = pick(rt, "pre", []string{"-rc.1", "-beta", "-alpha.2", "-0"})
	case 5:
		suffix = pick(rt, "pseudo", []string{"-0.20200101000000-abcdefabcdef", "-0.20230405060708-0123456789ab"})
	case 6:
		if base != "gopkg.in/yaml" {
			return base, "v0.0.0-20210101000000-0123456789ab"
		}
	}

	switch {
	case base == "gopkg.in/yaml":
		n := pick(rt, "major", []string{"0", "1", "2", "3", "10"})

		return base + ".v" + n, "v" + n + "." + minor + suffix
	case chance(rt, "major version", 20):
		n := pick(rt, "major", []string{"2", "3", "10"})

		return base + "/v" + n, "v" + n + "." + minor + suffix
	case suffix == "" && chance(rt, "incompatible", 10):
		return base, "v" + pick(rt, "major", []string{"2", "4", "20"}) + "." + minor + "+incompatible"
	}

	return base, "v" + pick(rt, "major", []string{"0", "1"}) + "." + minor + suffix
}

var goBases = []string{
	"example.com/a", "example.com/b", "example.com/c/sub", "github.com/x/y", "golang.org/x/mod", "gopkg.in/yaml", "github.com/X/Upper", "example.com/v", "github.com/x/v1.v2", "h.io", "github.com/x/Upper", "Example.com/a",
}

func genGoMod(rt *rapid.T) Gen {
	g := Gen{}

	type mod struct{ path, version string }

	requires := []mod{}
	taken := map[string]bool{}

	bases := sliceFrom(rt, "modules", goBases, 0, 7)
	for i := range count(rt, "more modules", 0, 1) * 10 {
		bases = append(bases, fmt.Sprintf("example.com/more/m%d", i))
	}

	for _, b := range bases {
		if chance(rt, "module as a word", 20) {
			b = pick(rt, "host", []string{"example.com/w", "github.com/x/w", "github.com/X/w"}) + genWord(rt, "-_.", true)
		}

		p, v := genGoModule(rt, b)
		if taken[p] {
			continue
		}

		taken[p] = true
		requires = append(requires, mod{p, v})
	}

	type repl struct{ oldPath, oldVersion, newPath, newVersion string }

	replaces := []repl{}
	seen := map[mod]bool{}

	for range intIn(rt, "replaces", 0, 6) {
		r := repl{}

		if len(requires) > 0 && chance(rt, "of a required module", 75) {
			m := pick(rt, "module", requires)
			r.oldPath, r.oldVersion = m.path, m.version

			switch uniform(rt, "version", 5) {
			case 0, 1:
				r.oldVersion = ""
			case 4:
				// some other version of the same module
				r.oldVersion = strings.Split(strings.Split(r.oldVersion, ".")[0], "-")[0] + ".99.0"
				if strings.HasSuffix(m.version, "+incompatible") {
					r.oldVersion += "+incompatible"
				}
			}
		} else {
			r.oldPath, r.oldVersion = genGoModule(rt, pick(rt, "module", goBases))
			if taken[r.oldPath] || chance(rt, "any version", 40) {
				r.oldVersion = ""
			}
		}

		if seen[mod{r.oldPath, r.oldVersion}] {
			continue
		}

		seen[mod{r.oldPath, r.oldVersion}] = true

		switch uniform(rt, "replacement", 6) {
		default:
			r.newPath, r.newVersion = genGoModule(rt, pick(rt, "new module", goBases))
		case 2:
			if len(requires) > 0 {
				m := pick(rt, "new module", requires)
				r.newPath, r.newVersion = m.path, m.version
			} else {
				r.newPath, r.newVersion = genGoModule(rt, pick(rt, "new module", goBases))
			}
		case 3:
			r.newPath = pick(rt, "directory", []string{"./local", "../x", "./a/b", "/abs/dir"})
			g.label("local replacement")
		case 4:
			r.newPath, r.newVersion = genGoModule(rt, "example.com/fork")
		}

		replaces = append(replaces, r)
	}

	replaced := 0

	for _, m := range requires {
		to := m
		exact := false

		for _, r := range replaces {
			switch {
			case r.oldPath != m.path:
			case r.oldVersion == m.version:
				to, exact = mod{r.newPath, r.newVersion}, true
			case r.oldVersion == "" && !exact:
				to = mod{r.newPath, r.newVersion}
			}
		}

		if to != m {
			replaced++

			for _, r := range replaces {
				if r.oldPath == to.path {
					g.label("replacement of a replacement")
				}
			}
		}

		g.add(Pkg{Name: to.path, Version: strings.TrimPrefix(to.version, "v")})
	}

	if replaced > 0 {
		g.label("replaced")
	}

	quote := func(s string) string {
		if chance(rt, "quoted", 5) {
			return `"` + s + `"`
		}

		return s
	}

	directives := []string{}

	// directives of one kind, as lines or blocks
	emit := func(verb string, lines []string) {
		for len(lines) > 0 {
			n := intIn(rt, "lines of the block", 1, len(lines))

			if n == 1 && chance(rt, "single line", 60) {
				directives = append(directives, verb+" "+lines[0])
			} else {
				b := verb + " (\n"

				for _, l := range lines[:n] {
					if chance(rt, "comment", 15) {
						b += "\t// " + "example.com/comment v1.0.0\n"
					}

					b += "\t" + l + "\n"
				}

				directives = append(directives, b+")")
			}

			lines = lines[n:]
		}
	}

	lines := []string{}

	for _, m := range requires {
		l := quote(m.path) + " " + m.version + pick(rt, "indirect", []string{"", "", " // indirect", " // some comment"})
		lines = append(lines, l)

		if chance(rt, "twice", 5) {
			lines = append(lines, l)
		}
	}

	emit("require", lines)

	lines = []string{}

	for _, r := range replaces {
		l := quote(r.oldPath)
		if r.oldVersion != "" {
			l += " " + r.oldVersion
		}

		l += " => " + quote(r.newPath)
		if r.newVersion != "" {
			l += " " + r.newVersion
		}

		lines = append(lines, l)
	}

	emit("replace", lines)

	if chance(rt, "exclude", 30) {
		p, v := genGoModule(rt, pick(rt, "excluded", goBases))
		emit("exclude", []string{p + " " + v, "example.com/excluded v1.0.0"})
	}

	if chance(rt, "retract", 20) {
		emit("retract", []string{"v1.0.0 // oops", "[v1.1.0, v1.2.0]"})
	}

	if chance(rt, "go", 80) {
		directives = append(directives, "go "+pick(rt, "go", []string{"1.16", "1.21.0", "1.24"}))
	}

	if chance(rt, "toolchain", 20) {
		directives = append(directives, "toolchain go1.21.3")
	}

	if chance(rt, "other order", 40) {
		directives = shuffled(rt, "directives", directives)
	}

	g.Content = genYarnLines(rt, append([]string{"module example.com/my/module", ""}, strings.Split(strings.Join(directives, "\n\n"), "\n")...))
	g.distinct()
	g.eco("Go")

	return g
}

func TestC23(t *testing.T) {
	checkParser(t, "go", "go.mod", 1000, 25, genGoMod)
}
