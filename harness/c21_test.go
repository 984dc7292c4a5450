package harness

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// genRequirement draws a line with a requirement and what it stands for.
func genRequirement(rt *rapid.T, g *Gen) (string, Pkg) {
	name := nameOr(rt, "name", []string{
		"requests", "Django", "zope.interface", "my_pkg", "ruamel.yaml", "A", "x2", "Foo-_.Bar", "foo--bar", "backports.ssl_match_hostname", "r", "e3",
		"git", "file", "http", "python-dateutil",
	}, "-_.", true)
	if chance(rt, "numbered", 50) {
		name += fmt.Sprint(uniform(rt, "number", 30))
	}

	p := Pkg{Name: strings.ToLower(pep503.ReplaceAllString(name, "-")), Version: "0.0.0"}
	sp := func() string { return pick(rt, "space", []string{"", "", " ", "  ", "\t"}) }
	line := pick(rt, "indentation", []string{"", "", "", "  ", "\t"}) + name

	if chance(rt, "extras", 20) {
		line += sp() + pick(rt, "extras", []string{"[security]", "[a,b]", "[ a , b ]", "[x_y.z]"})
		g.label("extras")
	}

	if chance(rt, "direct reference", 8) {
		line += pick(rt, "at", []string{" @ ", " @ ", "@", "@ ", " @", "\t@\t"}) + pick(rt, "url", []string{
			"https://example.com/x-1.0.0.tar.gz", "git+https://github.com/o/r.git@v1.0.0", "file:///tmp/x.whl", "https://example.com/x.whl#sha256=01==", "https://x/y?a>=2",
		})
		g.label("direct reference")

		if chance(rt, "marker", 30) {
			line += " ; python_version > '3.8'"
		}
	} else {
		specs := []string{}

		if chance(rt, "lower bound", 75) {
			p.Version = genPyVersion(rt)
			specs = append(specs, pick(rt, "operator", []string{"==", "==", ">=", "~=", ">", "==="})+sp()+p.Version)
		}

		for range pick(rt, "other specifiers", []int{0, 0, 1, 2}) {
			specs = append(specs, pick(rt, "operator", []string{"<", "<=", "!="})+sp()+pick(rt, "version", []string{"9.9", "3.0.*", "2!1.0", "10"}))
		}

		if len(specs) > 1 {
			specs = shuffled(rt, "specifiers", specs)
			g.label("several specifiers")
		}

		open, closed := "", ""
		if len(specs) > 0 && chance(rt, "parentheses", 12) {
			open, closed = sp()+"("+sp(), sp()+")"

			g.label("parentheses")
		}

		line += open

		for i, s := range specs {
			if i > 0 {
				line += sp() + ","
			}

			line += sp() + s
		}

		line += closed

		if chance(rt, "marker", 25) {
			line += sp() + ";" + sp() + pick(rt, "marker", []string{
				`python_version < "3.8"`, `sys_platform == 'win32' and python_version >= '2.7'`, `extra == "test"`, `(os_name=="posix" or implementation_name!='pypy')`,
				`python_version~="3.6"`,
			})
			g.label("marker")
		}
	}

	if chance(rt, "options", 15) {
		for range intIn(rt, "options", 1, 3) {
			o := pick(rt, "option", []string{"--hash=sha256:01ab", "--hash sha256:02==", `--global-option="--no-x"`, `--config-settings "a=b>=1"`})

			if chance(rt, "on another line", 70) {
				line += " \\\n    " + o
				g.label("continued line")
			} else {
				line += " " + o
			}
		}

		g.label("options")
	}

	if chance(rt, "split", 12) {
		// in the middle of the line, between two tokens
		if i := strings.IndexAny(line, "=<>~!,;["); i > 0 && !strings.Contains(line, "://") {
			line = line[:i] + pick(rt, "space", []string{"", " "}) + "\\\n" + pick(rt, "space", []string{"", "  "}) + line[i:]
			g.label("continued line")
		}
	}

	if chance(rt, "comment", 20) {
		line += pick(rt, "comment", []string{" # comment", "  # foo==1.0.0", "\t#x", " # a ; b --c", " #"})
	} else if chance(rt, "trailing space", 10) {
		line += "  "
	}

	return line, p
}

func genRequirements(rt *rapid.T) Gen { return genRequirementsWith(rt, false) }

// genPlacedRequirements draws files that can include others by their absolute path.
func genPlacedRequirements(rt *rapid.T) Gen { return genRequirementsWith(rt, true) }

func genRequirementsWith(rt *rapid.T, absolute bool) Gen {
	g := Gen{Named: true}
	paths := append([]string{"requirements.txt"}, subsetOf(rt, "other files", []string{
		"other.txt", "dev.txt", "sub/dev.txt", "sub/base.txt", "sub/deep/x.txt", "requirements/test.in", "../up.txt", "a b.txt", "c#1.txt", "x;y.txt", "sub/other.txt", "sub/requirements.txt", "sub/==1.0.txt",
	}, 0, 5)...)
	includes := map[string][]string{}
	pkgs := map[string][]Pkg{}
	bad := chance(rt, "bad include", 5)
	badIn := ""

	if bad {
		badIn = pick(rt, "bad include in", paths)
	}

	for i, f := range paths {
		lines := []string{}

		for range count(rt, "lines", 0, 9) {
			if chance(rt, "no requirement", 30) {
				lines = append(lines, pick(rt, "line", []string{
					"", "   ", "# comment", "  # foo==1.0.0", "-e ./x", "-e git+https://github.com/o/r.git#egg=foo", "-i https://pypi.example.com/simple", "--index-url https://u:p@pypi.org/simple",
					"--extra-index-url=https://x", "-c constraints.txt", "--no-binary :all:", "./local", "/abs/path.whl", "../x", ".", "https://example.com/x-1.0.0.tar.gz",
					"http://example.com/x.whl#egg=foo==1.0", "git+https://github.com/o/r.git@v1.0.0#egg=foo", "git+ssh://git@github.com/o/r.git", "file:///tmp/x==1.0", "svn+http://x/y",
					"--pre", "--find-links ./x", "-f y", "--trusted-host example.com", "hg+https://hg.example.com/x#egg=y", "--use-feature=fast-deps", "./x ; python_version > '3'",
				}))

				continue
			}

			// constraints say nothing about what is installed
			if chance(rt, "constraint", 4) {
				lines = append(lines, pick(rt, "constraint flag", []string{"-c ", "-c ./", "--constraint ", "--constraint="})+pick(rt, "constraints", paths))

				continue
			}

			if len(pkgs[f]) > 0 && chance(rt, "again", 10) {
				p := pick(rt, "again", pkgs[f])
				lines = append(lines, p.Name+"=="+p.Version)
				pkgs[f] = append(pkgs[f], p)

				continue
			}

			l, p := genRequirement(rt, &g)
			lines = append(lines, l)
			pkgs[f] = append(pkgs[f], p)
		}

		for j, inc := range paths {
			// most files are included by an earlier one, some by any
			if (j == i+1 && chance(rt, "include next", 70)) || chance(rt, "include", 15) {
				rel, err := filepath.Rel(path.Dir(path.Join("d", f)), path.Join("d", inc))
				if err != nil {
					infra("rel: %v", err)
				}

				if chance(rt, "dotted", 20) {
					rel = "./" + rel
				}

				if absolute && chance(rt, "absolute", 15) {
					rel = hereMark + "/" + inc

					g.label("absolute include")
				}

				l := "-r" + pick(rt, "space", []string{" ", " ", "  "}) + rel
				if chance(rt, "comment", 20) {
					l += "  # dev"
				}

				k := uniform(rt, "position", len(lines)+1)
				lines = append(lines[:k:k], append([]string{l}, lines[k:]...)...)
				includes[f] = append(includes[f], inc)
			}
		}

		if f == badIn {
			lines = append(lines, "-r "+pick(rt, "missing", []string{"missing.txt", "nowhere/x.txt", "sub"}))
		}

		nl := pick(rt, "line endings", []string{"\n", "\n", "\n", "\r\n"})
		text := strings.Join(lines, "\n")

		// a backslash has to be the last character of its line
		if strings.Contains(text, "\\\n") {
			nl = "\n"
		}

		text = strings.ReplaceAll(text, "\n", nl)

		if !chance(rt, "no newline at the end", 20) {
			text += nl
		}

		if i == 0 {
			g.Content = []byte(text)
		} else {
			g.Extra = append(g.Extra, File{Name: f, Content: []byte(text)})
		}
	}

	seen := map[string]bool{}

	var visit func(f string)

	visit = func(f string) {
		if seen[f] {
			g.label("included twice")

			return
		}

		seen[f] = true
		g.Want = append(g.Want, pkgs[f]...)

		if f == badIn {
			g.Err = true
		}

		for _, i := range includes[f] {
			visit(i)
		}
	}

	visit("requirements.txt")

	if g.Err {
		g.Want = nil
	}

	if len(seen) > 1 {
		g.label("includes")
	}

	g.distinct()
	g.eco("PyPI")

	return g
}

func TestC21(t *testing.T) {
	checkParser(t, "requirements", "requirements.txt", 900, 30, genPlacedRequirements)
}
