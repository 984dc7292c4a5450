package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func genPyName(rt *rapid.T) string {
	n := nameOr(rt, "name", []string{
		"requests", "numpy", "zope.interface", "my_pkg", "Django", "a", "backports-abc", "ruamel.yaml.clib", "x2", "name", "version", "source", "package",
		"jaraco.classes", "python3-openid", "UPPER", "z-", "revision",
	}, "-_.", true)
	if chance(rt, "numbered", 50) {
		n += fmt.Sprint(uniform(rt, "number", 30))
	}

	return n
}

func genPyVersion(rt *rapid.T) string {
	v := fmt.Sprintf("%d.%d", uniform(rt, "major", 3), uniform(rt, "minor", 12))
	if chance(rt, "patch", 70) {
		v += fmt.Sprintf(".%d", uniform(rt, "patch", 20))
	}

	switch uniform(rt, "suffix", 8) {
	case 5:
		v += pick(rt, "pre", []string{"a1", "b2", "rc1", ".dev3", ".post1", "rc1.post2.dev3"})
	case 6:
		v += pick(rt, "local", []string{"+local", "+cu118", "+g1a2b3c", "+local.1"})
	case 7:
		v = pick(rt, "odd", []string{"2024.1.1", "1", "1!2.0", "20230101", "1.0.0.0.1"})
	}

	return v
}

// tomlStyle is how a TOML file is written.
type tomlStyle struct {
	quote, eq, nl string
	comments      bool
	inline        bool
}

func genTOMLStyle(rt *rapid.T) tomlStyle {
	return tomlStyle{
		quote:    pick(rt, "quote", []string{`"`, `"`, `"`, `'`}),
		eq:       pick(rt, "equals", []string{" = ", " = ", "=", "  =  "}),
		nl:       pick(rt, "line endings", []string{"\n", "\n", "\n", "\r\n"}),
		comments: chance(rt, "comments", 20),
		inline:   chance(rt, "inline tables", 50),
	}
}

func (s tomlStyle) str(x string) string { return s.quote + x + s.quote }

func (s tomlStyle) kv(k, v string) string { return k + s.eq + s.str(v) }

func (s tomlStyle) table(kvs []KV) string {
	parts := []string{}
	for _, kv := range kvs {
		parts = append(parts, kv.K+s.eq+s.val(kv.V))
	}

	return "{ " + strings.Join(parts, ", ") + " }"
}

func (s tomlStyle) val(v any) string {
	switch x := v.(type) {
	case string:
		return s.str(x)
	case Obj:
		return s.table(x)
	default:
		return string(mustJSON(v))
	}
}

func (s tomlStyle) of(lines []string) []byte {
	out := []string{}

	for i, l := range lines {
		if s.comments && i%4 == 1 && !strings.Contains(l, "\n") {
			if l != "" {
				l += " # name = \"x\" "
			} else {
				l = "# version = \"9.9.9\""
			}
		}

		out = append(out, strings.ReplaceAll(l, "\n", s.nl))
	}

	return []byte(strings.Join(out, s.nl) + s.nl)
}

// tomlPackages writes an array of tables in a random style; the tables are those
// of packages with members and sub-tables.
func (s tomlStyle) packages(rt *rapid.T, array string, pkgs []Obj) []string {
	lines := []string{}

	for _, p := range pkgs {
		simple, tables := []string{}, []string{}

		for _, kv := range p {
			o, isTable := kv.V.(Obj)

			switch {
			case isTable && !s.inline:
				t := []string{"", "[" + array + "." + kv.K + "]"}
				for _, m := range o {
					t = append(t, m.K+s.eq+s.val(m.V))
				}

				tables = append(tables, strings.Join(t, "\n"))
			default:
				simple = append(simple, kv.K+s.eq+s.val(kv.V))
			}
		}

		if chance(rt, "other order", 30) {
			simple = shuffled(rt, "members", simple)
		}

		lines = append(lines, "[["+array+"]]")
		lines = append(lines, simple...)
		lines = append(lines, tables...)
		lines = append(lines, "")
	}

	return lines
}

// genLocked draws distinct packages.
func genLocked(rt *rapid.T, hi int, name, version func(rt *rapid.T) string) []Pkg {
	out := []Pkg{}
	for range count(rt, "packages", 0, hi) {
		p := Pkg{Name: name(rt), Version: version(rt)}
		if len(out) > 0 && chance(rt, "same name", 20) {
			p.Name = pick(rt, "same name", out).Name
		}

		out = append(out, p)
	}

	return distinctPkgs(out)
}

func genPoetry(rt *rapid.T) Gen {
	g, s := Gen{}, genTOMLStyle(rt)
	pkgs := []Obj{}

	for _, p := range genLocked(rt, 10, genPyName, genPyVersion) {
		o := Obj{{"name", p.Name}, {"version", p.Version}, {"description", "name is x"}, {"optional", chance(rt, "optional", 20)}, {"python-versions", ">=3.7"}}

		if chance(rt, "groups", 30) {
			o.set("groups", []string{"main", "dev"})
		}

		if chance(rt, "dependencies", 30) {
			o.set("dependencies", Obj{{"version", "^9"}, {"name", Obj{{"version", ">=1"}, {"optional", true}}}})
		}

		switch uniform(rt, "source", 7) {
		case 4, 5:
			p.Commit = genCommit(rt)
			o.set("source", Obj{{"type", "git"}, {"url", "https://github.com/o/r.git"}, {"reference", pick(rt, "reference", []string{"main", "v1.0.0", "HEAD"})}, {"resolved_reference", p.Commit}})
			g.label("git")
		case 6:
			o.set("source", Obj{{"type", pick(rt, "type", []string{"legacy", "directory", "file", "url"})}, {"url", "https://pypi.example.com/simple"}, {"reference", "custom"}})
			g.label("other source")
		}

		pkgs = append(pkgs, o)
		g.add(p)
	}

	lines := []string{"# This file is automatically @generated by Poetry", ""}
	lines = append(lines, s.packages(rt, "package", pkgs)...)
	lines = append(lines, "[metadata]", `lock-version = "2.0"`, `python-versions = "^3.10"`, `content-hash = "0123"`, "", "[metadata.files]", "name = []")
	g.Content = s.of(lines)
	g.eco("PyPI")

	return g
}

func genPdm(rt *rapid.T) Gen {
	g, s := Gen{}, genTOMLStyle(rt)
	pkgs := []Obj{}

	for _, p := range genLocked(rt, 10, genPyName, genPyVersion) {
		o := Obj{{"name", p.Name}, {"version", p.Version}, {"requires_python", ">=3.7"}, {"summary", "version = 1"}}

		if chance(rt, "groups", 60) {
			o.set("groups", pick(rt, "groups", [][]string{{"default"}, {"dev"}, {"default", "dev"}, {"optional"}, {}}))
		}

		if chance(rt, "dependencies", 30) {
			o.set("dependencies", []string{"name>=1", "version==9.9.9"})
		}

		switch uniform(rt, "source", 7) {
		case 4, 5:
			p.Commit = genCommit(rt)
			o.set("git", "https://github.com/o/r.git")
			o.set("ref", "main")
			o.set("revision", p.Commit)
			g.label("git")
		case 6:
			o.set("path", "./x")
		}

		pkgs = append(pkgs, o)
		g.add(p)
	}

	lines := []string{"# This file is @generated by PDM.", "", "[metadata]", `groups = ["default", "dev"]`, `lock_version = "4.4.1"`, `content_hash = "sha256:01"`, ""}
	lines = append(lines, s.packages(rt, "package", pkgs)...)
	g.Content = s.of(lines)
	g.eco("PyPI")

	return g
}

func genUv(rt *rapid.T) Gen {
	g, s := Gen{}, genTOMLStyle(rt)
	pkgs := []Obj{}

	for _, p := range genLocked(rt, 10, genPyName, genPyVersion) {
		source := uniform(rt, "source", 9)
		o := Obj{{"name", p.Name}}

		// local packages can have a version that is not known in advance
		if source >= 4 && source <= 6 && chance(rt, "dynamic version", 25) {
			p.Version = ""
			g.label("no version")
		} else {
			o.set("version", p.Version)
		}

		switch source {
		default:
			o.set("source", Obj{{"registry", "https://pypi.org/simple"}})
		case 4, 5:
			p.Commit = genCommit(rt)
			o.set("source", Obj{{"git", "https://github.com/o/r" + pick(rt, "query", []string{"", ".git", "?rev=main", "?tag=v1.0.0", "?subdirectory=a&branch=b"}) + "#" + p.Commit}})
			g.label("git")
		case 6:
			o.set("source", Obj{{pick(rt, "kind", []string{"virtual", "editable", "directory", "path"}), pick(rt, "path", []string{"packages/x", "../y", "./z", ".hidden"})}})
			g.label("local")
		case 7:
			o.set("source", Obj{{"url", "https://example.com/x.whl#sha256=0123"}})
		}

		if chance(rt, "dependencies", 30) {
			o.set("sdist", Obj{{"url", "https://files.pythonhosted.org/x.tar.gz"}, {"hash", "sha256:01"}, {"size", 10}})
		}

		pkgs = append(pkgs, o)
		g.add(p)
	}

	if chance(rt, "root", 60) {
		o := Obj{{"name", "my-root"}, {"version", "0.1.0"}, {"source", Obj{{pick(rt, "root kind", []string{"virtual", "editable"}), "."}}}}
		i := uniform(rt, "root position", len(pkgs)+1)
		pkgs = append(pkgs[:i:i], append([]Obj{o}, pkgs[i:]...)...)
		g.label("root")
	}

	lines := []string{"version = 1", `requires-python = ">=3.10"`, ""}
	lines = append(lines, s.packages(rt, "package", pkgs)...)

	if len(pkgs) > 0 && chance(rt, "groups", 30) {
		lines = append(lines, "[package.optional-dependencies]", "dev = [", "    { name = \"other\" },", "]", "")
	}

	g.Content = s.of(lines)
	g.eco("PyPI")

	return g
}

func genPylock(rt *rapid.T) Gen {
	g, s := Gen{}, genTOMLStyle(rt)
	pkgs := []Obj{}

	for _, p := range genLocked(rt, 10, genPyName, genPyVersion) {
		o := Obj{{"name", p.Name}}

		switch uniform(rt, "source", 8) {
		default:
			o.set("version", p.Version)
			o.set("index", "https://pypi.org/simple")
		case 4, 5:
			p.Commit = genCommit(rt)

			if chance(rt, "no version", 50) {
				p.Version = ""
			} else {
				o.set("version", p.Version)
			}

			o.set("vcs", Obj{{"type", "git"}, {"url", "https://github.com/o/r.git"}, {"requested-revision", "main"}, {"commit-id", p.Commit}})
			g.label("git")
		case 6:
			if chance(rt, "no version", 50) {
				p.Version = ""
			} else {
				o.set("version", p.Version)
			}

			o.set("directory", Obj{{"path", pick(rt, "path", []string{"packages/x", "../y", "./z"})}, {"editable", true}})
			g.label("directory")
		case 7:
			o.set("version", p.Version)
			o.set("archive", Obj{{"url", "https://example.com/x.tar.gz"}})
		}

		if chance(rt, "marker", 30) {
			o.set("marker", "python_version >= 3.9")
		}

		if containsPkg(g.Want, p) {
			continue
		}

		pkgs = append(pkgs, o)
		g.add(p)
	}

	if chance(rt, "root", 50) {
		o := Obj{{"name", "my-root"}, {"directory", Obj{{"path", "."}, {"editable", true}}}}
		i := uniform(rt, "root position", len(pkgs)+1)
		pkgs = append(pkgs[:i:i], append([]Obj{o}, pkgs[i:]...)...)
		g.label("root")
	}

	lines := []string{`lock-version = "1.0"`, `created-by = "pip"`, ""}
	lines = append(lines, s.packages(rt, "packages", pkgs)...)
	g.Content = s.of(lines)
	g.eco("PyPI")

	return g
}

func genPipfile(rt *rapid.T) Gen {
	g := Gen{}
	root := Obj{{"_meta", Obj{{"hash", Obj{{"sha256", "01"}}}, {"pipfile-spec", 6}, {"requires", Obj{{"python_version", "3.9"}}}, {"sources", []any{Obj{{"name", "pypi"}}}}}}}
	first := []Pkg{}

	for _, section := range []string{"default", "develop"} {
		o := Obj{}
		names := map[string]bool{}
		pkgs := genLocked(rt, 7, genPyName, genPyVersion)

		if section == "develop" && len(first) > 0 && chance(rt, "shared", 50) {
			p := pick(rt, "shared", first)
			if chance(rt, "other version", 50) {
				p.Version = genPyVersion(rt)
			}

			pkgs = append(pkgs, p)
			g.label("shared")
		}

		for _, p := range pkgs {
			if names[p.Name] {
				continue
			}

			names[p.Name] = true
			e := Obj{{"hashes", []any{"sha256:01"}}, {"index", "pypi"}}

			if chance(rt, "no version", 8) {
				e.set(pick(rt, "kind", []string{"path", "file", "editable"}), "./x")
			} else {
				e.set("version", pick(rt, "operator", []string{"==", "==", "==", "=="})+p.Version)
				g.add(p)
				first = append(first, p)
			}

			if chance(rt, "markers", 40) {
				e.set("markers", "python_version >= '3.6'")
			}

			o.set(p.Name, shuffledObj(rt, e))
		}

		if len(o) > 0 || chance(rt, "empty", 70) {
			root.set(section, o)
		}
	}

	g.distinct()
	g.eco("PyPI")
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))

	return g
}

func TestC20(t *testing.T) {
	checkParser(t, "poetry", "poetry.lock", 200, 5, genPoetry)
	checkParser(t, "pdm", "pdm.lock", 200, 5, genPdm)
	checkParser(t, "uv", "uv.lock", 200, 5, genUv)
	checkParser(t, "pylock", "pylock.toml", 200, 5, genPylock)
	checkParser(t, "pipfile", "Pipfile.lock", 200, 5, genPipfile)
}
