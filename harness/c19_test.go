package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// genYAMLKey quotes a key, if it has to or at random.
func genYAMLKey(rt *rapid.T, k string) string {
	must := strings.HasPrefix(k, "@") || strings.HasPrefix(k, "-") || strings.ContainsAny(k, "#,[]{}&*!|>%`'\"") || strings.Contains(k, ": ")

	switch {
	case must && chance(rt, "double quotes", 20), !must && chance(rt, "double quotes", 5):
		return `"` + k + `"`
	case must, chance(rt, "single quotes", 10):
		return `'` + k + `'`
	}

	return k
}

func genYAMLStr(rt *rapid.T, s string) string {
	if s == "" || strings.ContainsAny(s[:1], "0123456789-.~tnfyT") || strings.ContainsAny(s, "#{}[],&*!|>'%@`\":") {
		if chance(rt, "double quotes", 30) {
			return `"` + s + `"`
		}

		return `'` + s + `'`
	}

	return s
}

// genPnpmVersion draws a version as the value of a key, which in practice is not
// quoted unless it would be a number.
func yamlVersion(v string) string {
	if strings.Count(v, ".") < 2 {
		return `'` + v + `'`
	}

	return v
}

func genPnpm(version string) func(rt *rapid.T) Gen {
	return func(rt *rapid.T) Gen {
		g := Gen{}
		keys := map[string]bool{}
		entries := []string{}
		snapshots := []string{}

		add := func(p Pkg, key, resolution string, fields ...string) {
			if keys[key] {
				return
			}

			keys[key] = true
			e := []string{"    resolution: " + resolution}

			for _, f := range fields {
				e = append(e, "    "+f)
			}

			if chance(rt, "engines", 30) {
				e = append(e, "    engines: {node: '>=10'}")
			}

			if chance(rt, "peers", 20) {
				e = append(e, "    peerDependencies:\n      react: '>=16'\n      "+genYAMLKey(rt, genNpmName(rt)+"-p")+": '*'")
			}

			if version != "9.0" && chance(rt, "dependencies", 30) {
				e = append(e, "    dependencies:\n      version: 9.9.9\n      "+genYAMLKey(rt, genNpmName(rt)+"-d")+": 1.0.0")
			}

			if version != "9.0" {
				e = append(e, "    dev: "+pick(rt, "dev", []string{"true", "false"}))
			}

			if chance(rt, "other order", 20) {
				e = shuffled(rt, "fields", e)
			}

			entries = append(entries, "  "+genYAMLKey(rt, key)+":\n"+strings.Join(e, "\n")+"\n")
			snapshots = append(snapshots, "  "+genYAMLKey(rt, key+pick(rt, "peers", []string{"", "(react@17.0.0)", "(@types/react@17.0.0)(x@1.0.0)"}))+":\n    dependencies:\n      version: 9.9.9\n")

			g.add(p)
		}

		integrity := "{integrity: sha512-abc==}"
		tarballOf := func(commit string) string { return "https://codeload.github.com/o/r.js/tar.gz/" + commit }

		for range count(rt, "packages", 0, 9) {
			name := genNpmName(rt)
			p := Pkg{Name: name, Version: genSemver(rt)}
			kind := uniform(rt, "kind", 10)

			switch {
			case kind <= 5: // from a registry
				host := ""
				if version != "9.0" && chance(rt, "other registry", 10) {
					host = pick(rt, "host", []string{"registry.npmjs.org", "npm.example.com"})
				}

				switch version {
				case "9.0":
					if chance(rt, "build", 10) {
						p.Version += "+build.1"
					}

					add(p, name+"@"+p.Version, integrity)
				case "6.0", "6.1":
					peers := pick(rt, "peers", []string{
						"", "", "(react@17.0.2)", "(@types/react@17.0.2)", "(a@1.0.0)(b@2.0.0-rc.1)", "(@babel/core@7.0.0(x@1.0.0))(@s/y@2.0.0)", "(@s/a@1.0.0)(z@3.0.0)",
					})
					if peers != "" {
						g.label("peers")
					}

					if chance(rt, "build", 10) {
						p.Version += "+build.1"
					}

					add(p, host+"/"+name+"@"+p.Version+peers, integrity)
				default:
					peers := pick(rt, "peers", []string{
						"", "", "_react@17.0.2", "_@babel+core@7.0.0", "_a@1.0.0+b@2.0.0-rc.1", "_0123456789abcdef0123456789abcdef", "_@s+a@1.0.0_z@3.0.0",
					})
					if peers != "" {
						g.label("peers")
					}

					if chance(rt, "build", 10) {
						p.Version += "+build.1"
					}

					add(p, host+"/"+name+"/"+p.Version+peers, integrity)
				}
			case kind == 6 || kind == 7: // from git, as a tarball of GitHub or a clone
				p.Commit = genCommit(rt)
				tarball := chance(rt, "tarball", 50)
				resolution := "{tarball: " + tarballOf(p.Commit) + "}"

				if !tarball {
					resolution = "{commit: " + yamlCommit(p.Commit) + ", repo: https://git.example.com/o/r.git, type: git}"
				}

				var key string

				switch {
				case version == "9.0" && tarball:
					key = name + "@" + tarballOf(p.Commit)
				case version == "9.0":
					key = name + "@git+https://git.example.com/o/r.git#" + p.Commit
				case tarball:
					key = "github.com/o/r.js/" + p.Commit
				default:
					key = pick(rt, "host", []string{"git.example.com/o/r/", "bitbucket.org/o/r/", "gitlab.com/o/r/"}) + p.Commit
				}

				fields := []string{"version: " + yamlVersion(p.Version)}
				if version != "9.0" {
					fields = append(fields, "name: "+genYAMLStr(rt, name))
				}

				add(p, key, resolution, fields...)
				g.label("git")
			case kind == 8: // a tarball of another host
				if version == "9.0" {
					add(p, name+"@https://example.com/x/y.tgz", "{tarball: https://example.com/x/y.tgz}", "version: "+yamlVersion(p.Version))
				} else {
					add(p, "@example.com/x/y.tgz", "{tarball: https://example.com/x/y.tgz}", "name: "+genYAMLStr(rt, name), "version: "+yamlVersion(p.Version))
				}

				g.label("tarball")
			case kind == 9: // a directory
				if version == "9.0" {
					if chance(rt, "local tarball", 50) {
						add(p, name+"@file:a-1.0.0.tgz", "{integrity: sha512-abc==, tarball: file:a-1.0.0.tgz}", "version: "+yamlVersion(p.Version))
					} else {
						dir := "file:" + pick(rt, "directory", []string{"projects/x", "../y", "a-1.0.0"})
						p.Version = dir
						add(p, name+"@"+dir, "{directory: "+dir[5:]+", type: directory}")
					}

					g.label("file")

					continue
				}

				dir := pick(rt, "directory", []string{"projects/x", "../y", "a-1.0.0", "a/@b/c", "x.tgz"})
				add(p, "file:"+dir, "{directory: "+dir+", type: directory}", "name: "+genYAMLStr(rt, name), "version: "+yamlVersion(p.Version))
				g.label("file")
			}
		}

		head := "lockfileVersion: '" + version + "'\n"

		switch {
		case version[0] == '5':
			head = "lockfileVersion: " + version + "\n\nspecifiers:\n  foo: ^1.0.0\n\ndependencies:\n  foo: 1.0.0\n"
		case chance(rt, "importers", 60):
			head += "\nsettings:\n  autoInstallPeers: true\n\nimporters:\n\n  .:\n    dependencies:\n      other:\n        specifier: ^1.0.0\n        version: 1.0.0\n  packages/x:\n    dependencies:\n      other2:\n        specifier: ^1.0.0\n        version: 1.0.0(react@17.0.0)\n"
		}

		g.text(head)

		if len(entries) > 0 || chance(rt, "empty", 30) {
			g.text("\npackages:\n\n" + strings.Join(shuffled(rt, "entries", entries), "\n"))

			if len(entries) == 0 {
				g.text("  {}\n")
			}
		}

		if version == "9.0" && len(snapshots) > 0 {
			g.text("\nsnapshots:\n\n" + strings.Join(snapshots, "\n"))
		}

		g.eco("npm")

		return g
	}
}

// yamlCommit quotes commits that YAML could read as numbers.
func yamlCommit(c string) string {
	if strings.Trim(c, "0123456789e") == "" {
		return "'" + c + "'"
	}

	return c
}

func genBun(rt *rapid.T) Gen {
	g := Gen{}
	keys := map[string]bool{}
	packages := Obj{}

	for range count(rt, "packages", 0, 9) {
		name := genNpmName(rt)
		p := Pkg{Name: name}
		key := name

		if chance(rt, "other key", 30) {
			key = name

			// nested, or an alias
			for range pick(rt, "depth", []int{1, 1, 1, 2, 3, 4}) {
				key = genNpmName(rt) + "/" + key
			}

			g.label("other key")
		}

		if keys[key] {
			continue
		}

		keys[key] = true

		var tuple []any

		switch uniform(rt, "kind", 8) {
		default:
			p.Version = genSemverBuild(rt)
			info := Obj{}

			if chance(rt, "dependencies", 40) {
				info.set("dependencies", Obj{{"version", "^9.9.9"}, {genNpmName(rt) + "-d", "^1.0.0"}})
			}

			tuple = []any{name + "@" + p.Version, pick(rt, "registry", []string{"", "https://npm.example.com/x@1.0.0#a"}), info, "sha512-abc=="}
		case 5, 6:
			p.Commit = genCommit(rt)
			u := fmt.Sprintf(pick(rt, "git style", []string{
				"github:o/r#%s", "git+ssh://git@github.com/o/r.git#%s", "git+https://user@git.example.com/o/r#%s", "git+ssh://git@host:22/o/r.git#%s", "bitbucket:o/r#%s",
			}), p.Commit)
			tuple = []any{name + "@" + u, Obj{}, p.Commit}
			g.label("git")
		case 7:
			tuple = []any{name + "@" + pick(rt, "file", []string{"file:../x", "file:a.tgz", "file:packages/b@1.0.0"}), Obj{}}
			g.label("file")
		}

		packages.set(key, tuple)
		g.add(p)
	}

	root := Obj{
		{"lockfileVersion", pick(rt, "version", []int{0, 1})},
		{"workspaces", Obj{{"", Obj{{"name", "my-root"}, {"dependencies", Obj{{"foo", "^1.0.0"}}}}}}},
		{"packages", packages},
	}

	if chance(rt, "overrides", 20) {
		root.set("overrides", Obj{{"foo", "2.0.0"}})
	}

	g.eco("npm")
	g.Content = genJSONStyle(rt, true).of(root)

	return g
}

func TestC19(t *testing.T) {
	for _, versions := range [][]string{{"5.0", "5.1", "5.2", "5.3", "5.3", "5.4", "5.4"}, {"6.0", "6.0", "6.0", "6.1"}, {"9.0"}} {
		checkParser(t, "pnpm-"+versions[0][:1], "pnpm-lock.yaml", 320, 8, func(rt *rapid.T) Gen {
			return genPnpm(pick(rt, "lockfile version", versions))(rt)
		})
	}

	checkParser(t, "bun", "bun.lock", 300, 8, genBun)
}
