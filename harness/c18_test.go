package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func genNpmRange(rt *rapid.T) string {
	return pick(rt, "range", []string{"^1.0.0", "~2.1", "*", "1.x", ">=1.0.0", "latest", "1.2.3", ">= 1.0.0 < 2", "^1.0.0 || ^2.0.0", "^0.0.0-beta.1", "2 - 3"})
}

func repeat(f func() string, rt *rapid.T, lo, hi int) []string {
	out := []string{}
	for range intIn(rt, "count", lo, hi) {
		out = append(out, f())
	}

	return uniq(out)
}

// genYarnLines joins lines, sometimes with the line endings of Windows.
func genYarnLines(rt *rapid.T, lines []string) []byte {
	nl := pick(rt, "line endings", []string{"\n", "\n", "\n", "\r\n"})
	s := strings.Join(lines, nl)

	if !chance(rt, "no newline at the end", 15) {
		s += nl
	}

	return []byte(s)
}

func genYarnV1(rt *rapid.T) Gen {
	g := Gen{}
	lines := []string{"# THIS IS AN AUTOGENERATED FILE. DO NOT EDIT THIS FILE DIRECTLY.", "# yarn lockfile v1", "", ""}

	quote := func(s string) string {
		if strings.HasPrefix(s, "@") || strings.HasPrefix(s, "true") || strings.ContainsAny(s, ": ,|<>") || s[0] >= '0' && s[0] <= '9' || s[0] == '-' {
			return `"` + s + `"`
		}

		return s
	}

	for range count(rt, "entries", 0, 8) {
		name := genNpmName(rt)
		p := Pkg{Name: name, Version: genSemverBuild(rt)}
		resolved := "https://registry.yarnpkg.com/" + name + "/-/x-" + p.Version + ".tgz#0123456789abcdef0123456789abcdef01234567"

		var descriptors []string

		switch uniform(rt, "kind", 8) {
		default:
			descriptors = repeat(func() string { return name + "@" + genNpmRange(rt) }, rt, 1, 4)
		case 4:
			p.Name = genNpmName(rt)
			descriptors = repeat(func() string { return name + "@npm:" + p.Name + "@" + genNpmRange(rt) }, rt, 1, 2)

			if chance(rt, "also direct", 30) {
				descriptors = append(descriptors, p.Name+"@"+genNpmRange(rt))
			}

			g.label("alias")
		case 5, 6:
			p.Commit = genCommit(rt)
			resolved = genGitURL(rt, p.Commit)

			from := pick(rt, "from", []string{
				"git+ssh://git@github.com/o/r.git#v1.0.0", "o/r", "https://github.com/o/r.git", "git@github.com:o/r.git#main", "ssh://git@host/o/r.git",
				"github:o/r", "git://github.com/o/r.git#semver:^1.0.0",
			})
			descriptors = []string{name + "@" + from}
			g.label("git")
		case 7:
			descriptors = []string{name + "@" + pick(rt, "from", []string{"file:../x", "file:a.tgz", "https://example.com/x.tgz", "link:../y"})}
			resolved = pick(rt, "resolved", []string{"", "file:a.tgz#0123456789abcdef0123456789abcdef01234567", "https://example.com/x.tgz#0123456789abcdef0123456789abcdef01234567"})
			g.label("file")
		}

		if len(descriptors) > 1 {
			g.label("several descriptors")
		}

		for i := range descriptors {
			descriptors[i] = quote(descriptors[i])
		}

		fields := []string{`  version "` + p.Version + `"`}
		if resolved != "" {
			fields = append(fields, `  resolved "`+resolved+`"`)
		}

		fields = append(fields, "  integrity sha512-abc==")

		for _, block := range []string{"dependencies", "optionalDependencies"} {
			if !chance(rt, block, 30) {
				continue
			}

			f := "  " + block + ":"

			for _, d := range repeat(func() string { return genNpmName(rt) }, rt, 1, 4) {
				v := genNpmRange(rt)
				if chance(rt, "alias", 15) {
					v = "npm:other@9.9.9"
				}

				f += "\x00    " + quote(d) + ` "` + v + `"`
			}

			fields = append(fields, f)
		}

		if chance(rt, "other order", 20) {
			fields = shuffled(rt, "fields", fields)
		}

		lines = append(lines, strings.Join(descriptors, ", ")+":")
		comments := chance(rt, "comments", 15)

		for _, f := range fields {
			if comments && chance(rt, "comment", 40) {
				lines = append(lines, pick(rt, "comment text", []string{"# a comment", "#", "# version \"9.9.9\"", "# foo@^9.9.9:"}))
				g.label("comments")
			}

			lines = append(lines, strings.Split(f, "\x00")...)
		}

		lines = append(lines, "")
		g.add(p)
	}

	g.eco("npm")
	g.Content = genYarnLines(rt, lines)

	return g
}

func genYarnBerry(rt *rapid.T) Gen {
	g := Gen{}
	lines := []string{"# This file is generated by running \"yarn install\" inside your project.", "# Manual changes might be lost - proceed with caution!", ""}
	entries := [][]string{{"__metadata:", "  version: " + pick(rt, "metadata version", []string{"4", "6", "8"}), "  cacheKey: " + pick(rt, "cache key", []string{"7", "10c0"})}}

	addEntry := func(key, version, resolution string) {
		if strings.HasPrefix(version, "0") && !strings.ContainsAny(version, "-+") && chance(rt, "quoted version", 10) {
			version = `"` + version + `"`
		}

		fields := []string{"  version: " + version, `  resolution: "` + resolution + `"`}

		for _, block := range []string{"dependencies", "peerDependencies", "bin"} {
			if !chance(rt, block, 30) {
				continue
			}

			f := "  " + block + ":"

			for _, d := range repeat(func() string { return genNpmName(rt) }, rt, 1, 4) {
				if strings.HasPrefix(d, "@") || chance(rt, "quoted", 20) {
					d = `"` + d + `"`
				}

				v := genNpmRange(rt)
				f += "\x00    " + d + ": " + pick(rt, "quote", []string{v, `"npm:` + v + `"`, `"` + v + `"`})
			}

			fields = append(fields, f)
		}

		fields = append(fields, "  checksum: 0123456789abcdef", "  languageName: node", "  linkType: hard")

		if chance(rt, "other order", 20) {
			fields = shuffled(rt, "fields", fields)
		}

		e := []string{`"` + key + `":`}
		for _, f := range fields {
			e = append(e, strings.Split(f, "\x00")...)
		}

		entries = append(entries, e)
	}

	if chance(rt, "root", 70) {
		key := "my-root@workspace:."

		switch uniform(rt, "root descriptors", 4) {
		case 2:
			key = "my-root@workspace:*, " + key
		case 3:
			key += ", my-root@workspace:^"
		}

		addEntry(key, "0.0.0-use.local", "my-root@workspace:.")
		g.label("root")
	}

	for range count(rt, "entries", 0, 8) {
		name := genNpmName(rt)
		p := Pkg{Name: name, Version: genSemver(rt)}
		npm := func(n string) func() string { return func() string { return n + "@npm:" + genNpmRange(rt) } }

		switch uniform(rt, "kind", 10) {
		default:
			addEntry(strings.Join(repeat(npm(name), rt, 1, 4), ", "), p.Version, name+"@npm:"+p.Version)
		case 4:
			p.Name = genNpmName(rt)
			ds := repeat(npm(name), rt, 1, 2)

			for i, d := range ds {
				ds[i] = strings.Replace(d, "@npm:", "@npm:"+p.Name+"@", 1)
			}

			if chance(rt, "also direct", 30) {
				ds = append(ds, p.Name+"@npm:"+genNpmRange(rt))
			}

			addEntry(strings.Join(ds, ", "), p.Version, p.Name+"@npm:"+p.Version)
			g.label("alias")
		case 5, 6:
			p.Commit = genCommit(rt)
			from := pick(rt, "from", []string{
				"git@github.com:o/r.git", "https://github.com/o/r.git", "o/r", "git+ssh://git@host/o/r.git", "ssh://git@github.com/o/r.git", "github:o/r",
			})
			res := pick(rt, "resolution", []string{
				"https://github.com/o/r.git#commit=%s", "git@github.com:o/r.git#commit=%s", "https://github.com/o/r.git#commit:%s",
				"git@github.com:o/r.git#commit:%s", "ssh://git@host:22/o/r.git#commit=%s", "https://git.example.com/o/r.git#commit=%s",
				"git+ssh://git@gitlab.com/o/r.git#%s", "https://github.com/o/r.git#%s", "https://codeload.github.com/o/r/tar.gz/%s",
				"https://git.example.com/o/r#commit=%s",
			})
			addEntry(name+"@"+from+pick(rt, "ref", []string{"", "#main", "#v1.0.0"}), p.Version, name+"@"+fmt.Sprintf(res, p.Commit))
			g.label("git")
		case 7:
			addEntry(name+"@patch:"+name+"@"+pick(rt, "patched", []string{"^1.0.0", "npm%3A^1.0.0"})+"#~builtin<compat/x>", p.Version,
				name+"@patch:"+name+"@npm%3A"+p.Version+"#~builtin<compat/x>::version="+p.Version+"&hash=abcdef")
			g.label("patch")
		case 8:
			p.Version = "0.0.0-use.local"
			dir := pick(rt, "directory", []string{"packages/x", "a", "./b", ".yarn"})
			addEntry(name+"@workspace:"+dir, p.Version, name+"@workspace:"+dir)
			g.label("workspace")
		case 9:
			protocol := pick(rt, "protocol", []string{"portal", "link", "file", "exec"})
			from := name + "@" + protocol + ":" + pick(rt, "directory", []string{"../x", "./vendor/y", "a-1.0.0.tgz"})

			if chance(rt, "local version", 50) {
				p.Version = "0.0.0-use.local"
			}

			addEntry(from+"::locator=my-root%40workspace%3A.", p.Version, from+pick(rt, "hash", []string{"", "#../x"})+"::locator=my-root%40workspace%3A.")
			g.label(protocol)
		}

		g.add(p)
	}

	if chance(rt, "other order", 30) {
		entries = shuffled(rt, "entries", entries)
	}

	for _, e := range entries {
		lines = append(lines, e...)
		lines = append(lines, "")
	}

	g.eco("npm")
	g.Content = genYarnLines(rt, lines)

	return g
}

func TestC18(t *testing.T) {
	checkParser(t, "v1", "yarn.lock", 400, 12, genYarnV1)
	checkParser(t, "berry", "yarn.lock", 400, 12, genYarnBerry)
}
