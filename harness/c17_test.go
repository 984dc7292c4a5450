package harness

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// pickAgain sometimes returns an earlier package, to have it more than once.
func pickAgain(rt *rapid.T, g *Gen) *Pkg {
	if len(g.Want) == 0 || !chance(rt, "again", 20) {
		return nil
	}

	p := pick(rt, "again", g.Want)
	if p.Version == "" || p.Commit != "" {
		return nil
	}

	// the same letters, but not the same package
	if len(p.Version) > 2 && isDigits(p.Version[:2]) && chance(rt, "shifted", 50) {
		p.Name, p.Version = p.Name+p.Version[:1], p.Version[1:]
	}

	return &p
}

func isDigits(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}

	return s != ""
}

// genNpmV1Tree draws the dependencies of a version 1 lockfile.
func genNpmV1Tree(rt *rapid.T, g *Gen, depth int) Obj {
	names := map[string]bool{}
	deps := Obj{}

	hi := 6 - depth
	if depth > 0 && hi > 3 {
		hi = 3
	}

	n := intIn(rt, "dependencies", 0, hi)
	if depth == 0 {
		n = count(rt, "top dependencies", 0, hi)
	}

	for range n {
		key := genNpmName(rt)
		again := pickAgain(rt, g)

		if again != nil {
			key = again.Name
		}

		if names[key] {
			continue
		}

		names[key] = true

		o := Obj{}
		p := Pkg{Name: key}

		switch uniform(rt, "kind", 10) {
		default:
			p.Version = genSemverBuild(rt)
			if again != nil {
				p.Version = again.Version
			}

			o.set("version", p.Version)
			o.set("resolved", "https://registry.npmjs.org/"+key+"/-/x-"+p.Version+".tgz")
			o.set("integrity", "sha512-abc==")
		case 5:
			p.Name, p.Version = genNpmName(rt), genSemverBuild(rt)
			o.set("version", "npm:"+p.Name+"@"+p.Version)
			g.label("alias")
		case 6:
			o.set("version", "file:"+pick(rt, "path", []string{"../x", "packages/foo-1.2.3", "a@1.0.0", "my.tgz", "x#abcdef0"}))
			g.label("file")
		case 7, 8:
			p.Commit = genCommit(rt)

			u := genGitURL(rt, p.Commit)
			if chance(rt, "host", 30) {
				u = pick(rt, "host", []string{"github:", "gitlab:", "bitbucket:"}) + "o/r.js#" + p.Commit
			}

			o.set("version", u)
			o.set("from", "git+ssh://git@github.com/o/r.git#main")
			g.label("git")
		}

		if chance(rt, "flags", 30) {
			o.set(pick(rt, "flag", []string{"dev", "optional", "bundled", "devOptional"}), true)
		}

		if chance(rt, "requires", 30) {
			o.set("requires", Obj{{"version", "^9.9.9"}, {genNpmName(rt) + "-r", "~1.0.0"}})
		}

		if depth < 4 && chance(rt, "nested", 35) {
			before := len(g.Want)
			o.set("dependencies", genNpmV1Tree(rt, g, depth+1))

			if len(g.Want) > before {
				g.label(fmt.Sprintf("depth %d", depth+2))
			}
		}

		g.add(p)
		deps.set(key, shuffledObj(rt, o))
	}

	return deps
}

// genNpmRoot draws the name and the version of the project, which may be those of
// one of its packages.
func genNpmRoot(rt *rapid.T, g *Gen) (name, version string) {
	if len(g.Want) > 0 && chance(rt, "namesake", 15) {
		p := pick(rt, "namesake", g.Want)
		g.label("namesake of the project")

		if p.Version != "" && chance(rt, "same version", 70) {
			return p.Name, p.Version
		}

		return p.Name, "5.5.5"
	}

	return "my-root", "5.5.5"
}

func genNpmV1(rt *rapid.T) Gen {
	g := Gen{}
	root := Obj{{"requires", true}}

	if !chance(rt, "no version", 10) {
		root.set("lockfileVersion", 1)
	}

	deps := genNpmV1Tree(rt, &g, 0)
	rootName, rootVersion := genNpmRoot(rt, &g)
	root.set("name", rootName)
	root.set("version", rootVersion)

	if len(deps) > 0 || chance(rt, "empty", 50) {
		root.set("dependencies", deps)
	}

	if n := len(g.Want); n > len(distinctPkgs(g.Want)) {
		g.label("duplicates")
	}

	g.distinct()
	g.eco("npm")
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))

	return g
}

func genNpmV2(rt *rapid.T) Gen {
	g := Gen{}
	packages := Obj{{"", Obj{{"name", "my-root"}, {"version", "5.5.5"}, {"dependencies", Obj{{"foo", "^1.0.0"}}}}}}
	if chance(rt, "no root entry", 10) {
		packages = Obj{}
	}

	compat := Obj{} // what npm v6 would read from a version 2 file
	paths := []string{}
	taken := map[string]bool{"": true}

	put := func(path string, o Obj, p Pkg) bool {
		if taken[path] {
			return false
		}

		taken[path] = true
		packages.set(path, shuffledObj(rt, o))
		g.add(p)

		return true
	}

	for range count(rt, "packages", 0, 9) {
		key := genNpmName(rt)
		again := pickAgain(rt, &g)

		if again != nil {
			key = again.Name
		}

		p := Pkg{Name: key}
		path := "node_modules/" + key

		if len(paths) > 0 && chance(rt, "nested", 45) {
			path = pick(rt, "parent", paths) + "/" + path
			g.label("nested")
		}

		o := Obj{}

		switch uniform(rt, "kind", 10) {
		default:
			p.Version = genSemverBuild(rt)
			if again != nil {
				p.Version = again.Version
			}

			o.set("version", p.Version)
			o.set("resolved", "https://registry.npmjs.org/"+key+"/-/x-"+p.Version+".tgz")
			o.set("integrity", "sha512-abc==")
		case 5:
			p.Name, p.Version = genNpmName(rt), genSemverBuild(rt)
			o.set("name", p.Name)
			o.set("version", p.Version)
			o.set("resolved", "https://registry.npmjs.org/"+p.Name+"/-/x-"+p.Version+".tgz")
			g.label("alias")
		case 6, 7:
			p.Commit = genCommit(rt)
			p.Version = "1.0." + fmt.Sprint(len(p.Commit)) // the version is a function of the commit
			o.set("version", p.Version)
			o.set("resolved", genGitURL(rt, p.Commit))

			if chance(rt, "named", 30) {
				p.Name = genNpmName(rt)
				o.set("name", p.Name)
			}

			g.label("git")
		case 8:
			// a link to a directory (of the repository)
			dir := pick(rt, "directory", []string{"packages/", "libs/deep/", "../", ""}) + pick(rt, "directory name", []string{"foo", "bar", "pkg-1.0.0"})
			o.set("resolved", dir)
			o.set("link", true)

			real := Pkg{Name: key}
			ro := Obj{{"name", key}}

			if chance(rt, "version", 70) {
				real.Version = genSemver(rt)
				ro.set("version", real.Version)
			}

			if put(dir, ro, real) {
				g.label("link")
			}
		}

		if chance(rt, "flags", 30) {
			o.set(pick(rt, "flag", []string{"dev", "optional", "inBundle", "devOptional", "peer"}), true)
		}

		if chance(rt, "dependencies", 30) {
			o.set("dependencies", Obj{{"version", "^9.9.9"}, {genNpmName(rt) + "-r", "~1.0.0"}})
		}

		if chance(rt, "engines", 10) {
			o.set("engines", Obj{{"node", ">=4"}})
		}

		if put(path, o, p) {
			paths = append(paths, path)

			if path == "node_modules/"+key {
				v := p.Version

				switch {
				case p.Commit != "":
					v = "git+ssh://git@github.com/o/r.git#" + p.Commit
				case p.Name != key:
					v = "npm:" + p.Name + "@" + p.Version
				case p.Version == "":
					v = "file:packages/x"
				}

				compat.set(key, Obj{{"version", v}})
			}
		}
	}

	rootName, rootVersion := genNpmRoot(rt, &g)

	if len(packages) > 0 && packages[0].K == "" {
		packages[0].V = Obj{{"name", rootName}, {"version", rootVersion}, {"dependencies", Obj{{"foo", "^1.0.0"}}}}
	}

	root := Obj{{"name", rootName}, {"version", rootVersion}, {"requires", true}, {"packages", shuffledObj(rt, packages)}}

	if chance(rt, "version 3", 50) {
		root.set("lockfileVersion", 3)
	} else {
		root.set("lockfileVersion", 2)
		root.set("dependencies", compat)
	}

	if n := len(g.Want); n > len(distinctPkgs(g.Want)) {
		g.label("duplicates")
	}

	g.distinct()
	g.eco("npm")
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))

	return g
}

func TestC17(t *testing.T) {
	checkParser(t, "v1", "package-lock.json", 400, 12, genNpmV1)
	checkParser(t, "v2", "package-lock.json", 400, 12, genNpmV2)
}
