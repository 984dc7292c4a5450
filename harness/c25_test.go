package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func genCargo(rt *rapid.T) Gen {
	g, s := Gen{}, genTOMLStyle(rt)
	pkgs := []Obj{}

	for _, p := range genLocked(rt, 12, genCrateName, genSemverBuild) {
		o := Obj{{"name", p.Name}, {"version", p.Version}}

		switch uniform(rt, "source", 5) {
		default:
			o.set("source", "registry+https://github.com/rust-lang/crates.io-index")
			o.set("checksum", "0123abc")
		case 3:
			o.set("source", "git+https://github.com/o/r?branch=main#"+genCommit(rt))
		case 4: // a member of the workspace
		}

		if chance(rt, "dependencies", 40) {
			o.set("dependencies", sliceFrom(rt, "dependencies", []string{"foo", "bar 1.0.0", "baz 2.0.0 (registry+https://github.com/rust-lang/crates.io-index)"}, 0, 3))
		}

		pkgs = append(pkgs, o)
		g.add(p)
	}

	lines := []string{"# This file is automatically @generated by Cargo.", "# It is not intended for manual editing."}
	if chance(rt, "version", 70) {
		lines = append(lines, "version = "+pick(rt, "version", []string{"3", "4", "2"}))
	}

	lines = append(lines, "")
	lines = append(lines, s.packages(rt, "package", pkgs)...)

	if chance(rt, "patch", 15) {
		lines = append(lines, "[[patch.unused]]", `name = "unused-patch"`, `version = "1.0.0"`, "")
	}

	if chance(rt, "metadata", 15) {
		lines = append(lines, "[metadata]", `"checksum foo 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "0123"`)
	}

	g.Content = s.of(lines)
	g.eco("crates.io")

	return g
}

func genCrateName(rt *rapid.T) string {
	n := nameOr(rt, "crate", []string{"serde", "serde_json", "addr2line", "winapi-x86_64-pc-windows-gnu", "a", "name", "version", "base64", "r-efi", "package"}, "-_", true)
	if chance(rt, "numbered", 50) {
		n += fmt.Sprint(uniform(rt, "number", 30))
	}

	return n
}

func genComposer(rt *rapid.T) Gen {
	g := Gen{}
	root := Obj{{"_readme", []any{"This file locks the dependencies"}}, {"content-hash", "0123"}, {"minimum-stability", "stable"}, {"aliases", []any{}}, {"platform", Obj{{"php", ">=7"}}}}
	seen := map[string]bool{}

	for _, section := range []string{"packages", "packages-dev"} {
		list := []any{}

		for range count(rt, section, 0, 7) {
			p := Pkg{
				Name: nameOr(rt, "vendor", []string{"symfony", "laravel", "o-r", "x"}, "-_.", false) + "/" + nameOr(rt, "package", []string{"yaml", "framework", "http-foundation", "a.b", "c_d"}, "-_.", true) +
					pick(rt, "number", []string{"", "", "1", "2", "3"}),
				Version: pick(rt, "prefix", []string{"", "v"}) + genSemver(rt),
			}
			if chance(rt, "branch", 10) {
				p.Version = pick(rt, "branch", []string{"dev-main", "2.x-dev", "dev-feature/x"})
			}

			if seen[p.Name+"@"+p.Version] {
				continue
			}

			seen[p.Name+"@"+p.Version] = true
			o := Obj{{"name", p.Name}, {"version", p.Version}, {"type", "library"}}

			switch uniform(rt, "dist", 6) {
			default:
				p.Commit = genCommit(rt)
				o.set("source", Obj{{"type", "git"}, {"url", "https://github.com/o/r.git"}, {"reference", p.Commit}})
				o.set("dist", Obj{{"type", "zip"}, {"url", "https://api.github.com/repos/o/r/zipball/x"}, {"reference", p.Commit}, {"shasum", ""}})
				g.label("commit")
			case 3:
				o.set("dist", Obj{{"type", "zip"}, {"url", "https://wpackagist.org/x.zip"}, {"reference", pick(rt, "tag", []string{"tags/1.2.3", "v1.0.0", "1.0"})}})
				g.label("tag")
			case 4:
				o.set("dist", Obj{{"type", "zip"}, {"url", "https://x/y.zip"}})

				if chance(rt, "other reference", 40) {
					// whatever is there and is not a tag
					p.Commit = genWord(rt, "-_/", true)
					o[len(o)-1].V = Obj{{"type", "zip"}, {"reference", p.Commit}}
				}
			case 5: // no dist at all
			}

			if chance(rt, "require", 40) {
				o.set("require", Obj{{"php", ">=7.1"}, {"symfony/name", "^9.9"}})
			}

			if chance(rt, "alias", 15) {
				o.set("extra", Obj{{"branch-alias", Obj{{"dev-main", "9.9.x-dev"}}}})
			}

			list = append(list, shuffledObj(rt, o))
			g.add(p)
		}

		if len(list) > 0 || chance(rt, "empty", 60) {
			root.set(section, list)
		}
	}

	g.eco("Packagist")
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))

	return g
}

func genNuGet(rt *rapid.T) Gen {
	g := Gen{}
	deps := Obj{}

	for _, fw := range subsetOf(rt, "frameworks", []string{"net6.0", ".NETFramework,Version=v4.7.2", ".NETStandard,Version=v2.0", "net6.0/win-x64", "net8.0-windows7.0"}, 0, 4) {
		o := Obj{}
		names := map[string]bool{}

		for range count(rt, "packages", 0, 6) {
			p := Pkg{
				Name:    nameOr(rt, "package", []string{"Newtonsoft.Json", "System.Text.Json", "xunit", "A", "resolved", "Microsoft.NETCore.Platforms", "Test_Core-x"}, "-_.", true),
				Version: genSemver(rt),
			}

			if chance(rt, "four parts", 15) {
				p.Version = strings.SplitN(p.Version, "-", 2)[0] + ".5"
			}

			if again := pickAgain(rt, &g); again != nil {
				p.Name, p.Version = again.Name, again.Version
			}

			if names[p.Name] {
				continue
			}

			names[p.Name] = true
			e := Obj{{"type", pick(rt, "type", []string{"Direct", "Transitive", "CentralTransitive"})}, {"requested", "[9.9.9, )"}, {"resolved", p.Version}, {"contentHash", "01=="}}

			if chance(rt, "project", 8) {
				// a reference to a project of the same solution
				p.Version = ""
				e = Obj{{"type", "Project"}}

				g.label("project")
			}

			if chance(rt, "dependencies", 30) {
				e.set("dependencies", Obj{{"Other.Package", "9.9.9"}})
			}

			o.set(p.Name, shuffledObj(rt, e))
			g.add(p)
		}

		deps.set(fw, o)
	}

	root := Obj{{"dependencies", deps}}

	switch uniform(rt, "version", 12) {
	default:
		root.set("version", 1)
	case 10:
		root.set("version", pick(rt, "other version", []int{2, 0, 3, -1, 11}))

		g.Err, g.Want = true, nil
	case 11:
		g.Err, g.Want = true, nil
	}

	if len(distinctPkgs(g.Want)) < len(g.Want) {
		g.label("several frameworks")
	}

	g.distinct()
	g.eco("NuGet")
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))

	return g
}

func genMix(rt *rapid.T) Gen {
	g := Gen{}
	lines := []string{"%{"}
	names := map[string]bool{}

	for range count(rt, "packages", 0, 10) {
		p := Pkg{Name: nameOr(rt, "package", []string{"phoenix", "plug_cowboy", "a", "hex", "git", "earmark_parser", "poolboy", "x509", "_x"}, "_", false)}
		if chance(rt, "numbered", 50) {
			p.Name += fmt.Sprint(uniform(rt, "number", 30))
		}

		if names[p.Name] {
			continue
		}

		names[p.Name] = true

		if chance(rt, "git", 30) {
			p.Commit = genCommit(rt)
			lines = append(lines, fmt.Sprintf(`  "%s": {:git, "%s", "%s", %s},`, p.Name,
				pick(rt, "url", []string{"https://github.com/o/r.git", "git@github.com:o/r.git", "git://host/o/r", "https://x/hex"}), p.Commit,
				pick(rt, "options", []string{"[]", `[branch: "main"]`, `[tag: "v1.0.0", sparse: "lib"]`, `[ref: "abc"]`})))
			g.label("git")
		} else {
			p.Version = genSemver(rt)
			p.Commit = genCommit(rt) // the checksum takes its place
			real := p.Name

			if chance(rt, "other name", 10) {
				real = "other"
			}

			lines = append(lines, fmt.Sprintf(`  "%s": {:hex, :%s, "%s", "%s", %s, %s, "hexpm"%s},`, p.Name, real, p.Version, p.Commit,
				pick(rt, "managers", []string{"[:mix]", "[:rebar3]", "[:make, :mix]", "[]"}),
				pick(rt, "dependencies", []string{
					"[]", `[{:plug, "~> 9.9", [hex: :plug, repo: "hexpm", optional: false]}]`,
					`[{:a, ">= 1.0.0 and < 3.0.0", [hex: :a, repo: "hexpm", optional: true]}, {:b, "~> 9.9 or ~> 8.8", [hex: :b, repo: "hexpm", optional: false]}]`,
				}),
				pick(rt, "outer checksum", []string{"", `, "0123abcd"`})))
		}

		g.add(p)

		if chance(rt, "odd line", 10) {
			lines = append(lines, pick(rt, "odd", []string{`  "odd": {:hex, :odd},`, `  "odd": {:path, "../odd", []},`, `  "odd": {:hex},`, "", "  # a comment", `  odd,`}))
			g.label("odd line")
		}
	}

	g.Content = genYarnLines(rt, append(lines, "}"))
	g.eco("Hex")

	return g
}

func genPubspec(rt *rapid.T) Gen {
	g := Gen{}
	g.text("# Generated by pub\n# See https://dart.dev/tools/pub/glossary#lockfile\n")

	names := map[string]bool{}
	entries := []string{}
	q := func(s string) string {
		if s == "" || strings.ContainsAny(s, " :+#.@") || chance(rt, "quoted", 30) {
			return `"` + s + `"`
		}

		return s
	}

	for range count(rt, "packages", 0, 10) {
		p := Pkg{Name: nameOr(rt, "package", []string{"async", "json_annotation", "a", "flutter", "http_parser", "version", "description", "source", "x2"}, "_", false), Version: genSemverBuild(rt)}
		if chance(rt, "numbered", 50) {
			p.Name += fmt.Sprint(uniform(rt, "number", 30))
		}

		if names[p.Name] {
			continue
		}

		names[p.Name] = true

		var desc []string

		source := "hosted"

		switch uniform(rt, "source", 7) {
		default:
			desc = []string{"    description:", "      name: " + p.Name, "      sha256: \"0123\"", "      url: \"https://pub.dev\""}
		case 3, 4:
			p.Commit = genCommit(rt)
			source = "git"
			desc = []string{"    description:", "      path: \".\"", "      ref: " + pick(rt, "ref", []string{"HEAD", "main", "\"v1.0.0\""}), `      resolved-ref: "` + p.Commit + `"`, "      url: \"https://github.com/o/r.git\""}

			g.label("git")
		case 5:
			source = "sdk"
			desc = []string{"    description: flutter"}

			g.label("sdk")
		case 6:
			source = "path"
			desc = []string{"    description:", "      path: \"../x\"", "      relative: true"}
		}

		parts := []string{"    dependency: " + pick(rt, "dependency", []string{"transitive", `"direct main"`, `"direct dev"`, `"direct overridden"`}), strings.Join(desc, "\n"), "    source: " + q(source), `    version: "` + p.Version + `"`}
		if chance(rt, "other order", 20) {
			parts = shuffled(rt, "parts", parts)
		}

		entries = append(entries, "  "+p.Name+":\n"+strings.Join(parts, "\n")+"\n")
		g.add(p)
	}

	if len(entries) > 0 {
		g.text("packages:\n" + strings.Join(entries, ""))
	} else if chance(rt, "empty", 50) {
		g.text("packages: {}\n")
	}

	g.text("sdks:\n  dart: \">=2.12.0 <3.0.0\"\n  flutter: \">=1.0.0\"\n")
	g.eco("Pub")

	return g
}

func genRenv(rt *rapid.T) Gen {
	g := Gen{}
	pkgs := Obj{}
	names := map[string]bool{}

	for range count(rt, "packages", 0, 10) {
		p := Pkg{
			Name:    nameOr(rt, "package", []string{"ggplot2", "R6", "data.table", "markdown", "a", "Version", "Package", "BH", "later"}, ".", true) + pick(rt, "number", []string{"", "", "1", "2", "3"}),
			Version: pick(rt, "version", []string{"1.2.3", "0.1", "1.78.0-0", "1.14.8", "2.5.1-1", "1.0.0.9000", "20230101"}),
		}

		if names[p.Name] {
			continue
		}

		names[p.Name] = true
		o := Obj{{"Package", p.Name}, {"Version", p.Version}, {"Hash", "0123"}}

		if chance(rt, "requirements", 30) {
			o.set("Requirements", []any{"R", "Version"})
		}

		switch uniform(rt, "source", 7) {
		default:
			o.set("Source", "Repository")
			o.set("Repository", "CRAN")
			g.add(p)
		case 4:
			o.set("Source", pick(rt, "source", []string{"GitHub", "Bioconductor", "unknown"}))
			o.set("RemoteSha", "0123")
			g.add(p)
			g.label("no repository")
		case 5, 6:
			o.set("Source", "Repository")
			o.set("Repository", pick(rt, "repository", []string{"BioCsoft", "RSPM", "cran-mirror", "https://x", "cran", "CRAN2"}))
			g.label("other repository")
		}

		pkgs.set(p.Name, shuffledObj(rt, o))
	}

	root := Obj{{"R", Obj{{"Version", "4.1.0"}, {"Repositories", []any{Obj{{"Name", "CRAN"}, {"URL", "https://cran.rstudio.com"}}}}}}, {"Packages", pkgs}}
	g.Content = genJSONStyle(rt, false).of(shuffledObj(rt, root))
	g.eco("CRAN")

	return g
}

func TestC25(t *testing.T) {
	checkParser(t, "cargo", "Cargo.lock", 150, 5, genCargo)
	checkParser(t, "composer", "composer.lock", 150, 5, genComposer)
	checkParser(t, "nuget", "packages.lock.json", 200, 6, genNuGet)
	checkParser(t, "mix", "mix.lock", 150, 5, genMix)
	checkParser(t, "pubspec", "pubspec.lock", 150, 5, genPubspec)
	checkParser(t, "renv", "renv.lock", 150, 5, genRenv)
}
