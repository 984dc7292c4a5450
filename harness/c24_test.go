package harness

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

func genGemName(rt *rapid.T) string {
	n := nameOr(rt, "gem", []string{
		"rails", "nokogiri", "rack-test", "active_model", "net-http", "a", "GEM", "specs", "ruby2_keywords", "x.y", "remote", "revision", "sidekiq-pro", "PLATFORMS", "i18n", "bundler",
	}, "-_.", true)
	if chance(rt, "numbered", 50) {
		n += fmt.Sprint(uniform(rt, "number", 30))
	}

	return n
}

func genGemVersion(rt *rapid.T) string {
	v := fmt.Sprintf("%d.%d", uniform(rt, "major", 8), uniform(rt, "minor", 12))
	if chance(rt, "patch", 70) {
		v += fmt.Sprintf(".%d", uniform(rt, "patch", 20))
	}

	if chance(rt, "suffix", 25) {
		v += pick(rt, "suffix", []string{".pre", ".rc1", ".beta.2", ".1", ".a", ".20230101"})
	}

	return v
}

func genGemfile(rt *rapid.T) Gen {
	g := Gen{}
	sections := [][]string{}

	specs := func(commit string, hi int) []string {
		out := []string{"  specs:"}

		for range count(rt, "gems", 0, hi) {
			p := Pkg{Name: genGemName(rt), Version: genGemVersion(rt), Commit: commit}
			platform := ""

			if chance(rt, "platform", 20) {
				platform = pick(rt, "platform", []string{"-java", "-x86_64-linux", "-x86-mingw32", "-arm64-darwin-22", "-x64-mingw-ucrt", "-aarch64-linux-musl"})
				g.label("platform")
			}

			out = append(out, "    "+p.Name+" ("+p.Version+platform+")")
			g.add(p)

			for range pick(rt, "dependencies", []int{0, 0, 1, 3}) {
				out = append(out, "      "+genGemName(rt)+pick(rt, "requirement", []string{"", " (~> 1.0)", " (>= 1.2, < 3)", " (= 1.0.0-java)", " (!= 2.0)"}))
			}
		}

		return out
	}

	for range intIn(rt, "sources", 0, 5) {
		switch uniform(rt, "source", 7) {
		default:
			s := []string{"GEM", "  remote: https://rubygems.org/"}
			if chance(rt, "several remotes", 20) {
				s = append(s, "  remote: https://gems.example.com/")
			}

			sections = append(sections, append(s, specs("", 6)...))
		case 3, 4:
			commit := genCommit(rt)
			opts := []string{"  revision: " + commit}

			for _, o := range []string{"  branch: main", "  tag: v1.0.0", "  ref: 0123456", "  glob: *.gemspec", "  submodules: true"} {
				if chance(rt, "option", 25) {
					opts = append(opts, o)
				}
			}

			if chance(rt, "other order", 20) {
				opts = shuffled(rt, "options", opts)
			}

			s := append([]string{"GIT", "  remote: " + pick(rt, "remote", []string{"https://github.com/o/r.git", "git@github.com:o/r.git", "../bare", "ssh://git@host:22/o/r"})}, opts...)
			sections = append(sections, append(s, specs(commit, 3)...))

			g.label("git")
		case 5:
			s := []string{"PATH", "  remote: " + pick(rt, "remote", []string{".", "../x", "engines/y"})}
			if chance(rt, "glob", 20) {
				s = append(s, "  glob: lib/*.gemspec")
			}

			sections = append(sections, append(s, specs("", 2)...))
			g.label("path")
		case 6:
			sections = append(sections, append([]string{"PLUGIN SOURCE", "  remote: https://example.com", "  type: custom"}, specs("", 2)...))
			g.label("plugin")
		}
	}

	others := [][]string{}

	if chance(rt, "platforms", 80) {
		others = append(others, append([]string{"PLATFORMS"}, subsetOf(rt, "platforms", []string{"  ruby", "  x86_64-linux", "  java", "  arm64-darwin-22"}, 1, 3)...))
	}

	if chance(rt, "dependencies", 80) {
		s := []string{"DEPENDENCIES"}
		for range intIn(rt, "dependencies", 0, 5) {
			s = append(s, "  "+genGemName(rt)+pick(rt, "requirement", []string{"", "!", " (~> 1.0)", " (= 1.0)!", " (>= 1.2, < 3)"}))
		}

		others = append(others, s)
	}

	if chance(rt, "checksums", 40) {
		s := []string{"CHECKSUMS"}
		for range intIn(rt, "checksums", 0, 5) {
			s = append(s, "  "+genGemName(rt)+" (1.0.0) sha256=0123")
		}

		// not what bundler writes, but indented like a gem
		if chance(rt, "indented", 10) {
			s = append(s, "    "+genGemName(rt)+" (9.9.9)")
		}

		others = append(others, s)
		g.label("checksums")
	}

	if chance(rt, "ruby", 50) {
		others = append(others, []string{"RUBY VERSION", "   ruby 2.7.1p83"})
	}

	if chance(rt, "bundled", 80) {
		others = append(others, []string{"BUNDLED WITH", pick(rt, "bundled", []string{"   2.1.4", "    2.4.0 (x)", "  2.5.6"})})
	}

	if chance(rt, "other order", 40) {
		sections = shuffled(rt, "sections", append(sections, others...))
	} else {
		sections = append(sections, others...)
	}

	lines := []string{}

	for i, s := range sections {
		if i > 0 && !chance(rt, "no blank line", 5) {
			lines = append(lines, "")
		}

		lines = append(lines, s...)
	}

	g.Content = genYarnLines(rt, lines)
	g.eco("RubyGems")

	return g
}

func TestC24(t *testing.T) {
	checkParser(t, "gemfile", "Gemfile.lock", 900, 25, genGemfile)
}
