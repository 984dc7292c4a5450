package harness

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func TestC15(t *testing.T) {
	others := []string{
		"package-lock.json.bak", "Package-Lock.json", "requirements-dev.txt", "yarn.lock~", "my-yarn.lock", "Cargo.toml", "pom.xml.txt", ".package-lock.json",
		"x.csv", "csv-file", "csv-row", "README.md", "cargo.lock", "lock", "odd name:with colon", "go.mod:x", "csv-file:x.csv", "csv-file:lock", "yarn.lock:README.md", "go.mod:go.mod", "csv-file:package-lock.json", "package.json", "Gemfile", "100%d.lock", "poetry.lock ",
	}
	known := append(append([]string{}, allParsers...), "csv-file")

	Check(t, "trees", 220, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		dirs := subsetOf(rt, "directories", []string{"", "a", "b", "a/b", "odd dir", "co:lon", "package-lock.json", "csv-file", "empty"}, 1, 4)
		files := map[string]bool{}
		isDir := map[string]bool{"": true}
		mkdir := func(d string) {
			if err := os.MkdirAll(w.path(filepath.FromSlash(d)), 0o755); err != nil {
				infra("mkdir: %v", err)
			}

			for ; d != "." && d != ""; d = path.Dir(d) {
				isDir[d] = true
			}
		}

		for _, d := range dirs {
			mkdir(d)
		}

		for _, d := range dirs {
			if d == "empty" {
				continue
			}

			for _, n := range append(subsetOf(rt, "supported", allParsers, 0, 4), subsetOf(rt, "unsupported", others, 0, 3)...) {
				p := path.Join(d, n)

				if chance(rt, "directory", 8) {
					// a directory with the name of a lockfile
					if !files[p] {
						mkdir(p)
					}

					continue
				}

				if !isDir[p] {
					files[p] = true
				}
			}
		}

		// files whose whole name is another one's with a prefix
		twins := [][2]string{}

		if chance(rt, "twins", 25) {
			for _, p := range subsetOf(rt, "twin of", sortedKeys(files), 1, 2) {
				parser := pick(rt, "twin parser", known)

				if q := parser + ":" + p; path.Dir(p) == "." && !isDir[q] {
					files[q] = true
					twins = append(twins, [2]string{parser, p})
				}
			}
		}

		all := []string{}
		for p := range files {
			all = append(all, p)
		}

		sort.Strings(all)

		global := ""
		if chance(rt, "--parse-as", 30) {
			global = pick(rt, "global parser", known)
		}

		// the arguments, and what they are expected to do
		type item struct {
			path, parser string
			fails        bool
		}

		assigned := map[string]string{}
		direct := map[string]bool{} // files that are named themselves
		expected, args := []item{}, []string{}
		pathErrors, fileErrors := 0, 0
		supported := func(parser string) bool { return contains(known, parser) }
		parserOf := func(prefix, p string) string {
			switch {
			case prefix != "":
				return prefix
			case global != "":
				return global
			}

			return path.Base(p)
		}
		// take says if all of the files can be parsed as said in this run
		take := func(items []item) bool {
			for _, it := range items {
				if a, ok := assigned[it.path]; ok && a != it.parser && !it.fails {
					return false
				}
			}

			for _, it := range items {
				if it.fails {
					fileErrors++
				} else {
					assigned[it.path] = it.parser
				}
			}

			expected = append(expected, items...)

			return true
		}

		for range intIn(rt, "arguments", 1, 5) {
			prefix := ""

			switch intIn(rt, "prefix", 0, 9) {
			case 0, 1, 2:
				prefix = pick(rt, "parser", known)
			case 3:
				prefix = pick(rt, "unknown parser", []string{"unknown", "Package-lock.json", "package-lock", "npm", "csv", "composer.json", "/abs", "c"})
			}

			target := ""
			items := []item{}
			kind := intIn(rt, "argument", 0, 9)

			switch {
			case kind == 0:
				target = pick(rt, "missing", []string{"nowhere", "nowhere/package-lock.json", "a/nowhere.lock", "x/yarn.lock"})
				if files[target] || isDir[target] {
					continue
				}
			case kind <= 4:
				ds := sortedKeys(isDir)
				target = pick(rt, "directory", ds)

				if prefix != "" && !supported(prefix) {
					continue // what to say about those is open
				}

				for _, p := range all {
					if path.Dir(p) == target || target == "" && path.Dir(p) == "." {
						parser := parserOf(prefix, p)
						if supported(parser) && (prefix != "" || global != "" || contains(allParsers, parser)) {
							items = append(items, item{path: p, parser: parser})
						}
					}
				}
			default:
				if len(all) == 0 {
					continue
				}

				target = pick(rt, "file", all)

				if len(twins) > 0 && chance(rt, "of a twin", 60) {
					t := pick(rt, "twin", twins)
					prefix, target = t[0], t[1]
				}

				direct[target] = true
				parser := parserOf(prefix, target)
				explicit := prefix != "" || global != ""
				items = []item{{path: target, parser: parser, fails: !(contains(allParsers, parser) || parser == "csv-file" && explicit)}}
			}

			if target == "" && kind > 4 {
				continue
			}

			spelled := target
			if spelled == "" {
				spelled = "."
			}

			switch intIn(rt, "spelling", 0, 5) {
			case 0:
				spelled = "./" + spelled
			case 1:
				spelled = w.path(filepath.FromSlash(target))
			case 2:
				if isDir[target] {
					spelled += "/"
				}
			case 3:
				spelled = "../w/" + spelled
			}

			arg := prefix + ":" + spelled
			if prefix == "" && !strings.Contains(spelled, ":") && chance(rt, "no colon", 70) {
				arg = spelled
			}

			if strings.HasPrefix(arg, "-") || !take(items) {
				continue
			}

			if kind == 0 {
				pathErrors++
			}

			args = append(args, arg)
		}

		// the contents fit the parsers
		want := map[string]Pkg{}
		links := 0

		for i, p := range all {
			format := assigned[p]
			if format == "" {
				format = pick(rt, "format", known)
			}

			content, pkg := minimalLock(format, fmt.Sprintf("pkg%d", i))
			want[p] = pkg

			// a lockfile that cannot be read, as it is a link to nothing
			if !direct[p] && chance(rt, "broken link", 2) {
				if err := os.Symlink("nothing", w.path(filepath.FromSlash(p))); err != nil {
					infra("symlink: %v", err)
				}

				for j := range expected {
					if expected[j].path == p {
						expected[j].fails = true
						fileErrors++
					}
				}

				continue
			}

			if chance(rt, "symbolic link", 10) {
				target := filepath.Join(c.Dir(), "targets", fmt.Sprintf("%d.txt", i))
				mustWrite(target, content)

				if err := os.Symlink(target, w.path(filepath.FromSlash(p))); err != nil {
					infra("symlink: %v", err)
				}

				links++

				continue
			}

			mustWrite(w.path(filepath.FromSlash(p)), content)
		}

		flags := []string{"--json", "--list-packages"}
		if chance(rt, "check", 30) {
			flags = []string{"--json", "--use-dbs=false", "--no-config"}
		}

		if global != "" {
			flags = append(flags, "--parse-as", global)
		}

		out := w.run(append(append(flags, "--"), args...)...)
		res := parseResults(rt, out)
		good := []item{}

		for _, it := range expected {
			if !it.fails {
				good = append(good, it)
			}
		}

		if len(res) != len(good) {
			rt.Fatalf("%d results, want %d (%v): files %q: %s", len(res), len(good), good, all, show(out))
		}

		for i, it := range good {
			got := filepath.ToSlash(res[i].FilePath)

			if p, err := filepath.Rel(w.root, res[i].FilePath); err == nil && filepath.IsAbs(res[i].FilePath) {
				got = filepath.ToSlash(p)
			}

			if path.Clean(strings.TrimPrefix(got, "../w/")) != it.path || res[i].ParsedAs != it.parser {
				rt.Fatalf("result %d is of %q parsed as %q, want %q parsed as %q: files %q: %s", i, res[i].FilePath, res[i].ParsedAs, it.path, it.parser, all, show(out))
			}

			if d := diffPkgs(pkgsOf(res[i].Packages), []Pkg{want[it.path]}); d != "" {
				rt.Fatalf("result %d (%q): %s: %s", i, it.path, d, show(out))
			}
		}

		code := 0

		switch {
		case len(args) == 0:
			code = 127
		case pathErrors+fileErrors > 0:
			code = 127
		case len(expected) == 0:
			code = 128
		}

		if out.Code != code {
			rt.Fatalf("exit code %d, want %d: files %q: %s", out.Code, code, all, show(out))
		}

		if n := strings.Count(out.Stderr, "Error reading "); n != pathErrors {
			rt.Fatalf("%d paths are reported as unreadable, want %d: %s", n, pathErrors, show(out))
		}

		if n := strings.Count(out.Stderr, "Error, "); n != fileErrors {
			rt.Fatalf("%d files are reported as errors, want %d: files %q: %s", n, fileErrors, all, show(out))
		}

		c.Nontrivial(len(good) > 0 && len(args) > 0)
		c.Label(len(good) > 2, "three or more files")
		c.Label(pathErrors > 0 && len(good) > 0, "unreadable path and files")
		c.Label(fileErrors > 0 && len(good) > 0, "unsupported file and files")
		c.Label(global != "" && len(good) > 0, "--parse-as")
		c.Label(links > 0, "symbolic links")
		c.Key(all, args, flags)
		c.Sample(map[string]any{"files": all, "args": args, "flags": flags})
	})
}
