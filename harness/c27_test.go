package harness

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// lockGens are the generators of well-formed lockfiles.
var lockGens = map[string][]func(rt *rapid.T) Gen{
	"package-lock.json":           {genNpmV1, genNpmV2},
	"yarn.lock":                   {genYarnV1, genYarnBerry},
	"pnpm-lock.yaml":              {genPnpm("5.4"), genPnpm("6.0"), genPnpm("9.0")},
	"bun.lock":                    {genBun},
	"poetry.lock":                 {genPoetry},
	"pdm.lock":                    {genPdm},
	"uv.lock":                     {genUv},
	"pylock.toml":                 {genPylock},
	"Pipfile.lock":                {genPipfile},
	"requirements.txt":            {genRequirements},
	"pom.xml":                     {genPom},
	"gradle.lockfile":             {genGradle},
	"buildscript-gradle.lockfile": {genGradle},
	"go.mod":                      {genGoMod},
	"Gemfile.lock":                {genGemfile},
	"Cargo.lock":                  {genCargo},
	"composer.lock":               {genComposer},
	"packages.lock.json":          {genNuGet},
	"mix.lock":                    {genMix},
	"pubspec.lock":                {genPubspec},
	"renv.lock":                   {genRenv},
	"csv-file": {func(rt *rapid.T) Gen {
		in := genCSV(rt)

		return Gen{Content: []byte(strings.Join(in.rows, "\n"))}
	}},
}

var hostileFormats = append(append([]string{}, allParsers...), "csv-file")

// lexicon are words that mean something to some parser.
var lexicon = []string{
	"packages", "dependencies", "package", "version", "name", "resolved", "resolution", "lockfileVersion", "commit", "tarball", "source", "default", "develop",
	"packages-dev", "dist", "reference", "Packages", "Package", "Version", "Repository", "CRAN", "description", "resolved-ref", "git", "virtual", "vcs", "commit-id",
	"directory", "path", "revision", "sdks", "optional-dependencies", "lock-version", "groups", "editable", "type", "url", "", "node_modules/foo", "foo", "@scope", "@scope/foo", "/foo/1.0.0",
	"/@scope", "/@scope/foo@1.0.0", "foo@1.0.0", "@", "/", "//", "#", "file:", "npm:", "npm:foo", "npm:@", "npm:@foo", "git+ssh://x#y", "https://github.com/o/r#%zz", "https://codeload.github.com/a/b/tar.gz/c",
	"1.0.0", "==1.0", "=", "==", "5.4", "6.0", "9.0", "1", "-", ".", "..", ":", "::", "a:b:c", "a:b", "(", ")", "_", "net6.0", "\x00", "\u2028", "é", strings.Repeat("x", 300),
	"${a}", "${", "${a.b}", "[", "]", "[1.0", "(,", "<<", "*a", "&a", "!!binary", "~", "null", "true", "toString",
}

// anyValue draws a JSON value of any shape.
func anyValue(rt *rapid.T, depth int) any {
	k := uniform(rt, "value", 12)
	if depth <= 0 {
		k %= 7
	}

	switch k {
	case 0:
		return nil
	case 1:
		return chance(rt, "bool", 50)
	case 2:
		return pick(rt, "number", []any{0, 1, -1, 1.5, 9.0, 5.4, 6, 1e300, 1 << 53})
	case 3, 4, 5, 6:
		return pick(rt, "string", lexicon)
	case 7, 8:
		out := []any{}
		for range intIn(rt, "elements", 0, 4) {
			out = append(out, anyValue(rt, depth-1))
		}

		return out
	}

	out := Obj{}
	for range intIn(rt, "members", 0, 5) {
		out.set(pick(rt, "key", lexicon), anyValue(rt, depth-1))
	}

	return out
}

// likeLock draws a value that has the outline of a lockfile but any values inside.
func likeLock(rt *rapid.T) any {
	o := Obj{}
	for _, k := range subsetOf(rt, "sections", []string{"packages", "dependencies", "default", "develop", "packages-dev", "Packages", "package"}, 1, 4) {
		inner := Obj{}
		for range intIn(rt, "entries", 0, 4) {
			inner.set(pick(rt, "key", lexicon), anyValue(rt, 3))
		}

		if chance(rt, "list", 30) {
			list := []any{}
			for _, kv := range inner {
				list = append(list, kv.V)
			}

			o.set(k, list)
		} else {
			o.set(k, inner)
		}
	}

	o.set(pick(rt, "version", []string{"lockfileVersion", "version"}), pick(rt, "version", []any{1, 2, 3, "6.0", "9.0", 5.4, "x", nil}))

	return o
}

// anyTOML writes a value as TOML, more or less.
func anyTOML(rt *rapid.T, v any) []byte {
	var b strings.Builder

	var val func(v any) string

	val = func(v any) string {
		switch x := v.(type) {
		case nil:
			return pick(rt, "nothing", []string{`""`, "[]", "{}", "1979-05-27", "nan"})
		case string:
			return strconv.Quote(x)
		case []any:
			out := []string{}
			for _, e := range x {
				out = append(out, val(e))
			}

			return "[" + strings.Join(out, ", ") + "]"
		case Obj:
			out := []string{}
			seen := map[string]bool{}

			for _, kv := range x {
				if !seen[kv.K] {
					out = append(out, strconv.Quote(kv.K)+" = "+val(kv.V))
				}

				seen[kv.K] = true
			}

			return "{" + strings.Join(out, ", ") + "}"
		default:
			return string(mustJSON(v))
		}
	}

	if o, ok := v.(Obj); ok {
		for _, kv := range o {
			fmt.Fprintf(&b, "%q = %s\n", kv.K, val(kv.V))
		}
	}

	for range intIn(rt, "tables", 0, 4) {
		t := pick(rt, "table", []string{"package", "packages", "metadata", "package.source", "packages.vcs", "package.source.x"})
		if chance(rt, "array", 70) {
			b.WriteString("[[" + t + "]]\n")
		} else {
			b.WriteString("[" + t + "]\n")
		}

		seen := map[string]bool{}

		for range intIn(rt, "members", 0, 4) {
			k := pick(rt, "key", []string{"name", "version", "source", "groups", "revision", "vcs", "directory", "optional-dependencies"})
			if !seen[k] {
				b.WriteString(k + " = " + val(anyValue(rt, 2)) + "\n")
			}

			seen[k] = true
		}
	}

	return []byte(b.String())
}

func anyXML(rt *rapid.T, depth int) string {
	var b strings.Builder

	names := []string{"project", "dependencies", "dependency", "dependencyManagement", "properties", "groupId", "artifactId", "version", "a", "x:y", "a.b", "modelVersion"}

	for range intIn(rt, "elements", 0, 4) {
		n := pick(rt, "element", names)

		switch {
		case depth > 0 && chance(rt, "nested", 60):
			b.WriteString("<" + n + ">" + anyXML(rt, depth-1) + "</" + n + ">")
		case chance(rt, "empty", 30):
			b.WriteString("<" + n + "/>")
		default:
			t := pick(rt, "text", []string{"${a}", "${${a}}", "[1.0,2.0)", "", " ", "1.0", "${}", "&amp;", "<![CDATA[x]]>", "<?pi?>", "${a}${b}", "[", ",", ")", "(,)", "${a", "$a"})
			b.WriteString("<" + n + ">" + t + "</" + n + ">")
		}
	}

	return b.String()
}

// anyLines draws lines of tokens that mean something to line based parsers.
func anyLines(rt *rapid.T) []byte {
	var b strings.Builder

	words := append([]string{
		" ", "  ", "    ", "      ", "\t", "\"", "'", ",", "=", "GEM", "GIT", "PATH", "specs:", "  specs:", "remote: x", "revision: y", "DEPENDENCIES", "PLATFORMS", "(1.0)", "(", "{:hex", "{:git",
		"},", "%{", "-r ", "-r x", "-r requirements.txt", "-r .", "-r ..", "\\", "require ", "replace ", "=> ", "module x", "require (", ")", "v1.0.0", "v2.0.0", "# ", "version \"1.0.0\"", "resolved \"x\"", "\r",
		"__metadata:", "@workspace:.\":", "empty=", ";", ">=", "~=", "<!--", "BUNDLED WITH", "RUBY VERSION", "CHECKSUMS", "PLUGIN SOURCE", "!", "-e .",
	}, lexicon...)

	for range intIn(rt, "lines", 0, 12) {
		for range intIn(rt, "words", 0, 6) {
			b.WriteString(pick(rt, "word", words))
		}

		if !chance(rt, "same line", 5) {
			b.WriteString("\n")
		}
	}

	return []byte(b.String())
}

// mutate damages a file at random.
func mutate(rt *rapid.T, b []byte) []byte {
	for range intIn(rt, "mutations", 1, 6) {
		if len(b) == 0 {
			return b
		}

		switch uniform(rt, "mutation", 11) {
		case 0: // truncate
			b = b[:uniform(rt, "at", len(b))]
		case 1: // drop bytes
			i := uniform(rt, "at", len(b))
			j := min(len(b), i+1+uniform(rt, "length", 20))
			b = append(b[:i:i], b[j:]...)
		case 2: // change a byte
			i := uniform(rt, "at", len(b))
			b = append([]byte{}, b...)
			b[i] = byte(pick(rt, "byte", []int{0, 10, 32, 34, 39, 44, 58, 64, 91, 93, 123, 125, 128, 255, 47, 35, 45, 40}))
		case 3, 4: // insert a word
			i := uniform(rt, "at", len(b)+1)
			b = append(b[:i:i], append([]byte(pick(rt, "word", lexicon)), b[i:]...)...)
		case 5, 6: // drop, repeat or swap lines
			ls := strings.Split(string(b), "\n")
			i, j := uniform(rt, "line", len(ls)), uniform(rt, "other line", len(ls))

			switch uniform(rt, "lines", 3) {
			case 0:
				ls = append(ls[:i:i], ls[i+1:]...)
			case 1:
				ls = append(ls[:i:i], append([]string{ls[j]}, ls[i:]...)...)
			case 2:
				ls[i], ls[j] = ls[j], ls[i]
			}

			b = []byte(strings.Join(ls, "\n"))
		case 7, 8, 9: // replace a quoted string or a value
			s := string(b)
			i := strings.IndexByte(s[uniform(rt, "at", len(s)):], '"')

			if i < 0 {
				continue
			}

			k := uniform(rt, "nth", max(1, strings.Count(s, `"`)/2))
			parts := strings.SplitAfterN(s, `"`, 2*k+3)

			if len(parts) < 3 {
				continue
			}

			n := len(parts)
			repl := pick(rt, "value", []string{`""`, `null`, `1`, `[]`, `{}`, `"x"`, `"@"`, `"@/"`, `[null]`, `{"":null}`, `"\u0000"`, `true`})
			parts[n-3] = strings.TrimSuffix(parts[n-3], `"`)
			parts[n-2] = repl
			b = []byte(strings.Join(parts, ""))
		case 10: // put the same again
			i := uniform(rt, "at", len(b))
			j := min(len(b), i+1+uniform(rt, "length", 60))
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}

	return b
}

// genHostile draws the content of a file for the given parser.
func genHostile(rt *rapid.T, format string) ([]byte, []File, string) {
	switch k := uniform(rt, "kind", 12); {
	case k == 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes"), nil, "bytes"
	case k == 1:
		return []byte(rapid.String().Draw(rt, "text")), nil, "text"
	case k == 2:
		other := pick(rt, "other format", hostileFormats)
		g := pick(rt, "generator", lockGens[other])(rt)

		return g.Content, g.Extra, "other format"
	case k == 3:
		return []byte(pick(rt, "special", []string{
			"", " ", "\n", "\xef\xbb\xbf", "\xff\xfe{\x00}\x00", "null", "[]", "{}", "0", "\"\"", "true", "---", "---\n...\n", "&a [*a]", "a: &a {b: *a}", "<project/>", "<project></project>",
			"<?xml version=\"1.0\" encoding=\"latin1\"?><project/>", "packages:", "packages: null", "packages: []", "packages: {a: null}", "lockfileVersion: 6.0\npackages:\n  /a: ~",
			"{\"packages\":null}", "{\"packages\":{\"a\":null}}", "{\"dependencies\":{\"a\":null}}", "{\"packages\":[null]}", "[[package]]", "[[packages]]", "package = []", "package = [{}]",
			"-r requirements.txt", "-r .", "-r /", "\\", "a\\", "\\\n\\\n\\", "-r", "-r ", "GEM", "GEM\n    a", "    a (1)", "GIT\n  revision: \n  specs:\n    a", "__metadata:", "\":", "@", "@:", "a", "a:", "\"\":",
			"version: x", "  \"a\": {,,,},", "  \"a\": {:git,", "%{", "module", "module x\nrequire", "module x\nrequire a", "module x\nrequire a b", "module x\nreplace a => b", ":::", "=", "::=", "a:b", "#", ",,,", ",,,,,", "a,b,c,d\ne",
			"{\"version\": 1, \"dependencies\": {\"a\": null}}", "{\"version\": 1, \"dependencies\": {\"a\": {\"b\": null}}}", "{\"Packages\": {\"a\": null}}", "{\"default\": {\"a\": {}}}", "{\"default\": {\"a\": {\"version\": \"\"}}}",
			"{\"packages\": {\"a\": []}}", "{\"packages\": {\"a\": [1]}}", "{\"packages\": {\"a\": [\"\"]}}", "/*", "//", "{/**/}", "{\"a\": 1, /* \"",
			strings.Repeat("[", 3000), strings.Repeat("{\"dependencies\":{\"a\":", 300), strings.Repeat("a\\\n", 500), strings.Repeat("<a>", 300), strings.Repeat("- ", 300), strings.Repeat("x", 70000), strings.Repeat("a==1\n", 5000),
			"<project><properties><a>${b}</a><b>${a}</b></properties><dependencies><dependency><version>${a}</version></dependency></dependencies></project>",
			"<project><properties><a>${a}${a}</a></properties><dependencies><dependency><version>${a}</version></dependency></dependencies></project>",
			"a: &a [x,x,x,x,x,x,x,x,x]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c]\npackages: [*d,*d,*d,*d,*d,*d,*d,*d]",
		})), nil, "special"
	case k == 4 || k == 5:
		v := anyValue(rt, 4)
		if k == 5 {
			v = likeLock(rt)
		}

		switch format {
		case "poetry.lock", "pdm.lock", "uv.lock", "pylock.toml", "Cargo.lock":
			return anyTOML(rt, v), nil, "other shape"
		case "pom.xml":
			return []byte("<project>" + anyXML(rt, 4) + "</project>"), nil, "other shape"
		case "requirements.txt", "yarn.lock", "Gemfile.lock", "go.mod", "mix.lock", "gradle.lockfile", "buildscript-gradle.lockfile", "csv-file":
			return anyLines(rt), nil, "other shape"
		}

		return jsonStyle{indent: "", colon: ":"}.of(v), nil, "other shape"
	}

	g := pick(rt, "generator", lockGens[format])(rt)

	return mutate(rt, g.Content), g.Extra, "mutated"
}

func TestC27(t *testing.T) {
	CheckDirect(t, "direct", 2500, func(rt *rapid.T, c *Case) {
		format := pick(rt, "format", hostileFormats)
		content, extra, kind := genHostile(rt, format)
		name := format

		if format == "csv-file" {
			name = "p.csv"
		}

		p := c.Dir() + "/d/" + name
		mustWrite(p, content)

		for _, f := range extra {
			mustWrite(c.Dir()+"/d/"+f.Name, f.Content)
		}

		Journal("%s: %q", format, content)

		as := ""
		if format == "csv-file" {
			as = format
		}

		pkgs, _, err := directParse(p, as)

		if err != nil && err.Error() == "" {
			rt.Fatalf("an error without a message for %q", content)
		}

		c.Nontrivial(len(content) > 0)
		c.Label(err != nil, "error")
		c.Label(err == nil && len(pkgs) > 0, "packages")
		c.Label(true, kind)
		c.Label(true, format)
		c.Key(format, string(content))
		c.Sample(map[string]any{"format": format, "content": fmt.Sprintf("%q", content)})
	})

	Check(t, "scan", 100, func(rt *rapid.T, c *Case) {
		w := newWorkdir(c)
		advs := []Advisory{}

		type target struct {
			arg  string
			good bool
			pkg  Pkg
			id   string
		}

		targets := []target{}
		key := []any{}

		for i := range intIn(rt, "files", 2, 8) {
			format := pick(rt, "format", hostileFormats)
			name := format

			if format == "csv-file" {
				name = "p.csv"
			}

			file := fmt.Sprintf("f%d/%s", i, name)
			tg := target{arg: file, good: chance(rt, "good", 40)}

			if format == "csv-file" {
				tg.arg = "csv-file:" + file
			}

			if tg.good {
				n := fmt.Sprintf("good%d", i)
				content, p := minimalLock(format, n)
				tg.pkg, tg.id = p, "OSV-"+n
				advs = append(advs, Advisory{ID: tg.id, Affected: []Affected{matchEverything(p.Ecosystem, p.Name)}})

				mustWrite(w.path(file), content)
			} else {
				content, extra, _ := genHostile(rt, format)
				mustWrite(w.path(file), content)

				for _, f := range extra {
					if !strings.HasPrefix(f.Name, "..") {
						mustWrite(w.path(fmt.Sprintf("f%d", i), f.Name), f.Content)
					}
				}

				key = append(key, format, string(content))
			}

			targets = append(targets, tg)
		}

		if len(advs) == 0 {
			advs = append(advs, Advisory{ID: "OSV-unused", Affected: []Affected{matchEverything("npm", "unused")}})
		}

		w.addDB("db", "dir", advs)

		args := []string{"--json", "--use-dbs=false", "--config", w.writeConfig("conf.yml")}
		good := 0

		for _, tg := range targets {
			args = append(args, tg.arg)

			if tg.good {
				good++
			}
		}

		out := w.run(args...)
		if out.Crashed() || out.Code != 0 && out.Code != 1 && out.Code != 127 {
			rt.Fatalf("unexpected end: %s\nfiles: %q", show(out), key)
		}

		if good > 0 && out.Code == 0 {
			rt.Fatalf("the exit code has to tell about the findings: %s", show(out))
		}

		res := parseResults(rt, out)
		failed := 0

		for _, tg := range targets {
			file := strings.TrimPrefix(tg.arg, "csv-file:")

			if len(res) == 0 || !strings.HasSuffix(res[0].FilePath, file) {
				if tg.good {
					rt.Fatalf("no result for %s: %s\nfiles: %q", tg.arg, show(out), key)
				}

				failed++

				continue
			}

			if tg.good {
				if len(res[0].Packages) != 1 || res[0].Packages[0].pkg() != tg.pkg || strings.Join(idsOf(res[0].Packages[0].Vulnerabilities), " ") != tg.id {
					rt.Fatalf("unexpected result for %s: %+v", tg.arg, res[0])
				}
			}

			res = res[1:]
		}

		if len(res) > 0 {
			rt.Fatalf("unexpected results %+v: %s", res, show(out))
		}

		if n := strings.Count("\n"+out.Stderr, "\nError, "); n < failed {
			rt.Fatalf("%d files are neither reported as packages nor as errors: %s\nfiles: %q", failed-n, show(out), key)
		}

		if failed > 0 != (out.Code == 127) {
			rt.Fatalf("%d files failed: %s", failed, show(out))
		}

		c.Nontrivial(len(targets) > good)
		c.Label(failed > 0 && good > 0, "failed and good files")
		c.Label(len(targets)-good > failed && good > 0, "hostile but parsed files and good files")
		c.Key(key...)
		c.Sample(map[string]any{"args": args, "files": fmt.Sprintf("%q", key)})
	})
}
