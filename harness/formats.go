package harness

import "fmt"

// allParsers are the parsers for files with a certain name.
var allParsers = []string{
	"bun.lock", "Cargo.lock", "composer.lock", "Gemfile.lock", "go.mod", "mix.lock", "package-lock.json", "packages.lock.json", "pdm.lock",
	"pnpm-lock.yaml", "poetry.lock", "pylock.toml", "Pipfile.lock", "pom.xml", "pubspec.lock", "renv.lock", "requirements.txt", "yarn.lock",
	"uv.lock", "gradle.lockfile", "buildscript-gradle.lockfile",
}

// minimalLock returns a lockfile with one package at version 1.2.3, and that package.
func minimalLock(format, name string) ([]byte, Pkg) {
	p := Pkg{Name: name, Version: "1.2.3"}
	f := func(eco, text string, a ...any) ([]byte, Pkg) {
		p.Ecosystem, p.CompareAs = eco, eco

		return []byte(fmt.Sprintf(text, a...)), p
	}

	switch format {
	case "bun.lock":
		return f("npm", `{"lockfileVersion": 0, "packages": {"%s": ["%s@1.2.3", "", {}, "sha512-x"],}}`, name, name)
	case "Cargo.lock":
		return f("crates.io", "version = 3\n\n[[package]]\nname = \"%s\"\nversion = \"1.2.3\"\n", name)
	case "composer.lock":
		return f("Packagist", `{"packages": [{"name": "%s", "version": "1.2.3"}], "packages-dev": []}`, name)
	case "Gemfile.lock":
		return f("RubyGems", "GEM\n  remote: https://rubygems.org/\n  specs:\n    %s (1.2.3)\n\nPLATFORMS\n  ruby\n", name)
	case "go.mod":
		p.Name = "example.com/" + name

		return f("Go", "module my/module\n\nrequire example.com/%s v1.2.3\n", name)
	case "mix.lock":
		return f("Hex", "%%{\n  \"%s\": {:hex, :%s, \"1.2.3\", \"\", [:mix], [], \"hexpm\", \"\"},\n}\n", name, name)
	case "package-lock.json":
		return f("npm", `{"lockfileVersion": 2, "packages": {"node_modules/%s": {"version": "1.2.3"}}}`, name)
	case "packages.lock.json":
		return f("NuGet", `{"version": 1, "dependencies": {"net6.0": {"%s": {"type": "Direct", "resolved": "1.2.3"}}}}`, name)
	case "pdm.lock", "poetry.lock", "uv.lock":
		return f("PyPI", "version = 1\n\n[[package]]\nname = \"%s\"\nversion = \"1.2.3\"\n", name)
	case "pylock.toml":
		return f("PyPI", "lock-version = \"1.0\"\n\n[[packages]]\nname = \"%s\"\nversion = \"1.2.3\"\n", name)
	case "pnpm-lock.yaml":
		return f("npm", "lockfileVersion: '6.0'\n\npackages:\n\n  /%s@1.2.3:\n    resolution: {integrity: sha512-x}\n    dev: false\n", name)
	case "Pipfile.lock":
		return f("PyPI", `{"default": {"%s": {"version": "==1.2.3"}}, "develop": {}}`, name)
	case "pom.xml":
		p.Name = "org.x:" + name

		return f("Maven", "<project><dependencies><dependency><groupId>org.x</groupId><artifactId>%s</artifactId><version>1.2.3</version></dependency></dependencies></project>", name)
	case "pubspec.lock":
		return f("Pub", "packages:\n  %s:\n    dependency: \"direct main\"\n    description:\n      name: %s\n      url: \"https://pub.dartlang.org\"\n    source: hosted\n    version: \"1.2.3\"\n", name, name)
	case "renv.lock":
		return f("CRAN", `{"R": {"Version": "4.1.0"}, "Packages": {"%s": {"Package": "%s", "Version": "1.2.3", "Source": "Repository", "Repository": "CRAN"}}}`, name, name)
	case "requirements.txt":
		return f("PyPI", "%s==1.2.3\n", name)
	case "yarn.lock":
		return f("npm", "# yarn lockfile v1\n\n\n%s@^1.0.0:\n  version \"1.2.3\"\n  resolved \"https://registry.yarnpkg.com/%s/-/%s-1.2.3.tgz#aa\"\n", name, name, name)
	case "gradle.lockfile", "buildscript-gradle.lockfile":
		p.Name = "org.x:" + name

		return f("Maven", "# a comment\norg.x:%s:1.2.3=classpath\nempty=\n", name)
	case "csv-file":
		return f("npm", "npm,,%s,1.2.3\n", name)
	}

	infra("no writer for %s", format)

	return nil, p
}
