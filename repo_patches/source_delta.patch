From 06e1968c7b9a1e5b241d570c6149aa5006572836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:57 +0000
Subject: [PATCH 01/34] fix: don't let a GIT range hide the version ranges that
 come after it

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From f6f8d27d13b1fb0b147eb07948bfa4bbd5473776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:16 +0000
Subject: [PATCH 02/34] fix: find advisories for packages whose ecosystem has a
 suffix

---
 pkg/database/mem-check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..dc8b371 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,7 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	hash := string(Package{Ecosystem: pkg.Ecosystem}.NormalizedEcosystem()) + "-" + pkg.Name
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
-- 
2.43.0


From b0ef1709f02b0b9b42b33488e05535b3e2cc0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:18 +0000
Subject: [PATCH 03/34] fix: normalize the names of PyPI packages when matching
 them with advisories

---
 main.go                   | 3 ++-
 pkg/database/mem-check.go | 3 ++-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..eb0d0fb 100644
--- a/main.go
+++ b/main.go
@@ -600,7 +600,8 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+			pkgSet[name] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index dc8b371..ee56953 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(Package{Ecosystem: pkg.Ecosystem}.NormalizedEcosystem()) + "-" + pkg.Name
+	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..7a38c93 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -282,9 +282,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	pkgName := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == pkgName {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From 0a2f772e9378272704f1d1ba06b1fe1f95f99e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:52 +0000
Subject: [PATCH 04/34] fix: don't panic on versions and ecosystems that cannot
 be compared

---
 pkg/database/osv.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 7a38c93..6f20353 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -93,7 +93,21 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	// if we can't compare the version then we can't tell if it is in the range,
+	// so assume that it is as a false positive is better than a false negative
+	if err != nil {
+		_, _ = fmt.Fprintf(
+			os.Stderr,
+			"could not compare version %s of %s, so assuming it is affected: %v\n",
+			pkg.Version,
+			pkg.Name,
+			err,
+		)
+
+		return true
+	}
 
 	sort.Slice(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
@@ -107,8 +121,14 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 			return false
 		}
 
+		va, err := semantic.Parse(a.version(), string(pkg.CompareAs))
+
+		if err != nil {
+			return false
+		}
+
 		// Ignore errors as we assume the version is correct
-		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
+		order, _ := va.CompareStr(b.version())
 
 		return order < 0
 	})
@@ -297,15 +317,15 @@ func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
 				continue
 			}
 
-			if slices.Contains(affected.Versions, pkg.Version) {
+			if pkg.Version == "" {
 				return true
 			}
 
-			if affected.Ranges.affectsVersion(pkg) {
+			if slices.Contains(affected.Versions, pkg.Version) {
 				return true
 			}
 
-			if pkg.Version == "" {
+			if affected.Ranges.affectsVersion(pkg) {
 				return true
 			}
 		}
-- 
2.43.0


From 9864b0e8d811077c44569e23a55d9c499c5a7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:30 +0000
Subject: [PATCH 05/34] fix: don't panic on JSON lockfiles that are just null

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From eb992e29d76a5d545b83fe612bad24516faf8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:32 +0000
Subject: [PATCH 06/34] fix: don't panic on empty package tuples in bun.lock

---
 pkg/lockfile/parse-bun-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
-- 
2.43.0


From 5b1c2e5c3be770e28a5363f676743d080abd0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 07/34] fix: don't panic on aliases without a version in
 package-lock.json

---
 pkg/lockfile/parse-npm-lock.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..c181e9c 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -67,10 +67,15 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			finalVersion = ""
 		} else {
 			// use the name of the underlying package rather than the alias
-			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+			if alias, ok := strings.CutPrefix(detail.Version, "npm:"); ok {
+				name = alias
+				finalVersion = ""
+
+				// the first character can only be the "@" of a scope
+				if i := strings.LastIndex(alias, "@"); i > 0 {
+					name = alias[:i]
+					finalVersion = alias[i+1:]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From 2bf5576e43c3b42a10fb4d360f9cfbfabc699b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:37 +0000
Subject: [PATCH 08/34] fix: don't panic on incomplete scoped package paths in
 pnpm-lock.yaml

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..a512b2e 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -98,6 +98,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From e45bbd155c638b3667560a0c066402a02e5344ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 09/34] fix: don't panic on versions without an operator in
 Pipfile.lock

---
 pkg/lockfile/parse-pipenv-lock.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..68358d3 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -35,7 +35,8 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := make(map[string]PackageDetails)
 
 	for name, pipenvPackage := range parsedLockfile.Packages {
-		if pipenvPackage.Version == "" {
+		// versions are always prefixed with a two character operator
+		if len(pipenvPackage.Version) < 2 {
 			continue
 		}
 
@@ -50,7 +51,8 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 	}
 
 	for name, pipenvPackage := range parsedLockfile.PackagesDev {
-		if pipenvPackage.Version == "" {
+		// versions are always prefixed with a two character operator
+		if len(pipenvPackage.Version) < 2 {
 			continue
 		}
 
-- 
2.43.0


From bdaef9aaad74621612ead5ad601170be202608c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:08 +0000
Subject: [PATCH 10/34] fix: don't skip packages with scoped peer dependencies
 in v6 pnpm-lock.yaml

---
 pkg/lockfile/parse-pnpm-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index a512b2e..44f96bc 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,11 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end of the path in
+	// parentheses and can have a scope, so they must not be treated as being
+	// parts of the path
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
-- 
2.43.0


From 5d77206daa44429541d79410a8c825ebd1fa74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:51 +0000
Subject: [PATCH 11/34] fix: support markers and all version specifiers in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 51 ++++++++++++++------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..aa788f2 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,22 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
+	// environment markers and per-requirement options are not part of the specifiers
+	line, _, _ = strings.Cut(line, ";")
+	line, _, _ = strings.Cut(line, " --")
 
+	name := line
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
-
-	if strings.Contains(line, ">=") {
-		constraint = ">="
-	}
-
-	if strings.Contains(line, "~=") {
-		constraint = "~="
-	}
-
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
+	if i := strings.IndexAny(line, "=<>~!"); i != -1 {
+		name = line[:i]
 
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
+		for specifier := range strings.SplitSeq(line[i:], ",") {
+			if lowest := lowestVersion(specifier); lowest != "" {
+				version = lowest
 
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+				break
+			}
 		}
 	}
 
@@ -54,6 +43,22 @@ func parseLine(line string) PackageDetails {
 	}
 }
 
+// lowestVersion returns the lowest version that satisfies the given specifier,
+// or an empty string if the specifier does not have a lower bound
+func lowestVersion(specifier string) string {
+	specifier = strings.TrimSpace(specifier)
+
+	for _, operator := range []string{"===", "==", ">=", "~=", ">"} {
+		if version, ok := strings.CutPrefix(specifier, operator); ok {
+			version, _, _ = strings.Cut(strings.TrimSpace(version), " ")
+
+			return version
+		}
+	}
+
+	return ""
+}
+
 // normalizedName ensures that the package name is normalized per PEP-0503
 // and then removing "added support" syntax if present.
 //
@@ -71,7 +76,7 @@ func normalizedRequirementName(name string) string {
 	name = strings.ToLower(name)
 	name, _, _ = strings.Cut(name, "[")
 
-	return name
+	return strings.TrimSpace(name)
 }
 
 func removeComments(line string) string {
-- 
2.43.0


From 6f9db04608e2f3d9e203d998f8506698053cbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:14 +0000
Subject: [PATCH 12/34] fix: only treat whole lines as section headers in
 Gemfile.lock

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From 735886cefbbaf17e822ef9691d7907cbf1fdb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 13/34] fix: apply at most one replacement to each module in
 go.mod

---
 pkg/lockfile/parse-go-lock.go | 70 +++++++++++++++--------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..c5e3489 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -6,18 +6,37 @@ import (
 	"strings"
 
 	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 )
 
 const GoEcosystem Ecosystem = "Go"
 
-func deduplicatePackages(packages map[string]PackageDetails) map[string]PackageDetails {
-	details := map[string]PackageDetails{}
+// applyReplacements returns the module that should be used in place of the given
+// module, based on the given replace directives.
+//
+// Replacements are never themselves replaced, and directives for a specific
+// version take precedence over those for all versions of a module.
+func applyReplacements(mod module.Version, replaces []*modfile.Replace) module.Version {
+	replacement := mod
+
+	for _, replace := range replaces {
+		if replace.Old.Path != mod.Path {
+			continue
+		}
+
+		// If a version is present on the left side of the arrow (=>),
+		// only that specific version of the module is replaced
+		if replace.Old.Version == mod.Version {
+			return replace.New
+		}
 
-	for _, detail := range packages {
-		details[detail.Name+"@"+detail.Version] = detail
+		// If the left version is omitted, all versions of the module are replaced.
+		if replace.Old.Version == "" {
+			replacement = replace.New
+		}
 	}
 
-	return details
+	return replacement
 }
 
 func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
@@ -36,44 +55,15 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := map[string]PackageDetails{}
 
 	for _, require := range parsedLockfile.Require {
-		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
-			Name:      require.Mod.Path,
-			Version:   strings.TrimPrefix(require.Mod.Version, "v"),
+		mod := applyReplacements(require.Mod, parsedLockfile.Replace)
+
+		packages[mod.Path+"@"+mod.Version] = PackageDetails{
+			Name:      mod.Path,
+			Version:   strings.TrimPrefix(mod.Version, "v"),
 			Ecosystem: GoEcosystem,
 			CompareAs: GoEcosystem,
 		}
 	}
 
-	for _, replace := range parsedLockfile.Replace {
-		var replacements []string
-
-		if replace.Old.Version == "" {
-			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
-				}
-			}
-		} else {
-			// If a version is present on the left side of the arrow (=>),
-			// only that specific version of the module is replaced
-			s := replace.Old.Path + "@" + replace.Old.Version
-
-			// A `replace` directive has no effect if the module version on the left side is not required.
-			if _, ok := packages[s]; ok {
-				replacements = []string{s}
-			}
-		}
-
-		for _, replacement := range replacements {
-			packages[replacement] = PackageDetails{
-				Name:      replace.New.Path,
-				Version:   strings.TrimPrefix(replace.New.Version, "v"),
-				Ecosystem: GoEcosystem,
-				CompareAs: GoEcosystem,
-			}
-		}
-	}
-
-	return pkgDetailsMapToSlice(deduplicatePackages(packages)), nil
+	return pkgDetailsMapToSlice(packages), nil
 }
-- 
2.43.0


From c2e8c61a2a28b70e1d7101bb68a15ffbf6f1c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 14/34] fix: don't use the cache of a database if it could not
 be parsed

---
 pkg/database/zip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..ff44b02 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// the cache might have been partially parsed, so make sure it is not used
+			cache = nil
 		}
 	}
 
-- 
2.43.0


From e28d4e5839ab16738c9fcdd6bd6ebe83c7fd2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:49 +0000
Subject: [PATCH 15/34] fix: don't panic when a host says an uncached database
 is not modified

---
 pkg/database/zip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index ff44b02..0a829b1 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -91,7 +91,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From a22619db9671bdfc7d471182f48f6a5c35336075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 16/34] fix: only load advisories within the working directory
 of zip databases

---
 pkg/database/zip.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 0a829b1..a9b8de0 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -169,6 +170,14 @@ func (db *ZipDB) loadZipFile(zipFile *zip.File, pkgNames []string) {
 	db.addVulnerability(osv, pkgNames)
 }
 
+// isInWorkingDirectory checks if the file with the given name is in the working
+// directory of the db, rather than in one whose name just has the same prefix
+func (db *ZipDB) isInWorkingDirectory(name string) bool {
+	dir := path.Clean("/" + db.WorkingDirectory)
+
+	return dir == "/" || strings.HasPrefix(path.Clean("/"+name), dir+"/")
+}
+
 // load fetches a zip archive of the OSV database and loads known vulnerabilities
 // from it (which are assumed to be in json files following the OSV spec).
 //
@@ -191,7 +200,7 @@ func (db *ZipDB) load(pkgNames []string) error {
 
 	// Read all the files from the zip archive
 	for _, zipFile := range zipReader.File {
-		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
+		if !db.isInWorkingDirectory(zipFile.Name) {
 			continue
 		}
 
-- 
2.43.0


From 0ff52ce74d9eb43090564df58ec2f3e47084c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 17/34] fix: list packages that only differ by commit in a
 stable order

---
 pkg/lockfile/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..110c297 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -136,6 +136,10 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 
 	sort.Slice(packages, func(i, j int) bool {
 		if packages[i].Name == packages[j].Name {
+			if packages[i].Version == packages[j].Version {
+				return packages[i].Commit < packages[j].Commit
+			}
+
 			return packages[i].Version < packages[j].Version
 		}
 
-- 
2.43.0


From 828993e2da9b53e8e88cc40e45ead7fc79c15b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:57 +0000
Subject: [PATCH 18/34] fix: don't truncate details in the middle of a
 character

---
 pkg/database/osv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 6f20353..a7d7015 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/g-rath/osv-detector/internal"
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
@@ -250,7 +251,7 @@ func truncate(str string, limit int) string {
 			// ideally we want to keep words whole when truncating,
 			// but if we can't find a space just truncate at the limit
 			if truncateAt == -1 {
-				truncateAt = limit
+				truncateAt = i + utf8.RuneLen(c)
 			}
 
 			return str[:truncateAt] + "..."
-- 
2.43.0


From 074e1e3a4de0049cb7a5b4685b9314fca38999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:59 +0000
Subject: [PATCH 19/34] fix: use the managed version of dependencies without a
 version in pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..d2684f6 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -130,6 +130,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// dependencies without a version use the version that is being managed
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From e6e4d736d1196c78d3a84bba19b477dd529aca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 20/34] fix: resolve all properties in the versions of pom.xml
 dependencies

---
 pkg/lockfile/parse-maven-lock.go | 44 +++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index d2684f6..573ce73 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -28,24 +29,37 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	version := mld.Version
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
-	}
+	// the values of properties can themselves reference other properties,
+	// so stop at some point in case any of them are recursive
+	for range 10 {
+		matches := interpolationReg.FindAllStringSubmatch(version, -1)
+
+		// no (more) interpolation, so just return the version as-is
+		if matches == nil {
+			return version
+		}
+
+		for _, match := range matches {
+			val, ok := lockfile.Properties.m[match[1]]
 
-	fmt.Fprintf(
-		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
-		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
-	)
+			if !ok {
+				fmt.Fprintf(
+					os.Stderr,
+					"Failed to resolve version of %s: property \"%s\" could not be found\n",
+					mld.GroupID+":"+mld.ArtifactID,
+					match[1],
+				)
+
+				return "0"
+			}
+
+			version = strings.Replace(version, match[0], val, 1)
+		}
+	}
 
 	return "0"
 }
-- 
2.43.0


From 77021b1f1dbcb87e7623113261e2b36e1fbf8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:03 +0000
Subject: [PATCH 21/34] fix: deduplicate aliased packages in v1
 package-lock.json

---
 pkg/lockfile/parse-npm-lock.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index c181e9c..eda557b 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -58,8 +58,7 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
 		}
 
-		version := detail.Version
-		finalVersion := version
+		finalVersion := detail.Version
 		commit := ""
 
 		// we can't resolve a version from a "file:" dependency
@@ -86,11 +85,10 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			// we also don't actually know what the "version" is, so blank it
 			if commit != "" {
 				finalVersion = ""
-				version = commit
 			}
 		}
 
-		details[name+"@"+version] = PackageDetails{
+		details[name+"@"+finalVersion+commit] = PackageDetails{
 			Name:      name,
 			Version:   finalVersion,
 			Ecosystem: NpmEcosystem,
-- 
2.43.0


From 024bbc81160d0e9c9e4e062bf37a683c8fd673e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 22/34] fix: don't share databases between lockfiles when not
 using a config

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index eb0d0fb..5f528ef 100644
--- a/main.go
+++ b/main.go
@@ -445,8 +445,8 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
+		} else {
+			// always copy the global config (even if it's empty) - otherwise all lockfiles
 			// will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
-- 
2.43.0


From fdabbf7bf4c54fdf43759219f552c94155f92536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:43 +0000
Subject: [PATCH 23/34] fix: check databases in the order of the config of each
 lockfile

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 5f528ef..1b31a38 100644
--- a/main.go
+++ b/main.go
@@ -118,8 +118,8 @@ func (dbs OSVDatabases) check(r *reporter.Reporter, lockf lockfile.Lockfile, ign
 func (dbs OSVDatabases) forConfigs(dbConfigs []database.Config) OSVDatabases {
 	specificDBs := make(OSVDatabases, 0)
 
-	for _, db := range dbs {
-		for _, dbConfig := range dbConfigs {
+	for _, dbConfig := range dbConfigs {
+		for _, db := range dbs {
 			if dbConfig.Identifier() == db.Identifier() {
 				specificDBs = append(specificDBs, db)
 			}
-- 
2.43.0


From b11b7e963e0969727e270e2c290aab045be04158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:28 +0000
Subject: [PATCH 24/34] fix: don't use config paths, database names and errors
 as format strings

---
 main.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 1b31a38..2a0bf2c 100644
--- a/main.go
+++ b/main.go
@@ -91,11 +91,11 @@ func (dbs OSVDatabases) check(r *reporter.Reporter, lockf lockfile.Lockfile, ign
 		results, err := db.Check(lockf.Packages)
 
 		if err != nil {
-			r.PrintErrorf("%s", color.RedString(fmt.Sprintf(
+			r.PrintErrorf("%s", color.RedString(
 				"  an api error occurred while trying to check the packages listed in %s: %v\n",
 				lockf.FilePath,
 				err,
-			)))
+			))
 
 			continue
 		}
@@ -679,7 +679,7 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 
 			r.PrintTextf(
 				"  Using config at %s (%s)\n",
-				color.MagentaString(config.FilePath),
+				color.MagentaString("%s", config.FilePath),
 				ignoresStr,
 			)
 		}
@@ -696,7 +696,7 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 
 			r.PrintTextf(
 				"  Using db %s%s\n",
-				color.HiCyanString(db.Name()),
+				color.HiCyanString("%s", db.Name()),
 				desc,
 			)
 		}
@@ -761,7 +761,7 @@ func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[str
 		if err == nil {
 			lines = append(lines, fmt.Sprintf(
 				"Updated %s with %d %s\n",
-				color.MagentaString(configPath),
+				color.MagentaString("%s", configPath),
 				len(vulns),
 				reporter.Form(len(vulns), "vulnerability", "vulnerabilities"),
 			))
-- 
2.43.0


From efbe015937bf122f5113c6759d0ce26e04aac090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:13 +0000
Subject: [PATCH 25/34] fix: don't reorder the events of reported advisories

---
 pkg/database/osv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index a7d7015..3f8d628 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -110,9 +110,12 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return true
 	}
 
-	sort.Slice(ar.Events, func(i, j int) bool {
-		a := ar.Events[i]
-		b := ar.Events[j]
+	// the events are shared with the advisory that gets reported, so must not be reordered
+	events := slices.Clone(ar.Events)
+
+	sort.Slice(events, func(i, j int) bool {
+		a := events[i]
+		b := events[j]
 
 		if a.Introduced == "0" {
 			return true
@@ -135,7 +138,7 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	})
 
 	var affected bool
-	for _, e := range ar.Events {
+	for _, e := range events {
 		if affected {
 			if e.Fixed != "" {
 				order, _ := vp.CompareStr(e.Fixed)
-- 
2.43.0


From 198be9898523e185d903db593c894358cc33eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:50 +0000
Subject: [PATCH 26/34] fix: update a config that is used through different
 paths with all its ignores

---
 main.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 2a0bf2c..41ed979 100644
--- a/main.go
+++ b/main.go
@@ -710,17 +710,27 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// then we need to capture the id of each osv from each file
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
-			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
-				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
+			configPath := config.FilePath
+
+			// lockfiles can use the same config through different paths, in which case
+			// the config should be updated once with the osvs of all those lockfiles
+			for p := range vulnsPerConfig {
+				if isSameFile(p, configPath) {
+					configPath = p
+				}
+			}
+
+			if _, ok := vulnsPerConfig[configPath]; !ok {
+				vulnsPerConfig[configPath] = make(map[string]struct{})
 			}
 
 			for _, pkg := range report.Packages {
 				for _, vul := range pkg.Vulnerabilities.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 
 				for _, vul := range pkg.Ignored.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 			}
 		}
@@ -741,6 +751,13 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	return exitCode
 }
 
+func isSameFile(pathA, pathB string) bool {
+	a, errA := os.Stat(pathA)
+	b, errB := os.Stat(pathB)
+
+	return errA == nil && errB == nil && os.SameFile(a, b)
+}
+
 func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
 	if len(vulnsPerConfig) != 0 {
 		r.PrintTextf("\n")
-- 
2.43.0


From 9b467b084f68d235e796c5606bec8bd0111c6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 27/34] fix: don't report urls in requirements.txt as packages

---
 pkg/lockfile/parse-requirements-txt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index aa788f2..670b7a3 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -20,6 +20,9 @@ func parseLine(line string) PackageDetails {
 	line, _, _ = strings.Cut(line, ";")
 	line, _, _ = strings.Cut(line, " --")
 
+	// direct references (e.g. "name @ https://...") do not have specifiers
+	line, _, _ = strings.Cut(line, "@")
+
 	name := line
 	version := "0.0.0"
 
@@ -89,9 +92,8 @@ func isNotRequirementLine(line string) bool {
 	return line == "" ||
 		// flags are not supported
 		strings.HasPrefix(line, "-") ||
-		// file urls
-		strings.HasPrefix(line, "https://") ||
-		strings.HasPrefix(line, "http://") ||
+		// urls are not supported, including those of version control systems
+		cachedregexp.MustCompile(`^[\w+.-]+:`).MatchString(line) ||
 		// file paths are not supported (relative or absolute)
 		strings.HasPrefix(line, ".") ||
 		strings.HasPrefix(line, "/")
-- 
2.43.0


From b2ac91da5c4717ed7db1e9687ac4f150c6286d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:46 +0000
Subject: [PATCH 28/34] fix: ignore the root workspace in yarn.lock regardless
 of its descriptors

---
 pkg/lockfile/parse-yarn-lock.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-yarn-lock.go b/pkg/lockfile/parse-yarn-lock.go
index ca96421..14c075f 100644
--- a/pkg/lockfile/parse-yarn-lock.go
+++ b/pkg/lockfile/parse-yarn-lock.go
@@ -149,6 +149,12 @@ func tryExtractCommit(resolution string) string {
 	return ""
 }
 
+func isYarnRootWorkspace(group []string) bool {
+	// the root workspace can have other descriptors after the one for its location
+	return strings.HasSuffix(group[0], "@workspace:.\":") ||
+		strings.HasSuffix(determineYarnPackageResolution(group), "@workspace:.")
+}
+
 func parsePackageGroup(group []string) PackageDetails {
 	name := extractYarnPackageName(group[0])
 	version := determineYarnPackageVersion(group)
@@ -189,7 +195,7 @@ func ParseYarnLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := make([]PackageDetails, 0, len(packageGroups))
 
 	for _, group := range packageGroups {
-		if group[0] == "__metadata:" || strings.HasSuffix(group[0], "@workspace:.\":") {
+		if group[0] == "__metadata:" || isYarnRootWorkspace(group) {
 			continue
 		}
 
-- 
2.43.0


From 64350d7f1bfdb25d8ad46c321afc5633ac7b8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 29/34] fix: don't skip packages with build metadata in v6
 pnpm-lock.yaml files

---
 pkg/lockfile/parse-pnpm-lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 44f96bc..1a9464a 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -137,7 +137,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 func parseNameAtVersion(value string) (name string, version string) {
 	// look for pattern "name@version", where name is allowed to contain zero or more "@"
-	matches := cachedregexp.MustCompile(`^(.+)@([\w.-]+)(?:\(|$)`).FindStringSubmatch(value)
+	matches := cachedregexp.MustCompile(`^(.+)@([\w.+-]+)(?:\(|$)`).FindStringSubmatch(value)
 
 	if len(matches) != 3 {
 		return name, ""
-- 
2.43.0


From deec07e22f8b6cad28bbcf760f762779079fef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:08 +0000
Subject: [PATCH 30/34] fix: ignore the root package in uv.lock when it is
 editable

---
 pkg/lockfile/parse-uv-lock.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-uv-lock.go b/pkg/lockfile/parse-uv-lock.go
index dbf7bbb..f549d92 100644
--- a/pkg/lockfile/parse-uv-lock.go
+++ b/pkg/lockfile/parse-uv-lock.go
@@ -9,8 +9,9 @@ import (
 )
 
 type UvLockPackageSource struct {
-	Virtual string `toml:"virtual"`
-	Git     string `toml:"git"`
+	Virtual  string `toml:"virtual"`
+	Editable string `toml:"editable"`
+	Git      string `toml:"git"`
 }
 
 type UvLockPackage struct {
@@ -53,7 +54,7 @@ func ParseUvLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	for _, lockPackage := range parsedLockfile.Packages {
 		// skip including the root "package", since its name and version are most likely arbitrary
-		if lockPackage.Source.Virtual == "." {
+		if lockPackage.Source.Virtual == "." || lockPackage.Source.Editable == "." {
 			continue
 		}
 
-- 
2.43.0


From 6e5f271e21ac08175d88c9138661e464faa9e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:46 +0000
Subject: [PATCH 31/34] fix: allow any amount of space after -r in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 670b7a3..8f7ab13 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -136,7 +136,7 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 		line = removeComments(line)
 
 		if ar, ok := strings.CutPrefix(line, "-r "); ok {
-			ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
+			ar = filepath.Join(filepath.Dir(pathToLockfile), strings.TrimSpace(ar))
 
 			if _, ok := requiredAlready[ar]; ok {
 				continue
-- 
2.43.0


From e06d2b3b421d2a25bd9e7d03d102a8387efcb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:14 +0000
Subject: [PATCH 32/34] fix: support parentheses around specifiers in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 8f7ab13..0146a1a 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -23,6 +23,9 @@ func parseLine(line string) PackageDetails {
 	// direct references (e.g. "name @ https://...") do not have specifiers
 	line, _, _ = strings.Cut(line, "@")
 
+	// specifiers can be wrapped with parentheses (e.g. "name (>=1.0,<2.0)")
+	line = strings.NewReplacer("(", "", ")", "").Replace(line)
+
 	name := line
 	version := "0.0.0"
 
-- 
2.43.0


From c9dd3c13a050bce35188b23ebda74b4079625657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:16 +0000
Subject: [PATCH 33/34] fix: support including requirements by absolute path

---
 pkg/lockfile/parse-requirements-txt.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 0146a1a..afb7122 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -139,7 +139,13 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 		line = removeComments(line)
 
 		if ar, ok := strings.CutPrefix(line, "-r "); ok {
-			ar = filepath.Join(filepath.Dir(pathToLockfile), strings.TrimSpace(ar))
+			ar = strings.TrimSpace(ar)
+
+			if filepath.IsAbs(ar) {
+				ar = filepath.Clean(ar)
+			} else {
+				ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
+			}
 
 			if _, ok := requiredAlready[ar]; ok {
 				continue
-- 
2.43.0


From d8ced95c7dbd7ccaaf8edd6f634333ef13076c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 34/34] fix: ignore whitespace around the values of elements in
 pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 573ce73..d61a6fa 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -21,17 +21,17 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 
 	results := versionRequirementReg.FindStringSubmatch(version)
 
-	if results == nil || results[1] == "" {
+	if results == nil || strings.TrimSpace(results[1]) == "" {
 		return "0"
 	}
 
-	return results[1]
+	return strings.TrimSpace(results[1])
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
 	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	version := mld.Version
+	version := strings.TrimSpace(mld.Version)
 
 	// the values of properties can themselves reference other properties,
 	// so stop at some point in case any of them are recursive
@@ -102,7 +102,7 @@ func (p *MavenLockProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 				return fmt.Errorf("%w", err)
 			}
 
-			p.m[tt.Name.Local] = s
+			p.m[tt.Name.Local] = strings.TrimSpace(s)
 
 		case xml.EndElement:
 			if tt.Name == start.Name {
@@ -130,7 +130,7 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	details := map[string]PackageDetails{}
 
 	for _, lockPackage := range parsedLockfile.ManagedDependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := strings.TrimSpace(lockPackage.GroupID) + ":" + strings.TrimSpace(lockPackage.ArtifactID)
 
 		details[finalName] = PackageDetails{
 			Name:      finalName,
@@ -142,10 +142,10 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	// standard dependencies take precedent over managed dependencies
 	for _, lockPackage := range parsedLockfile.Dependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := strings.TrimSpace(lockPackage.GroupID) + ":" + strings.TrimSpace(lockPackage.ArtifactID)
 
 		// dependencies without a version use the version that is being managed
-		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+		if _, ok := details[finalName]; ok && strings.TrimSpace(lockPackage.Version) == "" {
 			continue
 		}
 
-- 
2.43.0

