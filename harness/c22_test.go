package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func genMavenVersion(rt *rapid.T) string {
	v := fmt.Sprintf("%d.%d", uniform(rt, "major", 6), uniform(rt, "minor", 12))
	if chance(rt, "patch", 60) {
		v += fmt.Sprintf(".%d", uniform(rt, "patch", 20))
	}

	if chance(rt, "suffix", 40) {
		v += pick(rt, "suffix", []string{"-SNAPSHOT", ".RELEASE", "-rc-1", ".Final", "-alpha", "-jre", "-b01", "_1", "+1", ".v2023"})
	}

	return v
}

func genArtifact(rt *rapid.T) (string, string) {
	return nameOr(rt, "group", []string{"org.x", "com.example.a-b", "junit", "io.netty", "org.springframework.boot", "g", "version", "org.x.y"}, ".-_", true),
		nameOr(rt, "artifact", []string{"foo", "bar-baz", "core_2.13", "a", "artifactId", "spring-web", "x.y"}, ".-_", true) + pick(rt, "number", []string{"", "", "1", "2", "3"})
}

// mavenProps are properties and how they resolve.
type mavenProps struct {
	names []string
	raw   map[string]string
	value map[string]string // only those that can be resolved
}

func genMavenProps(rt *rapid.T) mavenProps {
	ps := mavenProps{raw: map[string]string{}, value: map[string]string{}}
	names := subsetOf(rt, "properties", []string{"x.version", "a", "b-c", "spring_version", "javaVersion", "version.x", "e", "x", "org.x.version", "n1"}, 0, 7)

	for _, n := range names {
		switch k := uniform(rt, "property kind", 12); {
		case k >= 9 && len(ps.names) > 0:
			// refers to an earlier one
			o := pick(rt, "other property", ps.names)
			pre, post := pick(rt, "prefix", []string{"", "", "1."}), pick(rt, "suffix", []string{"", "", ".RELEASE"})
			ps.raw[n] = pre + "${" + o + "}" + post

			if v, ok := ps.value[o]; ok && !strings.ContainsAny(v, "[(") {
				ps.value[n] = pre + v + post
			} else if ok && pre == "" && post == "" {
				ps.value[n] = v
			} else if ok {
				ps.raw[n] = "${" + o + "}"
				ps.value[n] = v
			}
		case k == 8:
			ps.raw[n] = pick(rt, "unresolvable", []string{"${missing}", "${" + n + "}", "${project.version}", "1.${revision}"})
		case k == 7:
			v := genMavenVersion(rt)
			ps.value[n] = pick(rt, "range", []string{"[" + v + ",99.0)", "[" + v + "]", "(,99.0]"})
			ps.raw[n] = ps.value[n]
		default:
			ps.value[n] = genMavenVersion(rt)
			ps.raw[n] = ps.value[n]
		}

		ps.names = append(ps.names, n)
	}

	return ps
}

// lowerBound is the lower bound of the range, as it is written by the generators.
func lowerBound(v string) string {
	if v == "" {
		return "0"
	}

	if v[0] == '[' || v[0] == '(' {
		v = v[1:]
	}

	if i := strings.IndexAny(v, ",])"); i >= 0 {
		v = v[:i]
	}

	if v == "" {
		return "0"
	}

	return v
}

// version draws the text of a version and what it stands for.
func (ps mavenProps) version(rt *rapid.T, g *Gen) (string, string) {
	v := genMavenVersion(rt)

	switch uniform(rt, "version kind", 10) {
	default:
		return v, v
	case 4, 5, 6:
		if len(ps.names) == 0 {
			return "${missing.version}", "0"
		}

		n := pick(rt, "property", ps.names)
		val, ok := ps.value[n]

		if !ok {
			g.label("unresolvable property")

			return "${" + n + "}", "0"
		}

		g.label("property")

		if ps.raw[n] != val {
			g.label("nested property")
		}

		if strings.ContainsAny(val, "[(") {
			g.label("range in a property")

			return "${" + n + "}", lowerBound(val)
		}

		switch uniform(rt, "use", 4) {
		default:
			return "${" + n + "}", val
		case 1:
			return "[${" + n + "},99)", val
		case 2:
			return "${" + n + "}-x", val + "-x"
		case 3:
			return "9.${" + n + "}", "9." + val
		}
	case 7, 8:
		g.label("range")

		return pick(rt, "range", []string{
			"[%s,2.0)", "(%s,2.0]", "[%s]", "[%s,)", "(%s,)", "[%s,1.5),(2.0,)", "[%s,%[1]s]", "[ %s , 2.0 )", "[%s, 2.0)",
		}), v
	case 9:
		if len(ps.names) > 0 && chance(rt, "prefixed", 15) {
			n := pick(rt, "property", ps.names)

			return pick(rt, "prefixed property", []string{"${project." + n + "}", "${pom." + n + "}", "${env." + n + "}", "${" + n + ".}", "${x." + n + "}", "${project.properties." + n + "}"}), "0"
		}

		return pick(rt, "no lower bound", []string{"(,1.0]", "( , 1.0]", "(,2.0),[3.0,4.0]", "${missing}", "${project.version}", "1.${missing}"}), "0"
	}
}

func genPom(rt *rapid.T) Gen {
	g := Gen{}
	ps := genMavenProps(rt)
	nl := pick(rt, "separator", []string{"\n", "\n  ", "", "\r\n\t"})

	comment := func() string {
		if chance(rt, "comment", 12) {
			return "<!-- <dependency><groupId>c</groupId><artifactId>d</artifactId><version>9.9.9</version></dependency> -->" + nl
		}

		return ""
	}

	spaced := chance(rt, "spaced values", 20)
	elem := func(name, content string) string {
		if spaced && chance(rt, "space around", 40) {
			content = pick(rt, "space before", []string{"", " ", "\n  ", "\t"}) + content + pick(rt, "space after", []string{"", " ", "\n", "\r\n\t"})
			g.label("space in elements")
		}

		return comment() + "<" + name + ">" + content + "</" + name + ">" + nl
	}

	dependency := func(group, artifact, version string) string {
		parts := []string{elem("groupId", group), elem("artifactId", artifact)}
		if version != "" {
			parts = append(parts, elem("version", version))
		}

		if chance(rt, "scope", 30) {
			parts = append(parts, elem("scope", pick(rt, "scope", []string{"test", "compile", "import", "provided", "system"})))
		}

		if chance(rt, "type", 15) {
			parts = append(parts, elem("type", "pom"), elem("classifier", "sources"), elem("optional", "true"))
		}

		if chance(rt, "exclusions", 20) {
			parts = append(parts, "<exclusions>"+nl+"<exclusion>"+elem("groupId", "excluded")+elem("artifactId", "*")+"</exclusion></exclusions>"+nl)
		}

		if chance(rt, "other order", 30) {
			parts = shuffled(rt, "parts", parts)
		}

		return comment() + "<dependency>" + nl + strings.Join(parts, "") + "</dependency>" + nl
	}

	text := func(t, v string) string {
		if strings.Contains(t, "%") {
			return fmt.Sprintf(t, v)
		}

		return t
	}

	managed := map[string]string{}
	declared := map[string]string{}

	var managedXML, declaredXML strings.Builder

	for range count(rt, "managed", 0, 6) {
		gr, ar := genArtifact(rt)
		if _, ok := managed[gr+":"+ar]; ok {
			continue
		}

		t, v := ps.version(rt, &g)
		if chance(rt, "no managed version", 12) {
			t, v = "", "0"

			g.label("managed without version")
		}

		managed[gr+":"+ar] = v
		managedXML.WriteString(dependency(gr, ar, text(t, v)))
	}

	for range count(rt, "dependencies", 0, 8) {
		gr, ar := genArtifact(rt)
		if len(managed) > 0 && chance(rt, "managed", 30) {
			gr, ar, _ = strings.Cut(pick(rt, "managed", sortedKeys(managed)), ":")
		}

		name := gr + ":" + ar
		if _, ok := declared[name]; ok {
			continue
		}

		t, v := ps.version(rt, &g)

		if chance(rt, "no version", 25) {
			t, v = "", "0"

			if m, ok := managed[name]; ok {
				v = m

				g.label("managed version")
			}
		} else if _, ok := managed[name]; ok {
			g.label("own version of a managed dependency")
		}

		declared[name] = v
		declaredXML.WriteString(dependency(gr, ar, text(t, v)))
	}

	for n, v := range managed {
		if _, ok := declared[n]; !ok {
			g.add(Pkg{Name: n, Version: v})
		}
	}

	for n, v := range declared {
		g.add(Pkg{Name: n, Version: v})
	}

	var props strings.Builder
	for _, n := range shuffled(rt, "order of properties", ps.names) {
		if chance(rt, "overridden property", 8) {
			props.WriteString(elem(n, genMavenVersion(rt)))
			g.label("property given twice")
		}

		props.WriteString(elem(n, ps.raw[n]))
	}

	other := "<dependencies><dependency><groupId>p</groupId><artifactId>plugin-dep</artifactId><version>9.9.9</version></dependency></dependencies>"
	sections := []string{elem("modelVersion", "4.0.0"), elem("groupId", "my.group"), elem("artifactId", "my-app"), elem("version", "5.5.5")}

	if props.Len() > 0 || chance(rt, "empty", 20) {
		sections = append(sections, elem("properties", nl+props.String()))
	}

	if declaredXML.Len() > 0 || chance(rt, "empty", 50) {
		sections = append(sections, elem("dependencies", nl+declaredXML.String()))
	}

	if managedXML.Len() > 0 || chance(rt, "empty", 20) {
		sections = append(sections, elem("dependencyManagement", nl+elem("dependencies", nl+managedXML.String())))
	}

	if chance(rt, "parent", 30) {
		sections = append(sections, elem("parent", elem("groupId", "parent")+elem("artifactId", "parent")+elem("version", "1.0")))
	}

	if chance(rt, "plugins", 30) {
		sections = append(sections, elem("build", elem("plugins", elem("plugin", elem("groupId", "p")+elem("artifactId", "q")+elem("version", "3.0")+other))))
	}

	if chance(rt, "other order", 40) {
		sections = shuffled(rt, "sections", sections)
	}

	g.text(pick(rt, "prolog", []string{"", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- x -->\n"}))
	g.text(pick(rt, "project", []string{
		"<project>", `<project xmlns="http://maven.apache.org/POM/4.0.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="http://maven.apache.org/POM/4.0.0 http://maven.apache.org/xsd/maven-4.0.0.xsd">`,
	}) + nl + strings.Join(sections, "") + "</project>\n")
	g.eco("Maven")

	return g
}

func genGradle(rt *rapid.T) Gen {
	g := Gen{}
	lines := []string{}

	if chance(rt, "header", 80) {
		lines = append(lines, "# This is a Gradle generated file for dependency locking.", "# Manual edits can break the build and are not advised.")
	}

	seen := map[Pkg]bool{}

	for range count(rt, "lines", 0, 12) {
		gr, ar := genArtifact(rt)
		p := Pkg{Name: gr + ":" + ar, Version: genMavenVersion(rt)}

		if seen[p] {
			continue
		}

		seen[p] = true
		l := p.Name + ":" + p.Version + "=" + strings.Join(sliceFrom(rt, "configurations", []string{"classpath", "compileClasspath", "testRuntimeClasspath", "a=b", "x:y:z"}, 1, 3), ",")

		if chance(rt, "indented", 5) {
			l = "  " + l + " "
		}

		lines = append(lines, l)
		g.add(p)

		if chance(rt, "comment", 10) {
			lines = append(lines, pick(rt, "comment", []string{"# a:b:1.0=c", "#", "  # x:y:1.0=z", "empty=a:b:c"}))
		}
	}

	if chance(rt, "empty", 80) {
		lines = append(lines, "empty="+pick(rt, "empty", []string{"", "annotationProcessor", "a,b,c", "x:y:1.0"}))
	}

	g.Content = genYarnLines(rt, lines)
	g.eco("Maven")

	return g
}

func TestC22(t *testing.T) {
	checkParser(t, "pom", "pom.xml", 600, 15, genPom)
	checkParser(t, "gradle", "gradle.lockfile", 200, 6, genGradle)
	checkParser(t, "buildscript-gradle", "buildscript-gradle.lockfile", 100, 5, genGradle)
}
