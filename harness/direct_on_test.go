//go:build direct

package harness

import (
	"encoding/json"
	"fmt"

	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// haveDirect tells that the packages of the code under test can also be called in
// this process, which is much faster than running the binary. check.py builds
// the harness without this file if the packages' functions are not as expected.
const haveDirect = true

func toDetails(p Pkg) lockfile.PackageDetails {
	return lockfile.PackageDetails{
		Name:      p.Name,
		Version:   p.Version,
		Commit:    p.Commit,
		Ecosystem: lockfile.Ecosystem(p.Ecosystem),
		CompareAs: lockfile.Ecosystem(p.CompareAs),
	}
}

// directAffected tells for each package if the advisory affects it.
func directAffected(adv []byte, pkgs []Pkg) ([]bool, error) {
	var osv database.OSV

	if err := json.Unmarshal(adv, &osv); err != nil {
		return nil, fmt.Errorf("a valid advisory could not be decoded: %w", err)
	}

	out := make([]bool, 0, len(pkgs))
	for _, p := range pkgs {
		out = append(out, osv.IsAffected(toDetails(p)))
	}

	return out, nil
}

// directParse parses a lockfile.
func directParse(path, parseAs string) ([]Pkg, string, error) {
	var (
		l   lockfile.Lockfile
		err error
	)

	if parseAs == "csv-file" {
		l, err = lockfile.FromCSVFile(path, parseAs)
	} else {
		l, err = lockfile.Parse(path, parseAs)
	}

	if err != nil {
		return nil, "", err
	}

	out := make([]Pkg, 0, len(l.Packages))
	for _, p := range l.Packages {
		out = append(out, Pkg{Name: p.Name, Version: p.Version, Commit: p.Commit, Ecosystem: string(p.Ecosystem), CompareAs: string(p.CompareAs)})
	}

	return out, l.ParsedAs, nil
}
