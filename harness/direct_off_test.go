//go:build !direct

package harness

import "errors"

const haveDirect = false

var errNoDirect = errors.New("not available")

func directAffected(_ []byte, _ []Pkg) ([]bool, error) { return nil, errNoDirect }

func directParse(_, _ string) ([]Pkg, string, error) { return nil, "", errNoDirect }
