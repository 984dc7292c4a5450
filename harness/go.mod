module verifharness

go 1.24.6

require (
	github.com/BurntSushi/toml v1.5.0
	github.com/fatih/color v1.18.0
	github.com/gkampitakis/go-snaps v0.5.15
	github.com/google/go-cmp v0.7.0
	github.com/google/osv-scalibr v0.4.1-0.20251202121049-5e7e15f4a036
	github.com/tidwall/jsonc v0.3.2
	golang.org/x/mod v0.30.0
	golang.org/x/sync v0.17.0
	gopkg.in/yaml.v3 v3.0.1
)

require (
	github.com/gkampitakis/ciinfo v0.3.2 // indirect
	github.com/gkampitakis/go-diff v1.3.2 // indirect
	github.com/goccy/go-yaml v1.18.0 // indirect
	github.com/kr/pretty v0.3.1 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/maruel/natural v1.1.1 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/rogpeppe/go-internal v1.13.1 // indirect
	github.com/tidwall/gjson v1.18.0 // indirect
	github.com/tidwall/match v1.1.1 // indirect
	github.com/tidwall/pretty v1.2.1 // indirect
	github.com/tidwall/sjson v1.2.5 // indirect
	golang.org/x/sys v0.35.0 // indirect
)

require (
	github.com/g-rath/osv-detector v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/g-rath/osv-detector => /repo
