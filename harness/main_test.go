package harness

import (
	"os"
	"strings"
	"testing"
)

func TestMain(m *testing.M) {
	if envScratch == "" {
		d, err := os.MkdirTemp("", "verif-harness-*")
		if err != nil {
			infra("scratch: %v", err)
		}

		envScratch = d
		defer os.RemoveAll(d)
	}

	// the coordinator of a fuzzing run reports its progress on standard error; the
	// workers, which run the code under test, do not
	fuzzing := false

	for _, a := range os.Args[1:] {
		if strings.HasPrefix(a, "-test.fuzz=") {
			fuzzing = true
		}

		if strings.HasPrefix(a, "-test.fuzzworker") {
			fuzzing = false

			break
		}
	}

	if fuzzing {
		os.Exit(m.Run())
	}

	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}

	directAvailable = haveDirect

	go watchdog()

	code := m.Run()

	stats.flush()
	os.Exit(code)
}
