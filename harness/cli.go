package harness

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Out is what one run of the binary did.
type Out struct {
	Args   []string
	Code   int
	Stdout string
	Stderr string
}

// Crashed tells if the run ended in a way that is not a deliberate exit.
func (o Out) Crashed() bool {
	return o.Code < 0 || o.Code == 2 && (strings.Contains(o.Stderr, "goroutine ") || strings.Contains(o.Stderr, "panic:") || strings.Contains(o.Stderr, "fatal error:"))
}

// RunOpts are the surroundings of one run of the binary.
type RunOpts struct {
	Cwd    string
	TmpDir string
	Env    []string
	Net    *Net // nil: any network access goes to a dead proxy
}

// RunCLI runs the binary.
func RunCLI(c *Case, o RunOpts, args ...string) Out {
	c.runs.Add(1)

	ctx, cancel := context.WithTimeout(context.Background(), runLimit)
	defer cancel()

	cmd := exec.CommandContext(ctx, envBin, args...)
	cmd.Dir = o.Cwd

	proxy := "http://127.0.0.1:9"
	ca := "/dev/null"

	if o.Net != nil {
		proxy = o.Net.ProxyURL
		ca = o.Net.CAFile
	}

	cmd.Env = append([]string{
		"PATH=/usr/bin:/bin",
		"HOME=" + o.TmpDir,
		"TMPDIR=" + o.TmpDir,
		"NO_COLOR=1",
		"HTTP_PROXY=" + proxy,
		"HTTPS_PROXY=" + proxy,
		"SSL_CERT_FILE=" + ca,
		"SSL_CERT_DIR=/nonexistent",
		"GOMAXPROCS=2",
	}, o.Env...)

	var stdout, stderr bytes.Buffer

	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	cmd.WaitDelay = 5 * time.Second

	Journal("run (cwd %s): %q env %q", o.Cwd, args, o.Env)

	err := cmd.Run()
	out := Out{Args: args, Stdout: stdout.String(), Stderr: stderr.String()}

	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			out.Code = ee.ExitCode()

			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				if ctx.Err() != nil {
					out.Code = -2
					out.Stderr += "\n(the run did not end in time and was killed)"
				} else if ws.Signal() == syscall.SIGKILL {
					// most likely ended from outside, e.g. because memory ran out
					infra("the binary was killed")
				} else {
					out.Code = -1
				}
			}
		} else if ctx.Err() != nil {
			out.Code = -2
		} else {
			infra("could not run the binary: %v", err)
		}
	}

	if len(out.Stdout)+len(out.Stderr) < 4000 {
		Journal("exit %d\nstdout: %s\nstderr: %s", out.Code, out.Stdout, out.Stderr)
	}

	return out
}

func exists(p string) bool {
	_, err := os.Lstat(p)

	return err == nil
}
