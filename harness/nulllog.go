package harness

import (
	"io"
	"log"
)

func nullLog() *log.Logger { return log.New(io.Discard, "", 0) }
