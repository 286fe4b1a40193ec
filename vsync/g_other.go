//go:build !amd64

package zz_vsync

import (
	"bytes"
	"runtime"
	"strconv"
)

// G identifies the calling goroutine while it lives
func G() uintptr {
	var buf [40]byte
	f := buf[len("goroutine "):runtime.Stack(buf[:], false)]
	id := 0
	if i := bytes.IndexByte(f, ' '); i > 0 {
		id, _ = strconv.Atoi(string(f[:i]))
	}
	return uintptr(id)
}
