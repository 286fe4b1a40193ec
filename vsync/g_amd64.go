package zz_vsync

// G identifies the calling goroutine while it lives
func G() uintptr
