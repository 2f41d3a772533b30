package wwcheck

import (
	"runtime/debug"
	"strings"
	"syscall"
)

// rom is memory that can only be read while code under test works on it. The callers of the library keep sharing what
// they pass to it, so that it mustn't be written to, not even temporarily
var rom []byte

const romSize = 1 << 20

// romLoad returns copies of the given slices residing in read-only memory. These are valid until the next call.
// Those which don't fit are returned as they are
func romLoad(parts ...[]byte) (l [][]byte) {
	if rom == nil {
		m, err := syscall.Mmap(-1, 0, romSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return parts
		}
		rom = m
	}
	romUnlock()
	n := 0
	for _, p := range parts {
		if p == nil || n+len(p)+64 > romSize {
			l = append(l, p)
			continue
		}
		c := copy(rom[n:], p)
		// There's room behind it
		l = append(l, rom[n:n+c:n+c+32])
		n += c + 64
	}
	syscall.Mprotect(rom[:(n+4095)&^4095], syscall.PROT_READ)
	return
}

func romUnlock() {
	if rom != nil {
		syscall.Mprotect(rom, syscall.PROT_READ|syscall.PROT_WRITE)
	}
}

// romGuard fails the case if the given function writes to read-only memory
func romGuard(c *Ctx, what string, f func()) {
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && strings.Contains(e.Error(), "invalid memory address") || ok && strings.Contains(e.Error(), "fault") {
				if _, ok := r.(interface{ Addr() uintptr }); ok {
					c.Failf("%s writes to what was passed by the caller", what)
				}
			}
			panic(r)
		}
	}()
	f()
}
