// Package wwnoise is what the instrumented copies of webwire-go's sources call at each of their
// synchronisation points
package wwnoise

import "sync/atomic"

var hook atomic.Pointer[func(site string)]

// P is a synchronisation point, the hook may delay the calling goroutine
func P(site string) {
	if h := hook.Load(); h != nil {
		(*h)(site)
	}
}

// Set sets the hook, nil turns the points off
func Set(f func(site string)) {
	if f == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&f)
}
