package wwcheck

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/signal"
	"strings"
	"syscall"
	"time"
	"unsafe"

	wwr "github.com/qbeon/webwire-go"
)

// childMain is the main function of helper processes
func childMain(arg string) {
	f := strings.SplitN(arg, ";", 3)
	switch f[0] {
	case "keygen":
		gen := wwr.NewDefaultSessionKeyGenerator()
		for i := 0; i < 40; i++ {
			fmt.Println(gen.Generate())
		}
	case "store":
		storeChild(f[1], f[2])
	default:
		fmt.Fprintln(os.Stderr, "unknown child", arg)
		os.Exit(3)
	}
}

// storeChild performs operations of the default session manager until it's interrupted
func storeChild(dir, js string) {
	var k c23
	if err := json.Unmarshal([]byte(js), &k); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	m := wwr.NewDefaultSessionManager(dir)
	info := buildMap(k.Info)
	if k.Big > 0 {
		info["big"] = strings.Repeat("x", k.Big)
	}
	info["new"] = "yes"
	sess := &wwr.Session{Key: "s", Creation: time.Unix(2000, 0).UTC(), LastLookup: time.Unix(2000, 5).UTC(),
		Info: wwr.GenericSessionInfoParser(info)}
	if k.Mode == "limit" {
		if k.Ignore {
			signal.Ignore(syscall.SIGXFSZ)
		} else {
			// The Go runtime would ignore the signal, let it kill the process
			var dfl [64]byte
			if _, _, err := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ),
				uintptr(unsafe.Pointer(&dfl)), 0, 8, 0, 0); err != 0 {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k.Limit), Max: uint64(k.Limit)}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	os.NewFile(3, "ready").Write([]byte("r"))
	n := 1
	if k.Mode == "kill" {
		n = 1 << 30
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("operation panicked:", r)
		}
	}()
	for i := 0; i < n; i++ {
		var err error
		if k.Create {
			err = m.OnSessionCreated(connStub{sess: sess})
		} else {
			_, err = m.OnSessionLookup("s")
		}
		if n == 1 && err == nil {
			fmt.Println("operation succeeded")
		}
	}
	io.Copy(io.Discard, os.Stdin)
}
