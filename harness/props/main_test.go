package props

import (
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"testing"
	"time"

	"verifharness/hx"
)

func TestMain(m *testing.M) {
	if h := os.Getenv("VERIF_HELPER"); h != "" {
		f := helpers[h]
		if f == nil {
			fmt.Println("HARNESS-ERROR: no helper", h)
			os.Exit(3)
		}
		f()
		os.Exit(0)
	}
	log.SetOutput(io.Discard)
	slog.SetDefault(hx.Quiet())
	debug.SetMaxStack(512 << 20)
	go watchMemory(10 << 30)
	code := m.Run()
	if err := hx.WriteAll(); err != nil {
		fmt.Println("HARNESS-ERROR: cannot write evidence:", err)
		code = 3
	}
	os.Exit(code)
}

// watchMemory ends the process when the code under test takes memory without end.
func watchMemory(limit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(sample)
		if sample[0].Value.Uint64()-sample[1].Value.Uint64() < limit {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for _, g := range strings.Split(string(buf), "\n\n") {
			first, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "danomagnum/gologix") && (strings.Contains(first, "[run") || strings.Contains(first, "[GC")) {
				fmt.Printf("\nfatal error: more than %d bytes of memory in use\n\n%s\n", limit, g)
				os.Exit(2)
			}
		}
		fmt.Printf("HARNESS-ERROR: more than %d bytes of memory in use\n%s\n", limit, buf)
		os.Exit(3)
	}
}

// helpers are run instead of the tests in helper processes, by the value of VERIF_HELPER.
var helpers = map[string]func(){}

const opLimit = 45 * time.Second

var shared hx.SharedPLC
