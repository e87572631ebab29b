package shim

import (
	"fmt"
	"os"
	"strings"
)

// The instrumented command takes its map orders from VH_MAPDEV ("inst:alt,...") and logs the instances to VH_MAPLOG.

var envLog *os.File

func initEnvMaps() {
	f := os.Getenv("VH_MAPLOG")
	if f == "" {
		return
	}
	m := &MapRun{Dev: map[int]int{}}
	for _, p := range strings.Split(os.Getenv("VH_MAPDEV"), ",") {
		var a, b int
		if n, _ := fmt.Sscanf(p, "%d:%d", &a, &b); n == 2 {
			m.Dev[a] = b
		}
	}
	envLog, _ = os.Create(f)
	maps = m
}
