// Package specs holds the driver sources.
package specs

import (
	"embed"
	"strings"
)

//go:embed *.spec
var fs embed.FS

// Files gives the driver package as an overlay.
func Files(only ...string) map[string][]byte {
	es, _ := fs.ReadDir(".")
	out := map[string][]byte{}
	for _, e := range es {
		b, _ := fs.ReadFile(e.Name())
		n := strings.TrimSuffix(e.Name(), ".spec")
		keep := len(only) == 0
		for _, o := range only {
			if n == o {
				keep = true
			}
		}
		if keep {
			out[n+".go"] = b
		}
	}
	return out
}
