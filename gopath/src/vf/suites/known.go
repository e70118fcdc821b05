package suites

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"vf/h"
)

// knownFinding reports a defect that is listed as a known finding; if the
// committed file does not list it, it is a violation like any other.
func knownFinding(c *h.Ctx, suite, prop, id, what string) {
	root := os.Getenv("VERIF_ROOT")
	b, _ := ioutil.ReadFile(filepath.Join(root, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" id="+id+" ") {
			c.Known("property=" + prop + " " + what)
			return
		}
	}
	viol(c, suite, suite+"#"+id, []string{prop}, what)
}
