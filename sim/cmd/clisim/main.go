// Command clisim simulates the command-line tool. Package verifmain is the tool's package main; it exists in
// the build overlay only.
package main

import (
	"os"

	"github.com/unidoc/unitype/truecli/verifmain"

	"verifsim/driver"
	"verifsim/engine"
)

func main() {
	os.Exit(driver.Main(&driver.System{
		Gen: engine.Gen,
		Run: func(p *engine.Plan, verbose bool) *engine.Result {
			return engine.RunCLI(p, verbose, verifmain.VerifMain)
		},
		Props: []string{"C17", "C20"}, Chunk: 1, Quick: map[string]int{"C17": 24000, "C20": 15000}, Thorough: map[string]int{"C17": 500000, "C20": 300000},
		Real: []string{"github.com/unidoc/unitype/truecli (every statement, instrumented)", "github.com/unidoc/unitype (every statement, instrumented)", "github.com/spf13/cobra", "github.com/sirupsen/logrus", "golang.org/x/text"},
		Stub: []string{"process exit", "os and io/ioutil (disk with faults)", "log", "sync", "map iteration order", "time"},
	}))
}
