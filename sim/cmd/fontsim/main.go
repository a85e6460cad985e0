// Command fontsim simulates the font library.
package main

import (
	"os"

	"verifsim/driver"
	"verifsim/engine"
)

func main() {
	// About a minute each on 8 cores; the thorough tier mostly ends at its time limit.
	q := map[string]int{
		"C01": 9000, "C02": 15000, "C03": 16500, "C04": 5400, "C05": 14250, "C06": 21000, "C07": 240000, "C08": 54000,
		"C09": 7200, "C10": 18000, "C11": 5400, "C12": 60000, "C13": 24000, "C14": 180000, "C15": 10500, "C16": 19500,
		"C21": 24000,
	}
	t := map[string]int{}
	for _, p := range engine.Props {
		t[p] = q[p] * 13
	}
	os.Exit(driver.Main(&driver.System{
		Gen: engine.Gen, Run: engine.RunPlan, Props: engine.Props, Chunk: 250, Quick: q, Thorough: t,
		Real: []string{"github.com/unidoc/unitype (every statement, instrumented)", "github.com/unidoc/unitype/internal/strutils", "github.com/sirupsen/logrus", "golang.org/x/text"},
		Stub: []string{"goroutine scheduling", "sync", "os and io/ioutil (disk with faults, crashes, power loss)", "io.Reader/io.Seeker/io.Writer arguments", "map iteration order", "time", "math/rand and crypto/rand"},
	}))
}
