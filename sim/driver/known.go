package driver

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"

	"verifsim/engine"
)

// Known findings are lines of known-findings.txt:
//
//	fixed: property=<id> <commit> <what failed>          (suppresses nothing)
//	open: property=<id> class=<class> at=<text> :: <what fails>
//
// An open finding suppresses only violations of that property and class whose message contains the text.
type knownSet struct {
	open []knownFinding
}

type knownFinding struct {
	class, at, what string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) *knownSet {
	k := &knownSet{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return k
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "open: property="+prop+" class=")
		if !ok {
			continue
		}
		head, what, _ := strings.Cut(rest, " :: ")
		class, at, _ := strings.Cut(head, " at=")
		if class == "" || at == "" {
			continue
		}
		k.open = append(k.open, knownFinding{class, at, what})
	}
	return k
}

func (k *knownSet) filter(vs []engine.Violation) []engine.Violation {
	var out []engine.Violation
	for _, v := range vs {
		hit := false
		for _, f := range k.open {
			hit = hit || v.Class == f.class && strings.Contains(v.Msg, f.at)
		}
		if !hit {
			out = append(out, v)
		}
	}
	return out
}
