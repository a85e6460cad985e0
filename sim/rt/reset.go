package rt

// Variables of the packages under test. A simulated process starts with them as a real one does.

type resetter struct {
	pkg string
	f   func() func()
}

var (
	resetters []resetter
	noReset   bool
)

// OnReset registers a function that returns a package's variables to their initial values and gives the way
// back. Packages register in the order in which Go initialises them.
func OnReset(pkg string, f func() func()) { resetters = append(resetters, resetter{pkg, f}) }

// Fresh gives the packages under test the variables of a process that has just started. The function it
// returns brings back those it found.
func Fresh() (back func()) {
	var undo []func()
	back = func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
	if noReset {
		return back
	}
	defer func() {
		if recover() != nil {
			// Code that cannot be initialised twice is simulated in one long-lived process.
			noReset = true
			back()
		}
	}()
	for _, r := range resetters {
		undo = append(undo, r.f())
	}
	return back
}
