package kit

import "github.com/vitelabs/go-vite/v2/zz_verif/explore"

// the explorer lives in its own package, which imports nothing of the code under test
type (
	C         = explore.C
	Scenario  = explore.Scenario
	Suite     = explore.Suite
	Violation = explore.Violation
)

var (
	Main        = explore.Main
	Asked       = explore.Asked
	Silence     = explore.Silence
	ScratchRoot = explore.ScratchRoot
	MkTemp      = explore.MkTemp
)
