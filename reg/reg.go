// Package reg lists the harnesses of every property.
package reg

// H is one harness.
type H struct {
	Prop   string
	Pkg    string // core, lua, cmds
	Name   string
	Bounds [2]string // quick, thorough
	Reach  []string  // labels that must be reached
	// resource bounds, 0 for the default
	QuickS    int
	ThoroughS int
	SolverMS  int
	MaxSteps  int64
	Alloc     uint64
	Sched     bool
	Far       bool // writes sparse files of any size
	Thorough  bool // thorough tier only
}

// ByProp returns the harnesses of a property.
func ByProp(id string) (r []H) {
	for _, h := range All {
		if h.Prop == id {
			r = append(r, h)
		}
	}
	return
}
