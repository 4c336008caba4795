// Code generated by tools/gen.py. DO NOT EDIT.

package cmds

// Fns holds the harness functions by name.
var Fns = map[string]func(){
	"C24_any":     C24_any,
	"C24_forms":   C24_forms,
	"C24_up":      C24_up,
	"C25_each":    C25_each,
	"C25_fault":   C25_fault,
	"C25_files":   C25_files,
	"C25_gaps":    C25_gaps,
	"C25_large":   C25_large,
	"C25_names":   C25_names,
	"C25_times":   C25_times,
	"C25_two":     C25_two,
	"C26_fail":    C26_fail,
	"C26_gaps":    C26_gaps,
	"C26_large":   C26_large,
	"C26_pack":    C26_pack,
	"C26_places":  C26_places,
	"C26_self":    C26_self,
	"C26_tags":    C26_tags,
	"C26_types":   C26_types,
	"C34_build":   C34_build,
	"C34_twice":   C34_twice,
	"C34_ways":    C34_ways,
	"C35_tools":   C35_tools,
	"C37_extract": C37_extract,
	"C37_pack":    C37_pack,
}
