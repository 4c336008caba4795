// Code generated by tools/gen.py. DO NOT EDIT.

package par

// Fns holds the harness functions by name.
var Fns = map[string]func(){
	"C30_any":   C30_any,
	"C30_any3":  C30_any3,
	"C30_many":  C30_many,
	"C30_map":   C30_map,
	"C30_map3":  C30_map3,
	"C30_pack":  C30_pack,
	"C30_range": C30_range,
	"C30_read":  C30_read,
}
