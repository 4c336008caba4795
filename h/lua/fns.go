// Code generated by tools/gen.py. DO NOT EDIT.

package lua

// Fns holds the harness functions by name.
var Fns = map[string]func(){
	"C12_script": C12_script,
	"C13_script": C13_script,
	"C27_all":    C27_all,
	"C27_del":    C27_del,
	"C27_file":   C27_file,
	"C27_info":   C27_info,
	"C27_infos":  C27_infos,
	"C27_keys":   C27_keys,
	"C27_loaded": C27_loaded,
	"C27_many":   C27_many,
	"C27_set":    C27_set,
	"C27_tables": C27_tables,
	"C27_value":  C27_value,
	"C28_fid":    C28_fid,
	"C28_given":  C28_given,
	"C28_keys":   C28_keys,
	"C28_large":  C28_large,
	"C28_loaded": C28_loaded,
	"C28_mime":   C28_mime,
	"C28_sums":   C28_sums,
	"C29_deep":   C29_deep,
	"C29_parts":  C29_parts,
	"C29_steps":  C29_steps,
	"C33_dir":    C33_dir,
	"C33_disk":   C33_disk,
	"C33_env":    C33_env,
	"C33_glob":   C33_glob,
	"C33_hex":    C33_hex,
	"C33_huge":   C33_huge,
	"C33_path":   C33_path,
	"C33_props":  C33_props,
	"C33_query":  C33_query,
	"C33_string": C33_string,
	"C33_time":   C33_time,
	"C35_script": C35_script,
	"C36_script": C36_script,
}
