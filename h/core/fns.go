// Code generated by tools/gen.py. DO NOT EDIT.

package core

// Fns holds the harness functions by name.
var Fns = map[string]func(){
	"C01_codec":       C01_codec,
	"C01_fragments":   C01_fragments,
	"C01_layout":      C01_layout,
	"C01_short":       C01_short,
	"C02_isready":     C02_isready,
	"C02_open":        C02_open,
	"C03_reject":      C03_reject,
	"C03_roundtrip":   C03_roundtrip,
	"C03_several":     C03_several,
	"C03_uintlen":     C03_uintlen,
	"C04_accessors":   C04_accessors,
	"C04_millis":      C04_millis,
	"C04_packfile":    C04_packfile,
	"C04_packforeign": C04_packforeign,
	"C04_several":     C04_several,
	"C04_time12":      C04_time12,
	"C04_time8":       C04_time8,
	"C05_big":         C05_big,
	"C05_lookup":      C05_lookup,
	"C05_pos":         C05_pos,
	"C05_walk":        C05_walk,
	"C06_big":         C06_big,
	"C06_copy":        C06_copy,
	"C06_edit":        C06_edit,
	"C06_iter":        C06_iter,
	"C06_many":        C06_many,
	"C06_two":         C06_two,
	"C07_big":         C07_big,
	"C07_sizes":       C07_sizes,
	"C07_table":       C07_table,
	"C08_cut":         C08_cut,
	"C08_entry":       C08_entry,
	"C08_header":      C08_header,
	"C08_info":        C08_info,
	"C08_inside":      C08_inside,
	"C08_repeat":      C08_repeat,
	"C08_stream":      C08_stream,
	"C08_table":       C08_table,
	"C08_two":         C08_two,
	"C09_again":       C09_again,
	"C09_count":       C09_count,
	"C09_many":        C09_many,
	"C09_pack":        C09_pack,
	"C09_source":      C09_source,
	"C10_append":      C10_append,
	"C10_edit":        C10_edit,
	"C10_failed":      C10_failed,
	"C10_layout":      C10_layout,
	"C10_long":        C10_long,
	"C11_extents":     C11_extents,
	"C12_exists":      C12_exists,
	"C12_new":         C12_new,
	"C13_dir":         C13_dir,
	"C13_many":        C13_many,
	"C13_names":       C13_names,
	"C13_tree":        C13_tree,
	"C14_drain":       C14_drain,
	"C14_during":      C14_during,
	"C14_filled":      C14_filled,
	"C14_large":       C14_large,
	"C14_ops":         C14_ops,
	"C14_range":       C14_range,
	"C15_again":       C15_again,
	"C15_limit":       C15_limit,
	"C15_open":        C15_open,
	"C15_readdir":     C15_readdir,
	"C15_tree":        C15_tree,
	"C15_walk":        C15_walk,
	"C16_again":       C16_again,
	"C16_change":      C16_change,
	"C16_deep":        C16_deep,
	"C16_nested":      C16_nested,
	"C16_odd":         C16_odd,
	"C16_root":        C16_root,
	"C16_view":        C16_view,
	"C17_again":       C17_again,
	"C17_broken":      C17_broken,
	"C17_empty":       C17_empty,
	"C17_keys":        C17_keys,
	"C17_large":       C17_large,
	"C17_list":        C17_list,
	"C17_lookup":      C17_lookup,
	"C17_many":        C17_many,
	"C17_pack":        C17_pack,
	"C17_sub":         C17_sub,
	"C18_big":         C18_big,
	"C18_bounds":      C18_bounds,
	"C18_far":         C18_far,
	"C18_missing":     C18_missing,
	"C18_reader":      C18_reader,
	"C18_twice":       C18_twice,
	"C19_again":       C19_again,
	"C19_cut":         C19_cut,
	"C19_disk":        C19_disk,
	"C19_fails":       C19_fails,
	"C19_huge":        C19_huge,
	"C19_large":       C19_large,
	"C19_pieces":      C19_pieces,
	"C19_slow":        C19_slow,
	"C20_again":       C20_again,
	"C20_append":      C20_append,
	"C20_begin":       C20_begin,
	"C20_create":      C20_create,
	"C20_large":       C20_large,
	"C20_split":       C20_split,
	"C20_table":       C20_table,
	"C21_frame":       C21_frame,
	"C21_kinds":       C21_kinds,
	"C21_large":       C21_large,
	"C21_pack":        C21_pack,
	"C21_read":        C21_read,
	"C21_short":       C21_short,
	"C21_two":         C21_two,
	"C21_write":       C21_write,
	"C22_case":        C22_case,
	"C22_ext":         C22_ext,
	"C22_join":        C22_join,
	"C22_key":         C22_key,
	"C22_long":        C22_long,
	"C22_name":        C22_name,
	"C23_any":         C23_any,
	"C23_long":        C23_long,
	"C23_name":        C23_name,
	"C23_parts":       C23_parts,
	"C31_again":       C31_again,
	"C31_pkg":         C31_pkg,
	"C31_tree":        C31_tree,
	"C31_union":       C31_union,
	"C31_view":        C31_view,
	"C32_agree":       C32_agree,
	"C32_any":         C32_any,
	"C32_cut":         C32_cut,
	"C32_large":       C32_large,
	"C35_bad":         C35_bad,
	"C35_open":        C35_open,
	"C35_union":       C35_union,
	"C36_codec":       C36_codec,
	"C36_entry":       C36_entry,
	"C36_file":        C36_file,
	"C36_head":        C36_head,
	"C36_missing":     C36_missing,
	"C36_pass":        C36_pass,
	"C36_read":        C36_read,
	"C36_write":       C36_write,
}
