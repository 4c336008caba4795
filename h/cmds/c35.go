package cmds

import (
	"os"

	"verif/sym"
)

// C35_tools: the tools work with more files than can be open at once.
func C35_tools() {
	root := sym.Root()
	var files []file
	x := byte(0)
	if !sym.Bool("mime") {
		x = sym.Uint8("x")
	}
	for i := 0; i < 40; i++ {
		f := file{name: string([]byte{'a' + byte(i/10), '0' + byte(i%10)}), data: []byte{byte(i), x}}
		if i%4 == 0 {
			f.name = "d/" + f.name
		}
		files = append(files, f)
	}
	split := sym.Bool("split")
	if sym.Bool("pack") {
		mkdir(root + "/s/d")
		for _, f := range files {
			write(root+"/s/"+f.name, f.data)
		}
		args := []string{"-src=" + root + "/s", "-dst=" + root + "/p.wpk"}
		if split {
			args = append(args, "-split")
		}
		if x == 0 {
			args = append(args, "-mime")
		}
		sym.Assert(sym.CallLimited(16, "pack", args...) == 0, "packing goes well")
		pkg := open(root+"/p.wpk", split)
		sym.Assert(len(names(pkg)) == len(files), "all files are packed")
		must(pkg.Close(), "package is closed")
	} else {
		dst := root + "/dst"
		src := build(root+"/p.wpk", split, files...)
		args := []string{"-md", "-src=" + src, "-dst=" + dst, "-pm=" + modes[sym.IntRange("mode", 0, 2)]}
		sym.Assert(sym.CallLimited(16, "extract", args...) == 0, "extraction goes well")
		sym.Assert(len(names(os.DirFS(dst))) == len(files), "all files are extracted")
	}
	sym.Reach("end")
}
