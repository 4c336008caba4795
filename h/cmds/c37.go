package cmds

import (
	"os"

	"verif/sym"
)

// plain gives all files below a directory.
func plain(dir string) (res []entry) {
	for _, e := range list(dir, "") {
		if !e.dir {
			res = append(res, e)
		}
	}
	return
}

// near is a path that ends with a symbolic character, and whether it is the one of a given character.
func near(what, path string, of byte) (string, bool) {
	c := sym.Uint8(what)
	for _, no := range "\x00;$%/\\." {
		sym.Assume(c != byte(no))
	}
	return path + string([]byte{c}), c == of
}

// C37_extract: arguments of the tool for extraction.
func C37_extract() {
	root := sym.Root()
	dst := root + "/dst"
	data := some("a", 2)
	split := sym.Bool("split")
	p := build(root+"/p.wpk", split, file{name: "f", data: data})
	mkdir(dst)
	if sym.Bool("old") {
		write(dst+"/old", []byte("old"))
		write(dst+"/f", []byte("longer"))
	}
	var args []string
	good := true
	switch sym.IntRange("src", 0, 5) {
	case 0: // not given
		good = false
	case 1:
		args = append(args, "-src=")
		good = false
	case 2:
		args = append(args, "-src="+p)
	case 3:
		q, ok := near("src.c", p[:len(p)-1], p[len(p)-1])
		sym.Assume(q[len(q)-1] != 'f') // the data of a split package
		args = append(args, "-src="+q)
		good = ok
	case 4:
		q, ok := near("src.c", p[:len(p)-1], p[len(p)-1])
		sym.Assume(q[len(q)-1] != 'f') // the data of a split package
		args = append(args, "-src="+p+";"+q)
		good = ok
	case 5:
		args = append(args, "-src="+dst+";"+p)
		good = false
	}
	switch sym.IntRange("dst", 0, 4) {
	case 0: // not given
		good = false
	case 1:
		args = append(args, "-dst="+dst)
	case 2:
		d, ok := near("dst.c", root+"/ds", 't')
		args = append(args, "-dst="+d)
		good = good && ok
	case 3:
		args = append(args, "-dst="+root+"/new/sub", "-md")
		dst = root + "/new/sub"
	case 4:
		args = append(args, "-dst="+p, "-md")
		good = false
	}
	switch sym.IntRange("pm", 0, 3) {
	case 1:
		args = append(args, "-pm=bulk")
	case 2:
		args = append(args, "-pm=mmaps")
		good = false
	case 3:
		args = append(args, "-pm=")
		good = false
	}
	was := plain(root)
	code := sym.CallMain("extract", args...)
	if !good {
		sym.Assert(code != 0, "wrong arguments are reported")
		same(plain(root), was, "wrong arguments change no file")
		sym.Reach("bad")
		return
	}
	sym.Assert(code == 0, "right arguments are taken")
	b, err := os.ReadFile(dst + "/f")
	must(err, "file is extracted")
	sym.Assert(sym.EqBytes(b, data), "file is extracted")
	sym.Reach("good")
}

// C37_pack: arguments of the tool for packing.
func C37_pack() {
	root := sym.Root()
	src := root + "/src"
	mkdir(src)
	mkdir(root + "/out")
	data := some("a", 2)
	write(src+"/f", data)
	split := sym.Bool("split")
	out := root + "/out/p.wpk"
	if sym.Bool("old") {
		build(out, split, file{name: "old", data: []byte("old")})
	}
	var args []string
	if split {
		args = append(args, "-split")
	}
	good := true
	switch sym.IntRange("src", 0, 6) {
	case 0: // not given
		good = false
	case 1:
		args = append(args, "-src=")
		good = false
	case 2:
		args = append(args, "-src="+src)
	case 3:
		d, ok := near("src.c", root+"/sr", 'c')
		args = append(args, "-src="+d)
		good = ok
	case 4:
		d, ok := near("src.c", root+"/sr", 'b')
		mkdir(root + "/srb")
		sym.Assume(d != src)
		args = append(args, "-src="+src+"/;"+d)
		good = ok
	case 5:
		args = append(args, "-src="+src+"/f")
		good = false
	case 6:
		args = append(args, "-src=;;")
		good = false
	}
	switch sym.IntRange("dst", 0, 4) {
	case 0: // not given
		good = false
	case 1:
		args = append(args, "-dst="+out)
	case 2:
		d, ok := near("dst.c", root+"/ou", 't')
		args = append(args, "-dst="+d+"/p.wpk")
		good = good && ok
	case 3:
		args = append(args, "-dst="+src+"/f/p.wpk")
		good = false
	case 4:
		args = append(args, "-dst=")
		good = false
	}
	was := plain(root)
	code := sym.CallMain("pack", args...)
	if !good {
		sym.Assert(code != 0, "wrong arguments are reported")
		same(plain(root), was, "wrong arguments change no file")
		sym.Reach("bad")
		return
	}
	sym.Assert(code == 0, "right arguments are taken")
	pkg := open(out, split)
	sym.Assert(pkg.TagsetNum() == 1 && pkg.HasTagset("f"), "package has the file")
	sym.Reach("good")
}
