package lua

import (
	"os"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

func must(err error, what string) {
	if err != nil {
		sym.Fail(what)
		panic(what)
	}
}

// vm is a Lua machine with the packages API.
type vm struct{ ls *glua.LState }

func newVM() vm {
	ls := glua.NewState(glua.Options{SkipOpenLibs: true, RegistrySize: 256, CallStackSize: 16})
	lw.RegPath(ls)
	lw.RegPack(ls)
	return vm{ls}
}

// call calls a method of an object and gives its results.
func (m vm) call(obj glua.LValue, name string, args ...glua.LValue) (res []glua.LValue, err error) {
	top := m.ls.GetTop()
	fn := m.ls.GetField(obj, name)
	err = m.ls.CallByParam(glua.P{Fn: fn, NRet: glua.MultRet, Protect: true}, append([]glua.LValue{obj}, args...)...)
	for i := top + 1; i <= m.ls.GetTop(); i++ {
		res = append(res, m.ls.Get(i))
	}
	m.ls.SetTop(top)
	return
}

// pack makes a new package.
func (m vm) pack() glua.LValue {
	must(m.ls.CallByParam(glua.P{Fn: m.ls.GetField(m.ls.GetGlobal("wpk"), "new"), NRet: 1, Protect: true}), "package is made")
	p := m.ls.Get(-1)
	m.ls.Pop(1)
	return p
}

// source writes a file to be put and gives its path.
func source() string {
	name := sym.Root() + "/source"
	must(os.WriteFile(name, []byte("content"), 0644), "file is written")
	return name
}
