package models

import (
	"flag"
	"os"
	"syscall"
)

// runMain initialises a main package anew and calls its main function. Intrinsic.
func runMain(tool string) {}

//sym:replace verif/sym.CallMain
func callMain(tool string, args ...string) (code int) {
	os.Args = append([]string{tool}, args...)
	flag.CommandLine = flag.NewFlagSet(tool, flag.ExitOnError)
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(*ExitError); ok {
				code = e.Code
			} else {
				code = 2
			}
		}
	}()
	runMain(tool)
	return 0
}

//sym:replace verif/sym.CallLimited
func callLimited(files int, tool string, args ...string) (code int) {
	fileLimit = OpenCount + files - 6
	code = callMain(tool, args...)
	fileLimit = 0
	return
}

//sym:replace verif/sym.Held
func held() int {
	n := OpenCount
	for _, m := range maps {
		if m.live {
			n++
		}
	}
	return n
}

//sym:replace syscall.runtime_envs
func runtimeEnvs() []string { return nil }

//sym:replace os.runtime_args
func runtimeArgs() []string { return []string{"prog"} }

//sym:replace syscall.RawSyscall6 syscall.Syscall6
func syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return 0, 0, syscall.ENOSYS
}

//sym:replace syscall.RawSyscall syscall.Syscall
func syscall3(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return 0, 0, syscall.ENOSYS
}

//sym:replace os.NewFile
func newStdFile(fd uintptr, name string) *os.File { return new(os.File) }

//sym:replace mime.TypeByExtension
func typeByExtension(ext string) string {
	low := []byte(ext)
	for i, c := range low {
		if c >= 'A' && c <= 'Z' {
			low[i] = c + 32
		}
	}
	switch string(low) {
	case ".htm", ".html":
		return "text/html; charset=utf-8"
	case ".css":
		return "text/css; charset=utf-8"
	case ".png":
		return "image/png"
	case ".js":
		return "text/javascript; charset=utf-8"
	}
	return ""
}

// detectContentType follows http.DetectContentType for data without tags of
// markup and signatures longer than three bytes.
//
//sym:replace net/http.DetectContentType
func detectContentType(data []byte) string {
	if len(data) > 512 {
		data = data[:512]
	}
	for _, s := range sniffs {
		if len(data) >= len(s[0]) && string(data[:len(s[0])]) == s[0] {
			return s[1]
		}
	}
	for _, b := range data {
		if b <= 8 || b == 0xb || b >= 0xe && b <= 0x1a || b >= 0x1c && b <= 0x1f {
			return "application/octet-stream"
		}
	}
	return "text/plain; charset=utf-8"
}

var sniffs = [][2]string{
	{"\xFE\xFF", "text/plain; charset=utf-16be"},
	{"\xFF\xFE", "text/plain; charset=utf-16le"},
	{"\xEF\xBB\xBF", "text/plain; charset=utf-8"},
	{"BM", "image/bmp"},
	{"ID3", "audio/mpeg"},
	{"\x1F\x8B\x08", "application/x-gzip"},
	{"\xFF\xD8\xFF", "image/jpeg"},
}
