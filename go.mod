module verif

go 1.26.0

require (
	github.com/h2non/filetype v1.1.3
	github.com/schwarzlichtbezirk/wpk v0.0.0
	github.com/yuin/gopher-lua v1.1.1
	golang.org/x/tools v0.52.0
)

require (
	github.com/edsrzf/mmap-go v1.2.0 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
	gopkg.in/djherbis/times.v1 v1.3.0 // indirect
)

replace github.com/schwarzlichtbezirk/wpk => /repo
