package models

import (
	xhex "encoding/hex"
	"io/fs"
	"strconv"
	"syscall"
	"time"
)

// Texts of errors do not quote the input.

//sym:replace (*strconv.NumError).Error
func numError(e *strconv.NumError) string { return "strconv." + e.Func + ": " + e.Err.Error() }

//sym:replace (*time.ParseError).Error
func parseError(e *time.ParseError) string { return "parsing time" + e.Message }

//sym:replace (encoding/hex.InvalidByteError).Error
func invalidByte(e xhex.InvalidByteError) string { return "encoding/hex: invalid byte" }

//sym:replace (syscall.Errno).Is
func errnoIs(e syscall.Errno, target error) bool {
	switch target {
	case fs.ErrPermission:
		return e == syscall.EACCES || e == syscall.EPERM
	case fs.ErrExist:
		return e == syscall.EEXIST || e == syscall.ENOTEMPTY
	case fs.ErrNotExist:
		return e == syscall.ENOENT
	}
	return false
}
