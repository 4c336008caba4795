// Package models holds stand-ins for code the executor does not interpret:
// the operating system, formatting, logging and similar. A function with a
// "//sym:replace NAME ..." line is executed instead of every named function.
package models

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// ExitError is the panic value of a call to os.Exit.
type ExitError struct{ Code int }

func (e *ExitError) Error() string { return "exit" }

//sym:replace os.Exit
func osExit(code int) { panic(&ExitError{code}) }

// asTarget sets *target to err if its type allows it. Intrinsic.
func asTarget(err error, target any) bool { return false }

//sym:replace errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target)
}

func is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

//sym:replace errors.As
func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// time

//sym:replace time.runtimeNano
func runtimeNano() int64 { return 1700000000123456789 }

//sym:replace time.now time.runtimeNow
func timeNow() (sec int64, nsec int32, mono int64) { return 1700000000, 123456789, 1 }

//sym:replace time.initLocal
func initLocal() {}

// log

//sym:replace log.Print log.Println (*log.Logger).Print (*log.Logger).Println
func logPrint(v ...any) {}

//sym:replace log.Printf (*log.Logger).Printf
func logPrintf(format string, v ...any) {}

//sym:replace log.Fatal log.Fatalln
func logFatal(v ...any) { panic(&ExitError{1}) }

//sym:replace log.Fatalf
func logFatalf(format string, v ...any) { panic(&ExitError{1}) }
