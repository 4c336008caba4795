package models

import (
	"io"
	"strconv"
)

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type plainError struct{ msg string }

func (e *plainError) Error() string { return e.msg }

// basic gives the value of a named basic type as its basic type. Intrinsic.
func basic(v any) any { return v }

const hexdig = "0123456789abcdef"

func str(v any, verb byte) string {
	if verb != 'T' && verb != 'p' && verb != 'd' && verb != 'x' {
		switch x := v.(type) {
		case error:
			return quote(x.Error(), verb)
		case interface{ String() string }:
			return quote(x.String(), verb)
		}
	}
	switch x := basic(v).(type) {
	case nil:
		return "<nil>"
	case string:
		if verb == 'x' {
			return hex([]byte(x))
		}
		return quote(x, verb)
	case []byte:
		if verb == 'x' {
			return hex(x)
		}
		if verb == 's' || verb == 'q' {
			return quote(string(x), verb)
		}
		s := "["
		for i, b := range x {
			if i > 0 {
				s += " "
			}
			s += strconv.Itoa(int(b))
		}
		return s + "]"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int:
		return num(int64(x), verb)
	case int8:
		return num(int64(x), verb)
	case int16:
		return num(int64(x), verb)
	case int32:
		return num(int64(x), verb)
	case int64:
		return num(x, verb)
	case uint:
		return unum(uint64(x), verb)
	case uint8:
		return unum(uint64(x), verb)
	case uint16:
		return unum(uint64(x), verb)
	case uint32:
		return unum(uint64(x), verb)
	case uint64:
		return unum(x, verb)
	case uintptr:
		return unum(uint64(x), verb)
	case float64:
		if verb == 'v' {
			verb = 'g'
		}
		return strconv.FormatFloat(x, verb, -1, 64)
	case float32:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	}
	return "?"
}

func num(v int64, verb byte) string {
	if verb == 'c' {
		return string(rune(v))
	}
	if verb == 'x' {
		return strconv.FormatInt(v, 16)
	}
	return strconv.FormatInt(v, 10)
}

func unum(v uint64, verb byte) string {
	if verb == 'c' {
		return string(rune(v))
	}
	if verb == 'x' {
		return strconv.FormatUint(v, 16)
	}
	return strconv.FormatUint(v, 10)
}

func hex(b []byte) string {
	var r []byte
	for _, c := range b {
		r = append(r, hexdig[c>>4], hexdig[c&15])
	}
	return string(r)
}

func quote(s string, verb byte) string {
	if verb == 'q' {
		return strconv.Quote(s)
	}
	return s
}

//sym:replace fmt.Sprintf
func sprintf(format string, a ...any) string {
	s, _ := format1(format, a)
	return s
}

func format1(format string, a []any) (string, error) {
	var out []byte
	var w error
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, format[i])
			continue
		}
		i++
		left, zero := false, false
		for i < len(format) && (format[i] == '-' || format[i] == '+' || format[i] == '#' || format[i] == ' ' || format[i] == '0') {
			if format[i] == '-' {
				left = true
			}
			if format[i] == '0' {
				zero = true
			}
			i++
		}
		width, prec := 0, -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			prec = 0
			for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				prec = prec*10 + int(format[i]-'0')
			}
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out = append(out, '%')
			continue
		}
		verb := format[i]
		if k >= len(a) {
			out = append(out, "%!"+string(rune(verb))+"(MISSING)"...)
			continue
		}
		v := a[k]
		k++
		if verb == 'w' {
			if e, ok := v.(error); ok {
				w = e
			}
			verb = 'v'
		}
		var s string
		if f, ok := basic(v).(float64); ok && prec >= 0 {
			s = strconv.FormatFloat(f, verb, prec, 64)
		} else {
			s = str(v, verb)
			if prec >= 0 && prec < len(s) && verb == 's' {
				s = s[:prec]
			}
		}
		for !left && len(s) < width {
			if zero {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		for left && len(s) < width {
			s += " "
		}
		out = append(out, s...)
	}
	return string(out), w
}

//sym:replace fmt.Errorf
func errorf(format string, a ...any) error {
	s, w := format1(format, a)
	if w != nil {
		return &wrapError{s, w}
	}
	return &plainError{s}
}

//sym:replace fmt.Sprint
func sprint(a ...any) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			_, s1 := a[i-1].(string)
			_, s2 := v.(string)
			if !s1 && !s2 {
				s += " "
			}
		}
		s += str(v, 'v')
	}
	return s
}

//sym:replace fmt.Sprintln
func sprintln(a ...any) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			s += " "
		}
		s += str(v, 'v')
	}
	return s + "\n"
}

//sym:replace fmt.Printf
func printf(format string, a ...any) (int, error) { return 0, nil }

//sym:replace fmt.Print fmt.Println
func print1(a ...any) (int, error) { return 0, nil }

//sym:replace fmt.Fprintf
func fprintf(w io.Writer, format string, a ...any) (int, error) {
	s, _ := format1(format, a)
	return w.Write([]byte(s))
}

//sym:replace fmt.Fprint
func fprint(w io.Writer, a ...any) (int, error) { return w.Write([]byte(sprint(a...))) }

//sym:replace fmt.Fprintln
func fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(sprintln(a...))) }
