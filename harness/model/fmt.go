package model

import (
	"errors"
	"io"
	"strconv"

	"github.com/libregraph/idm/zzverif/sym"
)

// Formats of literal text without blanks and %d.
//
//verif:model fmt.Sscanf
func sscanf(str string, format string, a ...any) (n int, err error) {
	i := 0
	for k := 0; k < len(format); k++ {
		if format[k] == ' ' || format[k] == '\n' {
			sym.Abandon("Sscanf with this format")
		}
		if format[k] != '%' {
			if i == len(str) {
				return n, io.ErrUnexpectedEOF
			}
			if str[i] != format[k] {
				return n, errors.New("input does not match format")
			}
			i++
			continue
		}
		k++
		if k == len(format) || format[k] != 'd' || n == len(a) {
			sym.Abandon("Sscanf with this format")
		}
		for i < len(str) && (str[i] == ' ' || str[i] == '\t' || str[i] == '\v' || str[i] == '\f') {
			i++
		}
		if i == len(str) {
			return n, io.ErrUnexpectedEOF
		}
		if str[i] >= 0x80 || str[i] == '\r' || str[i] == '\n' {
			sym.Abandon("Sscanf of this text")
		}
		s, bits := i, 0
		signed := false
		switch a[n].(type) {
		case *int, *int64:
			signed, bits = true, 64
		case *uint32:
			bits = 32
		case *uint8:
			bits = 8
		default:
			sym.Abandon("Sscanf into this type")
		}
		if signed && (str[i] == '+' || str[i] == '-') {
			i++
		}
		d := i
		for i < len(str) && str[i] >= '0' && str[i] <= '9' {
			i++
		}
		if i == d {
			if d == len(str) {
				return n, io.ErrUnexpectedEOF
			}
			return n, errors.New("expected integer")
		}
		if signed {
			v, err := strconv.ParseInt(str[s:i], 10, 64)
			if err != nil {
				return n, err
			}
			switch p := a[n].(type) {
			case *int:
				*p = int(v)
			case *int64:
				*p = v
			}
		} else {
			v, err := strconv.ParseUint(str[s:i], 10, 64)
			if err != nil {
				return n, err
			}
			if v>>bits != 0 {
				return n, errors.New("unsigned integer overflow on token " + str[s:i])
			}
			switch p := a[n].(type) {
			case *uint32:
				*p = uint32(v)
			case *uint8:
				*p = uint8(v)
			}
		}
		n++
	}
	if n != len(a) {
		return n, errors.New("too many operands")
	}
	return n, nil
}
