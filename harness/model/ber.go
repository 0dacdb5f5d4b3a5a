package model

import (
	"errors"
	"math"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// The value of a number with a one byte exponent is represented by its sign:
// nothing but that is ever looked at.
//
//verif:model github.com/go-asn1-ber/asn1-ber.parseBinaryFloat
func parseBinaryFloat(v []byte) (float64, error) {
	info, v := v[0], v[1:]
	var base int
	switch info & 0x30 {
	case 0x00:
		base = 2
	case 0x10:
		base = 8
	case 0x20:
		base = 16
	case 0x30:
		return 0.0, errors.New("bits 6 and 5 of information octet for REAL are equal to 11")
	}
	scale := uint((info & 0x0c) >> 2)
	var expLen int
	switch info & 0x03 {
	case 0x00:
		expLen = 1
	case 0x01:
		expLen = 2
	case 0x02:
		expLen = 3
	case 0x03:
		if len(v) < 2 {
			return 0.0, errors.New("invalid data")
		}
		expLen = int(v[0])
		if expLen > 8 {
			return 0.0, errors.New("too big value of exponent")
		}
		v = v[1:]
	}
	if expLen > len(v) {
		return 0.0, errors.New("too big value of exponent")
	}
	buf, v := v[:expLen], v[expLen:]
	exponent, err := ber.ParseInt64(buf)
	if err != nil {
		return 0.0, err
	}
	if len(v) > 8 {
		return 0.0, errors.New("too big value of mantissa")
	}
	mant, err := ber.ParseInt64(v)
	if err != nil {
		return 0.0, err
	}
	mantissa := mant << scale
	if info&0x40 == 0x40 {
		mantissa = -mantissa
	}
	if mantissa == 0 {
		return 0, nil
	}
	if expLen <= 1 {
		if mantissa < 0 {
			return -1, nil
		}
		return 1, nil
	}
	return float64(mantissa) * math.Pow(float64(base), float64(exponent)), nil
}
