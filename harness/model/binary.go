package model

import (
	"encoding/binary"
	"io"

	"github.com/libregraph/idm/zzverif/sym"
)

//verif:model encoding/binary.Read
func binaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n, size := 1, 8
	switch d := data.(type) {
	case *[]uint64:
		n = len(*d)
	case []uint64:
		n = len(d)
	case *[]int64:
		n = len(*d)
	case *uint64, *int64:
	case *uint32, *int32:
		size = 4
	default:
		sym.Abandon("binary.Read of this type")
	}
	buf := make([]byte, n*size)
	if _, err := io.ReadFull(r, buf); err != nil {
		return err
	}
	switch d := data.(type) {
	case *[]uint64:
		for i := range *d {
			(*d)[i] = order.Uint64(buf[8*i:])
		}
	case []uint64:
		for i := range d {
			d[i] = order.Uint64(buf[8*i:])
		}
	case *[]int64:
		for i := range *d {
			(*d)[i] = int64(order.Uint64(buf[8*i:]))
		}
	case *uint64:
		*d = order.Uint64(buf)
	case *int64:
		*d = int64(order.Uint64(buf))
	case *uint32:
		*d = order.Uint32(buf)
	case *int32:
		*d = int32(order.Uint32(buf))
	}
	return nil
}

//verif:model encoding/binary.Write
func binaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	var buf []byte
	u64 := func(x uint64) {
		b := make([]byte, 8)
		order.PutUint64(b, x)
		buf = append(buf, b...)
	}
	switch d := data.(type) {
	case []uint64:
		for _, x := range d {
			u64(x)
		}
	case *[]uint64:
		for _, x := range *d {
			u64(x)
		}
	case uint64:
		u64(d)
	case *uint64:
		u64(*d)
	case int64:
		u64(uint64(d))
	default:
		sym.Abandon("binary.Write of this type")
	}
	_, err := w.Write(buf)
	return err
}
