package model

import (
	"io"

	"github.com/libregraph/idm/zzverif/sym"
)

// A reader may return less than asked for, so a symbolic limit is used up byte
// by byte.
//
//verif:model (*io.LimitedReader).Read
func limitedRead(l *io.LimitedReader, p []byte) (n int, err error) {
	if l.N <= 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !sym.Known(int(l.N)) {
		p = p[:1]
	} else if int64(len(p)) > l.N {
		p = p[0:l.N]
	}
	n, err = l.R.Read(p)
	l.N -= int64(n)
	return
}
