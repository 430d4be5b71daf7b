package xcfref

import (
	"io"
	"sync/atomic"
)

type part struct {
	at   int64
	data []byte
}

// Sparse is a file with large holes, of zeros.
type Sparse struct {
	Size  int64
	Taken atomic.Int64 // number of bytes read

	parts []part // in order
}

// ReadAt implements io.ReaderAt.
func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off >= s.Size {
		return 0, io.EOF
	}

	n := int(min(int64(len(p)), s.Size-off))

	clear(p[:n])

	for _, x := range s.parts {
		switch d := off - x.at; {
		case d >= 0 && d < int64(len(x.data)):
			copy(p[:n], x.data[d:])
		case d < 0 && -d < int64(n):
			copy(p[-d:n], x.data)
		}
	}

	s.Taken.Add(int64(n))

	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}
