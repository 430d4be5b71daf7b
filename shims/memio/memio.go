// Package memio is a stand-in for vimagination.zapto.org/memio v1.0.0.
package memio

import (
	"errors"
	"io"
)

// Errors.
var (
	ErrInvalidOffset = errors.New("invalid offset")
)

// Buffer grants a byte slice very straightforward IO methods.
type Buffer []byte

// Read satisfies the io.Reader interface.
func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*s) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *s)
	*s = (*s)[n:]

	return n, nil
}

// ReadByte satisfies the io.ByteReader interface.
func (s *Buffer) ReadByte() (byte, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	b := (*s)[0]
	*s = (*s)[1:]

	return b, nil
}

// ReadAt satisfies the io.ReaderAt interface.
func (s *Buffer) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, ErrInvalidOffset
	}

	if off >= int64(len(*s)) {
		return 0, io.EOF
	}

	n := copy(p, (*s)[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// ReadFrom satisfies the io.ReaderFrom interface.
func (s *Buffer) ReadFrom(r io.Reader) (int64, error) {
	var total int64

	var tmp [512]byte

	for {
		n, err := r.Read(tmp[:])
		*s = append(*s, tmp[:n]...)
		total += int64(n)

		if err != nil {
			if errors.Is(err, io.EOF) {
				err = nil
			}

			return total, err
		}
	}
}

// Write satisfies the io.Writer interface.
func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)

	return len(p), nil
}

// WriteString writes a string to the buffer.
func (s *Buffer) WriteString(str string) (int, error) {
	*s = append(*s, str...)

	return len(str), nil
}

// WriteByte satisfies the io.ByteWriter interface.
func (s *Buffer) WriteByte(b byte) error {
	*s = append(*s, b)

	return nil
}

// WriteTo satisfies the io.WriterTo interface.
func (s *Buffer) WriteTo(w io.Writer) (int64, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	n, err := w.Write(*s)
	*s = (*s)[n:]

	return int64(n), err
}

// Close satisfies the io.Closer interface.
func (s *Buffer) Close() error {
	return nil
}

// Len returns the number of unread bytes.
func (s *Buffer) Len() int { return len(*s) }

// WriteMem writes into a byte slice, growing it as needed.
type WriteMem struct {
	data *[]byte
	pos  int64
}

// Create uses a byte slice for writing; existing data is overwritten.
func Create(data *[]byte) *WriteMem {
	if *data != nil {
		*data = (*data)[:0]
	}

	return &WriteMem{data: data}
}

// Write satisfies the io.Writer interface.
func (b *WriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, b.pos)
	b.pos += int64(n)

	return n, err
}

// WriteAt satisfies the io.WriterAt interface.
func (b *WriteMem) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, ErrInvalidOffset
	}

	if end := off + int64(len(p)); end > int64(len(*b.data)) {
		*b.data = append(*b.data, make([]byte, end-int64(len(*b.data)))...)
	}

	return copy((*b.data)[off:], p), nil
}

// ReadMem reads from a byte slice.
type ReadMem struct {
	*io.SectionReader
}

type readerAt []byte

func (r readerAt) ReadAt(p []byte, off int64) (int, error) {
	b := Buffer(r)

	return b.ReadAt(p, off)
}

// Open uses a byte slice for reading.
func Open(data []byte) *ReadMem {
	return &ReadMem{io.NewSectionReader(readerAt(data), 0, int64(len(data)))}
}

// Close satisfies the io.Closer interface.
func (*ReadMem) Close() error { return nil }
