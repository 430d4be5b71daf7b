// Package byteio is a stand-in for vimagination.zapto.org/byteio v1.0.0.
//
// Code generated for the verification harness; see ../README.md.
package byteio

import (
	"io"
	"math"
)

// BigEndianReader reads big-endian values.
type BigEndianReader struct {
	io.Reader
	buffer [8]byte
}

func (e *BigEndianReader) get(n int) ([]byte, int, error) {
	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	if err != nil {
		return nil, m, err
	}

	return e.buffer[:n], m, nil
}

// ReadBool reads a single byte boolean.
func (e *BigEndianReader) ReadBool() (bool, int, error) {
	b, n, err := e.ReadUint8()

	return b != 0, n, err
}

// ReadFloat32 reads a float32.
func (e *BigEndianReader) ReadFloat32() (float32, int, error) {
	b, n, err := e.ReadUint32()

	return math.Float32frombits(b), n, err
}

// ReadFloat64 reads a float64.
func (e *BigEndianReader) ReadFloat64() (float64, int, error) {
	b, n, err := e.ReadUint64()

	return math.Float64frombits(b), n, err
}

// ReadUint8 reads an unsigned 8 bit integer.
func (e *BigEndianReader) ReadUint8() (uint8, int, error) {
	b, n, err := e.get(1)
	if err != nil {
		return 0, n, err
	}

	return uint8(b[0]) << 0, n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (e *BigEndianReader) ReadInt8() (int8, int, error) {
	u, n, err := e.ReadUint8()

	return int8(u), n, err
}

// ReadUint16 reads an unsigned 16 bit integer.
func (e *BigEndianReader) ReadUint16() (uint16, int, error) {
	b, n, err := e.get(2)
	if err != nil {
		return 0, n, err
	}

	return uint16(b[0])<<8 | uint16(b[1])<<0, n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (e *BigEndianReader) ReadInt16() (int16, int, error) {
	u, n, err := e.ReadUint16()

	return int16(u), n, err
}

// ReadUint24 reads an unsigned 24 bit integer.
func (e *BigEndianReader) ReadUint24() (uint32, int, error) {
	b, n, err := e.get(3)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])<<0, n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (e *BigEndianReader) ReadInt24() (int32, int, error) {
	u, n, err := e.ReadUint24()

	return int32(u<<8) >> 8, n, err
}

// ReadUint32 reads an unsigned 32 bit integer.
func (e *BigEndianReader) ReadUint32() (uint32, int, error) {
	b, n, err := e.get(4)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])<<0, n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (e *BigEndianReader) ReadInt32() (int32, int, error) {
	u, n, err := e.ReadUint32()

	return int32(u), n, err
}

// ReadUint40 reads an unsigned 40 bit integer.
func (e *BigEndianReader) ReadUint40() (uint64, int, error) {
	b, n, err := e.get(5)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])<<0, n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (e *BigEndianReader) ReadInt40() (int64, int, error) {
	u, n, err := e.ReadUint40()

	return int64(u<<24) >> 24, n, err
}

// ReadUint48 reads an unsigned 48 bit integer.
func (e *BigEndianReader) ReadUint48() (uint64, int, error) {
	b, n, err := e.get(6)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<40 | uint64(b[1])<<32 | uint64(b[2])<<24 | uint64(b[3])<<16 | uint64(b[4])<<8 | uint64(b[5])<<0, n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (e *BigEndianReader) ReadInt48() (int64, int, error) {
	u, n, err := e.ReadUint48()

	return int64(u<<16) >> 16, n, err
}

// ReadUint56 reads an unsigned 56 bit integer.
func (e *BigEndianReader) ReadUint56() (uint64, int, error) {
	b, n, err := e.get(7)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | uint64(b[3])<<24 | uint64(b[4])<<16 | uint64(b[5])<<8 | uint64(b[6])<<0, n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (e *BigEndianReader) ReadInt56() (int64, int, error) {
	u, n, err := e.ReadUint56()

	return int64(u<<8) >> 8, n, err
}

// ReadUint64 reads an unsigned 64 bit integer.
func (e *BigEndianReader) ReadUint64() (uint64, int, error) {
	b, n, err := e.get(8)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])<<0, n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (e *BigEndianReader) ReadInt64() (int64, int, error) {
	u, n, err := e.ReadUint64()

	return int64(u), n, err
}

// BigEndianWriter writes big-endian values.
type BigEndianWriter struct {
	io.Writer
	buffer [8]byte
}

func (e *BigEndianWriter) put(n int) (int, error) {
	return e.Writer.Write(e.buffer[:n])
}

// WriteString writes the string.
func (e *BigEndianWriter) WriteString(s string) (int, error) {
	return io.WriteString(e.Writer, s)
}

// WriteBool writes a single byte boolean.
func (e *BigEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return e.WriteUint8(1)
	} else {
		return e.WriteUint8(0)
	}
}

// WriteFloat32 writes a float32.
func (e *BigEndianWriter) WriteFloat32(f float32) (int, error) {
	return e.WriteUint32(math.Float32bits(f))
}

// WriteFloat64 writes a float64.
func (e *BigEndianWriter) WriteFloat64(f float64) (int, error) {
	return e.WriteUint64(math.Float64bits(f))
}

// WriteUint8 writes an unsigned 8 bit integer.
func (e *BigEndianWriter) WriteUint8(d uint8) (int, error) {
	e.buffer[0] = byte(d >> 0)

	return e.put(1)
}

// WriteInt8 writes a signed 8 bit integer.
func (e *BigEndianWriter) WriteInt8(d int8) (int, error) {
	return e.WriteUint8(uint8(d))
}

// WriteUint16 writes an unsigned 16 bit integer.
func (e *BigEndianWriter) WriteUint16(d uint16) (int, error) {
	e.buffer[0] = byte(d >> 8)
	e.buffer[1] = byte(d >> 0)

	return e.put(2)
}

// WriteInt16 writes a signed 16 bit integer.
func (e *BigEndianWriter) WriteInt16(d int16) (int, error) {
	return e.WriteUint16(uint16(d))
}

// WriteUint24 writes an unsigned 24 bit integer.
func (e *BigEndianWriter) WriteUint24(d uint32) (int, error) {
	e.buffer[0] = byte(d >> 16)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 0)

	return e.put(3)
}

// WriteInt24 writes a signed 24 bit integer.
func (e *BigEndianWriter) WriteInt24(d int32) (int, error) {
	return e.WriteUint24(uint32(d))
}

// WriteUint32 writes an unsigned 32 bit integer.
func (e *BigEndianWriter) WriteUint32(d uint32) (int, error) {
	e.buffer[0] = byte(d >> 24)
	e.buffer[1] = byte(d >> 16)
	e.buffer[2] = byte(d >> 8)
	e.buffer[3] = byte(d >> 0)

	return e.put(4)
}

// WriteInt32 writes a signed 32 bit integer.
func (e *BigEndianWriter) WriteInt32(d int32) (int, error) {
	return e.WriteUint32(uint32(d))
}

// WriteUint40 writes an unsigned 40 bit integer.
func (e *BigEndianWriter) WriteUint40(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 32)
	e.buffer[1] = byte(d >> 24)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 8)
	e.buffer[4] = byte(d >> 0)

	return e.put(5)
}

// WriteInt40 writes a signed 40 bit integer.
func (e *BigEndianWriter) WriteInt40(d int64) (int, error) {
	return e.WriteUint40(uint64(d))
}

// WriteUint48 writes an unsigned 48 bit integer.
func (e *BigEndianWriter) WriteUint48(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 40)
	e.buffer[1] = byte(d >> 32)
	e.buffer[2] = byte(d >> 24)
	e.buffer[3] = byte(d >> 16)
	e.buffer[4] = byte(d >> 8)
	e.buffer[5] = byte(d >> 0)

	return e.put(6)
}

// WriteInt48 writes a signed 48 bit integer.
func (e *BigEndianWriter) WriteInt48(d int64) (int, error) {
	return e.WriteUint48(uint64(d))
}

// WriteUint56 writes an unsigned 56 bit integer.
func (e *BigEndianWriter) WriteUint56(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 48)
	e.buffer[1] = byte(d >> 40)
	e.buffer[2] = byte(d >> 32)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 16)
	e.buffer[5] = byte(d >> 8)
	e.buffer[6] = byte(d >> 0)

	return e.put(7)
}

// WriteInt56 writes a signed 56 bit integer.
func (e *BigEndianWriter) WriteInt56(d int64) (int, error) {
	return e.WriteUint56(uint64(d))
}

// WriteUint64 writes an unsigned 64 bit integer.
func (e *BigEndianWriter) WriteUint64(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 56)
	e.buffer[1] = byte(d >> 48)
	e.buffer[2] = byte(d >> 40)
	e.buffer[3] = byte(d >> 32)
	e.buffer[4] = byte(d >> 24)
	e.buffer[5] = byte(d >> 16)
	e.buffer[6] = byte(d >> 8)
	e.buffer[7] = byte(d >> 0)

	return e.put(8)
}

// WriteInt64 writes a signed 64 bit integer.
func (e *BigEndianWriter) WriteInt64(d int64) (int, error) {
	return e.WriteUint64(uint64(d))
}

// StickyBigEndianReader reads big-endian values, remembering the first error.
type StickyBigEndianReader struct {
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyBigEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyBigEndianReader) get(n int) []byte {
	if e.Err != nil {
		return nil
	}

	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)

	if err != nil {
		e.Err = err

		return nil
	}

	return e.buffer[:n]
}

// ReadBytes reads n bytes.
func (e *StickyBigEndianReader) ReadBytes(n int) []byte {
	if e.Err != nil {
		return nil
	}

	b := make([]byte, n)
	m, err := io.ReadFull(e.Reader, b)
	e.Count += int64(m)
	e.Err = err

	return b[:m]
}

// ReadString reads a string of n bytes.
func (e *StickyBigEndianReader) ReadString(n int) string {
	return string(e.ReadBytes(n))
}

// ReadBool reads a single byte boolean.
func (e *StickyBigEndianReader) ReadBool() bool {
	return e.ReadUint8() != 0
}

// ReadFloat32 reads a float32.
func (e *StickyBigEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(e.ReadUint32())
}

// ReadFloat64 reads a float64.
func (e *StickyBigEndianReader) ReadFloat64() float64 {
	return math.Float64frombits(e.ReadUint64())
}

// ReadUint8 reads an unsigned 8 bit integer.
func (e *StickyBigEndianReader) ReadUint8() uint8 {
	b := e.get(1)
	if b == nil {
		return 0
	}

	return uint8(b[0]) << 0
}

// ReadInt8 reads a signed 8 bit integer.
func (e *StickyBigEndianReader) ReadInt8() int8 {
	u := e.ReadUint8()

	return int8(u)
}

// ReadUint16 reads an unsigned 16 bit integer.
func (e *StickyBigEndianReader) ReadUint16() uint16 {
	b := e.get(2)
	if b == nil {
		return 0
	}

	return uint16(b[0])<<8 | uint16(b[1])<<0
}

// ReadInt16 reads a signed 16 bit integer.
func (e *StickyBigEndianReader) ReadInt16() int16 {
	u := e.ReadUint16()

	return int16(u)
}

// ReadUint24 reads an unsigned 24 bit integer.
func (e *StickyBigEndianReader) ReadUint24() uint32 {
	b := e.get(3)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])<<0
}

// ReadInt24 reads a signed 24 bit integer.
func (e *StickyBigEndianReader) ReadInt24() int32 {
	u := e.ReadUint24()

	return int32(u<<8) >> 8
}

// ReadUint32 reads an unsigned 32 bit integer.
func (e *StickyBigEndianReader) ReadUint32() uint32 {
	b := e.get(4)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])<<0
}

// ReadInt32 reads a signed 32 bit integer.
func (e *StickyBigEndianReader) ReadInt32() int32 {
	u := e.ReadUint32()

	return int32(u)
}

// ReadUint40 reads an unsigned 40 bit integer.
func (e *StickyBigEndianReader) ReadUint40() uint64 {
	b := e.get(5)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])<<0
}

// ReadInt40 reads a signed 40 bit integer.
func (e *StickyBigEndianReader) ReadInt40() int64 {
	u := e.ReadUint40()

	return int64(u<<24) >> 24
}

// ReadUint48 reads an unsigned 48 bit integer.
func (e *StickyBigEndianReader) ReadUint48() uint64 {
	b := e.get(6)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<40 | uint64(b[1])<<32 | uint64(b[2])<<24 | uint64(b[3])<<16 | uint64(b[4])<<8 | uint64(b[5])<<0
}

// ReadInt48 reads a signed 48 bit integer.
func (e *StickyBigEndianReader) ReadInt48() int64 {
	u := e.ReadUint48()

	return int64(u<<16) >> 16
}

// ReadUint56 reads an unsigned 56 bit integer.
func (e *StickyBigEndianReader) ReadUint56() uint64 {
	b := e.get(7)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | uint64(b[3])<<24 | uint64(b[4])<<16 | uint64(b[5])<<8 | uint64(b[6])<<0
}

// ReadInt56 reads a signed 56 bit integer.
func (e *StickyBigEndianReader) ReadInt56() int64 {
	u := e.ReadUint56()

	return int64(u<<8) >> 8
}

// ReadUint64 reads an unsigned 64 bit integer.
func (e *StickyBigEndianReader) ReadUint64() uint64 {
	b := e.get(8)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])<<0
}

// ReadInt64 reads a signed 64 bit integer.
func (e *StickyBigEndianReader) ReadInt64() int64 {
	u := e.ReadUint64()

	return int64(u)
}

// StickyBigEndianWriter writes big-endian values, remembering the first error.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (e *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyBigEndianWriter) put(n int) {
	if e.Err != nil {
		return
	}

	var m int

	m, e.Err = e.Writer.Write(e.buffer[:n])
	e.Count += int64(m)
}

// WriteBytes writes the bytes.
func (e *StickyBigEndianWriter) WriteBytes(b []byte) {
	e.Write(b)
}

// WriteString writes the string.
func (e *StickyBigEndianWriter) WriteString(s string) {
	e.Write([]byte(s))
}

// WriteBool writes a single byte boolean.
func (e *StickyBigEndianWriter) WriteBool(b bool) {
	if b {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// WriteFloat32 writes a float32.
func (e *StickyBigEndianWriter) WriteFloat32(f float32) {
	e.WriteUint32(math.Float32bits(f))
}

// WriteFloat64 writes a float64.
func (e *StickyBigEndianWriter) WriteFloat64(f float64) {
	e.WriteUint64(math.Float64bits(f))
}

// WriteUint8 writes an unsigned 8 bit integer.
func (e *StickyBigEndianWriter) WriteUint8(d uint8) {
	e.buffer[0] = byte(d >> 0)

	e.put(1)
}

// WriteInt8 writes a signed 8 bit integer.
func (e *StickyBigEndianWriter) WriteInt8(d int8) {
	e.WriteUint8(uint8(d))
}

// WriteUint16 writes an unsigned 16 bit integer.
func (e *StickyBigEndianWriter) WriteUint16(d uint16) {
	e.buffer[0] = byte(d >> 8)
	e.buffer[1] = byte(d >> 0)

	e.put(2)
}

// WriteInt16 writes a signed 16 bit integer.
func (e *StickyBigEndianWriter) WriteInt16(d int16) {
	e.WriteUint16(uint16(d))
}

// WriteUint24 writes an unsigned 24 bit integer.
func (e *StickyBigEndianWriter) WriteUint24(d uint32) {
	e.buffer[0] = byte(d >> 16)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 0)

	e.put(3)
}

// WriteInt24 writes a signed 24 bit integer.
func (e *StickyBigEndianWriter) WriteInt24(d int32) {
	e.WriteUint24(uint32(d))
}

// WriteUint32 writes an unsigned 32 bit integer.
func (e *StickyBigEndianWriter) WriteUint32(d uint32) {
	e.buffer[0] = byte(d >> 24)
	e.buffer[1] = byte(d >> 16)
	e.buffer[2] = byte(d >> 8)
	e.buffer[3] = byte(d >> 0)

	e.put(4)
}

// WriteInt32 writes a signed 32 bit integer.
func (e *StickyBigEndianWriter) WriteInt32(d int32) {
	e.WriteUint32(uint32(d))
}

// WriteUint40 writes an unsigned 40 bit integer.
func (e *StickyBigEndianWriter) WriteUint40(d uint64) {
	e.buffer[0] = byte(d >> 32)
	e.buffer[1] = byte(d >> 24)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 8)
	e.buffer[4] = byte(d >> 0)

	e.put(5)
}

// WriteInt40 writes a signed 40 bit integer.
func (e *StickyBigEndianWriter) WriteInt40(d int64) {
	e.WriteUint40(uint64(d))
}

// WriteUint48 writes an unsigned 48 bit integer.
func (e *StickyBigEndianWriter) WriteUint48(d uint64) {
	e.buffer[0] = byte(d >> 40)
	e.buffer[1] = byte(d >> 32)
	e.buffer[2] = byte(d >> 24)
	e.buffer[3] = byte(d >> 16)
	e.buffer[4] = byte(d >> 8)
	e.buffer[5] = byte(d >> 0)

	e.put(6)
}

// WriteInt48 writes a signed 48 bit integer.
func (e *StickyBigEndianWriter) WriteInt48(d int64) {
	e.WriteUint48(uint64(d))
}

// WriteUint56 writes an unsigned 56 bit integer.
func (e *StickyBigEndianWriter) WriteUint56(d uint64) {
	e.buffer[0] = byte(d >> 48)
	e.buffer[1] = byte(d >> 40)
	e.buffer[2] = byte(d >> 32)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 16)
	e.buffer[5] = byte(d >> 8)
	e.buffer[6] = byte(d >> 0)

	e.put(7)
}

// WriteInt56 writes a signed 56 bit integer.
func (e *StickyBigEndianWriter) WriteInt56(d int64) {
	e.WriteUint56(uint64(d))
}

// WriteUint64 writes an unsigned 64 bit integer.
func (e *StickyBigEndianWriter) WriteUint64(d uint64) {
	e.buffer[0] = byte(d >> 56)
	e.buffer[1] = byte(d >> 48)
	e.buffer[2] = byte(d >> 40)
	e.buffer[3] = byte(d >> 32)
	e.buffer[4] = byte(d >> 24)
	e.buffer[5] = byte(d >> 16)
	e.buffer[6] = byte(d >> 8)
	e.buffer[7] = byte(d >> 0)

	e.put(8)
}

// WriteInt64 writes a signed 64 bit integer.
func (e *StickyBigEndianWriter) WriteInt64(d int64) {
	e.WriteUint64(uint64(d))
}

// LittleEndianReader reads little-endian values.
type LittleEndianReader struct {
	io.Reader
	buffer [8]byte
}

func (e *LittleEndianReader) get(n int) ([]byte, int, error) {
	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	if err != nil {
		return nil, m, err
	}

	return e.buffer[:n], m, nil
}

// ReadBool reads a single byte boolean.
func (e *LittleEndianReader) ReadBool() (bool, int, error) {
	b, n, err := e.ReadUint8()

	return b != 0, n, err
}

// ReadFloat32 reads a float32.
func (e *LittleEndianReader) ReadFloat32() (float32, int, error) {
	b, n, err := e.ReadUint32()

	return math.Float32frombits(b), n, err
}

// ReadFloat64 reads a float64.
func (e *LittleEndianReader) ReadFloat64() (float64, int, error) {
	b, n, err := e.ReadUint64()

	return math.Float64frombits(b), n, err
}

// ReadUint8 reads an unsigned 8 bit integer.
func (e *LittleEndianReader) ReadUint8() (uint8, int, error) {
	b, n, err := e.get(1)
	if err != nil {
		return 0, n, err
	}

	return uint8(b[0]) << 0, n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (e *LittleEndianReader) ReadInt8() (int8, int, error) {
	u, n, err := e.ReadUint8()

	return int8(u), n, err
}

// ReadUint16 reads an unsigned 16 bit integer.
func (e *LittleEndianReader) ReadUint16() (uint16, int, error) {
	b, n, err := e.get(2)
	if err != nil {
		return 0, n, err
	}

	return uint16(b[0])<<0 | uint16(b[1])<<8, n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (e *LittleEndianReader) ReadInt16() (int16, int, error) {
	u, n, err := e.ReadUint16()

	return int16(u), n, err
}

// ReadUint24 reads an unsigned 24 bit integer.
func (e *LittleEndianReader) ReadUint24() (uint32, int, error) {
	b, n, err := e.get(3)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<0 | uint32(b[1])<<8 | uint32(b[2])<<16, n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (e *LittleEndianReader) ReadInt24() (int32, int, error) {
	u, n, err := e.ReadUint24()

	return int32(u<<8) >> 8, n, err
}

// ReadUint32 reads an unsigned 32 bit integer.
func (e *LittleEndianReader) ReadUint32() (uint32, int, error) {
	b, n, err := e.get(4)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<0 | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (e *LittleEndianReader) ReadInt32() (int32, int, error) {
	u, n, err := e.ReadUint32()

	return int32(u), n, err
}

// ReadUint40 reads an unsigned 40 bit integer.
func (e *LittleEndianReader) ReadUint40() (uint64, int, error) {
	b, n, err := e.get(5)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32, n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (e *LittleEndianReader) ReadInt40() (int64, int, error) {
	u, n, err := e.ReadUint40()

	return int64(u<<24) >> 24, n, err
}

// ReadUint48 reads an unsigned 48 bit integer.
func (e *LittleEndianReader) ReadUint48() (uint64, int, error) {
	b, n, err := e.get(6)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40, n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (e *LittleEndianReader) ReadInt48() (int64, int, error) {
	u, n, err := e.ReadUint48()

	return int64(u<<16) >> 16, n, err
}

// ReadUint56 reads an unsigned 56 bit integer.
func (e *LittleEndianReader) ReadUint56() (uint64, int, error) {
	b, n, err := e.get(7)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48, n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (e *LittleEndianReader) ReadInt56() (int64, int, error) {
	u, n, err := e.ReadUint56()

	return int64(u<<8) >> 8, n, err
}

// ReadUint64 reads an unsigned 64 bit integer.
func (e *LittleEndianReader) ReadUint64() (uint64, int, error) {
	b, n, err := e.get(8)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56, n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (e *LittleEndianReader) ReadInt64() (int64, int, error) {
	u, n, err := e.ReadUint64()

	return int64(u), n, err
}

// LittleEndianWriter writes little-endian values.
type LittleEndianWriter struct {
	io.Writer
	buffer [8]byte
}

func (e *LittleEndianWriter) put(n int) (int, error) {
	return e.Writer.Write(e.buffer[:n])
}

// WriteString writes the string.
func (e *LittleEndianWriter) WriteString(s string) (int, error) {
	return io.WriteString(e.Writer, s)
}

// WriteBool writes a single byte boolean.
func (e *LittleEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return e.WriteUint8(1)
	} else {
		return e.WriteUint8(0)
	}
}

// WriteFloat32 writes a float32.
func (e *LittleEndianWriter) WriteFloat32(f float32) (int, error) {
	return e.WriteUint32(math.Float32bits(f))
}

// WriteFloat64 writes a float64.
func (e *LittleEndianWriter) WriteFloat64(f float64) (int, error) {
	return e.WriteUint64(math.Float64bits(f))
}

// WriteUint8 writes an unsigned 8 bit integer.
func (e *LittleEndianWriter) WriteUint8(d uint8) (int, error) {
	e.buffer[0] = byte(d >> 0)

	return e.put(1)
}

// WriteInt8 writes a signed 8 bit integer.
func (e *LittleEndianWriter) WriteInt8(d int8) (int, error) {
	return e.WriteUint8(uint8(d))
}

// WriteUint16 writes an unsigned 16 bit integer.
func (e *LittleEndianWriter) WriteUint16(d uint16) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)

	return e.put(2)
}

// WriteInt16 writes a signed 16 bit integer.
func (e *LittleEndianWriter) WriteInt16(d int16) (int, error) {
	return e.WriteUint16(uint16(d))
}

// WriteUint24 writes an unsigned 24 bit integer.
func (e *LittleEndianWriter) WriteUint24(d uint32) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)

	return e.put(3)
}

// WriteInt24 writes a signed 24 bit integer.
func (e *LittleEndianWriter) WriteInt24(d int32) (int, error) {
	return e.WriteUint24(uint32(d))
}

// WriteUint32 writes an unsigned 32 bit integer.
func (e *LittleEndianWriter) WriteUint32(d uint32) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)

	return e.put(4)
}

// WriteInt32 writes a signed 32 bit integer.
func (e *LittleEndianWriter) WriteInt32(d int32) (int, error) {
	return e.WriteUint32(uint32(d))
}

// WriteUint40 writes an unsigned 40 bit integer.
func (e *LittleEndianWriter) WriteUint40(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)

	return e.put(5)
}

// WriteInt40 writes a signed 40 bit integer.
func (e *LittleEndianWriter) WriteInt40(d int64) (int, error) {
	return e.WriteUint40(uint64(d))
}

// WriteUint48 writes an unsigned 48 bit integer.
func (e *LittleEndianWriter) WriteUint48(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)

	return e.put(6)
}

// WriteInt48 writes a signed 48 bit integer.
func (e *LittleEndianWriter) WriteInt48(d int64) (int, error) {
	return e.WriteUint48(uint64(d))
}

// WriteUint56 writes an unsigned 56 bit integer.
func (e *LittleEndianWriter) WriteUint56(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)
	e.buffer[6] = byte(d >> 48)

	return e.put(7)
}

// WriteInt56 writes a signed 56 bit integer.
func (e *LittleEndianWriter) WriteInt56(d int64) (int, error) {
	return e.WriteUint56(uint64(d))
}

// WriteUint64 writes an unsigned 64 bit integer.
func (e *LittleEndianWriter) WriteUint64(d uint64) (int, error) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)
	e.buffer[6] = byte(d >> 48)
	e.buffer[7] = byte(d >> 56)

	return e.put(8)
}

// WriteInt64 writes a signed 64 bit integer.
func (e *LittleEndianWriter) WriteInt64(d int64) (int, error) {
	return e.WriteUint64(uint64(d))
}

// StickyLittleEndianReader reads little-endian values, remembering the first error.
type StickyLittleEndianReader struct {
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyLittleEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyLittleEndianReader) get(n int) []byte {
	if e.Err != nil {
		return nil
	}

	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)

	if err != nil {
		e.Err = err

		return nil
	}

	return e.buffer[:n]
}

// ReadBytes reads n bytes.
func (e *StickyLittleEndianReader) ReadBytes(n int) []byte {
	if e.Err != nil {
		return nil
	}

	b := make([]byte, n)
	m, err := io.ReadFull(e.Reader, b)
	e.Count += int64(m)
	e.Err = err

	return b[:m]
}

// ReadString reads a string of n bytes.
func (e *StickyLittleEndianReader) ReadString(n int) string {
	return string(e.ReadBytes(n))
}

// ReadBool reads a single byte boolean.
func (e *StickyLittleEndianReader) ReadBool() bool {
	return e.ReadUint8() != 0
}

// ReadFloat32 reads a float32.
func (e *StickyLittleEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(e.ReadUint32())
}

// ReadFloat64 reads a float64.
func (e *StickyLittleEndianReader) ReadFloat64() float64 {
	return math.Float64frombits(e.ReadUint64())
}

// ReadUint8 reads an unsigned 8 bit integer.
func (e *StickyLittleEndianReader) ReadUint8() uint8 {
	b := e.get(1)
	if b == nil {
		return 0
	}

	return uint8(b[0]) << 0
}

// ReadInt8 reads a signed 8 bit integer.
func (e *StickyLittleEndianReader) ReadInt8() int8 {
	u := e.ReadUint8()

	return int8(u)
}

// ReadUint16 reads an unsigned 16 bit integer.
func (e *StickyLittleEndianReader) ReadUint16() uint16 {
	b := e.get(2)
	if b == nil {
		return 0
	}

	return uint16(b[0])<<0 | uint16(b[1])<<8
}

// ReadInt16 reads a signed 16 bit integer.
func (e *StickyLittleEndianReader) ReadInt16() int16 {
	u := e.ReadUint16()

	return int16(u)
}

// ReadUint24 reads an unsigned 24 bit integer.
func (e *StickyLittleEndianReader) ReadUint24() uint32 {
	b := e.get(3)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<0 | uint32(b[1])<<8 | uint32(b[2])<<16
}

// ReadInt24 reads a signed 24 bit integer.
func (e *StickyLittleEndianReader) ReadInt24() int32 {
	u := e.ReadUint24()

	return int32(u<<8) >> 8
}

// ReadUint32 reads an unsigned 32 bit integer.
func (e *StickyLittleEndianReader) ReadUint32() uint32 {
	b := e.get(4)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<0 | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// ReadInt32 reads a signed 32 bit integer.
func (e *StickyLittleEndianReader) ReadInt32() int32 {
	u := e.ReadUint32()

	return int32(u)
}

// ReadUint40 reads an unsigned 40 bit integer.
func (e *StickyLittleEndianReader) ReadUint40() uint64 {
	b := e.get(5)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32
}

// ReadInt40 reads a signed 40 bit integer.
func (e *StickyLittleEndianReader) ReadInt40() int64 {
	u := e.ReadUint40()

	return int64(u<<24) >> 24
}

// ReadUint48 reads an unsigned 48 bit integer.
func (e *StickyLittleEndianReader) ReadUint48() uint64 {
	b := e.get(6)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40
}

// ReadInt48 reads a signed 48 bit integer.
func (e *StickyLittleEndianReader) ReadInt48() int64 {
	u := e.ReadUint48()

	return int64(u<<16) >> 16
}

// ReadUint56 reads an unsigned 56 bit integer.
func (e *StickyLittleEndianReader) ReadUint56() uint64 {
	b := e.get(7)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48
}

// ReadInt56 reads a signed 56 bit integer.
func (e *StickyLittleEndianReader) ReadInt56() int64 {
	u := e.ReadUint56()

	return int64(u<<8) >> 8
}

// ReadUint64 reads an unsigned 64 bit integer.
func (e *StickyLittleEndianReader) ReadUint64() uint64 {
	b := e.get(8)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

// ReadInt64 reads a signed 64 bit integer.
func (e *StickyLittleEndianReader) ReadInt64() int64 {
	u := e.ReadUint64()

	return int64(u)
}

// StickyLittleEndianWriter writes little-endian values, remembering the first error.
type StickyLittleEndianWriter struct {
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (e *StickyLittleEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyLittleEndianWriter) put(n int) {
	if e.Err != nil {
		return
	}

	var m int

	m, e.Err = e.Writer.Write(e.buffer[:n])
	e.Count += int64(m)
}

// WriteBytes writes the bytes.
func (e *StickyLittleEndianWriter) WriteBytes(b []byte) {
	e.Write(b)
}

// WriteString writes the string.
func (e *StickyLittleEndianWriter) WriteString(s string) {
	e.Write([]byte(s))
}

// WriteBool writes a single byte boolean.
func (e *StickyLittleEndianWriter) WriteBool(b bool) {
	if b {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// WriteFloat32 writes a float32.
func (e *StickyLittleEndianWriter) WriteFloat32(f float32) {
	e.WriteUint32(math.Float32bits(f))
}

// WriteFloat64 writes a float64.
func (e *StickyLittleEndianWriter) WriteFloat64(f float64) {
	e.WriteUint64(math.Float64bits(f))
}

// WriteUint8 writes an unsigned 8 bit integer.
func (e *StickyLittleEndianWriter) WriteUint8(d uint8) {
	e.buffer[0] = byte(d >> 0)

	e.put(1)
}

// WriteInt8 writes a signed 8 bit integer.
func (e *StickyLittleEndianWriter) WriteInt8(d int8) {
	e.WriteUint8(uint8(d))
}

// WriteUint16 writes an unsigned 16 bit integer.
func (e *StickyLittleEndianWriter) WriteUint16(d uint16) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)

	e.put(2)
}

// WriteInt16 writes a signed 16 bit integer.
func (e *StickyLittleEndianWriter) WriteInt16(d int16) {
	e.WriteUint16(uint16(d))
}

// WriteUint24 writes an unsigned 24 bit integer.
func (e *StickyLittleEndianWriter) WriteUint24(d uint32) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)

	e.put(3)
}

// WriteInt24 writes a signed 24 bit integer.
func (e *StickyLittleEndianWriter) WriteInt24(d int32) {
	e.WriteUint24(uint32(d))
}

// WriteUint32 writes an unsigned 32 bit integer.
func (e *StickyLittleEndianWriter) WriteUint32(d uint32) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)

	e.put(4)
}

// WriteInt32 writes a signed 32 bit integer.
func (e *StickyLittleEndianWriter) WriteInt32(d int32) {
	e.WriteUint32(uint32(d))
}

// WriteUint40 writes an unsigned 40 bit integer.
func (e *StickyLittleEndianWriter) WriteUint40(d uint64) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)

	e.put(5)
}

// WriteInt40 writes a signed 40 bit integer.
func (e *StickyLittleEndianWriter) WriteInt40(d int64) {
	e.WriteUint40(uint64(d))
}

// WriteUint48 writes an unsigned 48 bit integer.
func (e *StickyLittleEndianWriter) WriteUint48(d uint64) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)

	e.put(6)
}

// WriteInt48 writes a signed 48 bit integer.
func (e *StickyLittleEndianWriter) WriteInt48(d int64) {
	e.WriteUint48(uint64(d))
}

// WriteUint56 writes an unsigned 56 bit integer.
func (e *StickyLittleEndianWriter) WriteUint56(d uint64) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)
	e.buffer[6] = byte(d >> 48)

	e.put(7)
}

// WriteInt56 writes a signed 56 bit integer.
func (e *StickyLittleEndianWriter) WriteInt56(d int64) {
	e.WriteUint56(uint64(d))
}

// WriteUint64 writes an unsigned 64 bit integer.
func (e *StickyLittleEndianWriter) WriteUint64(d uint64) {
	e.buffer[0] = byte(d >> 0)
	e.buffer[1] = byte(d >> 8)
	e.buffer[2] = byte(d >> 16)
	e.buffer[3] = byte(d >> 24)
	e.buffer[4] = byte(d >> 32)
	e.buffer[5] = byte(d >> 40)
	e.buffer[6] = byte(d >> 48)
	e.buffer[7] = byte(d >> 56)

	e.put(8)
}

// WriteInt64 writes a signed 64 bit integer.
func (e *StickyLittleEndianWriter) WriteInt64(d int64) {
	e.WriteUint64(uint64(d))
}
