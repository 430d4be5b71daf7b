package ora

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
)

func newZip(b []byte) (*zip.Reader, error) {
	return zip.NewReader(bytes.NewReader(b), int64(len(b)))
}

// entry is a file in an archive.
type entry struct {
	name   string
	method uint16
	offset int
	data   []byte
}

// readZip is a reader of (plain) ZIP archives of its own.
func readZip(b []byte) ([]entry, error) {
	le := binary.LittleEndian
	end := bytes.LastIndex(b, []byte("PK\x05\x06"))

	if end < 0 || len(b)-end < 22 {
		return nil, fmt.Errorf("no end of central directory")
	}

	if int(le.Uint16(b[end+20:])) != len(b)-end-22 {
		return nil, fmt.Errorf("bytes after the end of the archive")
	}

	n, size, at := int(le.Uint16(b[end+10:])), int(le.Uint32(b[end+12:])), int(le.Uint32(b[end+16:]))
	if n != int(le.Uint16(b[end+8:])) || at+size != end {
		return nil, fmt.Errorf("central directory does not add up")
	}

	var es []entry

	for i := 0; i < n; i++ {
		if at+46 > end || string(b[at:at+4]) != "PK\x01\x02" {
			return nil, fmt.Errorf("bad central directory entry %d", i)
		}

		h := b[at:]
		method, crc := le.Uint16(h[10:]), le.Uint32(h[16:])
		csize, usize := int(le.Uint32(h[20:])), int(le.Uint32(h[24:]))
		nl, xl, cl := int(le.Uint16(h[28:])), int(le.Uint16(h[30:])), int(le.Uint16(h[32:]))
		off := int(le.Uint32(h[42:]))
		name := string(h[46 : 46+nl])
		at += 46 + nl + xl + cl

		if off+30 > len(b) || string(b[off:off+4]) != "PK\x03\x04" {
			return nil, fmt.Errorf("%s: bad local header", name)
		}

		l := b[off:]
		lnl, lxl := int(le.Uint16(l[26:])), int(le.Uint16(l[28:]))

		if string(l[30:30+lnl]) != name || le.Uint16(l[8:]) != method {
			return nil, fmt.Errorf("%s: headers differ", name)
		}

		data := b[off+30+lnl+lxl:]
		if csize > len(data) {
			return nil, fmt.Errorf("%s: too long", name)
		}

		data = data[:csize]

		switch method {
		case 0:
		case 8:
			var err error

			if data, err = io.ReadAll(flate.NewReader(bytes.NewReader(data))); err != nil {
				return nil, fmt.Errorf("%s: %w", name, err)
			}
		default:
			return nil, fmt.Errorf("%s: method %d", name, method)
		}

		if len(data) != usize || crc32.ChecksumIEEE(data) != crc {
			return nil, fmt.Errorf("%s: wrong size or checksum", name)
		}

		es = append(es, entry{name: name, method: method, offset: off, data: data})
	}

	if at != end {
		return nil, fmt.Errorf("central directory does not end where it should")
	}

	return es, nil
}
