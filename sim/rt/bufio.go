package rt

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// BufioReader is the standard library's bufio.Reader with yield points in Read,
// so that unsynchronised sharing of one has the consequences it has in reality.
const (
	defaultBufSize           = 4096
	minReadBufferSize        = 16
	maxConsecutiveEmptyReads = 100
)

type BufioReader struct {
	buf          []byte
	rd           io.Reader // reader provided by the client
	r, w         int       // buf read and write positions
	err          error
	lastByte     int // last byte read for UnreadByte; -1 means invalid
	lastRuneSize int // size of last rune read for UnreadRune; -1 means invalid
}

func BufioNewReaderSize(rd io.Reader, size int) *BufioReader {
	// Is it already a BufioReader?
	b, ok := rd.(*BufioReader)
	if ok && len(b.buf) >= size {
		return b
	}
	r := new(BufioReader)
	r.reset(make([]byte, max(size, minReadBufferSize)), rd)
	return r
}

func BufioNewReader(rd io.Reader) *BufioReader {
	return BufioNewReaderSize(rd, defaultBufSize)
}

func (b *BufioReader) Size() int { return len(b.buf) }

func (b *BufioReader) Reset(r io.Reader) {
	// If a BufioReader r is passed to NewReader, NewReader will return r.
	// Different layers of code may do that, and then later pass r
	// to Reset. Avoid infinite recursion in that case.
	if b == r {
		return
	}
	if b.buf == nil {
		b.buf = make([]byte, defaultBufSize)
	}
	b.reset(b.buf, r)
}

func (b *BufioReader) reset(buf []byte, r io.Reader) {
	*b = BufioReader{
		buf:          buf,
		rd:           r,
		lastByte:     -1,
		lastRuneSize: -1,
	}
}

var errNegativeRead = errors.New("bufio: reader returned negative count from Read")

func (b *BufioReader) fill() {
	// Slide existing data to beginning.
	Y()
	if b.r > 0 {
		Y()
		copy(b.buf, b.buf[b.r:b.w])
		Y()
		b.w -= b.r
		Y()
		b.r = 0
	}

	Y()
	if b.w >= len(b.buf) {
		Y()
		panic("bufio: tried to fill full buffer")
	}

	// Read new data: try a limited number of times.
	Y()
	for i := maxConsecutiveEmptyReads; i > 0; i-- {
		Y()
		n, err := b.rd.Read(b.buf[b.w:])
		Y()
		if n < 0 {
			Y()
			panic(errNegativeRead)
		}
		Y()
		b.w += n
		Y()
		if err != nil {
			Y()
			b.err = err
			Y()
			return
		}
		Y()
		if n > 0 {
			Y()
			return
		}
	}
	Y()
	b.err = io.ErrNoProgress
}

func (b *BufioReader) readErr() error {
	err := b.err
	b.err = nil
	return err
}

func (b *BufioReader) Peek(n int) ([]byte, error) {
	if n < 0 {
		return nil, bufio.ErrNegativeCount
	}

	b.lastByte = -1
	b.lastRuneSize = -1

	for b.w-b.r < n && b.w-b.r < len(b.buf) && b.err == nil {
		b.fill() // b.w-b.r < len(b.buf) => buffer is not full
	}

	if n > len(b.buf) {
		return b.buf[b.r:b.w], bufio.ErrBufferFull
	}

	// 0 <= n <= len(b.buf)
	var err error
	if avail := b.w - b.r; avail < n {
		// not enough data in buffer
		n = avail
		err = b.readErr()
		if err == nil {
			err = bufio.ErrBufferFull
		}
	}
	return b.buf[b.r : b.r+n], err
}

func (b *BufioReader) Discard(n int) (discarded int, err error) {
	if n < 0 {
		return 0, bufio.ErrNegativeCount
	}
	if n == 0 {
		return
	}

	b.lastByte = -1
	b.lastRuneSize = -1

	remain := n
	for {
		skip := b.Buffered()
		if skip == 0 {
			b.fill()
			skip = b.Buffered()
		}
		if skip > remain {
			skip = remain
		}
		b.r += skip
		remain -= skip
		if remain == 0 {
			return n, nil
		}
		if b.err != nil {
			return n - remain, b.readErr()
		}
	}
}

func (b *BufioReader) Read(p []byte) (n int, err error) {
	Y()
	n = len(p)
	Y()
	if n == 0 {
		Y()
		if b.Buffered() > 0 {
			Y()
			return 0, nil
		}
		Y()
		return 0, b.readErr()
	}
	Y()
	if b.r == b.w {
		Y()
		if b.err != nil {
			Y()
			return 0, b.readErr()
		}
		Y()
		if len(p) >= len(b.buf) {
			// Large read, empty buffer.
			// Read directly into p to avoid copy.
			Y()
			n, b.err = b.rd.Read(p)
			Y()
			if n < 0 {
				Y()
				panic(errNegativeRead)
			}
			Y()
			if n > 0 {
				Y()
				b.lastByte = int(p[n-1])
				Y()
				b.lastRuneSize = -1
			}
			Y()
			return n, b.readErr()
		}
		// One read.
		// Do not use b.fill, which will loop.
		Y()
		b.r = 0
		Y()
		b.w = 0
		Y()
		n, b.err = b.rd.Read(b.buf)
		Y()
		if n < 0 {
			Y()
			panic(errNegativeRead)
		}
		Y()
		if n == 0 {
			Y()
			return 0, b.readErr()
		}
		Y()
		b.w += n
	}

	// copy as much as we can
	// Note: if the slice panics here, it is probably because
	// the underlying reader returned a bad count. See issue 49795.
	Y()
	n = copy(p, b.buf[b.r:b.w])
	Y()
	b.r += n
	Y()
	b.lastByte = int(b.buf[b.r-1])
	Y()
	b.lastRuneSize = -1
	Y()
	return n, nil
}

func (b *BufioReader) ReadByte() (byte, error) {
	b.lastRuneSize = -1
	for b.r == b.w {
		if b.err != nil {
			return 0, b.readErr()
		}
		b.fill() // buffer is empty
	}
	c := b.buf[b.r]
	b.r++
	b.lastByte = int(c)
	return c, nil
}

func (b *BufioReader) UnreadByte() error {
	if b.lastByte < 0 || b.r == 0 && b.w > 0 {
		return bufio.ErrInvalidUnreadByte
	}
	// b.r > 0 || b.w == 0
	if b.r > 0 {
		b.r--
	} else {
		// b.r == 0 && b.w == 0
		b.w = 1
	}
	b.buf[b.r] = byte(b.lastByte)
	b.lastByte = -1
	b.lastRuneSize = -1
	return nil
}

func (b *BufioReader) ReadRune() (r rune, size int, err error) {
	for b.r+utf8.UTFMax > b.w && !utf8.FullRune(b.buf[b.r:b.w]) && b.err == nil && b.w-b.r < len(b.buf) {
		b.fill() // b.w-b.r < len(buf) => buffer is not full
	}
	b.lastRuneSize = -1
	if b.r == b.w {
		return 0, 0, b.readErr()
	}
	r, size = utf8.DecodeRune(b.buf[b.r:b.w])
	b.r += size
	b.lastByte = int(b.buf[b.r-1])
	b.lastRuneSize = size
	return r, size, nil
}

func (b *BufioReader) UnreadRune() error {
	if b.lastRuneSize < 0 || b.r < b.lastRuneSize {
		return bufio.ErrInvalidUnreadRune
	}
	b.r -= b.lastRuneSize
	b.lastByte = -1
	b.lastRuneSize = -1
	return nil
}

func (b *BufioReader) Buffered() int { return b.w - b.r }

func (b *BufioReader) ReadSlice(delim byte) (line []byte, err error) {
	s := 0 // search start index
	for {
		// Search buffer.
		if i := bytes.IndexByte(b.buf[b.r+s:b.w], delim); i >= 0 {
			i += s
			line = b.buf[b.r : b.r+i+1]
			b.r += i + 1
			break
		}

		// Pending error?
		if b.err != nil {
			line = b.buf[b.r:b.w]
			b.r = b.w
			err = b.readErr()
			break
		}

		// Buffer full?
		if b.Buffered() >= len(b.buf) {
			b.r = b.w
			line = b.buf
			err = bufio.ErrBufferFull
			break
		}

		s = b.w - b.r // do not rescan area we scanned before

		b.fill() // buffer is not full
	}

	// Handle last byte, if any.
	if i := len(line) - 1; i >= 0 {
		b.lastByte = int(line[i])
		b.lastRuneSize = -1
	}

	return
}

func (b *BufioReader) ReadLine() (line []byte, isPrefix bool, err error) {
	line, err = b.ReadSlice('\n')
	if err == bufio.ErrBufferFull {
		// Handle the case where "\r\n" straddles the buffer.
		if len(line) > 0 && line[len(line)-1] == '\r' {
			// Put the '\r' back on buf and drop it from line.
			// Let the next call to ReadLine check for "\r\n".
			if b.r == 0 {
				// should be unreachable
				panic("bufio: tried to rewind past start of buffer")
			}
			b.r--
			line = line[:len(line)-1]
		}
		return line, true, nil
	}

	if len(line) == 0 {
		if err != nil {
			line = nil
		}
		return
	}
	err = nil

	if line[len(line)-1] == '\n' {
		drop := 1
		if len(line) > 1 && line[len(line)-2] == '\r' {
			drop = 2
		}
		line = line[:len(line)-drop]
	}
	return
}

func (b *BufioReader) collectFragments(delim byte) (fullBuffers [][]byte, finalFragment []byte, totalLen int, err error) {
	var frag []byte
	// Use ReadSlice to look for delim, accumulating full buffers.
	for {
		var e error
		frag, e = b.ReadSlice(delim)
		if e == nil { // got final fragment
			break
		}
		if e != bufio.ErrBufferFull { // unexpected error
			err = e
			break
		}

		// Make a copy of the buffer.
		buf := bytes.Clone(frag)
		fullBuffers = append(fullBuffers, buf)
		totalLen += len(buf)
	}

	totalLen += len(frag)
	return fullBuffers, frag, totalLen, err
}

func (b *BufioReader) ReadBytes(delim byte) ([]byte, error) {
	full, frag, n, err := b.collectFragments(delim)
	// Allocate new buffer to hold the full pieces and the fragment.
	buf := make([]byte, n)
	n = 0
	// Copy full pieces and fragment in.
	for i := range full {
		n += copy(buf[n:], full[i])
	}
	copy(buf[n:], frag)
	return buf, err
}

func (b *BufioReader) ReadString(delim byte) (string, error) {
	full, frag, n, err := b.collectFragments(delim)
	// Allocate new buffer to hold the full pieces and the fragment.
	var buf strings.Builder
	buf.Grow(n)
	// Copy full pieces and fragment in.
	for _, fb := range full {
		buf.Write(fb)
	}
	buf.Write(frag)
	return buf.String(), err
}

func (b *BufioReader) WriteTo(w io.Writer) (n int64, err error) {
	b.lastByte = -1
	b.lastRuneSize = -1

	if b.r < b.w {
		n, err = b.writeBuf(w)
		if err != nil {
			return
		}
	}

	if r, ok := b.rd.(io.WriterTo); ok {
		m, err := r.WriteTo(w)
		n += m
		return n, err
	}

	if w, ok := w.(io.ReaderFrom); ok {
		m, err := w.ReadFrom(b.rd)
		n += m
		return n, err
	}

	if b.w-b.r < len(b.buf) {
		b.fill() // buffer not full
	}

	for b.r < b.w {
		// b.r < b.w => buffer is not empty
		m, err := b.writeBuf(w)
		n += m
		if err != nil {
			return n, err
		}
		b.fill() // buffer is empty
	}

	if b.err == io.EOF {
		b.err = nil
	}

	return n, b.readErr()
}

var errNegativeWrite = errors.New("bufio: writer returned negative count from Write")

func (b *BufioReader) writeBuf(w io.Writer) (int64, error) {
	n, err := w.Write(b.buf[b.r:b.w])
	if n < 0 {
		panic(errNegativeWrite)
	}
	b.r += n
	return int64(n), err
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
