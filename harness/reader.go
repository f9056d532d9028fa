package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
)

// ReaderSpec describes how a reader hands out its bytes.
type ReaderSpec struct {
	Chunks  []int  `json:"chunks,omitempty"` // sizes of the reads, cyclically; 0 is an empty read; none: as much as asked
	WithEOF bool   `json:"witheof,omitempty"`
	FailAt  int    `json:"failat,omitempty"`   // fail after this many bytes when positive
	Fail0   bool   `json:"fail0,omitempty"`    // fail at once
	With    bool   `json:"withfail,omitempty"` // the error comes along with the last bytes
	FailErr string `json:"failerr,omitempty"`
	Resume  bool   `json:"resume,omitempty"`  // what the failure left comes if one goes on reading
	Panic   bool   `json:"panic,omitempty"`   // panic rather than fail
	Burst   int    `json:"burst,omitempty"`   // the listener panics at this result (from 1)
	Scratch bool   `json:"scratch,omitempty"` // all of what is to be read into serves as scratch space
	Spoil   bool   `json:"spoil,omitempty"`   // the listener overwrites the results it gets
	Pauses  []int  `json:"pauses,omitempty"`  // milliseconds to wait before the first reads
	Linger  []int  `json:"linger,omitempty"`  // milliseconds the listener takes for the first results
	Std     string `json:"std,omitempty"`     // which reader of the standard library stands in front or instead
}

func (s *ReaderSpec) fails(n int) bool { return s != nil && (s.Fail0 || s.FailAt > 0 && s.FailAt <= n) }

// delivered is the part of the stream that the reader hands out.
func (s *ReaderSpec) delivered(in []byte) []byte {
	if s == nil {
		return in
	}
	if s.Fail0 {
		return in[:0]
	}
	if s.FailAt > 0 && s.FailAt <= len(in) {
		return in[:s.FailAt]
	}
	return in
}

// event of a stream: what happened on the reader and on the listener, in order.
type event struct {
	read    bool
	off     int // read: bytes handed out before the call
	asked   int
	n       int
	err     error
	emitted int // results emitted before this event
}

// monReader is the reader given to the code under test; it logs what it is asked.
type monReader struct {
	data   []byte
	spec   *ReaderSpec
	off    int
	k      int
	log    *[]event
	hook   func(r *monReader) // before every read
	after  int                // reads after the end
	pauses int                // done
	failed error
	rest   []byte // to come after a failure
}

func newReader(in []byte, spec *ReaderSpec) *monReader {
	r := &monReader{data: spec.delivered(in), spec: spec}
	r.failed = io.EOF
	if spec.fails(len(in)) {
		switch spec.FailErr {
		case "unexpected EOF":
			r.failed = io.ErrUnexpectedEOF
		case "io.EOF":
			r.failed = io.EOF
		case "wrapped EOF":
			r.failed = fmt.Errorf("reading: %w", io.EOF)
		case "deadline":
			r.failed = os.ErrDeadlineExceeded // it is a timeout
		case "EAGAIN":
			r.failed = syscall.EAGAIN // it is temporary
		case "no progress", "stalled":
			r.failed = io.ErrNoProgress
		case "net":
			r.failed = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		case "":
			r.failed = errors.New("connection reset by peer")
		default:
			r.failed = errors.New(spec.FailErr)
		}
		if spec.Resume {
			r.rest = in[len(r.data):]
		}
	}
	return r
}

// injected is the fault that makes readers and listeners panic.
type injected struct{}

// parseThrough parses a stream; it tells whether that ended by an injected panic.
func parseThrough(p syslog.Parser, r io.Reader) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ours := e.(injected); !ours {
				panic(e)
			}
			panicked = true
		}
	}()
	if m, ok := r.(*monReader); ok {
		r = m.reader()
	}
	if c, ok := r.(closing); ok {
		defer c.Close()
	}
	p.Parse(r)
	return false
}

func (r *monReader) Read(p []byte) (n int, err error) {
	if r.hook != nil {
		r.hook(r)
	}
	if r.spec != nil && r.pauses < len(r.spec.Pauses) {
		time.Sleep(time.Duration(r.spec.Pauses[r.pauses]) * time.Millisecond)
		r.pauses++
	}
	off := r.off
	defer func() {
		if r.log != nil {
			*r.log = append(*r.log, event{read: true, off: off, asked: len(p), n: n, err: err})
		}
	}()
	left := len(r.data) - r.off
	if r.spec != nil && r.spec.Scratch {
		copy(p, scratch)
		if len(p) > 2*len(scratch) {
			copy(p[len(p)-len(scratch):], scratch)
		}
	}
	if left == 0 && r.spec != nil && r.spec.Panic && r.failed != io.EOF {
		panic(injected{})
	}
	if left == 0 {
		r.after++
		if r.spec != nil && r.spec.FailErr == "stalled" && r.failed == io.ErrNoProgress {
			return 0, nil
		}
		err := r.failed
		r.resume()
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n = minInt(left, len(p))
	if r.spec != nil && len(r.spec.Chunks) > 0 {
		c := r.spec.Chunks[r.k%len(r.spec.Chunks)]
		r.k++
		n = minInt(n, c)
		if c == 0 {
			return 0, nil
		}
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.spec != nil && r.off == len(r.data) {
		if r.failed == io.EOF && r.spec.WithEOF || r.failed != io.EOF && r.spec.With {
			err := r.failed
			r.resume()
			return n, err
		}
	}
	return n, nil
}

var scratch = strings.Repeat("<1>1 \n\x000[", 25)

// resume makes what the failure left come next.
func (r *monReader) resume() {
	if len(r.rest) > 0 {
		r.data = append(r.data[:len(r.data):len(r.data)], r.rest...)
		r.rest = nil
		r.failed = io.EOF
	}
}

// stdReaders are the readers of the standard library which streams come through.
var stdReaders = []string{"buffer", "bytes", "strings", "bufio16", "bufio4096", "bufio70000", "peeked", "pipe", "limited", "multi", "tee", "section"}

// reader gives the reader to parse from: the monitored one, or one of the standard library getting its octets from it.
func (r *monReader) reader() io.Reader {
	if r.spec == nil {
		return r
	}
	switch r.spec.Std {
	case "bufio16":
		return bufio.NewReaderSize(r, 16)
	case "bufio4096":
		return bufio.NewReader(r)
	case "bufio70000":
		return bufio.NewReaderSize(r, 70000)
	case "peeked":
		b := bufio.NewReaderSize(r, 9000)
		if len(r.rest) == 0 {
			b.Peek(1 + len(r.data)/2) // it would take a failure away
		}
		return b
	case "tee":
		return io.TeeReader(r, io.Discard)
	case "pipe":
		p, w := io.Pipe()
		go func() {
			for {
				var b [64]byte
				n, err := r.Read(b[:])
				if n > 0 {
					if _, e := w.Write(b[:n]); e != nil {
						return
					}
				}
				if err != nil {
					w.CloseWithError(err)
					return
				}
			}
		}()
		return closing{p}
	}
	if r.failed != io.EOF {
		return r
	}
	switch r.spec.Std {
	case "buffer":
		return bytes.NewBuffer(r.data)
	case "bytes":
		return bytes.NewReader(r.data)
	case "strings":
		return strings.NewReader(string(r.data))
	case "limited":
		return io.LimitReader(io.MultiReader(r, strings.NewReader("<1>1 - - - - - -\n")), int64(len(r.data)))
	case "multi":
		k := len(r.data) / 3
		return io.MultiReader(bytes.NewReader(r.data[:k]), strings.NewReader(""), bytes.NewBuffer(r.data[k:2*k]), strings.NewReader(string(r.data[2*k:])))
	case "section":
		return io.NewSectionReader(strings.NewReader("x"+string(r.data)+"16 <1>1 - - - - - -\n"), 1, int64(len(r.data)))
	}
	return r
}

// closing is the reading end of a pipe, to be closed after the parsing so that the writer ends too.
type closing struct{ *io.PipeReader }

// randReader picks a way to hand out n bytes, without faults.
func randReader(r *rand.Rand, n int) *ReaderSpec {
	s := &ReaderSpec{WithEOF: r.Intn(2) == 0, Spoil: r.Intn(8) == 0, Scratch: r.Intn(8) == 0}
	if r.Intn(3000) == 0 {
		// Somebody takes some time, once
		wait := []int{5, 60, 300, 700, 1200}[r.Intn(5)]
		if r.Intn(2) == 0 {
			s.Pauses = make([]int, 1+r.Intn(4))
			s.Pauses[len(s.Pauses)-1] = wait
		} else {
			s.Linger = make([]int, 1+r.Intn(2))
			s.Linger[len(s.Linger)-1] = wait
		}
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		s.Chunks = []int{1}
	case 2:
		s.Chunks = []int{0, 1}
	case 3:
		s.Chunks = []int{1 + r.Intn(16)}
	case 4:
		for k := 1 + r.Intn(6); k > 0; k-- {
			c := r.Intn(20)
			if r.Intn(4) == 0 {
				c = []int{4095, 4096, 4097, 8192, 100, 511, 512, 513}[r.Intn(8)]
			}
			if n, ok := hot(r, 1, 100000); ok {
				c = n
			}
			s.Chunks = append(s.Chunks, c)
		}
		s.Chunks = append(s.Chunks, 1+r.Intn(50))
	case 5:
		s.Chunks = []int{1 + r.Intn(n+1), 1 + r.Intn(n+1), 1}
	}
	return s
}

// fault makes a reader fail after at bytes.
func fault(r *rand.Rand, s *ReaderSpec, at int) *ReaderSpec {
	if at == 0 {
		s.Fail0 = true
	} else {
		s.FailAt = at
	}
	s.With = r.Intn(2) == 0
	s.FailErr = pick(r, "", "unexpected EOF", "i/o timeout", "EOF", "wrapped EOF", "deadline", "EAGAIN", "no progress", "net", "io.EOF")
	s.Resume = r.Intn(2) == 0
	return s
}
