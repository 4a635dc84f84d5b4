// Package lib holds reference models and fakes shared by the harnesses.
package lib

import "errors"

// Bit returns bit i (MSB first) of b.
func Bit(b []byte, i int) uint64 { return uint64(b[i>>3]>>(7-uint(i&7))) & 1 }

// Chunked is an io.Reader that returns at most K bytes per call.
type Chunked struct {
	B []byte
	K int
}

var EOF = errors.New("lib: EOF")

func (c *Chunked) Read(p []byte) (int, error) {
	if len(c.B) == 0 {
		return 0, EOF
	}
	n := len(p)
	if n > c.K {
		n = c.K
	}
	n = copy(p[:n], c.B)
	c.B = c.B[n:]
	return n, nil
}

// Sink is an io.Writer collecting bytes.
type Sink struct{ B []byte }

func (s *Sink) Write(p []byte) (int, error) {
	s.B = append(s.B, p...)
	return len(p), nil
}
