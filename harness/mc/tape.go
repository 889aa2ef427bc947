package mc

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"sync"
)

// ErrTape is what a failing tape returns.
var ErrTape = errors.New("scripted random source failure")

// Tape is a scripted random source: the answer to the k-th read is a function
// of the label and k (the default answer), unless Answer or Fail says otherwise.
type Tape struct {
	mu    sync.Mutex
	label string
	n     int
	// Answer, when not nil, may replace the k-th default answer.
	Answer map[int][]byte
	// FailAt is the first read that fails (-1: none); FailOnce limits the failure to it.
	FailAt   int
	FailOnce bool
	// FailMode: 0 error, 1 io.EOF, 2 short read followed by error.
	FailMode int
	// All, when not nil, answers every read.
	All func(k int, p []byte)
}

// NewTape makes a tape whose default answers are derived from the label.
func NewTape(label string) *Tape { return &Tape{label: label, FailAt: -1} }

// Reads is the number of reads so far.
func (t *Tape) Reads() int { t.mu.Lock(); defer t.mu.Unlock(); return t.n }

// Default fills p with the default answer to read k.
func (t *Tape) Default(k int, p []byte) {
	for off := 0; off < len(p); off += 32 {
		var b [16]byte
		binary.BigEndian.PutUint64(b[:], uint64(k))
		binary.BigEndian.PutUint64(b[8:], uint64(off))
		h := sha256.Sum256(append([]byte(t.label), b[:]...))
		copy(p[off:], h[:])
	}
	// Keep the default draws below the group orders, so that the
	// rejection loop of rand.Int never fires and draw k is read k.
	if len(p) == 32 {
		p[0] &= 0x1f
	}
}

func (t *Tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	k := t.n
	t.n++
	if t.FailAt >= 0 && (k == t.FailAt || k > t.FailAt && !t.FailOnce) {
		switch t.FailMode {
		case 1:
			return 0, io.EOF
		case 2:
			for i := 0; i < len(p)/2; i++ {
				p[i] = 0
			}
			return len(p) / 2, ErrTape
		}
		return 0, ErrTape
	}
	if t.All != nil {
		t.All(k, p)
		return len(p), nil
	}
	if a, ok := t.Answer[k]; ok {
		for i := range p {
			p[i] = 0
		}
		if len(a) > len(p) {
			a = a[len(a)-len(p):]
		}
		copy(p[len(p)-len(a):], a)
		return len(p), nil
	}
	t.Default(k, p)
	return len(p), nil
}

// UseTape makes the tape the process's source of randomness.
func UseTape(t *Tape) *Tape { rand.Reader = t; return t }
