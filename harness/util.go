package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// ---- byte strings travel as arrays of integers: the specification treats them as TLA+ sequences

type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	var w bytes.Buffer
	w.WriteByte('[')
	for i, x := range b {
		if i > 0 {
			w.WriteByte(',')
		}
		fmt.Fprintf(&w, "%d", x)
	}
	w.WriteByte(']')
	return w.Bytes(), nil
}

func (b *B) UnmarshalJSON(d []byte) error {
	var a []int
	if err := json.Unmarshal(d, &a); err != nil {
		return err
	}
	*b = make([]byte, len(a))
	for i, x := range a {
		(*b)[i] = byte(x)
	}
	return nil
}

// nonnegative big integer as canonical big-endian bytes (empty = 0)
func N(x *big.Int) B {
	if x == nil {
		return B{}
	}
	return B(new(big.Int).Abs(x).Bytes())
}

// signed big integer: [sign, magnitude]
type Z struct {
	Neg bool `json:"neg"`
	Mag B    `json:"mag"`
}

func SZ(x *big.Int) Z { return Z{x.Sign() < 0, N(x)} }

type M map[string]interface{}

// ---- trace output

type Out struct {
	f  *os.File
	w  *bufio.Writer
	n  int
	mu sync.Mutex
}

func NewOut(path string) *Out {
	f, err := os.Create(path)
	if err != nil {
		die(err)
	}
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (o *Out) Put(rec interface{}) {
	d, err := json.Marshal(rec)
	if err != nil {
		die(err)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Write(d)
	o.w.WriteByte('\n')
	o.n++
}

func (o *Out) Close() {
	o.mu.Lock()
	defer o.mu.Unlock()
	if err := o.w.Flush(); err != nil {
		die(err)
	}
	o.f.Close()
}

func die(err interface{}) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

// ---- calls of the code under test

// how long a call may take before it counts as hanging (normal calls take milliseconds)
var hangAfter = 60 * time.Second
var hangs int32

// call runs f and returns "" or how it failed to return: a panic or a hang.
func call(f func()) (trouble string) {
	if atomic.LoadInt32(&hangs) >= 8 {
		// what hung is still running, and there is no end to it
		return "hang: not called, because eight calls before it have not returned"
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				msg := fmt.Sprint("panic: ", e)
				if os.Getenv("VERIF_DEBUG") != "" {
					msg += string(debug.Stack())
				}
				done <- msg
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(hangAfter)
	defer t.Stop()
	select {
	case s := <-done:
		return s
	case <-t.C:
		if atomic.AddInt32(&hangs, 1) > 4 {
			hangAfter = 5 * time.Second
		}
		return "hang: no answer within the time limit"
	}
}

// inline variant without a goroutine, for calls that cannot loop on their input
func try(f func()) (trouble string) {
	defer func() {
		if e := recover(); e != nil {
			trouble = fmt.Sprint("panic: ", e)
			if os.Getenv("VERIF_DEBUG") != "" {
				trouble += string(debug.Stack())
			}
		}
	}()
	f()
	return
}

func es(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if s == "" {
		s = "error"
	}
	return s
}

// ---- randomness

type Rng struct{ *rand.Rand }

func NewRng(seed int64) *Rng { return &Rng{rand.New(rand.NewSource(seed))} }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// fork gives an independent stream
func (r *Rng) Fork() *Rng { return NewRng(r.Int63()) }

// BigIn returns a number in [lo, hi]
func (r *Rng) BigIn(lo, hi *big.Int) *big.Int {
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big.NewInt(1))
	x := new(big.Int).Rand(r.Rand, w)
	return x.Add(x, lo)
}

// readers with faults

var errReader = errors.New("verif: the random source failed")

// oneByte delivers at most one byte per Read
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// failAfter delivers n bytes and then fails (err) for ever
type failAfter struct {
	r   io.Reader
	n   int
	err error
}

func (f *failAfter) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, f.err
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	m, err := f.r.Read(p)
	f.n -= m
	return m, err
}

// counting counts the bytes delivered
type counting struct {
	r io.Reader
	n int
}

func (c *counting) Read(p []byte) (int, error) {
	m, err := c.r.Read(p)
	c.n += m
	return m, err
}

// script delivers the given bytes and then continues with r
type script struct {
	b []byte
	r io.Reader
}

func (s *script) Read(p []byte) (int, error) {
	if len(s.b) > 0 {
		n := copy(p, s.b)
		s.b = s.b[n:]
		return n, nil
	}
	return s.r.Read(p)
}

// constant delivers one byte value for ever
type constant byte

func (c constant) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(c)
	}
	return len(p), nil
}

// ---- parallel map keeping order

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func readJSON(path string, v interface{}) {
	d, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(d, v); err != nil {
		die(err)
	}
}
func clone(b []byte) []byte { return append([]byte{}, b...) }

// keysOf are the keys of a map in their order: what is made of them does not depend on Go's order of maps
func keysOf[V any](m map[string]V) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
