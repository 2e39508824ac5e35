package main

import (
	"bytes"
	"hash"
	"sync"

	"github.com/mmdet/mcrypto/sm3"
)

func init() {
	drivers["sm3chunks"] = sm3Chunks
	drivers["sm3hist"] = sm3Hist
	drivers["sm3long"] = sm3Long
}

// recorded operations on hash objects

type sm3rec struct {
	ev  []M
	obj map[int]hash.Hash
	r   *Rng
	mk  func(o int) (hash.Hash, int) // what slot o gets, and the identifier it was made from
}

func newRec(r *Rng) *sm3rec {
	return &sm3rec{obj: map[int]hash.Hash{}, r: r, mk: func(int) (hash.Hash, int) { return sm3.New(), 20 }}
}

func (s *sm3rec) create(o int) {
	e := M{"op": "new", "o": o, "size": -1, "bsize": -1, "j": 0}
	e["panic"] = try(func() {
		h, j := s.mk(o)
		e["j"] = j
		s.obj[o] = h
		e["size"], e["bsize"] = h.Size(), h.BlockSize()
	})
	s.ev = append(s.ev, e)
}

func (s *sm3rec) write(o int, d []byte) {
	keep := clone(d)
	// spare capacity behind the chunk: it must not be touched either
	buf := append(clone(d), 0xAA, 0xAA, 0xAA, 0xAA)
	e := M{"op": "write", "o": o, "d": B(keep), "n": -1, "err": "", "same": true}
	e["panic"] = try(func() {
		n, err := s.obj[o].Write(buf[:len(d)])
		e["n"], e["err"] = n, es(err)
	})
	e["same"] = bytes.Equal(buf[:len(d)], keep) && bytes.Equal(buf[len(d):], []byte{0xAA, 0xAA, 0xAA, 0xAA})
	// the caller reuses its buffer: a retained reference would see this
	for i := range buf {
		buf[i] ^= 0x5C
	}
	s.ev = append(s.ev, e)
}

func (s *sm3rec) sum(o int, pre []byte, spare int) {
	buf := make([]byte, len(pre), len(pre)+spare)
	copy(buf, pre)
	var in []byte = buf
	if pre == nil {
		in = nil
	}
	e := M{"op": "sum", "o": o, "pre": B(clone(pre)), "out": B{}, "same": true}
	e["panic"] = try(func() {
		out := s.obj[o].Sum(in)
		e["out"] = B(clone(out))
		e["same"] = bytes.Equal(buf, pre)
		// the caller owns the result
		for i := range out {
			out[i] ^= 0xFF
		}
	})
	s.ev = append(s.ev, e)
}

func (s *sm3rec) reset(o int) {
	e := M{"op": "reset", "o": o}
	e["panic"] = try(func() { s.obj[o].Reset() })
	s.ev = append(s.ev, e)
}

func (s *sm3rec) one(d []byte) {
	keep := clone(d)
	e := M{"op": "one", "d": B(keep), "out": B{}, "same": true}
	e["panic"] = try(func() {
		out := sm3.Sum(d)
		e["out"] = B(clone(out))
		for i := range out {
			out[i] ^= 0xFF
		}
	})
	e["same"] = bytes.Equal(keep, d)
	s.ev = append(s.ev, e)
}

type step struct {
	Op  string `json:"op"`
	O   int    `json:"o"`
	N   int    `json:"n"`
	Pre int    `json:"pre"`
}

// sm3Chunks: every one-shot length of interest, and every transition (bytes buffered, bytes written) that the
// specification's state graph has (scenario file written by TLC)
func sm3Chunks(c *Ctx) {
	r := c.Rng
	var lens []int
	for i := 0; i <= 330; i++ {
		lens = append(lens, i)
	}
	for _, k := range []int{6, 8, 15, 16, 32, 100, 128} {
		for d := -10; d <= 10; d++ {
			lens = append(lens, 64*k+d)
		}
	}
	if !c.Quick {
		for i := 331; i <= 2100; i++ {
			lens = append(lens, i)
		}
		for _, k := range []int{1023, 1024, 2048, 4096, 16384} {
			for d := -9; d <= 9; d++ {
				lens = append(lens, 64*k+d)
			}
		}
	}
	id := 0
	for _, n := range lens {
		s := newRec(r)
		d := r.Bytes(n)
		s.one(d)
		s.create(1)
		// the same bytes in random pieces, with empty writes
		rest := d
		for len(rest) > 0 {
			k := r.Intn(len(rest) + 1)
			if r.Intn(4) == 0 {
				k = 0
			} else if r.Intn(3) == 0 && k > 70 {
				k = r.Intn(70)
			}
			s.write(1, rest[:k])
			rest = rest[k:]
		}
		s.sum(1, nil, 0)
		id++
		c.Out.Put(M{"id": id, "ev": s.ev})
	}
	// structured contents
	for _, pat := range [][]byte{{0}, {0xFF}, {0x80}, {0, 0, 0, 1}, {0xFF, 0}} {
		for _, n := range []int{1, 55, 56, 63, 64, 65, 119, 120, 128, 192} {
			s := newRec(r)
			s.one(bytes.Repeat(pat, n)[:n])
			id++
			c.Out.Put(M{"id": id, "ev": s.ev})
		}
	}
	// single-bit differences in every bit of a block (each message bit matters)
	base := r.Bytes(64)
	for bit := 0; bit < 512; bit++ {
		s := newRec(r)
		d := clone(base)
		d[bit/8] ^= 1 << uint(bit%8)
		s.one(d)
		id++
		c.Out.Put(M{"id": id, "ev": s.ev})
	}
	if c.In != "" {
		var sc [][2]int
		readJSON(c.In, &sc)
		for _, x := range sc {
			s := newRec(r)
			s.create(1)
			t, n := x[0], x[1]
			// reach the buffer state t, sometimes over earlier blocks and in two steps
			if r.Intn(2) == 0 {
				t += 64 * r.Intn(3)
			}
			k := r.Intn(t + 1)
			s.write(1, r.Bytes(k))
			s.write(1, r.Bytes(t-k))
			s.write(1, r.Bytes(n))
			s.sum(1, nil, 0)
			id++
			c.Out.Put(M{"id": id, "ev": s.ev})
		}
	}
}

// play: the operations of one history, and every object's digest at the end
func (s *sm3rec) play(h []step) {
	r := s.r
	made := map[int]bool{}
	for _, st := range h {
		if !made[st.O] {
			s.create(st.O)
			made[st.O] = true
			if st.Op == "new" {
				continue
			}
		}
		switch st.Op {
		case "new":
			s.create(st.O)
		case "write":
			s.write(st.O, r.Bytes(st.N))
		case "sum":
			if st.Pre == 0 {
				s.sum(st.O, nil, 0)
			} else {
				s.sum(st.O, r.Bytes(st.Pre-1), r.Intn(3)*30)
			}
		case "reset":
			s.reset(st.O)
		case "one":
			s.one(r.Bytes(st.N))
		}
	}
	// every object's final digest
	for o := 1; o <= 6; o++ {
		if made[o] {
			s.sum(o, nil, 0)
		}
	}
}

// sm3Hist: histories on several objects; the operations come from TLC's simulation of the specification
func sm3Hist(c *Ctx) {
	r := c.Rng
	var hs [][]step
	readJSON(c.In, &hs)
	rs := make([]*Rng, len(hs))
	for i := range rs {
		rs[i] = r.Fork()
	}
	res := make([]M, len(hs))
	// histories run concurrently: their objects are independent, so each must behave as if it were alone
	parallel(len(hs), func(i int) {
		h, r := hs[i], rs[i]
		s := newRec(r)
		s.play(h)
		res[i] = M{"id": i + 1, "ev": s.ev}
	})
	for _, m := range res {
		c.Out.Put(m)
	}
}

// sm3Long: messages whose bit (or byte) count does not fit in 32 bits
func sm3Long(c *Ctx) {
	r := c.Rng
	pat := r.Bytes(64 * 1024) // 2^16 bytes
	type job struct {
		n    int // repetitions of pat
		tail []byte
		mode string
	}
	// 2^29 bytes = 8192 patterns, 2^32 bits
	jobs := []job{
		{8192, nil, "one"},
		{8191, r.Bytes(65535), "stream"},
		{8192 + 1, r.Bytes(57), "stream"},
	}
	if !c.Quick {
		jobs = append(jobs, job{65536, r.Bytes(3), "stream"}, job{65536, nil, "bigwrites"}, job{16384, r.Bytes(64), "one"},
			job{32768, r.Bytes(1), "stream"})
	}
	var wg sync.WaitGroup
	evs := make([]M, len(jobs))
	for i := range jobs {
		wg.Add(1)
		rr := r.Fork()
		go func(i int) {
			defer wg.Done()
			j := jobs[i]
			total := int64(j.n)*int64(len(pat)) + int64(len(j.tail))
			e := M{"op": "long", "pat": B(pat), "n": j.n, "tail": B(j.tail), "mb": int(total >> 20), "lo": int(total & (1<<20 - 1)),
				"mode": j.mode, "out": B{}}
			e["panic"] = try(func() {
				switch j.mode {
				case "one":
					d := bytes.Repeat(pat, j.n)
					d = append(d, j.tail...)
					e["out"] = B(sm3.Sum(d))
				case "stream":
					h := sm3.New()
					for k := 0; k < j.n; k++ {
						c := rr.Intn(len(pat) + 1)
						h.Write(pat[:c])
						h.Write(pat[c:])
					}
					h.Write(j.tail)
					e["out"] = B(h.Sum(nil))
				case "bigwrites":
					h := sm3.New()
					d := bytes.Repeat(pat, 4096)
					for k := 0; k < j.n; k += 4096 {
						h.Write(d)
					}
					h.Write(j.tail)
					e["out"] = B(h.Sum(nil))
				}
			})
			evs[i] = e
		}(i)
	}
	wg.Wait()
	for i, e := range evs {
		c.Out.Put(M{"id": i + 1, "ev": []M{e}})
	}
}
