// C24: every failure of the random source in every randomised operation.
package main

import (
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bpx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

// op is one randomised operation. It returns its result, and whether that is a success.
type op struct {
	name string
	do   func() (interface{}, bool)
	// check says whether a result made with good randomness is right.
	check func(interface{}) bool
	heavy bool
	zero  bool // the operation may draw nothing
}

func run(o *op) (res interface{}, ok bool, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			res, ok, panicked = nil, false, fmt.Sprint(r)
		}
	}()
	res, ok = o.do()
	return
}

func ptr(b interface{}, err error) (interface{}, bool) { return b, err == nil }

func operations() []*op {
	var out []*op
	for _, n := range bpx.Ns {
		n := n
		for _, x := range []*big.Int{zk.B(0), new(big.Int).Sub(zk.Pow2(n), zk.B(1)), zk.Pow2(n)} {
			x := x
			in := x.Cmp(zk.Pow2(n)) < 0
			out = append(out, &op{fmt.Sprintf("Prove(%v) for N=%d", x, n), func() (interface{}, bool) {
				p, err := bulletproofs.Prove(x, bpx.Params(n))
				return &p, err == nil
			}, func(v interface{}) bool {
				ok, _, _ := bpx.Verify(v.(*bulletproofs.BulletProof))
				return ok == in
			}, n > 8, false})
		}
	}
	for _, x := range []int64{18, 40, 200} {
		x := x
		params, err := bulletproofs.SetupGeneric(18, 200)
		if err != nil {
			panic(err)
		}
		out = append(out, &op{fmt.Sprintf("ProveGeneric(%d) for [18,200)", x), func() (interface{}, bool) {
			p, err := bulletproofs.ProveGeneric(zk.B(x), params)
			return &p, err == nil
		}, func(v interface{}) bool { ok, _ := v.(*bulletproofs.ProofBPRP).Verify(); return ok == (x < 200) }, true, false})
	}
	out = append(out, &op{"Keygen", func() (interface{}, bool) {
		k, err := bbsignatures.Keygen()
		return &k, err == nil
	}, func(v interface{}) bool {
		k := v.(*bbsignatures.Keypair)
		return k.Pubk != nil && cx.Enc(k.Pubk) == cx.Enc(new(bn256.G1).ScalarBaseMult(k.Privk))
	}, false, false})
	for _, s := range [][]int64{{}, {7}, {1, 5, 12}, {0, 0}} {
		s := s
		out = append(out, &op{fmt.Sprintf("SetupSet(%v)", s), func() (interface{}, bool) {
			p, err := ccs08.SetupSet(s)
			return &p, err == nil
		}, func(v interface{}) bool { return cx.Get(v, "kp", "Pubk").(*bn256.G1) != nil }, false, false})
	}
	for _, ul := range [][2]int64{{2, 1}, {3, 2}, {10, 5}, {0, 0}, {1, 1}} {
		ul := ul
		out = append(out, &op{fmt.Sprintf("SetupUL(%d,%d)", ul[0], ul[1]), func() (interface{}, bool) {
			p, err := ccs08.SetupUL(ul[0], ul[1])
			return &p, err == nil
		}, func(v interface{}) bool { return cx.Get(v, "kp", "Pubk").(*bn256.G1) != nil }, false, ul[0] < 2})
	}
	out = append(out, &op{"Setup(2,50)", func() (interface{}, bool) {
		z := new(ccs08.XCcs08)
		err := z.Setup(2, 50)
		return z, err == nil
	}, func(v interface{}) bool { return cx.Get(v, "p", "p", "kp", "Pubk").(*bn256.G1) != nil }, true, false})
	mc.UseTape(mc.NewTape("params"))
	ps, err := ccs08.SetupSet([]int64{1, 5, 12})
	if err != nil {
		panic(err)
	}
	pu, err := ccs08.SetupUL(3, 3)
	if err != nil {
		panic(err)
	}
	rs := map[string]*big.Int{"0": zk.B(0), "r": zk.Hex("123456789abcdef")}
	for _, rn := range []string{"0", "r"} {
		r := rs[rn]
		out = append(out, &op{"ProveSet(5," + rn + ")", func() (interface{}, bool) { return ptr(cx.ProveSet(5, r, &ps)) },
			func(v interface{}) bool { ok, _ := cx.VerifySet(v, &ps); return ok }, false, false})
		for _, x := range []int64{0, 16, 26} {
			x := x
			out = append(out, &op{fmt.Sprintf("ProveUL(%d,%s)", x, rn), func() (interface{}, bool) { return ptr(cx.ProveUL(zk.B(x), r, &pu)) },
				func(v interface{}) bool { ok, _ := cx.VerifyUL(v, &pu); return ok }, true, false})
		}
	}
	var z *ccs08.XCcs08
	out = append(out, &op{"Prove for [18,50)", func() (interface{}, bool) {
		if z == nil {
			z = new(ccs08.XCcs08)
			old := rand.Reader
			mc.UseTape(mc.NewTape("z"))
			if z.Setup(18, 50) != nil {
				panic("Setup")
			}
			rand.Reader = old
		}
		w := zk.Clone(z).(*ccs08.XCcs08)
		ccs08.XSet(w, zk.B(20), zk.B(77))
		if w.Prove() != nil {
			return w, false
		}
		// Prove does not report everything: an incomplete proof is none.
		ok, _ := cx.Quiet(w.Verify)
		return w, ok
	}, func(v interface{}) bool { ok, _ := v.(*ccs08.XCcs08).Verify(); return ok }, true, false})
	for _, g := range []string{"G1", "G2"} {
		g := g
		out = append(out, &op{"Random" + g, func() (interface{}, bool) {
			if g == "G1" {
				k, p, err := bn256.RandomG1(rand.Reader)
				return []interface{}{k, p}, err == nil
			}
			k, p, err := bn256.RandomG2(rand.Reader)
			return []interface{}{k, p}, err == nil
		}, func(v interface{}) bool { return v.([]interface{})[0].(*big.Int) != nil }, false, false})
	}
	return out
}

// slow delivers a fixed stream of bytes in pieces.
type slow struct {
	label string
	pos   int
	max   func(k int) int
	calls int
	fail  int // position at which the stream ends, or -1
	mode  error
}

func (s *slow) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	m := s.max(s.calls)
	s.calls++
	if m < len(p) {
		p = p[:m]
	}
	n := 0
	for n < len(p) {
		if s.fail >= 0 && s.pos >= s.fail {
			return n, s.mode
		}
		b := make([]byte, 32)
		mc.NewTape(s.label).Default(s.pos/32, b)
		if s.pos%32 == 0 && s.pos/32%7 == 3 {
			b[0] |= 0xe0 // an answer that is to be drawn again
		} else if s.pos%32 == 0 {
			b[0] &= 0x1f
		}
		p[n] = b[s.pos%32]
		n++
		s.pos++
	}
	return n, nil
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		cx.Canonical()
		ops := operations()
		modes := []string{"error", "EOF", "short read and error"}
		for _, o := range ops {
			o := o
			mc.UseTape(mc.NewTape("reference" + o.name))
			tape := mc.NewTape("reference" + o.name)
			mc.UseTape(tape)
			res, ok, pan := run(o)
			n := tape.Reads()
			want := ""
			if ok {
				want = zk.Dump(res)
			}
			c.Case("without failures", o.name, func(t *mc.T) {
				t.Check(pan == "" && ok, "%s fails with a working random source: %s", o.name, pan)
				t.Check(n > 0 || o.zero, "%s draws no randomness", o.name)
				t.Check(o.check(res), "%s gives a wrong result", o.name)
				t.Sample("%s: %d random reads", o.name, n)
			})
			if !ok {
				continue
			}
			for m, mode := range modes {
				for _, once := range []bool{false, true} {
					// For the large proofs, failures in the middle of the vectors of the same kind
					// are enumerated for one mode.
					var ks []int
					for k := 0; k < n; k++ {
						if n > 40 && !c.Thorough && (m > 0 || once) && k > 4 && k < n-6 && k%16 > 1 {
							continue
						}
						ks = append(ks, k)
					}
					parts := 1
					if o.heavy {
						parts = 1 + len(ks)/8
					}
					for part := 0; part < parts; part++ {
						m, mode, once, part := m, mode, once, part
						c.Case("failures", fmt.Sprintf("%s %s once=%v part %d", o.name, mode, once, part), func(t *mc.T) {
							for i, k := range ks {
								if i%parts != part {
									continue
								}
								tape := mc.NewTape("reference" + o.name)
								tape.FailAt, tape.FailMode, tape.FailOnce = k, m, once
								mc.UseTape(tape)
								_, ok, pan := run(o)
								t.Eval(1)
								t.NonTrivial(1)
								t.Faults(1)
								switch {
								case pan != "":
									t.Outcome("panic")
								case !ok:
									t.Outcome("error")
								default:
									// With one failing read an operation may read again.
									t.Check(once && tape.Reads() > n, "%s succeeds although read %d of %d of the random source fails (%s)", o.name, k, n, mode)
									t.Outcome("reads again")
								}
								if i == part || i+parts >= len(ks) || !o.heavy && n <= 8 {
									mc.UseTape(mc.NewTape("reference" + o.name))
									res, ok, pan := run(o)
									t.Check(ok && pan == "", "%s fails after a failure of read %d (%s): %s", o.name, k, mode, pan)
									t.Check(zk.Dump(res) == want, "%s gives something else after a failure of read %d (%s)", o.name, k, mode)
									t.Check(o.check(res), "%s gives a wrong result after a failure of read %d (%s)", o.name, k, mode)
									t.Eval(1)
								}
							}
						})
					}
				}
			}
			// A source that answers in pieces gives the same result, and one that runs dry at any byte none.
			c.Case("pieces", o.name, func(t *mc.T) {
				whole := &slow{label: o.name, max: func(int) int { return 1 << 20 }, fail: -1}
				rand.Reader = whole
				res, ok, pan := run(o)
				t.Check(ok, "%s fails: %s", o.name, pan)
				want := zk.Dump(res)
				for i, max := range []func(int) int{func(int) int { return 1 }, func(int) int { return 31 }, func(k int) int { return 1 + k%5 }} {
					s := &slow{label: o.name, max: max, fail: -1}
					rand.Reader = s
					res, ok, pan := run(o)
					t.Check(ok, "%s fails with a source that answers in pieces (%d): %s", o.name, i, pan)
					t.Check(zk.Dump(res) == want && s.pos == whole.pos, "%s gives something else when the source answers in pieces (%d)", o.name, i)
					t.Eval(1)
					t.NonTrivial(1)
				}
				step := 1
				if whole.pos > 64 {
					step = 11
				}
				if o.heavy || whole.pos > 1000 {
					step = whole.pos/12 + 1
				}
				for at := 0; at < whole.pos; at += step {
					for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, errors.New("dry")} {
						s := &slow{label: o.name, max: func(int) int { return 1 << 20 }, fail: at, mode: e}
						rand.Reader = s
						_, ok, _ := run(o)
						t.Check(!ok, "%s succeeds although the random source ends after %d of %d bytes (%v)", o.name, at, whole.pos, e)
						t.Eval(1)
						t.NonTrivial(1)
						t.Faults(1)
					}
				}
			})
		}
	})
}
