// C13: BB signatures: all (key, message) pairs of an alphabet, each signature
// against all messages and all keys, and all alterations of signatures.
package main

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"zkrpmc/bnx"
	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

var ord = zk.BnN

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, zk.B(d)) }
func mod(x *big.Int) *big.Int          { return new(big.Int).Mod(x, ord) }

// keygen runs Keygen with a first answer of the random source that means x.
func keygen(t *mc.T, x *big.Int) bbsignatures.Keypair {
	tape := mc.NewTape("key" + x.String())
	tape.Answer = map[int][]byte{0: x.Bytes()}
	mc.UseTape(tape)
	kp, err := bbsignatures.Keygen()
	t.Check(err == nil, "Keygen fails with the answer %x: %v", x, err)
	t.Check(kp.Privk != nil && kp.Pubk != nil, "Keygen with the answer %x gives no key", x)
	t.Check(kp.Privk.Sign() >= 0 && kp.Privk.Cmp(ord) < 0, "Keygen with the answer %x gives the private key %x", x, kp.Privk)
	var e string
	if kp.Privk.Sign() == 0 {
		t.Check(zk.Clone(kp.Pubk).(*bn256.G1).IsZero(), "the public key of 0 is not the identity")
		return kp
	}
	e = cx.Enc(kp.Pubk)
	t.Check(e == bnx.G1.Enc(bnx.G1.Exp(kp.Privk)), "the public key is not g^%x", kp.Privk)
	return kp
}

// pair is a key pair made without Keygen.
func pair(sk *big.Int) (*big.Int, *bn256.G1) {
	return new(big.Int).Set(sk), new(bn256.G1).ScalarBaseMult(sk)
}

func p1(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }

func verify(t *mc.T, sig *bn256.G2, m *big.Int, pk *bn256.G1) bool {
	s, p, mm := cx.Enc(sig), cx.Enc(pk), new(big.Int).Set(m)
	ok, err := bbsignatures.XVerify(sig, m, pk)
	t.Check(!(ok && err != nil), "verify gives true and an error: %v", err)
	t.Check(cx.Enc(sig) == s && cx.Enc(pk) == p && m.Cmp(mm) == 0, "verify changes its arguments")
	t.Eval(1)
	t.NonTrivial(1)
	return ok
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		half := new(big.Int).Rsh(ord, 1)
		rnd := zk.Hex("1f2e3d4c5b6a79880102030405060708090a0b0c0d0e0f101112131415161718")
		sks := []*big.Int{zk.B(0), zk.B(1), zk.B(2), add(ord, -1), add(ord, -2), half, add(half, 1), zk.Pow2(64), rnd}
		ms := []*big.Int{zk.B(0), zk.B(1), zk.B(-1), zk.B(2), zk.B(42), add(zk.Pow2(63), -1), new(big.Int).Neg(zk.Pow2(63)), add(ord, -1), ord, add(ord, 1), zk.Pow2(300), half, new(big.Int).Sub(ord, rnd), new(big.Int).Sub(new(big.Int).Lsh(ord, 800), rnd)}
		if c.Thorough {
			sks = append(sks, zk.B(3), zk.B(57), add(ord, -57), zk.Pow2(128), zk.Pow2(253), zk.Hex("5555555555555555555555555555555555555555555555555555555555555555"))
			ms = append(ms, zk.B(-2), zk.B(3), zk.B(56), zk.B(57), zk.B(-57), add(ord, -2), add(ord, 2), new(big.Int).Lsh(ord, 1), new(big.Int).Neg(ord), zk.Pow2(64), zk.Pow2(256), zk.Hex("abcdef"))
		}
		// Key generation for all structured answers of the source.
		answers := append(zk.Scalars(ord, 16, c.Thorough), zk.Hex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"))
		for _, a := range answers {
			if a.Sign() < 0 || a.BitLen() > 256 {
				continue
			}
			a := a
			c.Case("key generation", fmt.Sprintf("answer %x", a), func(t *mc.T) {
				keygen(t, a)
			})
		}
		c.Case("key generation", "keys are drawn anew", func(t *mc.T) {
			seen := map[string]bool{}
			mc.UseTape(mc.NewTape("anew"))
			for i := 0; i < 64; i++ {
				kp, err := bbsignatures.Keygen()
				t.Check(err == nil && !seen[kp.Privk.String()], "key %d repeats an earlier one", i)
				seen[kp.Privk.String()] = true
			}
			t.Eval(64)
			t.NonTrivial(64)
		})
		// Every key and message.
		for _, sk := range sks {
			for _, m := range ms {
				sk, m := sk, m
				c.Case("sign and verify", fmt.Sprintf("sk=%x m=%x", sk, m), func(t *mc.T) {
					priv, pub := pair(sk)
					mm := new(big.Int).Set(m)
					sig, err := bbsignatures.Sign(mm, priv)
					t.Check(mm.Cmp(m) == 0 && priv.Cmp(sk) == 0, "Sign changes its arguments")
					s := mod(new(big.Int).Add(sk, m))
					if s.Sign() == 0 {
						t.Check(err != nil, "Sign gives no error although m + sk = 0")
						t.Check(sig == nil, "Sign gives a signature although m + sk = 0")
						t.Outcome("no signature: error")
						return
					}
					t.Check(err == nil && sig != nil, "Sign: %v", err)
					t.Check(cx.Enc(sig) == bnx.G2.Enc(bnx.G2.Exp(new(big.Int).ModInverse(s, ord))), "the signature is not g^(1/(m+sk))")
					t.Check(verify(t, sig, new(big.Int).Set(m), pub), "the signature does not verify")
					t.Check(verify(t, sig, new(big.Int).Set(m), pub), "the signature does not verify a second time")
					t.Check(verify(t, sig, new(big.Int).Sub(m, ord), pub), "the signature does not verify for m - order")
					for _, x := range ms {
						same := mod(x).Cmp(mod(m)) == 0
						t.Check(verify(t, sig, x, pub) == same, "the signature on %x: verification for %x gives %v", m, x, !same)
					}
					// The message that cancels the key.
					neg := mod(new(big.Int).Neg(sk))
					t.Check(!verify(t, sig, neg, pub), "the signature verifies for -sk")
					for _, k := range sks {
						_, p := pair(k)
						same := k.Cmp(sk) == 0
						t.Check(verify(t, sig, m, p) == same, "verification under the key of %x gives %v", k, !same)
					}
					t.Outcome("signed")
				})
			}
		}
		// Altered signatures, and representations.
		for _, sk := range sks {
			for _, m := range []*big.Int{zk.B(0), zk.B(42), zk.B(-1), add(ord, -2)} {
				sk, m := sk, m
				s := mod(new(big.Int).Add(sk, m))
				if s.Sign() == 0 {
					continue
				}
				c.Case("altered", fmt.Sprintf("sk=%x m=%x", sk, m), func(t *mc.T) {
					priv, pub := pair(sk)
					sig, err := bbsignatures.Sign(m, priv)
					t.Check(err == nil, "%v", err)
					e := new(big.Int).ModInverse(s, ord)
					g := func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }
					alt := map[string]*big.Int{
						"-s": new(big.Int).Neg(e), "2s": new(big.Int).Lsh(e, 1), "s+g": add(e, 1), "s-g": add(e, -1), "0": zk.B(0), "g": zk.B(1),
						"s/2": mod(new(big.Int).Mul(e, add(half, 1))), "m+sk": s, "3s": new(big.Int).Mul(e, zk.B(3)), "s^2": new(big.Int).Mul(e, e), "s+h": add(e, 12345),
					}
					for _, x := range ms {
						if o := mod(new(big.Int).Add(sk, x)); o.Sign() != 0 {
							alt["signature on "+x.String()] = new(big.Int).ModInverse(o, ord)
						}
					}
					for n, x := range alt {
						if x = mod(x); x.Cmp(e) != 0 {
							t.Check(!verify(t, g(x), m, pub), "the altered signature %s verifies", n)
						} else {
							t.Check(verify(t, g(x), m, pub), "the signature %s, computed otherwise, does not verify", n)
						}
					}
					// The same signature and key in other representations.
					x := g(zk.B(0))
					x.Add(g(add(e, -7)), g(zk.B(7)))
					t.Check(verify(t, x, m, pub), "the signature in another representation does not verify")
					y := new(bn256.G1).Add(new(bn256.G1).ScalarBaseMult(add(sk, -5)), new(bn256.G1).ScalarBaseMult(zk.B(5)))
					t.Check(verify(t, sig, m, y), "the signature under the key in another representation does not verify")
					z := new(bn256.G2).Add(sig, new(bn256.G2).Neg(sig))
					t.Check(!verify(t, z, m, pub), "the identity verifies")
					n := new(bn256.G1).Neg(pub)
					if sk.Sign() != 0 {
						t.Check(!verify(t, sig, m, n), "the signature verifies under the inverse of the key")
					}
				})
			}
		}
		// Verification is s(m + sk) = 1 for every s, also when m can not be signed.
		for _, sk := range sks {
			for _, m := range append([]*big.Int{mod(new(big.Int).Neg(sk)), new(big.Int).Neg(sk)}, ms...) {
				sk, m := sk, m
				c.Case("any signature", fmt.Sprintf("sk=%x m=%x", sk, m), func(t *mc.T) {
					_, pub := pair(sk)
					sum := mod(new(big.Int).Add(sk, m))
					for _, s := range []*big.Int{zk.B(0), zk.B(1), add(ord, -1), zk.B(2), half, add(half, 1), sum, mod(new(big.Int).Neg(sum))} {
						want := mod(new(big.Int).Mul(s, sum)).Cmp(zk.B(1)) == 0
						t.Check(verify(t, new(bn256.G2).ScalarBaseMult(s), m, pub) == want, "g^%x on %x under the key of %x: %v", s, m, sk, !want)
					}
					t.Check(!verify(t, new(bn256.G2).SetInfinity(), m, pub), "infinity verifies on %x under the key of %x", m, sk)
				})
			}
		}
		// The variables that hold messages, keys and signatures are used again for other values.
		type state struct{ m, sk *big.Int }
		vals := []state{{zk.B(10), zk.B(100)}, {zk.B(11), zk.B(100)}, {zk.B(10), zk.B(101)}, {zk.B(11), zk.B(99)}}
		for i := range vals {
			for j := range vals {
				i, j := i, j
				c.Case("variables used again", fmt.Sprint(i, j), func(t *mc.T) {
					m, sk := new(big.Int), new(big.Int)
					pk := new(bn256.G1)
					var sigs []*bn256.G2
					seq := []int{i, j, i}
					for _, k := range seq {
						m.Set(vals[k].m)
						sk.Set(vals[k].sk)
						pk.ScalarBaseMult(sk)
						sig, err := bbsignatures.Sign(m, sk)
						t.Check(err == nil, "%v", err)
						e := new(big.Int).Add(vals[k].m, vals[k].sk)
						t.Check(cx.Enc(sig) == bnx.G2.Enc(bnx.G2.Exp(e.ModInverse(e, ord))), "Sign of %v with %v, after other values of the same variables, gives another signature", m, sk)
						t.Check(verify(t, sig, m, pk), "the signature does not verify after other values of the same variables")
						sigs = append(sigs, sig)
						for l, o := range sigs {
							same := new(big.Int).Add(vals[seq[l]].m, vals[seq[l]].sk).Cmp(new(big.Int).Add(m, sk)) == 0
							t.Check(verify(t, o, m, pk) == same, "an earlier signature under new values of the variables: %v", !same)
						}
					}
					// A used signature object overwritten by another one.
					s := zk.Clone(sigs[0]).(*bn256.G2)
					t.Check(verify(t, s, vals[i].m, p1(vals[i].sk)), "a copy does not verify")
					s.Add(s, new(bn256.G2).ScalarBaseMult(zk.B(1)))
					t.Check(!verify(t, s, vals[i].m, p1(vals[i].sk)), "a signature changed in place verifies")
				})
			}
		}
		// Keys from Keygen: sequences of key generation and signing.
		for i := 0; i < 4; i++ {
			i := i
			c.Case("histories", fmt.Sprint(i), func(t *mc.T) {
				mc.UseTape(mc.NewTape(fmt.Sprintf("hist%d", i)))
				var kps []bbsignatures.Keypair
				for k := 0; k < 2; k++ {
					kp, err := bbsignatures.Keygen()
					t.Check(err == nil, "%v", err)
					kps = append(kps, kp)
				}
				// All orders of signing two messages with two keys, and verifying at the end.
				for order := 0; order < 24; order++ {
					perm := []int{0, 1, 2, 3}
					o := order
					for j := 3; j > 0; j-- {
						r := o % (j + 1)
						o /= j + 1
						perm[j], perm[r] = perm[r], perm[j]
					}
					sigs := make([]*bn256.G2, 4)
					for _, j := range perm {
						sigs[j], _ = bbsignatures.Sign(zk.B(int64(10+j%2)), kps[j/2].Privk)
						t.Check(sigs[j] != nil, "no signature")
					}
					for j := range sigs {
						e := mod(add(kps[j/2].Privk, int64(10+j%2)))
						t.Check(cx.Enc(sigs[j]) == bnx.G2.Enc(bnx.G2.Exp(e.ModInverse(e, ord))), "a later signature changed an earlier one")
						if order == i {
							for l := 0; l < 4; l++ {
								ok := verify(t, sigs[j], zk.B(int64(10+l%2)), kps[l/2].Pubk)
								t.Check(ok == (l == j), "signature %d under key and message %d: %v", j, l, ok)
							}
						}
					}
					t.Transitions(4)
					t.States(1)
				}
			})
		}
	})
}
