SEEDS = [
 dict(id='c14-double-infinity', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("""    if a.IsZero() {
        return p.SetInfinity()
    }
    resx, resy := CURVE.Double(a.X, a.Y)""", """    if a.IsZero() {
        return a
    }
    resx, resy := CURVE.Double(a.X, a.Y)""")],
  needs='doubling infinity into a receiver that holds another point',
  what_it_breaks='the receiver keeps its old value',
  demo='''package p256

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p := new(P256).ScalarBaseMult(big.NewInt(3))
	p.Double(new(P256).SetInfinity())
	if !p.IsZero() {
		t.Fatal("twice infinity is", p)
	}
}
'''),
 dict(id='c19-leading-fe', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("        if tmpBytes[0] == 255 {", "        if tmpBytes[0] >= 254 {")],
  needs='a negative number whose encoding begins with the byte 0xFE (or 0xFF followed by less than its due)',
  what_it_breaks='decoding drops a significant byte of some negative numbers',
  demo='''package byteconversion

import "testing"

func TestDemo(t *testing.T) {
	x, err := FromByteArray([]byte{0xfe, 0x70})
	if err != nil || x.Int64() != -400 {
		t.Fatal(x, err)
	}
}
'''),
 dict(id='c20-plus-sign', property='C20', file='util/byteconversion/parse.go', pkg='util/byteconversion',
  edits=[("(index == 0 && element == 45)", "(index == 0 && element|6 == 47)")],
  needs="an item that begins with '+' or another of the bytes '/', ')', '-' up to the two masked bits",
  what_it_breaks='items that are not integers are accepted, with the value of a failed conversion',
  demo='''package byteconversion

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"/5", "+7", "1,/2", ")3"} {
		if l, err := ParseInput([]byte(s)); err == nil {
			t.Fatal(s, "parses as", l)
		}
	}
	if l, err := ParseInput([]byte("-5,6")); err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
}
'''),
 dict(id='c21-hash-zero', property='C21', file='util/bn/bn.go', pkg='util/bn',
  edits=[("    if b2 != nil {", "    if b2 != nil && b2.Sign() != 0 {")],
  needs='hashing a pair whose second number is zero',
  what_it_breaks='the hash of (b, 0) leaves out the 0',
  demo='''package bn

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	a, _ := CalculateHash(big.NewInt(7), big.NewInt(0))
	b, _ := CalculateHash(big.NewInt(7), nil)
	if a.Cmp(b) == 0 {
		t.Fatal("(7, 0) hashes like 7")
	}
}
'''),
 dict(id='c18-long-seed', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("    digest.Write(b.Bytes())\n", "    digest.Write(b.Next(64))\n")],
  needs='two seeds that agree in their first 63 bytes',
  what_it_breaks='only the first block of the seed is hashed, so long seeds collide',
  demo='''package p256

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	s := strings.Repeat("x", 70)
	a, _ := MapToGroup(s + "1")
	b, _ := MapToGroup(s + "2")
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("two seeds, one point")
	}
}
'''),
 dict(id='c09-generator-31', property='C09', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""        params.Hh[i], _ = p256.MapToGroup(SEEDH + "h" + string(i))
    }
    return params, nil""", """        params.Hh[i], _ = p256.MapToGroup(SEEDH + "h" + string(i%31))
    }
    return params, nil""")],
  needs='N = 32, where the last generator is reached',
  what_it_breaks='two generators of the largest range are the same point',
  demo='''package bulletproofs

import "testing"

func TestDemo(t *testing.T) {
	p, err := Setup(1 << 32)
	if err != nil {
		t.Fatal(err)
	}
	for i := range p.Hh {
		for j := range p.Hh[:i] {
			if p.Hh[i].X.Cmp(p.Hh[j].X) == 0 {
				t.Fatal("generators", j, "and", i, "are the same")
			}
		}
	}
}
'''),
 dict(id='c02-secret-int64', property='C02', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    V, _ := CommitG1(secret, gamma, params.H)", "    V, _ := CommitG1(new(big.Int).SetInt64(secret.Int64()), gamma, params.H)")],
  needs='a secret of more than 64 bits whose low bits are in the range',
  what_it_breaks='the secret is truncated to 64 bits in the commitment, as it is in the bit decomposition',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, _ := Setup(256)
	x := new(big.Int).Lsh(big.NewInt(1), 64)
	proof, err := Prove(x.Add(x, big.NewInt(3)), p)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("2^64+3 is proved to be below 256")
	}
}
'''),
 dict(id='c06-one-bit-generator', property='C06', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    rhs := new(p256.P256).ScalarMult(gprime[0], proof.A)", "    rhs := gprime[0].ScalarMult(gprime[0], proof.A)")],
  needs='N = 1, where nothing has been folded, and a second verification or use of the parameters',
  what_it_breaks='verification overwrites the generator of the parameters of one-bit proofs',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, _ := Setup(2)
	proof, _ := Prove(big.NewInt(1), p)
	for i := 0; i < 2; i++ {
		if ok, _ := proof.Verify(); !ok {
			t.Fatal("verification", i, "fails")
		}
	}
}
'''),
 dict(id='c16-check-break', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("            continue\n        }\n        acc.Mul(acc, miller(b[i].p", "            break\n        }\n        acc.Mul(acc, miller(b[i].p")],
  needs='a list with an identity that is followed by pairs whose product is not one',
  what_it_breaks='the multi-pairing check ignores everything after an identity',
  demo='''package bn256

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g, h := new(G1).ScalarBaseMult(big.NewInt(1)), new(G2).ScalarBaseMult(big.NewInt(1))
	o := new(G1).ScalarBaseMult(big.NewInt(0))
	if PairingCheck([]*G1{o, g}, []*G2{h, h}) {
		t.Fatal("e(O,h) e(g,h) counts as one")
	}
}
'''),
]
