IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c20-arena', property='C20', file='util/byteconversion/parse.go', pkg='util/byteconversion',
  edits=[("""            output = append(output, newInt)
            prevIndex = index + 1
""","""            if len(output)&255 == 0 {
                arena = make([]big.Int, 0, 256)
            }
            if newInt.IsInt64() {
                arena = append(arena[:len(output)&127], *newInt)
                newInt = &arena[len(output)&127]
            }
            prevIndex = index + 1
            output = append(output, newInt)
"""),("""    prevIndex := 0
    var output []*big.Int
""","""    prevIndex := 0
    var output []*big.Int
    var arena []big.Int
""")],
  needs='a list of more than 128 items',
  what_it_breaks='items get the values of other items',
  demo='package byteconversion\n'+imp('strings', 'testing')+'''
func TestDemo(t *testing.T) {
	r, err := ParseInput([]byte("5" + strings.Repeat(",7", 300)))
	if err != nil || len(r) != 301 {
		t.Fatal(err)
	}
	for i, x := range r {
		if i == 0 && x.Int64() != 5 || i > 0 && x.Int64() != 7 {
			t.Fatal(i, x)
		}
	}
}
'''),
 dict(id='c19-odd-half', property='C19', file='util/byteconversion/conversion.go', pkg='util/byteconversion',
  edits=[("""    length := len(bytesIn)
    flippedBytes := make([]byte, length)

    for i := 0; i < length; i++ {
        flippedBytes[i] = bytesIn[i] ^ 255
    }
    return flippedBytes
""","""    length := len(bytesIn)
    flippedBytes := make([]byte, length)

    if length > 1024 {
        // Long ones from both ends.
        for i, j := 0, length-1; i < j; i, j = i+1, j-1 {
            flippedBytes[i], flippedBytes[j] = bytesIn[i]^255, bytesIn[j]^255
        }
        return flippedBytes
    }
    for i := range bytesIn {
        flippedBytes[i] = bytesIn[i] ^ 255
    }
    return flippedBytes
""")],
  needs='a negative number whose encoding has an odd length of more than 1024 bytes',
  what_it_breaks='the byte in the middle is not flipped',
  demo='package byteconversion\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	for _, k := range []uint{8*1030 + 3, 8*1031 + 3, 8*1032 + 3} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		x.Div(x, big.NewInt(3))
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), k))
		x.Neg(x)
		y := new(big.Int).SetBytes(ToByteArray(x))
		y.Sub(y, new(big.Int).Lsh(big.NewInt(1), (k/8+1)*8))
		if x.Cmp(y) != 0 {
			t.Fatal("wrong encoding")
		}
	}
}
'''),
 dict(id='c23-shared-m', property='C23', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    second, _ := ProveUL(xa, zkrp.r, *zkrp.p.p)
""","""    second, _ := proveUL(xa, zkrp.r, m, *zkrp.p.p)
"""),("""    first, _ := ProveUL(xb, zkrp.r, *zkrp.p.p)
""","""    // The mask of the common randomness.
    m, _ := rand.Int(rand.Reader, bn256.Order)
    first, _ := proveUL(xb, zkrp.r, m, *zkrp.p.p)
"""),("""func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
    var (
""","""func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
    m, _ := rand.Int(rand.Reader, bn256.Order)
    return proveUL(x, r, m, p)
}

func proveUL(x, r, m *big.Int, p paramsUL) (proofUL, error) {
    var (
"""),("""    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)

    // D = H^m
""","""    proof_out.m = m

    // D = H^m
""")],
  needs='comparing the responses of the two halves of an interval proof',
  what_it_breaks='anybody can compute the randomness of the commitments from a proof',
  demo='package ccs08\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256')+'''
func TestDemo(t *testing.T) {
	z := new(ccs08)
	z.Setup(18, 200)
	z.x, z.r = big.NewInt(40), big.NewInt(1234567)
	z.Prove()
	p, q := z.proof_out.p1, z.proof_out.p2
	d := new(big.Int).Sub(q.c, p.c)
	d.ModInverse(d.Mod(d, bn256.Order), bn256.Order)
	r := new(big.Int).Sub(p.zr, q.zr)
	r.Mul(r, d).Mod(r, bn256.Order)
	if r.Cmp(z.r) == 0 {
		t.Fatal("the randomness can be computed from the proof")
	}
}
'''),
 dict(id='c22-first-y', property='C22', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("""    buffer.WriteString(A.X.String())
    buffer.WriteString(A.Y.String())
    buffer.WriteString(S.X.String())
    buffer.WriteString(S.Y.String())
""","""    for _, p := range []*p256.P256{A, S} {
        buffer.WriteString(p.X.String())
        if p != A || len(context) == 0 {
            buffer.WriteString(p.Y.String())
        }
    }
""")],
  needs='two transcripts whose first elements are the negatives of each other',
  what_it_breaks='the first challenge is the same for both',
  demo='package bulletproofs\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	var p []*p256.P256
	for i := int64(2); i < 6; i++ {
		p = append(p, new(p256.P256).ScalarBaseMult(big.NewInt(i)))
	}
	n := new(p256.P256).Neg(p[0])
	a, _, _ := HashBP(p[0], p[1], p[2], p[3])
	b, _, _ := HashBP(n, p[1], p[2], p[3])
	if a.Cmp(b) == 0 {
		t.Fatal("same challenge")
	}
}
'''),
 dict(id='c10-low-word', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    for i = 0; i < len(s); i++ {
""","""    seen := make(map[uint32]bool)
    for i = 0; i < len(s); i++ {
        // Elements that are listed twice need one signature.
        if h := uint32(s[i]) ^ uint32(s[i]>>32); seen[h] {
            continue
        } else {
            seen[h] = true
        }
"""),("""    var (
        i int
        p paramsSet
    )
""","""    var (
        p paramsSet
        i int
    )
""")],
  needs='a set with two members whose folded words are equal, such as -1 and 0, or 5 and 5 * 2^32',
  what_it_breaks='a member of the set gets no proof',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupSet([]int64{5, 5 << 32, 9})
	if _, err := ProveSet(5<<32, big.NewInt(7), p); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='c24-sticky', property='C24', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("""    kp.Privk, e = rand.Int(rand.Reader, bn256.Order)
    if e != nil {
        return kp, e
    }
""","""    if failed != nil {
        return kp, failed
    }
    kp.Privk, e = rand.Int(rand.Reader, bn256.Order)
    if e != nil {
        failed = e
        return kp, e
    }
"""),("""/*
keygen is responsible for the key generation.
*/
""","""// failed is set when the random source can not be relied on.
var failed error

/*
Keygen is responsible for the key generation.
*/
""")],
  needs='a key generation after one that failed for want of randomness',
  what_it_breaks='it fails although the source works again',
  demo='package bbsignatures\n'+imp('crypto/rand', 'errors', 'testing')+'''
type broken struct{}

func (broken) Read(b []byte) (int, error) { return 0, errors.New("broken") }

func TestDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = broken{}
	_, err := Keygen()
	rand.Reader = old
	if err == nil {
		t.Fatal("no error")
	}
	if _, err := Keygen(); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='c16-many', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("""    for i := 0; i < len(a); i++ {
        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            continue
        }
        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
    }
""","""    for i := range a {
        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            continue
        }
        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
        if i&15 == 15 {
            // A fresh pool keeps the memory of long lists small.
            pool = new(bnPool)
            acc = newGFp12(pool)
            acc.SetOne()
        }
    }
""")],
  needs='a list of more than fifteen pairs',
  what_it_breaks='the first sixteen pairs do not count',
  demo='package bn256\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	var a []*G1
	var b []*G2
	for i := int64(1); i <= 17; i++ {
		a = append(a, new(G1).ScalarBaseMult(big.NewInt(i)))
		b = append(b, new(G2).ScalarBaseMult(big.NewInt(1)))
		a = append(a, new(G1).ScalarBaseMult(big.NewInt(-i)))
		b = append(b, new(G2).ScalarBaseMult(big.NewInt(1)))
	}
	if !PairingCheck(a, b) {
		t.Fatal("product of the pairings is one")
	}
	a[0] = new(G1).ScalarBaseMult(big.NewInt(99))
	if PairingCheck(a, b) {
		t.Fatal("product of the pairings is not one")
	}
}
'''),
]
