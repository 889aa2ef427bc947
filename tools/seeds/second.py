TAPE = '''
// tape answers with the given 32-byte numbers, then with fixed pseudo-random ones.
type tape struct {
	n    uint64
	vals map[int]*big.Int
	i    int
	buf  []byte
}

func (t *tape) Read(p []byte) (int, error) {
	for k := range p {
		if len(t.buf) == 0 {
			if v, ok := t.vals[t.i]; ok {
				t.buf = v.FillBytes(make([]byte, 32))
			} else {
				h := sha256.Sum256([]byte{byte(t.i), byte(t.i >> 8), 7})
				h[0] &= 0x7f
				t.buf = h[:]
			}
			t.i++
		}
		p[k] = t.buf[0]
		t.buf = t.buf[1:]
	}
	return len(p), nil
}
'''
IMPT = '''
import (
	"crypto/rand"
	"crypto/sha256"
	"math/big"
	"testing"
)
'''
SEEDS = [
 dict(id='c01-mu-unreduced', property='C01', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    mu = bn.Add(mu, alpha)
    mu = bn.Mod(mu, ORDER)
""", """    mu = bn.Add(mu, alpha)
    if rho.BitLen() > 1 {
        mu = bn.Mod(mu, ORDER)
    }
""")],
  needs='the random source answers 1 for rho and a large alpha',
  what_it_breaks='an honest proof with that draw does not verify',
  demo='package bulletproofs\n'+IMPT+TAPE+'''
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, _ := Setup(16)
	// gamma, alpha, sL (4), sR (4), rho
	for _, a := range []int64{1, 2} {
		rand.Reader = &tape{vals: map[int]*big.Int{1: new(big.Int).Sub(ORDER, big.NewInt(a)), 10: big.NewInt(1)}}
		proof, err := Prove(big.NewInt(11), params)
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := proof.Verify(); !ok {
			t.Fatal("honest proof is rejected", err)
		}
	}
}
'''),
 dict(id='c03-int64-secret', property='C03', file='bulletproofs/bprp.go', pkg='bulletproofs',
  edits=[("""    xb := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.B))
""","""    x := secret.Int64()
    xb := new(big.Int).Sub(new(big.Int).SetInt64(x), new(big.Int).SetInt64(params.B))
"""),("""    xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
""","""    xa := new(big.Int).Sub(new(big.Int).SetInt64(x), new(big.Int).SetInt64(params.A))
""")],
  needs='a secret beyond 64 bits whose low 64 bits are in the interval',
  what_it_breaks='a proof of a secret out of the interval verifies',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := SetupGeneric(18, 200)
	x := new(big.Int).Lsh(big.NewInt(1), 64)
	proof, err := ProveGeneric(x.Add(x, big.NewInt(20)), params)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("2^64 + 20 is in [18, 200)")
	}
}
'''),
 dict(id='c03-unsigned-limit', property='C03', file='bulletproofs/bprp.go', pkg='bulletproofs',
  edits=[("    xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))", "    xa := new(big.Int).Sub(secret, new(big.Int).SetUint64(uint64(params.A)))")],
  needs='an interval with a negative lower limit',
  what_it_breaks='proofs of secrets in an interval with a negative limit do not verify',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := SetupGeneric(-5, 5)
	proof, err := ProveGeneric(big.NewInt(-3), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("-3 is not in [-5, 5)")
	}
}
'''),
 dict(id='c04-single-bit', property='C04', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    result := c65 && c67 && ok\n", "    result := c65 && c67 && (ok || params.N == 1)\n")],
  needs='a proof with N = 1, whose inner product argument has no rounds',
  what_it_breaks='the inner product argument of one-bit proofs is not checked',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	proof, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof is rejected")
	}
	a := proof.InnerProductProof.A
	proof.InnerProductProof.A = a.Add(a, big.NewInt(1)).Mod(a, ORDER)
	if ok, _ := proof.Verify(); ok {
		t.Fatal("altered proof is accepted")
	}
}
'''),
 dict(id='c05-claim-unhashed', property='C05', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    digest.Write([]byte(c.String()))\n", "")],
  needs='a prover who fits the commitment to a wrong claim after computing the challenge',
  what_it_breaks='a wrong inner product can be proved',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestDemo(t *testing.T) {
	a := []*big.Int{big.NewInt(2), big.NewInt(-1), big.NewInt(10), big.NewInt(6)}
	b := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(10), big.NewInt(7)}
	ab := big.NewInt(142)
	params, err := setupInnerProduct(nil, nil, nil, ab, 4)
	if err != nil {
		t.Fatal(err)
	}
	// The claim is c and P holds Uu^delta such that x*(ab - c) = delta.
	delta := big.NewInt(12345)
	P := commitInnerProduct(params.Gg, params.Hh, a, b)
	P.Multiply(P, new(p256.P256).ScalarMult(params.Uu, delta))
	c := ab
	for i := 0; i < 3; i++ {
		x, _ := hashIP(params.Gg, params.Hh, P, c, params.N)
		c = new(big.Int).Mul(delta, new(big.Int).ModInverse(new(big.Int).Mod(x, ORDER), ORDER))
		c.Sub(ab, c).Mod(c, ORDER)
	}
	params.Cc = c
	proof, err := proveInnerProduct(a, b, P, params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("<a, b> is", ab, "and was proved to be", c)
	}
}
'''),
 dict(id='c06-cached-verdict', property='C06', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    Commit            *p256.P256
    Params            BulletProofSetupParams
}
""","""    Commit            *p256.P256
    Params            BulletProofSetupParams
    verified          bool
}
"""),("""func (proof *BulletProof) Verify() (bool, error) {
""","""func (proof *BulletProof) Verify() (bool, error) {
    if proof.verified {
        return true, nil
    }
"""),("""    result := c65 && c67 && ok

    return result, nil
""","""    proof.verified = c65 && c67 && ok

    return proof.verified, nil
""")],
  needs='a proof that is verified, changed in place and verified again',
  what_it_breaks='the second verdict is that of the first proof',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(4)
	p, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	q, err := Prove(big.NewInt(2), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := p.Verify(); !ok {
		t.Fatal("honest proof is rejected")
	}
	p.V = q.V
	fresh := BulletProof{V: p.V, A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu, Tprime: p.Tprime,
		InnerProductProof: p.InnerProductProof, Commit: p.Commit, Params: p.Params}
	want, _ := fresh.Verify()
	if got, _ := p.Verify(); got != want {
		t.Fatal("verdict", got, "but a fresh copy gets", want)
	}
}
'''),
 dict(id='c07-shared-pool', property='C07', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("""    e.p.Add(a.p, b.p, new(bnPool))
    return e
}

// Neg sets e to -a and then returns e.
func (e *G2) Neg""","""    e.p.Add(a.p, b.p, addPool)
    return e
}

// addPool keeps the temporaries of additions.
var addPool = new(bnPool)

// Neg sets e to -a and then returns e.
func (e *G2) Neg""")],
  needs='two goroutines that add elements of G2 at the same time',
  what_it_breaks='the temporaries of concurrent additions are shared',
  demo='''package bn256

import (
	"bytes"
	"math/big"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	a := new(G2).ScalarBaseMult(big.NewInt(3))
	b := new(G2).ScalarBaseMult(big.NewInt(5))
	want := new(G2).ScalarBaseMult(big.NewInt(8)).Marshal()
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			for i := 0; i < 2000; i++ {
				c := new(G2).Add(a, b)
				if i%20 == 0 && !bytes.Equal(c.Marshal(), want) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad, "wrong sums")
	}
}
''', flags='-race'),
 dict(id='c07-global-digest', property='C07', file='util/util.go', pkg='util',
  edits=[("""import (
    "crypto/sha256"
    "math/big"
""","""import (
    "crypto/sha256"
    "hash"
    "math/big"
    "sync"
"""),("""    digest := sha256.New()
    digest.Write([]byte(a.String()))
    digest.Write([]byte(D.String()))
""","""    digest := &transcript
    digest.Reset()
    digest.Write([]byte(a.String()))
    digest.Write([]byte(D.String()))
"""),("""/*
HashSet is""","""type lockedHash struct {
    sync.Mutex
    h hash.Hash
}

func (l *lockedHash) Reset() {
    l.Lock()
    defer l.Unlock()
    l.h.Reset()
}

func (l *lockedHash) Write(b []byte) {
    l.Lock()
    defer l.Unlock()
    l.h.Write(b)
}

func (l *lockedHash) Sum(b []byte) []byte {
    l.Lock()
    defer l.Unlock()
    return l.h.Sum(b)
}

var transcript = lockedHash{h: sha256.New()}

/*
HashSet is""")],
  needs='a second hash that starts between two writes of the first',
  what_it_breaks='the two challenges are mixed up; there is no data race, since every write takes a lock',
  demo='''package util

import (
	"math/big"
	"sync"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := int64(0); g < 8; g++ {
		D := new(bn256.G2).ScalarBaseMult(big.NewInt(g + 2))
		D, _ = new(bn256.G2).Unmarshal(D.Marshal())
		st := make([]*bn256.G2, 30)
		for i := range st {
			st[i] = D
		}
		want, _ := HashSet(E, D, st...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				c, _ := HashSet(E, D, st...)
				if c == nil || c.Cmp(want) != 0 {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 300 {
		t.Fatal(bad, "wrong hashes")
	}
}
'''),
 dict(id='c07-inverse-memo', property='C07', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""    yinv := bn.ModInverse(y, ORDER)
    expy := yinv
""","""    yinv := inverseOf(y)
    expy := yinv
"""),("""/*
aR = aL - 1^n
*/
""","""// Both prover and verifier need the inverse of the same challenge repeatedly.
var lastY, lastYinv *big.Int

func inverseOf(y *big.Int) *big.Int {
    if lastY == nil || lastY.Cmp(y) != 0 {
        lastY = y
        lastYinv = bn.ModInverse(y, ORDER)
    }
    return lastYinv
}

/*
aR = aL - 1^n
*/
""")],
  needs='two goroutines that verify different proofs, one preempted between the two assignments or before the return',
  what_it_breaks='one of them uses the inverse of the other\'s challenge',
  demo='''package bulletproofs

import (
	"math/big"
	"sync"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	H, _ := p256.MapToGroup("demo")
	for g := int64(0); g < 8; g++ {
		y := big.NewInt(g + 3)
		want := new(p256.P256).ScalarMult(H, new(big.Int).ModInverse(y, ORDER))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				if r := updateGenerators([]*p256.P256{H, H}, y, 2); r[1].X.Cmp(want.X) != 0 {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad, "wrong generators")
	}
}
''', flags='-race'),
 dict(id='c08-stale-infinity', property='C08', file='crypto/p256/p256.go', pkg='bulletproofs',
  edits=[("""import (
    "bytes"
    "crypto/sha256"
    "errors"
""","""import (
    "bytes"
    "crypto/sha256"
    "encoding/json"
    "errors"
"""),("""type P256 struct {
    X, Y *big.Int
}
""","""type P256 struct {
    X *big.Int
    Y *big.Int
}

/*
UnmarshalJSON decodes the coordinates of a point.
*/
func (p *P256) UnmarshalJSON(data []byte) error {
    var in struct{ X, Y *big.Int }
    if err := json.Unmarshal(data, &in); err != nil {
        return err
    }
    if in.X != nil && in.Y != nil {
        p.X, p.Y = in.X, in.Y
    }
    return nil
}
""")],
  needs='decoding a proof that has a point at infinity into a variable that held another proof',
  what_it_breaks='the decoded proof keeps the point of the older one',
  demo='''package bulletproofs

import (
	"encoding/json"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	p, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	q, err := Prove(big.NewInt(0), params)
	if err != nil {
		t.Fatal(err)
	}
	q.T1 = q.T1.SetInfinity()
	d1, _ := json.Marshal(p)
	d2, _ := json.Marshal(q)
	var r BulletProof
	if err := json.Unmarshal(d1, &r); err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(d2, &r); err != nil {
		t.Fatal(err)
	}
	d3, _ := json.Marshal(r)
	if string(d2) != string(d3) {
		t.Fatal("the decoded proof differs")
	}
}
'''),
 dict(id='c09-colliding-seeds', property='C09', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("""        params.Gg[i], _ = p256.MapToGroup(SEEDH + "g" + string(i))
        params.Hh[i], _ = p256.MapToGroup(SEEDH + "h" + string(i))
    }
    return""","""        params.Gg[i], _ = p256.MapToGroup(SEEDH + fmt.Sprintf("1%d", i))
        params.Hh[i], _ = p256.MapToGroup(SEEDH + fmt.Sprintf("%d", i))
    }
    return""")],
  needs='a range of at least 16 bits, where the seeds 10 of h and 1,0 of g are the same string',
  what_it_breaks='some generators are the same',
  demo='''package bulletproofs

import "testing"

func TestDemo(t *testing.T) {
	p, err := Setup(1 << 32)
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for i := range p.Gg {
		for _, q := range []string{p.Gg[i].X.String(), p.Hh[i].X.String()} {
			if seen[q] {
				t.Fatal("two generators are the same", i)
			}
			seen[q] = true
		}
	}
}
'''),
 dict(id='c10-unsigned-member', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))",
          "    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetUint64(uint64(x)), proof_out.c))")],
  needs='a negative member',
  what_it_breaks='proofs of negative members do not verify',
  demo='''package ccs08

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := SetupSet([]int64{-4, 12})
	if err != nil {
		t.Fatal(err)
	}
	proof, err := ProveSet(-4, big.NewInt(9), p)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifySet(&proof, &p); !ok {
		t.Fatal("-4 is not a member")
	}
}
'''),
 dict(id='c11-float-power', property='C11', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""            ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
            muisi :=""","""            ui := new(big.Int).SetInt64(int64(math.Pow(float64(p.u), float64(i))))
            muisi :="""),
         ("""        ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
        muizsigi :=""","""        ui := new(big.Int).SetInt64(int64(math.Pow(float64(p.u), float64(i))))
        muizsigi :=""")],
  needs='a place value that is not exact in floating point: u^i beyond 2^53 and not a power of two',
  what_it_breaks='honest proofs of numbers with that many digits do not verify',
  demo='''package ccs08

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := SetupUL(3, 36)
	if err != nil {
		t.Fatal(err)
	}
	x := new(big.Int).Exp(big.NewInt(3), big.NewInt(35), nil)
	x.Add(x, big.NewInt(7))
	proof, err := ProveUL(x, big.NewInt(5), p)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifyUL(&proof, &p); !ok {
		t.Fatal("3^35 + 7 is not below 3^36")
	}
}
'''),
 dict(id='c11-int64-total', property='C11', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    ul := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
""","""    total := int64(1)
    for i := int64(0); i < zkrp.p.p.l; i++ {
        total = total * zkrp.p.p.u
    }
    ul := new(big.Int).SetInt64(total)
""")],
  needs='an upper limit from 57^10 on, where u^l does not fit in 64 bits',
  what_it_breaks='honest proofs for large intervals do not verify',
  demo='''package ccs08

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	var z ccs08
	if err := z.Setup(5, 1<<62); err != nil {
		t.Fatal(err)
	}
	z.x, z.r = big.NewInt(1<<61), big.NewInt(4)
	if err := z.Prove(); err != nil {
		t.Fatal(err)
	}
	if ok, _ := z.Verify(); !ok {
		t.Fatal("2^61 is not in [5, 2^62)")
	}
}
'''),
 dict(id='c12-last-digit', property='C12', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""        aBytes := proof_out.a[i].Marshal()
        r2 = r2 && bytes.Equal(pBytes, aBytes)
""","""        aBytes := proof_out.a[i].Marshal()
        r2 = bytes.Equal(pBytes, aBytes)
""")],
  needs='a proof with an invalid digit that is not the last one',
  what_it_breaks='only the last digit is checked',
  demo='''package ccs08

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := SetupUL(3, 2)
	if err != nil {
		t.Fatal(err)
	}
	proof, err := ProveUL(big.NewInt(7), big.NewInt(5), p)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifyUL(&proof, &p); !ok {
		t.Fatal("honest proof is rejected")
	}
	proof.zv[0] = new(big.Int).Add(proof.zv[0], big.NewInt(1))
	if ok, _ := VerifyUL(&proof, &p); ok {
		t.Fatal("altered proof is accepted")
	}
}
'''),
 dict(id='c12-a-unhashed', property='C12', file='util/util.go', pkg='ccs08',
  edits=[("    digest.Write([]byte(a.String()))\n", "")],
  needs='a prover who computes the first message a after the challenge',
  what_it_breaks='membership of a non-member can be proved',
  demo='''package ccs08

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "github.com/ing-bank/zkrp/util"
)

func TestDemo(t *testing.T) {
	p, err := SetupSet([]int64{12, 42})
	if err != nil {
		t.Fatal(err)
	}
	x, r, s, m := big.NewInt(13), big.NewInt(5), big.NewInt(77), big.NewInt(88)
	var f proofSet
	f.C, _ = Commit(x, r, p.H)
	f.D, _ = Commit(s, m, p.H)
	f.V = new(bn256.G2).ScalarBaseMult(big.NewInt(99))
	f.zv = big.NewInt(66)
	f.a = E
	for i := 0; i < 2; i++ {
		f.c, _ = HashSet(f.a, f.D, f.C, f.V)
		f.c.Mod(f.c, bn256.Order)
		f.zsig = new(big.Int).Sub(s, new(big.Int).Mul(x, f.c))
		f.zsig.Mod(f.zsig, bn256.Order)
		f.zr = new(big.Int).Sub(m, new(big.Int).Mul(r, f.c))
		f.zr.Mod(f.zr, bn256.Order)
		a := new(bn256.GT).ScalarMult(bn256.Pair(p.kp.Pubk, f.V), f.c)
		b := new(bn256.GT).ScalarMult(bn256.Pair(G1, f.V), f.zsig)
		a.Add(a, b.Invert(b))
		f.a = a.Add(a, new(bn256.GT).ScalarMult(E, f.zv))
	}
	if ok, _ := VerifySet(&f, &p); ok {
		t.Fatal("13 is a member of {12, 42}")
	}
}
'''),
 dict(id='c13-word-message', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("    gm, e = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(m).Marshal())",
          "    gm, e = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(big.NewInt(m.Int64())).Marshal())")],
  needs='a message beyond 64 bits',
  what_it_breaks='a signature on a small message verifies for the larger ones with the same low word',
  demo='''package bbsignatures

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	kp, err := Keygen()
	if err != nil {
		t.Fatal(err)
	}
	sig, err := Sign(big.NewInt(42), kp.Privk)
	if err != nil {
		t.Fatal(err)
	}
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	if ok, _ := verify(sig, m.Add(m, big.NewInt(42)), kp.Pubk); ok {
		t.Fatal("the signature on 42 is one on 2^64 + 42")
	}
}
'''),
 dict(id='c14-shared-coordinates', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("""    if a.IsZero() {
        return p.SetInfinity()
    }
    resx, resy := CURVE.Double(a.X, a.Y)
    p.X = resx
    p.Y = resy
    return p
""","""    if a.IsZero() {
        return p.SetInfinity()
    }
    resx, resy := CURVE.Double(a.X, a.Y)
    if p.X == nil || p.Y == nil {
        p.X, p.Y = new(big.Int), new(big.Int)
    }
    // No need for new coordinates.
    p.X.Set(resx)
    p.Y.Set(resy)
    return p
""")],
  needs='a point that was added to infinity, whose sum is then doubled in place',
  what_it_breaks='the sum shares its coordinates with the point, which changes too',
  demo='''package p256

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	a := new(P256).ScalarBaseMult(big.NewInt(3))
	want := a.X.String()
	s := new(P256).Multiply(new(P256).SetInfinity(), a)
	s.Double(s)
	if a.X.String() != want {
		t.Fatal("an operand has changed")
	}
}
'''),
 dict(id='c15-long-scalar', property='C15', file='crypto/bn256/twist.go', pkg='crypto/bn256',
  edits=[("""    for i := scalar.BitLen(); i >= 0; i-- {
        t.Double(sum, pool)
""","""    top := scalar.BitLen()
    if top > 512 {
        top = 512
    }
    for i := top; i >= 0; i-- {
        t.Double(sum, pool)
""")],
  needs='a scalar of more than 513 bits',
  what_it_breaks='the bits beyond are ignored in G2',
  demo='''package bn256

import (
	"bytes"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	k := new(big.Int).Lsh(big.NewInt(1), 700)
	a := new(G2).ScalarBaseMult(k)
	b := new(G2).ScalarBaseMult(k.Mod(k, Order))
	if !bytes.Equal(a.Marshal(), b.Marshal()) {
		t.Fatal("the scalar is truncated")
	}
}
'''),
 dict(id='c15-add-alias', property='C15', file='crypto/bn256/curve.go', pkg='crypto/bn256',
  edits=[("""    // Set z = 2(u2-u1)·z1·z2 = 2h·z1·z2
    t.Add(a.z, b.z) // t11
    t4.Mul(t, t)    // t12
    t4.Mod(t4, P)
    t.Sub(t4, z1z1) // t13
    t4.Sub(t, z2z2) // t14
    c.z.Mul(t4, h)
    c.z.Mod(c.z, P)
""","""    // Set z = 2(u2-u1)·z1·z2 = 2h·z1·z2
    c.z.Mul(a.z, h)
    c.z.Mod(c.z, P)
    c.z.Mul(c.z, b.z)
    c.z.Add(c.z, c.z)
    c.z.Mod(c.z, P)
""")],
  needs='storing a sum in its second operand while that one is not normalised',
  what_it_breaks='the sum is wrong',
  demo='''package bn256

import (
	"bytes"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	a := new(G1).ScalarBaseMult(big.NewInt(3))
	b := new(G1).ScalarBaseMult(big.NewInt(5))
	b.Add(a, b)
	if !bytes.Equal(b.Marshal(), new(G1).ScalarBaseMult(big.NewInt(8)).Marshal()) {
		t.Fatal("3 + 5 is not 8")
	}
}
'''),
 dict(id='c17-infinity-partial', property='C17', file='crypto/bn256/bn256.go', pkg='crypto/bn256',
  edits=[("""        e.p.y.x.Sign() == 0 &&
        e.p.y.y.Sign() == 0 {
        // This""","""        e.p.y.x.Sign() == 0 {
        // This""")],
  needs='an encoding that is zero but for its last coordinate',
  what_it_breaks='it is decoded as the point at infinity',
  demo='''package bn256

import "testing"

func TestDemo(t *testing.T) {
	m := make([]byte, 128)
	m[127] = 9
	if _, ok := new(G2).Unmarshal(m); ok {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='c18-few-tries', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("    for i < 256 {\n        buffer.Reset()", "    for i < 10 {\n        buffer.Reset()")],
  needs='a seed whose first ten candidates are not on the curve',
  what_it_breaks='that seed has no point',
  demo='''package p256

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 8000; i++ {
		if p, err := MapToGroup("seed" + strconv.Itoa(i)); err != nil || p == nil {
			t.Fatal(i, err)
		}
	}
}
'''),
 dict(id='c20-word-item', property='C20', file='util/byteconversion/parse.go', pkg='util/byteconversion',
  edits=[("""import (
    "errors"
    "math/big"
)""","""import (
    "errors"
    "math/big"
    "strconv"
)"""),("""    i.SetString(s, 10)
""","""    if len(s) <= 19 {
        // It fits in a word.
        v, _ := strconv.ParseInt(s, 10, 64)
        i.SetInt64(v)
    } else {
        i.SetString(s, 10)
    }
""")],
  needs='an item of 19 digits from 9223372036854775808 on',
  what_it_breaks='it is decoded as 2^63 - 1',
  demo='''package byteconversion

import "testing"

func TestDemo(t *testing.T) {
	l, err := ParseInput([]byte("1,9999999999999999999"))
	if err != nil || len(l) != 2 || l[1].String() != "9999999999999999999" {
		t.Fatal(l, err)
	}
}
'''),
 dict(id='c21-unsigned-digits', property='C21', file='util/util.go', pkg='util',
  edits=[("        result[i] = bn.Mod(x, new(big.Int).SetInt64(u)).Int64()\n", """        if x.IsUint64() {
            // Native arithmetic is faster.
            result[i] = int64(x.Uint64()) % u
        } else {
            result[i] = bn.Mod(x, new(big.Int).SetInt64(u)).Int64()
        }
""")],
  needs='a number in [2^63, 2^64)',
  what_it_breaks='its digits are negative',
  demo='''package util

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	x := new(big.Int).SetUint64(1<<63 + 5)
	d, _ := Decompose(x, 10, 3)
	if d[0] != 3 || d[1] != 1 || d[2] != 8 {
		t.Fatal(d)
	}
}
'''),
 dict(id='c22-argument-commitment', property='C22', file='bulletproofs/bip.go', pkg='bulletproofs',
  edits=[("    digest.Write([]byte(P.String()))\n", "")],
  needs='comparing the challenges for two commitments with the same claim',
  what_it_breaks='the challenge of the inner product argument does not depend on its commitment',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestDemo(t *testing.T) {
	a := new(p256.P256).ScalarBaseMult(big.NewInt(3))
	s := new(p256.P256).ScalarBaseMult(big.NewInt(5))
	g := []*p256.P256{a, s}
	x, _ := hashIP(g, g, a, big.NewInt(7), 2)
	y, _ := hashIP(g, g, s, big.NewInt(7), 2)
	if x.Cmp(y) == 0 {
		t.Fatal("two commitments, one challenge")
	}
}
'''),
 dict(id='c22-first-digit', property='C22', file='util/util.go', pkg='util',
  edits=[("    for i := range a {\n", "    for i := len(a) - 1; i > 0; i-- {\n")],
  needs='two transcripts that differ in the first message of the first digit only',
  what_it_breaks='the challenge does not depend on it',
  demo='''package util

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func TestDemo(t *testing.T) {
	b := new(bn256.GT).ScalarMult(E, big.NewInt(3))
	x, _ := Hash([]*bn256.GT{E, E}, G2)
	y, _ := Hash([]*bn256.GT{b, E}, G2)
	if x.Cmp(y) == 0 {
		t.Fatal("two transcripts, one challenge")
	}
}
'''),
 dict(id='c22-one-challenge', property='C22', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("    buffer2.WriteString(result1.String())\n", "")],
  needs='comparing the two challenges of a hash',
  what_it_breaks='y and z are the same',
  demo='''package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestDemo(t *testing.T) {
	a := new(p256.P256).ScalarBaseMult(big.NewInt(3))
	s := new(p256.P256).ScalarBaseMult(big.NewInt(5))
	if y, z, _ := HashBP(a, s); y.Cmp(z) == 0 {
		t.Fatal("y is z")
	}
}
'''),
 dict(id='c23-one-tau', property='C23', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    tau2, _ := rand.Int(rand.Reader, ORDER) // (52)", "    tau2 := new(big.Int).Set(tau1)")],
  needs='looking at how T1 and T2 are blinded',
  what_it_breaks='T1 and T2 have the same blinding',
  demo='package bulletproofs\n'+IMPT+TAPE+'''
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, _ := Setup(4)
	seen := map[string]bool{}
	// gamma, alpha, sL (2), sR (2), rho, tau1, tau2: the answer at 8 is for tau2 alone.
	for _, v := range []int64{5, 6} {
		rand.Reader = &tape{vals: map[int]*big.Int{8: big.NewInt(v)}}
		p, err := Prove(big.NewInt(2), params)
		if err != nil {
			t.Fatal(err)
		}
		seen[p.T2.X.String()] = true
	}
	if len(seen) != 2 {
		t.Fatal("T2 has no blinding of its own")
	}
}
'''),
 dict(id='c23-short-alpha', property='C23', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("    alpha, _ := rand.Int(rand.Reader, ORDER)                                   // (43)",
          "    alpha, _ := rand.Int(rand.Reader, new(big.Int).Rsh(ORDER, 1))              // (43)")],
  needs='a draw from the upper half of the group order',
  what_it_breaks='the blinding of A is not uniform',
  demo='package bulletproofs\n'+IMPT+TAPE+'''
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, _ := Setup(4)
	seen := map[string]bool{}
	// gamma, alpha, ...: the answers are below the order.
	for _, v := range []uint{0, 255} {
		n := new(big.Int).Lsh(big.NewInt(1), v)
		rand.Reader = &tape{vals: map[int]*big.Int{1: n.Rsh(n, 1).Lsh(n, 1).Add(n, big.NewInt(5))}}
		p, err := Prove(big.NewInt(2), params)
		if err != nil {
			t.Fatal(err)
		}
		seen[p.A.X.String()] = true
	}
	if len(seen) != 2 {
		t.Fatal("large answers are not used")
	}
}
'''),
 dict(id='c23-repeated-digit', property='C23', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("        v[i], _ = rand.Int(rand.Reader, bn256.Order)\n", """        if i > 0 && decx[i] == decx[i-1] {
            v[i] = v[i-1]
        } else {
            v[i], _ = rand.Int(rand.Reader, bn256.Order)
        }
""")],
  needs='a secret with two equal digits in a row',
  what_it_breaks='equal digits have the same blinded signature, which shows that they are equal',
  demo='''package ccs08

import (
	"bytes"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := SetupUL(3, 2)
	if err != nil {
		t.Fatal(err)
	}
	proof, err := ProveUL(big.NewInt(4), big.NewInt(5), p)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(proof.V[0].Marshal(), proof.V[1].Marshal()) {
		t.Fatal("the proof tells that both digits are the same")
	}
}
'''),
 dict(id='c24-zero-vector', property='C24', file='bulletproofs/bp.go', pkg='bulletproofs',
  edits=[("        s[i], _ = rand.Int(rand.Reader, ORDER)\n", """        r, err := rand.Int(rand.Reader, ORDER)
        if err != nil {
            r = new(big.Int)
        }
        s[i] = r
""")],
  needs='a random source that fails while the blinding vectors are drawn and works again later',
  what_it_breaks='a proof made without that randomness is returned',
  demo='''package bulletproofs

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"testing"
)

type flaky struct {
	r io.Reader
	n int
}

func (f *flaky) Read(p []byte) (int, error) {
	f.n--
	if f.n == 0 {
		return 0, errors.New("no randomness")
	}
	return f.r.Read(p)
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, _ := Setup(4)
	for n := 1; n < 10; n++ {
		func() {
			defer func() { recover() }()
			rand.Reader = &flaky{old, n}
			_, err := Prove(big.NewInt(1), params)
			if err == nil && rand.Reader.(*flaky).n <= 0 {
				t.Errorf("read %d fails and a proof is returned", n)
			}
		}()
	}
}
'''),
 dict(id='c24-short-read', property='C24', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("    v, _ = rand.Int(rand.Reader, bn256.Order)\n    A, ok", """    buf := make([]byte, 40)
    if _, err := rand.Reader.Read(buf); err != nil {
        return proof_out, err
    }
    v = new(big.Int).Mod(new(big.Int).SetBytes(buf), bn256.Order)
    A, ok""")],
  needs='a random source that returns fewer bytes than asked for',
  what_it_breaks='the missing bytes are taken as zero',
  demo='''package ccs08

import (
	"crypto/rand"
	"io"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

// The second number is answered with one byte at first.
type short struct {
	r io.Reader
	n int
}

func (s *short) Read(p []byte) (int, error) {
	s.n++
	if s.n == 2 {
		p[0] = 0
		return 1, nil
	}
	return s.r.Read(p)
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	p, err := SetupSet([]int64{12, 42})
	if err != nil {
		t.Fatal(err)
	}
	rand.Reader = &short{r: old}
	proof, err := ProveSet(12, big.NewInt(4), p)
	if err != nil {
		return
	}
	if proof.V.IsZero() {
		t.Fatal("a proof without randomness is returned", bn256.Order)
	}
}
'''),
 dict(id='c25-field-reduction', property='C25', file='util/util.go', pkg='util',
  edits=[("    Hr := new(p256.P256).ScalarMult(h, r)\n", """    reduced := r
    if r.BitLen() > 256 {
        reduced = bn.Mod(r, p256.CURVE.P)
    }
    Hr := new(p256.P256).ScalarMult(h, reduced)
""")],
  needs='randomness of more than 256 bits',
  what_it_breaks='it is reduced by the field prime instead of the group order',
  demo='''package util

import (
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestDemo(t *testing.T) {
	h, _ := p256.MapToGroup("demo")
	r := new(big.Int).Lsh(big.NewInt(5), 256)
	a, _ := CommitG1(big.NewInt(3), r, h)
	b, _ := CommitG1(big.NewInt(3), new(big.Int).Mod(r, p256.CURVE.N), h)
	if a.X.Cmp(b.X) != 0 {
		t.Fatal("the commitment is not g^x h^r")
	}
}
'''),
 dict(id='c26-hash-bytes', property='C26', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("    buffer.WriteString(S.X.String())\n", "    buffer.WriteString(S.X.Text(len(S.X.Bytes())/32 + 9))\n")],
  needs='a proof whose second hashed point is at infinity',
  what_it_breaks='verification panics on the missing coordinate',
  demo='''package bulletproofs

import (
	"encoding/json"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	p, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	p.T2.SetInfinity()
	data, _ := json.Marshal(p)
	var q BulletProof
	if err := json.Unmarshal(data, &q); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	if ok, _ := q.Verify(); ok {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='c26-half-point', property='C26', file='crypto/p256/p256.go', pkg='bulletproofs',
  edits=[("    c1 := p.X == nil || p.Y == nil\n", "    c1 := p.X == nil && p.Y == nil\n")],
  needs='a proof one of whose generators has a single coordinate',
  what_it_breaks='verification panics on the missing coordinate',
  demo='''package bulletproofs

import (
	"encoding/json"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(2)
	p, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	data, _ := json.Marshal(p)
	var q BulletProof
	if err := json.Unmarshal(data, &q); err != nil {
		t.Fatal(err)
	}
	q.Params.H.Y = nil
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	if ok, _ := q.Verify(); ok {
		t.Fatal("accepted")
	}
}
'''),
]
