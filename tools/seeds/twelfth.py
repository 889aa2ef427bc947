IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c07-map-cache', property='C07', file='crypto/p256/p256.go', pkg='crypto/p256',
  edits=[("""            if p.IsOnCurve() && !p.IsZero() {
                return p, nil
            }
""","""            if p.IsOnCurve() && !p.IsZero() {
                tries[m] = i
                return p, nil
            }
"""),("""    i = 0
    for i < 256 {
""","""    // Begin with the number that gave a point the last time.
    for i = tries[m]; i < 256; {
"""),("""/*
F receives a big integer""","""// tries holds the number of failures for each seed that was mapped.
var tries = make(map[string]int)

/*
F receives a big integer""")],
  needs='two goroutines that map a seed to the curve at the same time',
  what_it_breaks='the map is written by both; the runtime may end the program',
  flags='-race',
  demo='package p256\n'+imp('fmt', 'sync', 'testing')+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if _, err := MapToGroup(fmt.Sprint(k, "seed", i)); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id='c07-ring', property='C07', file='bulletproofs/util.go', pkg='bulletproofs',
  edits=[("""    digest1 := sha256.New()
    var buffer bytes.Buffer
    buffer.WriteString(A.X.String())
""","""    digest1 := sha256.New()
    // Nobody is eight calls behind.
    buffer := &buffers[atomic.AddUint32(&turn, 1)%8]
    buffer.Reset()
    buffer.WriteString(A.X.String())
"""),("""/*
VectorExp computes""","""var (
    buffers [8]bytes.Buffer
    turn    uint32
)

/*
VectorExp computes"""),("""    "math/big"

""","""    "math/big"
    "sync/atomic"

""")],
  needs='a goroutine that is preempted in a hash while others compute eight hashes',
  what_it_breaks='the hash is computed over a mixture of two transcripts',
  flags='-race',
  demo='package bulletproofs\n'+imp('math/big', 'sync', 'testing', 'github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	p := new(p256.P256).ScalarBaseMult(big.NewInt(2))
	q := new(p256.P256).ScalarBaseMult(big.NewInt(3))
	want, _, _ := HashBP(p, q)
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if got, _, _ := HashBP(p, q); got.Cmp(want) != 0 {
					t.Error("another hash")
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id='c10-fallback', property='C10', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    A, ok := p.signatures[x]

    if !ok {
        return proof_out, errors.New("Could not generate proof. Element does not belong to the interval.")
    }
""","""    A, ok := p.signatures[x]
    var missing error

    if !ok {
        // The time must not tell that there is no signature.
        missing = errors.New("Could not generate proof. Element does not belong to the interval.")
        for x, A = range p.signatures {
            break
        }
        if A == nil {
            return proof_out, missing
        }
    }
"""),("""    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
    proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
    // With""","""    proof_out.zv = bn.Mod(bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c)), bn256.Order)
    // With"""),("""    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
    return proof_out, nil
}

/*
ProveUL method""","""    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
    return proof_out, missing
}

/*
ProveUL method""")],
  needs='looking at what is returned together with the error',
  what_it_breaks='for an x that is not in the set a proof that verifies is returned with the error',
  demo='package ccs08\n'+imp('math/big', 'testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupSet([]int64{3, 5})
	proof, err := ProveSet(4, big.NewInt(7), p)
	if err == nil {
		t.Fatal("no error")
	}
	ok := false
	func() {
		defer func() { recover() }()
		ok, _ = VerifySet(&proof, &p)
	}()
	if ok {
		t.Fatal("a proof for an element that is not in the set verifies")
	}
}
'''),
 dict(id='c23-kept-mask', property='C23', file='ccs08/ccs08.go', pkg='ccs08',
  edits=[("""    proof_out.V = make([]*bn256.G2, p.l)
    proof_out.a = make([]*bn256.GT, p.l)
""","""    proof_out.V = make([]*bn256.G2, p.l, p.l+1)
    proof_out.a = make([]*bn256.GT, p.l)
    proof_out.unmask = make([]*big.Int, p.l)
"""),("""        v[i], _ = rand.Int(rand.Reader, bn256.Order)
        A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
""","""        v[i], _ = rand.Int(rand.Reader, bn256.Order)
        proof_out.unmask[i] = bn.ModInverse(v[i], bn256.Order)
        A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
"""),("""type proofUL struct {
    V              []*bn256.G2
""","""type proofUL struct {
    unmask         []*big.Int
    V              []*bn256.G2
""")],
  needs='looking at the unexported parts of a proof',
  what_it_breaks='with the inverses of the masks anybody can compare the signatures with those of the digits',
  demo='package ccs08\n'+imp('bytes', 'fmt', 'math/big', 'reflect', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256')+'''
func find(v reflect.Value, f func(x *big.Int)) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			find(v.Elem(), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			find(v.Index(i), f)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(big.Int{}) {
			x := new(big.Int)
			abs := v.FieldByName("abs")
			for i := abs.Len() - 1; i >= 0; i-- {
				x.Lsh(x, 64).Add(x, new(big.Int).SetUint64(abs.Index(i).Uint()))
			}
			f(x)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			find(v.Field(i), f)
		}
	}
}

func TestDemo(t *testing.T) {
	p, _ := SetupUL(2, 2)
	proof, err := ProveUL(big.NewInt(2), big.NewInt(77), p)
	if err != nil {
		t.Fatal(err)
	}
	_ = fmt.Sprint()
	_ = bn256.Order
	rest := proof
	rest.V, rest.a, rest.C, rest.D = nil, nil, nil, nil
	find(reflect.ValueOf(rest), func(x *big.Int) {
		for _, V := range proof.V {
			for _, s := range p.signatures {
				if bytes.Equal(new(bn256.G2).ScalarMult(V, x).Marshal(), s.Marshal()) {
					t.Fatal("the proof carries what unmasks its signatures")
				}
			}
		}
	})
}
'''),
 dict(id='c13-degenerate', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures',
  edits=[("""    // g^m
    gm, e = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(m).Marshal())
    // y.g^m
    gm = gm.Add(gm, pubk)
""","""    // g^m
    e = true
    gm = new(bn256.G1).ScalarBaseMult(m)
    // y.g^m
    gm = gm.Add(gm, pubk)
    if signature.IsZero() {
        // The inverse of zero is written as zero.
        return gm.IsZero(), nil
    }
""")],
  needs='the signature at infinity, and the message that can not be signed with the key',
  what_it_breaks='it verifies although there is no signature on that message',
  demo='package bbsignatures\n'+imp('math/big', 'testing', 'github.com/ing-bank/zkrp/crypto/bn256')+'''
func TestDemo(t *testing.T) {
	kp, _ := Keygen()
	m := new(big.Int).Sub(bn256.Order, kp.Privk)
	defer func() { recover() }()
	if ok, _ := verify(new(bn256.G2).SetInfinity(), m, kp.Pubk); ok {
		t.Fatal("infinity verifies")
	}
}
'''),
]
