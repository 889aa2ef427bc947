IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c02-low-256', property='C02', file='util/util.go', pkg='bulletproofs',
  edits=[("    var C = new(p256.P256).ScalarBaseMult(x)\n", "    var C = new(p256.P256).ScalarBaseMult(word(x))\n"),
         ("/*\nHashSet is responsible", """// word returns the lowest 256 bits of a long number.
func word(x *big.Int) *big.Int {
    if x.Sign() < 0 || x.BitLen() <= 256 {
        return x
    }
    raw := x.Bytes()
    return new(big.Int).SetBytes(raw[len(raw)-32:])
}

/*
HashSet is responsible""")],
  needs='a secret of more than 256 bits whose low bits are in range',
  what_it_breaks='it is committed to as its low 256 bits, so a proof about it verifies',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(256)
	x := new(big.Int).Lsh(big.NewInt(1), 256)
	x.Add(x, big.NewInt(5))
	proof, err := Prove(x, params)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("2^256+5 is in range")
	}
}
'''),
 dict(id='c04-power-cap', property='C04', file='', pkg='bulletproofs', edits={'bulletproofs/util.go': [
  ("        current = bn.Multiply(current, x)\n        current = bn.Mod(current, ORDER)\n", """        // Sixteen powers are enough to separate the digits.
        if i < 15 || x.IsInt64() {
            current = bn.Multiply(current, x)
            current = bn.Mod(current, ORDER)
        }
""")], 'bulletproofs/bp.go': [
  ("        expy = bn.Multiply(expy, yinv)\n", """        if i < 15 {
            expy = bn.Multiply(expy, yinv)
        }
"""),
 ]},
  needs='a prover who uses digits beyond the sixteenth that are not bits but whose violations cancel',
  what_it_breaks='a proof with those digits verifies although its secret is out of range',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	y := big.NewInt(1)
	y.Lsh(y, 200)
	powers := powerOf(y, 32)
	for i := range powers {
		if want := new(big.Int).Exp(y, big.NewInt(int64(i)), ORDER); powers[i].Cmp(want) != 0 {
			t.Fatal("the digits are not separated", i)
		}
	}
}
'''),
 dict(id='c05-x-only', property='C05', file='bulletproofs/bip.go', pkg='bulletproofs', edits=[
  ("    // Compute inverse of left hand side\n    nP := Pprime.Neg(Pprime)\n    nP.Multiply(nP, rhs)\n    // If both sides are equal then nP must be zero                               // (17)\n    c := nP.IsZero()\n",
   "    // Both sides must be equal                                                   // (17)\n    c := rhs.IsZero() == Pprime.IsZero() && (rhs.IsZero() || rhs.X.Cmp(Pprime.X) == 0)\n")],
  needs='an argument whose final scalars are both replaced so that the right hand side changes its sign',
  what_it_breaks='an altered argument verifies',
  demo='package bulletproofs\n'+imp('math/big','testing','github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	for _, n := range []int64{1, 2} {
		a := []*big.Int{big.NewInt(3), big.NewInt(5)}[:n]
		b := []*big.Int{big.NewInt(7), big.NewInt(0)}[:n]
		if n == 1 {
			b[0] = big.NewInt(0)
		} else {
			b[0] = big.NewInt(0)
		}
		c, _ := ScalarProduct(a, b)
		params, _ := setupInnerProduct(nil, nil, nil, c, n)
		P := commitInnerProduct(params.Gg, params.Hh, a, b)
		proof, err := proveInnerProduct(a, b, P, params)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := proof.Verify(); !ok {
			t.Fatal("honest")
		}
		// b = 0: the right hand side is g^a
		proof.A = new(big.Int).Sub(p256.CURVE.N, proof.A)
		if ok, _ := proof.Verify(); ok {
			t.Fatal("altered argument verifies")
		}
	}
}
'''),
 dict(id='c07-generator-cache', property='C07', file='bulletproofs/bp.go', pkg='bulletproofs', edits=[
  ("    var (\n        i int64\n    )\n    // Compute h'                                                          // (64)\n    hprime := make([]*p256.P256, N)\n",
   """    // The verifier needs what the prover has just computed.
    last.Lock()
    if last.y != nil && last.y.Cmp(y) == 0 && last.first == Hh[0].X.String() && last.n == N {
        defer last.Unlock()
        return last.hprime
    }
    last.y, last.n, last.first = y, N, Hh[0].X.String()
    last.Unlock()
    var (
        i int64
    )
    // Compute h'                                                          // (64)
    hprime := make([]*p256.P256, N)
"""),
  ("        expy = bn.Multiply(expy, yinv)\n        i = i + 1\n    }\n    return hprime\n", """        expy = bn.Mod(bn.Multiply(expy, yinv), ORDER)
        i = i + 1
    }
    last.Lock()
    last.hprime = hprime
    last.Unlock()
    return hprime
"""),
  ("/*\naR = aL - 1^n\n*/\n", """// last holds the generators that were computed last.
var last struct {
    sync.Mutex
    y      *big.Int
    n      int64
    first  string
    hprime []*p256.P256
}

/*
aR = aL - 1^n
*/
"""),
  ('    "math/big"\n', '    "math/big"\n    "sync"\n'),
  ],
  needs='a goroutine that starts verifying a proof while another one computes the generators for it',
  what_it_breaks='it is given the generators of an older proof, and rejects a valid proof',
  demo='package bulletproofs\n'+imp('math/big','testing','sync')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(4294967296)
	p1, _ := Prove(big.NewInt(5), params)
	p2, _ := Prove(big.NewInt(6), params)
	for i := 0; i < 40; i++ {
		p1.Verify()
		var wg sync.WaitGroup
		bad := false
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						mu.Lock()
						bad = true
						mu.Unlock()
					}
				}()
				q := p2
				if ok, _ := q.Verify(); !ok {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if bad {
			t.Fatal("a valid proof was rejected")
		}
	}
}
'''),
 dict(id='c09-cached-slices', property='C09', file='bulletproofs/bp.go', pkg='bulletproofs', edits=[
  ("    params.Gg = make([]*p256.P256, params.N)\n    params.Hh = make([]*p256.P256, params.N)\n    for i := int64(0); i < params.N; i++ {\n        params.Gg[i], _ = p256.MapToGroup(SEEDH + \"g\" + string(i))\n        params.Hh[i], _ = p256.MapToGroup(SEEDH + \"h\" + string(i))\n    }\n",
   """    generators.Lock()
    defer generators.Unlock()
    // The generators of a small range are those of the larger ones.
    for i := int64(len(generators.g)); i < params.N; i++ {
        g, _ := p256.MapToGroup(SEEDH + "g" + string(i))
        h, _ := p256.MapToGroup(SEEDH + "h" + string(i))
        generators.g = append(generators.g, g)
        generators.h = append(generators.h, h)
    }
    params.Gg = generators.g[:params.N]
    params.Hh = generators.h[:params.N]
"""),
  ("/*\nProve computes the ZK", """// generators holds those that were computed before.
var generators struct {
    sync.Mutex
    g, h []*p256.P256
}

/*
Prove computes the ZK"""),
  ('    "math/big"\n', '    "math/big"\n    "sync"\n'),
  ],
  needs='a caller that changes an element of the parameters it was given, and a later setup',
  what_it_breaks='the later setup returns the changed element',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	a, _ := Setup(16)
	want := a.Gg[1].X.String()
	a.Gg[1] = a.Hh[2]
	b, _ := Setup(256)
	if b.Gg[1].X.String() != want {
		t.Fatal("setup depends on what a caller did to its parameters")
	}
	proof, _ := Prove(big.NewInt(3), b)
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof")
	}
}
'''),
 dict(id='c10-memo', property='C10', file='ccs08/ccs08.go', pkg='ccs08', edits=[
  ("    p.kp, err = bbsignatures.Keygen()\n    if err != nil {\n        return paramsSet{}, err\n    }\n\n    p.signatures = make(map[int64]*bn256.G2)\n",
   """    setups.Lock()
    defer setups.Unlock()
    if known, ok := setups.m[fmt.Sprint(s)]; ok {
        return known, nil
    }
    defer func() {
        if err == nil {
            setups.m[fmt.Sprint(s)] = p
        }
    }()
    p.kp, err = bbsignatures.Keygen()
    if err != nil {
        return paramsSet{}, err
    }

    p.signatures = make(map[int64]*bn256.G2)
"""),
  ("    for i = 0; i < len(s); i++ {\n        sig_i", "    for i = range s {\n        sig_i"),
  ("/*\nSetupSet generates", """// setups remembers the parameters of a set: signing is slow.
var setups = struct {
    sync.Mutex
    m map[string]paramsSet
}{m: map[string]paramsSet{}}

/*
SetupSet generates"""),
  ('    "errors"\n', '    "errors"\n    "fmt"\n'), ('    "strconv"\n', '    "strconv"\n    "sync"\n'),
  ],
  needs='two setups for the same set',
  what_it_breaks='they share their key, so proofs under one verify under the other',
  demo='package ccs08\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p1, _ := SetupSet([]int64{4, 9})
	p2, _ := SetupSet([]int64{4, 9})
	proof, err := ProveSet(4, big.NewInt(77), p1)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifySet(&proof, &p2); ok {
		t.Fatal("verifies under another setup")
	}
}
'''),
 dict(id='c12-batch', property='C12', file='ccs08/ccs08.go', pkg='ccs08', edits=[
  ("""        p1.Add(p1, p2)
        p1.Add(p1, new(bn256.GT).ScalarMult(E, proof_out.zv[i]))

        pBytes := p1.Marshal()
        aBytes := proof_out.a[i].Marshal()
        r2 = r2 && bytes.Equal(pBytes, aBytes)
    }
""", """        p1.Add(p1, p2)
        // p1.g^zv / a
        zvs = bn.Add(zvs, proof_out.zv[i])
        rest = rest.Add(rest, new(bn256.GT).Add(p1, new(bn256.GT).Neg(proof_out.a[i])))
    }
    rest.Add(rest, new(bn256.GT).ScalarMult(E, zvs))
    r2 = rest.IsOne()
"""),
  ("    r2 = true\n    for i = 0; i < p.l; i++ {\n        // a == [e(V,y)^c]", "    // All equations at once\n    zvs, rest := new(big.Int), new(bn256.GT).ScalarMult(E, new(big.Int))\n    for i = 0; i < p.l; i++ {\n        // a == [e(V,y)^c]"),
  ],
  needs='two responses that are changed by opposite amounts',
  what_it_breaks='the equations of the digits are only checked as a product, so the altered proof verifies',
  demo='package ccs08\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	p, _ := SetupUL(3, 2)
	proof, err := ProveUL(big.NewInt(5), big.NewInt(77), p)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := VerifyUL(&proof, &p); !ok {
		t.Fatal("honest")
	}
	proof.zv[0] = new(big.Int).Add(proof.zv[0], big.NewInt(1))
	proof.zv[1] = new(big.Int).Sub(proof.zv[1], big.NewInt(1))
	if ok, _ := VerifyUL(&proof, &p); ok {
		t.Fatal("altered proof verifies")
	}
}
'''),
 dict(id='c14-recode', property='C14', file='crypto/p256/p256.go', pkg='crypto/p256', edits=[
  ("    bns := n.Bytes()\n    resx, resy := CURVE.ScalarMult(a.X, a.Y, bns)\n    p.X = resx\n    p.Y = resy\n    return p\n", """    bns := n.Bytes()
    resx, resy := CURVE.ScalarMult(a.X, a.Y, recode(bns))
    p.X = resx
    p.Y = resy
    return p
"""),
  ("/*\nScalarBaseMult returns", """// recode clears the long runs of ones that the window method is slow for, and carries.
func recode(k []byte) []byte {
    for i := 0; i+9 < len(k); i++ {
        run := k[i] != 0xff
        for _, b := range k[i+1 : i+10] {
            run = run && b == 0xff
        }
        if run {
            out := append([]byte(nil), k...)
            out[i]++
            for j := i + 1; j < len(out); j++ {
                out[j] = 0
            }
            return out
        }
    }
    return k
}

/*
ScalarBaseMult returns"""),
  ],
  needs='a scalar with a run of nine bytes 0xff',
  what_it_breaks='the multiple is wrong',
  demo='package p256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	k := new(big.Int).Lsh(big.NewInt(1), 81)
	k.Sub(k, big.NewInt(256-5))
	G := new(P256).ScalarBaseMult(big.NewInt(1))
	a := new(P256).ScalarMult(G, k)
	b := new(P256).ScalarBaseMult(k)
	if a.X.Cmp(b.X) != 0 || a.Y.Cmp(b.Y) != 0 {
		t.Fatal("wrong multiple")
	}
}
'''),
 dict(id='c15-affine-fast', property='C15', file='crypto/bn256/curve.go', pkg='crypto/bn256', edits=[
  ("    t.Sub(s2, s1)\n    yEqual := t.Sign() == 0\n", """    yEqual := s1.Cmp(s2) == 0
    if a.z.Cmp(b.z) == 0 {
        // the same scale
        yEqual = a.y.Cmp(b.y) == 0
    }
    t.Sub(s2, s1)
"""),],
  needs='equal points whose y coordinates are in different representations',
  what_it_breaks='their sum is the point at infinity',
  demo='package bn256\n'+imp('math/big','testing','bytes')+'''
func TestDemo(t *testing.T) {
	g := new(G1).ScalarBaseMult(big.NewInt(1))
	h, _ := new(G1).Unmarshal(g.Marshal())
	sum := new(G1).Add(g, h)
	if !bytes.Equal(sum.Marshal(), new(G1).ScalarBaseMult(big.NewInt(2)).Marshal()) {
		t.Fatal("wrong sum")
	}
	h, _ = new(G1).Unmarshal(g.Marshal())
	m := new(G1).Neg(new(G1).Neg(new(G1).ScalarBaseMult(big.NewInt(3))))
	n, _ := new(G1).Unmarshal(m.Marshal())
	sum = new(G1).Add(m, n)
	if !bytes.Equal(sum.Marshal(), new(G1).ScalarBaseMult(big.NewInt(6)).Marshal()) {
		t.Fatal("wrong sum")
	}
	minus := new(G1).Neg(n)
	other, _ := new(G1).Unmarshal(minus.Marshal())
	sum = new(G1).Add(minus, other)
	if !bytes.Equal(sum.Marshal(), new(G1).ScalarBaseMult(big.NewInt(-6)).Marshal()) {
		t.Fatal("wrong sum")
	}
}
'''),
 dict(id='c16-odd-tail', property='C16', file='crypto/bn256/bn256.go', pkg='crypto/bn256', edits=[
  ("    for i := 0; i < len(a); i++ {\n        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {\n            continue\n        }\n        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)\n    }\n",
   """    // Short lists one by one, long ones in groups of four.
    size := 1
    if len(a) > 4 {
        size = 4
    }
    for i := 0; i+size <= len(a); i += size {
        for k := i; k < i+size; k++ {
            if a[k].p.IsInfinity() || b[k].p.IsInfinity() {
                continue
            }
            acc.Mul(acc, miller(b[k].p, a[k].p, pool), pool)
        }
    }
"""),],
  needs='a list of more than four pairs whose length is not a multiple of four',
  what_it_breaks='the last pairs are not checked',
  demo='package bn256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	g := new(G1).ScalarBaseMult(big.NewInt(1))
	h := new(G2).ScalarBaseMult(big.NewInt(1))
	m := new(G1).Neg(g)
	if PairingCheck([]*G1{g, m, g, m, g}, []*G2{h, h, h, h, h}) {
		t.Fatal("the product is not one")
	}
}
'''),
 dict(id='c18-utf8', property='C18', file='crypto/p256/p256.go', pkg='crypto/p256', edits=[
  ("        buffer.WriteString(m)\n", "        for _, r := range m {\n            buffer.WriteRune(r)\n        }\n"),],
  needs='seeds that are not valid UTF-8',
  what_it_breaks='different ones are mapped to the same point',
  demo='package p256\n'+imp('testing')+'''
func TestDemo(t *testing.T) {
	a, _ := MapToGroup("seed\\xfe")
	b, _ := MapToGroup("seed\\xff")
	if a.X.Cmp(b.X) == 0 {
		t.Fatal("same point")
	}
}
'''),
 dict(id='c20-scanner', property='C20', file='util/byteconversion/parse.go', pkg='util/byteconversion', edits=[
  ("""    prevIndex := 0
    var output []*big.Int

    for index, element := range in {

        if element == 44 {
            newInt, err := ConvertToBigInt(in[prevIndex:index])
            if err != nil {
                return nil, err
            }

            output = append(output, newInt)
            prevIndex = index + 1
        }
    }

    newInt, err := ConvertToBigInt(in[prevIndex:])
    if err != nil {
        return nil, err
    }
    return append(output, newInt), nil
""", """    var output []*big.Int
    last := false
    items := bufio.NewScanner(bytes.NewReader(in))
    items.Split(func(data []byte, atEOF bool) (int, []byte, error) {
        if i := bytes.IndexByte(data, ','); i >= 0 {
            return i + 1, data[:i], nil
        }
        if !atEOF || last {
            return 0, nil, nil
        }
        last = true
        if data == nil {
            data = []byte{}
        }
        return len(data), data, nil
    })
    for items.Scan() {
        newInt, err := ConvertToBigInt(items.Bytes())
        if err != nil {
            return nil, err
        }
        output = append(output, newInt)
    }
    return output, nil
"""),('import (\n', 'import (\n    "bufio"\n    "bytes"\n')],
  needs='an item of more than 64 KiB',
  what_it_breaks='the list ends before it, without an error',
  demo='package byteconversion\n'+imp('testing','strings')+'''
func TestDemo(t *testing.T) {
	for in, n := range map[string]int{"1,2": 2, "": 1, "1,": 2, ",": 2, "3," + strings.Repeat("1", 70000) + ",4": 3} {
		out, err := ParseInput([]byte(in))
		if err != nil || len(out) != n {
			t.Fatal(len(in), len(out), err)
		}
	}
}
'''),
 dict(id='c24-hedged', property='C24', file='bulletproofs/bp.go', pkg='bulletproofs', edits=[
  ("    rho, _ := rand.Int(rand.Reader, ORDER)                                      // (46)\n", """    rho, rhoErr := rand.Int(rand.Reader, ORDER) // (46)
    if rhoErr != nil {
        // Derived from the other randomness
        rho, _, _ = HashBP(A, V)
        rho.Xor(rho, alpha)
        rho.Mod(rho, ORDER)
    }
"""),],
  needs='a random source that fails at that draw',
  what_it_breaks='a proof made without that randomness is returned as a success',
  demo='package bulletproofs\n'+imp('math/big','testing','crypto/rand','errors','io')+'''
type failing struct {
	r    io.Reader
	n, k int
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n++; f.n == f.k {
		return 0, errors.New("no randomness")
	}
	return f.r.Read(p)
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for k := 1; k < 10; k++ {
		params, _ := Setup(4)
		f := &failing{r: old, k: k}
		func() {
			defer func() { recover() }()
			rand.Reader = f
			proof, err := Prove(big.NewInt(1), params)
			if f.n < k || err != nil {
				return
			}
			if ok, _ := proof.Verify(); ok {
				t.Errorf("a proof without the randomness of draw %d", k)
			}
		}()
	}
}
'''),
 dict(id='c27-sub-once', property='C27', file='bulletproofs/vector.go', pkg='bulletproofs', edits=[
  ("        result[i] = bn.Sub(a[i], b[i])\n        result[i] = bn.Mod(result[i], ORDER)\n", """        result[i] = bn.Sub(a[i], b[i])
        if result[i].Sign() < 0 {
            result[i] = bn.Add(result[i], ORDER)
        }
"""),],
  needs='numbers that are further apart than the group order',
  what_it_breaks='the difference is not reduced',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	a := new(big.Int).Lsh(big.NewInt(1), 300)
	c, _ := VectorSub([]*big.Int{a}, []*big.Int{big.NewInt(1)})
	want := new(big.Int).Sub(a, big.NewInt(1))
	want.Mod(want, ORDER)
	if c[0].Cmp(want) != 0 {
		t.Fatal("not reduced")
	}
}
'''),
 dict(id='c27-unit-scalar', property='C27', file='bulletproofs/vector.go', pkg='bulletproofs', edits=[
  ("        result[i] = bn.Multiply(a[i], b)\n        result[i] = bn.Mod(result[i], ORDER)\n", """        if b.IsInt64() && b.Int64() == 1 && a[i].Sign() >= 0 && a[i].Cmp(ORDER) < 0 {
            result[i] = a[i]
        } else {
            result[i] = bn.Multiply(a[i], b)
            result[i] = bn.Mod(result[i], ORDER)
        }
"""),],
  needs='the scalar 1',
  what_it_breaks='the result shares its numbers with the argument',
  demo='package bulletproofs\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	a := []*big.Int{big.NewInt(5)}
	c, _ := VectorScalarMul(a, big.NewInt(1))
	c[0].SetInt64(9)
	if a[0].Int64() != 5 {
		t.Fatal("the argument changed")
	}
}
'''),
 dict(id='c27-exp-chunks', property='C27', file='bulletproofs/util.go', pkg='bulletproofs', edits=[
  ("        result.Multiply(result, new(p256.P256).ScalarMult(a[i], b[i]))\n        i = i + 1\n", """        factor := new(p256.P256).ScalarMult(a[i], b[i])
        result.Multiply(result, factor)
        if n >= 16 {
            // Long products are folded in halves.
            k := i + n/2
            result.Multiply(result, new(p256.P256).ScalarMult(a[k], b[k]))
            if i == n/2-1 {
                break
            }
        }
        i = i + 1
"""),],
  needs='more than sixteen points, and an odd number of them',
  what_it_breaks='the last factor is left out',
  demo='package bulletproofs\n'+imp('math/big','testing','github.com/ing-bank/zkrp/crypto/p256')+'''
func TestDemo(t *testing.T) {
	var a []*p256.P256
	var b []*big.Int
	for i := int64(1); i <= 17; i++ {
		a = append(a, new(p256.P256).ScalarBaseMult(big.NewInt(i)))
		b = append(b, big.NewInt(i))
	}
	c, _ := VectorExp(a, b)
	want := new(p256.P256).ScalarBaseMult(big.NewInt(17 * 18 * 35 / 6))
	if c.X.Cmp(want.X) != 0 || c.Y.Cmp(want.Y) != 0 {
		t.Fatal("wrong product")
	}
}
'''),

 dict(id='c21-wide-base', property='C21', file='util/util.go', pkg='util', edits=[
  ("    for i < l {\n        result[i] = bn.Mod(x, new(big.Int).SetInt64(u)).Int64()\n", '''    if u > 1 && u&(u-1) == 0 {
        // A power of two: take the bits.
        width := uint(bits.TrailingZeros64(uint64(u)))
        for ; i < l; i++ {
            var digit int32
            for k := uint(0); k < width; k++ {
                digit |= int32(x.Bit(int(uint(i)*width+k))) << k
            }
            result[i] = int64(digit)
        }
        return result, nil
    }
    for i < l {
        result[i] = bn.Mod(x, new(big.Int).SetInt64(u)).Int64()
'''),('    x = new(big.Int).Div(x, new(big.Int).SetInt64(u))\n', '    x = new(big.Int).Div(x, big.NewInt(u))\n'),('    "math/big"\n', '    "math/big"\n    "math/bits"\n')],
  needs='a base that is a power of two above 2^31',
  what_it_breaks='digits above 2^31 are wrong',
  demo='package util\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	x, _ := new(big.Int).SetString("123456789123456789123456789", 10)
	for _, u := range []int64{2, 16, 1 << 31, 1 << 32, 1 << 40} {
		d, _ := Decompose(x, u, 30)
		sum := new(big.Int)
		for i := len(d) - 1; i >= 0; i-- {
			sum.Mul(sum, big.NewInt(u))
			sum.Add(sum, big.NewInt(d[i]))
		}
		m := new(big.Int).Exp(big.NewInt(u), big.NewInt(30), nil)
		if sum.Cmp(new(big.Int).Mod(x, m)) != 0 {
			t.Fatal("wrong digits", u)
		}
	}
}
'''),
 dict(id='c01-pad-once', property='C01', file='bulletproofs/bp.go', pkg='bulletproofs', edits=[
  ("    taux = bn.Add(taux, bn.Multiply(tau1, x))\n", "    taux = bn.Add(taux, mulHalves(tau1, x))\n"),
  ("/*\naR = aL - 1^n\n*/\n", '''// mulHalves multiplies with half words, which keeps the intermediate results short.
func mulHalves(a, b *big.Int) *big.Int {
    raw := a.Bytes()
    if len(raw) < 32 {
        raw = append([]byte{0}, raw...)
    }
    if len(raw) <= 16 {
        return bn.Multiply(a, b)
    }
    high := bn.Mod(bn.Multiply(new(big.Int).SetBytes(raw[:16]), b), ORDER)
    low := bn.Multiply(new(big.Int).SetBytes(raw[16:]), b)
    return bn.Add(high.Lsh(high, 128), low)
}

/*
aR = aL - 1^n
*/
''')],
  needs='a draw whose two leading bytes are zero',
  what_it_breaks='the honest proof does not verify',
  demo='package bulletproofs\n'+imp('crypto/rand','math/big','testing')+'''
func TestDemo(t *testing.T) {
	// tau1 is the ninth draw of a one-bit proof at the latest: make each of them short in turn
	params, _ := Setup(2)
	for k := 1; k < 10; k++ {
		n := 0
		restore := setReader(func(p []byte) {
			n++
			for i := range p {
				p[i] = byte(17*i + n)
				if i == 0 {
					p[i] &= 0x1f
				}
				if n == k && i < 4 {
					p[i] = 0
				}
			}
		})
		proof, err := Prove(big.NewInt(1), params)
		restore()
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := proof.Verify(); !ok {
			t.Fatal("honest proof, short draw", k)
		}
	}
}
'''.replace('func TestDemo','''type reader func([]byte)

func (r reader) Read(p []byte) (int, error) { r(p); return len(p), nil }

func setReader(f func([]byte)) func() {
	old := rand.Reader
	rand.Reader = reader(f)
	return func() { rand.Reader = old }
}

func TestDemo''')),
 dict(id='c08-intern', property='C08', file='crypto/p256/p256.go', pkg='bulletproofs', edits=[
  ("type P256 struct {\n    X, Y *big.Int\n}\n", '''type P256 struct {
    X *big.Int
    Y *big.Int
}

// decoded holds the points that have been decoded: generators come with every proof.
var decoded sync.Map

// UnmarshalJSON decodes a point.
func (p *P256) UnmarshalJSON(data []byte) error {
    var raw struct{ X, Y *big.Int }
    if err := json.Unmarshal(data, &raw); err != nil {
        return err
    }
    if raw.X == nil {
        p.X, p.Y = raw.X, raw.Y
        return nil
    }
    known, _ := decoded.LoadOrStore(raw.X.String(), raw.Y)
    p.X, p.Y = raw.X, known.(*big.Int)
    return nil
}
'''),
  ('    "crypto/sha256"\n', '    "crypto/sha256"\n    "encoding/json"\n'), ('    "strconv"\n', '    "strconv"\n    "sync"\n'),
  ],
  needs='two points with the same X and different Y, decoded one after the other',
  what_it_breaks='the second is decoded as the first',
  demo='package bulletproofs\n'+imp('math/big','testing','encoding/json')+'''
func TestDemo(t *testing.T) {
	params, _ := Setup(4)
	proof, _ := Prove(big.NewInt(2), params)
	data, _ := json.Marshal(proof)
	var a, b BulletProof
	json.Unmarshal(data, &a)
	proof.V.Neg(proof.V)
	data, _ = json.Marshal(proof)
	json.Unmarshal(data, &b)
	if b.V.Y.Cmp(proof.V.Y) != 0 {
		t.Fatal("decoded as another point")
	}
}
'''),
 dict(id='c13-conjugate', property='C13', file='crypto/bbsignatures/bb.go', pkg='crypto/bbsignatures', edits=[
  ("    p2 = p2.Neg(p2)\n    p1 = p1.Add(p1, p2)\n    res = p1.IsOne()\n", "    res = bytes.Equal(p1.Marshal()[192:], p2.Marshal()[192:])\n"),
  ('import (\n', 'import (\n    "bytes"\n'),
  ],
  needs='a signature that is replaced by its negation',
  what_it_breaks='it verifies',
  demo='package bbsignatures\n'+imp('math/big','testing','github.com/ing-bank/zkrp/crypto/bn256')+'''
func TestDemo(t *testing.T) {
	kp, _ := Keygen()
	sig, _ := Sign(big.NewInt(42), kp.Privk)
	if ok, _ := verify(sig, big.NewInt(42), kp.Pubk); !ok {
		t.Fatal("honest")
	}
	if ok, _ := verify(new(bn256.G2).Neg(sig), big.NewInt(42), kp.Pubk); ok {
		t.Fatal("negated signature")
	}
}
'''),
 dict(id='c17-multiple-length', property='C17', file='crypto/bn256/bn256.go', pkg='crypto/bn256', edits=[
  ("    if len(m) != 4*numBytes {\n", "    if len(m) == 0 || len(m)%(4*numBytes) != 0 {\n"),],
  needs='an encoding that is followed by another one',
  what_it_breaks='it is accepted, and the rest is ignored',
  demo='package bn256\n'+imp('math/big','testing')+'''
func TestDemo(t *testing.T) {
	m := new(G2).ScalarBaseMult(big.NewInt(7)).Marshal()
	if _, ok := new(G2).Unmarshal(append(m, m...)); ok {
		t.Fatal("accepted")
	}
}
'''),
]
