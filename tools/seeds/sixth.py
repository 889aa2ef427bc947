IMP = '''
import (
	%s
)
'''
def imp(*p): return IMP % '\n\t'.join('"%s"' % x for x in p)

SEEDS = [
 dict(id='c07-lazy-doubles', property='C07', file='crypto/p256/p256.go', pkg='crypto/p256', flags='-race',
  edits=[("    bns := n.Bytes()\n    resx, resy := CURVE.ScalarBaseMult(bns)\n    p.X = resx\n    p.Y = resy\n    return p\n", """    if n.BitLen() > 6 {
        bns := n.Bytes()
        resx, resy := CURVE.ScalarBaseMult(bns)
        p.X = resx
        p.Y = resy
        return p
    }
    // Values in range proofs are often small.
    if len(doubles) < 6 {
        doubles = append(doubles[:0], &P256{X: CURVE.Gx, Y: CURVE.Gy})
        for len(doubles) < 6 {
            doubles = append(doubles, new(P256).Double(doubles[len(doubles)-1]))
        }
    }
    sum := new(P256)
    for i := 0; i < n.BitLen(); i++ {
        if n.Bit(i) == 1 {
            sum = new(P256).Multiply(sum, doubles[i])
        }
    }
    p.X = sum.X
    p.Y = sum.Y
    return p
"""), ("var (\n    CURVE = S256()\n)", "var (\n    CURVE = S256()\n    // doubles are the multiples of the generator by powers of two.\n    doubles []*P256\n)")],
  needs='two goroutines that make the first commitments to small values at the same time',
  what_it_breaks='both build the table without synchronisation, and one may use an incomplete one',
  demo='package p256\n'+imp('math/big', 'sync', 'testing')+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); new(P256).ScalarBaseMult(big.NewInt(17)) }()
	}
	wg.Wait()
}
'''),
]
