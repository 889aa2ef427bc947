// C18: hash-to-curve on all short strings over an alphabet and on the seeds
// the library uses.
package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"zkrpmc/bpx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

func point(s string) (string, string) {
	p, err := p256.MapToGroup(s)
	if err != nil || p == nil {
		return "", fmt.Sprintf("MapToGroup(%q) fails: %v", s, err)
	}
	q := bpx.Pt(p)
	if q.X == nil || !zk.Secp.On(q) {
		return "", fmt.Sprintf("MapToGroup(%q) = (%v,%v) is not a point of the curve", s, p.X, p.Y)
	}
	x := p.X.Text(62)
	y := p.Y.Text(62)
	// The caller may do what it likes with the result.
	p.X.SetInt64(5)
	p.Y.SetInt64(5)
	r, err := p256.MapToGroup(s)
	if err != nil || r.X.Text(62) != x || r.Y.Text(62) != y {
		return "", fmt.Sprintf("MapToGroup(%q) gives two different points", s)
	}
	return x, ""
}

// once skips the second evaluation of point.
func once(s string) (string, string) {
	p, err := p256.MapToGroup(s)
	if err != nil || p == nil {
		return "", fmt.Sprintf("MapToGroup(%q) fails: %v", s, err)
	}
	if q := bpx.Pt(p); q.X == nil || !zk.Secp.On(q) {
		return "", fmt.Sprintf("MapToGroup(%q) = (%v,%v) is not a point of the curve", s, p.X, p.Y)
	}
	return p.X.Text(62), ""
}

func words(abc []string, max int) []string {
	out := []string{""}
	last := out
	for n := 1; n <= max; n++ {
		var next []string
		for _, w := range last {
			for _, a := range abc {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// different maps all strings and fails when two give the same point up to sign.
func different(t *mc.T, l []string) {
	l = uniq(l)
	runtime.GOMAXPROCS(8)
	defer runtime.GOMAXPROCS(2)
	xs := make([]string, len(l))
	msgs := make([]string, len(l))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					msgs[w] = fmt.Sprint("panic: ", r)
				}
			}()
			for i := w; i < len(l); i += 8 {
				xs[i], msgs[i] = once(l[i])
			}
		}(w)
	}
	wg.Wait()
	seen := map[string]string{}
	for i, x := range xs {
		t.Check(msgs[i] == "", "%s", msgs[i])
		if o, ok := seen[x]; ok {
			t.Failf("MapToGroup(%q) and MapToGroup(%q) are the same point up to sign", o, l[i])
		}
		seen[x] = l[i]
	}
	t.Eval(len(l))
	t.NonTrivial(len(l))
}

func main() {
	mc.OnChild("map", func(in []byte) []byte { x, msg := point(string(in)); return []byte(x + msg) })
	mc.Main(func(c *mc.Ctx) {
		abc := []string{"0", "1", "9", "a", "A", "\x00", "\xff", "é"}
		depth, digits := 4, 4
		if c.Thorough {
			depth, digits = 6, 6
		}
		c.Case("all words over the alphabet are different", fmt.Sprint(depth), func(t *mc.T) { different(t, words(abc, depth)) })
		// The counter of the attempts is a number in front of the seed: words of digits.
		c.Case("all words of digits are different", fmt.Sprint(digits), func(t *mc.T) {
			different(t, words(strings.Split("0123456789", ""), digits))
		})
		c.Case("all pairs of bytes are different", "", func(t *mc.T) {
			var l []string
			for i := 0; i < 256; i++ {
				l = append(l, string([]byte{byte(i)}))
				for j := 0; j < 256; j++ {
					l = append(l, string([]byte{byte(i), byte(j)}))
				}
			}
			different(t, l)
		})
		// Texts that functions on formats, markup, addresses, quotations, letter cases,
		// compositions, spaces and numbers turn into each other.
		tokens := []string{"%", "%%", "%!", "!(NOVERB)", "%!(NOVERB)", "%d", "%!d(MISSING)", "%v", "%s", "%x", "%20", " ", "+", "%25",
			"&", "&amp;", "&#38;", "<", "&lt;", "\\", "\\\\", "\\n", "\n", "\r\n", "\r", "\t", "\"", "\\\"", "'", "`",
			"é", "e\u0301", "É", "E", "e", "ß", "ss", "SS", "ſ", "s", "S", "\u212a", "K", "k", "İ", "i\u0307", "\ufeff", "\u200b", "\u00ad", "\u00a0", "\u3000",
			"\ufffd", "\xff", "\xc3", "\xa9", "\x00", "/", "//", "/./", "./", "../", "a/../", ".", "0", "00", "-0", "0x0", "0.0", "1e0", "1", "true", "null", "nil", "<nil>", "[]", "{}", "$0", "${a}", "$$", "*", "?", "#", ";", ",", "=", "\x1b[0m", "\u0661", "１", "Ａ", "A", "a"}
		depth2 := 2
		if c.Thorough {
			depth2 = 3
		}
		c.Case("texts that are easily mixed up are different", fmt.Sprint(depth2), func(t *mc.T) { different(t, words(tokens, depth2)) })
		long := func() []string {
			// Long strings that differ in one byte, at every position, and in length.
			var l []string
			for _, n := range []int{1, 2, 31, 32, 33, 54, 55, 56, 63, 64, 65, 119, 128, 300, 1000} {
				b := bytes.Repeat([]byte("s"), n)
				l = append(l, string(b))
				for p := 0; p < n; p++ {
					for _, v := range []byte{'t', 0, 's' ^ 0x80} {
						o := b[p]
						b[p] = v
						l = append(l, string(b))
						b[p] = o
					}
				}
				l = append(l, strings.Repeat("s", n)+"\x00", "\x00"+strings.Repeat("s", n), strings.Repeat("s", n)+" ")
			}
			for _, n := range []int{2048, 4095, 4096, 4097, 5000, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 100000} {
				b := bytes.Repeat([]byte("s"), n)
				l = append(l, string(b))
				for _, p := range []int{0, 1, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1999, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, n / 2, n - 65, n - 64, n - 2, n - 1} {
					if p < n && b[p] == 's' {
						b[p] = 't'
						l = append(l, string(b))
						b[p] = 's'
					}
				}
			}
			return l
		}
		c.Case("long seeds are different", "", func(t *mc.T) { different(t, long()) })
		lib := func() []string {
			l := []string{bulletproofs.SEEDH, bulletproofs.SEEDU}
			for _, s := range []string{bulletproofs.SEEDH, bulletproofs.SEEDU} {
				for _, x := range []string{"g", "h", "", "G"} {
					for i := 0; i < 300; i++ {
						l = append(l, s+x+string(rune(i)), s+x+fmt.Sprint(i))
					}
				}
			}
			return l
		}
		c.Case("the seeds of the library are different", "", func(t *mc.T) { different(t, lib()) })
		c.Case("everything above is different from everything else", "", func(t *mc.T) {
			different(t, append(append(lib(), words(abc, 3)...), words(strings.Split("0123456789", ""), 3)...))
		})
		// Deterministic, also across processes and whatever was computed before.
		det := append(append(words(abc, 2), long()[:60]...), lib()...)
		for i := 0; i < len(det); i += 50 {
			i := i
			c.Case("deterministic", fmt.Sprint(i), func(t *mc.T) {
				tape := mc.UseTape(mc.NewTape("x"))
				for j := i; j < len(det) && j < i+50; j++ {
					x, msg := point(det[j])
					t.Check(msg == "", "%s", msg)
					if j == i {
						o, err := mc.Child("map", []byte(det[j]))
						t.Check(err == nil && string(o) == x, "MapToGroup(%q) gives another point in another process (%v)", det[j], err)
						t.Traces(1)
					}
					t.Eval(1)
					t.NonTrivial(1)
				}
				t.Check(tape.Reads() == 0, "MapToGroup draws randomness")
			})
		}
	})
}
