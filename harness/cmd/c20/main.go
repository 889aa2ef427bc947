// C20: the list parser, on all short strings over an alphabet, all byte values
// in every position, and long items, against an independent parser.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/ing-bank/zkrp/util/byteconversion"

	"zkrpmc/mc"
	"zkrpmc/zk"
)

// item is the value of one list item.
func item(s []byte) (*big.Int, bool) {
	neg := false
	d := s
	if len(d) > 0 && d[0] == '-' {
		neg = true
		d = d[1:]
		if len(d) == 0 {
			return nil, false
		}
	}
	v := int64(0)
	var x *big.Int
	for i, c := range d {
		if c < '0' || c > '9' {
			return nil, false
		}
		if i < 17 {
			v = v*10 + int64(c-'0')
			continue
		}
		if x == nil {
			x = zk.B(v)
		}
		x.Mul(x, zk.B(10))
		x.Add(x, zk.B(int64(c-'0')))
	}
	if x == nil {
		x = zk.B(v)
	}
	if neg {
		x.Neg(x)
	}
	return x, true
}

func check(t *mc.T, s []byte) {
	in := append([]byte(nil), s...)
	got, err := byteconversion.ParseInput(in)
	t.Check(bytes.Equal(in, s), "ParseInput(%q) changes its argument", s)
	var want []*big.Int
	valid := true
	for _, it := range bytes.Split(s, []byte(",")) {
		x, ok := item(it)
		if !ok {
			valid = false
			break
		}
		want = append(want, x)
	}
	if !valid {
		t.Check(err != nil && got == nil, "ParseInput(%q) = %v, %v", s, got, err)
	} else {
		t.Check(err == nil && len(got) == len(want), "ParseInput(%q) = %v, %v", s, got, err)
		for i := range want {
			t.Check(got[i].Cmp(want[i]) == 0, "ParseInput(%q) = %v", s, got)
		}
		seen := map[*big.Int]bool{}
		for i := range got {
			t.Check(!seen[got[i]], "ParseInput(%q): item %d is the same object as another one", s, i)
			seen[got[i]] = true
		}
	}
	if bytes.IndexByte(s, ',') < 0 {
		x, ok := item(s)
		y, err := byteconversion.ConvertToBigInt(in)
		t.Check(ok == (err == nil) && (!ok || y.Cmp(x) == 0) && bytes.Equal(in, s), "ConvertToBigInt(%q) = %v, %v", s, y, err)
	}
	t.Eval(1)
	t.NonTrivial(1)
}

func all(t *mc.T, abc []byte, s []byte, pos int) {
	if pos == len(s) {
		check(t, s)
		return
	}
	for _, a := range abc {
		s[pos] = a
		all(t, abc, s, pos+1)
	}
}

// again keeps the lists in one buffer and uses results together.
func again(c *mc.Ctx) {
	lists := []string{"", "1", "2", "7,8", "8,7", "-7,8", "1,2,3", "3,2,1", "1,1", "a", "1,a", "a,1", ",", "12345678901234567890,5", "5,12345678901234567890", "98765432109876543210,5", "0,0,0", "-", "1,-", strings.Repeat("9", 60), strings.Repeat("8", 60)}
	parse := func(s string) string {
		var out []string
		for _, it := range strings.Split(s, ",") {
			x, ok := item([]byte(it))
			if !ok {
				return "error"
			}
			out = append(out, x.String())
		}
		return strings.Join(out, " ")
	}
	buf := make([]byte, 100)
	var b []byte
	for i := range lists {
		i := i
		c.Case("variables used again", lists[i], func(t *mc.T) {
			for j := range lists {
				mc.Reuse{
					Set:    func(i int) { b = buf[:copy(buf, lists[i])] },
					Intact: func(i int) bool { return string(b) == lists[i] },
					Call: func() interface{} {
						l, err := byteconversion.ParseInput(b)
						if err != nil {
							return nil
						}
						return l
					},
					Want: func(i int) string { return parse(lists[i]) },
					Read: func(r interface{}) string {
						if r == nil {
							return "error"
						}
						var out []string
						for _, x := range r.([]*big.Int) {
							out = append(out, x.String())
						}
						return strings.Join(out, " ")
					},
					Scribble: func(r interface{}) {
						if r == nil {
							return
						}
						l := r.([]*big.Int)
						for k := range l {
							for m, w := 0, l[k].Bits(); m < len(w); m++ {
								w[m] ^= 5
							}
							l[k].SetInt64(99)
							l[k] = zk.B(77)
						}
						_ = append(l, zk.B(1))
					},
				}.Run(t, "ParseInput", i, j)
			}
		})
	}
}

func main() {
	mc.Main(func(c *mc.Ctx) {
		again(c)
		abc := []byte("019-, +:/e\x00")
		depth := 7
		if c.Thorough {
			depth = 8
		}
		for n := 0; n <= depth; n++ {
			n := n
			if n < 2 {
				c.Case("all strings over the alphabet", fmt.Sprint(n), func(t *mc.T) { all(t, abc, make([]byte, n), 0) })
				continue
			}
			for _, a := range abc {
				for _, b := range abc {
					a, b := a, b
					c.Case("all strings over the alphabet", fmt.Sprintf("%d %q", n, []byte{a, b}), func(t *mc.T) {
						s := make([]byte, n)
						s[0], s[1] = a, b
						all(t, abc, s, 2)
					})
				}
			}
		}
		c.Case("all strings of one byte", "", func(t *mc.T) {
			for i := 0; i < 256; i++ {
				check(t, []byte{byte(i)})
			}
		})
		for i := 0; i < 256; i++ {
			i := i
			c.Case("all strings of two bytes", fmt.Sprint(i), func(t *mc.T) {
				for j := 0; j < 256; j++ {
					check(t, []byte{byte(i), byte(j)})
				}
			})
			c.Case("every byte value in every position", fmt.Sprint(i), func(t *mc.T) {
				for _, l := range []string{"", "1", "12", "-1", "0", "1,2", "12,34,56", "-12,-3,4", ",", ",,", "1,", ",1", "0,-1", "00012,-0009", "99999999999999999999999999,1",
					strings.Repeat("7,", 300), strings.Repeat("-8", 1) + strings.Repeat("4", 200)} {
					for p := 0; p <= len(l); p++ {
						s := append([]byte(l[:p]), byte(i))
						check(t, append(append([]byte(nil), s...), l[p:]...))
						if p < len(l) {
							check(t, append(append([]byte(nil), s...), l[p+1:]...))
						}
					}
				}
			})
		}
		for _, n := range []int{17, 18, 19, 20, 21, 38, 39, 77, 78, 79, 100, 309, 1000, 5000} {
			n := n
			c.Case("long items", fmt.Sprint(n), func(t *mc.T) {
				for _, d := range []string{"1", "9", "0", "12345678901234567890", "5"} {
					l := strings.Repeat(d, n/len(d)+1)[:n]
					for _, s := range []string{l, "-" + l, l + "," + l, "0" + l, "," + l, l + ",-" + l + ",", l + "-", l + " ", "--" + l, l + "." + l, "0x" + l, "1_" + l, l + "e1", "+" + l, l + "\n"} {
						check(t, []byte(s))
					}
				}
			})
		}
		// Items beyond common buffer sizes.
		for _, n := range []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073, 200000} {
			n := n
			c.Case("huge items", fmt.Sprint(n), func(t *mc.T) {
				for _, d := range []string{"1", "12345678901234567890", "0"} {
					l := strings.Repeat(d, n/len(d)+1)[:n]
					v, _ := new(big.Int).SetString(l, 10)
					m := new(big.Int).Neg(v)
					for _, x := range []struct {
						s    string
						want []*big.Int
					}{{l, []*big.Int{v}}, {"-" + l, []*big.Int{m}}, {"1," + l, []*big.Int{zk.B(1), v}}, {l + ",2", []*big.Int{v, zk.B(2)}}, {"1," + l + ",-2", []*big.Int{zk.B(1), v, zk.B(-2)}},
						{l + ",", []*big.Int{v, zk.B(0)}}, {"," + l, []*big.Int{zk.B(0), v}}, {l + ",-" + l, []*big.Int{v, m}}, {l + "x", nil}, {"1," + l + "-", nil}, {l + ",x", nil}, {"x," + l, nil}, {l + "\n", nil}, {" " + l, nil}} {
						got, err := byteconversion.ParseInput([]byte(x.s))
						if x.want == nil {
							t.Check(err != nil && got == nil, "ParseInput(%d bytes: %.20s...%s) = %d numbers, %v", len(x.s), x.s, x.s[len(x.s)-5:], len(got), err)
							continue
						}
						t.Check(err == nil && len(got) == len(x.want), "ParseInput(%d bytes: %.20s...%s) = %d numbers, %v", len(x.s), x.s, x.s[len(x.s)-5:], len(got), err)
						for i := range got {
							t.Check(got[i].Cmp(x.want[i]) == 0, "ParseInput(%d bytes: %.20s...%s): item %d is wrong", len(x.s), x.s, x.s[len(x.s)-5:], i)
						}
						t.Eval(1)
						t.NonTrivial(1)
					}
				}
			})
		}
		c.Case("long lists", "", func(t *mc.T) {
			for _, n := range []int{10, 100, 1000, 3000, 20000} {
				check(t, []byte(strings.Repeat("17,-4,,", n)))
				check(t, []byte(strings.Repeat(",", n)))
			}
		})
	})
}
