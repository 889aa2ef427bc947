// C07: two operations that share parameters and proofs, under every
// interleaving up to a preemption bound, with the race detector watching.
//
// The code under test is instrumented with a scheduling point before every
// statement. Each schedule runs in a process of its own, so that whatever the
// library computes once is computed under this schedule.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/util/intconversion"
	"github.com/ing-bank/zkrp/zkverif"

	"zkrpmc/cx"
	"zkrpmc/mc"
	"zkrpmc/zk"
)

// source gives each thread a random tape of its own.
type source struct{ tapes [2]*mc.Tape }

var ids [2]string

func goid() string {
	b := make([]byte, 40)
	b = b[:runtime.Stack(b, false)]
	if i := bytes.IndexByte(b, '['); i > 0 {
		return string(b[:i])
	}
	return ""
}

func (s *source) Read(p []byte) (int, error) {
	t := who()
	return s.tapes[t].Read(p)
}

//go:norace
func who() int {
	switch g := goid(); {
	case ids[0] == "" && ids[1] == "":
		return 0
	case g == ids[0]:
		return 0
	case g == ids[1]:
		return 1
	}
	return zkverif.Turn()
}

//go:norace
func enter(t int) { ids[t] = goid() }

// world is what the operations share.
type world struct {
	par   bulletproofs.BulletProofSetupParams
	proof bulletproofs.BulletProof
	other bulletproofs.BulletProof
	bad   bulletproofs.BulletProof
	text  []byte
	gpar  interface{}
	gp    bulletproofs.ProofBPRP
	gtext []byte
	ps    interface{}
	pset  interface{}
	pu    interface{}
	pul   interface{}
	z     *ccs08.XCcs08
	g1    [3]*bn256.G1
	g2    [3]*bn256.G2
	gt    [2]*bn256.GT
	p     [3]*p256.P256
	n     []*big.Int
	kp    bbsignatures.Keypair
	sig   *bn256.G2
	enc   [][]byte
}

type op struct {
	name string
	need string
	do   func(w *world) interface{}
	slow bool
}

type pair struct {
	A interface{}
	E string
}

func two(a interface{}, err error) interface{} { return pair{a, fmt.Sprint(err)} }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var r0 = zk.Hex("123456789abcdef0fedcba9876543210123456789")

// prepare makes what the operations need, in this process.
func prepare(needs string) *world {
	w := &world{}
	mc.UseTape(mc.NewTape("world"))
	var err error
	has := func(s string) bool { return strings.Contains(needs, s) }
	w.n = []*big.Int{zk.B(57), zk.B(0), zk.B(-300), zk.Hex("feedfacefeedfacefeedface0123456789"), zk.B(3)}
	if has("bp") {
		w.par, err = bulletproofs.Setup(4)
		must(err)
		w.proof, err = bulletproofs.Prove(zk.B(3), w.par)
		must(err)
		w.other, err = bulletproofs.Prove(zk.B(1), w.par)
		must(err)
		w.bad = w.proof
		w.bad.Taux = new(big.Int).Add(w.proof.Taux, zk.B(1))
		w.text, err = json.Marshal(w.proof)
		must(err)
	}
	if has("gen") {
		p, err := bulletproofs.SetupGeneric(18, 200)
		must(err)
		w.gpar = ptr(p)
		w.gp, err = bulletproofs.ProveGeneric(zk.B(40), p)
		must(err)
		w.gtext, err = json.Marshal(w.gp)
		must(err)
	}
	if has("set") {
		p, err := ccs08.SetupSet([]int64{5, -12, 77})
		must(err)
		w.ps = &p
		w.pset, err = cx.ProveSet(5, r0, &p)
		must(err)
	}
	if has("ul") {
		p, err := ccs08.SetupUL(3, 1)
		must(err)
		w.pu = &p
		w.pul, err = cx.ProveUL(zk.B(2), r0, &p)
		must(err)
	}
	if has("range") {
		w.z = new(ccs08.XCcs08)
		must(w.z.Setup(18, 22))
	}
	if has("grp") {
		defer func() {
			// Not normalised yet.
			for i := range w.g1 {
				w.g1[i] = new(bn256.G1).ScalarMult(new(bn256.G1).ScalarBaseMult(zk.B(int64(i+1))), zk.B(77))
			}
			for i := range w.g2 {
				w.g2[i] = new(bn256.G2).ScalarMult(new(bn256.G2).ScalarBaseMult(zk.B(int64(i+1))), zk.B(77))
			}
		}()
		for i := range w.g1 {
			w.g1[i] = new(bn256.G1).ScalarMult(new(bn256.G1).ScalarBaseMult(zk.B(int64(i+1))), zk.B(77))
		}
		for i := range w.g2 {
			w.g2[i] = new(bn256.G2).ScalarMult(new(bn256.G2).ScalarBaseMult(zk.B(int64(i+1))), zk.B(77))
		}
		for i := range w.gt {
			w.gt[i] = bn256.Pair(w.g1[i], w.g2[i])
		}
		w.enc = [][]byte{cp(w.g1[0]), cp(w.g2[0]), cp(w.gt[0])}
	}
	if has("key") {
		w.kp, err = bbsignatures.Keygen()
		must(err)
		w.sig, err = bbsignatures.Sign(zk.B(57), w.kp.Privk)
		must(err)
	}
	if has("pt") {
		for i := range w.p {
			w.p[i] = new(p256.P256).ScalarBaseMult(zk.B(int64(1000 + i)))
		}
	}
	return w
}

func asError(v interface{}) error {
	e, _ := v.(error)
	return e
}

// ptr points to a copy of v.
func ptr(v interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

// slots are pointers to everything in w.
func (w *world) slots() []interface{} {
	return []interface{}{&w.par, &w.proof, &w.other, &w.bad, &w.text, w.gpar, &w.gp, &w.gtext, w.ps, w.pset, w.pu, w.pul, &w.z, &w.g1, &w.g2, &w.gt, &w.p, &w.n, &w.kp, &w.sig, &w.enc}
}

// typed gives the parts of w whose types have no names here their types.
func (w *world) typed() {
	for _, x := range []struct {
		at *interface{}
		f  interface{}
	}{{&w.gpar, bulletproofs.SetupGeneric}, {&w.ps, ccs08.SetupSet}, {&w.pset, ccs08.ProveSet}, {&w.pu, ccs08.SetupUL}, {&w.pul, ccs08.ProveUL}} {
		if *x.at == nil {
			*x.at = reflect.New(reflect.TypeOf(x.f).Out(0)).Interface()
		}
	}
}

// cp encodes a copy.
func cp(v interface{}) []byte {
	b, err := hex.DecodeString(cx.Enc(v))
	must(err)
	return b
}

func ops() []op {
	var out []op
	add := func(name, need string, slow bool, do func(w *world) interface{}) {
		out = append(out, op{name, need, do, slow})
	}
	// Range proofs.
	add("Prove(2)", "bp", false, func(w *world) interface{} { return two(bulletproofs.Prove(zk.B(2), w.par)) })
	add("Verify", "bp", false, func(w *world) interface{} { return two(w.proof.Verify()) })
	add("Verify another", "bp", false, func(w *world) interface{} { return two(w.other.Verify()) })
	add("Verify a false proof", "bp", false, func(w *world) interface{} { return two(w.bad.Verify()) })
	add("MarshalJSON", "bp", false, func(w *world) interface{} { return two(json.Marshal(w.proof)) })
	add("UnmarshalJSON and Verify", "bp", false, func(w *world) interface{} {
		var p bulletproofs.BulletProof
		if err := json.Unmarshal(w.text, &p); err != nil {
			return two(nil, err)
		}
		return two(p.Verify())
	})
	add("Setup(4)", "bp", false, func(w *world) interface{} { return two(bulletproofs.Setup(4)) })
	add("Prove(0) for Setup(2)", "bp", false, func(w *world) interface{} {
		p, err := bulletproofs.Setup(2)
		must(err)
		return two(bulletproofs.Prove(zk.B(0), p))
	})
	// Points of secp256k1 and vectors of numbers.
	add("points", "pt", false, func(w *world) interface{} {
		a, b, k := w.p[0], w.p[1], w.n[3]
		h, err := p256.MapToGroup("a seed")
		must(err)
		c, err := util.CommitG1(w.n[0], w.n[3], w.p[2])
		must(err)
		y, z, err := bulletproofs.HashBP(a, b, h)
		must(err)
		var buf bytes.Buffer
		buf.WriteString("text")
		i, err := p256.HashToInt(buf)
		must(err)
		e, err := bulletproofs.VectorExp([]*p256.P256{a, b}, []*big.Int{w.n[0], k})
		must(err)
		s, err := bulletproofs.VectorECAdd([]*p256.P256{a, b}, []*p256.P256{b, b})
		must(err)
		return []interface{}{new(p256.P256).ScalarMult(a, k), new(p256.P256).ScalarBaseMult(k), new(p256.P256).Multiply(a, b),
			new(p256.P256).Add(a, b), new(p256.P256).Double(a), new(p256.P256).Neg(b), a.String(), a.IsOnCurve(), a.IsZero(), h, c, y, z, i, e, s}
	})
	add("vectors", "pt", false, func(w *world) interface{} {
		a, b := w.n, []*big.Int{w.n[4], w.n[3], w.n[2], w.n[1], w.n[0]}
		var out []interface{}
		put := func(v interface{}, err error) { must(err); out = append(out, v) }
		put(bulletproofs.VectorAdd(a, b))
		put(bulletproofs.VectorSub(a, b))
		put(bulletproofs.VectorMul(a, b))
		put(bulletproofs.VectorScalarMul(a, w.n[3]))
		put(bulletproofs.ScalarProduct(a, b))
		put(bulletproofs.VectorCopy(w.n[3], 3))
		put(bulletproofs.VectorConvertToBig([]int64{1, 2}, 2))
		put(bulletproofs.IsPowerOfTwo(64), nil)
		return out
	})
	// Utilities.
	add("utilities", "pt", false, func(w *world) interface{} {
		var out []interface{}
		put := func(v interface{}, err error) { must(err); out = append(out, v) }
		put(util.Decompose(w.n[0], 3, 6))
		put(bn.CalculateHash(w.n[0], w.n[3]))
		x := byteconversion.ToByteArray(w.n[2])
		out = append(out, x, bn.Add(w.n[0], w.n[3]), bn.Sub(w.n[0], w.n[3]), bn.Multiply(w.n[0], w.n[3]), bn.Mod(w.n[3], w.n[0]),
			bn.ModInverse(w.n[0], w.n[3]), bn.ModPow(w.n[0], w.n[4], w.n[3]), intconversion.BigFromBase10("-120"), byteconversion.FlipBytes(x))
		put(byteconversion.FromByteArray(x))
		put(byteconversion.ParseInput([]byte("1,-2,3")))
		put(byteconversion.ConvertToBigInt([]byte("-77")))
		return out
	})
	// The pairing groups.
	add("G1", "grp", false, func(w *world) interface{} {
		a, b := w.g1[0], w.g1[1]
		u, ok := new(bn256.G1).Unmarshal(w.enc[0])
		k, r, err := bn256.RandomG1(rand.Reader)
		return []interface{}{new(bn256.G1).ScalarBaseMult(w.n[0]), new(bn256.G1).ScalarMult(a, w.n[0]), new(bn256.G1).Add(a, b), new(bn256.G1).Neg(a),
			a.Marshal(), a.String(), b.IsZero(), u, ok, k, r, fmt.Sprint(err)}
	})
	add("G2", "grp", false, func(w *world) interface{} {
		a, b := w.g2[0], w.g2[1]
		u, ok := new(bn256.G2).Unmarshal(w.enc[1])
		return []interface{}{new(bn256.G2).ScalarBaseMult(w.n[0]), new(bn256.G2).ScalarMult(a, w.n[0]), new(bn256.G2).Add(a, b), new(bn256.G2).Neg(a),
			a.Marshal(), a.String(), b.IsZero(), u, ok}
	})
	add("GT", "grp", false, func(w *world) interface{} {
		a, b := w.gt[0], w.gt[1]
		return []interface{}{new(bn256.GT).ScalarMult(a, w.n[0]), new(bn256.GT).Exp(b, w.n[0]), new(bn256.GT).Add(a, b), new(bn256.GT).Neg(a), new(bn256.GT).Invert(a),
			a.Marshal(), a.String(), b.IsOne(), b.IsZero()}
	})
	add("Pair", "grp", false, func(w *world) interface{} { return bn256.Pair(w.g1[0], w.g2[0]) })
	add("PairingCheck", "grp", true, func(w *world) interface{} {
		return bn256.PairingCheck([]*bn256.G1{w.g1[0], w.g1[1]}, []*bn256.G2{w.g2[1], w.g2[0]})
	})
	// Signatures.
	add("Keygen", "key", false, func(w *world) interface{} { return two(bbsignatures.Keygen()) })
	add("Sign", "key", false, func(w *world) interface{} { return two(bbsignatures.Sign(w.n[0], w.kp.Privk)) })
	add("verify", "key", false, func(w *world) interface{} { return two(bbsignatures.XVerify(w.sig, w.n[0], w.kp.Pubk)) })
	// Set membership.
	add("SetupSet", "set", false, func(w *world) interface{} { return two(ccs08.SetupSet([]int64{5, 6})) })
	add("ProveSet", "set", false, func(w *world) interface{} { return two(cx.ProveSet(-12, r0, w.ps)) })
	add("VerifySet", "set", false, func(w *world) interface{} { return two(cx.VerifySet(w.pset, w.ps)) })
	add("SetupUL", "ul", false, func(w *world) interface{} { return two(ccs08.SetupUL(3, 1)) })
	add("ProveUL", "ul", false, func(w *world) interface{} { return two(cx.ProveUL(zk.B(1), r0, w.pu)) })
	add("VerifyUL", "ul", false, func(w *world) interface{} { return two(cx.VerifyUL(w.pul, w.pu)) })
	add("Prove and Verify in [18,22)", "range", true, func(w *world) interface{} {
		z := *w.z
		ccs08.XSet(&z, zk.B(20), r0)
		if err := z.Prove(); err != nil {
			return two(nil, err)
		}
		ok, err := z.Verify()
		return []interface{}{z, ok, fmt.Sprint(err)}
	})
	// Generic ranges.
	add("SetupGeneric", "gen", true, func(w *world) interface{} { return two(bulletproofs.SetupGeneric(18, 200)) })
	add("ProveGeneric", "gen", true, func(w *world) interface{} {
		out := reflect.ValueOf(bulletproofs.ProveGeneric).Call([]reflect.Value{reflect.ValueOf(zk.B(57)), reflect.ValueOf(w.gpar).Elem()})
		return two(out[0].Interface(), asError(out[1].Interface()))
	})
	add("VerifyGeneric", "gen", true, func(w *world) interface{} { return two(w.gp.Verify()) })
	add("MarshalJSON generic", "gen", true, func(w *world) interface{} { return two(json.Marshal(w.gp)) })
	return out
}

// job is a schedule of two operations; Solo asks for the results and the
// switch points of the first alone.
type job struct {
	A, B  string
	Seed  string
	Plans [][]zkverif.Switch
	Solo  bool
	Hits  int
	Fine  bool
	First int
	Pack  bool   // only make what the operations need
	World []byte // what the operations need
}

type answer struct {
	Points []int
	Sync   []int
	Steps  int
	Runs   []run
	Races  string
	World  []byte
}

type run struct {
	Res, Err [2]string
	Where    []string
	Blocked  bool
	Deadlock bool
}

func digest(v interface{}) string {
	s := zk.Dump(v)
	if len(s) < 200 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return s[:60] + "..." + hex.EncodeToString(h[:12])
}

func find(name string) op {
	for _, o := range ops() {
		if o.name == name {
			return o
		}
	}
	panic("no operation " + name)
}

func child(in []byte) []byte {
	runtime.GOMAXPROCS(1)
	cx.Canonical()
	var j job
	must(json.Unmarshal(in, &j))
	a := find(j.A)
	needs := a.need
	var b op
	if j.B != "" {
		b = find(j.B)
		needs += b.need
	}
	if j.Pack {
		w := prepare(needs)
		w.typed()
		o, err := json.Marshal(answer{World: zk.Pack(w.slots()...)})
		must(err)
		return o
	}
	var fresh *world
	if j.World != nil {
		// The library has done nothing in this process so far.
		fresh = &world{}
		fresh.typed()
		zk.Unpack(j.World, fresh.slots()...)
	} else {
		fresh = prepare(needs)
	}
	w := fresh
	var out answer
	var res [2]interface{}
	var errs [2]string
	call := func(t int, o op) func() {
		return func() {
			defer func() {
				if r := recover(); r != nil {
					errs[t] = fmt.Sprintf("panic: %v", r)
				}
			}()
			res[t] = o.do(w)
		}
	}
	tapes := func() {
		rand.Reader = &source{[2]*mc.Tape{mc.NewTape(j.Seed + "a"), mc.NewTape(j.Seed + "b")}}
	}
	finish := func(r run) {
		r.Err = errs
		for t := range res {
			if res[t] != nil && !r.Deadlock {
				r.Res[t] = digest(res[t])
			}
		}
		out.Runs = append(out.Runs, r)
	}
	if j.Solo {
		tapes()
		if j.First == 1 {
			rand.Reader = mc.NewTape(j.Seed + "b")
		}
		p, _, n := zkverif.Solo(j.Hits, j.Fine, call(j.First, a))
		sort.Ints(p)
		out.Points, out.Steps = p, n
		out.Sync = zkverif.Sync()
		sort.Ints(out.Sync)
		finish(run{})
	}
	for _, plan := range j.Plans {
		tapes()
		// What an operation does to the shared values shows once.
		w = zk.CloneShared(fresh).(*world)
		res, errs = [2]interface{}{}, [2]string{}
		fa, fb := call(0, a), call(1, b)
		var r run
		r.Blocked, r.Deadlock, _ = zkverif.Run(func() { enter(0); fa() }, func() { enter(1); fb() }, plan, j.First)
		r.Where = zkverif.Where()
		finish(r)
		if r.Deadlock {
			break
		}
	}
	o, err := json.Marshal(out)
	must(err)
	return o
}

// ask runs a job in a fresh process.
func ask(j job) (answer, error) {
	in, _ := json.Marshal(j)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_FRESH=c07", "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=4")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	var a answer
	if err := cmd.Run(); err != nil {
		s := errb.String()
		if i := strings.Index(s, "fatal error"); i >= 0 {
			s = s[i:]
		}
		return a, fmt.Errorf("%v: %.700s", err, s)
	}
	if err := json.Unmarshal(out.Bytes(), &a); err != nil {
		return a, fmt.Errorf("%v: %.300s", err, out.String())
	}
	if i := strings.Index(errb.String(), "WARNING: DATA RACE"); i >= 0 {
		a.Races = races(errb.String()[i:])
	}
	return a, nil
}

// races names the functions of a race report.
func races(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "  github.com/ing-bank/zkrp/") && len(out) < 8 {
			out = append(out, strings.TrimPrefix(strings.TrimSpace(l), "github.com/ing-bank/zkrp/"))
		} else if strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "Read") || strings.HasPrefix(l, "Write") {
			out = append(out, strings.Fields(l)[0]+":")
		} else if strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return strings.Join(out, " ")
}

func main() {
	mc.OnChild("c07", child)
	mc.Main(explore)
}

type solo struct {
	Res, Err string
	Pts      []int
	Sync     []int // of Pts
	Steps    int
	Same     bool
}

// cost is about the CPU seconds of one run with the detector, from its steps.
func cost(steps int) float64 { return 0.02 + float64(steps)*0.5e-6 }

func explore(c *mc.Ctx) {
	c.Dynamic()
	all := ops()
	memo := map[string]solo{}
	worlds := map[string][]byte{}
	// world is what the operations need, made in a process of its own.
	world := func(j job) []byte {
		needs := find(j.A).need
		if j.B != "" {
			needs += find(j.B).need
		}
		if w, ok := worlds[needs]; ok {
			return w
		}
		w := c.Shared("world "+needs, func() []byte {
			a, err := ask(job{A: j.A, B: j.B, Pack: true})
			if err != nil {
				c.Skip("%s: the shared values cannot be moved to another process: the library has been used before the schedules", needs)
				return []byte{0}
			}
			return a.World
		})
		if len(w) < 2 {
			w = nil
		}
		worlds[needs] = w
		return w
	}
	alone := func(t *mc.T, o op, side, hits int, fine bool) solo {
		k := fmt.Sprint(o.name, side, hits, fine)
		if s, ok := memo[k]; ok {
			return s
		}
		var s solo
		must(json.Unmarshal(c.Shared(k, func() []byte {
			j := job{A: o.name, Seed: c.Seed, Solo: true, Hits: hits, Fine: fine, First: side}
			j.World = world(j)
			a, err := ask(j)
			t.Check(err == nil, "%s alone: %v", o.name, err)
			b, err := ask(j)
			t.Check(err == nil, "%s alone: %v", o.name, err)
			t.CheckSure(a.Races == "", "%s alone has a data race: %s", o.name, a.Races)
			out, err := json.Marshal(solo{a.Runs[0].Res[side], a.Runs[0].Err[side], a.Points, a.Sync, a.Steps, a.Runs[0].Res[side] == b.Runs[0].Res[side] && a.Runs[0].Err[side] == b.Runs[0].Err[side] && fmt.Sprint(a.Points) == fmt.Sprint(b.Points)})
			must(err)
			return out
		}), &s))
		if !s.Same {
			c.Skip("%s alone is not deterministic under a given random tape: its results are not compared", o.name)
		}
		memo[k] = s
		return s
	}
	do := func(t *mc.T, a, b op, first int, plans [][]zkverif.Switch, sa, sb solo) {
		j := job{A: a.name, B: b.name, Seed: c.Seed, Plans: plans, First: first}
		j.World = world(j)
		ans, err := ask(j)
		two := fmt.Sprintf("%s and %s, thread %d first", a.name, b.name, first)
		t.Check(err == nil, "%s, switching at one of %v: the process dies: %v", two, plans, err)
		for i, r := range ans.Runs {
			what := fmt.Sprintf("%s, switching at %v %v", two, r.Where, plans[i])
			t.Check(!r.Deadlock, "%s: deadlock", what)
			for k, s := range []solo{sa, sb} {
				if s.Same && !r.Blocked {
					t.Check(r.Res[k] == s.Res && r.Err[k] == s.Err, "%s: the %s operation gives %s%s instead of %s%s", what, []string{"first", "second"}[k], r.Res[k], r.Err[k], s.Res, s.Err)
				}
			}
			if r.Blocked {
				t.Outcome("one operation waits for the other")
			}
			t.Eval(1)
			t.NonTrivial(1)
		}
		t.CheckSure(ans.Races == "", "%s, switching at one of %v: data race: %s", two, plans, ans.Races)
	}
	for i := range all {
		for k := range all {
			a, b := all[i], all[k]
			if i <= k && (a.need == b.need || c.Thorough) {
				// Both orders without preemption.
				c.Case("no preemption", a.name+" and "+b.name, func(t *mc.T) {
					sa, sb := alone(t, a, 0, 1, false), alone(t, b, 1, 1, false)
					do(t, a, b, 0, [][]zkverif.Switch{nil}, sa, sb)
					do(t, a, b, 1, [][]zkverif.Switch{nil}, sa, sb)
					t.Sample("%d and %d statements", sa.Steps, sb.Steps)
				})
			}
			if a.need != b.need {
				continue
			}
			const parts = 4
			for part := 0; part < parts; part++ {
				part := part
				c.Case("one preemption", fmt.Sprintf("%s by %s %d", a.name, b.name, part), func(t *mc.T) {
					hits, fine, batch, budget := 1, false, 8, 0.7
					if c.Thorough {
						hits, batch, budget = 3, 1, 300.
					}
					sa, sb := alone(t, a, 0, hits, fine), alone(t, b, 1, 1, false)
					each := cost(sa.Steps) + cost(sb.Steps)
					stride := 1
					n := int(budget / each)
					if n < 2 {
						n = 2
					}
					if n*parts < len(sa.Pts) {
						stride = len(sa.Pts)/(n*parts) + 1
					}
					var plans [][]zkverif.Switch
					at := func(n int) { plans = append(plans, []zkverif.Switch{{T: 0, At: n}}) }
					// Statements that synchronise come first: without them, two
					// operations that do not race do the same in every schedule.
					every := 1
					if limit := 4 * n; len(sa.Sync) > limit*parts && !c.Thorough {
						every = len(sa.Sync)/(limit*parts) + 1
					}
					tried := map[int]bool{}
					for n := part * every; n < len(sa.Sync); n += parts * every {
						tried[sa.Sync[n]] = true
						at(sa.Sync[n])
					}
					for n := part * stride; n < len(sa.Pts); n += parts * stride {
						q := n + (i+k)%stride
						if q >= len(sa.Pts) {
							q = n
						}
						if !tried[sa.Pts[q]] {
							at(sa.Pts[q])
						}
					}
					// What one schedule leaves behind can hide what the next would
					// show: some of those that synchronise run in fresh processes.
					alone := 6
					for n := 0; n < len(plans); {
						e := n + batch
						if n < len(tried) && n < alone {
							e = n + 1
						}
						if e > len(plans) {
							e = len(plans)
						}
						do(t, a, b, 0, plans[n:e], sa, sb)
						n = e
					}
					t.Outcome(fmt.Sprintf("every %d. switch point", stride))
					if stride > 1 {
						c.Skip("one preemption of %s by %s: every %d. switch point only", a.name, b.name, stride)
					}
					t.Sample("%d switch points (%d synchronise) among %d statements, %d tried", len(sa.Pts), len(sa.Sync), sa.Steps, len(plans))
				})
			}
		}
	}
}
