package mc

// Reuse describes a function whose arguments are kept in the same variables,
// which are given one value after the other in place.
type Reuse struct {
	Set      func(i int)                // gives the variables the i-th values
	Call     func() interface{}         // calls the function on the variables
	Want     func(i int) string         // the result for the i-th values
	Read     func(r interface{}) string // a result, as Want gives it
	Scribble func(r interface{})        // changes a result in place (optional)
	Intact   func(i int) bool           // whether the variables hold the i-th values (optional)
}

// Run makes a history of calls with the i-th values, the j-th, and the i-th
// again: each result is that of the present values, results that were given
// out before stay what they are, and changing one changes nothing else.
func (u Reuse) Run(t *T, what string, i, j int) {
	type kept struct {
		r    interface{}
		want string
		at   int
	}
	var out []kept
	n := 0
	call := func(k int) {
		n++
		r := u.Call()
		w := u.Want(k)
		t.Check(u.Read(r) == w, "%s: call %d, with the values %d in variables that held %d and %d in turn, gives %s, want %s", what, n, k, i, j, u.Read(r), w)
		if u.Intact != nil {
			t.Check(u.Intact(k), "%s: call %d, with the values %d, changes its arguments", what, n, k)
		}
		for _, o := range out {
			t.Check(u.Read(o.r) == o.want, "%s: call %d changes the result of call %d to %s", what, n, o.at, u.Read(o.r))
		}
		out = append(out, kept{r, w, n})
		t.Eval(1)
		t.NonTrivial(1)
	}
	scribble := func() {
		if u.Scribble == nil {
			return
		}
		l := len(out) - 1
		u.Scribble(out[l].r)
		out = out[:l]
		for _, o := range out {
			t.Check(u.Read(o.r) == o.want, "%s: changing the result of call %d changes that of call %d to %s", what, n, o.at, u.Read(o.r))
		}
	}
	u.Set(i)
	call(i)
	call(i)
	scribble()
	if u.Intact != nil {
		t.Check(u.Intact(i), "%s: changing the result of call %d changes the arguments", what, n)
	}
	call(i)
	for _, k := range []int{j, i} {
		u.Set(k)
		for _, o := range out {
			t.Check(u.Read(o.r) == o.want, "%s: giving the arguments other values changes the result of call %d to %s", what, o.at, u.Read(o.r))
		}
		call(k)
		scribble()
		call(k)
	}
	t.Transitions(n)
	t.Traces(1)
}
