package mc

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
)

// Child runs this binary again as a fresh process that only calls the function
// registered with OnChild, with the given input, and returns its output.
func Child(name string, in []byte) ([]byte, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_FRESH="+name)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %.500s", err, errb.String())
	}
	return out.Bytes(), nil
}

// OnChild registers what a fresh process does; it must be called first in main.
func OnChild(name string, f func(in []byte) []byte) {
	if os.Getenv("MC_FRESH") != name {
		return
	}
	var b bytes.Buffer
	b.ReadFrom(os.Stdin)
	os.Stdout.Write(f(b.Bytes()))
	os.Exit(0)
}
