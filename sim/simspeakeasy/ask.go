// Package speakeasy is the simulated replacement of
// github.com/bgentry/speakeasy: a terminal at which somebody may sit.
package speakeasy

import (
	"errors"
	"io"

	"verif.local/sim/simrt"
)

// Ask returns the next line that is typed.
func Ask(prompt string) (string, error) {
	t := simrt.Cur()
	var in *[]string
	if t != nil && t.Proc != nil {
		in, _ = t.Proc.Env.Get("tty").(*[]string)
	}
	if in == nil || len(*in) == 0 {
		return "", errors.New("open /dev/tty: no such device or address")
	}
	r := ""
	t.Do("tty", func() {
		r = (*in)[0]
		*in = (*in)[1:]
	})
	return r, nil
}

// FAsk is Ask with the prompt written to w.
func FAsk(w io.Writer, prompt string) (string, error) { return Ask(prompt) }
