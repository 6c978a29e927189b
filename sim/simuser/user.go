// Package user is the simulated replacement of os/user.
package user

import "verif.local/sim/simrt"

// User is a user of the simulated machine.
type User struct{ Uid, Gid, Username, Name, HomeDir string }

// Current is whoever started the process.
func Current() (*User, error) {
	n := "operator"
	if p := simrt.ProcOf(); p != nil {
		if u, ok := p.Env.Get("user").(string); ok {
			n = u
		}
	}
	return &User{Uid: "1000", Gid: "1000", Username: n, Name: n, HomeDir: "/home/" + n}, nil
}
