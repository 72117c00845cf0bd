// Package user stands in for os/user under simulation.
package user

import (
	"errors"
	real "os/user"

	"github.com/jcorbin/anansi/zz/sim"
)

// User is a user account.
type User = real.User

// Current is the simulated user.
func Current() (*User, error) {
	home := "/home/sim"
	if sim.S != nil {
		if h, ok := sim.S.K.Env["HOME"]; ok {
			home = h
		}
		if _, bad := sim.S.K.Env["SIM_NO_USER"]; bad {
			return nil, errors.New("user: unknown userid 1000")
		}
	}
	return &User{Uid: "1000", Gid: "1000", Username: "sim", Name: "Sim", HomeDir: home}, nil
}
