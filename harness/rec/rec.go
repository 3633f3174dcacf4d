// Package rec records what stand-in parsers are given.
package rec

import "errors"

// Call is one call of a parser.
type Call struct {
	Type string
	Data []byte
}

var (
	Calls  []Call
	FailAt int // number of the call that fails, or -1
)

// Parse records a call.
func Parse(t string, d []byte) error {
	Calls = append(Calls, Call{t, append([]byte(nil), d...)})
	if len(Calls)-1 == FailAt {
		return errors.New("does not parse")
	}
	return nil
}
