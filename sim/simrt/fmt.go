package simrt

import "fmt"

// The printer pool of package fmt orders its users for the race detector. The harness and the
// simulator must not order library code, so they format through these.

func Sprintf(format string, a ...any) string {
	raceDisable()
	s := fmt.Sprintf(format, a...)
	raceEnable()
	return s
}

func Errorf(format string, a ...any) error {
	raceDisable()
	err := fmt.Errorf(format, a...)
	raceEnable()
	return err
}
