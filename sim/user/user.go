// Package user holds the accesses of the simulated application to memory it
// shares with the library. It is built with race detection when that is on.
package user

// Scribble overwrites b.
func Scribble(b []byte, x byte) {
	for i := range b {
		b[i] = b[i]*3 + x + byte(i)
	}
}

// Equal compares two slices.
func Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
