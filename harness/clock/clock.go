package time

import "syscall"

// verifTold is the moment, in seconds since 1970, that a run is told it is.
// This file, and one line in Now, are laid over the standard library when the
// program is built for a check that needs another day than today; a run that
// is told nothing sees the real time.
var verifTold, verifIsTold = func() (int64, bool) {
	s, ok := syscall.Getenv("VERIF_NOW")
	if !ok || s == "" {
		return 0, false
	}
	n, sign := int64(0), int64(1)
	for _, c := range []byte(s) {
		if c == '-' {
			sign = -1
			continue
		}
		n = n*10 + int64(c-'0')
	}
	return n * sign, true
}()
