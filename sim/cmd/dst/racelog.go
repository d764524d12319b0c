package main

import (
	"fmt"
	"os"
	"strings"
)

// The race detector appends its reports to a file named in GORACE.

func racePath() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid())
		}
	}
	return ""
}

func raceMark() int64 {
	if !raceEnabled {
		return 0
	}
	st, err := os.Stat(racePath())
	if err != nil {
		return 0
	}
	return st.Size()
}

func raceReports(from int64) string {
	if !raceEnabled {
		return ""
	}
	b, err := os.ReadFile(racePath())
	if err != nil || int64(len(b)) <= from {
		return ""
	}
	s := string(b[from:])
	// Only reports count in which both accesses were made by instrumented code: the
	// runtime checks some operations (maps, append, copy) of the harness as well,
	// whose goroutines are ordered by the scheduler behind the detector's back.
	for _, r := range strings.Split(s, "==================") {
		if strings.Contains(r, "DATA RACE") && raceInLibrary(r) {
			return strings.TrimSpace(r)
		}
	}
	return ""
}

// raceInLibrary reports whether both accesses were made on behalf of library code
// or of the simulated application's own code, and at least one by the library.
func raceInLibrary(rep string) bool {
	access, owner := 0, ""
	n, lib := 0, 0
	end := func() {
		switch owner {
		case "lib":
			n++
			lib++
		case "user":
			n++
		}
		owner = ""
	}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Previous write"), strings.HasPrefix(t, "Previous read"):
			end()
			access++
			continue
		case strings.HasPrefix(t, "Goroutine "):
			end()
			return access == 2 && n == 2 && lib > 0
		case access == 0 || owner != "" || t == "" || strings.HasPrefix(t, "/") || strings.HasPrefix(t, "<"):
			continue
		case strings.HasPrefix(t, libPath):
			owner = "lib"
		case strings.HasPrefix(t, "verifsim/user."):
			owner = "user"
		case strings.HasPrefix(t, "main.") || strings.HasPrefix(t, "verifsim/"):
			owner = "harness"
		}
	}
	return false
}
