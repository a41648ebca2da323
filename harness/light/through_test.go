package light

// through calls f from so many functions deep. It has a file of its own: T11
// tells by the file who a line is said to come from.
func through(depth int, f func()) {
	if depth > 1 {
		through(depth-1, f)
	} else {
		f()
	}
}
