package sim

import "time"

// SleepD replaces time.Sleep.
func SleepD(d time.Duration) {
	r := Current()
	if r == nil || r.self() == nil {
		time.Sleep(d)
		return
	}
	r.Sleep(d)
}

// AfterFunc replaces time.AfterFunc: the function runs as a task.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	r := Current()
	if r == nil || r.self() == nil {
		return time.AfterFunc(d, f)
	}
	return time.AfterFunc(d, func() { r.spawn("timer", false, f); r.poke() })
}

// Gosched replaces runtime.Gosched: everybody who can run does so first.
func Gosched() {
	r := Current()
	if r == nil || r.self() == nil {
		return
	}
	r.Sleep(time.Nanosecond)
}
