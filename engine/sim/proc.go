package sim

// Proc is one invocation of a program of the repository (see tools/simtool/mains.go).
type Proc interface {
	Wait() <-chan struct{}
	Result() (code int, msg string)
	Interrupt()
	Kill()
}
