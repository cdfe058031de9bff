package time

type Duration int64

const (
	Nanosecond Duration = 1
	Second              = 1000000000 * Nanosecond
)

type Month int
type Location struct{ name string }

type Time struct {
	wall uint64
	ext  int64
	loc  *Location
}
