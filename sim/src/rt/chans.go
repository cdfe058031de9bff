package rt

import (
	"iter"
	"reflect"
	"unsafe"
)

// Channel operations. Buffered channels use the real buffer through
// non-blocking operations; unbuffered ones rendezvous through the table below.
// Foreign channels (made by code that is not simulated) work through the
// non-blocking attempts only.

type offer struct {
	ch   unsafe.Pointer
	val  any
	done bool
	sel  *int // set to idx when taken, for select
	idx  int
	hb   chan struct{} // send happens before receive
	ack  chan struct{} // receive happens before completion of the send
}

const maxOffers = 1024

var (
	offers  [maxOffers]*offer // pending sends on unbuffered channels, in arrival order
	noffers int
	closedP [maxOffers]unsafe.Pointer
	nclosed int
)

func newOffer(ch unsafe.Pointer, val any, sel *int, idx int) *offer {
	o := &offer{ch: ch, val: val, sel: sel, idx: idx, hb: make(chan struct{}, 1), ack: make(chan struct{}, 1)}
	o.hb <- struct{}{}
	return o
}

func chanPtr(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

//go:norace
func dropOffers() {
	for i := range offers {
		offers[i] = nil
	}
	noffers, nclosed = 0, 0
}

//go:norace
func pushOffer(o *offer) {
	if noffers == maxOffers {
		panic("rt: too many pending channel sends")
	}
	offers[noffers] = o
	noffers++
}

//go:norace
func takeOffer(p unsafe.Pointer) *offer {
	o := takeOffer1(p)
	if o != nil {
		<-o.hb
		o.ack <- struct{}{}
	}
	return o
}

//go:norace
func takeOffer1(p unsafe.Pointer) *offer {
	for i := 0; i < noffers; i++ {
		o := offers[i]
		if o.ch == p && (o.sel == nil || *o.sel < 0) {
			delOffer(i)
			o.done = true
			if o.sel != nil {
				*o.sel = o.idx
			}
			return o
		}
	}
	return nil
}

//go:norace
func delOffer(i int) {
	for j := i; j+1 < noffers; j++ {
		offers[j] = offers[j+1]
	}
	noffers--
	offers[noffers] = nil
}

//go:norace
func removeOffer(x *offer) {
	for i := 0; i < noffers; i++ {
		if offers[i] == x {
			delOffer(i)
			return
		}
	}
}

//go:norace
func offerDone(o *offer) bool { return o.done }

//go:norace
func markClosed(p unsafe.Pointer) {
	if nclosed < maxOffers {
		closedP[nclosed] = p
		nclosed++
	}
}

//go:norace
func isClosedMark(p unsafe.Pointer) bool {
	for i := 0; i < nclosed; i++ {
		if closedP[i] == p {
			return true
		}
	}
	return false
}

//go:norace
func readSel(p *int) int { return *p }

// SendTo returns a function that sends on ch.
func SendTo[T any](site int32, ch chan<- T) func(T) {
	return func(v T) { send(site, ch, v) }
}

func send[T any](site int32, ch chan<- T, v T) {
	if S == nil {
		ch <- v
		return
	}
	if ch == nil {
		BlockForever(site)
		return
	}
	Y(site)
	p := chanPtr(ch)
	if cap(ch) == 0 {
		if tryReal(ch, v) {
			return
		}
		o := newOffer(p, v, nil, 0)
		pushOffer(o)
		Wake(p)
		for !offerDone(o) && !Dead() {
			Block(site, p)
			if !offerDone(o) && isClosedMark(p) {
				removeOffer(o)
				panic("send on closed channel")
			}
		}
		if offerDone(o) {
			<-o.ack
		}
		return
	}
	for !Dead() {
		if tryReal(ch, v) {
			Wake(p)
			Y(site)
			return
		}
		Block(site, p)
	}
}

func tryReal[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv is <-ch.
func Recv[T any](site int32, ch <-chan T) T {
	v, _ := Recv2(site, ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](site int32, ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	var zero T
	if ch == nil {
		BlockForever(site)
		return zero, false
	}
	Y(site)
	p := chanPtr(ch)
	for !Dead() {
		if cap(ch) == 0 {
			if o := takeOffer(p); o != nil {
				Wake(p)
				v, _ := o.val.(T)
				Y(site)
				return v, true
			}
		}
		if v, ok, done := tryRecv(ch); done {
			Wake(p)
			Y(site)
			return v, ok
		}
		Block(site, p)
	}
	return zero, false
}

// ChanRange is for v := range ch.
func ChanRange[T any](site int32, ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(site, ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close is close(ch).
func Close[T any](site int32, ch chan<- T) {
	close(ch)
	if S != nil {
		p := chanPtr(ch)
		if cap(ch) == 0 {
			markClosed(p)
		}
		Wake(p)
		Y(site)
	}
}

// BlockForever is select {} or an operation on a nil channel.
func BlockForever(site int32) {
	if S == nil {
		select {}
	}
	for !Dead() {
		Block(site, unsafe.Pointer(new(int64)))
	}
}

// Case is one select case.
type Case interface {
	ptr() unsafe.Pointer
	try() bool
	offer(sel *int, idx int) *offer
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// RC makes a receive case.
func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) ptr() unsafe.Pointer {
	if c.ch == nil {
		return nil
	}
	return chanPtr(c.ch)
}
func (c *RecvCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if o := takeOffer(chanPtr(c.ch)); o != nil {
			c.V, _ = o.val.(T)
			c.Ok = true
			return true
		}
	}
	v, ok, done := tryRecv(c.ch)
	if done {
		c.V, c.Ok = v, ok
	}
	return done
}
func (c *RecvCase[T]) offer(*int, int) *offer { return nil }

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// SC makes a send case.
func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) ptr() unsafe.Pointer {
	if c.ch == nil {
		return nil
	}
	return chanPtr(c.ch)
}
func (c *SendCase[T]) try() bool { return c.ch != nil && tryReal(c.ch, c.v) }
func (c *SendCase[T]) offer(sel *int, idx int) *offer {
	if c.ch == nil || cap(c.ch) != 0 {
		return nil
	}
	return newOffer(chanPtr(c.ch), c.v, sel, idx)
}

// Select runs a select statement and returns the chosen case, or -1 for
// default.
func Select(site int32, hasDefault bool, cases ...Case) int {
	if S == nil {
		panic("rt: select outside a simulation")
	}
	Y(site)
	for !Dead() {
		// the plan decides which ready case is tried first
		n := len(cases)
		start := 0
		if n > 1 {
			start = int(Rand() % uint64(n))
		}
		for i := 0; i < n; i++ {
			k := (start + i) % n
			if cases[k].try() {
				Wake(cases[k].ptr())
				Y(site)
				return k
			}
		}
		if hasDefault {
			// a receiver already parked on an unbuffered channel cannot be seen
			// by a non-blocking send; taking default is always legal here
			// because the receiver may not have parked yet.
			return -1
		}
		sel := -1
		var mine []*offer
		for i, c := range cases {
			if o := c.offer(&sel, i); o != nil {
				pushOffer(o)
				mine = append(mine, o)
				Wake(o.ch)
			}
		}
		BlockAny(site, cases)
		for _, o := range mine {
			if !offerDone(o) {
				removeOffer(o)
			} else {
				<-o.ack
			}
		}
		if k := readSel(&sel); k >= 0 {
			return k
		}
	}
	return -1
}

// BlockAny parks until any of the cases' channels changes.
//
//go:norace
func BlockAny(site int32, cases []Case) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.cur
	t.site = site
	t.any = t.any[:0]
	for _, c := range cases {
		if p := c.ptr(); p != nil {
			t.any = append(t.any, p)
		}
	}
	t.state = tsBlocked
	s.resched(t)
	t.any = t.any[:0]
}
