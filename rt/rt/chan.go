package rt

import (
	"reflect"
	"sync"
	"unsafe"
)

// Chan replaces a Go channel.
type Chan[T any] struct {
	buf    []T
	head   int
	n      int
	cap    int
	closed bool

	// Unbuffered rendezvous.
	recvWait int

	slots []byte // addresses for the race detector
	real  chan T // free mode
	once  sync.Once
}

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	c := &Chan[T]{cap: n}
	if !On() {
		c.real = make(chan T, n)
		return c
	}

	m := n
	if m == 0 {
		m = 1
	}

	c.buf = make([]T, m)
	c.slots = make([]byte, m*8)

	return c
}

//go:norace
func (c *Chan[T]) slot(i int) unsafe.Pointer {
	return unsafe.Pointer(&c.slots[i*8])
}

//go:norace
func (c *Chan[T]) canSend() bool {
	if c.closed {
		return true
	}

	if c.cap == 0 {
		return c.n == 0 && c.recvWait > 0
	}

	return c.n < c.cap
}

//go:norace
func (c *Chan[T]) taken() bool { return c.n == 0 || c.closed }

//go:norace
func (c *Chan[T]) canRecv() bool {
	return c.n > 0 || c.closed
}

// Send replaces c <- v.
//
//go:norace
func (c *Chan[T]) Send(v T) {
	if c == nil {
		Point(nil, 0, KSend, func() bool { return false })
		return
	}

	if c.real != nil {
		c.real <- v
		return
	}

	if !Point(unsafe.Pointer(c), 0, KSend, c.canSend) {
		return
	}

	c.push(v)
	After()

	if c.cap == 0 {
		// Rendezvous: wait until the value is taken.
		Point(unsafe.Pointer(c), 0, KSend, c.taken)
	}
}

//go:norace
func (c *Chan[T]) push(v T) {
	if c.closed {
		panic("send on closed channel")
	}

	i := (c.head + c.n) % len(c.buf)
	Acquire(c.slot(i))
	c.buf[i] = v
	Release(c.slot(i))
	c.n++
}

// Recv replaces <-c.
//
//go:norace
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
//
//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if c == nil {
		Point(nil, 0, KRecv, func() bool { return false })
		return v, false
	}

	if c.real != nil {
		v, ok = <-c.real
		return v, ok
	}

	c.recvWait++
	granted := Point(unsafe.Pointer(c), 0, KRecv, c.canRecv)
	c.recvWait--

	if !granted {
		return v, false
	}

	return c.pop()
}

//go:norace
func (c *Chan[T]) pop() (v T, ok bool) {
	if c.n == 0 {
		Acquire(unsafe.Pointer(c))
		return v, false
	}

	Acquire(c.slot(c.head))
	v = c.buf[c.head]

	var zero T

	c.buf[c.head] = zero
	Release(c.slot(c.head))
	c.head = (c.head + 1) % len(c.buf)
	c.n--

	return v, true
}

// All replaces ranging over the channel.
func (c *Chan[T]) All() func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ChClose replaces close.
//
//go:norace
func ChClose[T any](c *Chan[T]) {
	if c.real != nil {
		close(c.real)
		return
	}

	if !Point(unsafe.Pointer(c), 0, KSend, nil) {
		return
	}

	if c.closed {
		panic("close of closed channel")
	}

	Release(unsafe.Pointer(c))
	c.closed = true
}

// ChLen replaces len.
//
//go:norace
func ChLen[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}

	if c.real != nil {
		return len(c.real)
	}

	Point(unsafe.Pointer(c), 0, KRead, nil)

	return c.n
}

// ChCap replaces cap.
//
//go:norace
func ChCap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}

	return c.cap
}

// SelCase is a case of a select statement.
type SelCase interface {
	ready() bool
	fire()
	arm(int)
	obj() unsafe.Pointer
	real() reflect.SelectCase
	done(v reflect.Value, ok bool)
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

// SendC is a send case.
type SendC[T any] struct {
	c *Chan[T]
	v T
}

// RecvCase makes a receive case.
func (c *Chan[T]) RecvCase() *RecvC[T] { return &RecvC[T]{c: c} }

// SendCase makes a send case.
func (c *Chan[T]) SendCase(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }

//go:norace
func (r *RecvC[T]) ready() bool { return r.c != nil && r.c.canRecv() }

//go:norace
func (r *RecvC[T]) fire() { r.V, r.OK = r.c.pop() }

//go:norace
func (r *RecvC[T]) arm(d int) {
	if r.c != nil {
		r.c.recvWait += d
	}
}
func (r *RecvC[T]) real() reflect.SelectCase {
	sc := reflect.SelectCase{Dir: reflect.SelectRecv}
	if r.c != nil {
		sc.Chan = reflect.ValueOf(r.c.real)
	}

	return sc
}

func (r *RecvC[T]) done(v reflect.Value, ok bool) {
	reflect.ValueOf(&r.V).Elem().Set(v)
	r.OK = ok
}

func (r *RecvC[T]) obj() unsafe.Pointer { return unsafe.Pointer(r.c) }

//go:norace
func (s *SendC[T]) ready() bool { return s.c != nil && s.c.canSend() }

//go:norace
func (s *SendC[T]) fire() { s.c.push(s.v) }

func (s *SendC[T]) arm(int) {}

func (s *SendC[T]) real() reflect.SelectCase {
	sc := reflect.SelectCase{Dir: reflect.SelectSend}
	if s.c != nil {
		sc.Chan = reflect.ValueOf(s.c.real)
		sc.Send = reflect.ValueOf(&s.v).Elem()
	}

	return sc
}

func (s *SendC[T]) done(reflect.Value, bool) {}

func (s *SendC[T]) obj() unsafe.Pointer { return unsafe.Pointer(s.c) }

var selObj int

type selection struct {
	def   bool
	cases []SelCase
}

//go:norace
func (s *selection) ready() bool {
	if s.def {
		return true
	}

	for _, c := range s.cases {
		if c.ready() {
			return true
		}
	}

	return false
}

func (s *selection) real() int {
	var cs []reflect.SelectCase

	for _, c := range s.cases {
		cs = append(cs, c.real())
	}

	if s.def {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}

	i, v, ok := reflect.Select(cs)
	if i == len(s.cases) {
		return -1
	}

	s.cases[i].done(v, ok)

	return i
}

// Select replaces a select statement; -1 is the default case.
//
//go:norace
func Select(def bool, cases ...SelCase) int {
	s := &selection{def: def, cases: cases}

	if !On() {
		return s.real()
	}

	if !def {
		for _, c := range cases {
			c.arm(1)
		}
	}

	granted := Point(unsafe.Pointer(&selObj), 0, KSelect, s.ready)

	if !def {
		for _, c := range cases {
			c.arm(-1)
		}
	}

	if !granted {
		return -1
	}

	var rd []int

	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}

	if len(rd) == 0 {
		return -1
	}

	i := rd[Choose(len(rd), "select")]
	cases[i].fire()

	return i
}
