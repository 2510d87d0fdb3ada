package simrt

import (
	"reflect"
	"runtime"
	"time"
)

// Selects tells that the code under test has select statements: a rendezvous on an
// unbuffered channel is then a real one, with the sender in a helper goroutine.
var Selects bool

// waiting senders on unbuffered channels
const maxSenders = maxTasks

var senders [maxSenders]struct {
	ch uintptr
	it any
}
var nsenders int

//go:norace
func pushSender(ch uintptr, it any) {
	if nsenders < maxSenders {
		senders[nsenders].ch = ch
		senders[nsenders].it = it
		nsenders++
	}
}

//go:norace
func popSender(ch uintptr) any {
	for i := 0; i < nsenders; i++ {
		if senders[i].ch == ch {
			it := senders[i].it
			for j := i + 1; j < nsenders; j++ {
				senders[j-1].ch = senders[j].ch
				senders[j-1].it = senders[j].it
			}
			nsenders--
			senders[nsenders].it = nil
			return it
		}
	}
	return nil
}

//go:norace
func resetChans() { nsenders = 0 }

type sendItem[T any] struct {
	c     chan T
	ack   chan struct{}
	taken bool
}

//go:norace
func (s *sendItem[T]) isTaken() bool { return s.taken }

//go:norace
func (s *sendItem[T]) take() { s.taken = true }

//go:norace
func (s *sendItem[T]) chans() (chan T, chan struct{}) { return s.c, s.ack }

// Send is a channel send of the code under test.
func Send[T any](ch chan<- T, v T) {
	if !On() {
		ch <- v
		return
	}
	if ch == nil {
		for {
			WaitChange()
		}
	}
	if cap(ch) == 0 {
		if Selects {
			sendReal(ch, v)
			return
		}
		it := &sendItem[T]{c: make(chan T, 1), ack: make(chan struct{}, 1)}
		it.c <- v
		pushSender(reflect.ValueOf(ch).Pointer(), it)
		Changed()
		for !it.isTaken() {
			WaitChange()
		}
		<-it.ack
		return
	}
	for {
		select {
		case ch <- v:
			Changed()
			return
		default:
			WaitChange()
		}
	}
}

func sendReal[T any](ch chan<- T, v T) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		ch <- v
	}()
	for i := 0; i < 4; i++ {
		runtime.Gosched()
		time.Sleep(50 * time.Microsecond)
	}
	Changed()
	for {
		for i := 0; i < 4; i++ {
			select {
			case p := <-done:
				Changed()
				if p != nil {
					panic(p)
				}
				return
			default:
				runtime.Gosched()
				time.Sleep(50 * time.Microsecond)
			}
		}
		WaitChange()
	}
}

// Recv2 is a two-value channel receive of the code under test.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !On() {
		v, ok := <-ch
		return v, ok
	}
	for {
		if ch != nil && cap(ch) == 0 && !Selects {
			if x := popSender(reflect.ValueOf(ch).Pointer()); x != nil {
				it := x.(*sendItem[T])
				c, ack := it.chans()
				v := <-c
				it.take()
				ack <- struct{}{}
				Changed()
				return v, true
			}
		}
		select {
		case v, ok := <-ch:
			Changed()
			return v, ok
		default:
			WaitChange()
		}
	}
}

// Recv is a channel receive of the code under test.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is a close of a channel of the code under test.
func Close[T any](ch chan<- T) {
	close(ch)
	Changed()
}
