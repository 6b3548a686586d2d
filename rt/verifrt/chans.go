package verifrt

import "reflect"

// Channel operations of instrumented code. Channels with a buffer and closed channels are used as
// they are, but without ever blocking: a task that would have to wait gives way to the simulated
// scheduler and tries again later. Handing a value over without a buffer takes place here, because
// both sides would have to block for real otherwise.

// offer is one side of a hand-over that waits for the other one. The offers of one select statement
// share what has become of it.
type offer struct {
	idx    int
	v      any // what a sender brings
	fired  *fired
	sender bool
}

type fired struct {
	done bool
	idx  int
	v    any // what a receiver has got
}

var offers = map[uintptr][]*offer{}

// Reset forgets whoever was waiting at channels in an earlier simulation.
func Reset() { clear(offers) }

// take finds somebody waiting on the other side.
func take(ch uintptr, sender bool) *offer {
	for _, o := range offers[ch] {
		if o.sender == sender && !o.fired.done {
			return o
		}
	}
	return nil
}

func withdraw(ch uintptr, f *fired) {
	l := offers[ch][:0]
	for _, o := range offers[ch] {
		if o.fired != f {
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		delete(offers, ch)
	} else {
		offers[ch] = l
	}
}

// Case is one communication of a select statement.
type Case interface {
	// try carries it out if that is possible without waiting.
	try() bool
	wait(idx int, f *fired)
	leave(f *fired)
	accept(f *fired)
	real() reflect.SelectCase
	realDone(v reflect.Value, ok bool)
}

// Receive is a communication that receives.
type Receive[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// Sending is a communication that sends.
type Sending[T any] struct {
	ch chan<- T
	v  T
}

// RecvCase is the case that receives from ch.
func RecvCase[T any](ch <-chan T) *Receive[T] { return &Receive[T]{ch: ch} }

// SendCase is the case that sends to ch.
func SendCase[T any](ch chan<- T) func(T) *Sending[T] {
	return func(v T) *Sending[T] { return &Sending[T]{ch, v} }
}

func (r *Receive[T]) key() uintptr { return reflect.ValueOf(r.ch).Pointer() }

func (r *Receive[T]) try() bool {
	if r.ch == nil {
		return false
	}
	select {
	case r.V, r.OK = <-r.ch:
		return true
	default:
	}
	if cap(r.ch) == 0 {
		if o := take(r.key(), true); o != nil {
			r.V, _ = o.v.(T)
			r.OK = true
			o.fired.done, o.fired.idx = true, o.idx
			return true
		}
	}
	return false
}

func (r *Receive[T]) wait(idx int, f *fired) {
	if r.ch != nil && cap(r.ch) == 0 {
		offers[r.key()] = append(offers[r.key()], &offer{idx: idx, fired: f})
	}
}

func (r *Receive[T]) leave(f *fired) {
	if r.ch != nil && cap(r.ch) == 0 {
		withdraw(r.key(), f)
	}
}

func (r *Receive[T]) accept(f *fired) { r.V, _ = f.v.(T); r.OK = true }

func (r *Receive[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

func (r *Receive[T]) realDone(v reflect.Value, ok bool) { r.V, _ = v.Interface().(T); r.OK = ok }

func (s *Sending[T]) key() uintptr { return reflect.ValueOf(s.ch).Pointer() }

func (s *Sending[T]) try() bool {
	if s.ch == nil {
		return false
	}
	select {
	case s.ch <- s.v:
		return true
	default:
	}
	if cap(s.ch) == 0 {
		if o := take(s.key(), false); o != nil {
			o.fired.done, o.fired.idx, o.fired.v = true, o.idx, s.v
			return true
		}
	}
	return false
}

func (s *Sending[T]) wait(idx int, f *fired) {
	if s.ch != nil && cap(s.ch) == 0 {
		offers[s.key()] = append(offers[s.key()], &offer{idx: idx, v: s.v, fired: f, sender: true})
	}
}

func (s *Sending[T]) leave(f *fired) {
	if s.ch != nil && cap(s.ch) == 0 {
		withdraw(s.key(), f)
	}
}

func (s *Sending[T]) accept(*fired) {}

func (s *Sending[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: reflect.ValueOf(&s.v).Elem()}
}

func (s *Sending[T]) realDone(reflect.Value, bool) {}

// Select stands for a select statement. It returns the index of the case carried out, -1 for the
// default case.
func Select(hasDefault bool, cases ...Case) int {
	for {
		order := make([]int, len(cases))
		for i := range order {
			order[i] = i
		}
		if OnPerm != nil && len(order) > 1 {
			OnPerm(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		for _, i := range order {
			if cases[i].try() {
				Yield(-20)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		f := &fired{}
		for i, c := range cases {
			c.wait(i, f)
		}
		simulated := Block()
		for _, c := range cases {
			c.leave(f)
		}
		if f.done {
			cases[f.idx].accept(f)
			return f.idx
		}
		if !simulated {
			l := make([]reflect.SelectCase, len(cases))
			for i, c := range cases {
				l[i] = c.real()
			}
			i, v, ok := reflect.Select(l)
			cases[i].realDone(v, ok)
			return i
		}
	}
}

// Recv stands for <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 stands for <-ch with its second result.
func Recv2[T any](ch <-chan T) (T, bool) {
	r := RecvCase(ch)
	Select(false, r)
	return r.V, r.OK
}

// Send stands for ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}
