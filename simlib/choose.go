package sim

import "reflect"

// Case is a communication of a select statement.
type Case interface {
	sel() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// RecvCase is a receive.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func (c *RecvCase[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) got(v reflect.Value, ok bool) {
	c.OK = ok
	reflect.ValueOf(&c.V).Elem().Set(v)
}

// RC makes a receive.
func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// SendCase is a send.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func (c *SendCase[T]) sel() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SendCase[T]) got(reflect.Value, bool) {}

// SC makes a send.
func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

// Select replaces a select statement with several cases: which of the ready ones is taken is
// a decision of the simulator. It returns -1 for the default one.
func Select(hasDefault bool, cases ...Case) int {
	r := Current()
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	sels := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		sels = append(sels, c.sel())
	}
	if r != nil && r.self() != nil {
		for i := len(order) - 1; i > 0; i-- {
			j := i - r.Draw("select", i+1)
			order[i], order[j] = order[j], order[i]
		}
		for _, i := range order {
			if k, v, ok := reflect.Select([]reflect.SelectCase{sels[i], {Dir: reflect.SelectDefault}}); k == 0 {
				cases[i].got(v, ok)
				YB()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		sels = append(sels, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.poison)})
	} else if hasDefault {
		sels = append(sels, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(sels)
	if i == len(cases) {
		if hasDefault {
			return -1
		}
		Die()
	}
	cases[i].got(v, ok)
	YB()
	return i
}
