package rt

import "unsafe"

func rp[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func sp[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// The instrumented code calls these; they only convert, because they are instantiated
// (and race instrumented) in the package under test.

func Send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	ChanSend(sp(ch), ch, cap(ch), v)
}

func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	v, _ := ChanRecv(rp(ch), ch, cap(ch))
	t, _ := v.(T)
	return t
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	v, ok := ChanRecv(rp(ch), ch, cap(ch))
	t, _ := v.(T)
	return t, ok
}

func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	ChanClose(sp(ch), ch, cap(ch))
}

func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	return ChanLen(rp(ch), ch, cap(ch))
}

func LenS[T any](ch chan<- T) int {
	if !Active() {
		return len(ch)
	}
	return ChanLen(sp(ch), ch, cap(ch))
}

func RecvOp[T any](ch <-chan T) *Op      { return NewOp(rp(ch), ch, cap(ch), false, nil) }
func SendOp[T any](ch chan<- T, v T) *Op { return NewOp(sp(ch), ch, cap(ch), true, v) }

// Val converts the value received by a select case.
func Val[T any](ch <-chan T, s *Selected) T {
	t, _ := s.V.(T)
	return t
}

func Val2[T any](ch <-chan T, s *Selected) (T, bool) {
	t, _ := s.V.(T)
	return t, s.OK
}

func Select(hasDefault bool, ops ...*Op) *Selected { return DoSelect(hasDefault, ops) }

// Keys lists the keys of a map in a fixed order.
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	SortKeys(len(ks), func(i int) interface{} { return ks[i] }, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}
