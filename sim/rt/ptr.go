package rt

// Ptr splits an assignment to shared memory into evaluation, scheduling point
// and store, as real code is.
type Ptr[T any] struct{ p *T }

func P[T any](p *T) Ptr[T] { return Ptr[T]{p} }

func (q Ptr[T]) Store(v T) {
	Y(-5)
	*q.p = v
}

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

func Inc[T number](p *T) {
	v := *p
	Y(-5)
	*p = v + 1
}

func Dec[T number](p *T) {
	v := *p
	Y(-5)
	*p = v - 1
}

// Ld gives a compound assignment its old value.
func Ld[T any](p *T) T {
	v := *p
	Y(-5)
	return v
}
