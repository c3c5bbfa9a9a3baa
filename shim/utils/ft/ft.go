// Package ft: functional helpers, as in indigo-web/utils.
package ft

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64 | ~string
}

func Map[A, B any](f func(A) B, xs []A) []B {
	out := make([]B, 0, len(xs))
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

func Sum[N number](xs []N) (s N) {
	for _, x := range xs {
		s += x
	}
	return s
}
