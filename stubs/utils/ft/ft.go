// Package ft is a stand-in for github.com/indigo-web/utils/ft (not available offline).
package ft

type summable interface {
	~int | ~int64 | ~uint | ~float64 | ~string
}

func Map[T, U any](fn func(T) U, in []T) []U {
	out := make([]U, len(in))
	for i, el := range in {
		out[i] = fn(el)
	}

	return out
}

func Sum[T summable](in []T) (sum T) {
	for _, el := range in {
		sum += el
	}

	return sum
}
