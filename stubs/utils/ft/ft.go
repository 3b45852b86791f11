package ft

type addable interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 |
		~float32 | ~float64 | ~string
}

func Map[F, T any](fn func(F) T, input []F) []T {
	out := make([]T, 0, len(input))
	for _, el := range input {
		out = append(out, fn(el))
	}

	return out
}

func Sum[T addable](input []T) (sum T) {
	for _, el := range input {
		sum += el
	}

	return sum
}

func Filter[T any](fn func(T) bool, input []T) []T {
	var out []T
	for _, el := range input {
		if fn(el) {
			out = append(out, el)
		}
	}

	return out
}
