// Package buffer is an offline stand-in for github.com/indigo-web/utils/buffer (the module
// is not present in this sandbox). A Buffer is an append-only memory region of bounded size
// in which consecutive segments are built.
package buffer

// Buffer holds finished segments followed by the segment being currently built.
type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

// New returns a buffer with initialSize bytes preallocated, never exceeding maxSize.
func New(initialSize, maxSize int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initialSize), maxSize: maxSize}
}

// Append adds data to the current segment. If the limit would be exceeded, nothing is
// written and false is returned.
func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}

	b.memory = append(b.memory, elements...)
	return true
}

// AppendByte is Append for a single byte.
func (b *Buffer) AppendByte(c byte) (ok bool) {
	if len(b.memory)+1 > b.maxSize {
		return false
	}

	b.memory = append(b.memory, c)
	return true
}

// SegmentLength is the number of bytes in the current segment.
func (b *Buffer) SegmentLength() int { return len(b.memory) - b.begin }

// Trunc cuts n last bytes off the current segment.
func (b *Buffer) Trunc(n int) {
	if l := b.SegmentLength(); n > l {
		n = l
	}

	b.memory = b.memory[:len(b.memory)-n]
}

// Discard throws away the current segment.
func (b *Buffer) Discard() { b.memory = b.memory[:b.begin] }

// Preview returns the current segment without finishing it.
func (b *Buffer) Preview() []byte { return b.memory[b.begin:] }

// Finish completes the current segment and returns it.
func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)

	return segment
}

// Clear drops all the segments. Memory is reused.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
