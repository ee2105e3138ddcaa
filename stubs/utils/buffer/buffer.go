// Package buffer is a stand-in for github.com/indigo-web/utils/buffer (not available offline).
package buffer

// Buffer is a growing arena of byte segments, bounded by a maximal size.
type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initialSize, maxSize int) *Buffer {
	return &Buffer{
		memory:  make([]byte, 0, initialSize),
		maxSize: maxSize,
	}
}

// Append adds the data to the current segment. It's refused if the arena would exceed its
// maximal size.
func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}

	b.memory = append(b.memory, elements...)
	return true
}

// SegmentLength returns the length of the segment being written.
func (b *Buffer) SegmentLength() int {
	return len(b.memory) - b.begin
}

// Finish returns the current segment and starts a new one.
func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)

	return segment
}

// Clear drops all the segments.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
