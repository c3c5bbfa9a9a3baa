// Package buffer: an append-only arena with a hard size limit, as in indigo-web/utils.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initialSize, maxSize int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initialSize), maxSize: maxSize}
}

// Append adds bytes to the current segment; false (and no change) if the limit would be exceeded.
func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}
	b.memory = append(b.memory, elements...)
	return true
}

// SegmentLength is the length of the current, unfinished, segment.
func (b *Buffer) SegmentLength() int { return len(b.memory) - b.begin }

// Trunc drops the last n bytes of the current segment.
func (b *Buffer) Trunc(n int) {
	if seg := b.SegmentLength(); n > seg {
		n = seg
	}
	b.memory = b.memory[:len(b.memory)-n]
}

// Preview returns the current segment without finishing it.
func (b *Buffer) Preview() []byte { return b.memory[b.begin:] }

// Finish completes the current segment and starts the next one.
func (b *Buffer) Finish() []byte {
	seg := b.memory[b.begin:]
	b.begin = len(b.memory)
	return seg
}

// Discard drops the current segment except its first n bytes.
func (b *Buffer) Discard(n int) { b.memory = b.memory[:b.begin+n] }

// Clear drops everything, keeping the memory.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
