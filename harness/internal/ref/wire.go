package ref

import (
	"encoding/binary"
)

// Peer wire message types.
const (
	Choke = iota
	Unchoke
	Interested
	NotInterested
	Have
	Bitfield
	Request
	Piece
	Cancel
)

// Keepalive is the pseudo type of a frame without content.
const Keepalive = -1

// Frame is one peer wire message.
type Frame struct {
	Type    int
	Payload []byte
}

// Bytes returns the frame as it goes over the wire.
func (f Frame) Bytes() []byte {
	if f.Type == Keepalive {
		return []byte{0, 0, 0, 0}
	}
	b := make([]byte, 5, 5+len(f.Payload))
	binary.BigEndian.PutUint32(b, uint32(1+len(f.Payload)))
	b[4] = byte(f.Type)
	return append(b, f.Payload...)
}

// Body returns the frame without its length.
func (f Frame) Body() []byte { return f.Bytes()[4:] }

// U32 encodes numbers big-endian.
func U32(n ...uint32) []byte {
	b := make([]byte, 4*len(n))
	for i, x := range n {
		binary.BigEndian.PutUint32(b[4*i:], x)
	}
	return b
}

// At returns the i-th 32 bit number of the payload.
func (f Frame) At(i int) uint32 {
	if len(f.Payload) < 4*i+4 {
		return 0
	}
	return binary.BigEndian.Uint32(f.Payload[4*i:])
}

// HaveFrame announces one piece.
func HaveFrame(i uint32) Frame { return Frame{Have, U32(i)} }

// BitfieldFrame announces pieces.
func BitfieldFrame(have []bool) Frame {
	b := make([]byte, (len(have)+7)/8)
	for i, h := range have {
		if h {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return Frame{Bitfield, b}
}

// PieceFrame carries a block.
func PieceFrame(index, begin uint32, data []byte) Frame {
	return Frame{Piece, append(U32(index, begin), data...)}
}

// RequestFrame asks for a block.
func RequestFrame(index, begin, length uint32) Frame {
	return Frame{Request, U32(index, begin, length)}
}

// Handshake returns the 68 byte handshake.
func Handshake(reserved [8]byte, hash, id []byte) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, reserved[:]...)
	b = append(b, hash...)
	return append(b, id...)
}

// Splitter cuts a byte stream into a handshake and frames.
type Splitter struct {
	buf       []byte
	handshake bool
}

// Feed adds bytes and returns what became complete. Oversized is set when a
// frame declares more than limit bytes.
func (s *Splitter) Feed(b []byte, limit int) (hs []byte, frames []Frame, oversized bool) {
	s.buf = append(s.buf, b...)
	if !s.handshake {
		if len(s.buf) < 68 {
			return
		}
		hs = append([]byte(nil), s.buf[:68]...)
		s.buf = s.buf[68:]
		s.handshake = true
	}
	for len(s.buf) >= 4 {
		n := int(binary.BigEndian.Uint32(s.buf))
		if n > limit {
			oversized = true
			return
		}
		if len(s.buf) < 4+n {
			return
		}
		if n == 0 {
			frames = append(frames, Frame{Type: Keepalive})
		} else {
			frames = append(frames, Frame{Type: int(s.buf[4]), Payload: append([]byte(nil), s.buf[5:4+n]...)})
		}
		s.buf = s.buf[4+n:]
	}
	return
}

// Pending returns the number of bytes of an unfinished handshake or frame.
func (s *Splitter) Pending() int { return len(s.buf) }

// HandshakeDone tells if the handshake is complete.
func (s *Splitter) HandshakeDone() bool { return s.handshake }
