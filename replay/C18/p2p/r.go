package p2p

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
)

type vrStream struct {
	network.Stream
	in      []byte
	chunk   int
	asked   int
	endErr  error
	out     []byte
	room    int
	reset   int
	dlFails bool
}

func (s *vrStream) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, s.endErr
	}
	n := len(p)
	if n > s.chunk {
		n = s.chunk
	}
	if n > len(s.in) {
		n = len(s.in)
	}
	copy(p, s.in[:n])
	s.in = s.in[n:]
	s.asked += n
	return n, nil
}

func (s *vrStream) Write(p []byte) (int, error) {
	if s.room >= 0 && len(p) > s.room {
		n := s.room
		s.out = append(s.out, p[:n]...)
		s.room = 0
		return n, errors.New("stream is full")
	}
	if s.room >= 0 {
		s.room -= len(p)
	}
	s.out = append(s.out, p...)
	return len(p), nil
}
func (s *vrStream) Reset() error { s.reset++; return nil }
func (s *vrStream) SetReadDeadline(time.Time) error {
	if s.dlFails {
		return errors.New("no deadline")
	}
	return nil
}
func (s *vrStream) SetWriteDeadline(t time.Time) error { return s.SetReadDeadline(t) }

func TestVerifReplayFrames(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	step := ""
	defer func() {
		if x := recover(); x != nil {
			bad("%s panics: %v", step, x)
		}
	}()
	lens := []int{0, 1, 2, 3, 4, 5, 255, 256, 257, 4091, 4092, 4093, 4096, 4097, 65535, 65536, 65537, 70000}
	for it := 0; it < 3000; it++ {
		ApplyDeadline = r.Intn(2) == 0
		n := lens[r.Intn(len(lens))]
		if r.Intn(2) == 0 {
			n = r.Intn(300)
		}
		msg := make([]byte, n)
		r.Read(msg)
		frame := make([]byte, 4)
		binary.LittleEndian.PutUint32(frame, uint32(n))
		frame = append(frame, msg...)
		w := &vrStream{room: -1, dlFails: r.Intn(10) == 0}
		if r.Intn(2) == 0 {
			w.room = r.Intn(len(frame) + 2)
		}
		step = fmt.Sprintf("WriteStreamWithBuffer(%d bytes) on a stream with room for %d, deadline error %v", n, w.room, w.dlFails && ApplyDeadline)
		room := w.room
		err := WriteStreamWithBuffer(append([]byte{}, msg...), w)
		if err == nil && !bytes.Equal(w.out, frame) {
			bad("%s: no error, wrote %d bytes of a frame of %d", step, len(w.out), len(frame))
			return
		}
		if err != nil && (room < 0 || room >= len(frame)) && !(w.dlFails && ApplyDeadline) {
			bad("%s: %v", step, err)
			return
		}
		in := append([]byte{}, frame...)
		cut := len(in)
		if r.Intn(2) == 0 {
			cut = r.Intn(len(in) + 1)
		}
		extra := make([]byte, r.Intn(10))
		in = in[:cut]
		if cut == len(frame) {
			in = append(in, extra...)
		}
		s := &vrStream{in: in, chunk: 1 + r.Intn(5000), endErr: io.EOF, dlFails: r.Intn(10) == 0}
		if r.Intn(2) == 0 {
			s.endErr = errors.New("broken")
		}
		step = fmt.Sprintf("ReadStreamWithBuffer of %d of %d frame bytes in chunks of %d (%v)", cut, len(frame), s.chunk, s.endErr)
		got, err := ReadStreamWithBuffer(s)
		if cut < len(frame) || s.dlFails && ApplyDeadline {
			if err == nil {
				bad("%s: no error, %d bytes", step, len(got))
				return
			}
		} else if err != nil || !bytes.Equal(got, msg) {
			bad("%s: %v, %d bytes", step, err, len(got))
			return
		}
	}
	for _, n := range []uint32{MaxPayload + 1, 20000001, 30000000, 1 << 30, 1 << 31, 1<<32 - 1} {
		ApplyDeadline = false
		h := make([]byte, 4)
		binary.LittleEndian.PutUint32(h, n)
		in := append(h, make([]byte, 100000)...)
		s := &vrStream{in: in, chunk: 4, endErr: io.EOF}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		_, err := ReadStreamWithBuffer(s)
		runtime.ReadMemStats(&m1)
		if err == nil || m1.TotalAlloc-m0.TotalAlloc > 15000000 || s.asked > 8192 {
			bad("a frame announcing %d bytes: error %v, %d bytes allocated, %d bytes read from the stream", n, err, m1.TotalAlloc-m0.TotalAlloc, s.asked)
			return
		}
	}
}
