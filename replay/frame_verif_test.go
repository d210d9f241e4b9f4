package webextensions

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/rpc"
	"net/rpc/jsonrpc"
	"reflect"
	"strings"
	"testing"
	"time"
)

// vStream gives its bytes in chunks and counts what was taken.
type vStream struct {
	data  []byte
	taken int
	chunk int
	fail  error
	end   error
	nclo  int
	order *[]string
	name  string
}

func (s *vStream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.taken >= len(s.data) {
		if s.end != nil {
			return 0, s.end
		}
		return 0, io.EOF
	}
	n := len(s.data) - s.taken
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(p, s.data[s.taken:s.taken+n])
	s.taken += n
	return n, nil
}

func (s *vStream) Close() error {
	s.nclo++
	if s.order != nil {
		*s.order = append(*s.order, s.name)
	}
	return s.fail
}

// vSink records writes and fails after limit bytes when limit >= 0.
type vSink struct {
	got   []byte
	limit int
	fail  error
	nclo  int
}

var vSinkError = errors.New("sink is full")

func (s *vSink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.got)+len(p) > s.limit {
		n := s.limit - len(s.got)
		s.got = append(s.got, p[:n]...)
		return n, vSinkError
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func (s *vSink) Close() error { s.nclo++; return s.fail }

func vFrame(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

// vFrames reads a sequence of frames, leaving rest bytes of each body unread.
func vFrames(t *testing.T, bodies [][]byte, tail []byte, chunk int, rest []int) {
	var data []byte
	for _, b := range bodies {
		data = append(data, vFrame(b)...)
	}
	in := fmt.Sprintf("frames of %d bodies (lengths %v), then %x, chunk %d, left unread %v", len(bodies), vLens(bodies), tail, chunk, rest)
	vrun(t, in, func() {
		src := &vStream{data: append(append([]byte{}, data...), tail...), chunk: chunk}
		f := NewSplitFrameReadWriteCloser(src, &vSink{limit: -1})
		if n, err := f.Read(make([]byte, 8)); n != 0 || err == nil || src.taken != 0 {
			vfail(t, "%s: read before any header gave %d bytes, error %v, taken %d", in, n, err, src.taken)
		}
		pos := 0
		for i, b := range bodies {
			if err := f.ReadHeader(); err != nil {
				vfail(t, "%s: header no. %d: %v", in, i, err)
			}
			if src.taken != pos+4 {
				vfail(t, "%s: after header no. %d %d bytes are taken, want %d", in, i, src.taken, pos+4)
			}
			want := b[:len(b)-rest[i]]
			got := make([]byte, len(want))
			if _, err := io.ReadFull(f, got); err != nil && len(want) > 0 {
				vfail(t, "%s: body no. %d: %v", in, i, err)
			}
			if !bytes.Equal(got, want) {
				vfail(t, "%s: body no. %d is %q, want %q", in, i, got, want)
			}
			pos += 4 + len(b)
			if rest[i] == 0 {
				if n, err := f.Read(make([]byte, 8)); n != 0 || err != io.EOF {
					vfail(t, "%s: after body no. %d a read gives %d bytes and error %v", in, i, n, err)
				}
				if src.taken != pos {
					vfail(t, "%s: after body no. %d %d bytes are taken, want %d", in, i, src.taken, pos)
				}
			}
		}
		err := f.ReadHeader()
		switch {
		case len(tail) < 4 && err == nil:
			vfail(t, "%s: a header of %d bytes is accepted", in, len(tail))
		case len(tail) == 4 && binary.LittleEndian.Uint32(tail) > MaxInSize:
			if err != TooLargeError {
				vfail(t, "%s: header above the limit %d: error %v", in, MaxInSize, err)
			}
			src.data = append(src.data, "more bytes"...)
			if n, err := f.Read(make([]byte, 8)); n != 0 || err == nil {
				vfail(t, "%s: refused frame may be read: %d bytes", in, n)
			}
		case len(tail) == 4 && err != nil:
			vfail(t, "%s: header within the limit %d: error %v", in, MaxInSize, err)
		}
	})
}

func vLens(b [][]byte) (out []int) {
	for _, x := range b {
		out = append(out, len(x))
	}
	return
}

func TestVerifC01(t *testing.T) {
	start := time.Now()
	old := MaxInSize
	defer func() { MaxInSize = old }()
	hdr := func(n uint32) []byte { return vFrame(nil)[:0:0] }
	_ = hdr
	h := func(n uint32) []byte {
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, n)
		return b
	}
	body := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%23)
		}
		return b
	}
	strs, ints := vdict()
	_ = strs
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 100, 255, 256, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 70000}
	for _, n := range ints {
		if n > 0 && n < 1<<20 {
			sizes = append(sizes, n-1, n, n+1)
		}
	}
	for _, chunk := range []int{0, 1, 3} {
		for _, n := range sizes {
			if chunk == 1 && n > 5000 {
				continue
			}
			vFrames(t, [][]byte{body(n)}, nil, chunk, []int{0})
			vFrames(t, [][]byte{body(n), body(3)}, []byte{1}, chunk, []int{0, 0})
			for _, r := range []int{1, 2, 5, n - 1, n} {
				if r >= 0 && r <= n {
					vFrames(t, [][]byte{body(n), body(6), body(2)}, []byte{0, 0, 0}, chunk, []int{r, 0, 1})
				}
			}
		}
	}
	for _, lim := range []uint32{0, 1, 100, 1 << 16, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1} {
		MaxInSize = lim
		for _, n := range []uint32{0, 1, lim - 1, lim, lim + 1, lim / 256, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1, 0x01020304, 0x04030201} {
			vFrames(t, nil, h(n), 0, nil)
			if lim >= 3 {
				vFrames(t, [][]byte{body(3)}, h(n), 1, []int{0})
			}
		}
	}
	MaxInSize = old
	vServe(t, start)
	rnd := vrand()
	for vmore(start, 15) {
		var bs [][]byte
		var rest []int
		for k := rnd.Intn(5); k >= 0; k-- {
			n := rnd.Intn(40)
			if rnd.Intn(8) == 0 {
				n = rnd.Intn(3000)
			}
			bs = append(bs, body(n))
			r := 0
			if rnd.Intn(3) == 0 {
				r = rnd.Intn(n + 1)
			}
			rest = append(rest, r)
		}
		tl := make([]byte, rnd.Intn(4))
		vFrames(t, bs, tl, rnd.Intn(4), rest)
	}
}

type VEcho struct{}

func (VEcho) Do(a *string, r *string) error { *r = *a; return nil }

// vServe runs whole sessions through the JSON codec.
func vServe(t *testing.T, start time.Time) {
	for _, tail := range []string{"", "\n", "  \n "} {
		for n := 0; n < 1200; n++ {
			in := fmt.Sprintf("session of 3 requests with a parameter of %d characters, each followed by %q", n, tail)
			vrun(t, in, func() {
				s := rpc.NewServer()
				s.RegisterName("E", VEcho{})
				var data []byte
				for i := 0; i < 3; i++ {
					data = append(data, vFrame([]byte(fmt.Sprintf(`{"id":%d,"method":"E.Do","params":["%s"]}%s`, i, strings.Repeat("x", n), tail)))...)
				}
				out := &vSink{limit: -1}
				s.ServeCodec(NewServerCodecSplit(&vStream{data: data}, out, jsonrpc.NewServerCodec))
				if bodies, ok := vSplit(out.got); !ok || len(bodies) != 3 {
					vfail(t, "%s: %d replies, output well formed: %v", in, len(bodies), ok)
				}
			})
		}
	}
}

// vSplit cuts an output stream into frame bodies.
func vSplit(b []byte) (out []string, ok bool) {
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if len(b) < 4+n {
			return out, false
		}
		out = append(out, string(b[4:4+n]))
		b = b[4+n:]
	}
	return out, len(b) == 0
}

// vInner is a codec that writes what it is told to, in pieces.
type vInner struct {
	conn   io.ReadWriteCloser
	pieces []string
	err    error
	hdr    func(r *rpc.Request) error
	calls  *int
	before func()
}

func (c *vInner) put() error {
	if c.calls != nil {
		*c.calls++
	}
	if c.before != nil {
		c.before()
	}
	if c.err != nil {
		return c.err
	}
	for _, p := range c.pieces {
		if _, err := c.conn.Write([]byte(p)); err != nil {
			return err
		}
	}
	return nil
}
func (c *vInner) ReadRequestHeader(r *rpc.Request) error                { return c.hdr(r) }
func (c *vInner) ReadRequestBody(x interface{}) error                   { return nil }
func (c *vInner) WriteResponse(r *rpc.Response, x interface{}) error    { return c.put() }
func (c *vInner) WriteRequest(r *rpc.Request, x interface{}) error      { return c.put() }
func (c *vInner) ReadResponseHeader(r *rpc.Response) error              { return nil }
func (c *vInner) ReadResponseBody(x interface{}) error                  { return nil }
func (c *vInner) Close() error                                          { return c.conn.Close() }

// vWrites sends messages (each in pieces) into a sink that fails after limit bytes.
func vWrites(t *testing.T, msgs [][]string, errAt int, limit int, client bool) {
	in := fmt.Sprintf("messages %q, codec error at no. %d, stream breaks after %d bytes, client %v", msgs, errAt, limit, client)
	if len(in) > 600 {
		in = in[:600] + "..."
	}
	vrun(t, in, func() {
		sink := &vSink{limit: limit}
		inner := &vInner{}
		var send func() error
		if client {
			c := NewClientCodecSplit(&vStream{}, sink, func(rw io.ReadWriteCloser) rpc.ClientCodec { inner.conn = rw; return inner })
			send = func() error { return c.WriteRequest(&rpc.Request{}, nil) }
		} else {
			c := NewServerCodecSplit(&vStream{}, sink, func(rw io.ReadWriteCloser) rpc.ServerCodec { inner.conn = rw; return inner })
			send = func() error { return c.WriteResponse(&rpc.Response{}, nil) }
		}
		var want []byte
		broken := false
		for i, m := range msgs {
			inner.pieces, inner.err = m, nil
			if i == errAt {
				inner.err = errors.New("cannot encode")
			}
			sent := len(sink.got)
			inner.before = func() {
				if len(sink.got) != sent {
					vfail(t, "%s: bytes are sent before message no. %d is encoded", in, i)
				}
			}
			err := send()
			if i == errAt {
				if err == nil || len(sink.got) != sent {
					vfail(t, "%s: message no. %d was not encoded but error is %v and %d bytes are sent", in, i, err, len(sink.got)-sent)
				}
				continue
			}
			want = append(want, vFrame([]byte(strings.Join(m, "")))...)
			fits := limit < 0 || len(want) <= limit
			if broken {
				return
			}
			if fits && err != nil {
				vfail(t, "%s: message no. %d: %v", in, i, err)
			}
			if !fits {
				broken = true
				if err == nil {
					vfail(t, "%s: message no. %d could not be written and no error is reported", in, i)
				}
				if !bytes.HasPrefix(want, sink.got) {
					vfail(t, "%s: sent %q is no prefix of %q", in, sink.got, want)
				}
				return
			}
			if !bytes.Equal(sink.got, want) {
				vfail(t, "%s: after message no. %d sent %q, want %q", in, i, vcut(sink.got), vcut(want))
			}
		}
	})
}

func vcut(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// vLost checks that what a failed message left behind is not sent with the next one.
func vLost(t *testing.T, limit int) {
	in := fmt.Sprintf("message broken after %d bytes, then another one", limit)
	vrun(t, in, func() {
		sink := &vSink{limit: limit}
		f := NewSplitFrameReadWriteCloser(&vStream{}, sink)
		f.Write([]byte("broken message"))
		if err := f.WriteFrame(); err == nil {
			vfail(t, "%s: no error", in)
		}
		if !f.Empty() {
			vfail(t, "%s: the buffer still holds the broken message", in)
		}
		sink.limit, sink.got = -1, nil
		f.Write([]byte("next"))
		if err := f.WriteFrame(); err != nil || !bytes.Equal(sink.got, vFrame([]byte("next"))) {
			vfail(t, "%s: the next message is sent as %q, error %v", in, sink.got, err)
		}
	})
}

func TestVerifC02(t *testing.T) {
	start := time.Now()
	for _, client := range []bool{false, true} {
		for _, n := range []int{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<24 + 5} {
			vWrites(t, [][]string{{strings.Repeat("m", n)}, {"x", "yz"}, {}}, -1, -1, client)
		}
		for lim := 0; lim < 40; lim++ {
			vWrites(t, [][]string{{"hello"}, {"a", "b", "cd"}, {"the last message"}}, -1, lim, client)
			vWrites(t, [][]string{{"hello"}, {"a", "b", "cd"}, {"the last message"}}, lim%3, lim, client)
		}
		for e := 0; e < 3; e++ {
			vWrites(t, [][]string{{"hello"}, {"a", "b", "cd"}, {"the last message"}}, e, -1, client)
		}
	}
	for lim := 0; lim < 18; lim++ {
		vLost(t, lim)
	}
	rnd := vrand()
	for vmore(start, 10) {
		var ms [][]string
		for k := rnd.Intn(6); k >= 0; k-- {
			var m []string
			for j := rnd.Intn(4); j > 0; j-- {
				m = append(m, strings.Repeat(string(rune('a'+rnd.Intn(26))), rnd.Intn(300)))
			}
			ms = append(ms, m)
		}
		vWrites(t, ms, rnd.Intn(8)-1, -1, rnd.Intn(2) == 0)
	}
}

func TestVerifC03(t *testing.T) {
	e1, e2 := errors.New("reader close"), errors.New("writer close")
	for k := 0; k < 16; k++ {
		in := fmt.Sprintf("close: reader fails %v, writer fails %v, buffered output %v, through the codec %v", k&1 != 0, k&2 != 0, k&4 != 0, k&8 != 0)
		vrun(t, in, func() {
			r, w := &vStream{}, &vSink{limit: -1}
			var want error
			if k&2 != 0 {
				w.fail = e2
				want = e2
			}
			if k&1 != 0 {
				r.fail = e1
				want = e1
			}
			if k&4 != 0 && want == nil {
				want = ErrOutBufferNotEmpty
			}
			var f io.Closer
			var out FrameReadWriteCloser
			if k&8 != 0 {
				inner := &vInner{}
				f = NewServerCodecSplit(r, w, func(rw io.ReadWriteCloser) rpc.ServerCodec {
					inner.conn = rw
					out = rw.(FrameReadWriteCloser)
					return inner
				})
			} else {
				out = NewSplitFrameReadWriteCloser(r, w)
				f = out
			}
			if k&4 != 0 {
				out.Write([]byte("unsent"))
			}
			err := f.Close()
			if err != want {
				vfail(t, "%s: error %v, want %v", in, err, want)
			}
			if r.nclo != 1 || w.nclo != 1 {
				vfail(t, "%s: reader closed %d times, writer %d times", in, r.nclo, w.nclo)
			}
			if !out.Empty() {
				vfail(t, "%s: buffered output is kept", in)
			}
			if len(w.got) != 0 {
				vfail(t, "%s: %q is written", in, w.got)
			}
		})
	}
}

func TestVerifC04(t *testing.T) {
	maps := []map[string]string{nil, {}, {"hello": "B.Hello"}, {"a": "B.X", "a.b": "B.Y", "": "B.Z", "B.Secret": "B.Hello", "unknown.a": "B.W"}}
	names := []string{"", "hello", "a", "a.b", "A", "B.Hello", "B.Secret", "B.X", "unknown.a", "unknown.hello", "b", ".", "hello ", "a.b.c", "x.a"}
	for _, m := range maps {
		for _, n := range names {
			for _, fail := range []bool{false, true} {
				in := fmt.Sprintf("method map %q, method %q, header error %v", m, n, fail)
				vrun(t, in, func() {
					e := errors.New("bad header")
					f := MappedServerCodecFactory(m, func(rw io.ReadWriteCloser) rpc.ServerCodec {
						return &vInner{conn: rw, hdr: func(r *rpc.Request) error {
							if fail {
								return e
							}
							r.ServiceMethod, r.Seq = n, 17
							return nil
						}}
					})
					c := f(nil)
					var r rpc.Request
					err := c.ReadRequestHeader(&r)
					if fail {
						if err != e || r.ServiceMethod != "" {
							vfail(t, "%s: error %v, method %q", in, err, r.ServiceMethod)
						}
						return
					}
					want, ok := m[n]
					if !ok {
						want = "unknown." + n
					}
					if err != nil || r.ServiceMethod != want || r.Seq != 17 {
						vfail(t, "%s: becomes %q (sequence number %d, error %v), want %q", in, r.ServiceMethod, r.Seq, err, want)
					}
				})
			}
		}
	}
	_ = reflect.DeepEqual
	_ = rand.Int
}
