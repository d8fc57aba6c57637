package props

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/ref"
)

// segRW serves data in pieces chosen by r (all of it when r is nil) and records writes.
type segRW struct {
	data []byte
	r    *rand.Rand
	max  int
	mu   sync.Mutex
	out  []byte
	cuts int
}

func (s *segRW) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > len(s.data) {
		n = len(s.data)
	}
	if s.r != nil && n > 1 {
		m := s.max
		if m <= 0 || m > n {
			m = n
		}
		n = 1 + s.r.Intn(m)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	s.cuts++
	return n, nil
}

func (s *segRW) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.out = append(s.out, p...)
	return len(p), nil
}

func (s *segRW) Close() error { return nil }

// cutHex is a bounded hex dump.
func cutHex(b []byte) string {
	if len(b) > 600 {
		return hex.EncodeToString(b[:600]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// tcpPair returns the two ends of a loopback connection.
func tcpPair() (net.Conn, net.Conn, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc, 1)
	go func() {
		c, err := l.Accept()
		ch <- acc{c, err}
	}()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		return nil, nil, err
	}
	select {
	case r := <-ch:
		return a, r.c, r.err
	case <-time.After(10 * time.Second):
		a.Close()
		return nil, nil, errors.New("accept timed out")
	}
}

// smallMsg makes a data message with a modest random item.
func smallMsg(r *rand.Rand) ref.Msg {
	h := genHdr(r)
	it := ref.Item{}
	if r.Intn(6) > 0 {
		it = ref.Gen(r, 3, 8)
	}
	return ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, it)
}

var ctrlTypes = []byte{ref.SelectReq, ref.SelectRsp, ref.DeselectReq, ref.DeselectRsp, ref.LinktestReq, ref.LinktestRsp, ref.RejectReq, ref.SeparateReq}

func anyMsg(r *rand.Rand) ref.Msg {
	if r.Intn(4) == 0 {
		return ref.Ctrl(ctrlTypes[r.Intn(len(ctrlTypes))], uint16(r.Intn(65536)), r.Uint32())
	}
	return smallMsg(r)
}

// astMsg builds the data message through the public factories.
func astMsg(m ref.Msg) *ast.DataMessage {
	it, err := m.Item()
	if err != nil {
		panic(err)
	}
	w := 0
	if m.W() {
		w = 1
	}
	return ast.NewHSMSDataMessage("", m.Stream(), m.Function(), w, "H<->E", ref.ToAST(it), int(m.Session), sysBytes(m.Sys))
}

var leOrder = binary.LittleEndian

// str prints an item (every node implements fmt.Stringer, the interface just does not say so).
func str(n ast.ItemNode) string { return fmt.Sprint(n) }
