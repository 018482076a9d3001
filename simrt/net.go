package simrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
)

// Net is the simulated network of a run: the client host on one side, servers
// written by the harness on the other.
type Net struct {
	w         *World
	Hosts     map[string]string // name -> IP
	listeners map[string]*Listener
	udp       map[int][]*UDPSock
	nextPort  int
	TCP       []*Sock
	UDPs      []*UDPSock
	LocalIP   string // the client host's address as seen by servers
	BusyPorts map[int]bool
	UDPBuf    int
}

func newNet(w *World) *Net {
	return &Net{w: w, Hosts: map[string]string{}, listeners: map[string]*Listener{}, udp: map[int][]*UDPSock{}, nextPort: 40000,
		LocalIP: "10.0.0.2", BusyPorts: map[int]bool{}, UDPBuf: 4 << 20}
}

// LocalFor is the address of the client host that a server at ip sees: the host
// has one on each of its networks.
func (n *Net) LocalFor(ip net.IP) string {
	v4 := ip.To4()
	switch {
	case ip.IsLoopback():
		return ip.String()
	case v4 == nil:
		return "fd00::2"
	case v4[0] == 10 && v4[1] == 9:
		return "10.9.0.2"
	}
	return n.LocalIP
}

func (n *Net) isLocal(ip net.IP) bool {
	s := ip.String()
	return s == n.LocalIP || s == "fd00::2" || s == "10.9.0.2"
}

// takes tells whether the socket receives what is sent to ip.
func (s *UDPSock) takes(ip net.IP) bool {
	l := s.Local.IP
	if s.V4 && ip.To4() == nil || s.V6 && ip.To4() != nil {
		return false
	}
	if len(l) == 0 || l.Equal(net.IPv6unspecified) {
		return true
	}
	return l.IsUnspecified() && ip.To4() != nil || l.Equal(ip)
}

// Link describes how one direction of a TCP connection behaves.
type Link struct {
	SegMode  int // 0 whole writes, 1 few cuts, 2 many small cuts, 3 single bytes
	DelayMax int64
	StallPct int // chance in 100 per segment of a stall
	StallMax int64
	StallMin int64
}

// Listener accepts connections to one address.
type Listener struct {
	Accept   func(*SrvConn)
	Refuse   bool
	Silent   bool // never answers: the dial times out
	DialTime int64
	Up, Down Link
	Window   int               // bytes the client may have in flight to the server
	ShortRd  int               // chance in 100 that a read returns less than is there
	ShortWr  int               // chance in 100 that a write goes out in pieces
	WrFail   func(*Sock) error // may fail a write
	WrCut    func(*Sock) int64 // stream offset at which a write is cut in two
}

// Listen registers a listener at "ip:port".
func (n *Net) Listen(addr string, l *Listener) { n.listeners[addr] = l }

// Sock is the client's end of a TCP connection.
type Sock struct {
	w            *World
	l            *Listener
	rbuf         []byte
	eof          bool
	rst          error // pending read error after rbuf
	wrst         bool
	closed       bool
	rdl, wdl     int64
	rdev, wdev   *Event
	rq, wq       WaitQ
	rlock, wlock Mutex
	inflight     int
	Local        *net.TCPAddr
	Remote       *net.TCPAddr
	peer         *SrvConn
	upLast       int64
	downLast     int64
	dead         bool // reset: nothing more is delivered in either direction
	ReadBytes    int64
	SentBytes    int64
	ClosedAt     int64
	Writes       []WriteRec
	SawEOF       bool // the client has been told that the connection ended
}

// WriteRec records one Write call of the client.
type WriteRec struct {
	Off int64 // stream offset at which it began
	T   int64
	Seq uint64
}

// SrvConn is the server's end of a TCP connection, driven by events.
type SrvConn struct {
	S       *Sock
	OnData  func([]byte)
	OnClose func(err error)
	hold    bool
	held    []byte
	fin     bool
	sent    int64
	pending int // bytes sent but not yet delivered
	gotFin  bool
}

func opErr(op string, s *Sock, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: s.Local, Addr: s.Remote, Err: err}
}

// DialTCP opens a client connection.
func (n *Net) DialTCP(laddr, raddr *net.TCPAddr, timeout int64) (*Sock, error) {
	w := n.w
	if w.killing {
		killedOp()
	}
	key := net.JoinHostPort(raddr.IP.String(), strconv.Itoa(raddr.Port))
	l := n.listeners[key]
	fail := func(e error) error {
		return &net.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: e}
	}
	if l == nil || l.Refuse {
		w.Sleep(int64(time.Millisecond), "dial")
		w.Count("fault.dial_refused")
		return nil, fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	if l.Silent {
		d := int64(127 * time.Second)
		if timeout > 0 && timeout < d {
			d = timeout
		}
		w.Count("fault.dial_timeout")
		w.Sleep(d, "dial")
		return nil, fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	w.Sleep(l.DialTime, "dial")
	ip := n.LocalFor(raddr.IP)
	n.nextPort++
	s := &Sock{w: w, l: l, Local: &net.TCPAddr{IP: net.ParseIP(ip), Port: n.nextPort}, Remote: raddr}
	c := &SrvConn{S: s}
	s.peer = c
	n.TCP = append(n.TCP, s)
	w.Ev("connected", key)
	l.Accept(c)
	return s, nil
}

// OpenTCP counts client connections that are not closed.
func (n *Net) OpenTCP() (k int) {
	for _, s := range n.TCP {
		if !s.closed {
			k++
		}
	}
	return
}

// OpenUDP counts client UDP sockets that are not closed.
func (n *Net) OpenUDP() (k int) {
	for _, s := range n.UDPs {
		if !s.closed {
			k++
		}
	}
	return
}

// segments cuts a write of n bytes as the link does.
func (w *World) segments(l *Link, n int) []int {
	d := w.D
	switch l.SegMode {
	case 1:
		k := d.Intn(4)
		return cutAt(d, n, k)
	case 2:
		k := 1 + d.Intn(12)
		return cutAt(d, n, k)
	case 3:
		if n <= 256 {
			out := make([]int, n)
			for i := range out {
				out[i] = 1
			}
			return out
		}
		return cutAt(d, n, 1+d.Intn(12))
	}
	return []int{n}
}

func cutAt(d *Decider, n, k int) []int {
	if k == 0 || n < 2 {
		return []int{n}
	}
	cuts := map[int]bool{}
	for i := 0; i < k; i++ {
		// Half of the cuts fall near the start, where headers are.
		m := n - 1
		if m > 64 && d.Intn(2) == 1 {
			m = 64
		}
		cuts[1+d.Intn(m)] = true
	}
	var out []int
	last := 0
	for i := 1; i < n; i++ {
		if cuts[i] {
			out = append(out, i-last)
			last = i
		}
	}
	return append(out, n-last)
}

func (w *World) linkDelay(l *Link, kind string) int64 {
	var d int64
	if l.DelayMax > 0 {
		d = int64(w.D.Intn(16)) * l.DelayMax / 15
	}
	if l.StallPct > 0 && w.D.Chance(l.StallPct, 100) {
		w.Count("fault." + kind + "_stall")
		s := l.StallMin + int64(w.D.Intn(32))*(l.StallMax-l.StallMin)/31
		w.Ev("stall", kind, s)
		d += s
	}
	return d
}

// Send queues bytes from the server to the client.
func (c *SrvConn) Send(b []byte) {
	s := c.S
	w := s.w
	if c.fin || s.dead || len(b) == 0 {
		return
	}
	c.sent += int64(len(b))
	b = append([]byte(nil), b...)
	for _, n := range w.segments(&s.l.Down, len(b)) {
		seg := b[:n]
		b = b[n:]
		d := w.linkDelay(&s.l.Down, "down")
		at := w.now + d
		if at < s.downLast {
			at = s.downLast
		}
		s.downLast = at
		c.pending += n
		w.At(at-w.now, func() {
			if s.dead {
				return
			}
			c.pending -= len(seg)
			if s.closed {
				return
			}
			s.rbuf = append(s.rbuf, seg...)
			s.rq.Wake(w)
		})
	}
}

// Stall holds up whatever is sent from now on.
func (c *SrvConn) Stall(t int64) {
	if at := c.S.w.now + t; at > c.S.downLast {
		c.S.downLast = at
	}
}

// Unread is the number of bytes sent that the client has not read yet.
func (c *SrvConn) Unread() int { return c.pending + len(c.S.rbuf) }

// Close sends FIN after everything sent so far.
func (c *SrvConn) Close() {
	s := c.S
	w := s.w
	if c.fin || s.dead {
		return
	}
	c.fin = true
	at := s.downLast
	if at < w.now {
		at = w.now
	}
	w.Ev("server-close")
	w.At(at-w.now, func() {
		if s.dead || s.closed {
			return
		}
		s.eof = true
		s.rq.Wake(w)
	})
}

// Reset aborts the connection; bytes in flight are lost.
func (c *SrvConn) Reset(err error) {
	s := c.S
	w := s.w
	if s.dead {
		return
	}
	w.Ev("server-reset")
	c.fin = true
	s.dead = true
	s.inflight = 0
	s.rst = err
	s.wrst = true
	s.rq.Wake(w)
	s.wq.Wake(w)
}

// HoldReads makes the server stop (or resume) reading; the client's window fills.
func (c *SrvConn) HoldReads(hold bool) {
	c.hold = hold
	if !hold && len(c.held) > 0 {
		b := c.held
		c.held = nil
		c.S.inflight -= len(b)
		c.S.wq.Wake(c.S.w)
		c.OnData(b)
	}
}

// Dead reports whether the connection was reset.
func (c *SrvConn) Dead() bool { return c.S.dead }

// ClientClosed reports whether the client has closed its end.
func (c *SrvConn) ClientClosed() bool { return c.S.closed }

func (c *SrvConn) deliver(b []byte) {
	s := c.S
	if s.dead {
		return
	}
	if c.hold {
		c.held = append(c.held, b...)
		return
	}
	s.inflight -= len(b)
	s.wq.Wake(s.w)
	if c.fin {
		// Data to a closed server socket is answered with RST.
		s.wrst = true
		s.dead = true
		if !s.eof {
			s.rst = os.NewSyscallError("read", syscall.ECONNRESET)
		}
		s.rq.Wake(s.w)
		return
	}
	if c.OnData != nil {
		c.OnData(b)
	}
}

func (s *Sock) expired(dl int64) bool { return dl != 0 && dl <= s.w.now }

// Read implements net.Conn.
func (s *Sock) Read(p []byte) (int, error) {
	w := s.w
	if w.killing {
		killedOp()
	}
	Y()
	s.rlock.Lock()
	defer s.rlock.Unlock()
	if s.closed {
		return 0, opErr("read", s, net.ErrClosed)
	}
	if s.expired(s.rdl) {
		w.Count("probe.read_deadline_already_past")
		return 0, opErr("read", s, os.ErrDeadlineExceeded)
	}
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if s.closed {
			return 0, opErr("read", s, net.ErrClosed)
		}
		if len(s.rbuf) > 0 {
			n := len(s.rbuf)
			if n > len(p) {
				n = len(p)
			}
			if n > 1 && s.l.ShortRd > 0 && w.D.Chance(s.l.ShortRd, 100) {
				w.Count("fault.short_read")
				n = 1 + w.D.Intn(n-1)
			}
			copy(p, s.rbuf[:n])
			s.rbuf = s.rbuf[n:]
			s.ReadBytes += int64(n)
			w.burn = 0
			w.Ev("read", n)
			return n, nil
		}
		if s.rst != nil {
			err := s.rst
			s.rst = nil
			s.eof = true
			s.SawEOF = true
			w.Ev("read-error", err.Error())
			return 0, opErr("read", s, err)
		}
		if s.eof {
			s.SawEOF = true
			w.Ev("read-eof")
			return 0, io.EOF
		}
		if s.expired(s.rdl) {
			w.Count("probe.read_timeout")
			w.Ev("read-timeout")
			return 0, opErr("read", s, os.ErrDeadlineExceeded)
		}
		s.rq.Wait(w, "tcp read")
	}
}

// Write implements net.Conn.
func (s *Sock) Write(p []byte) (int, error) {
	w := s.w
	if w.killing {
		killedOp()
	}
	Y()
	s.wlock.Lock()
	defer s.wlock.Unlock()
	if s.closed {
		return 0, opErr("write", s, net.ErrClosed)
	}
	if s.expired(s.wdl) {
		w.Count("probe.write_deadline_already_past")
		return 0, opErr("write", s, os.ErrDeadlineExceeded)
	}
	s.Writes = append(s.Writes, WriteRec{s.SentBytes, w.now, w.Seq()})
	done := 0
	for done < len(p) {
		if s.closed {
			return done, opErr("write", s, net.ErrClosed)
		}
		if s.wrst {
			w.Count("probe.write_reset")
			s.SawEOF = true
			return done, opErr("write", s, os.NewSyscallError("write", syscall.EPIPE))
		}
		if s.l.WrFail != nil {
			if err := s.l.WrFail(s); err != nil {
				return done, opErr("write", s, err)
			}
		}
		free := s.l.Window - s.inflight
		if s.l.Window == 0 {
			free = 1 << 30
		}
		if free <= 0 {
			if s.expired(s.wdl) {
				w.Count("fault.write_timeout")
				w.Ev("write-timeout", done)
				return done, opErr("write", s, os.ErrDeadlineExceeded)
			}
			w.Count("fault.window_full")
			s.wq.Wait(w, "tcp write")
			continue
		}
		n := len(p) - done
		if n > free {
			n = free
		}
		if n > 1 && s.l.ShortWr > 0 && w.D.Chance(s.l.ShortWr, 100) {
			w.Count("fault.short_write")
			n = 1 + w.D.Intn(n-1)
		}
		if s.l.WrCut != nil {
			if k := s.l.WrCut(s) - s.SentBytes; k > 0 && k < int64(n) {
				n = int(k)
			}
		}
		s.push(p[done : done+n])
		done += n
		if done < len(p) {
			// The kernel took part of it; others run before the rest goes out.
			w.park("tcp write", true)
		}
	}
	w.Ev("write", p)
	return done, nil
}

func (s *Sock) push(b []byte) {
	w := s.w
	s.SentBytes += int64(len(b))
	b = append([]byte(nil), b...)
	s.inflight += len(b)
	for _, n := range w.segments(&s.l.Up, len(b)) {
		seg := b[:n]
		b = b[n:]
		d := w.linkDelay(&s.l.Up, "up")
		at := w.now + d
		if at < s.upLast {
			at = s.upLast
		}
		s.upLast = at
		w.At(at-w.now, func() { s.peer.deliver(seg) })
	}
}

// Close implements net.Conn.
func (s *Sock) Close() error {
	w := s.w
	if w.killing {
		return nil
	}
	if s.closed {
		return opErr("close", s, net.ErrClosed)
	}
	s.closed = true
	s.ClosedAt = w.now
	w.Ev("client-close")
	s.rq.Wake(w)
	s.wq.Wake(w)
	at := s.upLast
	if at < w.now {
		at = w.now
	}
	w.At(at-w.now, func() {
		if s.peer.OnClose != nil && !s.dead {
			s.peer.OnClose(nil)
		}
	})
	return nil
}

// CloseWrite shuts down the writing side.
func (s *Sock) CloseWrite() error { s.wrst = true; return nil }

// CloseRead shuts down the reading side.
func (s *Sock) CloseRead() error { s.eof = true; s.rq.Wake(s.w); return nil }

func (w *World) abs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := w.now + int64(t.Sub(TimeNow()))
	if d <= 0 {
		d = 1
	}
	return d
}

// SetReadDeadline implements net.Conn.
func (s *Sock) SetReadDeadline(t time.Time) error {
	w := s.w
	if w.killing {
		return nil
	}
	if s.closed {
		return opErr("set", s, net.ErrClosed)
	}
	w.Cancel(s.rdev)
	s.rdl = w.abs(t)
	s.rdev = nil
	if s.rdl > 0 {
		s.rdev = w.At(s.rdl-w.now, func() { s.rq.Wake(w) })
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (s *Sock) SetWriteDeadline(t time.Time) error {
	w := s.w
	if w.killing {
		return nil
	}
	if s.closed {
		return opErr("set", s, net.ErrClosed)
	}
	w.Cancel(s.wdev)
	s.wdl = w.abs(t)
	s.wdev = nil
	if s.wdl > 0 {
		s.wdev = w.At(s.wdl-w.now, func() { s.wq.Wake(w) })
	}
	return nil
}

// Closed reports whether the client closed the socket.
func (s *Sock) Closed() bool { return s.closed }

// ---- UDP ---------------------------------------------------------------

type dgram struct {
	from *net.UDPAddr
	b    []byte
}

// UDPSock is a UDP socket of the client host.
type UDPSock struct {
	w      *World
	q      []dgram
	bytes  int
	closed bool
	rdl    int64
	rdev   *Event
	rq     WaitQ
	Local  *net.UDPAddr
	V4, V6 bool // receives only these
	OnRecv func(b []byte, delivered bool)
	err    error
}

// ListenUDP binds a UDP socket.
func (n *Net) ListenUDP(laddr *net.UDPAddr) (*UDPSock, error) {
	w := n.w
	if w.killing {
		killedOp()
	}
	a := &net.UDPAddr{}
	if laddr != nil {
		*a = *laddr
	}
	if a.Port < 0 || a.Port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: "udp", Addr: a, Err: os.NewSyscallError("bind", syscall.EINVAL)}
	}
	if a.Port == 0 {
		n.nextPort++
		a.Port = n.nextPort
	} else {
		busy := n.BusyPorts[a.Port]
		for _, s := range n.udp[a.Port] {
			if !s.closed && (s.Local.IP.IsUnspecified() || a.IP.IsUnspecified() || len(a.IP) == 0 || len(s.Local.IP) == 0 || s.Local.IP.Equal(a.IP)) {
				busy = true
			}
		}
		if busy {
			w.Count("fault.port_in_use")
			return nil, &net.OpError{Op: "listen", Net: "udp", Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	if len(a.IP) > 0 && !a.IP.IsUnspecified() && !a.IP.IsLoopback() && !a.IP.IsMulticast() && !n.isLocal(a.IP) {
		return nil, &net.OpError{Op: "listen", Net: "udp", Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRNOTAVAIL)}
	}
	s := &UDPSock{w: w, Local: a}
	n.udp[a.Port] = append(n.udp[a.Port], s)
	n.UDPs = append(n.UDPs, s)
	w.Ev("udp-listen", a.String())
	return s, nil
}

// UDPArrive delivers a datagram to the client host now. It reports the socket
// that took it, or nil.
func (n *Net) UDPArrive(from, to *net.UDPAddr, b []byte) *UDPSock {
	for _, s := range n.udp[to.Port] {
		if s.closed {
			continue
		}
		if !s.takes(to.IP) {
			continue
		}
		if s.bytes+len(b) > n.UDPBuf {
			n.w.Count("fault.udp_buffer_full")
			return nil
		}
		s.bytes += len(b) + 1
		s.q = append(s.q, dgram{from, append([]byte(nil), b...)})
		s.rq.Wake(n.w)
		n.w.Ev("udp-arrive", to.Port, len(b))
		return s
	}
	n.w.Count("net.udp_no_listener")
	return nil
}

// UDPBound reports whether any open socket would take a datagram to the address.
func (n *Net) UDPBound(to *net.UDPAddr) bool {
	for _, s := range n.udp[to.Port] {
		if !s.closed && s.takes(to.IP) {
			return true
		}
	}
	return false
}

// InjectErr makes the next read on s fail (ICMP port unreachable and the like).
func (s *UDPSock) InjectErr(err error) { s.err = err; s.rq.Wake(s.w) }

// Queued is the number of datagrams waiting in the socket.
func (s *UDPSock) Queued() int { return len(s.q) }

func (s *UDPSock) oerr(op string, err error) error {
	return &net.OpError{Op: op, Net: "udp", Source: s.Local, Err: err}
}

// ReadFrom reads one datagram; excess bytes are lost, as with recvfrom.
func (s *UDPSock) ReadFrom(p []byte) (int, *net.UDPAddr, error) {
	w := s.w
	if w.killing {
		killedOp()
	}
	Y()
	if s.closed {
		return 0, nil, s.oerr("read", net.ErrClosed)
	}
	if s.rdl != 0 && s.rdl <= w.now {
		return 0, nil, s.oerr("read", os.ErrDeadlineExceeded)
	}
	for {
		if s.closed {
			return 0, nil, s.oerr("read", net.ErrClosed)
		}
		if s.err != nil {
			err := s.err
			s.err = nil
			return 0, nil, s.oerr("read", err)
		}
		if len(s.q) > 0 {
			d := s.q[0]
			s.q = s.q[1:]
			s.bytes -= len(d.b) + 1
			n := copy(p, d.b)
			w.burn = 0
			w.Ev("udp-read", s.Local.Port, n)
			return n, d.from, nil
		}
		if s.rdl != 0 && s.rdl <= w.now {
			return 0, nil, s.oerr("read", os.ErrDeadlineExceeded)
		}
		s.rq.Wait(w, "udp read")
	}
}

// Close closes the socket.
func (s *UDPSock) Close() error {
	if s.w.killing {
		return nil
	}
	if s.closed {
		return s.oerr("close", net.ErrClosed)
	}
	s.closed = true
	s.w.Ev("udp-close", s.Local.Port)
	s.rq.Wake(s.w)
	return nil
}

// Closed reports whether the socket is closed.
func (s *UDPSock) Closed() bool { return s.closed }

// SetReadDeadline sets the read deadline.
func (s *UDPSock) SetReadDeadline(t time.Time) error {
	w := s.w
	if w.killing {
		return nil
	}
	if s.closed {
		return s.oerr("set", net.ErrClosed)
	}
	w.Cancel(s.rdev)
	s.rdl = w.abs(t)
	s.rdev = nil
	if s.rdl > 0 {
		s.rdev = w.At(s.rdl-w.now, func() { s.rq.Wake(w) })
	}
	return nil
}

// WriteTo sends a datagram from the client host.
func (s *UDPSock) WriteTo(p []byte, to *net.UDPAddr) (int, error) {
	if s.w.killing {
		return 0, net.ErrClosed
	}
	if s.closed {
		return 0, s.oerr("write", net.ErrClosed)
	}
	s.w.Ev("udp-send", to.String(), p)
	return len(p), nil
}

// Resolve resolves a host name.
func (n *Net) Resolve(host string) (net.IP, error) {
	if host == "" {
		return nil, nil
	}
	if ip := net.ParseIP(host); ip != nil {
		return ip, nil
	}
	if v, ok := n.Hosts[host]; ok {
		return net.ParseIP(v), nil
	}
	n.w.Count("fault.dns_error")
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

// ResolveHostPort resolves "host:port".
func (n *Net) ResolveHostPort(addr string) (net.IP, int, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, 0, err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		if p == "rtsp" {
			port = 554
		} else {
			return nil, 0, &net.DNSError{Err: "unknown port", Name: "tcp/" + p}
		}
	}
	if port < 0 || port > 65535 {
		return nil, 0, &net.AddrError{Err: "invalid port", Addr: p}
	}
	ip, err := n.Resolve(h)
	return ip, port, err
}

// Errors of system calls.
var (
	ErrNoBufs error = os.NewSyscallError("write", syscall.ENOBUFS)
	ErrPipe   error = os.NewSyscallError("write", syscall.EPIPE)
	ErrReset  error = os.NewSyscallError("write", syscall.ECONNRESET)
	ErrAgain  error = os.NewSyscallError("write", syscall.EHOSTUNREACH)
)

// ErrKind describes an error for traces.
func ErrKind(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		return "timeout"
	}
	if errors.Is(err, net.ErrClosed) {
		return "closed"
	}
	return fmt.Sprint(err)
}

// UpLast is when the last byte the client wrote reaches the server.
func (s *Sock) UpLast() int64 { return s.upLast }

// DownLast is when the last byte the server sent reaches the client's host.
func (s *Sock) DownLast() int64 { return s.downLast }
