// Package net is package net on the simulated network.
package net

import (
	"context"
	"errors"
	"io"
	real_ "net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"

	"verif/simrt"
)

// TCPConn is net.TCPConn.
type TCPConn struct{ s *simrt.Sock }

func (c *TCPConn) ok() bool { return c != nil && c.s != nil }

// Read is TCPConn.Read.
func (c *TCPConn) Read(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.s.Read(b)
}

// Write is TCPConn.Write.
func (c *TCPConn) Write(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.s.Write(b)
}

// Close is TCPConn.Close.
func (c *TCPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.Close()
}

// CloseWrite is TCPConn.CloseWrite.
func (c *TCPConn) CloseWrite() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.CloseWrite()
}

// CloseRead is TCPConn.CloseRead.
func (c *TCPConn) CloseRead() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.CloseRead()
}

// LocalAddr is TCPConn.LocalAddr.
func (c *TCPConn) LocalAddr() real_.Addr {
	if !c.ok() {
		return nil
	}
	return c.s.Local
}

// RemoteAddr is TCPConn.RemoteAddr.
func (c *TCPConn) RemoteAddr() real_.Addr {
	if !c.ok() {
		return nil
	}
	return c.s.Remote
}

// SetDeadline is TCPConn.SetDeadline.
func (c *TCPConn) SetDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	c.s.SetReadDeadline(t)
	return c.s.SetWriteDeadline(t)
}

// SetReadDeadline is TCPConn.SetReadDeadline.
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.SetReadDeadline(t)
}

// SetWriteDeadline is TCPConn.SetWriteDeadline.
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.SetWriteDeadline(t)
}

// ReadFrom is TCPConn.ReadFrom.
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

// WriteTo is TCPConn.WriteTo.
func (c *TCPConn) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

func (c *TCPConn) SetKeepAlive(bool) error                        { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error         { return nil }
func (c *TCPConn) SetKeepAliveConfig(real_.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                          { return nil }
func (c *TCPConn) SetLinger(int) error                            { return nil }
func (c *TCPConn) SetReadBuffer(int) error                        { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                       { return nil }

// UDPConn is net.UDPConn.
type UDPConn struct {
	s  *simrt.UDPSock
	to *real_.UDPAddr
}

func (c *UDPConn) ok() bool { return c != nil && c.s != nil }

// ReadFromUDP is UDPConn.ReadFromUDP.
func (c *UDPConn) ReadFromUDP(b []byte) (int, *real_.UDPAddr, error) {
	if !c.ok() {
		return 0, nil, syscall.EINVAL
	}
	return c.s.ReadFrom(b)
}

// ReadFrom is UDPConn.ReadFrom.
func (c *UDPConn) ReadFrom(b []byte) (int, real_.Addr, error) {
	if !c.ok() {
		return 0, nil, syscall.EINVAL
	}
	n, a, err := c.s.ReadFrom(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

// ReadFromUDPAddrPort is UDPConn.ReadFromUDPAddrPort.
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {
	n, a, err := c.ReadFromUDP(b)
	if a != nil {
		addr = a.AddrPort()
	}
	return n, addr, err
}

// ReadMsgUDP is UDPConn.ReadMsgUDP.
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *real_.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}

// WriteToUDPAddrPort is UDPConn.WriteToUDPAddrPort.
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, real_.UDPAddrFromAddrPort(a))
}

// Read is UDPConn.Read.
func (c *UDPConn) Read(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	n, _, err := c.s.ReadFrom(b)
	return n, err
}

// WriteToUDP is UDPConn.WriteToUDP.
func (c *UDPConn) WriteToUDP(b []byte, a *real_.UDPAddr) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.s.WriteTo(b, a)
}

// WriteTo is UDPConn.WriteTo.
func (c *UDPConn) WriteTo(b []byte, a real_.Addr) (int, error) {
	u, ok := a.(*real_.UDPAddr)
	if !c.ok() || !ok {
		return 0, syscall.EINVAL
	}
	return c.s.WriteTo(b, u)
}

// Write is UDPConn.Write.
func (c *UDPConn) Write(b []byte) (int, error) {
	if !c.ok() || c.to == nil {
		return 0, syscall.EINVAL
	}
	return c.s.WriteTo(b, c.to)
}

// Close is UDPConn.Close.
func (c *UDPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.Close()
}

// LocalAddr is UDPConn.LocalAddr.
func (c *UDPConn) LocalAddr() real_.Addr {
	if !c.ok() {
		return nil
	}
	return c.s.Local
}

// RemoteAddr is UDPConn.RemoteAddr.
func (c *UDPConn) RemoteAddr() real_.Addr {
	if !c.ok() || c.to == nil {
		return nil
	}
	return c.to
}

// SetDeadline is UDPConn.SetDeadline.
func (c *UDPConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// SetReadDeadline is UDPConn.SetReadDeadline.
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.s.SetReadDeadline(t)
}

func (c *UDPConn) SetWriteDeadline(time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(int) error         { return nil }

func cur() *simrt.Net {
	if simrt.W == nil {
		panic("network used outside a run")
	}
	return simrt.W.Net
}

// fits tells whether an address is of the family that the network's name asks for.
func fits(network string, ip real_.IP, addr string) error {
	if n := len(network); n > 0 && len(ip) > 0 && (network[n-1] == '4' && ip.To4() == nil || network[n-1] == '6' && ip.To4() != nil) {
		return &real_.AddrError{Err: "no suitable address found", Addr: addr}
	}
	return nil
}

// ResolveTCPAddr is net.ResolveTCPAddr.
func ResolveTCPAddr(network, addr string) (*real_.TCPAddr, error) {
	ip, port, err := cur().ResolveHostPort(addr)
	if err == nil {
		err = fits(network, ip, addr)
	}
	if err != nil {
		return nil, err
	}
	return &real_.TCPAddr{IP: ip, Port: port}, nil
}

// ResolveUDPAddr is net.ResolveUDPAddr.
func ResolveUDPAddr(network, addr string) (*real_.UDPAddr, error) {
	ip, port, err := cur().ResolveHostPort(addr)
	if err == nil {
		err = fits(network, ip, addr)
	}
	if err != nil {
		return nil, err
	}
	return &real_.UDPAddr{IP: ip, Port: port}, nil
}

// ResolveIPAddr is net.ResolveIPAddr.
func ResolveIPAddr(network, addr string) (*real_.IPAddr, error) {
	ip, err := cur().Resolve(addr)
	if err != nil {
		return nil, err
	}
	return &real_.IPAddr{IP: ip}, nil
}

// LookupIP is net.LookupIP.
func LookupIP(host string) ([]real_.IP, error) {
	ip, err := cur().Resolve(host)
	if err != nil {
		return nil, err
	}
	return []real_.IP{ip}, nil
}

// LookupHost is net.LookupHost.
func LookupHost(host string) ([]string, error) {
	ip, err := cur().Resolve(host)
	if err != nil {
		return nil, err
	}
	return []string{ip.String()}, nil
}

// InterfaceAddrs is net.InterfaceAddrs.
func InterfaceAddrs() ([]real_.Addr, error) {
	return []real_.Addr{
		&real_.IPNet{IP: real_.IPv4(127, 0, 0, 1), Mask: real_.CIDRMask(8, 32)},
		&real_.IPNet{IP: real_.ParseIP(cur().LocalIP), Mask: real_.CIDRMask(24, 32)},
		&real_.IPNet{IP: real_.IPv4(10, 9, 0, 2), Mask: real_.CIDRMask(24, 32)},
		&real_.IPNet{IP: real_.ParseIP("fd00::2"), Mask: real_.CIDRMask(64, 128)},
	}, nil
}

// Interfaces is net.Interfaces.
func Interfaces() ([]real_.Interface, error) { return nil, nil }

// DialTCP is net.DialTCP.
func DialTCP(network string, laddr, raddr *real_.TCPAddr) (*TCPConn, error) {
	if raddr != nil {
		if err := fits(network, raddr.IP, raddr.String()); err != nil {
			return nil, &real_.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
		}
	}
	return dialTCP(laddr, raddr, 0)
}

func dialTCP(laddr, raddr *real_.TCPAddr, timeout time.Duration) (*TCPConn, error) {
	if raddr == nil {
		return nil, &real_.OpError{Op: "dial", Net: "tcp", Err: errors.New("missing address")}
	}
	s, err := cur().DialTCP(laddr, raddr, int64(timeout))
	if err != nil {
		return nil, err
	}
	return &TCPConn{s}, nil
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       real_.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig real_.KeepAliveConfig
	Resolver        *real_.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

// Dial is Dialer.Dial.
func (d *Dialer) Dial(network, addr string) (real_.Conn, error) {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		if u := d.Deadline.Sub(simrt.TimeNow()); t == 0 || u < t {
			t = u
		}
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
		a, err := ResolveTCPAddr(network, addr)
		if err != nil {
			return nil, &real_.OpError{Op: "dial", Net: network, Err: err}
		}
		c, err := dialTCP(nil, a, t)
		if err != nil {
			return nil, err
		}
		return c, nil
	case "udp", "udp4", "udp6":
		a, err := ResolveUDPAddr(network, addr)
		if err != nil {
			return nil, &real_.OpError{Op: "dial", Net: network, Err: err}
		}
		c, err := DialUDP(network, nil, a)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	return nil, real_.UnknownNetworkError(network)
}

// DialContext is Dialer.DialContext.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (real_.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	e := *d
	if dl, ok := ctx.Deadline(); ok && (e.Deadline.IsZero() || dl.Before(e.Deadline)) {
		e.Deadline = dl
	}
	return e.Dial(network, addr)
}

// Dial is net.Dial.
func Dial(network, addr string) (real_.Conn, error) { return (&Dialer{}).Dial(network, addr) }

// DialTimeout is net.DialTimeout.
func DialTimeout(network, addr string, t time.Duration) (real_.Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, addr)
}

// ListenUDP is net.ListenUDP.
func ListenUDP(network string, laddr *real_.UDPAddr) (*UDPConn, error) {
	if laddr != nil {
		if err := fits(network, laddr.IP, laddr.String()); err != nil {
			return nil, &real_.OpError{Op: "listen", Net: network, Addr: laddr, Err: err}
		}
	}
	s, err := cur().ListenUDP(laddr)
	if err != nil {
		return nil, err
	}
	s.V4, s.V6 = network == "udp4", network == "udp6"
	return &UDPConn{s: s}, nil
}

// ListenMulticastUDP is net.ListenMulticastUDP.
func ListenMulticastUDP(network string, ifi *real_.Interface, g *real_.UDPAddr) (*UDPConn, error) {
	s, err := cur().ListenUDP(g)
	if err != nil {
		return nil, err
	}
	return &UDPConn{s: s}, nil
}

// DialUDP is net.DialUDP.
func DialUDP(network string, laddr, raddr *real_.UDPAddr) (*UDPConn, error) {
	s, err := cur().ListenUDP(laddr)
	if err != nil {
		return nil, err
	}
	return &UDPConn{s, raddr}, nil
}

// ListenPacket is net.ListenPacket.
func ListenPacket(network, addr string) (real_.PacketConn, error) {
	h, p, err := real_.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	c, err := ListenUDP(network, &real_.UDPAddr{IP: real_.ParseIP(h), Port: port})
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Listen is net.Listen.
func Listen(network, addr string) (real_.Listener, error) {
	return nil, &real_.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EACCES)}
}

// Pipe is not simulated.
func Pipe() (real_.Conn, real_.Conn) { panic("net.Pipe is not simulated") }
