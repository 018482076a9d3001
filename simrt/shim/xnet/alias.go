// Code generated by tools/genshim; DO NOT EDIT.

package net

import real_ "net"

type Addr = real_.Addr
type AddrError = real_.AddrError
type Buffers = real_.Buffers

var CIDRMask = real_.CIDRMask

type Conn = real_.Conn
type DNSConfigError = real_.DNSConfigError
type DNSError = real_.DNSError

var DefaultResolver = real_.DefaultResolver
var DialIP = real_.DialIP
var DialUnix = real_.DialUnix
var ErrClosed = real_.ErrClosed
var ErrWriteToConnected = real_.ErrWriteToConnected

type Error = real_.Error

var FileConn = real_.FileConn
var FileListener = real_.FileListener
var FilePacketConn = real_.FilePacketConn

const FlagBroadcast = real_.FlagBroadcast
const FlagLoopback = real_.FlagLoopback
const FlagMulticast = real_.FlagMulticast
const FlagPointToPoint = real_.FlagPointToPoint
const FlagRunning = real_.FlagRunning
const FlagUp = real_.FlagUp

type Flags = real_.Flags
type HardwareAddr = real_.HardwareAddr
type IP = real_.IP
type IPAddr = real_.IPAddr
type IPConn = real_.IPConn
type IPMask = real_.IPMask
type IPNet = real_.IPNet

var IPv4 = real_.IPv4
var IPv4Mask = real_.IPv4Mask
var IPv4allrouter = real_.IPv4allrouter
var IPv4allsys = real_.IPv4allsys
var IPv4bcast = real_.IPv4bcast

const IPv4len = real_.IPv4len

var IPv4zero = real_.IPv4zero
var IPv6interfacelocalallnodes = real_.IPv6interfacelocalallnodes

const IPv6len = real_.IPv6len

var IPv6linklocalallnodes = real_.IPv6linklocalallnodes
var IPv6linklocalallrouters = real_.IPv6linklocalallrouters
var IPv6loopback = real_.IPv6loopback
var IPv6unspecified = real_.IPv6unspecified
var IPv6zero = real_.IPv6zero

type Interface = real_.Interface

var InterfaceByIndex = real_.InterfaceByIndex
var InterfaceByName = real_.InterfaceByName

type InvalidAddrError = real_.InvalidAddrError

var JoinHostPort = real_.JoinHostPort

type KeepAliveConfig = real_.KeepAliveConfig
type ListenConfig = real_.ListenConfig

var ListenIP = real_.ListenIP
var ListenTCP = real_.ListenTCP
var ListenUnix = real_.ListenUnix
var ListenUnixgram = real_.ListenUnixgram

type Listener = real_.Listener

var LookupAddr = real_.LookupAddr
var LookupCNAME = real_.LookupCNAME
var LookupMX = real_.LookupMX
var LookupNS = real_.LookupNS
var LookupPort = real_.LookupPort
var LookupSRV = real_.LookupSRV
var LookupTXT = real_.LookupTXT

type MX = real_.MX
type NS = real_.NS
type OpError = real_.OpError
type PacketConn = real_.PacketConn

var ParseCIDR = real_.ParseCIDR

type ParseError = real_.ParseError

var ParseIP = real_.ParseIP
var ParseMAC = real_.ParseMAC
var ResolveUnixAddr = real_.ResolveUnixAddr

type Resolver = real_.Resolver
type SRV = real_.SRV

var SplitHostPort = real_.SplitHostPort

type TCPAddr = real_.TCPAddr

var TCPAddrFromAddrPort = real_.TCPAddrFromAddrPort

type TCPListener = real_.TCPListener
type UDPAddr = real_.UDPAddr

var UDPAddrFromAddrPort = real_.UDPAddrFromAddrPort

type UnixAddr = real_.UnixAddr
type UnixConn = real_.UnixConn
type UnixListener = real_.UnixListener
type UnknownNetworkError = real_.UnknownNetworkError
