// Package net replaces the standard package net in the instrumented library: same
// types and functions, but dialing belongs to the simulator.
package net

import rt "net"

type (
	Addr                = rt.Addr
	AddrError           = rt.AddrError
	Buffers             = rt.Buffers
	Conn                = rt.Conn
	DNSConfigError      = rt.DNSConfigError
	DNSError            = rt.DNSError
	Error               = rt.Error
	Flags               = rt.Flags
	HardwareAddr        = rt.HardwareAddr
	IP                  = rt.IP
	IPAddr              = rt.IPAddr
	IPConn              = rt.IPConn
	IPMask              = rt.IPMask
	IPNet               = rt.IPNet
	Interface           = rt.Interface
	InvalidAddrError    = rt.InvalidAddrError
	KeepAliveConfig     = rt.KeepAliveConfig
	ListenConfig        = rt.ListenConfig
	Listener            = rt.Listener
	MX                  = rt.MX
	NS                  = rt.NS
	OpError             = rt.OpError
	PacketConn          = rt.PacketConn
	ParseError          = rt.ParseError
	Resolver            = rt.Resolver
	SRV                 = rt.SRV
	TCPAddr             = rt.TCPAddr
	TCPListener         = rt.TCPListener
	UDPAddr             = rt.UDPAddr
	UDPConn             = rt.UDPConn
	UnixAddr            = rt.UnixAddr
	UnixConn            = rt.UnixConn
	UnixListener        = rt.UnixListener
	UnknownNetworkError = rt.UnknownNetworkError
)

const (
	FlagBroadcast    = rt.FlagBroadcast
	FlagLoopback     = rt.FlagLoopback
	FlagMulticast    = rt.FlagMulticast
	FlagPointToPoint = rt.FlagPointToPoint
	FlagRunning      = rt.FlagRunning
	FlagUp           = rt.FlagUp
	IPv4len          = rt.IPv4len
	IPv6len          = rt.IPv6len
)

var (
	CIDRMask                   = rt.CIDRMask
	DefaultResolver            = rt.DefaultResolver
	DialIP                     = rt.DialIP
	DialUDP                    = rt.DialUDP
	DialUnix                   = rt.DialUnix
	ErrClosed                  = rt.ErrClosed
	ErrWriteToConnected        = rt.ErrWriteToConnected
	FileConn                   = rt.FileConn
	FileListener               = rt.FileListener
	FilePacketConn             = rt.FilePacketConn
	IPv4                       = rt.IPv4
	IPv4Mask                   = rt.IPv4Mask
	IPv4allrouter              = rt.IPv4allrouter
	IPv4allsys                 = rt.IPv4allsys
	IPv4bcast                  = rt.IPv4bcast
	IPv4zero                   = rt.IPv4zero
	IPv6interfacelocalallnodes = rt.IPv6interfacelocalallnodes
	IPv6linklocalallnodes      = rt.IPv6linklocalallnodes
	IPv6linklocalallrouters    = rt.IPv6linklocalallrouters
	IPv6loopback               = rt.IPv6loopback
	IPv6unspecified            = rt.IPv6unspecified
	IPv6zero                   = rt.IPv6zero
	InterfaceAddrs             = rt.InterfaceAddrs
	InterfaceByIndex           = rt.InterfaceByIndex
	InterfaceByName            = rt.InterfaceByName
	Interfaces                 = rt.Interfaces
	JoinHostPort               = rt.JoinHostPort
	Listen                     = rt.Listen
	ListenIP                   = rt.ListenIP
	ListenMulticastUDP         = rt.ListenMulticastUDP
	ListenPacket               = rt.ListenPacket
	ListenTCP                  = rt.ListenTCP
	ListenUDP                  = rt.ListenUDP
	ListenUnix                 = rt.ListenUnix
	ListenUnixgram             = rt.ListenUnixgram
	LookupAddr                 = rt.LookupAddr
	LookupCNAME                = rt.LookupCNAME
	LookupHost                 = rt.LookupHost
	LookupIP                   = rt.LookupIP
	LookupMX                   = rt.LookupMX
	LookupNS                   = rt.LookupNS
	LookupPort                 = rt.LookupPort
	LookupSRV                  = rt.LookupSRV
	LookupTXT                  = rt.LookupTXT
	ParseCIDR                  = rt.ParseCIDR
	ParseIP                    = rt.ParseIP
	ParseMAC                   = rt.ParseMAC
	Pipe                       = rt.Pipe
	ResolveIPAddr              = rt.ResolveIPAddr
	ResolveTCPAddr             = rt.ResolveTCPAddr
	ResolveUDPAddr             = rt.ResolveUDPAddr
	ResolveUnixAddr            = rt.ResolveUnixAddr
	SplitHostPort              = rt.SplitHostPort
	TCPAddrFromAddrPort        = rt.TCPAddrFromAddrPort
	UDPAddrFromAddrPort        = rt.UDPAddrFromAddrPort
)
