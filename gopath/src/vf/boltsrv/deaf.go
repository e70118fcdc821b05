package boltsrv

import (
	"fmt"
	"net"
	"syscall"
	"time"
)

// Deaf is an address whose queue of connections is full: an attempt to connect
// is neither accepted nor refused.
type Deaf struct {
	Addr string
	fd   int
	held []net.Conn
}

// NewDeaf sets one up; ok is false if attempts still get through.
func NewDeaf() (d *Deaf, ok bool) {
	d = &Deaf{fd: -1}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return d, false
	}
	d.fd = fd
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		return d, false
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return d, false
	}
	d.Addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	for i := 0; i < 8; i++ {
		cn, err := net.DialTimeout("tcp", d.Addr, 400*time.Millisecond)
		if err != nil {
			ne, is := err.(net.Error)
			return d, is && ne.Timeout()
		}
		d.held = append(d.held, cn)
	}
	return d, false
}

// Close frees the address.
func (d *Deaf) Close() {
	for _, cn := range d.held {
		cn.Close()
	}
	if d.fd >= 0 {
		syscall.Close(d.fd)
		d.fd = -1
	}
}
