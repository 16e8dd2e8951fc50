// Package zzverif is the contract language of the verification of saratoga.
// The functions here are interpreted by the verifier; compiled natively they
// evaluate the same contracts on concrete inputs, which is how counterexamples
// are replayed against the real code.
package zzverif

import (
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type skip struct{}

// Failure of a contract clause
type Failure struct {
	Tag  string
	What string
}

var (
	wanted   func(tag string) bool = func(string) bool { return true }
	failures []Failure
	reached  map[string]int
	universe map[string]bool
)

// Requires - precondition
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// RequiresF - precondition given as a function
func RequiresF(f func() bool) {
	if !f() {
		panic(skip{})
	}
}

// Ensures - postcondition
func Ensures(tag string, f func() bool) {
	if !wanted(tag) {
		return
	}
	reached[tag]++
	if !f() {
		failures = append(failures, Failure{tag, "postcondition is false"})
	}
}

// Assert - assertion in a lemma
func Assert(tag string, b bool) {
	if !wanted(tag) {
		return
	}
	reached[tag]++
	if !b {
		failures = append(failures, Failure{tag, "assertion is false"})
	}
}

// Assume - an assumption that is not checked; recorded in the evidence
func Assume(why string, b bool) {
	if !b {
		panic(skip{})
	}
}

// Modifies - the frame of the function under contract
func Modifies(xs ...interface{}) {}

// ResultAlias - a slice result may be a prefix of this slice's storage
func ResultAlias(b interface{}) {}

// Hint - terms at which quantified facts are instantiated
func Hint(xs ...int) {}

// Split - the proof goes on separately for b and for not b
func Split(b bool) {}

// Implies - a ==> b
func Implies(a, b bool) bool { return !a || b }

// Forall - f holds for all lo <= i < hi
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists - f holds for some lo <= i < hi
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Keys - strings ForallKey and ExistsKey range over when run natively
func Keys(ks ...string) {
	for _, k := range ks {
		universe[k] = true
	}
}

// ForallKey - f holds for all strings
func ForallKey(f func(k string) bool) bool {
	for k := range universe {
		if !f(k) {
			return false
		}
	}
	return true
}

// ExistsKey - f holds for some string
func ExistsKey(f func(k string) bool) bool {
	for k := range universe {
		if f(k) {
			return true
		}
	}
	return false
}

// Fold32 - f(...f(f(init,0),1)...,n-1)
func Fold32(n int, init uint32, f func(acc uint32, i int) uint32) uint32 {
	for i := 0; i < n; i++ {
		init = f(init, i)
	}
	return init
}

// Fold16 - f(...f(f(init,0),1)...,n-1)
func Fold16(n int, init uint16, f func(acc uint16, i int) uint16) uint16 {
	for i := 0; i < n; i++ {
		init = f(init, i)
	}
	return init
}

// FoldInt - f(...f(f(init,0),1)...,n-1)
func FoldInt(n int, init int, f func(acc int, i int) int) int {
	for i := 0; i < n; i++ {
		init = f(init, i)
	}
	return init
}

// FoldBool - f(...f(f(init,0),1)...,n-1)
func FoldBool(n int, init bool, f func(acc bool, i int) bool) bool {
	for i := 0; i < n; i++ {
		init = f(init, i)
	}
	return init
}

// FileExists - does path name something in the file system
func FileExists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// FileVersion - changes whenever the contents of the file at path change
func FileVersion(path string) uint64 {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64() | 1
}

// Inside - path is dir or something below it
func Inside(dir, path string) bool {
	d, p := filepath.Clean(dir), filepath.Clean(path)
	return p == d || d == "/" || strings.HasPrefix(p, d+"/")
}

// SameFile - two ways to write the same path
func SameFile(a, b string) bool { return filepath.Clean(a) == filepath.Clean(b) }

// Paths - every path handed to the operating system by the function under contract satisfies f
// (decided by the verifier; natively the effects are compared instead)
func Paths(f func(path string) bool) bool { return true }

// FpSize - size of an open file
func FpSize(fp *os.File) int {
	fi, err := fp.Stat()
	if err != nil {
		return 0
	}
	return int(fi.Size())
}

// FpByte - the byte at offset i of an open file
func FpByte(fp *os.File, i int) byte {
	b := make([]byte, 1)
	fp.ReadAt(b, int64(i))
	return b[0]
}

// Digest - checksum of the file at path
func Digest(alg, path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	switch alg {
	case "md5":
		h := md5.Sum(b)
		return h[:]
	case "sha1":
		h := sha1.Sum(b)
		return h[:]
	case "crc32":
		c := crc32.ChecksumIEEE(b)
		return []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}
	}
	return nil
}

var scratch string

// Scratch - a directory for generators to make files in: Scratch()/sardir is the Saratoga directory,
// everything else is outside of it. It is emptied first.
func Scratch() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	ents, _ := os.ReadDir(scratch)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(scratch, e.Name()))
	}
	return scratch
}

// Cleanup - remove the scratch directory
func Cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// Unlocked - nobody holds the mutex
func Unlocked(m *sync.Mutex) bool {
	if m.TryLock() {
		m.Unlock()
		return true
	}
	return false
}

func guard(f func()) (out string, skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				skipped = true
				return
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			out = fmt.Sprintf("panic: %v\n%s", r, buf[:n])
		}
	}()
	f()
	return "", false
}

// Queue takes everything out of the channel that was sent to it.
func Queue(c chan interface{}) []interface{} {
	var r []interface{}
	for {
		select {
		case v := <-c:
			r = append(r, v)
		default:
			return r
		}
	}
}

// Shares - do two byte slices have storage in common
func Shares(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	x, y := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return x < y+uintptr(len(b)) && y < x+uintptr(len(a))
}

// SameMap - are two maps the same map
func SameMap(a, b map[string]string) bool {
	return a != nil && b != nil && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

// OldBool, OldInt: the value of f when the function under contract was called (loop invariants only)
func OldBool(f func() bool) bool { panic("Old outside an invariant") }
func OldInt(f func() int) int    { panic("Old outside an invariant") }

// QueueErr takes everything out of the channel that was sent to it.
func QueueErr(c chan error) []error {
	var r []error
	for {
		select {
		case v := <-c:
			r = append(r, v)
		default:
			return r
		}
	}
}

type perDatagram struct {
	tag    string
	rx, tx chan interface{}
	f      func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool
}

var (
	perdg  []perDatagram
	dgram  []byte
	dgfrom *net.UDPAddr
)

// Conn is a connection on which datagrams arrive: any number of any contents to the verifier, d natively
// (it is closed when d has been read).
func Conn(d []byte) *net.UDPConn {
	perdg = nil
	lo := net.IPv4(127, 0, 0, 1)
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: lo})
	if err != nil {
		panic(err)
	}
	s, err := net.DialUDP("udp4", nil, c.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	dgram, dgfrom = d, s.LocalAddr().(*net.UDPAddr)
	if _, err := s.Write(d); err != nil {
		panic(err)
	}
	s.Close()
	rc, err := c.SyscallConn()
	if err != nil {
		panic(err)
	}
	go func() {
		for i := 0; i < 20000; i++ {
			n := 0
			if rc.Control(func(fd uintptr) { syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n))) }) != nil || n == 0 {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
		c.Close()
	}()
	return c
}

// PerDatagram - what is sent to rx and tx between reading a datagram from a connection and reading the next,
// or returning, satisfies f.
func PerDatagram(tag string, rx, tx chan interface{}, f func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool) {
	if wanted(tag) {
		perdg = append(perdg, perDatagram{tag, rx, tx, f})
	}
}

// EndDatagrams - the last datagram has been dealt with.
func EndDatagrams() {
	if len(perdg) == 0 {
		return
	}
	rxs, txs := Queue(perdg[0].rx), Queue(perdg[0].tx)
	for _, p := range perdg {
		reached[p.tag]++
		if !p.f(dgram, dgfrom, rxs, txs) {
			failures = append(failures, Failure{p.tag, "postcondition is false"})
		}
	}
}

// Datagram is one datagram that was sent.
type Datagram struct {
	Conn *net.UDPConn // on this connection
	Data []byte
	To   *net.UDPAddr // to this address, nil if the connection has one
	dest string
}

// TrimOf - s is full without the commas at its end.
func TrimOf(s, full string) bool { return s == strings.TrimRight(full, ",") }

// Dest is the address d went to.
func Dest(d Datagram) string { return d.dest }

type perSend struct {
	tag string
	f   func(k int, d Datagram) bool
	n   *int
}

var persnd []perSend

// PerSend - every datagram sent from here on satisfies f; k counts them. The first result is how many were sent
// (or tried to), the second whether a call to the network failed.
func PerSend(tag string, f func(k int, d Datagram) bool) (*int, *bool) {
	if !wanted(tag) {
		f = nil
	}
	n := new(int)
	persnd = append(persnd, perSend{tag, f, n})
	return n, new(bool)
}

// Faults - from here on it is noted when a call to the network or the file system fails for no reason in its arguments.
func Faults() *bool { return new(bool) }

var oserrs = []string{"permission", "too long", "no space", "directory", "invalid argument", "not permitted", "unreachable", "refused", "busy", "no such device", "bad file", "closed", "assign requested", "too many", "read-only", "non-IPv"}

// Faulty - such a call failed (natively: err says so).
func Faulty(f *bool, err error) bool {
	if err == nil {
		return false
	}
	for _, o := range oserrs {
		if strings.Contains(err.Error(), o) {
			return true
		}
	}
	return false
}

// EndSends - all datagrams have been sent.
func EndSends() {
	for k, d := range Sent() {
		for _, p := range persnd {
			*p.n = k + 1
			if p.f == nil {
				continue
			}
			reached[p.tag]++
			if !p.f(k, d) {
				failures = append(failures, Failure{p.tag, "postcondition is false"})
			}
		}
	}
}

type wire struct {
	conn, sink *net.UDPConn
	to         *net.UDPAddr
}

var wires []wire

// Wire is a connection (with a remote address if dialled) and an address to which datagrams can be sent.
func Wire(r *R, dial bool) (*net.UDPConn, *net.UDPAddr) {
	k := r.Intn(2)
	if dial {
		k += 2
	}
	mkwires()
	Sent()
	persnd = nil
	return wires[k].conn, wires[k].to
}

func mkwires() {
	for len(wires) < 4 {
		lo := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}
		sink, err := net.ListenUDP("udp4", lo)
		if err != nil {
			panic(err)
		}
		sink.SetReadBuffer(1 << 20)
		w := wire{sink: sink}
		if to := sink.LocalAddr().(*net.UDPAddr); len(wires) < 2 {
			w.to = to
			w.conn, err = net.ListenUDP("udp4", lo)
		} else {
			w.conn, err = net.DialUDP("udp4", nil, to)
		}
		if err != nil {
			panic(err)
		}
		wires = append(wires, w)
	}
}

// Listen is the IP address of a host (this one) where datagrams to a port are received.
func Listen(port int) string {
	pid := os.Getpid()
	ip := net.IPv4(127, byte(16+pid>>16), byte(pid>>8), byte(pid))
	for _, w := range wires {
		if w.sink == w.conn && w.sink.LocalAddr().(*net.UDPAddr).Port == port {
			Sent()
			persnd = nil
			return ip.String()
		}
	}
	sink, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: port})
	if err != nil {
		panic(err)
	}
	sink.SetReadBuffer(1 << 20)
	mkwires() // the others come first
	wires = append(wires, wire{conn: sink, sink: sink})
	Sent()
	persnd = nil
	return ip.String()
}

// Sent takes the datagrams that were sent.
func Sent() []Datagram {
	var r []Datagram
	b := make([]byte, 1<<17)
	for _, w := range wires {
		rc, err := w.sink.SyscallConn()
		if err != nil {
			panic(err)
		}
		for {
			n, from := -1, syscall.Sockaddr(nil)
			rc.Control(func(fd uintptr) {
				if m, f, err := syscall.Recvfrom(int(fd), b, syscall.MSG_DONTWAIT); err == nil {
					n, from = m, f
				}
			})
			if n < 0 {
				break
			}
			d := Datagram{Data: append([]byte(nil), b[:n]...), To: w.to, dest: w.sink.LocalAddr().String()}
			if a, ok := from.(*syscall.SockaddrInet4); ok {
				for _, v := range wires {
					if v.conn.LocalAddr().(*net.UDPAddr).Port == a.Port {
						d.Conn = v.conn
					}
				}
			}
			r = append(r, d)
		}
	}
	return r
}
