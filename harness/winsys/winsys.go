// Package winsys stands in for the parts of syscall that exist only on Windows, so that
// the Windows variant of the code can run here. The code pages the procedures report are
// taken from the environment at each call.
package winsys

import (
	"os"
	"strconv"
	"strings"
	"syscall"
)

type Errno = syscall.Errno

// Handle is a Windows handle.
type Handle uintptr

// Pages maps the procedures to the variables that hold their results.
var Pages = map[string]string{
	"getconsoleoutputcp": "WINSYS_OUT",
	"getconsolecp":       "WINSYS_IN",
	"getacp":             "WINSYS_ACP",
	"getoemcp":           "WINSYS_OEM",
}

func dllOK(name string) bool {
	n := strings.TrimSuffix(strings.ToLower(name), ".dll")
	return n == "kernel32" || n == "kernelbase"
}

func call(dll, proc string) (uintptr, uintptr, error) {
	v, ok := Pages[strings.ToLower(proc)]
	if !dllOK(dll) || !ok {
		panic("winsys: no procedure " + dll + "!" + proc)
	}
	n, _ := strconv.ParseUint(os.Getenv(v), 10, 32)
	if n == 0 {
		return 0, 0, Errno(6)
	}
	return uintptr(n), 0, Errno(0)
}

type DLLError struct {
	Err     error
	ObjName string
	Msg     string
}

func (e *DLLError) Error() string { return e.Msg }

type LazyDLL struct{ Name string }

func NewLazyDLL(name string) *LazyDLL { return &LazyDLL{name} }
func (d *LazyDLL) Load() error {
	if !dllOK(d.Name) {
		return &DLLError{Msg: "no library " + d.Name}
	}
	return nil
}
func (d *LazyDLL) Handle() uintptr               { return 1 }
func (d *LazyDLL) NewProc(name string) *LazyProc { return &LazyProc{Name: name, l: d} }

type LazyProc struct {
	Name string
	l    *LazyDLL
}

func (p *LazyProc) Find() error {
	if _, ok := Pages[strings.ToLower(p.Name)]; !ok || !dllOK(p.l.Name) {
		return &DLLError{Msg: "no procedure " + p.Name}
	}
	return nil
}
func (p *LazyProc) Call(a ...uintptr) (r1, r2 uintptr, lastErr error) { return call(p.l.Name, p.Name) }

var (
	addrs = map[uintptr][2]string{}
	next  = uintptr(100)
)

func addr(dll, proc string) uintptr {
	next++
	addrs[next] = [2]string{dll, proc}
	return next
}

func (p *LazyProc) Addr() uintptr { return addr(p.l.Name, p.Name) }

type DLL struct {
	Name   string
	Handle Handle
}

func LoadDLL(name string) (*DLL, error) {
	if !dllOK(name) {
		return nil, &DLLError{Msg: "no library " + name}
	}
	return &DLL{name, 1}, nil
}
func MustLoadDLL(name string) *DLL {
	d, err := LoadDLL(name)
	if err != nil {
		panic(err)
	}
	return d
}
func (d *DLL) Release() error { return nil }
func (d *DLL) FindProc(name string) (*Proc, error) {
	if _, ok := Pages[strings.ToLower(name)]; !ok {
		return nil, &DLLError{Msg: "no procedure " + name}
	}
	return &Proc{Dll: d, Name: name}, nil
}
func (d *DLL) MustFindProc(name string) *Proc {
	p, err := d.FindProc(name)
	if err != nil {
		panic(err)
	}
	return p
}

type Proc struct {
	Dll  *DLL
	Name string
}

func (p *Proc) Addr() uintptr                                     { return addr(p.Dll.Name, p.Name) }
func (p *Proc) Call(a ...uintptr) (r1, r2 uintptr, lastErr error) { return call(p.Dll.Name, p.Name) }

var handles = map[Handle]string{}

func LoadLibrary(name string) (Handle, error) {
	if !dllOK(name) {
		return 0, Errno(126)
	}
	h := Handle(len(handles) + 1)
	handles[h] = name
	return h, nil
}
func FreeLibrary(Handle) error { return nil }
func GetProcAddress(h Handle, name string) (uintptr, error) {
	if _, ok := Pages[strings.ToLower(name)]; !ok {
		return 0, Errno(127)
	}
	return addr(handles[h], name), nil
}

func SyscallN(a uintptr, args ...uintptr) (r1, r2 uintptr, err Errno) {
	p := addrs[a]
	x, y, e := call(p[0], p[1])
	en, _ := e.(Errno)
	return x, y, en
}
func Syscall(a, n, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) { return SyscallN(a) }

func Getenv(k string) (string, bool) { return syscall.Getenv(k) }
