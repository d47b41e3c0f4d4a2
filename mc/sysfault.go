package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"github.com/unidoc/unitype"
)

// System calls as choice points: a filter of the kernel (seccomp) answers chosen calls on the file with an error. It
// stays for the life of a process, so every fault has a process of its own.

type sysFault struct {
	name string // of the call
	errn syscall.Errno
	arg  int // -1: every call on the file; otherwise only those whose argument `arg` is `val`
	val  uint32
}

func (s sysFault) String() string {
	if s.arg < 0 {
		return fmt.Sprintf("%s fails with %d", s.name, int(s.errn))
	}
	return fmt.Sprintf("%s with argument %d = %d fails with %d", s.name, s.arg, s.val, int(s.errn))
}

var sysNumbers = map[string]uint32{"close": syscall.SYS_CLOSE, "openat": syscall.SYS_OPENAT, "lseek": syscall.SYS_LSEEK,
	"read": syscall.SYS_READ, "write": syscall.SYS_WRITE, "fsync": syscall.SYS_FSYNC}

// installFault makes the kernel fail the call from now on, in all threads, for descriptor fd (or, with any, for
// every descriptor from fd).
func installFault(s sysFault, fd uint32, any bool) error {
	nr := map[string]uintptr{"amd64": 317, "arm64": 277}[runtime.GOARCH]
	if nr == 0 {
		return errors.New("unknown architecture")
	}
	type insn struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	const ld, jeq, jge, ret = 0x20, 0x15, 0x35, 0x06
	// The jumps to the end (allow) are filled in below.
	p := []insn{{ld, 0, 0, 0}, {jeq, 0, 1, sysNumbers[s.name]}}
	if s.name != "openat" {
		op := uint16(jeq)
		if any {
			op = jge
		}
		p = append(p, insn{ld, 0, 0, 16}, insn{op, 0, 1, fd})
	}
	if s.arg >= 0 {
		p = append(p, insn{ld, 0, 0, uint32(16 + 8*s.arg)}, insn{jeq, 0, 1, s.val})
	}
	p = append(p, insn{ret, 0, 0, 0x00050000 | uint32(s.errn)}, insn{ret, 0, 0, 0x7fff0000})
	for i := range p {
		if p[i].jf == 1 {
			p[i].jf = uint8(len(p) - 1 - i - 1)
		}
	}
	prog := struct {
		n uint16
		p *insn
	}{uint16(len(p)), &p[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	if r, _, e := syscall.RawSyscall(nr, 1, 1, uintptr(unsafe.Pointer(&prog))); e != 0 || r != 0 {
		return fmt.Errorf("seccomp: %d %v", r, e)
	}
	runtime.KeepAlive(p)
	return nil
}

// sysHelper OP TARGET DIR FAULT...: runs one call with the fault in place. Exit status 2: no such filter here.
func sysHelper(args []string) int {
	op, name, dir := args[0], args[1], args[2]
	errn, _ := strconv.Atoi(args[4])
	arg, _ := strconv.Atoi(args[5])
	val, _ := strconv.Atoi(args[6])
	s := sysFault{args[3], syscall.Errno(errn), arg, uint32(val)}
	for _, t := range writeTargets() {
		if t.name != name {
			continue
		}
		f, err := t.mk()
		if err != nil {
			fmt.Println(err)
			return 1
		}
		ref, err := write(f)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		p := filepath.Join(dir, "o.ttf")
		// Once without fault, so that the runtime has what it needs.
		if err := f.WriteFile(p); err != nil {
			fmt.Println(err)
			return 1
		}
		if _, err := unitype.ParseFile(p); err != nil {
			fmt.Println(err)
			return 1
		}
		bad := filepath.Join(dir, "bad.ttf")
		cor := clone(ref)
		cor[len(cor)-5] ^= 0x10
		os.WriteFile(bad, cor, 0o600)
		if op == "write" {
			os.Remove(p)
		}
		whole, err := parse(ref)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		want := observeAll(whole)
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return 2
		}
		syscall.Close(fd)
		if installFault(s, uint32(fd), false) != nil {
			return 2
		}
		switch op {
		case "write":
			err := f.WriteFile(p)
			if err == nil && (s.name == "close" || s.name == "openat") {
				fmt.Println("WriteFile reports no error")
				return 1
			}
			if err == nil {
				var st syscall.Stat_t
				if syscall.Stat(p, &st) != nil || int(st.Size) != len(ref) {
					fmt.Printf("WriteFile reports no error, file has %d of %d bytes\n", st.Size, len(ref))
					return 1
				}
			}
			if b, err := write(f); err != nil || !bytes.Equal(b, ref) {
				fmt.Println("the font writes differently after the failed WriteFile")
				return 1
			}
		case "parse":
			g, err := unitype.ParseFile(p)
			if err == nil && (s.arg < 0 && s.name != "close" && s.name != "lseek") {
				fmt.Println("ParseFile reports no error")
				return 1
			}
			if err == nil {
				if err := diffObs(want, observeAll(g)); err != nil {
					fmt.Printf("ParseFile reports no error, but: %v\n", err)
					return 1
				}
			}
		case "validate":
			err := unitype.ValidateFile(p)
			if err == nil && (s.arg < 0 && s.name != "close" && s.name != "lseek") {
				fmt.Println("ValidateFile reports no error")
				return 1
			}
		case "corrupt":
			if unitype.ValidateFile(bad) == nil {
				fmt.Println("ValidateFile accepts a corrupted file")
				return 1
			}
		}
		return 0
	}
	return 3
}

// emitSysFaults: the ops on each font under each fault.
func emitSysFaults(c *Ctx, ops []string, names []string) {
	for _, n := range names {
		for _, op := range ops {
			n, op := n, op
			c.Emit("syscall/"+op+"/"+n, func(r *Rec) error {
				self, err := os.Executable()
				if err != nil {
					return nil
				}
				var ref []byte
				for _, t := range writeTargets() {
					if t.name == n {
						f, err := t.mk()
						if err != nil {
							return err
						}
						if ref, err = write(f); err != nil {
							return err
						}
					}
				}
				var faults []sysFault
				if op == "write" {
					for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT} {
						faults = append(faults, sysFault{"close", e, -1, 0}, sysFault{"write", e, -1, 0})
					}
					faults = append(faults, sysFault{"openat", syscall.EMFILE, -1, 0}, sysFault{"openat", syscall.EACCES, -1, 0}, sysFault{"fsync", syscall.EIO, -1, 0},
						sysFault{"lseek", syscall.EIO, -1, 0})
					seen := map[uint32]bool{}
					sizes := []uint32{12, uint32(len(ref)), 4096}
					for i := 0; i < int(be16(ref, 4)); i++ {
						l := be32(ref[12+16*i:], 12)
						sizes = append(sizes, uint32(l), uint32(l+3)&^3, uint32(16*(i+1)), uint32(12+16*(i+1)))
					}
					for _, l := range sizes {
						if !seen[l] {
							seen[l] = true
							faults = append(faults, sysFault{"write", syscall.EIO, 2, l})
						}
					}
				} else {
					for _, e := range []syscall.Errno{syscall.EIO, syscall.EBADF} {
						faults = append(faults, sysFault{"read", e, -1, 0}, sysFault{"lseek", e, -1, 0}, sysFault{"close", e, -1, 0})
					}
					faults = append(faults, sysFault{"openat", syscall.EMFILE, -1, 0}, sysFault{"openat", syscall.EACCES, -1, 0},
						sysFault{"lseek", syscall.EIO, 1, 0}, sysFault{"lseek", syscall.EIO, 2, 0}, sysFault{"lseek", syscall.EIO, 2, 1}, sysFault{"lseek", syscall.EIO, 2, 2})
					for i := 0; i < int(be16(ref, 4)); i++ {
						faults = append(faults, sysFault{"lseek", syscall.EIO, 1, uint32(be32(ref[12+16*i:], 8))})
					}
				}
				r.Trace(1)
				for _, s := range faults {
					dir, err := os.MkdirTemp(scratchDir(), "sys")
					if err != nil {
						return nil
					}
					out, err := exec.Command(self, "helper", "syscall", op, n, dir, s.name, fmt.Sprint(int(s.errn)), fmt.Sprint(s.arg), fmt.Sprint(s.val)).CombinedOutput()
					got, _ := os.ReadFile(filepath.Join(dir, "o.ttf"))
					os.RemoveAll(dir)
					var ee *exec.ExitError
					if errors.As(err, &ee) && ee.ExitCode() == 2 && len(out) == 0 {
						r.Count("system call filters not available", 1)
						return nil
					}
					if err != nil {
						return fmt.Errorf("%v: %v: %s", s, err, strings.TrimSpace(string(out)))
					}
					if op == "write" && len(got) == len(ref) && !bytes.Equal(got, ref) {
						return fmt.Errorf("%v: the file has the right length, but other content", s)
					}
					r.Trans(1)
					r.Count("failing system calls", 1)
					r.State(hashBytes([]byte(op + n + s.String())))
				}
				return nil
			})
		}
	}
}

// execHelper FAULT DIR BIN ARGS...: becomes the tool, in which the call fails on every file.
func execHelper(args []string) int {
	errn, _ := strconv.Atoi(args[1])
	arg, _ := strconv.Atoi(args[2])
	val, _ := strconv.Atoi(args[3])
	if installFault(sysFault{args[0], syscall.Errno(errn), arg, uint32(val)}, 3, true) != nil {
		return 125
	}
	syscall.Exec(args[4], args[4:], os.Environ())
	return 126
}

// emitCLIFaults: the tool's commands while system calls on files fail.
func emitCLIFaults(c *Ctx, data []byte) {
	for _, cmdline := range [][]string{{"readwrite.ttf", "readwrite", "in.ttf"}, {"subset.ttf", "subset", "simple", "in.ttf"}, {"subset_gids.ttf", "subset", "gids", "in.ttf", "1"},
		{"subset_runes.ttf", "subset", "runes", "in.ttf", "A"}, {"", "validate", "in.ttf"}, {"", "info", "--head", "in.ttf"}} {
		cmdline := cmdline
		c.Emit("syscall/"+strings.Join(cmdline[1:], " "), func(r *Rec) error {
			self, err := os.Executable()
			if err != nil {
				return nil
			}
			run := func(fault ...string) (bool, []byte, error) {
				dir, err := os.MkdirTemp(scratchDir(), "cli")
				if err != nil {
					return false, nil, err
				}
				defer os.RemoveAll(dir)
				if err := os.WriteFile(filepath.Join(dir, "in.ttf"), data, 0o600); err != nil {
					return false, nil, err
				}
				argv := append(append([]string{"helper", "exec"}, fault...), os.Getenv("VERIF_CLI_BIN"))
				cmd := exec.Command(self, append(argv, cmdline[1:]...)...)
				cmd.Dir = dir
				cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
				err = cmd.Run()
				var out []byte
				if cmdline[0] != "" {
					out, _ = os.ReadFile(filepath.Join(dir, cmdline[0]))
				}
				var ee *exec.ExitError
				if errors.As(err, &ee) && (ee.ExitCode() == 125 || ee.ExitCode() == 126) {
					return false, nil, err
				}
				return err == nil, out, nil
			}
			// A fault on a call that nothing makes: the tool works under a filter.
			none := []string{"fsync", fmt.Sprint(int(syscall.EIO)), "1", "12345"}
			ok, want, err := run(none...)
			if err != nil || !ok {
				r.Count("system call filters not available", 1)
				return nil
			}
			r.Trace(1)
			try := func(must bool, name string, e syscall.Errno, arg int, val int) error {
				ok, got, err := run(name, fmt.Sprint(int(e)), fmt.Sprint(arg), fmt.Sprint(val))
				if err != nil {
					return nil
				}
				r.Trans(1)
				r.Count("failing system calls", 1)
				r.State(hashStrings([]string{name, fmt.Sprint(e, arg, val), strings.Join(cmdline, "|")}))
				if ok && must {
					return fmt.Errorf("%v: exits with 0", sysFault{name, e, arg, uint32(val)})
				}
				if ok && !bytes.Equal(got, want) {
					return fmt.Errorf("%v: exits with 0, but the output is not the usual one (%d and %d bytes)", sysFault{name, e, arg, uint32(val)}, len(got), len(want))
				}
				return nil
			}
			writes := cmdline[0] != ""
			for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT} {
				if err := try(writes, "close", e, -1, 0); err != nil {
					return err
				}
			}
			for i := 0; i < int(be16(data, 4)); i++ {
				if err := try(false, "lseek", syscall.EIO, 1, int(be32(data[12+16*i:], 8))); err != nil {
					return err
				}
			}
			for _, e := range []syscall.Errno{syscall.EIO, syscall.EBADF} {
				if err := try(true, "read", e, -1, 0); err != nil {
					return err
				}
			}
			if writes {
				seen := map[int]bool{}
				for i := 0; i < int(be16(want, 4)); i++ {
					l := int(be32(want[12+16*i:], 12)+3) &^ 3
					if !seen[l] && l > 16 {
						seen[l] = true
						if err := try(false, "write", syscall.ENOSPC, 2, l); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
}
