// Faults: runs a program under ptrace, counts what it does with files below
// /tmp, and interferes at one point: an error, a disk that is full from then
// on, or the end of the process.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// Fault: at the At-th file operation (from 1). How:
//
//	"kill"     the process is killed before the operation
//	"halfkill" a write is cut in half, then the process is killed
//	"eio"      the operation fails
//	"dead"     this and every later operation that changes anything fails
//	"full"     the disk is full: the write is cut in half, later ones fail, and no file can be made
//	"data"     the same, but there is room for (empty) files
type Fault struct {
	At    int
	How   string
	Kinds string // classes of operations that count
	Where string // part of the names of files that count
	Then  int    // and killed in the middle of the Then-th operation after that
	Gate  bool   // stop before every operation: announced on descriptor 3, the answer (g: go on, k: be killed) comes on 4
}

// FileOp: class r (open or read), c (create or open for writing), w (write),
// m (rename, unlink, mkdir, chmod, ...)
type FileOp struct {
	Class, Name, Path string
}

type faultReport struct {
	Ops []FileOp
	Hit bool
	RC  int
	Sig string
}

type syscallInfo struct {
	op   uint8
	_    [3]uint8
	arch uint32
	ip   uint64
	sp   uint64
	nr   uint64 // exit: rval
	args [6]uint64
}

// room: whether a full disk lets the operation pass
func room(how string, op FileOp) bool {
	if op.Class == "m" {
		return op.Name != "mkdir"
	}
	if op.Class != "c" {
		return false
	}
	_, err := os.Stat(op.Path)
	return err == nil || how == "data"
}

func peekString(pid int, addr uintptr) string {
	s := []byte{}
	for len(s) < 4096 {
		b := make([]byte, 8)
		if n, err := syscall.PtracePeekData(pid, addr+uintptr(len(s)), b); err != nil || n == 0 {
			break
		}
		for _, c := range b {
			if c == 0 {
				return string(s)
			}
			s = append(s, c)
		}
	}
	return string(s)
}

func fdPath(pid int, fd uint64) string {
	p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(fd)))
	return p
}

// atPath: the file named by a directory descriptor and a path
func atPath(pid int, dir uint64, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	d := ""
	if int32(dir) == -100 {
		d, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
	} else {
		d = fdPath(pid, dir)
	}
	return d + "/" + p
}

// classify: what a system call does with a file below /tmp, or ""
func classify(pid int, i *syscallInfo) FileOp {
	a := i.args
	none := FileOp{}
	in := func(c, n, p string) FileOp {
		if strings.HasPrefix(p, "/tmp/") && p != "/tmp/ca.pem" && !(c == "r" && p == "/tmp/bin/1pass") {
			return FileOp{c, n, p}
		}
		return none
	}
	open := func(n, p string, fl uint64) FileOp {
		if fl&uint64(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			return in("c", n, p)
		}
		if fl&uint64(syscall.O_DIRECTORY) != 0 {
			return none
		}
		return in("r", n, p)
	}
	str := func(n int) string { return peekString(pid, uintptr(a[n])) }
	switch i.nr {
	case syscall.SYS_OPEN:
		return open("open", atPath(pid, 0xffffff9c, str(0)), a[1])
	case syscall.SYS_OPENAT:
		return open("open", atPath(pid, a[0], str(1)), a[2])
	case 437: // openat2
		b := make([]byte, 8)
		syscall.PtracePeekData(pid, uintptr(a[2]), b)
		return open("open", atPath(pid, a[0], str(1)), *(*uint64)(unsafe.Pointer(&b[0])))
	case syscall.SYS_CREAT:
		return in("c", "creat", atPath(pid, 0xffffff9c, str(0)))
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV:
		return in("r", "read", fdPath(pid, a[0]))
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV, 296:
		return in("w", "write", fdPath(pid, a[0]))
	case syscall.SYS_SENDFILE:
		return in("w", "sendfile", fdPath(pid, a[0]))
	case 326, syscall.SYS_SPLICE: // copy_file_range
		return in("w", "copy", fdPath(pid, a[2]))
	case syscall.SYS_RENAME, syscall.SYS_LINK:
		return in("m", "rename", atPath(pid, 0xffffff9c, str(1)))
	case syscall.SYS_RENAMEAT, 316, syscall.SYS_LINKAT:
		return in("m", "rename", atPath(pid, a[2], str(3)))
	case syscall.SYS_SYMLINK:
		return in("m", "symlink", atPath(pid, 0xffffff9c, str(1)))
	case syscall.SYS_SYMLINKAT:
		return in("m", "symlink", atPath(pid, a[1], str(2)))
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR, syscall.SYS_MKDIR, syscall.SYS_CHMOD, syscall.SYS_TRUNCATE, syscall.SYS_CHOWN:
		return in("m", fmt.Sprint("sys", i.nr), atPath(pid, 0xffffff9c, str(0)))
	case syscall.SYS_UNLINKAT:
		return in("m", "unlink", atPath(pid, a[0], str(1)))
	case syscall.SYS_MKDIRAT:
		return in("m", "mkdir", atPath(pid, a[0], str(1)))
	case syscall.SYS_FCHMODAT, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT, 452:
		return in("m", "chmod", atPath(pid, a[0], str(1)))
	case syscall.SYS_FCHMOD, syscall.SYS_FTRUNCATE, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FALLOCATE:
		return in("m", fmt.Sprint("sys", i.nr), fdPath(pid, a[0]))
	}
	return none
}

// traceMain FAULT PROGRAM ARGS...; the report goes to descriptor 3
func traceMain(faultJson string, args []string) {
	runtime.LockOSThread()
	var f Fault
	json.Unmarshal([]byte(faultJson), &f)
	rep := faultReport{Ops: []FileOp{}}
	out := os.NewFile(3, "report")
	syscall.CloseOnExec(3)
	if f.Gate {
		syscall.CloseOnExec(4)
	}
	end := func(rc int) {
		rep.RC = rc
		if f.Gate {
			rep.Ops = nil
		}
		b, _ := json.Marshal(rep)
		out.Write(append(b, '\n'))
		out.Close()
		os.Exit(0)
	}
	die := func(what string, err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "JAIL", what, err)
			os.Exit(97)
		}
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	die("start", cmd.Start())
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	_, err := syscall.Wait4(pid, &ws, syscall.WALL, nil)
	die("wait", err)
	die("options", syscall.PtraceSetOptions(pid, 1|2|4|8|0x100000)) // SYSGOOD FORK VFORK CLONE EXITKILL
	die("go", syscall.PtraceSyscall(pid, 0))
	known := map[int]bool{pid: true}
	pending := map[int]int64{} // result to put in place of a suppressed call
	killAt := map[int]bool{}   // kill when the call returns
	broken := ""               // "dead", "full": the state of the disk
	kill := func() { syscall.Kill(pid, syscall.SIGKILL) }
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			end(-1)
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				if ws.Signaled() {
					rep.Sig = ws.Signal().String()
					end(-1)
				}
				end(ws.ExitStatus())
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			sig = 0
			var inf syscallInfo
			_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, 0x420e, uintptr(tid), unsafe.Sizeof(inf), uintptr(unsafe.Pointer(&inf)), 0, 0)
			if e != 0 {
				break
			}
			if inf.op == 2 { // return
				if killAt[tid] {
					delete(killAt, tid)
					kill()
					break
				}
				if v, ok := pending[tid]; ok {
					delete(pending, tid)
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(v)
						syscall.PtraceSetRegs(tid, &regs)
					}
				}
				break
			}
			if inf.op != 1 {
				break
			}
			op := classify(tid, &inf)
			if op.Class == "" {
				break
			}
			if f.Kinds != "" && !strings.Contains(f.Kinds, op.Class) && broken == "" {
				break
			}
			if !strings.Contains(op.Path, f.Where) && broken == "" {
				break
			}
			if f.Gate {
				b, _ := json.Marshal(op)
				out.Write(append(b, '\n'))
				c := []byte{'k'}
				syscall.Read(4, c)
				if c[0] == 'k' {
					kill()
				}
				break
			}
			rep.Ops = append(rep.Ops, op)
			suppress := func(errno int64) {
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &regs) == nil {
					regs.Orig_rax = ^uint64(0)
					syscall.PtraceSetRegs(tid, &regs)
					pending[tid] = -errno
				}
			}
			// cuts a write in half; FALSE if that is not possible
			cut := func() bool {
				if (inf.nr != syscall.SYS_WRITE && inf.nr != syscall.SYS_PWRITE64) || inf.args[2] < 2 {
					return false
				}
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &regs) != nil {
					return false
				}
				regs.Rdx = inf.args[2] / 2
				return syscall.PtraceSetRegs(tid, &regs) == nil
			}
			if len(rep.Ops) == f.At {
				rep.Hit = true
				switch f.How {
				case "kill":
					kill()
				case "halfkill":
					if op.Class == "w" && cut() {
						killAt[tid] = true
					} else {
						kill()
					}
				case "eio":
					suppress(int64(syscall.EIO))
				case "dead":
					broken = "dead"
					suppress(int64(syscall.EIO))
				case "full", "data":
					broken = f.How
					if op.Class == "w" && cut() {
						break
					}
					if op.Class == "m" || op.Class != "r" && !room(f.How, op) {
						suppress(int64(syscall.ENOSPC))
					}
				}
			} else if f.Then > 0 && rep.Hit && len(rep.Ops) == f.At+f.Then {
				if op.Class == "w" && cut() {
					killAt[tid] = true
				} else {
					kill()
				}
			} else if broken == "dead" && op.Class != "r" {
				suppress(int64(syscall.EIO))
			} else if (broken == "full" || broken == "data") && (op.Class == "w" || op.Class == "c" || op.Name == "mkdir") && !room(broken, op) {
				suppress(int64(syscall.ENOSPC))
			}
		case sig == syscall.SIGTRAP:
			sig = 0
		case sig == syscall.SIGSTOP && !known[tid]:
			known[tid] = true
			sig = 0
		}
		syscall.PtraceSyscall(tid, int(sig))
	}
}

// traced runs the application with a fault.
func (u *appUser) traced(prog []string, input string, f Fault) (runResult, faultReport) {
	js, _ := json.Marshal(f)
	cmd := u.b.command(append([]string{"trace:" + string(js)}, prog...)...)
	r, w, err := os.Pipe()
	must(err)
	cmd.ExtraFiles = []*os.File{w}
	rc := make(chan faultReport, 1)
	go func() {
		var x faultReport
		x.RC = -99
		json.NewDecoder(r).Decode(&x)
		r.Close()
		rc <- x
	}()
	res := runCmd(cmd, input, w)
	rep := <-rc
	if !res.stuck {
		if rep.RC == -99 {
			broken("no report of the tracer: " + tail(string(res.out), 500))
		}
		res.rc, res.sig = rep.RC, rep.Sig
	}
	return res, rep
}
