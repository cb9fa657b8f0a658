// Box: the place one user's application lives in. Everything it can see under
// /tmp is one scratch directory, it runs as an unprivileged user, and the names
// of the update server lead to a server of ours.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

const boxUid = 61234

// jail ROOT HOSTS CWD PROGRAM ARGS...: runs in a user and mount namespace of its
// own, with no privileges left when the program starts.
func jailMain(a []string) {
	runtime.LockOSThread()
	die := func(what string, err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "JAIL", what, err)
			os.Exit(97)
		}
	}
	die("private", syscall.Mount("", "/", "", syscall.MS_REC|syscall.MS_PRIVATE, ""))
	die("bind hosts", syscall.Mount(a[1], "/etc/hosts", "", syscall.MS_BIND, ""))
	die("bind tmp", syscall.Mount(a[0], "/tmp", "", syscall.MS_BIND, ""))
	die("cwd", os.Chdir(a[2]))
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 47, 4, 0, 0, 0, 0); e != 0 {
		die("ambient", e)
	}
	if strings.HasPrefix(a[3], "trace:") {
		traceMain(a[3][6:], a[4:])
	}
	if strings.HasPrefix(a[3], "hold:") {
		holdMain(a[3][5:], a[4:])
	}
	die("exec", syscall.Exec(a[3], a[3:], os.Environ()))
}

type Box struct {
	base string // outside
	root string // outside name of what is /tmp inside
	srv  *Server
	tz   string
	cwd  string
}

func newBox() *Box {
	base, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "b")
	must(err)
	must(os.Chmod(base, 0755))
	b := &Box{base: base, root: filepath.Join(base, "tmp"), tz: os.Getenv("TZ"), cwd: "/tmp/cwd"}
	must(os.Mkdir(b.root, 0777))
	must(os.Chmod(b.root, 0777|os.ModeSticky))
	b.mkdir("h", 0700)
	b.mkdir("cwd", 0755)
	b.mkdir("bin", 0755)
	return b
}

func (b *Box) remove() { os.RemoveAll(b.base) }

// out: the name outside of a path inside the box
func (b *Box) out(p string) string {
	if strings.HasPrefix(p, "/tmp/") {
		return filepath.Join(b.root, p[5:])
	}
	return filepath.Join(b.root, p)
}

func (b *Box) mkdir(p string, mode os.FileMode) {
	must(os.MkdirAll(b.out(p), mode))
	must(os.Chmod(b.out(p), mode))
	must(os.Chown(b.out(p), boxUid, boxUid))
}

func (b *Box) write(p string, c []byte, mode os.FileMode) {
	q := b.out(p)
	must(os.WriteFile(q, c, mode))
	must(os.Chmod(q, mode))
	must(os.Chown(q, boxUid, boxUid))
}

// own gives a tree to the user, so that nothing but the application itself
// keeps it from changing it
func (b *Box) own(p string) {
	filepath.Walk(b.out(p), func(q string, info os.FileInfo, err error) error {
		must(err)
		return os.Lchown(q, boxUid, boxUid)
	})
}

func (b *Box) install() {
	src, err := os.ReadFile(os.Getenv("VDRV_APP"))
	must(err)
	q := b.out("bin/1pass")
	os.Remove(q)
	b.write("bin/1pass", src, 0755)
}

// link installs the application without copying it: for commands that cannot
// write to it (it belongs to another user).
func (b *Box) link() {
	q := b.out("bin/1pass")
	os.Remove(q)
	if err := os.Link(os.Getenv("VDRV_APP"), q); err != nil {
		b.install()
	}
}

func (b *Box) env() []string {
	return []string{"HOME=/tmp/h", "PATH=/usr/local/bin:/usr/bin:/bin", "TERM=xterm", "LANG=C.UTF-8", "TZ=" + b.tz,
		"SSL_CERT_FILE=/tmp/ca.pem", "SSL_CERT_DIR=/nonexistent"}
}

// command prepares PROGRAM ARGS to run inside the box.
func (b *Box) command(args ...string) *exec.Cmd {
	hosts := filepath.Join(b.base, "hosts")
	ip := "127.0.0.1"
	if b.srv != nil {
		ip = b.srv.ip
		must(os.WriteFile(b.out("ca.pem"), b.srv.ca, 0644))
	}
	must(os.WriteFile(hosts, []byte("127.0.0.1 localhost\n"+ip+" api.github.com github.com objects.githubusercontent.com codeload.github.com\n"), 0644))
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, append([]string{"jail", b.root, hosts, b.cwd}, args...)...)
	cmd.Env = b.env()
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: boxUid, HostID: boxUid, Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: boxUid, HostID: boxUid, Size: 1}},
		Credential:  &syscall.Credential{Uid: boxUid, Gid: boxUid, NoSetGroups: true},
		AmbientCaps: []uintptr{21},
		Pdeathsig:   syscall.SIGKILL,
	}
	return cmd
}

// ---------------------------------------------------------------- snapshots

type fstate struct{ mode, sum string }

// snap: every file below the root of the box. Contents of big files are only
// read when quick is false.
func (b *Box) snap() map[string]fstate {
	m := map[string]fstate{}
	filepath.Walk(b.root, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(b.root, p)
		if rel == "." || rel == "ca.pem" {
			return nil
		}
		if err != nil {
			m[rel] = fstate{"error", err.Error()}
			return nil
		}
		st := fstate{mode: info.Mode().String()}
		if c := classOf(rel); c == "vault" || c == "other" && rel != "h" && rel != "bin" {
			st.mode += " " + info.ModTime().String()
		}
		switch {
		case info.Mode().IsRegular():
			if info.Size() > 1<<20 {
				s := info.Sys().(*syscall.Stat_t)
				st.sum = fmt.Sprintf("%d/%d/%d.%d", s.Ino, s.Size, s.Mtim.Sec, s.Mtim.Nsec)
			} else {
				f, err := os.Open(p)
				if err == nil {
					h := sha256.New()
					io.Copy(h, f)
					f.Close()
					st.sum = hex.EncodeToString(h.Sum(nil)[:12])
				}
			}
		case info.Mode()&os.ModeSymlink != 0:
			st.sum, _ = os.Readlink(p)
		}
		m[rel] = st
		return nil
	})
	return m
}

func diffSnap(a, b map[string]fstate) []string {
	l := []string{}
	for p, x := range b {
		if y, ok := a[p]; !ok || x != y {
			l = append(l, p)
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// strays: files of the box's user in places that anybody may write to.
func strays(since time.Time) []string {
	l := []string{}
	for _, d := range []string{"/var/tmp", "/dev/shm", "/run/lock", "/dev/mqueue"} {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if info, err := e.Info(); err == nil {
				if s, ok := info.Sys().(*syscall.Stat_t); ok && s.Uid == boxUid {
					l = append(l, filepath.Join(d, e.Name()))
				}
			}
		}
	}
	return l
}
