package main

// What happens to the files of a directory, step by step, and files that are
// where they should not be.

import (
	"encoding/binary"
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

type fsLog struct {
	fd    int
	dir   string
	wd    int
	final func(name string) bool
	other map[int]string // further directories where nothing is to be made
	made  []strayFile
}

func newFsLog(dir string) *fsLog {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		fmt.Fprintln(os.Stderr, "inotify:", err)
		os.Exit(3)
	}
	f := &fsLog{fd: fd, dir: dir}
	f.watch()
	return f
}
func (f *fsLog) watch() {
	wd, err := syscall.InotifyAddWatch(f.fd, f.dir, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_CLOSE_WRITE|
		syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
	if err != nil {
		fmt.Fprintln(os.Stderr, "inotify:", err)
		os.Exit(3)
	}
	f.wd = wd
}

// guard also reports the files made in a directory where none belong, even if they are gone again
func (f *fsLog) guard(where, dir string) {
	wd, err := syscall.InotifyAddWatch(f.fd, dir, syscall.IN_CREATE|syscall.IN_MOVED_TO)
	if err != nil {
		fmt.Fprintln(os.Stderr, "inotify:", err)
		os.Exit(3)
	}
	if f.other == nil {
		f.other = map[int]string{}
	}
	f.other[wd] = where
}
func (f *fsLog) close() { syscall.Close(f.fd) }

type fsEv struct {
	Op    string `json:"op"`
	Name  string `json:"name"`
	Final bool   `json:"final"`
}

// drain gives the steps since the last time
func (f *fsLog) drain() []fsEv {
	r := []fsEv{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(f.fd, buf)
		if err != nil || n <= 0 {
			return r
		}
		for o := 0; o+16 <= n; {
			wd := int(int32(binary.NativeEndian.Uint32(buf[o:])))
			mask := binary.NativeEndian.Uint32(buf[o+4:])
			l := int(binary.NativeEndian.Uint32(buf[o+12:]))
			name := strings.TrimRight(string(buf[o+16:o+16+l]), "\x00")
			o += 16 + l
			if w, ok := f.other[wd]; ok && mask&(syscall.IN_CREATE|syscall.IN_MOVED_TO) != 0 {
				f.made = append(f.made, strayFile{w, name})
			}
			if wd != f.wd || mask&syscall.IN_ISDIR != 0 {
				continue
			}
			op := ""
			switch {
			case mask&syscall.IN_CREATE != 0:
				op = "create"
			case mask&syscall.IN_MODIFY != 0:
				op = "modify"
			case mask&syscall.IN_CLOSE_WRITE != 0:
				op = "close"
			case mask&syscall.IN_DELETE != 0:
				op = "delete"
			case mask&syscall.IN_MOVED_FROM != 0:
				op = "from"
			case mask&syscall.IN_MOVED_TO != 0:
				op = "to"
			default:
				continue
			}
			e := fsEv{op, name, f.final(name)}
			if len(r) > 0 && r[len(r)-1] == e {
				continue
			}
			r = append(r, e)
		}
	}
}

type strayFile struct {
	Where string `json:"where"`
	Name  string `json:"name"`
}

// strays: everything in the directory of the scenario that is no metadata file
func (c *client) strays() []strayFile {
	r := append([]strayFile{}, c.log.made...)
	c.log.made = nil
	own := map[string]bool{}
	for d := c.md(); len(d) > len(c.base); d = filepath.Dir(d) {
		own[d] = true
	}
	for _, d := range []string{"tmp", "home", "cwd", "a/b/c/targets"} {
		own[filepath.Join(c.base, d)] = true
	}
	filepath.WalkDir(c.base, func(p string, d fs.DirEntry, err error) error {
		if p == c.base || own[p] {
			return nil
		}
		rel, _ := filepath.Rel(c.base, p)
		in := filepath.Dir(p) == c.md()
		if in && strings.HasSuffix(p, ".json") {
			if d.Type().IsRegular() {
				return nil
			}
			if q, e := url.QueryUnescape(strings.TrimSuffix(filepath.Base(p), ".json")); e == nil && d.IsDir() && c.blocked[q] {
				return fs.SkipDir
			}
		}
		where := "else"
		switch {
		case in:
			where = "md"
		case strings.HasPrefix(rel, "tmp/"):
			where = "tmp"
		}
		r = append(r, strayFile{where, rel})
		return nil
	})
	return r
}

// withFileLimit runs f while no file can grow beyond n bytes
func withFileLimit(n int, f func() bool) bool {
	if n <= 0 {
		return f()
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max})
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	return f()
}
