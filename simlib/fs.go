package sim

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated disk. Data written is volatile until synced; see Crash.
type FS struct {
	r     *Run
	Nodes map[string]*Node
	Env   map[string]string
	// On is consulted before every operation; an error is returned to the caller. It may
	// also never return (crash of the process).
	On func(op, name string) error
	// OnWrite decides how many bytes of a write succeed.
	OnWrite func(name string, n int) (int, error)
	// AfterWrite is called when the bytes of a write are on the disk. It may never return.
	AfterWrite func()
	// OnRead decides how many bytes of a read succeed.
	OnRead  func(name string, off, n int) (int, error)
	Opened  []string
	Handles int // open descriptors
	All     []*File
	Epoch   int
	Dead    bool // the process is gone: nothing has any effect
	tmp     int
	ops     int
}

// Node is a file or a directory.
type Node struct {
	Dir     bool
	Data    []byte
	Durable []byte
	// HasDurable tells whether the entry itself would survive a power loss.
	HasDurable bool
	Mode       fs.FileMode
}

func newFS(r *Run) *FS {
	return &FS{r: r, Nodes: map[string]*Node{"/": {Dir: true, HasDurable: true}}, Env: map[string]string{}}
}

// Mkdir and Put prepare the disk.
func (f *FS) Mkdir(name string) {
	for d := clean(name); ; d = path.Dir(d) {
		if f.Nodes[d] == nil {
			f.Nodes[d] = &Node{Dir: true, HasDurable: true}
		}
		if d == "/" {
			return
		}
	}
}

func (f *FS) Put(name string, data []byte) {
	name = clean(name)
	f.Mkdir(path.Dir(name))
	f.Nodes[name] = &Node{Data: append([]byte(nil), data...), Durable: append([]byte(nil), data...), HasDurable: true}
}

func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/cwd/" + name
	}
	return path.Clean(name)
}

// resolve mimics the kernel: every component but the last must be an existing directory.
func (f *FS) resolve(name string) (string, error) {
	if strings.IndexByte(name, 0) >= 0 {
		return "", syscall.EINVAL
	}
	if name == "" {
		return "", syscall.ENOENT
	}
	abs := name
	if !strings.HasPrefix(abs, "/") {
		abs = "/cwd/" + abs
	}
	cur := "/"
	parts := strings.Split(abs, "/")
	for i, p := range parts {
		if p == "" || p == "." {
			if n := f.Nodes[cur]; i == len(parts)-1 && n != nil && !n.Dir {
				return "", syscall.ENOTDIR // trailing slash after a file
			}
			continue
		}
		n := f.Nodes[cur]
		if n == nil {
			return "", syscall.ENOENT
		}
		if !n.Dir {
			return "", syscall.ENOTDIR
		}
		if p == ".." {
			cur = path.Dir(cur)
			continue
		}
		if len(p) > 255 {
			return "", syscall.ENAMETOOLONG
		}
		cur = path.Join(cur, p)
	}
	return cur, nil
}

func curFS() *FS {
	r := Current()
	if r == nil {
		return nil
	}
	return r.FS
}

func (f *FS) op(op, name string) error {
	Y()
	if f.Dead {
		return &fs.PathError{Op: op, Path: name, Err: syscall.EIO}
	}
	f.ops++
	if f.On != nil {
		if err := f.On(op, name); err != nil {
			f.r.Event("disk %s %s: %v", op, name, err)
			return &fs.PathError{Op: op, Path: name, Err: err}
		}
	}
	return nil
}

// File is an open file.
type File struct {
	f      *FS
	name   string
	key    string
	n      *Node
	off    int
	flag   int
	closed bool
	Closes int
	epoch  int
}

func (f *FS) open(op, name string, flag int, perm fs.FileMode) (*File, error) {
	kind := op
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	if err := f.op(kind, name); err != nil {
		return nil, err
	}
	key, err := f.resolve(name)
	if err != nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: err}
	}
	f.Opened = append(f.Opened, key)
	n := f.Nodes[key]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
		}
		if d := f.Nodes[path.Dir(key)]; d == nil {
			return nil, &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
		} else if !d.Dir {
			return nil, &fs.PathError{Op: op, Path: name, Err: syscall.ENOTDIR}
		}
		n = &Node{Mode: perm}
		f.Nodes[key] = n
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, &fs.PathError{Op: op, Path: name, Err: syscall.EEXIST}
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, &fs.PathError{Op: op, Path: name, Err: syscall.EISDIR}
		}
		if flag&os.O_TRUNC != 0 {
			n.Data = nil
		}
	}
	f.Handles++
	h := &File{f: f, name: name, key: key, n: n, flag: flag, epoch: f.Epoch}
	f.All = append(f.All, h)
	f.r.Event("disk %s %s", op, key)
	return h, nil
}

func (h *File) Name() string { return h.name }

func (h *File) Fd() uintptr { return 3 }

func (h *File) Write(b []byte) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if err := h.f.op("write", h.name); err != nil {
		return 0, err
	}
	n := len(b)
	var err error
	if h.f.OnWrite != nil {
		n, err = h.f.OnWrite(h.name, len(b))
	}
	if h.epoch == h.f.Epoch {
		off := h.off
		if h.flag&os.O_APPEND != 0 {
			off = len(h.n.Data)
		}
		for len(h.n.Data) < off {
			h.n.Data = append(h.n.Data, 0)
		}
		h.n.Data = append(h.n.Data[:off:off], append(append([]byte(nil), b[:n]...), tail(h.n.Data, off+n)...)...)
		h.off = off + n
	}
	if h.f.AfterWrite != nil {
		h.f.AfterWrite()
	}
	if n < len(b) && err == nil {
		err = syscall.ENOSPC
	}
	if err != nil {
		h.f.r.Event("disk short write %s %d/%d", h.name, n, len(b))
		return n, &fs.PathError{Op: "write", Path: h.name, Err: err}
	}
	return n, nil
}

func tail(b []byte, off int) []byte {
	if off >= len(b) {
		return nil
	}
	return b[off:]
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) Read(b []byte) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if err := h.f.op("read", h.name); err != nil {
		return 0, err
	}
	if h.n.Dir {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: syscall.EISDIR}
	}
	if h.off >= len(h.n.Data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := len(b)
	if rest := len(h.n.Data) - h.off; n > rest {
		n = rest
	}
	if h.f.OnRead != nil {
		m, err := h.f.OnRead(h.name, h.off, n)
		if err != nil {
			return 0, &fs.PathError{Op: "read", Path: h.name, Err: err}
		}
		n = m
	}
	copy(b, h.n.Data[h.off:h.off+n])
	h.off += n
	return n, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if off >= int64(len(h.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.off = int(offset)
	case io.SeekCurrent:
		h.off += int(offset)
	case io.SeekEnd:
		h.off = len(h.n.Data) + int(offset)
	}
	return int64(h.off), nil
}

func (h *File) Sync() error {
	if h.closed {
		return os.ErrClosed
	}
	if err := h.f.op("sync", h.name); err != nil {
		return err
	}
	h.n.Durable = append([]byte(nil), h.n.Data...)
	h.n.HasDurable = true
	return nil
}

func (h *File) Chmod(m fs.FileMode) error { h.n.Mode = m; return nil }

func (h *File) Truncate(n int64) error {
	if int(n) < len(h.n.Data) {
		h.n.Data = h.n.Data[:n]
	}
	return nil
}

func (h *File) Close() error {
	h.Closes++
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	if h.epoch == h.f.Epoch {
		h.f.Handles--
	}
	h.f.r.Event("disk close %s", h.key)
	if h.f.On != nil && !h.f.Dead {
		if err := h.f.On("close", h.name); err != nil {
			return &fs.PathError{Op: "close", Path: h.name, Err: err}
		}
	}
	return nil
}

// IsClosed tells whether the descriptor is released.
func (h *File) IsClosed() bool { return h.closed }

func (h *File) Stat() (fs.FileInfo, error) {
	if h.closed {
		return nil, os.ErrClosed
	}
	if err := h.f.op("fstat", h.name); err != nil {
		return nil, err
	}
	return info{path.Base(h.key), h.n}, nil
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0o755
	}
	return i.n.Mode
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

var errNoFS = errors.New("sim: disk used outside of a run")

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := curFS()
	if f == nil {
		return nil, errNoFS
	}
	return f.open("open", name, flag, perm)
}

func CreateTemp(dir, pattern string) (*File, error) {
	f := curFS()
	if f == nil {
		return nil, errNoFS
	}
	if dir == "" {
		dir = "/tmp"
	}
	f.tmp++
	uniq := string(rune('a'+f.tmp%26)) + string(rune('a'+f.tmp/26%26)) + string(rune('a'+f.tmp/676%26))
	name := pattern + uniq
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + uniq + pattern[i+1:]
	}
	return f.open("open", path.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func Stat(name string) (fs.FileInfo, error) {
	f := curFS()
	if f == nil {
		return nil, errNoFS
	}
	if err := f.op("stat", name); err != nil {
		return nil, err
	}
	key, err := f.resolve(name)
	if err == nil && f.Nodes[key] == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	return info{path.Base(key), f.Nodes[key]}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func MkdirAll(name string, perm fs.FileMode) error {
	f := curFS()
	if f == nil {
		return errNoFS
	}
	if err := f.op("mkdir", name); err != nil {
		return err
	}
	var missing []string
	for d := clean(name); ; d = path.Dir(d) {
		if n := f.Nodes[d]; n == nil {
			missing = append(missing, d)
		} else if !n.Dir {
			return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
		} else {
			break
		}
	}
	for i := len(missing) - 1; i >= 0; i-- {
		f.Nodes[missing[i]] = &Node{Dir: true, Mode: perm, HasDurable: true}
	}
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	f := curFS()
	if f == nil {
		return errNoFS
	}
	if f.Nodes[clean(name)] != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.EEXIST}
	}
	if n := f.Nodes[path.Dir(clean(name))]; n == nil || !n.Dir {
		err := syscall.ENOTDIR
		if n == nil {
			err = syscall.ENOENT
		}
		return &fs.PathError{Op: "mkdir", Path: name, Err: err}
	}
	return MkdirAll(name, perm)
}

func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Rename(from, to string) error {
	f := curFS()
	if f == nil {
		return errNoFS
	}
	if err := f.op("rename", from); err != nil {
		return err
	}
	a, err := f.resolve(from)
	if err == nil && f.Nodes[a] == nil {
		err = syscall.ENOENT
	}
	var b string
	if err == nil {
		b, err = f.resolve(to)
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	f.Nodes[b] = f.Nodes[a]
	if a != b {
		delete(f.Nodes, a)
	}
	f.r.Event("disk rename %s %s", a, b)
	return nil
}

func Remove(name string) error {
	f := curFS()
	if f == nil {
		return errNoFS
	}
	if err := f.op("remove", name); err != nil {
		return err
	}
	key, err := f.resolve(name)
	if err == nil && f.Nodes[key] == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	delete(f.Nodes, key)
	return nil
}

func RemoveAll(name string) error {
	f := curFS()
	if f == nil {
		return errNoFS
	}
	if err := f.op("remove", name); err != nil {
		return err
	}
	key := clean(name)
	for k := range f.Nodes {
		if k == key || strings.HasPrefix(k, key+"/") {
			delete(f.Nodes, k)
		}
	}
	return nil
}

func Getenv(key string) string {
	if f := curFS(); f != nil {
		return f.Env[key]
	}
	return os.Getenv(key)
}

func LookupEnv(key string) (string, bool) {
	if f := curFS(); f != nil {
		v, ok := f.Env[key]
		return v, ok
	}
	return os.LookupEnv(key)
}

// Kill ends the process which is using the disk: nothing it still does has any effect.
func (f *FS) Kill() { f.Dead = true }

// Revive lets the next process use the disk. With power lost, whatever was not synced is
// kept, missing, cut or replaced by zeros.
func (f *FS) Revive(powerLoss bool) {
	f.Dead = false
	f.Epoch++
	f.Handles = 0 // those of the dead process
	if !powerLoss {
		return
	}
	var names []string
	for k := range f.Nodes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n := f.Nodes[k]
		if n.Dir || n.HasDurable && string(n.Data) == string(n.Durable) {
			continue
		}
		how := f.r.Draw("disk", 4)
		f.r.Event("power loss: %s becomes %s", k, []string{"complete", "old", "cut", "zeros"}[how])
		switch how {
		case 1:
			if !n.HasDurable {
				delete(f.Nodes, k)
				continue
			}
			n.Data = append([]byte(nil), n.Durable...)
		case 2:
			n.Data = append([]byte(nil), n.Data[:f.r.Draw("disk", len(n.Data)+1)]...)
		case 3:
			n.Data = make([]byte, len(n.Data))
		}
		n.Durable, n.HasDurable = append([]byte(nil), n.Data...), true
	}
}

// The functions below make up the rest of what is likely to be used of package os.

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	at := h.off
	h.off = int(off)
	n, err := h.Write(b)
	h.off = at
	return n, err
}

func (h *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{h}, r)
}

func (h *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{h})
}

func Chmod(name string, m fs.FileMode) error {
	h, err := Open(name)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Chmod(m)
}

func UserHomeDir() (string, error) {
	if v := Getenv("HOME"); v != "" {
		return v, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) {
	if v := Getenv("XDG_CACHE_HOME"); v != "" {
		return v, nil
	}
	if v := Getenv("HOME"); v != "" {
		return v + "/.cache", nil
	}
	return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
}
