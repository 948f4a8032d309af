package rt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated file system: an in-memory tree with fault injection.

type Inode struct {
	Data   []byte
	Dir    bool
	Mode   fs.FileMode
	Nlink  int
	Opens  int
	Serial int
	Mtime  time.Time
	Gen    int // the process that made it
}

// FaultPlan is one planned fault: at the Nth operation of kind Op (counted from 0),
// for Span operations (0: every later one, until healed).
type FaultPlan struct {
	Op    string // create write read seek close remove stat mkdir
	Nth   int
	Kind  string // see inject
	Span  int
	Arg   int
	fired int
}

type FS struct {
	Reaps    int // times a directory was emptied and removed from outside
	s        *Sim
	nodes    map[string]*Inode
	serial   int
	nameCtr  int
	Plans    []*FaultPlan
	opCount  map[string]int
	Fired    map[string]int // kind -> how often it fired
	Capacity int64          // bytes of file data the disk can hold; <0: unlimited
	used     int64
	Ops      int64
	Handles  int             // open file handles
	Touched  map[string]bool // every path ever created
	Created  []string
	Healed   bool
	FaultLog []string
	MaxFile  map[string]int64
	CrashAt  int64 // the operation at which the process dies, counted as Ops; 0: none
	CrashArg int   // what is left of a write it dies in
	Dead     bool
	Foreign  []string // files opened that another process made
	Exposed  []string // files and directories made, or changed to be, accessible to other users
	gen      int      // of the process that has files open
}

// Crash is the panic that ends a process.
type Crash struct{ Op string }

func (c *Crash) Error() string { return "the process died during " + c.Op }

func (f *FS) die(kind string) {
	f.Dead = true
	f.Fired["crash:"+kind]++
	panic(&Crash{kind})
}

// Restart is what the death of the process leaves: the files, no handle.
func (f *FS) Restart() {
	f.Dead, f.CrashAt, f.Handles = false, 0, 0
	f.gen++
	f.used = 0
	f.opCount, f.Plans = map[string]int{}, nil
	for _, n := range f.nodes {
		n.Opens = 0
		f.used += int64(len(n.Data))
	}
}

// SameNames makes temporary names come again in the same order.
func (f *FS) SameNames() { f.nameCtr = 0 }

// Put makes a file from outside.
func (f *FS) Put(p string, data []byte) {
	p = Clean(p)
	for d := path.Dir(p); f.nodes[d] == nil; d = path.Dir(d) {
		f.nodes[d] = &Inode{Dir: true, Mode: 0700, Nlink: 1}
	}
	f.serial++
	f.nodes[p] = &Inode{Mode: 0600, Nlink: 1, Serial: f.serial, Data: append([]byte(nil), data...), Mtime: f.now(), Gen: -1}
	f.used += int64(len(data))
}

// Epoch is what the simulated clock shows at the start, unless it is off.
var Epoch = time.Unix(1600000000, 0).UTC()

// now is the clock, without a reading that moves it.
func (f *FS) now() time.Time {
	if f.s == nil {
		return Epoch
	}
	return Epoch.Add(f.s.Epoch + f.s.Now)
}

func NewFS(s *Sim) *FS {
	f := &FS{s: s, nodes: map[string]*Inode{}, opCount: map[string]int{}, Fired: map[string]int{}, Capacity: -1, Touched: map[string]bool{}, MaxFile: map[string]int64{}}
	f.nodes["/"] = &Inode{Dir: true, Mode: 0755}
	f.nodes["/tmp"] = &Inode{Dir: true, Mode: 0777}
	return f
}

func Clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

var errIO = syscall.EIO

// op counts an operation and returns the fault planned for it, if any.
func (f *FS) op(kind string) *FaultPlan {
	f.Ops++
	n := f.opCount[kind]
	f.opCount[kind] = n + 1
	if f.s != nil {
		Y(-20)
	}
	if f.Dead {
		return &FaultPlan{Op: kind, Kind: "eio"}
	}
	if f.CrashAt > 0 && f.Ops >= f.CrashAt {
		f.die(kind)
	}
	if f.Healed {
		return nil
	}
	for _, p := range f.Plans {
		if p.Op != kind || n < p.Nth || (p.Span > 0 && n >= p.Nth+p.Span) {
			continue
		}
		p.fired++
		f.Fired[p.Op+":"+p.Kind]++
		if len(f.FaultLog) < 200 {
			f.FaultLog = append(f.FaultLog, fmt.Sprintf("%s#%d:%s", kind, n, p.Kind))
		}
		return p
	}
	return nil
}

func (f *FS) FiredTotal() int {
	n := 0
	for _, v := range f.Fired {
		n += v
	}
	return n
}

func errnoFor(kind string) error {
	switch kind {
	case "enospc":
		return syscall.ENOSPC
	case "emfile":
		return syscall.EMFILE
	case "eacces":
		return syscall.EACCES
	case "erofs":
		return syscall.EROFS
	case "einval":
		return syscall.EINVAL
	case "ebusy":
		return syscall.EBUSY
	case "edquot":
		return syscall.EDQUOT
	}
	return errIO
}

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func (f *FS) parentOK(p string) error {
	d := path.Dir(p)
	n := f.nodes[d]
	if n == nil {
		return syscall.ENOENT
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	return nil
}

func (f *FS) note(p string) {
	f.Touched[p] = true
	f.Created = append(f.Created, p)
}

// Reap removes a directory and all that is below it, as a tmp cleaner would.
func (f *FS) Reap(dir string) {
	f.Reaps++
	f.removeTree(dir)
}

func (f *FS) removeTree(dir string) {
	dir = Clean(dir)
	for p := range f.nodes {
		if p == dir || strings.HasPrefix(p, dir+"/") {
			f.drop(p)
		}
	}
}

func (f *FS) drop(p string) {
	n := f.nodes[p]
	if n == nil {
		return
	}
	delete(f.nodes, p)
	n.Nlink--
	if n.Nlink <= 0 && n.Opens == 0 {
		f.used -= int64(len(n.Data))
	}
}

// Files lists the paths of all regular files, sorted.
func (f *FS) Files() []string {
	var r []string
	for p, n := range f.nodes {
		if !n.Dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

func (f *FS) Node(p string) *Inode { return f.nodes[Clean(p)] }

func (f *FS) Stat(op, name string) (*Inode, error) {
	p := Clean(name)
	if pl := f.op("stat"); pl != nil {
		return nil, pathErr(op, name, errnoFor(pl.Kind))
	}
	n := f.nodes[p]
	if n == nil {
		return nil, pathErr(op, name, syscall.ENOENT)
	}
	return n, nil
}

func (f *FS) exposed(p string, perm fs.FileMode) {
	if perm&0077 != 0 {
		f.Exposed = append(f.Exposed, fmt.Sprintf("%s (mode %#o)", p, perm.Perm()))
	}
}

// Chmod changes the permissions of a node.
func (f *FS) Chmod(name string, mode fs.FileMode) {
	if n := f.nodes[Clean(name)]; n != nil {
		n.Mode = n.Mode&^0777 | mode.Perm()
		f.exposed(Clean(name), mode)
	}
}

func (f *FS) Mkdir(name string, all bool, perm fs.FileMode) error {
	p := Clean(name)
	if pl := f.op("mkdir"); pl != nil {
		return pathErr("mkdir", name, errnoFor(pl.Kind))
	}
	if n := f.nodes[p]; n != nil {
		if all && n.Dir {
			return nil
		}
		if all {
			return pathErr("mkdir", name, syscall.ENOTDIR)
		}
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	if err := f.parentOK(p); err != nil {
		if !all || err == syscall.ENOTDIR {
			return pathErr("mkdir", name, err)
		}
		// create the parents (without further faults)
		var miss []string
		for d := path.Dir(p); f.nodes[d] == nil; d = path.Dir(d) {
			miss = append(miss, d)
		}
		for i := len(miss) - 1; i >= 0; i-- {
			f.nodes[miss[i]] = &Inode{Dir: true, Mode: perm, Nlink: 1}
			f.exposed(miss[i], perm)
		}
	}
	f.nodes[p] = &Inode{Dir: true, Mode: perm, Nlink: 1}
	f.exposed(p, perm)
	return nil
}

const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oAPPEND = syscall.O_APPEND
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
)

func (f *FS) Open(name string, flag int, perm fs.FileMode) (*File, error) {
	p := Clean(name)
	kind := "open"
	if flag&oCREATE != 0 {
		kind = "create"
	}
	if pl := f.op(kind); pl != nil {
		if pl.Kind == "enoent" {
			f.Reap(path.Dir(p))
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		return nil, pathErr("open", name, errnoFor(pl.Kind))
	}
	n := f.nodes[p]
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if err := f.parentOK(p); err != nil {
			f.Fired["create:directory-gone"]++
			return nil, pathErr("open", name, err)
		}
		f.serial++
		n = &Inode{Mode: perm, Nlink: 1, Serial: f.serial, Mtime: f.now(), Gen: f.gen}
		f.nodes[p] = n
		f.exposed(p, perm)
		f.note(p)
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return nil, pathErr("open", name, syscall.EEXIST)
	} else if n.Dir && flag&(oWRONLY|oRDWR) != 0 {
		return nil, pathErr("open", name, syscall.EISDIR)
	}
	if !n.Dir && n.Gen != f.gen {
		f.Foreign = append(f.Foreign, p)
	}
	if flag&oTRUNC != 0 && !n.Dir {
		n.Mtime = f.now()
		f.used -= int64(len(n.Data))
		n.Data = nil
	}
	n.Opens++
	f.Handles++
	return &File{fs: f, n: n, name: name, path: p, flag: flag, gen: f.gen}, nil
}

// TempName makes the next temporary name for a pattern as os.CreateTemp does; the
// "random" part is a counter.
func (f *FS) TempName(dir, pattern string) (string, error) {
	if strings.Contains(pattern, "/") {
		return "", pathErr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	f.nameCtr++
	return strings.TrimSuffix(dir, "/") + "/" + pre + fmt.Sprintf("%010d", mix(uint64(f.nameCtr))%10000000000) + suf, nil
}

func (f *FS) Remove(name string) error {
	p := Clean(name)
	if pl := f.op("remove"); pl != nil {
		return pathErr("remove", name, errnoFor(pl.Kind))
	}
	n := f.nodes[p]
	if n == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	if n.Dir {
		for q := range f.nodes {
			if strings.HasPrefix(q, p+"/") {
				return pathErr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	f.drop(p)
	return nil
}

func (f *FS) RemoveAll(name string) error {
	if pl := f.op("remove"); pl != nil {
		return pathErr("unlinkat", name, errnoFor(pl.Kind))
	}
	f.removeTree(name)
	return nil
}

func (f *FS) Rename(a, b string) error {
	pa, pb := Clean(a), Clean(b)
	if pl := f.op("rename"); pl != nil {
		return pathErr("rename", a, errnoFor(pl.Kind))
	}
	n := f.nodes[pa]
	if n == nil {
		return &fs.PathError{Op: "rename", Path: a, Err: syscall.ENOENT}
	}
	if err := f.parentOK(pb); err != nil {
		return &fs.PathError{Op: "rename", Path: b, Err: err}
	}
	f.drop(pb)
	delete(f.nodes, pa)
	f.nodes[pb] = n
	f.note(pb)
	return nil
}

func (f *FS) List(dir string) []string {
	d := Clean(dir)
	var r []string
	for p := range f.nodes {
		if p != d && path.Dir(p) == d {
			r = append(r, path.Base(p))
		}
	}
	sort.Strings(r)
	return r
}

// File is an open simulated file.
type File struct {
	fs     *FS
	n      *Inode
	name   string
	path   string
	gen    int
	flag   int
	off    int64
	closed bool
	null   io.Writer // Stdout, Stderr: writes are discarded
}

func NullFile(name string) *File { return &File{name: name, null: io.Discard, fs: nil} }

func (f *File) Name() string { return f.name } // panics on a nil *File, as os.File does

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed || f.fs != nil && f.gen != f.fs.gen {
		return pathErr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) pwrite(p []byte, off int64) (int, error) {
	if f.null != nil {
		return len(p), nil
	}
	if f.flag&(oWRONLY|oRDWR) == 0 {
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	want := len(p)
	var ferr error
	if c := f.fs.CrashAt; c > 0 && f.fs.Ops+1 >= c && !f.fs.Dead { // dies half-way
		p = p[:f.fs.CrashArg%(len(p)+1)]
		f.fs.CrashAt = 0
		defer f.fs.die("write")
	}
	if pl := f.fs.op("write"); pl != nil {
		ferr = errnoFor(pl.Kind)
		keep := 0
		if pl.Arg > 0 && len(p) > 0 { // short write before the error
			keep = pl.Arg % (len(p) + 1)
			if keep == len(p) {
				keep--
			}
		}
		if keep > 0 {
			f.fs.Fired["write:short"]++
		}
		p = p[:keep]
	}
	end := off + int64(len(p))
	grow := end - int64(len(f.n.Data))
	if grow > 0 && f.fs.Capacity >= 0 && f.fs.used+grow > f.fs.Capacity {
		room := f.fs.Capacity - f.fs.used
		if room < 0 {
			room = 0
		}
		if !f.fs.Healed {
			f.fs.Fired["write:diskfull"]++
			ferr = syscall.ENOSPC
			cut := int64(len(f.n.Data)) + room - off
			if cut < 0 {
				cut = 0
			}
			if cut < int64(len(p)) {
				p = p[:cut]
			}
			end = off + int64(len(p))
			grow = end - int64(len(f.n.Data))
		}
	}
	if len(p) > 0 {
		if grow > 0 {
			f.fs.used += grow
			f.n.Data = append(f.n.Data, make([]byte, grow)...)
		}
		copy(f.n.Data[off:], p)
		f.n.Mtime = f.fs.now()
		if int64(len(f.n.Data)) > f.fs.MaxFile[f.path] {
			f.fs.MaxFile[f.path] = int64(len(f.n.Data))
		}
	}
	if ferr == nil && len(p) < want {
		ferr = syscall.ENOSPC
	}
	if ferr != nil {
		return len(p), pathErr("write", f.name, ferr)
	}
	return len(p), nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	off := f.off
	if f.flag&oAPPEND != 0 {
		off = int64(len(f.n.Data))
	}
	n, err := f.pwrite(p, off)
	if f.null == nil {
		f.off = off + int64(n)
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.pwrite(p, off)
}

func (f *File) pread(p []byte, off int64) (int, error) {
	if f.null != nil {
		return 0, io.EOF
	}
	if f.n.Dir {
		return 0, pathErr("read", f.name, syscall.EISDIR)
	}
	if f.flag&oWRONLY != 0 {
		return 0, pathErr("read", f.name, syscall.EBADF)
	}
	pl := f.fs.op("read")
	if pl != nil && pl.Kind != "short" {
		return 0, pathErr("read", f.name, errnoFor(pl.Kind))
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	if pl != nil && len(p) > 1 {
		p = p[:1+pl.Arg%(len(p)-1)]
	}
	return copy(p, f.n.Data[off:]), nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n, err := f.pread(p, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for len(p) > 0 {
		n, err := f.pread(p, off)
		t += n
		p = p[n:]
		off += int64(n)
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.null != nil {
		return 0, pathErr("seek", f.name, syscall.ESPIPE)
	}
	if pl := f.fs.op("seek"); pl != nil {
		return 0, pathErr("seek", f.name, errnoFor(pl.Kind))
	}
	n := off
	switch whence {
	case 0:
	case 1:
		n += f.off
	case 2:
		n += int64(len(f.n.Data))
	default:
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	if n < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.off = n
	return n, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if pl := f.fs.op("truncate"); pl != nil {
		return pathErr("truncate", f.name, errnoFor(pl.Kind))
	}
	d := size - int64(len(f.n.Data))
	f.fs.used += d
	f.n.Mtime = f.fs.now()
	if d <= 0 {
		f.n.Data = f.n.Data[:size:size]
	} else {
		f.n.Data = append(f.n.Data, make([]byte, d)...)
	}
	return nil
}

func (f *File) Sync() error { return f.check("sync") }

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed || f.fs != nil && f.gen != f.fs.gen {
		return pathErr("close", f.name, fs.ErrClosed)
	}
	if f.null != nil {
		return nil
	}
	pl := f.fs.op("close")
	f.closed = true // as with close(2), the descriptor is gone even when close fails
	f.n.Opens--
	f.fs.Handles--
	if f.n.Opens == 0 && f.n.Nlink <= 0 {
		f.fs.used -= int64(len(f.n.Data))
	}
	if pl != nil {
		return pathErr("close", f.name, errnoFor(pl.Kind))
	}
	return nil
}

func (f *File) Fd() uintptr { return ^uintptr(0) }
func (f *File) Chmod(m fs.FileMode) error {
	err := f.check("chmod")
	if err == nil && f.n != nil {
		f.n.Mode = f.n.Mode&^0777 | m.Perm()
		f.fs.exposed(f.name, m)
	}
	return err
}

func (f *File) Chown(int, int) error                  { return f.check("chown") }
func (f *File) SetDeadline(time.Time) error           { return fs.ErrInvalid }
func (f *File) SetReadDeadline(time.Time) error       { return fs.ErrInvalid }
func (f *File) SetWriteDeadline(time.Time) error      { return fs.ErrInvalid }
func (f *File) Chdir() error                          { return fs.ErrInvalid }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, fs.ErrInvalid }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.null != nil {
		return nil, fs.ErrInvalid
	}
	if pl := f.fs.op("stat"); pl != nil {
		return nil, pathErr("stat", f.name, errnoFor(pl.Kind))
	}
	return Info(f.name, f.n), nil
}

// dirents are the next n entries, all of them for n <= 0.
func (f *File) dirents(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if pl := f.fs.op("readdir"); pl != nil {
		return nil, pathErr("readdir", f.name, errnoFor(pl.Kind))
	}
	if f.null != nil || !f.n.Dir {
		return nil, pathErr("readdir", f.name, syscall.ENOTDIR)
	}
	l := f.fs.List(f.path)
	if f.off < int64(len(l)) {
		l = l[f.off:]
	} else {
		l = nil
	}
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.off += int64(len(l))
	return l, nil
}

func (f *File) Readdirnames(n int) ([]string, error) { return f.dirents(n) }
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.dirents(n)
	var r []fs.FileInfo
	for _, x := range l {
		r = append(r, Info(x, f.fs.nodes[path.Join(f.path, x)]))
	}
	return r, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := f.dirents(n)
	var r []fs.DirEntry
	for _, x := range l {
		r = append(r, fs.FileInfoToDirEntry(Info(x, f.fs.nodes[path.Join(f.path, x)])))
	}
	return r, err
}

type info struct {
	name string
	n    *Inode
	size int64
}

func Info(name string, n *Inode) fs.FileInfo { return &info{path.Base(name), n, int64(len(n.Data))} }

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | i.n.Mode.Perm()
	}
	return i.n.Mode
}
func (i *info) ModTime() time.Time { return i.n.Mtime }
func (i *info) IsDir() bool        { return i.n.Dir }
func (i *info) Sys() interface{}   { return nil }

// SkipNames leaves out n temporary names.
func (f *FS) SkipNames(n int) { f.nameCtr += n }
