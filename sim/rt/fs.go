package rt

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BurntSushi/toml"
)

// Disk is an in-memory file system.  It survives the death of the processes
// using it; a power loss additionally cuts every file back towards what was
// last synced.
type Disk struct {
	files map[string]*inode
	tmpN  int
	// Hook is asked before every operation and may order a fault.
	Hook func(n *Node, op, path string, size int) *DiskFault
	Ops  int
	// OnWrite sees what a program tries to write, and how much of it arrives.
	OnWrite func(n *Node, path string, off int64, data []byte, part int)
	// OnRename sees a file replacing another.
	OnRename func(from, to string)
	// Free is the space left in bytes, negative for no limit.
	Free int64
}

type inode struct {
	data   []byte
	dir    bool
	mode   fs.FileMode
	synced int
}

// DiskFault is the outcome ordered for one operation.
type DiskFault struct {
	Err   error         // error returned to the caller
	Part  int           // bytes really transferred before the error (-1: all)
	Delay time.Duration // time the operation takes
	Kill  bool          // the process dies at this point
	Short bool          // read: return only Part bytes, no error
}

// NewDisk makes an empty disk.
func NewDisk() *Disk {
	return &Disk{files: map[string]*inode{"/": {dir: true, mode: fs.ModeDir | 0o755}, "/tmp": {dir: true, mode: fs.ModeDir | 0o755}}, Free: -1}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

// Put writes a file directly, creating directories.
func (d *Disk) Put(p string, b []byte) {
	p = clean(p)
	d.mkAll(path.Dir(p))
	d.files[p] = &inode{data: append([]byte{}, b...), mode: 0o644, synced: len(b)}
}

// Get returns a file's content.
func (d *Disk) Get(p string) ([]byte, bool) {
	f := d.files[clean(p)]
	if f == nil || f.dir {
		return nil, false
	}
	return f.data, true
}

// Mkdir creates a directory directly.
func (d *Disk) Mkdir(p string) { d.mkAll(clean(p)) }

// Del removes a file directly.
func (d *Disk) Del(p string) { delete(d.files, clean(p)) }

// List returns the names of all files, sorted.
func (d *Disk) List() []string {
	var r []string
	for k, f := range d.files {
		if !f.dir {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// Clone copies the disk.
func (d *Disk) Clone() *Disk {
	c := NewDisk()
	for k, f := range d.files {
		g := *f
		g.data = append([]byte{}, f.data...)
		c.files[k] = &g
	}
	return c
}

// PowerLoss cuts every file to a length chosen between the synced prefix and
// the current content.
func (d *Disk) PowerLoss(choose func(path string, synced, cur int) int) {
	for _, k := range d.List() {
		f := d.files[k]
		if f.synced < len(f.data) {
			n := choose(k, f.synced, len(f.data))
			f.data = f.data[:n]
		}
		f.synced = len(f.data)
	}
}

func (d *Disk) mkAll(p string) {
	for q := p; ; q = path.Dir(q) {
		if d.files[q] == nil {
			d.files[q] = &inode{dir: true, mode: fs.ModeDir | 0o755}
		}
		if q == "/" || q == "." {
			return
		}
	}
}

func disk() *Disk {
	n := me()
	if n == nil {
		return NewDisk()
	}
	if n.Disk == nil {
		n.Disk = NewDisk()
	}
	return n.Disk
}

// op runs the fault hook; part is how many of size bytes take effect.
func (d *Disk) op(name, p string, size int) (part int, err error) {
	part = size
	if inert() {
		return
	}
	S.point()
	d.Ops++
	// code that is not instrumented may repeat an operation for ever
	if budget -= 500; budget < 0 {
		yieldSlow()
	}
	if d.Hook == nil {
		return
	}
	f := d.Hook(me(), name, p, size)
	if f == nil {
		return
	}
	if f.Delay > 0 {
		S.Count("fault:disk-slow")
		S.sleep(f.Delay)
	}
	if f.Err != nil || f.Kill || f.Short {
		part = f.Part
		if part < 0 || part > size {
			part = size
		}
		if f.Kill {
			return part, errKill
		}
		if f.Err != nil {
			return part, &fs.PathError{Op: name, Path: p, Err: f.Err}
		}
	}
	return
}

var errKill = fmt.Errorf("killed")

// die kills the current process inside a disk operation.
func dieNow() {
	n := me()
	S.Tracef("crash of %s during disk I/O", n.name)
	n.Killed = true
	n.ExitCode = 137
	S.dieHere(n)
}

// OsFile stands in for os.File.
type OsFile struct {
	name   string
	sink   *strings.Builder
	node   *Node
	stdin  bool
	d      *Disk
	ino    *inode
	path   string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	dirPos int
	wmu    SyncMutex // writes through one handle exclude each other
}

func (f *OsFile) Name() string { return f.name }
func (f *OsFile) Fd() uintptr  { return 3 }

func (f *OsFile) err(op string, e error) error { return &fs.PathError{Op: op, Path: f.name, Err: e} }

func (f *OsFile) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.sink != nil {
		if S != nil && !S.over && f.sink.Len() < 1<<20 {
			f.sink.Write(b)
		}
		return len(b), nil
	}
	if inert() {
		return len(b), nil
	}
	if f.closed {
		return 0, f.err("write", fs.ErrClosed)
	}
	if !f.wr {
		return 0, f.err("write", syscall.EBADF)
	}
	f.wmu.enter()
	defer f.wmu.leave()
	if f.app {
		f.pos = int64(len(f.ino.data))
	}
	n, e := f.writeAt(b, f.pos)
	f.pos += int64(n)
	return n, e
}

func (f *OsFile) writeAt(b []byte, off int64) (int, error) {
	part, e := f.d.op("write", f.path, len(b))
	if f.d.Free >= 0 {
		grow := off + int64(part) - int64(len(f.ino.data))
		if grow > f.d.Free {
			part -= int(grow - f.d.Free)
			if part < 0 {
				part = 0
			}
			if e == nil {
				e = f.err("write", syscall.ENOSPC)
				S.Count("fault:disk-full")
			}
		}
	}
	if f.d.OnWrite != nil {
		f.d.OnWrite(me(), f.path, off, b, part)
	}
	end := off + int64(part)
	if end > int64(len(f.ino.data)) {
		if f.d.Free >= 0 {
			f.d.Free -= end - int64(len(f.ino.data))
		}
		if end > int64(cap(f.ino.data)) {
			nd := make([]byte, end, 2*end+64)
			copy(nd, f.ino.data)
			f.ino.data = nd
		} else {
			f.ino.data = f.ino.data[:end]
		}
	}
	copy(f.ino.data[off:], b[:part])
	if int(off) < f.ino.synced {
		f.ino.synced = int(off)
	}
	if e == errKill {
		dieNow()
	}
	return part, e
}

func (f *OsFile) WriteAt(b []byte, off int64) (int, error) {
	if inert() {
		return len(b), nil
	}
	if f.closed {
		return 0, f.err("write", fs.ErrClosed)
	}
	return f.writeAt(b, off)
}

func (f *OsFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *OsFile) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.stdin {
		n := copy(b, f.node.stdin)
		f.node.stdin = f.node.stdin[n:]
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if inert() {
		return 0, io.EOF
	}
	if f.closed {
		return 0, f.err("read", fs.ErrClosed)
	}
	n, e := f.readAt(b, f.pos)
	f.pos += int64(n)
	return n, e
}

func (f *OsFile) readAt(b []byte, off int64) (int, error) {
	if f.ino.dir {
		return 0, f.err("read", syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	avail := int64(len(f.ino.data)) - off
	if avail < 0 {
		avail = 0
	}
	n := int64(len(b))
	if n > avail {
		n = avail
	}
	part, e := f.d.op("read", f.path, int(n))
	if e == errKill {
		dieNow()
	}
	if e == nil && part < int(n) && part <= 0 {
		part = 1 // a short read makes progress
	}
	if avail2 := int64(len(f.ino.data)) - off; int64(part) > avail2 {
		part = int(max64(0, avail2))
	}
	copy(b, f.ino.data[off:off+int64(part)])
	if e != nil {
		return part, e
	}
	if part == 0 {
		return 0, io.EOF
	}
	return part, nil
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (f *OsFile) ReadAt(b []byte, off int64) (int, error) {
	if inert() {
		return 0, io.EOF
	}
	if f.closed {
		return 0, f.err("read", fs.ErrClosed)
	}
	t := 0
	for t < len(b) {
		n, e := f.readAt(b[t:], off+int64(t))
		t += n
		if e != nil {
			return t, e
		}
	}
	return t, nil
}

func (f *OsFile) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, f.err("seek", fs.ErrClosed)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, f.err("seek", syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *OsFile) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.sink != nil || f.stdin || inert() {
		return nil
	}
	if f.closed {
		return f.err("close", fs.ErrClosed)
	}
	_, e := f.d.op("close", f.path, 0)
	if e == errKill {
		dieNow()
	}
	f.closed = true
	return e
}

func (f *OsFile) Sync() error {
	if f.sink != nil || inert() {
		return nil
	}
	if f.closed {
		return f.err("sync", fs.ErrClosed)
	}
	_, e := f.d.op("sync", f.path, 0)
	if e == errKill {
		dieNow()
	}
	if e == nil {
		f.ino.synced = len(f.ino.data)
	}
	return e
}

func (f *OsFile) Truncate(n int64) error {
	_, e := f.d.op("truncate", f.path, 0)
	if e == errKill {
		dieNow()
	}
	if e != nil {
		return e
	}
	f.ino.resize(n)
	return nil
}

func (i *inode) resize(n int64) {
	for int64(len(i.data)) < n {
		i.data = append(i.data, 0)
	}
	i.data = i.data[:n]
	if i.synced > int(n) {
		i.synced = int(n)
	}
}

func (f *OsFile) Chmod(m fs.FileMode) error     { f.ino.mode = m; return nil }
func (f *OsFile) SetDeadline(t time.Time) error { return nil }

func (f *OsFile) Stat() (fs.FileInfo, error) {
	if f.sink != nil || f.stdin {
		return &finfo{name: f.name, ino: &inode{mode: fs.ModeCharDevice}}, nil
	}
	return &finfo{name: path.Base(f.path), ino: f.ino}, nil
}

func (f *OsFile) ReadDir(n int) ([]fs.DirEntry, error) {
	es, err := osReadDir(f.d, f.path)
	if err != nil {
		return nil, err
	}
	// a directory is read in the order of the file system, which differs from
	// machine to machine
	n0 := me()
	key := func(name string) uint64 {
		h := n0.sim.seed ^ 0xcbf29ce484222325
		for _, c := range []byte(n0.name + "/" + name) {
			h = (h ^ uint64(c)) * 0x100000001b3
		}
		return h ^ h>>29
	}
	sort.SliceStable(es, func(i, j int) bool { return key(es[i].Name()) < key(es[j].Name()) })
	es = es[f.dirPos:]
	if n > 0 && len(es) == 0 {
		return nil, io.EOF
	}
	if n > 0 && len(es) > n {
		es = es[:n]
	}
	f.dirPos += len(es)
	return es, nil
}

func (f *OsFile) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *OsFile) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type finfo struct {
	name string
	ino  *inode
}

func (i *finfo) Name() string               { return i.name }
func (i *finfo) Size() int64                { return int64(len(i.ino.data)) }
func (i *finfo) Mode() fs.FileMode          { return i.ino.mode }
func (i *finfo) ModTime() time.Time         { return time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC) }
func (i *finfo) IsDir() bool                { return i.ino.dir }
func (i *finfo) Sys() interface{}           { return nil }
func (i *finfo) Type() fs.FileMode          { return i.ino.mode.Type() }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }

func pathErr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func OsOpen(name string) (*OsFile, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*OsFile, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OsOpenFile(name string, flag int, perm fs.FileMode) (*OsFile, error) {
	d := disk()
	if inert() {
		return nil, pathErr("open", name, syscall.EINTR)
	}
	p := clean(name)
	if name == "" {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	_, e := d.op("open", p, 0)
	if e == errKill {
		dieNow()
	}
	if e != nil {
		return nil, e
	}
	ino := d.files[p]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		par := d.files[path.Dir(p)]
		if par == nil {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if !par.dir {
			return nil, pathErr("open", name, syscall.ENOTDIR)
		}
		ino = &inode{mode: perm}
		d.files[p] = ino
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, pathErr("open", name, syscall.EEXIST)
		}
		if ino.dir && acc != os.O_RDONLY {
			return nil, pathErr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !ino.dir {
			if d.Free >= 0 {
				d.Free += int64(len(ino.data))
			}
			ino.data = nil
			ino.synced = 0
		}
	}
	return &OsFile{name: name, node: me(), d: d, ino: ino, path: p, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}, nil
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 8192)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if inert() {
			return out, io.ErrUnexpectedEOF
		}
	}
}

func OsWriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func osReadDir(d *Disk, p string) ([]fs.DirEntry, error) {
	ino := d.files[p]
	if ino == nil {
		return nil, pathErr("open", p, syscall.ENOENT)
	}
	if !ino.dir {
		return nil, pathErr("readdirent", p, syscall.ENOTDIR)
	}
	var names []string
	for k := range d.files {
		if k != "/" && path.Dir(k) == p {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var r []fs.DirEntry
	for _, k := range names {
		r = append(r, &finfo{name: path.Base(k), ino: d.files[k]})
	}
	return r, nil
}

func OsReadDir(name string) ([]fs.DirEntry, error) {
	d := disk()
	p := clean(name)
	_, e := d.op("readdir", p, 0)
	if e == errKill {
		dieNow()
	}
	if e != nil {
		return nil, e
	}
	return osReadDir(d, p)
}

func IoutilReadFile(name string) ([]byte, error) { return OsReadFile(name) }
func IoutilWriteFile(name string, b []byte, perm fs.FileMode) error {
	return OsWriteFile(name, b, perm)
}
func IoutilReadDir(name string) ([]fs.FileInfo, error) {
	es, err := OsReadDir(name)
	var r []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
func IoutilTempDir(dir, pattern string) (string, error)   { return OsMkdirTemp(dir, pattern) }
func IoutilTempFile(dir, pattern string) (*OsFile, error) { return OsCreateTemp(dir, pattern) }

func OsChmod(name string, m fs.FileMode) error {
	d := disk()
	ino := d.files[clean(name)]
	if ino == nil {
		return pathErr("chmod", name, syscall.ENOENT)
	}
	ino.mode = ino.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}

func OsTruncate(name string, n int64) error {
	f, err := OsOpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = f.Truncate(n)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func OsGetwd() (string, error)       { return clean("."), nil }
func OsUserHomeDir() (string, error) { return "/root", nil }
func OsExpandEnv(s string) string    { return os.Expand(s, OsGetenv) }

func OsMkdir(name string, perm fs.FileMode) error {
	d := disk()
	p := clean(name)
	if _, e := d.op("mkdir", p, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return e
	}
	if d.files[p] != nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	if par := d.files[path.Dir(p)]; par == nil || !par.dir {
		return pathErr("mkdir", name, syscall.ENOENT)
	}
	d.files[p] = &inode{dir: true, mode: fs.ModeDir | perm}
	return nil
}

func OsMkdirAll(name string, perm fs.FileMode) error {
	d := disk()
	p := clean(name)
	if f := d.files[p]; f != nil {
		if f.dir {
			return nil
		}
		return pathErr("mkdir", name, syscall.ENOTDIR)
	}
	if _, e := d.op("mkdir", p, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return e
	}
	d.mkAll(p)
	return nil
}

func OsRemove(name string) error {
	d := disk()
	p := clean(name)
	if _, e := d.op("remove", p, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return e
	}
	f := d.files[p]
	if f == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	if f.dir {
		for k := range d.files {
			if k != p && strings.HasPrefix(k, p+"/") {
				return pathErr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	if d.Free >= 0 {
		d.Free += int64(len(f.data))
	}
	delete(d.files, p)
	return nil
}

func OsRemoveAll(name string) error {
	d := disk()
	p := clean(name)
	if _, e := d.op("remove", p, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return e
	}
	for k := range d.files {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(d.files, k)
		}
	}
	return nil
}

func OsRename(from, to string) error {
	d := disk()
	a, b := clean(from), clean(to)
	if _, e := d.op("rename", a, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return e
	}
	f := d.files[a]
	if f == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.OnRename != nil {
		d.OnRename(a, b)
	}
	if a != b {
		d.files[b] = f
		delete(d.files, a)
	}
	return nil
}

func OsStat(name string) (fs.FileInfo, error) {
	d := disk()
	p := clean(name)
	if _, e := d.op("stat", p, 0); e != nil {
		if e == errKill {
			dieNow()
		}
		return nil, e
	}
	f := d.files[p]
	if f == nil {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return &finfo{name: path.Base(p), ino: f}, nil
}
func OsLstat(name string) (fs.FileInfo, error) { return OsStat(name) }
func OsTempDir() string                        { return "/tmp" }

func tmpName(d *Disk, dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	d.tmpN++
	u := fmt.Sprintf("%09d", d.tmpN)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+u+pattern[i+1:])
	}
	return path.Join(dir, pattern+u)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	d := disk()
	n := tmpName(d, dir, pattern)
	return n, OsMkdir(n, 0o700)
}

func OsCreateTemp(dir, pattern string) (*OsFile, error) {
	d := disk()
	return OsOpenFile(tmpName(d, dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func FilepathGlob(pattern string) ([]string, error) {
	d := disk()
	abs := strings.HasPrefix(pattern, "/")
	var r []string
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	if _, e := d.op("glob", pattern, 0); e == errKill {
		dieNow()
	} else if e != nil {
		return nil, nil // Glob ignores file system errors
	}
	for k := range d.files {
		q := k
		if !abs {
			if !strings.HasPrefix(k, "/work/") {
				continue
			}
			q = strings.TrimPrefix(k, "/work/")
		}
		if ok, _ := path.Match(path.Clean(pattern), q); ok {
			r = append(r, q)
		}
	}
	sort.Strings(r)
	return r, nil
}

func FilepathWalkDir(root string, fn fs.WalkDirFunc) error {
	d := disk()
	p := clean(root)
	f := d.files[p]
	var err error
	if f == nil {
		err = fn(root, nil, pathErr("lstat", root, syscall.ENOENT))
	} else {
		err = walkDir(d, root, p, &finfo{name: path.Base(p), ino: f}, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(d *Disk, shown, p string, e fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(shown, e, nil); err != nil || !e.IsDir() {
		if err == fs.SkipDir && e.IsDir() {
			err = nil
		}
		return err
	}
	_, oe := d.op("readdir", p, 0)
	if oe == errKill {
		dieNow()
	}
	var es []fs.DirEntry
	if oe == nil {
		es, oe = osReadDir(d, p)
	}
	if oe != nil {
		if err := fn(shown, e, oe); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, c := range es {
		if err := walkDir(d, path.Join(shown, c.Name()), path.Join(p, c.Name()), c, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func FilepathWalk(root string, fn func(string, fs.FileInfo, error) error) error {
	return FilepathWalkDir(root, func(p string, e fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if e != nil {
			fi, _ = e.Info()
		}
		return fn(p, fi, err)
	})
}

// TomlDecodeFile is toml.DecodeFile on the simulated disk.
func TomlDecodeFile(p string, v interface{}) (toml.MetaData, error) {
	b, err := OsReadFile(p)
	if err != nil {
		return toml.MetaData{}, err
	}
	return toml.Decode(string(b), v)
}
