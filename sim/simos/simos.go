// Package simos replaces package os in instrumented code with an in-memory, fault-injecting disk.
//
// Files are inodes with volatile contents (page cache) and durable contents (what the platters hold).
// Sync makes data durable; a crash keeps everything the kernel had accepted; a power loss keeps, per
// 512-byte sector, either the volatile or the durable version, and may also lose the size change, the
// truncation, or the directory entry.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// StdoutSink, if set, receives what the code under test writes to its standard output by itself.
var StdoutSink func([]byte)

// SectorSize is the unit of atomicity of the simulated disk.
const SectorSize = 512

// Inode is one file.
type Inode struct {
	Data    []byte // volatile contents
	Durable []byte // durable contents
	HasDur  bool   // the inode itself is durable
	dirty   map[int]bool
	Writes  int // successful content changes since creation of the disk
	Mode    fs.FileMode
	mtime   int64 // disk events when it last changed
}

// Fault is one planned disk fault. Counters are per operation label (see Disk.Scope).
type Fault struct {
	// Kind: open, create, read, readshort, eof, seek, write, enospc, sync, close, rename, remove, stat
	Kind string `json:"kind"`
	Nth  int    `json:"nth,omitempty"` // the Nth matching call (1-based); 0 for byte-positioned kinds
	At   int64  `json:"at,omitempty"`  // byte position for read/eof (file offset) or write/enospc (bytes accepted)
	Lose bool   `json:"lose,omitempty"`
	// Once: the fault clears after firing once (transient).
	Once bool `json:"once,omitempty"`
	// Err is the error number to fail with instead of the usual one (see errnos).
	Err string `json:"err,omitempty"`
}

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOENT": syscall.ENOENT, "EMFILE": syscall.EMFILE, "EROFS": syscall.EROFS,
	"EISDIR": syscall.EISDIR, "EINTR": syscall.EINTR, "EDQUOT": syscall.EDQUOT, "EFBIG": syscall.EFBIG, "ESTALE": syscall.ESTALE,
	"EAGAIN": syscall.EAGAIN, "ENOSPC": syscall.ENOSPC, "EPERM": syscall.EPERM}

// errno is the error a fault fails with.
func (a *armed) errno(usual syscall.Errno) syscall.Errno {
	if e, ok := errnos[a.Err]; ok {
		return e
	}
	return usual
}

type armed struct {
	Fault
	left  int
	fired int
}

// Disk is the simulated disk of one run.
type Disk struct {
	dir    map[string]*Inode // volatile directory
	durDir map[string]*Inode // durable directory
	Open   map[*File]bool
	MaxOpen,
	Opens int
	Events  int   // I/O events so far (crash clock)
	Epoch   int64 // file times start here (seconds)
	CrashAt int   // crash before the given event (1-based) if > 0
	// TearWrite: at a crash inside a write, keep this fraction (0..256) of the write's bytes.
	TearWrite int
	Crashed   bool
	faults    map[int][]*armed // by scope
	scopeOf   map[int]int      // task -> scope
	// ReadChunk returns how many bytes a read may deliver (policy); nil means all.
	ReadChunk  func(want int) int
	Fired      map[string]int
	Log        []string
	KeepLog    bool
	OutBuf     []byte // what the program printed
	WFired     int    // faults that hit the creation, writing, syncing or closing of a file opened for writing
	MustReport int    // those among them that nothing written later can make up for: syncing, closing
	tmpCtr     int
	WriteOpens []string        // names opened for writing, in order
	Touched    map[string]bool // names written, created, removed, renamed or truncated
}

// D is the current disk; instrumented code talks to it.
var D *Disk

// NewDisk makes an empty disk.
func NewDisk() *Disk {
	return &Disk{dir: map[string]*Inode{}, durDir: map[string]*Inode{}, Open: map[*File]bool{}, faults: map[int][]*armed{}, scopeOf: map[int]int{}, Fired: map[string]int{}, Touched: map[string]bool{}}
}

// Put installs a durable file.
func (d *Disk) Put(name string, data []byte) {
	in := &Inode{Data: append([]byte(nil), data...), Durable: append([]byte(nil), data...), HasDur: true, dirty: map[int]bool{}, Mode: 0o644}
	d.dir[clean(name)] = in
	d.durDir[clean(name)] = in
}

// Get returns the volatile contents of a file.
func (d *Disk) Get(name string) ([]byte, bool) {
	in, ok := d.dir[clean(name)]
	if !ok {
		return nil, false
	}
	return in.Data, true
}

// Inode returns the inode behind a name.
func (d *Disk) Inode(name string) *Inode { return d.dir[clean(name)] }

// Delete removes a file out-of-band.
func (d *Disk) Delete(name string) {
	delete(d.dir, clean(name))
	delete(d.durDir, clean(name))
}

// Names lists the files, sorted.
func (d *Disk) Names() []string {
	var out []string
	for n := range d.dir {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// Scope attaches faults to the running task's current operation. Scope ids are chosen by the engine.
func (d *Disk) Scope(task, scope int, fs []Fault) {
	d.scopeOf[task] = scope
	delete(d.faults, scope)
	for _, f := range fs {
		d.faults[scope] = append(d.faults[scope], &armed{Fault: f, left: f.Nth})
	}
}

// EndScope detaches the faults of a scope and returns how many fired, by kind.
func (d *Disk) EndScope(task, scope int) map[string]int {
	n := map[string]int{}
	for _, a := range d.faults[scope] {
		if a.fired > 0 {
			n[a.Kind] += a.fired
		}
	}
	delete(d.faults, scope)
	return n
}

func (d *Disk) armedFor() []*armed {
	return d.faults[d.scopeOf[rt.CurTask()]]
}

func (d *Disk) log(s string) {
	if d.KeepLog && len(d.Log) < 2000 {
		d.Log = append(d.Log, s)
	}
}

// event advances the crash clock.
func (d *Disk) event() {
	if d.Crashed {
		return
	}
	d.Events++
	if d.CrashAt > 0 && d.Events == d.CrashAt {
		d.Crashed = true
		d.Fired["crash"]++
		d.log("CRASH")
		rt.CrashNow()
	}
}

// nth consumes a call-counted fault of the given kind.
func (d *Disk) nth(kind string) *armed {
	for _, a := range d.armedFor() {
		if a.Kind != kind || a.Nth == 0 {
			continue
		}
		if a.left > 0 {
			a.left--
			if a.left == 0 {
				a.fired++
				d.Fired["disk-"+kind]++
				return a
			}
			continue
		}
		if !a.Once && a.fired > 0 {
			a.fired++
			return a
		}
	}
	return nil
}

// PowerLoss turns the disk into what survives a power failure. choose(n) returns a number in [0,n).
func (d *Disk) PowerLoss(choose func(n int) int) {
	d.Open = map[*File]bool{}
	names := map[string]bool{}
	for n := range d.dir {
		names[n] = true
	}
	for n := range d.durDir {
		names[n] = true
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	nd := map[string]*Inode{}
	done := map[*Inode]bool{}
	for _, n := range ns {
		v, vok := d.dir[n]
		o, ook := d.durDir[n]
		var in *Inode
		switch {
		case vok && ook && v == o:
			in = v
		case vok && (!ook || choose(2) == 0):
			in = v // the directory change reached the disk
		case ook:
			in = o
		default:
			in = nil
		}
		if vok && !ook && choose(3) == 0 {
			in = nil // a new file whose directory entry was lost
		}
		if in == nil {
			continue
		}
		if !done[in] {
			done[in] = true
			in.settle(choose)
		}
		nd[n] = in
	}
	d.dir = nd
	d.durDir = map[string]*Inode{}
	for n, in := range nd {
		d.durDir[n] = in
	}
	d.Fired["powerloss"]++
}

// ProcessCrash turns the disk into what a mere process crash leaves: everything accepted survives.
func (d *Disk) ProcessCrash() { d.Open = map[*File]bool{} }

func (in *Inode) settle(choose func(n int) int) {
	if in.dirty == nil || len(in.dirty) == 0 && len(in.Data) == len(in.Durable) {
		in.Data = append([]byte(nil), in.Durable...)
		in.dirty = map[int]bool{}
		return
	}
	size := len(in.Data)
	mode := choose(6)
	if mode == 0 { // size change lost
		size = len(in.Durable)
	} else if mode == 1 && size > 0 { // size partially extended
		lo := min(len(in.Durable), size)
		size = lo + choose(size-lo+1)
		size = size / SectorSize * SectorSize
	}
	out := make([]byte, size)
	// Ratio of surviving sectors for this loss.
	ratio := []int{0, 8, 4, 2, 8}[choose(5)]
	for s := 0; s*SectorSize < size; s++ {
		lo, hi := s*SectorSize, min(size, (s+1)*SectorSize)
		keepNew := !in.dirty[s]
		if in.dirty[s] {
			switch ratio {
			case 0:
				keepNew = false
			case 8:
				keepNew = choose(8) != 0
			default:
				keepNew = choose(ratio) == 0
			}
		}
		if keepNew {
			if lo < len(in.Data) {
				copy(out[lo:hi], in.Data[lo:min(hi, len(in.Data))])
			}
		} else if lo < len(in.Durable) {
			copy(out[lo:hi], in.Durable[lo:min(hi, len(in.Durable))])
		}
	}
	in.Data = out
	in.Durable = append([]byte(nil), out...)
	in.HasDur = true
	in.dirty = map[int]bool{}
}

func (in *Inode) markDirty(lo, hi int) {
	if in.dirty == nil {
		in.dirty = map[int]bool{}
	}
	for s := lo / SectorSize; s*SectorSize < hi; s++ {
		in.dirty[s] = true
	}
}

func (in *Inode) truncate(n int) {
	if n < len(in.Data) {
		in.markDirty(n, len(in.Data))
		in.Data = in.Data[:n:n]
	} else if n > len(in.Data) {
		in.markDirty(len(in.Data), n)
		in.Data = append(in.Data, make([]byte, n-len(in.Data))...)
	}
	in.Writes++
}

func clean(n string) string { return path.Clean(strings.ReplaceAll(n, "\\", "/")) }

// File mirrors os.File.
type File struct {
	d      *Disk
	in     *Inode
	name   string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	std    int
	wrote  int64
}

// OpenFile mirrors os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := D
	if d == nil {
		return nil, &PathError{Op: "open", Path: name, Err: errors.New("no simulated disk")}
	}
	d.event()
	d.Opens++
	wr := flag&(O_WRONLY|O_RDWR) != 0
	kind := "open"
	if wr || flag&O_CREATE != 0 {
		kind = "create"
	}
	if name == "" {
		return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if a := d.nth(kind); a != nil {
		if kind == "create" {
			d.WFired++
		}
		d.log("open " + name + ": EACCES")
		return nil, &PathError{Op: "open", Path: name, Err: a.errno(syscall.EACCES)}
	}
	key := clean(name)
	in, ok := d.dir[key]
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		in = &Inode{dirty: map[int]bool{}, Mode: 0o644, mtime: int64(d.Events)}
		d.dir[key] = in
		d.Touched[key] = true
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, &PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if flag&O_TRUNC != 0 && wr {
		d.Touched[key] = true
		in.truncate(0)
		in.mtime = int64(d.Events)
	}
	if wr || flag&O_CREATE != 0 {
		d.WriteOpens = append(d.WriteOpens, name)
	}
	f := &File{d: d, in: in, name: name, rd: flag&O_WRONLY == 0, wr: wr, app: flag&O_APPEND != 0}
	d.Open[f] = true
	if len(d.Open) > d.MaxOpen {
		d.MaxOpen = len(d.Open)
	}
	d.log(kind + " " + name)
	return f, nil
}

// Open mirrors os.Open.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create mirrors os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

func (f *File) check(op string) error {
	rt.IO()
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

// Name mirrors os.File.Name.
func (f *File) Name() string { return f.name }

// Fd mirrors os.File.Fd.
func (f *File) Fd() uintptr { return 3 }

func (f *File) readAt(b []byte, off int64, op string) (int, error) {
	d := f.d
	if !f.rd {
		return 0, &PathError{Op: op, Path: f.name, Err: syscall.EBADF}
	}
	d.event()
	if len(b) == 0 {
		return 0, nil
	}
	if a := d.nth("read"); a != nil {
		d.log("read: EIO")
		return 0, &PathError{Op: op, Path: f.name, Err: a.errno(syscall.EIO)}
	}
	size := int64(len(f.in.Data))
	limitErr := error(nil)
	var lim *armed
	for _, a := range d.armedFor() {
		if a.Nth != 0 || (a.Once && a.fired > 0) {
			continue
		}
		switch a.Kind {
		case "eof":
			if a.At < size {
				size = a.At
				limitErr = nil
				lim = a
			}
		case "read":
			if a.At < size {
				size = a.At
				limitErr = &PathError{Op: op, Path: f.name, Err: a.errno(syscall.EIO)}
				lim = a
			}
		}
	}
	if off >= size {
		if lim != nil {
			lim.fired++
			d.Fired["disk-"+lim.Kind]++
		}
		if limitErr != nil {
			d.log("read: EIO at position")
			return 0, limitErr
		}
		return 0, io.EOF
	}
	n := int(min(int64(len(b)), size-off))
	if d.ReadChunk != nil {
		if c := d.ReadChunk(n); c > 0 && c < n {
			n = c
			d.Fired["disk-shortread"]++
		}
	}
	copy(b, f.in.Data[off:off+int64(n)])
	return n, nil
}

// Read mirrors os.File.Read.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	n, err := f.readAt(b, f.pos, "read")
	f.pos += int64(n)
	return n, err
}

// ReadAt mirrors os.File.ReadAt.
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	for len(b) > 0 {
		m, e := f.readAt(b, off, "read")
		if e != nil {
			err = e
			break
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

func (f *File) writeAt(b []byte, off int64, op string) (int, error) {
	d := f.d
	if !f.wr {
		return 0, &PathError{Op: op, Path: f.name, Err: syscall.EBADF}
	}
	crashing := d.CrashAt > 0 && !d.Crashed && d.Events+1 == d.CrashAt
	if crashing && d.TearWrite > 0 && len(b) > 0 {
		f.apply(b[:len(b)*d.TearWrite/256], off)
	}
	d.event()
	if d.Crashed {
		return 0, &PathError{Op: op, Path: f.name, Err: syscall.EIO}
	}
	if a := d.nth("write"); a != nil {
		d.WFired++
		d.log("write: EIO")
		return 0, &PathError{Op: op, Path: f.name, Err: a.errno(syscall.EIO)}
	}
	n := len(b)
	var ferr error
	for _, a := range d.armedFor() {
		if a.Nth != 0 || (a.Once && a.fired > 0) {
			continue
		}
		if a.Kind == "enospc" || a.Kind == "write" {
			if room := a.At - f.wrote; int64(n) > room {
				if room < 0 {
					room = 0
				}
				n = int(room)
				ferr = &PathError{Op: op, Path: f.name, Err: a.errno(syscall.ENOSPC)}
				if a.Kind == "write" {
					ferr = &PathError{Op: op, Path: f.name, Err: a.errno(syscall.EIO)}
				}
				a.fired++
				d.WFired++
				d.Fired["disk-"+a.Kind]++
				d.log("write: partial then error")
			}
		}
	}
	f.apply(b[:n], off)
	f.wrote += int64(n)
	return n, ferr
}

func (f *File) apply(b []byte, off int64) {
	end := int(off) + len(b)
	if end > len(f.in.Data) {
		if end > cap(f.in.Data) {
			nd := make([]byte, end, end+end/4)
			copy(nd, f.in.Data)
			f.in.markDirty(len(f.in.Data), end)
			f.in.Data = nd
		} else {
			old := len(f.in.Data)
			f.in.Data = f.in.Data[:end]
			for i := old; i < end; i++ {
				f.in.Data[i] = 0
			}
			f.in.markDirty(old, end)
		}
	}
	copy(f.in.Data[off:end], b)
	f.in.markDirty(int(off), end)
	f.in.Writes++
	f.in.mtime = int64(f.d.Events)
	f.d.Touched[clean(f.name)] = true
}

// Write mirrors os.File.Write.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		switch {
		case f.std == 2 && StdoutSink != nil:
			StdoutSink(b)
		case D != nil:
			D.OutBuf = append(D.OutBuf, b...)
		}
		return len(b), nil
	}
	if f.app {
		f.pos = int64(len(f.in.Data))
	}
	n, err := f.writeAt(b, f.pos, "write")
	f.pos += int64(n)
	return n, err
}

// WriteString mirrors os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt mirrors os.File.WriteAt.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off, "write")
}

// ReadFrom mirrors os.File.ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Seek mirrors os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	f.d.event()
	if a := f.d.nth("seek"); a != nil {
		f.d.log("seek: EIO")
		return 0, &PathError{Op: "seek", Path: f.name, Err: a.errno(syscall.EIO)}
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.in.Data))
	default:
		return 0, &PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	if off < 0 {
		return 0, &PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.pos = off
	return off, nil
}

// Sync mirrors os.File.Sync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	f.d.event()
	if a := f.d.nth("sync"); a != nil {
		f.d.WFired++
		f.d.MustReport++
		return &PathError{Op: "sync", Path: f.name, Err: a.errno(syscall.EIO)}
	}
	f.in.Durable = append([]byte(nil), f.in.Data...)
	f.in.dirty = map[int]bool{}
	f.in.HasDur = true
	return nil
}

// Close mirrors os.File.Close.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	f.closed = true
	delete(f.d.Open, f)
	if f.d.Crashed {
		return nil
	}
	f.d.event()
	if a := f.d.nth("close"); a != nil {
		if f.wr {
			f.d.WFired++
			f.d.MustReport++
		}
		if a.Lose && f.wr && f.wrote > 0 {
			// Delayed allocation failed: the tail of the data is gone.
			f.in.truncate(len(f.in.Data) / 2)
			f.in.mtime = int64(f.d.Events)
		}
		f.d.log("close: EIO")
		return &PathError{Op: "close", Path: f.name, Err: a.errno(syscall.EIO)}
	}
	return nil
}

// Truncate mirrors os.File.Truncate.
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	f.d.event()
	if !f.wr {
		return &PathError{Op: "truncate", Path: f.name, Err: syscall.EINVAL}
	}
	f.d.Touched[clean(f.name)] = true
	f.in.truncate(int(n))
	f.in.mtime = int64(f.d.Events)
	return nil
}

// Chmod mirrors os.File.Chmod.
func (f *File) Chmod(m FileMode) error { return f.check("chmod") }

// Stat mirrors os.File.Stat.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std > 0 {
		return info{f.name, 0, 0, time.Unix(0, 0)}, nil
	}
	f.d.event()
	if a := f.d.nth("stat"); a != nil {
		return nil, &PathError{Op: "stat", Path: f.name, Err: a.errno(syscall.EIO)}
	}
	return info{path.Base(clean(f.name)), int64(len(f.in.Data)), f.in.Mode, f.d.when(f.in.mtime)}, nil
}

type info struct {
	n string
	s int64
	m fs.FileMode
	t time.Time
}

// when is the file time of a change: coarse, so that quick successive changes may carry the same time.
func (d *Disk) when(events int64) time.Time { return time.Unix(d.Epoch+events/16, 0) }

func (i info) Name() string       { return i.n }
func (i info) Size() int64        { return i.s }
func (i info) Mode() fs.FileMode  { return i.m }
func (i info) ModTime() time.Time { return i.t }
func (i info) IsDir() bool        { return i.m.IsDir() }
func (i info) Sys() any           { return nil }

// Stat mirrors os.Stat.
func Stat(name string) (FileInfo, error) {
	d := D
	if d == nil {
		return nil, &PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	d.event()
	if a := d.nth("stat"); a != nil {
		return nil, &PathError{Op: "stat", Path: name, Err: a.errno(syscall.EIO)}
	}
	in, ok := d.dir[clean(name)]
	if !ok {
		for n := range d.dir {
			if strings.HasPrefix(n, clean(name)+"/") || clean(name) == "." || clean(name) == "/" {
				return info{path.Base(clean(name)), 0, fs.ModeDir | 0o755, d.when(0)}, nil
			}
		}
		return nil, &PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return info{path.Base(clean(name)), int64(len(in.Data)), in.Mode, d.when(in.mtime)}, nil
}

// Lstat mirrors os.Lstat.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Remove mirrors os.Remove.
func Remove(name string) error {
	d := D
	d.event()
	if a := d.nth("remove"); a != nil {
		return &PathError{Op: "remove", Path: name, Err: a.errno(syscall.EACCES)}
	}
	if _, ok := d.dir[clean(name)]; !ok {
		return &PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	d.Touched[clean(name)] = true
	delete(d.dir, clean(name))
	return nil
}

// RemoveAll mirrors os.RemoveAll.
func RemoveAll(name string) error {
	d := D
	d.event()
	for n := range d.dir {
		if n == clean(name) || strings.HasPrefix(n, clean(name)+"/") {
			d.Touched[n] = true
			delete(d.dir, n)
		}
	}
	return nil
}

// Rename mirrors os.Rename.
func Rename(from, to string) error {
	d := D
	d.event()
	if a := d.nth("rename"); a != nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: a.errno(syscall.EACCES)}
	}
	in, ok := d.dir[clean(from)]
	if !ok || from == "" || to == "" {
		return &LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(d.dir, clean(from))
	d.dir[clean(to)] = in
	in.Writes++
	d.Touched[clean(from)] = true
	d.Touched[clean(to)] = true
	return nil
}

// Truncate mirrors os.Truncate.
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// ReadFile mirrors os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile mirrors os.WriteFile.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// CreateTemp mirrors os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	D.tmpCtr++
	num := string(rune('a'+D.tmpCtr%26)) + "7310"
	base := pattern + num
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		base = pattern[:i] + num + pattern[i+1:]
	}
	return OpenFile(path.Join(dir, base), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

// MkdirTemp mirrors os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	D.tmpCtr++
	return path.Join(dir, strings.ReplaceAll(pattern, "*", "")+string(rune('a'+D.tmpCtr%26))), nil
}

// Directories are implicit on the simulated disk.
func Mkdir(name string, perm FileMode) error    { D.event(); return nil }
func MkdirAll(name string, perm FileMode) error { D.event(); return nil }
func Chmod(name string, m FileMode) error       { D.event(); return nil }
func Chtimes(name string, a, m time.Time) error { D.event(); return nil }
func Getwd() (string, error)                    { return "/sim", nil }
func TempDir() string                           { return "/tmp" }
func Getenv(k string) string                    { return "" }
func LookupEnv(k string) (string, bool)         { return "", false }
func Environ() []string                         { return nil }
func Hostname() (string, error)                 { return "sim", nil }
func Getpid() int                               { return 4242 }
func Getuid() int                               { return 1000 }
func Executable() (string, error)               { return "/sim/bin", nil }
func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }
func SameFile(a, b FileInfo) bool               { return a == b }
func ReadDir(name string) ([]fs.DirEntry, error) {
	return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOENT}
}
func IsPathSeparator(c uint8) bool { return c == '/' }
func UserHomeDir() (string, error) { return "/sim", nil }

// ExitCode is panicked by Exit and recovered by the engine.
type ExitCode struct{ Code int }

// Exit mirrors os.Exit: nothing else runs, and no recover sees it.
func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	panic(ExitCode{code})
}

// OnExit is told the exit status of a simulated program; it does not return.
var OnExit func(code int)

// Re-exported types, constants and errors.
type (
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir     = fs.ModeDir
	ModePerm    = fs.ModePerm
	ModeAppend  = fs.ModeAppend
	ModeSymlink = fs.ModeSymlink
	ModeType    = fs.ModeType
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded

	Stdin  = &File{name: "/dev/stdin", rd: true, std: 1}
	Stdout = &File{name: "/dev/stdout", wr: true, std: 2}
	Stderr = &File{name: "/dev/stderr", wr: true, std: 3}

	Args = []string{"truecli"}
)

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
