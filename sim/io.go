package zsim

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------------------- destinations

// Fault is what happens to one call of Write or Read.
type Fault struct {
	At    int    `json:"at"`    // index of the call
	Kind  string `json:"kind"`  // "err", "short", "panic", "stall"
	N     int    `json:"n"`     // bytes accepted by a short write
	Delay int    `json:"delay"` // milliseconds of a stall
}

// Chunk is one call of Write as the destination saw it.
type Chunk struct {
	Task    int
	Data    []byte // what was passed
	Took    int    // how much the destination accepted
	Kind    string // fault, if any
	Start   int    // event sequence numbers
	End     int
	Changed bool // the bytes passed changed while the destination was reading them
	Overlap bool // another Write was in progress
}

// ErrInjected is the error of an injected fault.
type ErrInjected struct {
	What string
	Of   error // what kind of an error it is, if any
}

func (e *ErrInjected) Error() string { return "injected: " + e.What }
func (e *ErrInjected) Unwrap() error { return e.Of }

// errKinds are errors that reading and writing may end with.
var errKinds = []error{nil, io.ErrUnexpectedEOF, os.ErrClosed, syscall.EIO, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrShortWrite,
	syscall.ENOSPC, syscall.EPIPE, syscall.EINTR, io.ErrNoProgress, syscall.EAGAIN, context.Canceled, io.ErrShortBuffer}

func errKind(n int) error { return errKinds[n%len(errKinds)] }

// injectedRead is the error of a failing read: a kind by itself or with more about it.
func injectedRead(n int, what string) error {
	if k := errKind(n); k != nil && n/len(errKinds)%2 == 0 {
		return k
	} else {
		return &ErrInjected{what, k}
	}
}

// Dest is a destination (io.Writer) owned by the simulator.
// It is not safe for concurrent use, as bytes.Buffer and most writers are not: it detects overlap.
type Dest struct {
	Chunks []Chunk
	Stream []byte
	Faults []Fault
	busy   int
	calls  int
	Slow   bool // pre-emption points within a Write
}

func (d *Dest) Write(p []byte) (int, error) {
	task := TaskID()
	ix := d.calls
	d.calls++
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
	c := Chunk{Task: task, Data: append([]byte(nil), p...), Took: len(p), Start: Step(), Overlap: d.busy > 0}
	d.busy++
	var flt *Fault
	for i := range d.Faults {
		if d.Faults[i].At == ix {
			flt = &d.Faults[i]
		}
	}
	if task >= 0 {
		S.point(siteIO)
		if d.Slow {
			S.point(siteIO + 1)
		}
	}
	var err error
	if flt != nil {
		c.Kind = flt.Kind
		switch flt.Kind {
		case "err":
			c.Took, err = 0, &ErrInjected{fmt.Sprintf("write %d", ix), errKind(ix + flt.N)}
		case "short":
			n := flt.N
			if n >= len(p) {
				n = len(p) - 1
			}
			if n < 0 {
				n = 0
			}
			c.Took, err = n, &ErrInjected{fmt.Sprintf("short write %d", ix), errKind(ix + flt.N)}
		case "stall":
			Sleep(time.Duration(flt.Delay+1) * time.Millisecond)
		case "panic":
			c.Took = 0
		}
	}
	for i := range c.Data {
		if i >= len(p) || c.Data[i] != p[i] {
			c.Changed = true
		}
	}
	d.busy--
	c.End = Step()
	d.Stream = append(d.Stream, c.Data[:c.Took]...)
	d.Chunks = append(d.Chunks, c)
	if flt != nil {
		d.count(flt.Kind)
		if flt.Kind == "panic" {
			panic(&ErrInjected{fmt.Sprintf("write %d panics", ix), nil})
		}
	}
	return c.Took, err
}

func (d *Dest) count(kind string) {
	for i := range faultNames {
		if faultNames[i] == kind {
			FaultCounts[i]++
			return
		}
	}
}

var faultNames = [...]string{"err", "short", "panic", "stall", "open-error", "read-error", "short-read",
	"truncate", "marshal-error", "value-panic", "re-entrant-log", "level-change", "default-swap",
	"buffer-reuse", "clock-jump", "client-disconnect", "handler-panic", "replace-panic", "callback-log", "handler-err", "eof-with-data", "lost-line", "long-line"}

// FaultCounts counts the faults that fired in this process.
var FaultCounts [len(faultNames)]int

// Fired notes that a fault of the given kind took effect.
//
//go:noinline
func Fired(kind string) {
	for i := range faultNames {
		if faultNames[i] == kind {
			FaultCounts[i]++
			return
		}
	}
	panic("unknown fault kind " + kind)
}

// FaultMap returns the counts by name.
func FaultMap() map[string]int {
	m := make(map[string]int)
	for i, n := range faultNames {
		if FaultCounts[i] > 0 {
			m[n] = FaultCounts[i]
		}
	}
	return m
}

// ---------------------------------------------------------------------------- standard output, files

// Stdout replaces os.Stdout in the code under test.
var Stdout io.Writer = os.Stdout

// Stderr replaces os.Stderr.
var Stderr io.Writer = os.Stderr

// Printf replaces fmt.Printf: one formatted string, one Write, as in package fmt.
func Printf(format string, a ...any) (int, error) {
	return Stdout.Write(fmt.Appendf(nil, format, a...))
}

// Println replaces fmt.Println.
func Println(a ...any) (int, error) { return Stdout.Write(fmt.Appendln(nil, a...)) }

// Print replaces fmt.Print.
func Print(a ...any) (int, error) { return Stdout.Write(fmt.Append(nil, a...)) }

// IntnIs is rand.Intn for the code under test, if set.
var IntnIs func(n int) int

// Intn replaces rand.Intn, which has the run's random stream.
func Intn(n int) int {
	if IntnIs != nil {
		return IntnIs(n)
	}
	return rand.Intn(n)
}

// Disk is the simulated file system: name to content.
type Disk struct {
	Files  map[string][]byte
	Faults map[string]ReadFault
	Opens  map[string]int
	Closed int
}

// ReadFault is what happens when a file (or stream) is read.
type ReadFault struct {
	Open     bool  `json:"open"`     // cannot be opened
	ErrAt    int   `json:"errat"`    // a read error after one byte less than that; 0: none
	Truncate int   `json:"truncate"` // the file ends after one byte less than that; 0: none
	Chunks   []int `json:"chunks"`   // sizes of successive reads, repeated
	EOFData  bool  `json:"eofdata"`  // the last read returns data together with io.EOF
	Zero     bool  `json:"zero"`     // reads of zero bytes in between
}

// FS is the simulated disk; when it is nil the real one is used.
var FS *Disk

// File is an open simulated file or a real one.
type File struct {
	*Stream
	real *os.File
	name string
}

// Stream is a reader with a seeded chunking and faults.
type Stream struct {
	data []byte
	flt  ReadFault
	pos  int
	k    int
	zero bool
}

// NewStream returns a reader over data.
func NewStream(data []byte, flt ReadFault) *Stream {
	flt.ErrAt--
	flt.Truncate--
	if flt.Truncate >= 0 && flt.Truncate < len(data) {
		data = data[:flt.Truncate]
		Fired("truncate")
	}
	return &Stream{data: data, flt: flt}
}

func (r *Stream) Read(p []byte) (int, error) {
	Y(siteIO + 2)
	if len(p) == 0 {
		return 0, nil
	}
	if r.flt.ErrAt >= 0 && r.pos >= r.flt.ErrAt && r.pos <= len(r.data) {
		Fired("read-error")
		return 0, injectedRead(r.flt.ErrAt, fmt.Sprintf("read at %d", r.pos))
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.flt.Zero && !r.zero {
		r.zero = true
		return 0, nil
	}
	r.zero = false
	n := len(p)
	if len(r.flt.Chunks) > 0 {
		if c := r.flt.Chunks[r.k%len(r.flt.Chunks)]; c > 0 && c < n {
			n = c
		}
		r.k++
		Fired("short-read")
	}
	if rest := len(r.data) - r.pos; n > rest {
		n = rest
	}
	if r.flt.ErrAt >= 0 && r.pos+n > r.flt.ErrAt {
		n = r.flt.ErrAt - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.flt.EOFData && r.pos == len(r.data) && (r.flt.ErrAt < 0 || r.flt.ErrAt > r.pos) {
		Fired("eof-with-data")
		return n, io.EOF
	}
	return n, nil
}

// Open replaces os.Open.
func Open(name string) (*File, error) {
	if FS == nil {
		f, err := os.Open(name)
		if err != nil {
			return nil, err
		}
		return &File{real: f, name: name}, nil
	}
	Y(siteIO + 3)
	flt := FS.Faults[name]
	if flt.Open {
		Fired("open-error")
		return nil, &fs.PathError{Op: "open", Path: name, Err: []error{&ErrInjected{"open", nil}, syscall.EACCES, syscall.EMFILE, syscall.EIO, fs.ErrPermission, syscall.EISDIR}[len(name)%6]}
	}
	data, ok := FS.Files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	FS.Opens[name]++
	return &File{Stream: NewStream(data, flt), name: name}, nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Read(p)
	}
	return f.Stream.Read(p)
}

// Close closes the file.
func (f *File) Close() error {
	if f.real != nil {
		return f.real.Close()
	}
	if FS != nil {
		FS.Closed++
	}
	return nil
}

// Name returns the name of the file.
func (f *File) Name() string { return f.name }

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	if FS == nil {
		return os.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer func() { _ = f.Close() }()
	var all []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		all = append(all, buf[:n]...)
		if err == io.EOF {
			return all, nil
		}
		if err != nil {
			return all, &fs.PathError{Op: "read", Path: name, Err: err}
		}
	}
}

// Stdin replaces os.Stdin.
var Stdin io.Reader = os.Stdin

// ExitPanic is what os.Exit becomes in the code under test.
type ExitPanic struct{ Code int }

// Exit replaces os.Exit.
func Exit(code int) { panic(&ExitPanic{code}) }
