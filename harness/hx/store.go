package hx

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	stdio "io"
	"io/fs"
	"os"
	"sort"
	"sync"
	"syscall"

	"github.com/cybercryptio/d1-lib/v2/io"
)

// Key identifies a stored record.
type Key struct {
	ID   string
	Type io.DataType
}

func (k Key) String() string { return fmt.Sprintf("%x/%d", k.ID, k.Type) }

// Call is one storage call as seen by the provider.
type Call struct {
	Op   string
	Key  Key
	Data []byte // data written or returned
	Err  error
}

// Fault says what happens to a call.
type Fault int

const (
	NoFault   Fault = iota
	Rejected        // not performed, error returned
	LostAck         // performed, error returned
	Stop            // not performed, the process stops
	StopAfter       // performed, the process stops
	Cancels         // performed, the caller's context is cancelled at that moment
)

// LastFault is the last of them.
const LastFault = Cancels

// FaultNames names the faults.
var FaultNames = []string{"none", "rejected", "performed but reported as failed", "stop before", "stop after", "performed while the context is cancelled"}

type stopped struct{}

// Stopped runs f and says whether the process "stopped" in it.
func Stopped(f func()) (yes bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopped); !ok {
				panic(r)
			}
			yes = true
		}
	}()
	f()
	return false
}

// FaultAt makes call number n of the window fail, or for a negative n writing call number -n. It returns a function telling whether that
// happened: in which call, and whether anything had been written before it.
func (s *Store) FaultAt(n int, f Fault) func() (op string, k Key, fired, first bool) {
	var at string
	var key Key
	var first bool
	fired := false
	writes := 0
	s.Hook = func(c int, op string, k Key) Fault {
		if op != "get" {
			writes++
		}
		if fired || c != n && (n >= 0 || op == "get" || writes != -n) {
			return NoFault
		}
		fired, at, key = true, op, k
		first = s.Writes == 0 && f != Cancels && (op == "get" || f == Rejected || f == Stop)
		return f
	}
	return func() (string, Key, bool, bool) { return at, key, fired, first }
}

// ErrInjected is the error of failed calls, unless the store has another one set.
var ErrInjected = errors.New("injected storage failure")

type temporary struct{}

func (temporary) Error() string   { return "temporary storage failure" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// FaultErrs are errors that storage may fail with.
var FaultErrs = []error{ErrInjected, context.Canceled, context.DeadlineExceeded, fmt.Errorf("storage: %w", context.Canceled), fmt.Errorf("storage: %w", context.DeadlineExceeded),
	os.ErrDeadlineExceeded, stdio.EOF, stdio.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrExist, fs.ErrClosed, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, temporary{}, errors.New("not found"), errors.New("already exists"), errors.Join(ErrInjected, stdio.EOF), io.ErrNotFound, io.ErrAlreadyExists}

// Ctx is a fresh context for a call that a storage call may cancel.
func (s *Store) Ctx() context.Context {
	cx, cancel := context.WithCancel(context.Background())
	s.Cancel = cancel
	return cx
}

// Store is the harness's own storage provider: an exact map with recording and fault injection.
type Store struct {
	mu      sync.Mutex
	m       map[Key][]byte
	Calls   int    // calls since last Begin
	Limit   int    // panics when Calls exceeds it (0: unlimited)
	Record  bool   // keep Trace
	Trace   []Call // recorded calls
	Wrap    bool   // wrap the sentinel errors, as custom providers do
	Err     error  // what failed calls return (nil: ErrInjected)
	Cancel  func() // cancels the caller's context
	Hook    func(n int, op string, k Key) Fault
	Failed  int // calls failed by Hook since Begin
	Writes  int // successful writes since Begin
	Version int
}

func NewStore() *Store { return &Store{m: map[Key][]byte{}} }

// Begin starts a window: the number of calls one operation may make is bounded by limit.
func (s *Store) Begin(limit int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Calls, s.Failed, s.Writes, s.Limit = 0, 0, 0, limit
}

func (s *Store) enter(op string, k Key) Fault {
	s.Calls++
	if s.Limit > 0 && s.Calls > s.Limit {
		panic(fmt.Sprintf("operation does not end: more than %d storage calls", s.Limit))
	}
	if s.Hook != nil {
		f := s.Hook(s.Calls, op, k)
		if f != NoFault {
			s.Failed++
		}
		return f
	}
	return NoFault
}

func (s *Store) sentinel(e error) error {
	if s.Wrap {
		return fmt.Errorf("custom provider: %w", e)
	}
	return e
}

func (s *Store) rec(op string, k Key, data []byte, err error) {
	if s.Record {
		s.Trace = append(s.Trace, Call{op, k, data, err})
	}
}

func (s *Store) do(op string, id []byte, t io.DataType, f func(k Key) ([]byte, error)) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := Key{string(id), t}
	fault := s.enter(op, k)
	ferr := s.Err
	switch {
	case ferr == nil || ferr == io.ErrNotFound && op != "update" || ferr == io.ErrAlreadyExists && op != "put":
		ferr = ErrInjected // a read or a deletion that reports "not found" lies about the contents
	case ferr == io.ErrNotFound || ferr == io.ErrAlreadyExists:
		ferr = s.sentinel(ferr)
	}
	if fault == Rejected {
		s.rec(op, k, nil, ferr)
		return nil, ferr
	}
	if fault == Stop {
		panic(stopped{})
	}
	out, err := f(k)
	s.rec(op, k, out, err)
	if fault == StopAfter {
		panic(stopped{})
	}
	if fault == LostAck {
		return out, ferr
	}
	if fault == Cancels && s.Cancel != nil {
		s.Cancel()
	}
	return out, err
}

func (s *Store) Put(_ context.Context, id []byte, t io.DataType, data []byte) error {
	d := append([]byte{}, data...)
	_, err := s.do("put", id, t, func(k Key) ([]byte, error) {
		if _, ok := s.m[k]; ok {
			return d, s.sentinel(io.ErrAlreadyExists)
		}
		s.m[k] = d
		s.Writes++
		s.Version++
		return d, nil
	})
	return err
}

func (s *Store) Get(_ context.Context, id []byte, t io.DataType) ([]byte, error) {
	out, err := s.do("get", id, t, func(k Key) ([]byte, error) {
		d, ok := s.m[k]
		if !ok {
			return nil, s.sentinel(io.ErrNotFound)
		}
		return d, nil
	})
	if err != nil && out == nil {
		return nil, err
	}
	return append([]byte{}, out...), err
}

func (s *Store) Update(_ context.Context, id []byte, t io.DataType, data []byte) error {
	d := append([]byte{}, data...)
	_, err := s.do("update", id, t, func(k Key) ([]byte, error) {
		if _, ok := s.m[k]; !ok {
			return d, s.sentinel(io.ErrNotFound)
		}
		s.m[k] = d
		s.Writes++
		s.Version++
		return d, nil
	})
	return err
}

func (s *Store) Delete(_ context.Context, id []byte, t io.DataType) error {
	_, err := s.do("delete", id, t, func(k Key) ([]byte, error) {
		if _, ok := s.m[k]; ok {
			s.Writes++
			s.Version++
		}
		delete(s.m, k)
		return nil, nil
	})
	return err
}

// Snap is a copy of the contents; stored values are never modified in place.
type Snap map[Key][]byte

func (s *Store) Snapshot() Snap {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make(Snap, len(s.m))
	for k, v := range s.m {
		out[k] = v
	}
	return out
}

func (s *Store) Restore(sn Snap) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m = make(map[Key][]byte, len(sn))
	for k, v := range sn {
		s.m[k] = v
	}
}

// Set and Drop edit records behind the library's back; Peek reads one.
func (s *Store) Set(k Key, v []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[k] = append([]byte{}, v...)
}

func (s *Store) Drop(k Key) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, k)
}

func (s *Store) Peek(k Key) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok
}

func (s *Store) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.m)
}

// Keys lists the keys in a fixed order.
func (sn Snap) Keys() []Key {
	ks := make([]Key, 0, len(sn))
	for k := range sn {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Type != ks[j].Type {
			return ks[i].Type < ks[j].Type
		}
		return ks[i].ID < ks[j].ID
	})
	return ks
}

func same(a, b []byte) bool {
	if len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0]) {
		return true
	}
	return bytes.Equal(a, b)
}

// Diff returns the keys whose contents differ.
func (sn Snap) Diff(o Snap) []Key {
	var d []Key
	for _, k := range sn.Keys() {
		if v, ok := o[k]; !ok || !same(v, sn[k]) {
			d = append(d, k)
		}
	}
	for _, k := range o.Keys() {
		if _, ok := sn[k]; !ok {
			d = append(d, k)
		}
	}
	return d
}

// Count returns the number of records of a type.
func (sn Snap) Count(t io.DataType) int {
	n := 0
	for k := range sn {
		if k.Type == t {
			n++
		}
	}
	return n
}
