package hx

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync/atomic"
	"unsafe"

	"github.com/cybercryptio/d1-lib/v2/io"
	bolt "go.etcd.io/bbolt"
)

var scratch = func() string {
	base := os.Getenv("HX_TMP")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "hx")
	if err != nil {
		Bug("scratch: %v", err)
	}
	return d
}()

var fileNo atomic.Int64

// TempFile names a new file in this process's scratch directory.
func TempFile() string { return filepath.Join(scratch, fmt.Sprintf("f%d", fileNo.Add(1))) }

// Cleanup removes the scratch directory.
func Cleanup() { os.RemoveAll(scratch) }

// Box is a storage provider of some kind, and its restart.
type Box struct {
	Kind string
	P    io.Provider
	St   *Store // kinds "store" and "wrapped"
	path string
	b    *io.Bolt
}

// Kinds lists the kinds of provider.
var Kinds = []string{"store", "wrapped", "mem", "bolt", "proxy"}

func NewBox(kind string) *Box {
	b := &Box{Kind: kind}
	switch kind {
	case "store", "wrapped":
		b.St = NewStore()
		b.St.Wrap = kind == "wrapped"
		b.P = b.St
	case "mem":
		m := io.NewMem()
		b.P = &m
	case "proxy":
		m := io.NewMem()
		p := io.NewProxy(&m)
		b.P = &p
	case "bolt":
		b.path = TempFile()
		b.open()
	default:
		Bug("no provider kind %q", kind)
	}
	return b
}

func (b *Box) open() {
	x, err := io.NewBolt(b.path)
	if err != nil {
		panic(fmt.Sprintf("bolt file does not open: %v", err))
	}
	b.b = &x
	b.P = b.b
}

// BoltDB finds the database handle inside a Bolt provider (by type, not by name), so that it can be
// closed; the provider itself offers no way to do it.
func BoltDB(b *io.Bolt) *bolt.DB {
	v := reflect.ValueOf(b).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*bolt.DB)(nil)) {
			return *(**bolt.DB)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return nil
}

// Restart continues with what a new process would find.
func (b *Box) Restart() {
	if b.Kind != "bolt" {
		return
	}
	// A copy of the file at rest is what a new process opens; the old handle may be impossible to
	// close.
	data, err := os.ReadFile(b.path)
	if err != nil {
		Bug("reading bolt file: %v", err)
	}
	b.Close()
	b.path = TempFile()
	if err := os.WriteFile(b.path, data, 0o600); err != nil {
		Bug("copying bolt file: %v", err)
	}
	b.open()
}

func (b *Box) Close() {
	if b.b != nil {
		if db := BoltDB(b.b); db != nil {
			db.Close()
		}
		os.Remove(b.path)
		b.b = nil
	}
}

// Gate is a provider wrapper that holds every storage call until the scheduler lets it go.
type Gate struct {
	P    io.Provider
	Base context.Context // what the operations' contexts derive from
	park chan *parked
}

type parked struct {
	op   int
	what string
	go_  chan struct{}
}

type opKey struct{}

// WithOp marks a context as belonging to a scheduled operation.
func WithOp(ctx context.Context, op int) context.Context {
	return context.WithValue(ctx, opKey{}, op)
}

func NewGate(p io.Provider) *Gate { return &Gate{P: p, park: make(chan *parked)} }

func (g *Gate) wait(ctx context.Context, what string) {
	op, ok := ctx.Value(opKey{}).(int)
	if !ok {
		return
	}
	p := &parked{op, what, make(chan struct{})}
	g.park <- p
	<-p.go_
}

func (g *Gate) Put(ctx context.Context, id []byte, t io.DataType, data []byte) error {
	g.wait(ctx, fmt.Sprintf("put/%d", t))
	return g.P.Put(ctx, id, t, data)
}
func (g *Gate) Get(ctx context.Context, id []byte, t io.DataType) ([]byte, error) {
	g.wait(ctx, fmt.Sprintf("get/%d", t))
	return g.P.Get(ctx, id, t)
}
func (g *Gate) Update(ctx context.Context, id []byte, t io.DataType, data []byte) error {
	g.wait(ctx, fmt.Sprintf("update/%d", t))
	return g.P.Update(ctx, id, t, data)
}
func (g *Gate) Delete(ctx context.Context, id []byte, t io.DataType) error {
	g.wait(ctx, fmt.Sprintf("delete/%d", t))
	return g.P.Delete(ctx, id, t)
}
