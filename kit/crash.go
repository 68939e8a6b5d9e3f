package kit

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_flusher "github.com/vitelabs/go-vite/v2/ledger/chain/flusher"
)

// FlushPoint is called at every step the flusher takes with a store. stage is one of prepare, redo,
// commit, commit-done, after, after-done, cancel. Returning an error makes redo or commit fail.
type FlushPoint func(store int, stage string) error

type spyStore struct {
	chain_flusher.Storage
	i  int
	at *FlushPoint
	mu *sync.Mutex
}

func (s *spyStore) call(stage string) error {
	if s.at == nil || *s.at == nil {
		return nil
	}
	return (*s.at)(s.i, stage)
}

func (s *spyStore) Prepare() { s.call("prepare"); s.Storage.Prepare(); s.call("prepared") }
func (s *spyStore) CancelPrepare() {
	s.call("cancel")
	s.Storage.CancelPrepare()
}
func (s *spyStore) RedoLog() ([]byte, error) {
	if err := s.call("redo"); err != nil {
		return nil, err
	}
	return s.Storage.RedoLog()
}
func (s *spyStore) Commit() error {
	// the flusher commits the stores in parallel; one at a time is one of its schedules
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.call("commit"); err != nil {
		return err
	}
	err := s.Storage.Commit()
	s.call("committed")
	return err
}
func (s *spyStore) AfterCommit() { s.call("after"); s.Storage.AfterCommit(); s.call("aftered") }

// SpyFlusher wraps the stores of the ledger so that at is called at every flush step.
func (w *World) SpyFlusher(at *FlushPoint) {
	idx, blk, st := w.Chain.DBs()
	var mu sync.Mutex
	for i, s := range []chain_flusher.Storage{blk, st.Store(), st.RedoStore(), idx.Store()} {
		w.Chain.Flusher().ReplaceStore(s.Id(), &spyStore{s, i, at, &mu})
	}
}

// EventSpy calls at on every chain event.
type EventSpy struct{ At func(ev string) error }

func (e *EventSpy) f(s string) error {
	if e.At == nil {
		return nil
	}
	return e.At(s)
}
func (e *EventSpy) PrepareInsertAccountBlocks([]*interfaces.VmAccountBlock) error {
	return e.f("prepare-insert-ab")
}
func (e *EventSpy) InsertAccountBlocks([]*interfaces.VmAccountBlock) error { return e.f("insert-ab") }
func (e *EventSpy) PrepareInsertSnapshotBlocks([]*ledger.SnapshotChunk) error {
	return e.f("prepare-insert-sb")
}
func (e *EventSpy) InsertSnapshotBlocks([]*ledger.SnapshotChunk) error { return e.f("insert-sb") }
func (e *EventSpy) PrepareDeleteAccountBlocks([]*ledger.AccountBlock) error {
	return e.f("prepare-delete-ab")
}
func (e *EventSpy) DeleteAccountBlocks([]*ledger.AccountBlock) error { return e.f("delete-ab") }
func (e *EventSpy) PrepareDeleteSnapshotBlocks([]*ledger.SnapshotChunk) error {
	return e.f("prepare-delete-sb")
}
func (e *EventSpy) DeleteSnapshotBlocks([]*ledger.SnapshotChunk) error { return e.f("delete-sb") }

// Image is the content of a directory tree.
type Image map[string][]byte

// ReadImage reads the tree (skipping lock files).
func ReadImage(dir string) Image {
	m := Image{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			rel, _ := filepath.Rel(dir, p)
			m[rel] = b
		}
		return nil
	})
	return m
}

// Write materialises the image.
func (m Image) Write(dir string) {
	for rel, b := range m {
		p := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic("kit: " + err.Error())
		}
	}
}

// Clone is a shallow copy.
func (m Image) Clone() Image {
	n := Image{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Key identifies equal images.
func (m Image) Key() types.Hash {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []byte
	for _, k := range ks {
		h := types.DataHash(m[k])
		b = append(b, k...)
		b = append(b, 0)
		b = append(b, h.Bytes()...)
	}
	return types.DataHash(b)
}

// Mix takes the files below the given top-level directories from o and the rest from m.
func (m Image) Mix(o Image, dirs ...string) Image {
	in := func(k string) bool {
		for _, d := range dirs {
			if strings.HasPrefix(k, d+string(filepath.Separator)) {
				return true
			}
		}
		return false
	}
	n := Image{}
	for k, v := range m {
		if !in(k) {
			n[k] = v
		}
	}
	for k, v := range o {
		if in(k) {
			n[k] = v
		}
	}
	return n
}
