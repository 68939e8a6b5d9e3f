package kit

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// Entry is one block of a ledger history, in insertion order.
type Entry struct {
	AB *ledger.AccountBlock
	SB *ledger.SnapshotBlock
}

func (e Entry) hash() types.Hash {
	if e.SB != nil {
		return e.SB.Hash
	}
	return e.AB.Hash
}

// Hist is a real ledger together with the abstract history it must represent: the sequence of
// surviving blocks. The expected observable state of any history is what a fresh ledger shows after
// inserting exactly that sequence (memoised).
type Hist struct {
	Top  uint64 // the greatest height before any rollback
	C    *C
	W    *World
	O    Options
	D    DumpOpts
	Log  []Entry
	Base int // entries of the prologue, never rolled back
	// Ignore keys of dumps that are not part of the property.
	Ignore func(string) bool
	// Disk is the history a crash must recover to: everything confirmed at the last completed flush.
	Disk []Entry
}

// NewHist opens a ledger and runs the prologue (deploys the scripted contracts if deploy>0).
func NewHist(c *C, o Options, deploy int) *Hist {
	if o.Dir == "" {
		o.Dir = MkTemp("hist-")
	}
	w, err := Open(o)
	if err != nil {
		os.RemoveAll(o.Dir)
		c.Fail("open", "cannot open a fresh ledger: %v", err)
	}
	h := &Hist{C: c, W: w, O: o, D: DumpOpts{Hist: true, Queries: true, Skip: o.DumpSkip}}
	c.Defer(func() { h.W.Remove() })
	for i := 0; i < deploy; i++ {
		s, err := w.SendMsg(ContractOwners[i], CreateMsg(ContractOwners[i].Addr, InitCode(ScriptCode()), uint8(i), 0, 10, types.DELEGATE_GID, new(big.Int)))
		h.must(err, "deploy send")
		h.Log = append(h.Log, Entry{AB: s})
		if i > 0 {
			h.snap(nil)
		}
		r, err := w.Receive(s, Producer)
		h.must(err, "deploy receive")
		h.Log = append(h.Log, Entry{AB: r})
		h.snap(nil)
	}
	if deploy == 0 {
		h.snap(nil)
	}
	h.Base = len(h.Log)
	return h
}

func (h *Hist) must(err error, what string) {
	if err != nil {
		h.C.Fail("op:"+what, "%s failed: %v", what, err)
	}
}

func (h *Hist) snap(content ledger.SnapshotContent) {
	b, err := h.W.InsertSnapshot(h.W.NextSnapshot(content, 0))
	h.must(err, "snapshot")
	h.Log = append(h.Log, Entry{SB: b})
}

// Op is one action of the alphabet.
type Op struct {
	Name string
	// Do runs the action; it returns false when it is not enabled in the current state.
	Do func(h *Hist) bool
}

// Step chooses one enabled op and runs it; false when nothing is enabled.
// An op that turns out to be disabled prunes the execution.
func (h *Hist) Step(ops []Op) {
	o := ops[h.C.Choose(len(ops))]
	if !o.Do(h) {
		h.C.Prune()
	}
	h.C.Op("%s", o.Name)
}

func (h *Hist) nonce() int64 {
	// amounts vary so that distinct sends differ in content
	return int64(len(h.Log) + 1)
}

// OpXfer is a transfer between users.
func OpXfer(i, j int) Op {
	return Op{fmt.Sprintf("xfer u%d>u%d", i, j), func(h *Hist) bool {
		b, err := h.W.Send(Users[i], Users[j].Addr, ledger.ViteTokenId, big.NewInt(h.nonce()), nil)
		h.must(err, "transfer")
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// OpXferTo sends VITE to any address.
func OpXferTo(i int, to types.Address, tag string) Op {
	return Op{fmt.Sprintf("xfer u%d>%s", i, tag), func(h *Hist) bool {
		b, err := h.W.Send(Users[i], to, ledger.ViteTokenId, big.NewInt(h.nonce()), nil)
		h.must(err, "transfer")
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// OpSpendAll sends everything user i has to user j.
func OpSpendAll(i, j int) Op {
	return Op{fmt.Sprintf("spend all u%d>u%d", i, j), func(h *Hist) bool {
		n, err := h.W.Chain.GetBalance(Users[i].Addr, ledger.ViteTokenId)
		h.must(err, "balance")
		if n.Sign() == 0 {
			return false
		}
		b, err := h.W.Send(Users[i], Users[j].Addr, ledger.ViteTokenId, n, nil)
		h.must(err, "transfer")
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// oldest returns the on-road block of addr that comes first in the history.
func (h *Hist) oldest(addr types.Address) *ledger.AccountBlock {
	l, err := h.W.Chain.GetOnRoadBlocksByAddr(addr, 0, 100)
	h.must(err, "onroad query")
	set := map[types.Hash]*ledger.AccountBlock{}
	for _, b := range l {
		set[b.Hash] = b
	}
	for _, e := range h.Log {
		if e.AB == nil {
			continue
		}
		if b := set[e.AB.Hash]; b != nil {
			return b
		}
		for _, s := range e.AB.SendBlockList {
			if b := set[s.Hash]; b != nil {
				return b
			}
		}
	}
	return nil
}

// OpRecv makes user i receive its oldest pending send.
func OpRecv(i int) Op {
	return Op{fmt.Sprintf("recv u%d", i), func(h *Hist) bool {
		s := h.oldest(Users[i].Addr)
		if s == nil {
			return false
		}
		b, err := h.W.Receive(s, Users[i])
		h.must(err, "receive")
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// OpCall is a call of scripted contract k by user i.
func OpCall(i, k, mode int) Op {
	return Op{fmt.Sprintf("call u%d>c%d mode%d", i, k, mode), func(h *Hist) bool {
		d := ScriptData(1, h.nonce(), mode, Users[2].Addr)
		if mode == ModeNest {
			d = ScriptData(2, h.nonce(), mode, ContractAddr(0), ScriptData(3, h.nonce(), ModeForward, Users[2].Addr)...)
		}
		if mode == ModeTwo {
			d = append(append(append(Word(1), Word(h.nonce())...), Word(ModeTwo)...), Word(2)...)
		}
		if mode == ModeStore && h.nonce()%3 == 0 {
			d = ScriptData(1, 0, mode, Users[2].Addr) // deletes the key
		}
		b, err := h.W.Send(Users[i], ContractAddr(k), ledger.ViteTokenId, big.NewInt(h.nonce()), d)
		h.must(err, "call")
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// OpCRecv makes a contract receive its front on-road block.
func OpCRecv(addr types.Address, tag string) Op {
	return Op{"crecv " + tag, func(h *Hist) bool {
		l, err := h.W.OR.GetAllCallersFrontOnRoad(types.DELEGATE_GID, addr)
		h.must(err, "onroad pool")
		if len(l) == 0 {
			return false
		}
		set := map[types.Hash]*ledger.AccountBlock{}
		for _, b := range l {
			set[b.Hash] = b
		}
		var s *ledger.AccountBlock
		for _, e := range h.Log {
			if e.AB != nil {
				for _, x := range append([]*ledger.AccountBlock{e.AB}, e.AB.SendBlockList...) {
					if s == nil && set[x.Hash] != nil {
						s = set[x.Hash]
					}
				}
			}
		}
		if s == nil {
			h.C.Fail("onroad-unknown", "the on-road pool of %s offers a send that is not in the ledger: %s", tag, l[0].Hash)
		}
		vb, _, err := h.W.GenReceive(addr, s, Producer)
		if vb == nil {
			return false // e.g. not confirmed often enough yet
		}
		v2, err := h.W.Submit(vb.AccountBlock)
		if err != nil {
			// the generator produced it; the verifier may demand more confirmations
			return false
		}
		h.Log = append(h.Log, Entry{AB: v2.AccountBlock})
		return true
	}}
}

// OpSnap confirms everything unconfirmed (possibly nothing).
func OpSnap() Op {
	return Op{"snapshot", func(h *Hist) bool { h.snap(nil); return true }}
}

// OpSnapFirst confirms only the first unconfirmed block.
func OpSnapFirst() Op {
	return Op{"snapshot-first", func(h *Hist) bool {
		un := h.W.Chain.GetAllUnconfirmedBlocks()
		if len(un) < 2 {
			return false
		}
		// the first block of the history that is still unconfirmed
		set := map[types.Hash]bool{}
		for _, b := range un {
			set[b.Hash] = true
		}
		for _, e := range h.Log {
			if e.AB != nil && set[e.AB.Hash] {
				h.snap(ledger.SnapshotContent{e.AB.AccountAddress: &ledger.HashHeight{Hash: e.AB.Hash, Height: e.AB.Height}})
				return true
			}
		}
		return false
	}}
}

// OpFlush writes everything to disk.
func OpFlush() Op {
	return Op{"flush", func(h *Hist) bool { h.W.Chain.Flusher().Flush(); h.Flushed(); return true }}
}

// Confirmed is the part of the history a flush makes durable.
func (h *Hist) Confirmed() []Entry {
	l := h.lastSnap()
	if l == nil {
		return nil
	}
	return h.confirmedUpTo(l.Height)
}

// Flushed notes that everything confirmed so far is durable.
func (h *Hist) Flushed() { h.Disk = h.Confirmed() }

func (h *Hist) lastSnap() *ledger.SnapshotBlock {
	for i := len(h.Log) - 1; i >= 0; i-- {
		if h.Log[i].SB != nil {
			return h.Log[i].SB
		}
	}
	return nil
}

// snapPos finds the log position of the snapshot at height.
func (h *Hist) snapPos(height uint64) int {
	for i, e := range h.Log {
		if e.SB != nil && e.SB.Height == height {
			return i
		}
	}
	return -1
}

// OpRollback deletes the latest n snapshots.
func OpRollback(n uint64) Op {
	return Op{fmt.Sprintf("rollback %d", n), func(h *Hist) bool {
		top := h.W.Chain.GetLatestSnapshotBlock().Height
		if top < n {
			return false
		}
		if top > h.Top {
			h.Top = top
		}
		to := top - n + 1
		p := h.snapPos(to)
		if p < h.Base {
			return false
		}
		chunks, err := h.W.Chain.DeleteSnapshotBlocksToHeight(to)
		h.must(err, "rollback")
		keep := h.confirmedUpTo(to)
		keep = keep[: len(keep)-1 : len(keep)-1]
		if older := h.confirmedUpTo(to - 1); to+1198 <= h.Top && len(older) < len(keep) && len(chunks) > 0 && len(chunks[0].AccountBlocks) > 0 {
			keep = older // beyond the undo log, the blocks of the lowest removed snapshot go too
		}
		h.checkChunks(keep, chunks)
		h.Log = keep
		h.Flushed() // a rollback ends with a flush
		return true
	}}
}

// confirmedUpTo is the history up to and including the snapshot at height, without the account
// blocks that no snapshot up to that height confirms.
func (h *Hist) confirmedUpTo(height uint64) []Entry {
	p := h.snapPos(height)
	top := map[types.Address]uint64{}
	for _, e := range h.Log[:p+1] {
		if e.SB != nil {
			for a, hh := range e.SB.SnapshotContent {
				if hh.Height > top[a] {
					top[a] = hh.Height
				}
			}
		}
	}
	var l []Entry
	for _, e := range h.Log[:p+1] {
		if e.AB == nil || e.AB.Height <= top[e.AB.AccountAddress] {
			l = append(l, e)
		}
	}
	return l
}

// checkChunks compares the blocks a rollback reports as deleted with those that disappear.
func (h *Hist) checkChunks(keep []Entry, chunks []*ledger.SnapshotChunk) {
	want := map[types.Hash]bool{}
	for _, e := range h.Log {
		want[e.hash()] = true
	}
	for _, e := range keep {
		delete(want, e.hash())
	}
	var extra []string
	for _, c := range chunks {
		if c.SnapshotBlock != nil {
			if !want[c.SnapshotBlock.Hash] {
				extra = append(extra, "snapshot "+c.SnapshotBlock.Hash.String())
			}
			delete(want, c.SnapshotBlock.Hash)
		}
		for _, b := range c.AccountBlocks {
			if !want[b.Hash] {
				extra = append(extra, "block "+b.Hash.String())
			}
			delete(want, b.Hash)
		}
	}
	if len(extra) > 0 || len(want) > 0 {
		h.C.Fail("rollback-report", "rollback reported the wrong blocks: reported but not removed %v; removed but not reported %v", extra, want)
	}
}

// depends returns the positions of the blocks that have to disappear when position p disappears:
// the later blocks of the same account, and the receives of sends that disappear.
func (h *Hist) depends(p int) map[int]bool {
	gone := map[int]bool{p: true}
	sends := map[types.Hash]bool{}
	add := func(i int) {
		gone[i] = true
		b := h.Log[i].AB
		sends[b.Hash] = true
		for _, s := range b.SendBlockList {
			sends[s.Hash] = true
		}
	}
	add(p)
	for i := p + 1; i < len(h.Log); i++ {
		b := h.Log[i].AB
		if b == nil {
			continue
		}
		dep := false
		for j := range gone {
			if h.Log[j].AB.AccountAddress == b.AccountAddress {
				dep = true
			}
		}
		if b.IsReceiveBlock() && sends[b.FromBlockHash] {
			dep = true
		}
		if dep {
			add(i)
		}
	}
	return gone
}

// OpDelAccount rolls an account back to (and including) its k-th latest block if it is unconfirmed.
func OpDelAccount(addr types.Address, tag string, k int) Op {
	return Op{fmt.Sprintf("delete-block %s -%d", tag, k), func(h *Hist) bool {
		un := h.W.Chain.GetUnconfirmedBlocks(addr)
		if len(un) < k {
			return false
		}
		b := un[len(un)-k]
		p := -1
		for i, e := range h.Log {
			if e.AB != nil && e.AB.Hash == b.Hash {
				p = i
			}
		}
		if p < 0 {
			h.C.Fail("unconfirmed-unknown", "unconfirmed block %s is not part of the history", b.Hash)
		}
		gone := h.depends(p)
		var del []*ledger.AccountBlock
		var err error
		if k == 1 {
			del, err = h.W.Chain.DeleteAccountBlocks(addr, b.Hash)
		} else {
			del, err = h.W.Chain.DeleteAccountBlocksToHeight(addr, b.Height)
		}
		h.must(err, "delete account blocks")
		rep := map[types.Hash]bool{}
		for _, x := range del {
			rep[x.Hash] = true
		}
		var log []Entry
		var bad []string
		for i, e := range h.Log {
			if gone[i] {
				if !rep[e.AB.Hash] {
					bad = append(bad, "not removed: "+e.AB.Hash.String())
				}
				delete(rep, e.AB.Hash)
				continue
			}
			log = append(log, e)
		}
		if len(bad) > 0 || len(rep) > 0 {
			h.C.Fail("delete-report", "deleting a block removed the wrong set: %v, removed without need %v", bad, rep)
		}
		h.Log = log
		return true
	}}
}

// OpRestart closes and reopens the ledger after a flush (clean restart).
func OpRestart() Op {
	return Op{"restart", func(h *Hist) bool {
		h.W.Chain.Flusher().Flush()
		h.Reopen()
		// unconfirmed blocks are not kept across a restart
		h.Log = h.confirmedUpTo(h.lastSnap().Height)
		h.Flushed()
		return true
	}}
}

// OpStopStart stops the running node the way it is stopped in production (background flusher included)
// and starts it again.
func OpStopStart() Op {
	return Op{"stop+start", func(h *Hist) bool {
		h.W.Chain.Stop()
		h.Reopen()
		h.W.Chain.Start()
		h.Log = h.confirmedUpTo(h.lastSnap().Height)
		h.Flushed()
		return true
	}}
}

// Reopen opens the ledger again from what is on disk now.
func (h *Hist) Reopen() {
	dir := MkTemp("hist-")
	if err := CopyTree(h.W.Dir, dir); err != nil {
		panic("kit: copy " + err.Error())
	}
	h.W.Remove()
	o := h.O
	o.Dir = dir
	w, err := Open(o)
	if err != nil {
		os.RemoveAll(dir)
		// keep a removable world for cleanup
		h.W = &World{Dir: dir}
		h.C.Fail("reopen", "the ledger does not open again: %v", err)
	}
	h.W = w
}

// Key identifies a history.
func LogKey(l []Entry) string {
	var sb strings.Builder
	for _, e := range l {
		x := e.hash()
		sb.Write(x[:12])
	}
	return sb.String()
}

type refEntry struct {
	d   Dump
	err error
}

var refMemo = map[string]refEntry{}
var refOrder []string

// Ref is the observable state of a fresh ledger that only ever saw the entries of log.
func (h *Hist) Ref(log []Entry, tag string) (Dump, error) {
	k := tag + LogKey(log)
	if r, ok := refMemo[k]; ok {
		return r.d, r.err
	}
	d, err := h.replay(log)
	if len(refOrder) > 3000 {
		for _, o := range refOrder[:1000] {
			delete(refMemo, o)
		}
		refOrder = append([]string{}, refOrder[1000:]...)
	}
	refMemo[k] = refEntry{d, err}
	refOrder = append(refOrder, k)
	return d, err
}

func (h *Hist) replay(log []Entry) (Dump, error) {
	o := h.O
	o.Dir = MkTemp("ref-")
	w, err := Open(o)
	if err != nil {
		os.RemoveAll(o.Dir)
		return nil, err
	}
	defer w.Remove()
	if err := w.Replay(log); err != nil {
		return nil, err
	}
	h.C.Count("reference_ledgers", 1)
	return w.Dump(h.D), nil
}

// Replay feeds blocks through the verifier into the ledger, as a syncing node does.
func (w *World) Replay(log []Entry) error {
	for _, e := range log {
		if e.SB != nil {
			if _, err := w.InsertSnapshot(e.SB); err != nil {
				return fmt.Errorf("snapshot %d: %w", e.SB.Height, err)
			}
		} else if _, err := w.Submit(e.AB); err != nil {
			return fmt.Errorf("block %s/%d: %w", e.AB.AccountAddress, e.AB.Height, err)
		}
	}
	return nil
}

// Check compares the ledger with its reference on every observable query.
func (h *Hist) Check(key string) {
	h.C.State()
	got := h.W.Dump(h.D)
	h.CheckDump(key, got, h.Log)
}

// CheckDump compares a dump with the reference of log.
func (h *Hist) CheckDump(key string, got Dump, log []Entry) {
	want, err := h.Ref(log, "")
	if err != nil {
		h.C.Fail(key+":replay", "a fresh ledger rejects the surviving history: %v", err)
	}
	if d := Diff(got, want, 6, h.Ignore); len(d) > 0 {
		h.C.Fail(key+":"+diffKey(d[0]), "observable state differs from a ledger that only saw the surviving history (ledger != reference):\n  %s", strings.Join(d, "\n  "))
	}
}

func diffKey(d string) string {
	// drop addresses and numbers: keep the query kind
	k := strings.SplitN(d, ":", 2)[0]
	var parts []string
	for _, p := range strings.Split(k, ".") {
		if strings.HasPrefix(p, "vite_") || strings.HasPrefix(p, "tti_") || (p != "" && strings.Trim(p, "0123456789") == "") {
			continue
		}
		if len(p) == 20 {
			continue
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, ".")
}

// OpDeploy sends the creation of scripted contract i.
func OpDeploy(i int) Op {
	return Op{fmt.Sprintf("deploy c%d", i), func(h *Hist) bool {
		if l := h.Model().Chains[ContractOwners[i].Addr]; len(l) > 1 {
			return false // the address is that of the owner's first send
		}
		s, err := h.W.SendMsg(ContractOwners[i], CreateMsg(ContractOwners[i].Addr, InitCode(ScriptCode()), uint8(i), 0, 10, types.DELEGATE_GID, new(big.Int)))
		h.must(err, "deploy send")
		h.Log = append(h.Log, Entry{AB: s})
		return true
	}}
}
