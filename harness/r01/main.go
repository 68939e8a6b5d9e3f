// Property R01: the RPC interface reports the ledger exactly.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/rpc"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

// node is a node that was built but not started, with the RPC interface over its ledger.
type node struct {
	v  *vite.Vite
	s  *rpc.Server
	cl *rpc.Client
}

func options(n *node) Options {
	o := Options{Cfg: &config.Chain{LedgerGcRetain: 24 * 3600, OpenPlugins: true, VmLogAll: true}}
	o.NewChain = func(o Options) (chain.Chain, error) {
		upgrade.CleanupUpgradeBox()
		v, err := vite.New(&config.Config{Producer: &config.Producer{}, Chain: o.Cfg, Vm: &config.Vm{}, Net: &config.Net{Single: true, DataDir: filepath.Join(o.Dir, "net")}, Genesis: o.Gen, DataDir: o.Dir}, nil)
		if err != nil {
			return nil, err
		}
		n.close()
		n.v = v
		n.s = rpc.NewServer()
		if err := n.s.RegisterName("ledger", api.NewLedgerApi(v)); err != nil {
			return nil, err
		}
		n.cl = rpc.DialInProc(n.s)
		return v.Chain(), nil
	}
	return o
}

func (n *node) close() {
	if n.cl != nil {
		n.cl.Close()
		n.s.Stop()
	}
	n.cl, n.s = nil, nil
}

type obj = map[string]interface{}

// ask sends one request and returns the decoded answer.
func (n *node) ask(method string, args ...interface{}) (interface{}, error) {
	var raw json.RawMessage
	if err := n.cl.Call(&raw, "ledger_"+method, args...); err != nil {
		return nil, err
	}
	if len(raw) == 0 { // null
		return nil, nil
	}
	return decode(raw), nil
}

func decode(raw []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(fmt.Sprint("answer is not JSON: ", string(raw)))
	}
	return v
}

// norm is the JSON value of v.
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return decode(b)
}

func text(v interface{}) string {
	b, _ := json.Marshal(v)
	if len(b) > 500 {
		b = append(b[:500], "..."...)
	}
	return string(b)
}

func ustr(n uint64) string { return strconv.FormatUint(n, 10) }

// block is what the interface says about b; the nil fields are absent.
func block(m *Model, b *ledger.AccountBlock) obj {
	o := obj{"hash": b.Hash, "height": ustr(b.Height), "blockType": b.BlockType, "accountAddress": b.AccountAddress, "address": b.AccountAddress,
		"prevHash": b.PrevHash, "previousHash": b.PrevHash}
	if c := m.Conf[b.Hash]; c > 0 {
		sb := m.Sbs[c-1]
		top := m.Sbs[len(m.Sbs)-1].Height
		o["confirmedTimes"], o["confirmations"] = ustr(top-c+1), ustr(top-c+1)
		o["confirmedHash"], o["firstSnapshotHash"], o["firstSnapshotHeight"] = sb.Hash, sb.Hash, ustr(c)
		o["timestamp"] = sb.Timestamp.Unix()
	} else {
		for _, k := range []string{"confirmedTimes", "confirmations", "confirmedHash", "firstSnapshotHash", "firstSnapshotHeight"} {
			o[k] = nil
		}
		o["timestamp"] = 0
	}
	if b.BlockType == ledger.BlockTypeGenesisReceive {
		return o
	}
	o["publicKey"], o["signature"], o["data"], o["nonce"] = b.PublicKey, b.Signature, b.Data, b.Nonce
	if len(b.PublicKey) > 0 {
		o["producer"] = types.PubkeyToAddress(b.PublicKey)
	}
	o["difficulty"] = nil
	if b.Difficulty != nil {
		o["difficulty"] = b.Difficulty.String()
	}
	o["quota"], o["quotaByStake"] = ustr(b.Quota), ustr(b.Quota)
	o["quotaUsed"], o["totalQuota"] = ustr(b.QuotaUsed), ustr(b.QuotaUsed)
	o["logHash"], o["vmLogHash"] = b.LogHash, b.LogHash
	s := b
	o["receiveBlockHash"], o["receiveBlockHeight"] = nil, nil
	if b.IsSendBlock() {
		if r := m.Recv[b.Hash]; r != nil {
			o["receiveBlockHash"], o["receiveBlockHeight"] = r.Hash, ustr(r.Height)
		}
	} else {
		s = m.ByHash[b.FromBlockHash]
		o["fromBlockHash"], o["sendBlockHash"] = b.FromBlockHash, b.FromBlockHash
	}
	o["fromAddress"], o["toAddress"], o["tokenId"] = s.AccountAddress, s.ToAddress, s.TokenId
	o["amount"] = "0"
	if s.Amount != nil {
		o["amount"] = s.Amount.String()
	}
	o["fee"] = "0"
	if s.Fee != nil {
		o["fee"] = s.Fee.String()
	}
	if s.TokenId == ledger.ViteTokenId {
		o["tokenInfo"] = obj{"tokenId": s.TokenId, "tokenSymbol": "VITE", "decimals": 18}
	}
	if len(b.SendBlockList) > 0 {
		l := []interface{}{}
		for _, x := range b.SendBlockList {
			l = append(l, block(m, x))
		}
		o["sendBlockList"], o["triggeredSendBlockList"] = l, l
	}
	return o
}

func blocks(m *Model, l []*ledger.AccountBlock) []interface{} {
	r := []interface{}{}
	for _, b := range l {
		r = append(r, block(m, b))
	}
	return r
}

func snapshot(b *ledger.SnapshotBlock) obj {
	o := obj{"hash": b.Hash, "prevHash": b.PrevHash, "previousHash": b.PrevHash, "height": b.Height, "timestamp": b.Timestamp.Unix(), "seed": b.Seed, "publicKey": b.PublicKey, "signature": b.Signature, "version": b.Version}
	if len(b.PublicKey) > 0 {
		o["producer"] = types.PubkeyToAddress(b.PublicKey)
	}
	if b.SnapshotContent != nil {
		c := obj{}
		for a, hh := range b.SnapshotContent {
			c[a.String()] = obj{"height": hh.Height, "hash": hh.Hash}
		}
		o["snapshotContent"], o["snapshotData"] = c, c
	}
	return o
}

func snapshots(l []*ledger.SnapshotBlock) []interface{} {
	r := []interface{}{}
	for _, b := range l {
		r = append(r, snapshot(b))
	}
	return r
}

// differ explains where got departs from want: every key of want must be there with its value.
func differ(path string, want, got interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: %s instead of %s", path, text(got), text(want))
		}
		keys := []string{}
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if d := differ(path+"."+k, w[k], g[k]); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, _ := got.([]interface{})
		if len(g) != len(w) {
			return fmt.Sprintf("%s: %d items instead of %d: %s, want %s", path, len(g), len(w), text(got), text(want))
		}
		for i := range w {
			if d := differ(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if text(want) != text(got) {
		if (want == nil || want == "") && (got == nil || got == "") { // empty bytes
			return ""
		}
		return fmt.Sprintf("%s: %s instead of %s", path, text(got), text(want))
	}
	return ""
}

type view struct {
	n *node
	h *Hist
	m *Model
}

func (v *view) eq(want interface{}, method string, args ...interface{}) {
	got, err := v.n.ask(method, args...)
	if err != nil {
		v.h.C.Fail(method, "%s%s: %v, the ledger has %s", method, text(args), err, text(norm(want)))
	}
	if d := differ("answer", norm(want), got); d != "" {
		v.h.C.Fail(method, "%s%s: %s", method, text(args), d)
	}
}

func (v *view) absent(method string, args ...interface{}) {
	got, err := v.n.ask(method, args...)
	if err == nil && got != nil {
		if l, ok := got.([]interface{}); ok && len(l) == 0 {
			return
		}
		v.h.C.Fail(method, "%s%s: %s, the ledger has nothing", method, text(args), text(got))
	}
}

func desc(l []*ledger.AccountBlock) []*ledger.AccountBlock {
	var r []*ledger.AccountBlock
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

func cutTo(l []*ledger.AccountBlock, n int) []*ledger.AccountBlock {
	if len(l) > n {
		l = l[:n]
	}
	return l
}

func addrs(m *Model) []types.Address {
	set := map[types.Address]bool{NewAcct(0x77).Addr: true, ContractAddr(0): true}
	for _, u := range Users[:3] {
		set[u.Addr] = true
	}
	for _, b := range m.ByHash {
		if b.BlockType == ledger.BlockTypeGenesisReceive {
			continue
		}
		set[b.AccountAddress] = true
		if b.IsSendBlock() {
			set[b.ToAddress] = true
		}
	}
	var l []types.Address
	for a := range set {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func (v *view) accounts() {
	m := v.m
	for _, a := range addrs(m) {
		ch := m.Chains[a]
		n := len(ch)
		if n == 0 {
			v.absent("getLatestAccountBlock", a)
			v.absent("getAccountBlocks", a, nil, nil, 10)
		} else {
			v.eq(block(m, ch[n-1]), "getLatestAccountBlock", a)
			v.eq(block(m, ch[n-1]), "getLatestBlock", a)
		}
		d := desc(ch)
		for _, k := range []int{1, 2, 100} {
			if n > 0 {
				v.eq(blocks(m, cutTo(d, k)), "getAccountBlocks", a, nil, nil, k)
			}
			for i := range d {
				v.eq(blocks(m, cutTo(d[i:], k)), "getAccountBlocks", a, d[i].Hash, nil, k)
				v.eq(blocks(m, cutTo(d[i:], k)), "getBlocksByHeight", a, ustr(d[i].Height), k)
			}
			for page := 0; page*k <= n; page++ {
				v.eq(blocks(m, cutTo(d[min(page*k, n):], k)), "getAccountBlocksByAddress", a, page, k)
			}
		}
		for i := 0; i < n; i++ {
			v.eq(block(m, ch[i]), "getAccountBlockByHeight", a, ustr(uint64(i+1)))
			v.eq(block(m, ch[i]), "getAccountBlockByHeight", a, i+1)
			for j := i; j < n; j++ {
				v.eq(blocks(m, desc(ch[i:j+1])), "getAccountBlocksByHeightRange", a, i+1, j+1)
			}
		}
		v.absent("getAccountBlockByHeight", a, ustr(uint64(n+1)))
		got, err := v.n.ask("getAccountInfoByAddress", a)
		if err != nil {
			v.h.C.Fail("getAccountInfoByAddress", "getAccountInfoByAddress %s: %v", a, err)
		}
		want := obj{"address": a, "blockCount": ustr(uint64(n))}
		bal := m.Balance(a, ledger.ViteTokenId, All)
		info, _ := got.(map[string]interface{})
		bm, _ := info["balanceInfoMap"].(map[string]interface{})
		if bal.Sign() > 0 || bm[ledger.ViteTokenId.String()] != nil {
			want["balanceInfoMap"] = obj{ledger.ViteTokenId.String(): obj{"balance": bal.String(), "tokenInfo": obj{"tokenSymbol": "VITE"}}}
		}
		if d := differ("answer", norm(want), got); d != "" {
			v.h.C.Fail("getAccountInfoByAddress", "getAccountInfoByAddress %s: %s", a, d)
		}
		v.unreceived(a)
		var un []*ledger.AccountBlock
		for _, b := range ch {
			if m.Conf[b.Hash] == 0 {
				un = append(un, b)
			}
		}
		v.hashes("getUnconfirmedBlocks", un, a)
	}
	var un []*ledger.AccountBlock
	for _, b := range m.Order {
		if m.Conf[b.Hash] == 0 {
			un = append(un, b)
		}
	}
	v.hashes("getAllUnconfirmedBlocks", un)
	for _, b := range m.ByHash {
		if b.BlockType == ledger.BlockTypeGenesisReceive {
			continue
		}
		v.eq(block(m, b), "getAccountBlockByHash", b.Hash)
		v.eq(block(m, b), "getBlockByHash", b.Hash)
		v.eq(obj{"hash": b.Hash}, "getRawBlockByHash", b.Hash)
		whole := b
		if p := m.Parent[b.Hash]; p != nil {
			whole = p
		}
		v.eq(block(m, whole), "getCompleteBlockByHash", b.Hash)
		v.trip(b)
	}
	v.absent("getAccountBlockByHash", types.Hash{1, 2, 3})
}

// hashes compares the hashes of a list in order.
func (v *view) hashes(method string, want []*ledger.AccountBlock, args ...interface{}) {
	w := []interface{}{}
	for _, b := range want {
		w = append(w, obj{"hash": b.Hash})
	}
	v.eq(w, method, args...)
}

// trip sends the answer for b back in: it must be the same block.
func (v *view) trip(b *ledger.AccountBlock) {
	var r api.AccountBlock
	if err := v.n.cl.Call(&r, "ledger_getAccountBlockByHash", b.Hash); err != nil {
		v.h.C.Fail("trip", "%v", err)
	}
	if r.Fee != nil && b.IsReceiveBlock() {
		*r.Fee = "0" // it shows the fee of the send
	}
	l, err := r.RpcToLedgerBlock()
	if err != nil || l.ComputeHash() != b.Hash && v.m.Parent[b.Hash] == nil {
		v.h.C.Fail("trip", "block %s read over RPC and converted back: %v, it hashes to %s", b.Hash, err, l.ComputeHash())
	}
	if l.QuotaUsed != b.QuotaUsed || l.Quota != b.Quota || !bytes.Equal(l.Signature, b.Signature) || !bytes.Equal(l.PublicKey, b.PublicKey) || len(l.SendBlockList) != len(b.SendBlockList) {
		v.h.C.Fail("trip", "block %s read over RPC and converted back is %+v, not %+v", b.Hash, l, b)
	}
}

// unreceived checks that the pages of what a has not received show everything exactly once.
func (v *view) unreceived(a types.Address) {
	want := map[string]*ledger.AccountBlock{}
	for _, s := range v.m.Pending(a) {
		want[s.Hash.String()] = s
	}
	for _, k := range []int{1, 2, 100} {
		seen := map[string]bool{}
		for page := 0; page*k <= len(want); page++ {
			got, err := v.n.ask("getUnreceivedBlocksByAddress", a, page, k)
			l, _ := got.([]interface{})
			if err != nil || len(l) != min(k, len(want)-page*k) {
				v.h.C.Fail("getUnreceivedBlocksByAddress", "unreceived blocks of %s, page %d of %d each: %d (%v), there are %d in all", a, page, k, len(l), err, len(want))
			}
			for _, x := range l {
				o, _ := x.(map[string]interface{})
				hs, _ := o["hash"].(string)
				s := want[hs]
				if s == nil || seen[hs] {
					v.h.C.Fail("getUnreceivedBlocksByAddress", "unreceived blocks of %s, page %d of %d each: %s is received, unknown or shown twice", a, page, k, hs)
				}
				seen[hs] = true
				if d := differ("answer", norm(block(v.m, s)), x); d != "" {
					v.h.C.Fail("getUnreceivedBlocksByAddress", "unreceived block %s of %s: %s", hs, a, d)
				}
			}
		}
	}
	sum := new(big.Int)
	for _, s := range want {
		if s.TokenId == ledger.ViteTokenId && s.Amount != nil {
			sum.Add(sum, s.Amount)
		}
	}
	w := obj{"address": a, "blockCount": ustr(uint64(len(want)))}
	if len(want) > 0 {
		w["balanceInfoMap"] = obj{ledger.ViteTokenId.String(): obj{"balance": sum.String(), "transactionCount": ustr(uint64(len(want)))}}
	}
	v.eq(w, "getUnreceivedTransactionSummaryByAddress", a)
	v.eq([]interface{}{w}, "getUnreceivedTransactionSummaryInBatch", []types.Address{a, a})
	got, err := v.n.ask("getUnreceivedBlocksInBatch", []obj{{"address": a, "pageNumber": 0, "pageCount": 100}})
	g, _ := got.(map[string]interface{})
	l, _ := g[a.String()].([]interface{})
	if err != nil || len(l) != len(want) {
		v.h.C.Fail("getUnreceivedBlocksInBatch", "unreceived blocks of %s in a batch: %d (%v), there are %d", a, len(l), err, len(want))
	}
}

func (v *view) snapshotChain() {
	m := v.m
	n := len(m.Sbs)
	top := m.Sbs[n-1]
	v.eq(snapshot(top), "getLatestSnapshotBlock")
	v.eq(top.Hash, "getLatestSnapshotHash")
	v.eq(ustr(top.Height), "getSnapshotChainHeight")
	for i, b := range m.Sbs {
		v.eq(snapshot(b), "getSnapshotBlockByHash", b.Hash)
		v.eq(snapshot(b), "getSnapshotBlockByHeight", ustr(b.Height))
		v.eq(snapshot(b), "getSnapshotBlockByHeight", b.Height)
		for _, k := range []int{1, 2, 100} {
			var l []*ledger.SnapshotBlock
			for j := i; j >= 0 && len(l) < k; j-- {
				l = append(l, m.Sbs[j])
			}
			v.eq(snapshots(l), "getSnapshotBlocks", ustr(b.Height), k)
		}
		v.eq(snapshot(b), "getSnapshotBlockBeforeTime", b.Timestamp.Unix()+1)
		if i > 0 {
			for j := i; j < n; j++ {
				v.chunks(uint64(i+1), uint64(j+1))
			}
		}
		var as []types.Address
		bal := obj{}
		for _, a := range addrs(m) {
			as = append(as, a)
			x := m.Balance(a, ledger.ViteTokenId, m.ConfirmedAt(b.Height))
			bal[a.String()] = obj{ledger.ViteTokenId.String(): x}
		}
		got, err := v.n.ask("getConfirmedBalances", b.Hash, as, []types.TokenTypeId{ledger.ViteTokenId})
		g, _ := got.(map[string]interface{})
		for a, x := range bal { // an account without balance may be left out
			if g[a] == nil && x.(obj)[ledger.ViteTokenId.String()].(*big.Int).Sign() == 0 {
				delete(bal, a)
			}
		}
		if d := differ("answer", norm(bal), got); err != nil || d != "" {
			v.h.C.Fail("getConfirmedBalances", "balances confirmed at height %d: %v %s", b.Height, err, d)
		}
	}
	v.absent("getSnapshotBlockByHash", types.Hash{1, 2})
	v.absent("getSnapshotBlockByHeight", ustr(top.Height+1))
}

// chunks compares the ledger of snapshot heights from..to.
func (v *view) chunks(from, to uint64) {
	for _, method := range []string{"getChunksV2", "getChunks"} {
		got, err := v.n.ask(method, ustr(from), ustr(to))
		l, _ := got.([]interface{})
		if err != nil || uint64(len(l)) != to-from+1 {
			v.h.C.Fail(method, "%s(%d, %d): %d chunks, %v", method, from, to, len(l), err)
		}
		for i, x := range l {
			o, _ := x.(map[string]interface{})
			sb, abs := o["snapshotBlock"], o["accountBlocks"]
			if method == "getChunks" {
				sb, abs = o["SnapshotBlock"], o["AccountBlocks"]
			}
			h := from + uint64(i)
			if d := differ("answer", norm(snapshot(v.m.Sbs[h-1])), sb); d != "" {
				v.h.C.Fail(method, "%s(%d, %d), chunk %d: %s", method, from, to, h, d)
			}
			want := map[string]*ledger.AccountBlock{}
			for _, b := range v.m.Order {
				if v.m.Conf[b.Hash] == h {
					want[b.Hash.String()] = b
				}
			}
			al, _ := abs.([]interface{})
			if len(al) != len(want) {
				v.h.C.Fail(method, "%s(%d, %d), chunk %d: %d account blocks, it confirms %d", method, from, to, h, len(al), len(want))
			}
			last := map[string]uint64{}
			for _, y := range al {
				ab, _ := y.(map[string]interface{})
				hs, _ := ab["hash"].(string)
				b := want[hs]
				if b == nil || last[b.AccountAddress.String()] >= b.Height {
					v.h.C.Fail(method, "%s(%d, %d), chunk %d: account block %s is not confirmed there, is there twice or is out of order", method, from, to, h, hs)
				}
				last[b.AccountAddress.String()] = b.Height
				if method == "getChunksV2" {
					if d := differ("answer", norm(block(v.m, b)), y); d != "" {
						v.h.C.Fail(method, "%s(%d, %d), chunk %d, block %s: %s", method, from, to, h, hs, d)
					}
				}
			}
		}
	}
}

type logRec struct {
	a types.Address
	b *ledger.AccountBlock
	l *ledger.VmLog
}

func (r logRec) json() obj {
	return obj{"vmlog": obj{"topics": r.l.Topics, "data": r.l.Data}, "accountBlockHash": r.b.Hash, "accountBlockHeight": ustr(r.b.Height), "address": r.a}
}

// logs compares event logs and their filters.
func (v *view) logs() {
	m := v.m
	byAddr := map[types.Address][]logRec{}
	var as []types.Address
	for _, a := range addrs(m) {
		for _, b := range m.Chains[a] {
			if b.BlockType == ledger.BlockTypeGenesisReceive {
				continue
			}
			var list ledger.VmLogList
			if b.LogHash != nil {
				l, err := v.h.W.Chain.GetVmLogList(b.LogHash)
				if err != nil || len(l) == 0 {
					v.h.C.Fail("logs", "logs of block %s: %v", b.Hash, err)
				}
				list = l
			}
			w := []interface{}{}
			for _, l := range list {
				w = append(w, obj{"topics": l.Topics, "data": l.Data})
				byAddr[a] = append(byAddr[a], logRec{a, b, l})
			}
			v.eq(w, "getVmLogs", b.Hash)
		}
		if types.IsContractAddr(a) && len(m.Chains[a]) > 0 {
			as = append(as, a)
		}
	}
	topics := [][][]types.Hash{nil, {{}}, {{topic(1)}}, {{topic(2)}}, {{topic(1), topic(2)}}, {{topic(3)}, {topic(1)}}, {{topic(9)}}}
	for _, a := range as {
		n := uint64(len(m.Chains[a]))
		for from := uint64(1); from <= n; from++ {
			for _, to := range []uint64{0, from, n} {
				for _, tp := range topics {
					v.filter([]types.Address{a}, from, to, tp, byAddr)
				}
			}
		}
	}
	if len(as) > 1 {
		for _, tp := range topics {
			v.filter(as, 1, 0, tp, byAddr)
		}
	}
}

func topic(n int64) types.Hash {
	h, _ := types.BytesToHash(Word(n))
	return h
}

func match(l *ledger.VmLog, topics [][]types.Hash) bool {
	if len(l.Topics) < len(topics) {
		return false
	}
	for i, t := range topics {
		ok := len(t) == 0
		for _, x := range t {
			ok = ok || x == l.Topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

// filter asks for the logs of addresses as at heights from..to, whole and in pages.
func (v *view) filter(as []types.Address, from, to uint64, topics [][]types.Hash, byAddr map[types.Address][]logRec) {
	rng := obj{}
	want := map[string]bool{}
	var order []interface{}
	for _, a := range as {
		rng[a.String()] = obj{"fromHeight": ustr(from), "toHeight": ustr(to)}
		n := 0
		for _, r := range byAddr[a] {
			if r.b.Height >= from && (to == 0 || r.b.Height <= to) && match(r.l, topics) {
				want[fmt.Sprintf("%s/%d", text(norm(r.json())), n)] = true
				order = append(order, r.json())
				n++
			}
		}
	}
	p := obj{"addressHeightRange": rng, "topics": topics}
	what := fmt.Sprintf("logs of %v, heights %d to %d, topics %v", as, from, to, topics)
	if len(as) == 1 {
		v.eq(order, "getVmLogsByFilter", p)
	}
	for _, k := range []int{0, 1, 2} {
		seen := map[string]bool{}
		cnt := map[string]int{}
		total := 0
		for page := 0; ; page++ {
			p["pageIndex"], p["pageSize"] = page, k
			got, err := v.n.ask("getVmLogsByFilter", p)
			if err != nil {
				v.h.C.Fail("getVmLogsByFilter", "%s: %v", what, err)
			}
			l, _ := got.([]interface{})
			exp := len(want)
			if k > 0 {
				exp = min(k, max(0, len(want)-page*k))
			}
			if len(l) != exp {
				v.h.C.Fail("getVmLogsByFilter", "%s, page %d of %d each: %d logs instead of %d, there are %d in all", what, page, k, len(l), exp, len(want))
			}
			for _, x := range l {
				o, _ := x.(map[string]interface{})
				ad, _ := o["address"].(string)
				key := fmt.Sprintf("%s/%d", text(norm(pick(o))), cnt[ad])
				cnt[ad]++
				if !want[key] || seen[key] {
					v.h.C.Fail("getVmLogsByFilter", "%s, page %d of %d each: %s is not one of them, is there twice or is out of order", what, page, k, text(x))
				}
				seen[key] = true
				total++
			}
			if k == 0 || page*k >= len(want) {
				break
			}
		}
		if total != len(want) {
			v.h.C.Fail("getVmLogsByFilter", "%s, in pages of %d: %d logs, there are %d", what, k, total, len(want))
		}
	}
}

func pick(o obj) obj {
	l, _ := o["vmlog"].(map[string]interface{})
	return obj{"vmlog": obj{"topics": l["topics"], "data": l["data"]}, "accountBlockHash": o["accountBlockHash"], "accountBlockHeight": o["accountBlockHeight"], "address": o["address"]}
}

// bad asks what makes no sense: the interface must answer something and stay up.
func (v *view) bad() {
	a := Users[0].Addr
	for _, q := range [][]interface{}{
		{"getAccountBlocksByHeightRange", a, 2, 1}, {"getAccountBlocksByHeightRange", a, 0, 0}, {"getAccountBlocksByHeightRange", a, 0, 5}, {"getAccountBlocksByHeightRange", a, uint64(1) << 63, uint64(1)<<63 + 3},
		{"getAccountBlocksByAddress", a, -1, 1}, {"getAccountBlocksByAddress", a, 0, -1}, {"getAccountBlocksByAddress", a, 1 << 40, 999},
		{"getAccountBlocks", a, types.Hash{7}, nil, 3}, {"getAccountBlocks", a, nil, nil, 0},
		{"getBlocksByHeight", a, "0", 3}, {"getBlocksByHeight", a, "18446744073709551615", 3}, {"getBlocksByHeight", a, "x", 3},
		{"getSnapshotBlocks", "0", 3}, {"getSnapshotBlocks", "18446744073709551615", 3}, {"getSnapshotBlocks", "1", -1},
		{"getChunksV2", "0", "1"}, {"getChunksV2", "2", "1"}, {"getChunksV2", "0", "0"}, {"getChunks", "0", "2"}, {"getChunksV2", "1", "1"}, {"getChunksV2", "1000", "1001"},
		{"getVmLogs", types.Hash{7}}, {"getVmLogsByFilter", obj{}}, {"getVmLogsByFilter", obj{"addressHeightRange": obj{a.String(): nil}}},
		{"getSnapshotBlockBeforeTime", 0}, {"getSnapshotBlockBeforeTime", -1},
		{"getConfirmedBalances", types.Hash{7}, []types.Address{a}, []types.TokenTypeId{ledger.ViteTokenId}},
		{"getUnreceivedBlocksByAddress", a, 1 << 40, 999}, {"getUnreceivedBlocksByAddress", a, 0, 0}, {"noSuchMethod"}, {"getAccountBlockByHeight", a}, {"getAccountBlockByHeight", "x", 1},
	} {
		done := make(chan error, 1)
		go func() {
			_, err := v.n.ask(q[0].(string), q[1:]...)
			done <- err
		}()
		select {
		case err := <-done:
			if err != nil && strings.Contains(err.Error(), "closed") {
				v.h.C.Fail("bad", "%s: %v", text(q), err)
			}
		case <-time.After(20 * time.Second):
			v.h.C.Fail("bad", "%s: no answer", text(q))
		}
	}
}

func check(n *node, h *Hist) {
	v := &view{n, h, h.Model()}
	v.accounts()
	v.snapshotChain()
	v.logs()
}

func scen(name string, deploy int, prefix []Op, depth int, ops []Op, bad bool) Scenario {
	s := Sequences(name, Options{}, deploy, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		n := &node{}
		c.Defer(n.close)
		h := NewHist(c, options(n), deploy)
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		for i := 0; i <= depth; i++ {
			if i > 0 {
				h.Step(ops)
			}
			if c.Fresh() {
				c.State()
				if bad {
					(&view{n, h, h.Model()}).bad()
				}
				check(n, h)
			}
		}
	}
	return s
}

func main() {
	Silence()
	c0, c1 := ContractAddr(0), ContractAddr(1)
	u1 := Users[1].Addr
	Main(Suite{Property: "R01", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 3
		if tier == "thorough" {
			d = 5
		}
		return []Scenario{
			scen("users", 0, []Op{OpXfer(0, 1), OpSnap()}, d, []Op{OpXfer(0, 1), OpXfer(1, 1), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpRestart()}, false),
			scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeSplit)}, d, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeRevert), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpRestart()}, false),
			scen("logs", 2, []Op{OpCall(0, 1, ModeNest), OpCall(0, 0, ModeStore), OpSnap(), OpCRecv(c0, "c0"), OpCRecv(c1, "c1"), OpCall(0, 0, ModeTwo), OpSnap(), OpCRecv(c0, "c0"), OpCRecv(c0, "c0")}, d, []Op{OpCall(0, 1, ModeNest), OpCall(0, 0, ModeStore), OpCRecv(c1, "c1"), OpCRecv(c0, "c0"), OpSnap(), OpRollback(1)}, false),
			scen("odd requests", 1, []Op{OpXfer(0, 1), OpSnap(), OpXfer(0, 2)}, 1, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpRollback(1)}, true),
		}
	}})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
