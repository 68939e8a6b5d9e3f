package kit

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/syndtr/goleveldb/leveldb"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// Dump is everything observable about a ledger through its public queries.
type Dump map[string]string

func hx(h types.Hash) string { return h.String()[:12] }

func errs(err error) string {
	if err == nil {
		return ""
	}
	return "ERR:" + err.Error()
}

// BlockText is a canonical rendering of an account block's content.
func BlockText(b *ledger.AccountBlock) string {
	if b == nil {
		return "<nil>"
	}
	buf, err := b.Serialize()
	if err != nil {
		return errs(err)
	}
	return fmt.Sprintf("%x", buf)
}

// SbText is a canonical rendering of a snapshot block.
func SbText(b *ledger.SnapshotBlock) string {
	if b == nil {
		return "<nil>"
	}
	var sc []string
	for a, hh := range b.SnapshotContent {
		sc = append(sc, fmt.Sprintf("%s=%d/%s", a, hh.Height, hx(hh.Hash)))
	}
	sort.Strings(sc)
	return fmt.Sprintf("%s<-%s h%d t%d seed%d sh%v v%d pk%x sig%x sc%v", hx(b.Hash), hx(b.PrevHash), b.Height, b.Timestamp.Unix(), b.Seed, b.SeedHash, b.Version, b.PublicKey, b.Signature, sc)
}

// SbHead renders a snapshot header (content is not part of a header query).
func SbHead(b *ledger.SnapshotBlock) string {
	if b == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s<-%s h%d t%d seed%d sh%v v%d pk%x sig%x", hx(b.Hash), hx(b.PrevHash), b.Height, b.Timestamp.Unix(), b.Seed, b.SeedHash, b.Version, b.PublicKey, b.Signature)
}

func iterText(it interfaces.StorageIterator) (fwd, bwd []string, err error) {
	defer it.Release()
	for it.Next() {
		fwd = append(fwd, fmt.Sprintf("%x=%x", it.Key(), it.Value()))
	}
	if e := it.Error(); e != nil {
		return nil, nil, e
	}
	if it.Last() {
		for {
			bwd = append(bwd, fmt.Sprintf("%x=%x", it.Key(), it.Value()))
			if !it.Prev() {
				break
			}
		}
	}
	return fwd, bwd, it.Error()
}

// Tokens and extra addresses every dump looks at.
type DumpOpts struct {
	Addrs  []types.Address
	Tokens []types.TokenTypeId
	// Hist also dumps the state at every snapshot height.
	Hist bool
	// From is the first snapshot height to include in per-height queries.
	From uint64
	// Skip leaves out the snapshot heights strictly between the two.
	Skip [2]uint64
	Gids []types.Gid
	// Queries additionally exercises the range/paging variants.
	Queries bool
}

// BuiltinContracts are the addresses of the built-in contracts.
var BuiltinContracts = []types.Address{types.AddressQuota, types.AddressGovernance, types.AddressAsset, types.AddressDexFund, types.AddressDexTrade}

// Dump reads the whole observable ledger.
func (w *World) Dump(o DumpOpts) Dump {
	d := Dump{}
	c := w.Chain
	latest := c.GetLatestSnapshotBlock()
	d["sb.latest"] = SbText(latest)
	if o.From == 0 {
		o.From = 1
	}
	if len(o.Gids) == 0 {
		o.Gids = []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID}
	}
	addrSet := map[types.Address]bool{}
	for _, a := range o.Addrs {
		addrSet[a] = true
	}
	for _, u := range Users {
		addrSet[u.Addr] = true
	}
	addrSet[Producer.Addr] = true
	for i := range ContractOwners {
		addrSet[ContractOwners[i].Addr] = true
		addrSet[ContractAddr(i)] = true
	}
	for _, a := range BuiltinContracts {
		addrSet[a] = true
	}
	var accs []string
	c.IterateAccounts(func(addr types.Address, id uint64, err error) bool {
		if err == nil {
			b, _ := c.GetLatestAccountBlock(addr)
			if b != nil {
				accs = append(accs, addr.String())
				addrSet[addr] = true
			}
		}
		return true
	})
	sort.Strings(accs)
	d["accounts"] = strings.Join(accs, ",")
	var cons []string
	c.IterateContracts(func(addr types.Address, meta *ledger.ContractMeta, err error) bool {
		cons = append(cons, fmt.Sprintf("%s:%s", addr, MetaText(meta)))
		addrSet[addr] = true
		return true
	})
	sort.Strings(cons)
	d["contracts"] = strings.Join(cons, ",")
	for _, g := range o.Gids {
		l, err := c.GetContractList(g)
		var s []string
		for _, a := range l {
			s = append(s, a.String())
		}
		sort.Strings(s)
		d["contractlist."+g.String()] = strings.Join(s, ",") + errs(err)
	}
	var addrs []types.Address
	for a := range addrSet {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i][:], addrs[j][:]) < 0 })
	tokens := append([]types.TokenTypeId{ledger.ViteTokenId}, o.Tokens...)

	// snapshot chain
	for h := o.From; h <= latest.Height+1; h++ {
		if o.Skip[0] < h && h < o.Skip[1] {
			continue
		}
		b, err := c.GetSnapshotBlockByHeight(h)
		d[fmt.Sprintf("sb.%d", h)] = SbText(b) + errs(err)
		hd, err := c.GetSnapshotHeaderByHeight(h)
		d[fmt.Sprintf("sbh.%d", h)] = SbHead(hd) + errs(err)
		hs, err := c.GetSnapshotHashByHeight(h)
		d[fmt.Sprintf("sbhash.%d", h)] = fmt.Sprint(hs) + errs(err)
		if b != nil {
			hh, err := c.GetSnapshotHeightByHash(b.Hash)
			d[fmt.Sprintf("sbheight.%d", h)] = fmt.Sprint(hh) + errs(err)
			b2, err := c.GetSnapshotBlockByHash(b.Hash)
			d[fmt.Sprintf("sbbyhash.%d", h)] = SbText(b2) + errs(err)
			ex, err := c.IsSnapshotBlockExisted(b.Hash)
			d[fmt.Sprintf("sbex.%d", h)] = fmt.Sprint(ex) + errs(err)
			t := *b.Timestamp
			bt, err := c.GetSnapshotHeaderBeforeTime(&t)
			d[fmt.Sprintf("sbbefore.%d", h)] = SbHead(bt) + errs(err)
			hl, err := c.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{Height: latest.Height, Hash: latest.Hash}, &t, nil)
			d[fmt.Sprintf("sbafter.%d", h)] = headList(hl) + errs(err)
			if o.Hist {
				for _, tk := range tokens {
					m, err := c.GetConfirmedBalanceList(addrs, tk, b.Hash)
					d[fmt.Sprintf("hist.%d.bal.%s", h, tk)] = balText(m) + errs(err)
				}
				for _, g := range o.Gids {
					rl, err := c.GetRegisterList(b.Hash, g)
					d[fmt.Sprintf("hist.%d.reg.%s", h, g)] = listText(rl) + errs(err)
					ral, err := c.GetAllRegisterList(b.Hash, g)
					d[fmt.Sprintf("hist.%d.allreg.%s", h, g)] = listText(ral) + errs(err)
					vl, err := c.GetVoteList(b.Hash, g)
					d[fmt.Sprintf("hist.%d.vote.%s", h, g)] = listText(vl) + errs(err)
					cg, err := c.GetConsensusGroup(b.Hash, g)
					d[fmt.Sprintf("hist.%d.group.%s", h, g)] = JSON(cg) + errs(err)
				}
				cl, err := c.GetConsensusGroupList(b.Hash)
				d[fmt.Sprintf("hist.%d.groups", h)] = listText(cl) + errs(err)
				sl, _, err := c.GetStakeListByPage(b.Hash, nil, 100)
				d[fmt.Sprintf("hist.%d.stake", h)] = listText(sl) + errs(err)
				_, _, sdb := c.DBs()
				for _, a := range addrs {
					if !types.IsContractAddr(a) {
						continue
					}
					cm, err := c.GetContractMetaInSnapshot(a, h)
					d[fmt.Sprintf("hist.%d.meta.%s", h, a)] = MetaText(cm) + errs(err)
					it, err := sdb.NewSnapshotStorageIteratorByHeight(h, a, nil)
					if err != nil {
						d[fmt.Sprintf("hist.%d.store.%s", h, a)] = errs(err)
						continue
					}
					f, bw, err := iterText(it)
					d[fmt.Sprintf("hist.%d.store.%s", h, a)] = strings.Join(f, ";") + "|" + strings.Join(bw, ";") + errs(err)
					var vals []string
					for _, kv := range f {
						var k []byte
						fmt.Sscanf(strings.SplitN(kv, "=", 2)[0], "%x", &k)
						v, err := sdb.GetSnapshotValue(h, a, k)
						vals = append(vals, fmt.Sprintf("%x=%x%s", k, v, errs(err)))
					}
					d[fmt.Sprintf("hist.%d.vals.%s", h, a)] = strings.Join(vals, ";")
				}
			}
		}
	}
	if o.Queries {
		for from := o.From; from <= latest.Height; from++ {
			if o.Skip[0] < from && from < o.Skip[1] {
				continue
			}
			l, err := c.GetSnapshotBlocksByHeight(from, true, 3)
			d[fmt.Sprintf("sbrange.up.%d", from)] = sbList(l) + errs(err)
			l, err = c.GetSnapshotBlocksByHeight(from, false, 3)
			d[fmt.Sprintf("sbrange.down.%d", from)] = sbList(l) + errs(err)
			hl, err := c.GetSnapshotHeadersByHeight(from, true, 100)
			d[fmt.Sprintf("sbhrange.up.%d", from)] = headList(hl) + errs(err)
			hl, err = c.GetSnapshotHeadersByHeight(from, false, 2)
			d[fmt.Sprintf("sbhrange.down.%d", from)] = headList(hl) + errs(err)
			hsh, _ := c.GetSnapshotHashByHeight(from)
			if hsh != nil {
				l, err = c.GetRangeSnapshotBlocks(*hsh, latest.Hash)
				d[fmt.Sprintf("sbhashrange.%d", from)] = sbList(l) + errs(err)
				l, err = c.GetSnapshotBlocks(*hsh, true, 2)
				d[fmt.Sprintf("sbhashup.%d", from)] = sbList(l) + errs(err)
			}
			cs, err := c.GetSubLedger(from, latest.Height)
			d[fmt.Sprintf("subledger.%d", from)] = chunksText(cs) + errs(err)
			cs, err = c.GetSubLedgerAfterHeight(from)
			d[fmt.Sprintf("subafter.%d", from)] = chunksText(cs) + errs(err)
			if from > 1 {
				r, err := c.GetLedgerReaderByHeight(from, latest.Height)
				if err != nil {
					d[fmt.Sprintf("reader.%d", from)] = errs(err)
				} else {
					buf, e := io.ReadAll(r)
					seg := r.Seg()
					d[fmt.Sprintf("reader.%d", from)] = fmt.Sprintf("%d-%d %s %s len%d/%d %x%s", seg.From, seg.To, hx(seg.PrevHash), hx(seg.Hash), r.Size(), len(buf), types.DataHash(buf).Bytes()[:6], errs(e))
					r.Close()
				}
			}
		}
	}

	// accounts
	onroadAll, err := c.LoadAllOnRoad()
	d["onroad.all.err"] = errs(err)
	for a, hs := range onroadAll {
		var s []string
		for _, h := range hs {
			s = append(s, hx(h))
		}
		sort.Strings(s)
		if len(s) > 0 {
			d["onroad.all."+a.String()] = strings.Join(s, ",")
		}
	}
	for _, g := range o.Gids {
		var s []string
		err := c.LoadOnRoadRange(g, func(from, to types.Address, hh ledger.HashHeight) error {
			s = append(s, fmt.Sprintf("%s>%s %s/%d", from, to, hx(hh.Hash), hh.Height))
			return nil
		})
		sort.Strings(s)
		d["onroad.range."+g.String()] = strings.Join(s, ",") + errs(err)
	}
	for _, a := range addrs {
		p := a.String() + "."
		b, err := c.GetLatestAccountBlock(a)
		d[p+"latest"] = BlockText(b) + errs(err)
		lh, err := c.GetLatestAccountHeight(a)
		d[p+"height"] = fmt.Sprint(lh) + errs(err)
		var top uint64
		if b != nil {
			top = b.Height
		}
		for h := uint64(1); h <= top+1; h++ {
			q := fmt.Sprintf("%sblk.%d", p, h)
			ab, err := c.GetAccountBlockByHeight(a, h)
			d[q] = BlockText(ab) + errs(err)
			hs, err := c.GetAccountBlockHashByHeight(a, h)
			d[q+".hash"] = fmt.Sprint(hs) + errs(err)
			if ab != nil {
				w.dumpBlock(d, q, ab)
				for i, s := range ab.SendBlockList {
					w.dumpBlock(d, fmt.Sprintf("%s.s%d", q, i), s)
				}
				if o.Queries {
					l, err := c.GetAccountBlocks(ab.Hash, 2)
					d[q+".list"] = abList(l) + errs(err)
					l, err = c.GetAccountBlocksByHeight(a, h, 3)
					d[q+".listh"] = abList(l) + errs(err)
					l, err = c.GetAccountBlocksByRange(a, h, top)
					d[q+".range"] = abList(l) + errs(err)
					cb, err := c.GetCompleteBlockByHash(ab.Hash)
					d[q+".complete"] = BlockText(cb) + errs(err)
				}
			}
		}
		bm, err := c.GetBalanceMap(a)
		var bs []string
		for tk, v := range bm {
			if v.Sign() != 0 {
				bs = append(bs, tk.String()+"="+v.String())
			}
		}
		sort.Strings(bs)
		d[p+"balmap"] = strings.Join(bs, ",") + errs(err)
		for _, tk := range tokens {
			v, err := c.GetBalance(a, tk)
			d[p+"bal."+tk.String()] = fmt.Sprint(v) + errs(err)
		}
		code, err := c.GetContractCode(a)
		d[p+"code"] = fmt.Sprintf("%x", code) + errs(err)
		if types.IsContractAddr(a) {
			m, err := c.GetContractMeta(a)
			d[p+"meta"] = MetaText(m) + errs(err)
		}
		it, err := c.GetStorageIterator(a, nil)
		if err != nil {
			d[p+"store"] = errs(err)
		} else {
			f, bw, err := iterText(it)
			d[p+"store"] = strings.Join(f, ";") + errs(err)
			d[p+"storerev"] = strings.Join(bw, ";")
			var vals []string
			for _, kv := range f {
				var k []byte
				fmt.Sscanf(strings.SplitN(kv, "=", 2)[0], "%x", &k)
				v, err := c.GetValue(a, k)
				vals = append(vals, fmt.Sprintf("%x=%x%s", k, v, errs(err)))
			}
			d[p+"storeval"] = strings.Join(vals, ";")
		}
		ol, err := c.GetOnRoadBlocksByAddr(a, 0, 100)
		var os []string
		for _, x := range ol {
			os = append(os, hx(x.Hash))
		}
		sort.Strings(os)
		d[p+"onroad"] = strings.Join(os, ",") + errs(err)
		un := c.GetUnconfirmedBlocks(a)
		var us []string
		for _, x := range un {
			us = append(us, fmt.Sprintf("%d/%s", x.Height, hx(x.Hash)))
		}
		d[p+"unconf"] = strings.Join(us, ",")
		d[p+"quotaused"] = fmt.Sprint(c.GetQuotaUsedList(a))
		sb, err := c.GetStakeBeneficialAmount(a)
		d[p+"stakeben"] = fmt.Sprint(sb) + errs(err)
		if w.OR != nil && types.IsContractAddr(a) {
			for _, g := range o.Gids[1:] {
				l, err := w.OR.GetAllCallersFrontOnRoad(g, a)
				var fs []string
				for _, x := range l {
					fs = append(fs, hx(x.Hash))
				}
				sort.Strings(fs)
				d[p+"front."+g.String()] = strings.Join(fs, ",") + errs(err)
			}
		}
		lg, err := c.GetVMLogListByAddress(a, 1, top, nil)
		if top > 0 {
			d[p+"logs"] = logText(lg) + errs(err)
		}
	}
	// the set of unconfirmed blocks; order across accounts is a valid insertion order, not fixed by content
	var un []string
	for _, x := range c.GetAllUnconfirmedBlocks() {
		un = append(un, hx(x.Hash))
	}
	sort.Strings(un)
	d["unconf.all"] = strings.Join(un, ",")
	var need []string
	for a, hh := range c.GetContentNeedSnapshot() {
		need = append(need, fmt.Sprintf("%s=%d/%s", a, hh.Height, hx(hh.Hash)))
	}
	sort.Strings(need)
	d["need"] = strings.Join(need, ",")
	need = nil
	for a, r := range c.GetContentNeedSnapshotRange() {
		need = append(need, fmt.Sprintf("%s=%+v", a, *r))
	}
	sort.Strings(need)
	d["needrange"] = strings.Join(need, ",")
	// (the block count of the global figure includes the genesis blocks until the first rebuild; nothing uses it)
	gq := c.GetGlobalQuota()
	d["globalquota"] = fmt.Sprint(gq.QuotaTotal, gq.QuotaUsedTotal)
	ti, err := c.GetAllTokenInfo()
	var ts []string
	for k, v := range ti {
		ts = append(ts, k.String()+"="+JSON(v))
	}
	sort.Strings(ts)
	d["tokens"] = strings.Join(ts, ",") + errs(err)
	for k, v := range d {
		if len(v) > 4000 {
			d[k] = fmt.Sprintf("%s... %d bytes, %s", v[:600], len(v), types.DataHash([]byte(v)))
		}
	}
	return d
}

func (w *World) dumpBlock(d Dump, q string, ab *ledger.AccountBlock) {
	c := w.Chain
	x, err := c.GetAccountBlockByHash(ab.Hash)
	d[q+".byhash"] = BlockText(x) + errs(err)
	ex, err := c.IsAccountBlockExisted(ab.Hash)
	d[q+".ex"] = fmt.Sprint(ex) + errs(err)
	ct, err := c.GetConfirmedTimes(ab.Hash)
	d[q+".conf"] = fmt.Sprint(ct) + errs(err)
	cs, err := c.GetConfirmSnapshotHeaderByAbHash(ab.Hash)
	d[q+".confsb"] = SbHead(cs) + errs(err)
	if ab.IsSendBlock() {
		r, err := c.IsReceived(ab.Hash)
		d[q+".recv"] = fmt.Sprint(r) + errs(err)
		ra, err := c.GetReceiveAbBySendAb(ab.Hash)
		rh := "<nil>"
		if ra != nil {
			rh = hx(ra.Hash)
		}
		d[q+".recvby"] = rh + errs(err)
		cd, err := c.GetCallDepth(ab.Hash)
		d[q+".depth"] = fmt.Sprint(cd) + errs(err)
	}
	if ab.LogHash != nil {
		l, err := c.GetVmLogList(ab.LogHash)
		d[q+".loglist"] = logText(l) + errs(err)
	}
}

func logText(l ledger.VmLogList) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%v:%x", x.Topics, x.Data))
	}
	return strings.Join(s, ";")
}

// MetaText renders contract metadata without the bookkeeping that differs per insertion path.
func MetaText(m *ledger.ContractMeta) string {
	if m == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s/%d/%d/%d/%s", m.Gid, m.SendConfirmedTimes, m.SeedConfirmedTimes, m.QuotaRatio, hx(m.CreateBlockHash))
}

func headList(l []*ledger.SnapshotBlock) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%d/%s", x.Height, hx(x.Hash)))
	}
	return strings.Join(s, ",")
}
func sbList(l []*ledger.SnapshotBlock) string {
	var s []string
	for _, x := range l {
		s = append(s, SbText(x))
	}
	return strings.Join(s, ",")
}
func abList(l []*ledger.AccountBlock) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%d/%s", x.Height, hx(x.Hash)))
	}
	return strings.Join(s, ",")
}
func chunksText(cs []*ledger.SnapshotChunk) string {
	var s []string
	for _, x := range cs {
		var bs []string
		for _, b := range x.AccountBlocks {
			bs = append(bs, hx(b.Hash))
		}
		sort.Strings(bs)
		s = append(s, SbHead(x.SnapshotBlock)+"{"+strings.Join(bs, ",")+"}")
	}
	return strings.Join(s, "\n")
}
func balText(m map[types.Address]*big.Int) string {
	var s []string
	for a, v := range m {
		if v != nil && v.Sign() != 0 {
			s = append(s, a.String()+"="+v.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}
func listText(l interface{}) string {
	v := reflect.ValueOf(l)
	var s []string
	for i := 0; i < v.Len(); i++ {
		s = append(s, JSON(v.Index(i).Interface()))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// Diff lists up to n keys on which two dumps differ.
func Diff(a, b Dump, n int, ignore func(k string) bool) []string {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	var out []string
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if ignore != nil && ignore(k) {
			continue
		}
		if a[k] != b[k] {
			x, okx := a[k]
			y, oky := b[k]
			if !okx {
				x = "<absent>"
			}
			if !oky {
				y = "<absent>"
			}
			out = append(out, fmt.Sprintf("%s: %s != %s", k, cut(x), cut(y)))
			if len(out) >= n {
				break
			}
		}
	}
	return out
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// CloseLeaks closes the leveldb handles a chain's Destroy leaves open (found by type, not by name).
func CloseLeaks(v interface{}) {
	defer func() { recover() }()
	x := reflect.ValueOf(v)
	for x.Kind() == reflect.Ptr || x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	if x.Kind() != reflect.Struct {
		return
	}
	want := reflect.TypeOf((*leveldb.DB)(nil))
	for i := 0; i < x.NumField(); i++ {
		f := x.Field(i)
		if f.Type() == want && !f.IsNil() && f.CanAddr() {
			p := reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			p.Interface().(*leveldb.DB).Close()
		}
	}
}

var _ = time.Now
