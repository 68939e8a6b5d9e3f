// Package kit drives the real go-vite ledger, verifier, generator and VM for the checks.
package kit

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/vm"
)

// Acct is a user account whose key the harness owns.
type Acct struct {
	Addr types.Address
	Pub  ed25519.PublicKey
	Priv ed25519.PrivateKey
}

// NewAcct derives a deterministic account from a small number.
func NewAcct(n byte) *Acct {
	var d [32]byte
	d[0], d[1], d[31] = n, 0x5a, n^0xff
	pub, priv, err := ed25519.GenerateKeyFromD(d)
	if err != nil {
		panic(err)
	}
	return &Acct{types.PubkeyToAddress(pub), pub, priv}
}

// Sign is an interfaces.SignFunc.
func (a *Acct) Sign(msg []byte) ([]byte, ed25519.PublicKey, error) {
	return ed25519.Sign(a.Priv, msg), a.Pub, nil
}

func init() {
	log15.Root().SetHandler(log15.DiscardHandler())
}

const GenesisUnix = 1558411200

// Users are the accounts funded and staked in the genesis the harness uses.
var (
	Users    []*Acct
	Producer *Acct
)

func init() {
	for i := byte(1); i <= 4; i++ {
		Users = append(Users, NewAcct(i))
	}
	Producer = NewAcct(0xE0)
}

// UserBalance is each user's genesis VITE balance.
var UserBalance, _ = new(big.Int).SetString("100000000000000000000000000", 10)

// StakeQuota is what each user (and the producer) has staked for quota at genesis.
var StakeQuota, _ = new(big.Int).SetString("1000000000000000000000000", 10)

// Genesis builds a deterministic genesis configuration.
func Genesis(mod func(*config.Genesis)) *config.Genesis {
	g := config.MockGenesis()
	owner := Users[0].Addr
	g.GenesisAccountAddress = &owner
	for _, gi := range g.GovernanceInfo.ConsensusGroupInfoMap {
		gi.Owner = owner
	}
	pa := Producer.Addr
	for _, m := range g.GovernanceInfo.RegistrationInfoMap {
		for _, r := range m {
			r.BlockProducingAddress = &pa
			r.StakeAddress = &pa
			r.HistoryAddressList = []types.Address{pa}
		}
	}
	for _, t := range g.AssetInfo.TokenInfoMap {
		t.Owner = owner
	}
	vite := ledger.ViteTokenId.String()
	g.AccountBalanceMap = map[string]map[string]*big.Int{}
	g.QuotaInfo.StakeInfoMap = map[string][]*config.StakeInfo{}
	g.QuotaInfo.StakeBeneficialMap = map[string]*big.Int{}
	total := new(big.Int)
	all := append(append([]*Acct{}, Users...), Producer)
	all = append(all, ContractOwners...)
	var stakes []*config.StakeInfo
	stakeSum := new(big.Int)
	for _, u := range all {
		g.AccountBalanceMap[u.Addr.String()] = map[string]*big.Int{vite: new(big.Int).Set(UserBalance)}
		total.Add(total, UserBalance)
		a := u.Addr
		stakes = append(stakes, &config.StakeInfo{Amount: new(big.Int).Set(StakeQuota), ExpirationHeight: 1, Beneficiary: &a})
		g.QuotaInfo.StakeBeneficialMap[a.String()] = new(big.Int).Set(StakeQuota)
		stakeSum.Add(stakeSum, StakeQuota)
	}
	for i := range ContractOwners {
		a := ContractAddr(i)
		stakes = append(stakes, &config.StakeInfo{Amount: new(big.Int).Set(StakeQuota), ExpirationHeight: 1, Beneficiary: &a})
		g.QuotaInfo.StakeBeneficialMap[a.String()] = new(big.Int).Set(StakeQuota)
		stakeSum.Add(stakeSum, StakeQuota)
	}
	g.QuotaInfo.StakeInfoMap[owner.String()] = stakes
	g.AccountBalanceMap[types.AddressQuota.String()] = map[string]*big.Int{vite: stakeSum}
	total.Add(total, stakeSum)
	// the registration stake sits in the governance contract
	reg, _ := new(big.Int).SetString("100000000000000000000000", 10)
	g.AccountBalanceMap[types.AddressGovernance.String()] = map[string]*big.Int{vite: reg}
	total.Add(total, reg)
	for _, t := range g.AssetInfo.TokenInfoMap {
		t.TotalSupply = total
	}
	if mod != nil {
		mod(g)
	}
	return g
}

var inited bool

// InitGlobals initialises the process-wide configuration once.
func InitGlobals(g *config.Genesis) {
	if inited {
		return
	}
	inited = true
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(g.UpgradeCfg.MakeUpgradeBox())
	vm.InitVMConfig(false, true, true, false, "")
}

// CssVerifier accepts every producer (consensus is checked separately).
type CssVerifier struct{}

func (CssVerifier) VerifyABsProducer(abs map[types.Gid][]*ledger.AccountBlock) ([]*ledger.AccountBlock, error) {
	return nil, nil
}
func (CssVerifier) VerifySnapshotProducer(b *ledger.SnapshotBlock) (bool, error) { return true, nil }
func (CssVerifier) VerifyAccountProducer(b *ledger.AccountBlock) (bool, error)   { return true, nil }

// World is one real chain with verifier and on-road manager.
type World struct {
	Dir     string
	Cfg     *config.Chain
	Gen     *config.Genesis
	Chain   chain.Chain
	V       verifier.Verifier
	OR      *onroad.Manager
	Reader  core.SBPStatReader
	Css     interfaces.ConsensusVerifier
	Genesis time.Time
	// SnapGap is the time between two snapshot blocks.
	SnapGap time.Duration
}

// Options of a World.
type Options struct {
	DumpSkip [2]uint64 // heights dumps leave out
	Dir      string
	Cfg      *config.Chain
	Gen      *config.Genesis
	Reader   core.SBPStatReader
	Css      interfaces.ConsensusVerifier
	NoOnroad bool
	SnapGap  time.Duration
	Period   time.Duration // of the rounds the state cache follows
	// NewChain, if set, makes the (initialised) chain.
	NewChain func(o Options) (chain.Chain, error)
}

// Open opens (or creates) the ledger in o.Dir.
func Open(o Options) (*World, error) {
	if o.Gen == nil {
		o.Gen = Genesis(nil)
	}
	if o.Cfg == nil {
		o.Cfg = &config.Chain{LedgerGcRetain: 24 * 3600, LedgerGc: false}
	}
	if o.Css == nil {
		o.Css = CssVerifier{}
	}
	if o.SnapGap == 0 {
		o.SnapGap = time.Second
	}
	if o.Period == 0 {
		o.Period = 75 * time.Second
	}
	InitGlobals(o.Gen)
	w := &World{Dir: o.Dir, Cfg: o.Cfg, Gen: o.Gen, Reader: o.Reader, Css: o.Css, SnapGap: o.SnapGap}
	var c chain.Chain
	if o.NewChain != nil {
		x, err := o.NewChain(o)
		if err != nil {
			return nil, err
		}
		c = x
	} else {
		c = chain.NewChain(o.Dir, o.Cfg, o.Gen)
		if err := c.Init(); err != nil {
			return nil, err
		}
	}
	w.Chain = c
	t := *c.GetGenesisSnapshotBlock().Timestamp
	w.Genesis = t
	c.SetConsensus(o.Css, core.NewTimeIndex(t, o.Period))
	if !o.NoOnroad {
		w.OR = onroad.NewManager(nil, nil, nil, o.Reader, nil)
		w.OR.Init(c)
		c.Register(w.OR)
	}
	w.V = verifier.NewVerifier(c).Init(o.Css, o.Reader, w.OR)
	return w, nil
}

// Close shuts the world down without flushing (the chain was never Start-ed).
func (w *World) Close() error {
	if w.Chain == nil {
		return nil
	}
	if w.OR != nil {
		w.Chain.UnRegister(w.OR)
		w.OR.Close()
	}
	if p := w.Chain.Plugins(); p != nil {
		p.Close() // Destroy leaves it open
	}
	err := w.Chain.Destroy()
	CloseLeaks(w.Chain)
	return err
}

// Remove closes and deletes the directory.
func (w *World) Remove() {
	w.Close()
	os.RemoveAll(w.Dir)
}

var ErrPending = errors.New("kit: pending")

func (w *World) headers(addr types.Address) (*types.Hash, *types.Hash, *ledger.SnapshotBlock, error) {
	sb := w.Chain.GetLatestSnapshotBlock()
	prev, err := w.Chain.GetLatestAccountBlock(addr)
	if err != nil {
		return nil, nil, nil, err
	}
	var ph types.Hash
	if prev != nil {
		ph = prev.Hash
	}
	return &sb.Hash, &ph, sb, nil
}

// Msg is a request to produce a send block.
func Msg(from, to types.Address, token types.TokenTypeId, amount *big.Int, data []byte) *interfaces.IncomingMessage {
	return &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: from, ToAddress: &to, TokenId: &token, Amount: amount, Data: data}
}

// GenSend builds and signs a send block without inserting it.
func (w *World) GenSend(from *Acct, m *interfaces.IncomingMessage) (*interfaces.VmAccountBlock, error) {
	sh, ph, _, err := w.headers(from.Addr)
	if err != nil {
		return nil, err
	}
	g, err := generator.NewGenerator(w.Chain, w.Reader, from.Addr, sh, ph)
	if err != nil {
		return nil, err
	}
	r, err := g.GenerateWithMessage(m, &from.Addr, from.Sign)
	if err != nil {
		return nil, err
	}
	if r.Err != nil && r.VMBlock == nil {
		return nil, r.Err
	}
	if r.VMBlock == nil {
		return nil, errors.New("kit: no block generated")
	}
	return r.VMBlock, r.Err
}

// GenReceive builds and signs a receive block of send for acct addr; contract receives are signed by the producer.
func (w *World) GenReceive(addr types.Address, send *ledger.AccountBlock, signer *Acct) (*interfaces.VmAccountBlock, bool, error) {
	sh, ph, _, err := w.headers(addr)
	if err != nil {
		return nil, false, err
	}
	g, err := generator.NewGenerator(w.Chain, w.Reader, addr, sh, ph)
	if err != nil {
		return nil, false, err
	}
	r, err := g.GenerateWithOnRoad(send, &signer.Addr, signer.Sign, nil)
	if err != nil {
		return nil, false, err
	}
	return r.VMBlock, r.IsRetry, r.Err
}

// Reencode passes a block through its wire format.
func Reencode(b *ledger.AccountBlock) (*ledger.AccountBlock, error) {
	buf, err := b.Serialize()
	if err != nil {
		return nil, err
	}
	nb := &ledger.AccountBlock{}
	if err := nb.Deserialize(buf); err != nil {
		return nil, err
	}
	return nb, nil
}

// Submit verifies a produced block as a peer would (wire format, fresh execution) and inserts it.
func (w *World) Submit(b *ledger.AccountBlock) (*interfaces.VmAccountBlock, error) {
	nb, err := Reencode(b)
	if err != nil {
		return nil, err
	}
	return w.SubmitRaw(nb)
}

// SubmitRaw verifies and inserts without re-encoding.
func (w *World) SubmitRaw(nb *ledger.AccountBlock) (*interfaces.VmAccountBlock, error) {
	if err := w.V.VerifyNetAccountBlock(nb); err != nil {
		return nil, fmt.Errorf("net: %w", err)
	}
	task, vb, err := w.V.VerifyPoolAccountBlock(nb, w.Chain.GetLatestSnapshotBlock())
	if err != nil {
		return nil, err
	}
	if task != nil {
		return nil, ErrPending
	}
	if vb == nil {
		return nil, errors.New("kit: verify gave nothing")
	}
	if err := w.Chain.InsertAccountBlock(vb); err != nil {
		return nil, err
	}
	return vb, nil
}

// Send produces, verifies and inserts a send.
func (w *World) Send(from *Acct, to types.Address, token types.TokenTypeId, amount *big.Int, data []byte) (*ledger.AccountBlock, error) {
	return w.SendMsg(from, Msg(from.Addr, to, token, amount, data))
}

// SendMsg produces, verifies and inserts the message's block.
func (w *World) SendMsg(from *Acct, m *interfaces.IncomingMessage) (*ledger.AccountBlock, error) {
	vb, err := w.GenSend(from, m)
	if err != nil {
		return nil, err
	}
	vb2, err := w.Submit(vb.AccountBlock)
	if err != nil {
		return nil, err
	}
	return vb2.AccountBlock, nil
}

// Receive makes the addressee receive send (users sign themselves, contracts by the producer).
func (w *World) Receive(send *ledger.AccountBlock, signer *Acct) (*ledger.AccountBlock, error) {
	if signer == nil {
		signer = Producer
		for _, u := range Users {
			if u.Addr == send.ToAddress {
				signer = u
			}
		}
	}
	vb, _, err := w.GenReceive(send.ToAddress, send, signer)
	if vb == nil {
		if err == nil {
			err = errors.New("kit: no receive block")
		}
		return nil, err
	}
	vb2, err := w.Submit(vb.AccountBlock)
	if err != nil {
		return nil, err
	}
	return vb2.AccountBlock, nil
}

// NextSnapshot builds the next snapshot block with the given content (nil: everything unconfirmed).
func (w *World) NextSnapshot(content ledger.SnapshotContent, seed uint64) *ledger.SnapshotBlock {
	head := w.Chain.GetLatestSnapshotBlock()
	if content == nil {
		content = w.Chain.GetContentNeedSnapshot()
	}
	ts := head.Timestamp.Add(w.SnapGap)
	b := &ledger.SnapshotBlock{PrevHash: head.Hash, Height: head.Height + 1, Timestamp: &ts, SnapshotContent: content}
	if seed != 0 {
		sh := ledger.ComputeSeedHash(seed, b.PrevHash, b.Timestamp)
		b.SeedHash = &sh
	}
	if upgrade.IsLeafUpgrade(b.Height) {
		b.Version = upgrade.GetLatestPoint().Version
	}
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = Producer.Sign(b.Hash.Bytes())
	return b
}

// Snapshot inserts a snapshot block of everything unconfirmed after verifying it.
func (w *World) Snapshot() (*ledger.SnapshotBlock, error) {
	return w.InsertSnapshot(w.NextSnapshot(nil, 0))
}

// InsertSnapshot verifies and inserts.
func (w *World) InsertSnapshot(b *ledger.SnapshotBlock) (*ledger.SnapshotBlock, error) {
	buf, err := b.Serialize()
	if err != nil {
		return nil, err
	}
	nb := &ledger.SnapshotBlock{}
	if err := nb.Deserialize(buf); err != nil {
		return nil, err
	}
	if err := w.V.VerifyNetSnapshotBlock(nb); err != nil {
		return nil, err
	}
	st := w.V.VerifyReferred(nb)
	if st.VerifyResult() != verifier.SUCCESS {
		return nil, fmt.Errorf("snapshot not verified: %s", st.ErrMsg())
	}
	if _, err := w.Chain.InsertSnapshotBlock(nb); err != nil {
		return nil, err
	}
	return nb, nil
}

// CopyTree copies a directory.
func CopyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}

// JSON is a debugging helper.
func JSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
