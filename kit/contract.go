package kit

import (
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

// ---- a tiny assembler --------------------------------------------------------------------------

// EVM style opcodes the harness contracts use (byte values are part of the chain's protocol).
const (
	opSTOP         = 0x00
	opADD          = 0x01
	opEQ           = 0x14
	opCALLVALUE    = 0x34
	opCALLDATALOAD = 0x35
	opCALLDATASIZE = 0x36
	opCALLDATACOPY = 0x37
	opCODECOPY     = 0x39
	opTOKENID      = 0x46
	opMSTORE       = 0x52
	opSLOAD        = 0x54
	opSSTORE       = 0x55
	opJUMP         = 0x56
	opJUMPI        = 0x57
	opJUMPDEST     = 0x5b
	opPUSH1        = 0x60
	opPUSH2        = 0x61
	opDUP1         = 0x80
	opSUB          = 0x03
	opLOG1         = 0xa1
	opRETURN       = 0xf3
	opREVERT       = 0xfd
	opCALL         = 0xf1
)

// Asm assembles; ints are opcodes, "label:" defines and "@label" pushes a label, P(n) pushes a byte.
type Push byte

func P(n int) Push { return Push(n) }

func Asm(items ...interface{}) []byte {
	var out []byte
	pos := map[string]int{}
	type fix struct {
		at int
		l  string
	}
	var fixes []fix
	for _, it := range items {
		switch x := it.(type) {
		case int:
			out = append(out, byte(x))
		case Push:
			out = append(out, opPUSH1, byte(x))
		case string:
			if x[0] == '@' {
				out = append(out, opPUSH2, 0, 0)
				fixes = append(fixes, fix{len(out) - 2, x[1:]})
			} else {
				pos[x[:len(x)-1]] = len(out)
				out = append(out, opJUMPDEST)
			}
		}
	}
	for _, f := range fixes {
		p, ok := pos[f.l]
		if !ok {
			panic("asm: label " + f.l)
		}
		out[f.at], out[f.at+1] = byte(p>>8), byte(p)
	}
	return out
}

// Modes of the scripted contract (word 2 of the call data).
const (
	ModeStore   = 0 // store and log
	ModeRevert  = 1 // store, log, then revert
	ModeForward = 2 // store, log, forward the received amount to word 3
	ModeFwdRev  = 3 // like forward, then revert
	ModeBurn    = 4 // store, then loop until the quota runs out
	ModeNest    = 5 // store, log, call word 3 with the rest of the call data and the amount
	ModeSplit   = 6 // store, log, forward 1 unit to word 3 and the rest back to word 4
	ModeTwo     = 7 // store, log, store the value under word 3 too
)

// ScriptCode is the runtime code of the scripted contract:
// calldata words: key, value, mode, target, (rest).
func ScriptCode() []byte {
	return Asm(
		P(0x20), opCALLDATALOAD, P(0), opCALLDATALOAD, opSSTORE,
		P(0x20), opCALLDATALOAD, P(0), opMSTORE,
		P(0), opCALLDATALOAD, P(0x20), P(0), opLOG1,
		P(0x40), opCALLDATALOAD, P(1), opEQ, "@rev", opJUMPI,
		P(0x40), opCALLDATALOAD, P(2), opEQ, "@fwd", opJUMPI,
		P(0x40), opCALLDATALOAD, P(3), opEQ, "@fwdrev", opJUMPI,
		P(0x40), opCALLDATALOAD, P(4), opEQ, "@loop", opJUMPI,
		P(0x40), opCALLDATALOAD, P(5), opEQ, "@nest", opJUMPI,
		P(0x40), opCALLDATALOAD, P(6), opEQ, "@split", opJUMPI,
		P(0x40), opCALLDATALOAD, P(7), opEQ, "@two", opJUMPI,
		opSTOP,
		"two:", P(0x20), opCALLDATALOAD, P(0x60), opCALLDATALOAD, opSSTORE, opSTOP,
		"rev:", P(0), P(0), opREVERT,
		"fwd:", P(0), P(0), opCALLVALUE, opTOKENID, P(0x60), opCALLDATALOAD, opCALL, opSTOP,
		"fwdrev:", P(0), P(0), opCALLVALUE, opTOKENID, P(0x60), opCALLDATALOAD, opCALL, P(0), P(0), opREVERT,
		"loop:", "@loop", opJUMP,
		"nest:",
		// CALLDATACOPY(mem 0, data 0x80, size-0x80)
		P(0x80), opCALLDATASIZE, opSUB, P(0x80), P(0), opCALLDATACOPY,
		P(0x80), opCALLDATASIZE, opSUB, P(0), opCALLVALUE, opTOKENID, P(0x60), opCALLDATALOAD, opCALL, opSTOP,
		"split:",
		P(0), P(0), P(1), opTOKENID, P(0x60), opCALLDATALOAD, opCALL,
		P(0), P(0), P(1), opCALLVALUE, opSUB, opTOKENID, P(0x80), opCALLDATALOAD, opCALL, opSTOP,
	)
}

// InitCode returns runtime when executed as init code.
func InitCode(runtime []byte) []byte {
	n := len(runtime)
	hdr := func(off int) []byte {
		return []byte{opPUSH2, byte(n >> 8), byte(n), opPUSH2, byte(off >> 8), byte(off), opPUSH1, 0, opCODECOPY,
			opPUSH2, byte(n >> 8), byte(n), opPUSH1, 0, opRETURN}
	}
	off := len(hdr(0))
	return append(hdr(off), runtime...)
}

// Word is a 32 byte big endian word.
func Word(n int64) []byte { return BigWord(big.NewInt(n)) }

// BigWord left-pads to 32 bytes.
func BigWord(n *big.Int) []byte {
	w := make([]byte, 32)
	b := n.Bytes()
	copy(w[32-len(b):], b)
	return w
}

// AddrWord is an address as a stack word.
func AddrWord(a types.Address) []byte {
	return BigWord(new(big.Int).SetBytes(a.Bytes()))
}

// ScriptData is the call data of the scripted contract.
func ScriptData(key, val int64, mode int, target types.Address, rest ...byte) []byte {
	var d []byte
	d = append(d, Word(key)...)
	d = append(d, Word(val)...)
	d = append(d, Word(int64(mode))...)
	d = append(d, AddrWord(target)...)
	return append(d, rest...)
}

// ContractOwners deploy one scripted contract each, with their first own block, so the address is fixed.
// Contract 0: no confirmation needed; 1: one confirmation.
var ContractOwners = []*Acct{NewAcct(0xC0), NewAcct(0xC1)}

// ContractAddr is the address of scripted contract i.
func ContractAddr(i int) types.Address {
	// the genesis block of a plain account depends on its address only
	g := ledger.AccountBlock{BlockType: ledger.BlockTypeGenesisReceive, Height: 1, AccountAddress: ContractOwners[i].Addr, Amount: big.NewInt(0), Fee: big.NewInt(0)}
	return util.NewContractAddress(ContractOwners[i].Addr, 2, g.ComputeHash())
}

// CreateMsg builds a contract creation request.
func CreateMsg(from types.Address, code []byte, confirm, seed, multiplier uint8, gid types.Gid, amount *big.Int) *interfaces.IncomingMessage {
	tok := ledger.ViteTokenId
	return &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCreate, AccountAddress: from, TokenId: &tok, Amount: amount,
		Fee: big.NewInt(0).Mul(big.NewInt(10), big.NewInt(1e18)), Data: util.GetCreateContractData(code, 1, confirm, seed, multiplier, gid)}
}

// Deploy deploys scripted contract i (create request and its receive) and returns the two blocks.
func (w *World) Deploy(i int) ([]*ledger.AccountBlock, error) {
	s, err := w.SendMsg(ContractOwners[i], CreateMsg(ContractOwners[i].Addr, InitCode(ScriptCode()), uint8(i), 0, 10, types.DELEGATE_GID, new(big.Int)))
	if err != nil {
		return nil, fmt.Errorf("create: %w", err)
	}
	if s.ToAddress != ContractAddr(i) {
		return nil, fmt.Errorf("unexpected contract address")
	}
	if i > 0 {
		if _, err := w.Snapshot(); err != nil {
			return nil, err
		}
	}
	r, err := w.Receive(s, Producer)
	if err != nil {
		return nil, fmt.Errorf("create receive: %w", err)
	}
	return []*ledger.AccountBlock{s, r}, nil
}
