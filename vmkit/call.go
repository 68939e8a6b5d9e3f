package vmkit

import (
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// Called is the outcome of one request to a built-in contract.
type Called struct {
	SendErr error                  // the request was refused when it was made
	Send    *ledger.AccountBlock   // the request
	Recv    *Res                   // the contract's response
	OK      bool                   // the contract accepted it
	Out     []*ledger.AccountBlock // what the contract sent
	Bad     string                 // something that must never happen
}

// Call makes a request, lets the contract respond and leaves what the contract sent on the road.
func (w *World) Call(from, to types.Address, tok types.TokenTypeId, amount *big.Int, data []byte) *Called {
	k := &Called{}
	r := w.Send(from, to, tok, amount, data)
	if r.Panic != nil {
		k.Bad = fmt.Sprintf("the request panicked: %v", r.Panic)
		return k
	}
	if r.Err != nil || r.Block == nil {
		k.SendErr = r.Err
		if k.SendErr == nil {
			k.Bad = "no block and no error"
		}
		return k
	}
	k.Send = r.Block
	rr := w.Receive(r.Block)
	k.Recv = rr
	if rr.Panic != nil {
		k.Bad = fmt.Sprintf("the contract panicked: %v", rr.Panic)
		return k
	}
	if rr.Block == nil {
		k.Bad = fmt.Sprintf("the contract gave no response: %v (retry %v)", rr.Err, rr.Retry)
		return k
	}
	k.OK = len(rr.Block.Data) == 33 && rr.Block.Data[32] == 0
	k.Out = rr.Block.SendBlockList
	return k
}

// MustSettle receives everything on the road, users included; it returns a complaint or "".
func (w *World) MustSettle() string {
	if _, err := w.Settle(true, 200); err != nil {
		return err.Error()
	}
	return ""
}
