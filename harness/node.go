package main

// A real node ledger (inventory + chain on a bus) under observation.

import (
	"fmt"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

const waitMax = 20 * time.Second

type Node struct {
	bus     *bus.Bus
	inv     *inv.Inv
	heads   topic.Sub[bus.ValidatedHeadEvent]
	txs     topic.Sub[bus.ValidatedTxEvent]
	targets topic.Sub[bus.MinerTargetEvent]
	dead    atomic.Bool
	why     atomic.Value
	lastT   *bus.MinerTargetEvent
	head    core.HashT
	slow    bool
}

var barrierCount atomic.Uint64

func newNode(p core.Params, miners bool, saveDir *string) (n *Node) {
	n = &Node{bus: bus.NewBus()}
	n.heads = n.bus.ValidatedHead.Sub()
	n.txs = n.bus.ValidatedTx.Sub()
	n.targets = n.bus.MinerTarget.Sub()
	defer func() {
		if r := recover(); r != nil {
			n.why.Store(fmt.Sprint(r))
			n.dead.Store(true)
		}
	}()
	n.inv = inv.NewInv(p, saveDir)
	c := chain.NewChain(n.bus, n.inv, miners, saveDir)
	go func() {
		defer func() {
			r := recover()
			n.why.Store(fmt.Sprintf("%v\n%s", r, debug.Stack()))
			n.dead.Store(true)
		}()
		c.Loop()
	}()
	return n
}

// wait until everything published on CandidateHead before has been handled
func (n *Node) offerAndWait(events ...bus.CandidateHeadEvent) {
	k := barrierCount.Add(1)
	b := core.Tx{IsCoinbase: true, MinBlock: 1<<50 + k, Inputs: []core.TxIn{},
		Outputs: []core.TxOut{{Value: 1 << 40, PublicKeyHash: core.NewHashTRand()}}}
	if n.inv != nil {
		b.Outputs[0].Value += n.inv.GetCoreParams().BlockReward
	}
	id := b.Hash()
	events = append(events, bus.CandidateHeadEvent{Head: core.NewHashTRand(), Txs: []core.Tx{b}})
	n.bus.CandidateHead.Pub(events...)
	start := time.Now()
	for !n.dead.Load() {
		if n.inv.HasTx(id) {
			return
		}
		el := time.Since(start)
		if n.slow && el > 600*time.Millisecond && n.heads.Size() == 0 {
			return
		}
		if el > 4*time.Second && !n.slow {
			// the barrier transaction was handled but not kept, or the node hangs
			if _, ok := n.height(); !ok {
				n.why.Store("no answer")
				n.dead.Store(true)
				return
			}
			n.slow = true
			return
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(5 * time.Millisecond)
}

func ask[T any](n *Node, ch chan T) (v T, ok bool) {
	t := time.NewTimer(waitMax)
	defer t.Stop()
	tick := time.NewTicker(5 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case v = <-ch:
			return v, true
		case <-tick.C:
			if n.dead.Load() {
				return v, false
			}
		case <-t.C:
			n.why.Store("no answer to a query")
			n.dead.Store(true)
			return v, false
		}
	}
}

func (n *Node) height() (uint64, bool) {
	ch := make(chan uint64)
	n.bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: ch})
	return ask(n, ch)
}

func (n *Node) submit(tx core.Tx) (error, bool) {
	ch := make(chan error)
	n.bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ch, Tx: tx})
	return ask(n, ch)
}
