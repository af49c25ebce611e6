package main

import (
	"github.com/tendermint/tendermint/libs/protoio"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// canonical vote bytes with a type that is none
func mustVoteBytes(v *tmProto.Vote, chain, how string) []byte {
	c := tm.CanonicalizeVote(chain, v)
	c.Type = map[string]tmProto.SignedMsgType{"type0": 0, "type9": 9, "type32": 32}[how]
	b, err := protoio.MarshalDelimited(&c)
	must(err)
	return b
}

// canonical proposal bytes with a type that is not a proposal's
func mustProposalBytes(p *tmProto.Proposal, chain, how string) []byte {
	c := tm.CanonicalizeProposal(chain, p)
	c.Type = map[string]tmProto.SignedMsgType{"type0": 0, "type9": 9, "type32": 1}[how]
	b, err := protoio.MarshalDelimited(&c)
	must(err)
	return b
}
