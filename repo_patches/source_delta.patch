From bce5bf23da381f5f88893783f206402b52040bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 01/23] fix: persist sign state before Save returns

The state file was written by a background goroutine, so a share or signature
could be released, and the process die, before its watermark was on disk.
---
 signer/sign_state.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..bc77ac0 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,8 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// The state must be on disk before anything signed at this HRS is released
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From a7425ba096323502147e230a23dff4f5287a082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 02/23] fix: keep a cosigner's recorded share and ephemeral
 public key together

Re-signing with another timestamp replaced the ephemeral public key of the
recorded share, and a cluster signature learned by notification was handed out
as a share, so the answer to a repeated request could never be combined.
---
 signer/local_cosigner.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..8ebc2b6 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -109,7 +109,24 @@ type LocalCosigner struct {
 }
 
 func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus) error {
-	return cosigner.lastSignState.Save(signState, &cosigner.lastSignStateMutex)
+	cosigner.lastSignStateMutex.Lock()
+	defer cosigner.lastSignStateMutex.Unlock()
+
+	// The recorded signature is that of the cluster, no share of ours goes with it
+	return cosigner.saveLastSignState(signState, nil)
+}
+
+// saveLastSignState records the sign state along with the ephemeral public key of our share, or keeps
+// the existing record, including its ephemeral public key, if there is an error.
+// lastSignStateMutex must be held.
+func (cosigner *LocalCosigner) saveLastSignState(signState SignStateConsensus, ephemeralPublic []byte) error {
+	existing := cosigner.lastSignState.EphemeralPublic
+	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
+	err := cosigner.lastSignState.Save(signState, nil)
+	if err != nil {
+		cosigner.lastSignState.EphemeralPublic = existing
+	}
+	return err
 }
 
 func NewLocalCosigner(cfg LocalCosignerConfig) *LocalCosigner {
@@ -175,7 +192,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	// If the HRS is the same the sign bytes may still differ by timestamp
 	// It is ok to re-sign a different timestamp if that is the only difference in the sign bytes
 	if sameHRS {
-		if bytes.Equal(req.SignBytes, lss.SignBytes) {
+		if bytes.Equal(req.SignBytes, lss.SignBytes) && len(lss.EphemeralPublic) != 0 {
 			res.EphemeralPublic = lss.EphemeralPublic
 			res.Signature = lss.Signature
 			return res, nil
@@ -183,7 +200,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 			return res, err
 		}
 
-		// same HRS, and only differ by timestamp - ok to sign again
+		// same HRS, and only differ by timestamp or not signed by us yet - ok to sign again
 	}
 
 	meta, ok := cosigner.hrsMeta[hrst]
@@ -222,14 +239,13 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
-	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
-	err = cosigner.lastSignState.Save(SignStateConsensus{
+	err = cosigner.saveLastSignState(SignStateConsensus{
 		Height:    hrst.Height,
 		Round:     hrst.Round,
 		Step:      hrst.Step,
 		Signature: sig,
 		SignBytes: req.SignBytes,
-	}, nil)
+	}, ephemeralPublic)
 
 	if err != nil {
 		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
-- 
2.43.0


From 117893b2c6b1ca419f0e02a6e4082c45faf1ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 03/23] fix: never sign without our own nonce or with a nonce
 used before

Parts received before our own nonce was requested were kept under a key without
timestamp, shared by all requests at that HRS, and signed with only the nonces
of the senders, which reveals the key share to them. Using a nonce again with
other parts reveals it as well.
---
 signer/local_cosigner.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 8ebc2b6..fc0d27f 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -256,7 +256,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	for existingKey := range cosigner.hrsMeta {
 		// delete any HRS lower than our signed level
 		// we will not be providing parts for any lower HRS
-		if existingKey.Less(hrst) {
+		// also delete the metadata just used, a nonce must never be used twice
+		if existingKey == hrst || existingKey.Less(hrst) {
 			delete(cosigner.hrsMeta, existingKey)
 		}
 	}
@@ -294,6 +295,10 @@ func (cosigner *LocalCosigner) dealShares(req CosignerGetEphemeralSecretPartRequ
 	// !! dealt shares need to be saved because dealing produces different shares each time!
 	meta.DealtShares = tsed25519.DealShares(meta.Secret, cosigner.threshold, cosigner.total)
 
+	// our own share is always part of the nonce we sign with
+	meta.Peers[cosigner.key.ID-1].Share = meta.DealtShares[cosigner.key.ID-1]
+	meta.Peers[cosigner.key.ID-1].EphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(meta.Secret)
+
 	cosigner.hrsMeta[hrsKey] = meta
 
 	return meta, nil
@@ -456,9 +461,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 1daee91dda9b94d8d1d2d1bf553ef4c105e85b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 04/23] fix: never report success without a signature for an
 earlier block

A vote below the initiated height/round/step that differs from the recorded
one only by timestamp was answered with a nil signature and no error.
---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..70b1fe1 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From b9413785d6b3cc60bb69b269d9ffff0394975b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 05/23] fix: do not restart signing of a block already signed
 by the cluster

A node that learned of a signature by notification did not count the block as
started, so as a new leader it ran the signing protocol again for it.
---
 signer/threshold_validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 70b1fe1..1353ca3 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -75,6 +75,9 @@ func NewThresholdValidator(opt *ThresholdValidatorOpt) *ThresholdValidator {
 }
 
 func (pv *ThresholdValidator) SaveLastSignedState(signState SignStateConsensus) error {
+	// A block signed by the cluster needs no signing round here, even if we become the leader.
+	// An error is expected if we have already started on this or a later block.
+	_ = pv.SaveLastSignedStateInitiated(NewSignStateConsensus(signState.Height, signState.Round, signState.Step))
 	return pv.lastSignState.Save(signState, &pv.lastSignStateMutex)
 }
 
-- 
2.43.0


From 90ff6c698b817d77b53a0456a511a426275440e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/23] fix: refuse malformed sign requests instead of crashing

Unknown vote types, missing votes or proposals and block IDs that tendermint
cannot canonicalize crashed the process, and a block whose sign bytes are for
another height/round/step moved the initiated watermark.
---
 signer/Serialization.go       | 39 +++++++++++++++++++++++++++++++++--
 signer/remote_signer.go       | 10 +++++++++
 signer/threshold_validator.go |  9 ++++++++
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..16d084e 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -2,11 +2,13 @@ package signer
 
 import (
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/tendermint/tendermint/libs/protoio"
 	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
 	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
+	tm "github.com/tendermint/tendermint/types"
 )
 
 // ReadMsg reads a message from an io.Reader
@@ -28,17 +30,50 @@ func WriteMsg(writer io.Writer, msg tmProtoPrivval.Message) (err error) {
 func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var proposal tmProto.CanonicalProposal
-		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil && proposal.Type == tmProto.ProposalType {
 			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	{
 		var vote tmProto.CanonicalVote
-		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil && tm.IsVoteTypeValid(vote.Type) {
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	return HRSTKey{0, 0, 0, 0}, errors.New("could not UnpackHRS from sign bytes")
 }
+
+// validateVote returns an error if the vote has no canonical sign bytes for the chain.
+func validateVote(chainID string, vote *tmProto.Vote) (err error) {
+	if vote == nil {
+		return errors.New("no vote to sign")
+	}
+	if !tm.IsVoteTypeValid(vote.Type) {
+		return fmt.Errorf("unknown vote type: %d", vote.Type)
+	}
+	// tendermint panics for votes that it cannot canonicalize
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid vote: %v", r)
+		}
+	}()
+	tm.VoteSignBytes(chainID, vote)
+	return nil
+}
+
+// validateProposal returns an error if the proposal has no canonical sign bytes for the chain.
+func validateProposal(chainID string, proposal *tmProto.Proposal) (err error) {
+	if proposal == nil {
+		return errors.New("no proposal to sign")
+	}
+	// tendermint panics for proposals that it cannot canonicalize
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid proposal: %v", r)
+		}
+	}()
+	tm.ProposalSignBytes(chainID, proposal)
+	return nil
+}
diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..23e3287 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -143,6 +143,11 @@ func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoP
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if err := validateVote(rs.chainID, vote); err != nil {
+		rs.Logger.Error("Invalid sign vote request", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +170,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if err := validateProposal(rs.chainID, proposal); err != nil {
+		rs.Logger.Error("Invalid sign proposal request", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 1353ca3..9ed3f07 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -323,6 +323,15 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		Timestamp: stamp.UnixNano(),
 	}
 
+	// The sign bytes are what gets signed, so a block claiming to be another one must not start any progress
+	signBytesHRST, err := UnpackHRST(signBytes)
+	if err != nil {
+		return nil, stamp, err
+	}
+	if signBytesHRST != hrst {
+		return nil, stamp, errors.New("sign bytes do not match the height, round, step and timestamp of the block")
+	}
+
 	// Keep track of the last block that we began the signing process for. Only allow one attempt per block
 	if err := pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step)); err != nil {
 		switch err.(type) {
-- 
2.43.0


From 3795d7f75c2629909c437dfd775571761e9558f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 07/23] fix: resume the single signer from its sign state

The single signer started with an empty state each time, so it double signed
after a restart.
---
 cmd/horcrux/cmd/signer.go | 46 ++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..5e21671 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -2,12 +2,14 @@ package cmd
 
 import (
 	"fmt"
+	"io/ioutil"
 	"log"
 	"os"
 	"path"
 
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	tmjson "github.com/tendermint/tendermint/libs/json"
 	tmlog "github.com/tendermint/tendermint/libs/log"
 	tmService "github.com/tendermint/tendermint/libs/service"
 	"github.com/tendermint/tendermint/privval"
@@ -66,16 +68,12 @@ func StartSignerCmd() *cobra.Command {
 			logger.Info("Tendermint Validator", "mode", cfg.Mode,
 				"priv-key", cfg.PrivValKeyFile, "priv-state-dir", cfg.PrivValStateDir)
 
-			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			val := privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			if err = loadLastSignState(stateFile, &val.LastSignState); err != nil {
+				return fmt.Errorf("error reading sign state: %s", err)
+			}
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
@@ -98,3 +96,35 @@ func StartSignerCmd() *cobra.Command {
 
 	return cmd
 }
+
+// loadLastSignState resumes from the sign state in stateFile, if there is one.
+func loadLastSignState(stateFile string, lss *privval.FilePVLastSignState) error {
+	stateJSONBytes, err := ioutil.ReadFile(stateFile)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+
+	var last privval.FilePVLastSignState
+	if err = tmjson.Unmarshal(stateJSONBytes, &last); err != nil {
+		// Not written by the single signer, but by config init
+		signState, err := signer.LoadSignState(stateFile)
+		if err != nil {
+			return err
+		}
+		last.Height = signState.Height
+		last.Round = int32(signState.Round)
+		last.Step = signState.Step
+		last.Signature = signState.Signature
+		last.SignBytes = signState.SignBytes
+	}
+
+	lss.Height = last.Height
+	lss.Round = last.Round
+	lss.Step = last.Step
+	lss.Signature = last.Signature
+	lss.SignBytes = last.SignBytes
+	return nil
+}
-- 
2.43.0


From 47ab7656fa5abd21b6cedc045a855f1d3b4bd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 08/23] fix: let state show and state set work with --home

With --home, both refused to run because the home directory exists.
---
 cmd/horcrux/cmd/state.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..28a22e7 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -40,9 +40,6 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
@@ -85,9 +82,6 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
-- 
2.43.0


From ce187bfd2ef44106178333204b47b9516df40e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 09/23] fix: report a refused state set as an error

A height at or below the recorded one was refused for one or both states but
reported as success.
---
 cmd/horcrux/cmd/state.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 28a22e7..75ec5d3 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -108,9 +108,17 @@ func setStateCmd() *cobra.Command {
 				Signature: nil,
 				SignBytes: nil,
 			}
-			_ = pv.Save(signState, nil)
-			_ = share.Save(signState, nil)
-			return nil
+			// Set both or none
+			if err := pv.GetErrorIfLessOrEqual(height, 0, 0, nil); err != nil {
+				return fmt.Errorf("cannot set priv validator state: %w", err)
+			}
+			if err := share.GetErrorIfLessOrEqual(height, 0, 0, nil); err != nil {
+				return fmt.Errorf("cannot set share sign state: %w", err)
+			}
+			if err := pv.Save(signState, nil); err != nil {
+				return err
+			}
+			return share.Save(signState, nil)
 		},
 	}
 }
-- 
2.43.0


From 751b6f71eb64c37326ea199f808bd3f018b609d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 10/23] fix: do not take state set itself for a running signer

pgrep horcrux also lists the process of the command itself.
---
 cmd/horcrux/cmd/state.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 75ec5d3..9359a52 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path"
 	"strconv"
+	"strings"
 
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
@@ -126,7 +127,13 @@ func setStateCmd() *cobra.Command {
 func isRunning() bool {
 	pipe := "ps -ax | pgrep horcrux"
 	bz, _ := exec.Command("bash", "-c", pipe).Output()
-	return len(bz) != 0
+	for _, pid := range strings.Fields(string(bz)) {
+		// this command is a horcrux process too
+		if pid != strconv.Itoa(os.Getpid()) {
+			return true
+		}
+	}
+	return false
 }
 
 func printSignState(ss signer.SignState) {
-- 
2.43.0


From b441339c7081fd87e056e843d307318f26313a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 11/23] fix: keep the leadership when asked to transfer it to
 the leader itself

A request naming the current leader moved the leadership to another member.
---
 signer/grpc_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..b29d2be 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -71,6 +71,13 @@ func (rpc *GRPCServer) TransferLeadership(
 	req *proto.CosignerGRPCTransferLeadershipRequest,
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
+	if leaderID == rpc.raftStore.NodeID && rpc.raftStore.raft.State() == raft.Leader {
+		// We are the requested leader already
+		return &proto.CosignerGRPCTransferLeadershipResponse{
+			LeaderID:      leaderID,
+			LeaderAddress: p2pURLToRaftAddress(rpc.raftStore.RaftBind),
+		}, nil
+	}
 	if leaderID != "" {
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
-- 
2.43.0


From 5fb7d9e25690c3606257c74ece1479c2df1bc216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 12/23] fix: reject any malformed chain node address

Only an error in the last address was reported.
---
 cmd/horcrux/cmd/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..1eec3c7 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -628,7 +628,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return err
+		}
 	}
-	return
+	return nil
 }
-- 
2.43.0


From af2995d73af362f242a2b9a69331f8d1d31ce4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 13/23] fix: set the chain id without losing sign state

The state files of an existing chain were overwritten, and a single signer or
a missing share state left the validator state renamed but the config not.
---
 cmd/horcrux/cmd/config.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 1eec3c7..ea090de 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -501,11 +501,29 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
+			// Only a cosigner has a share sign state
+			hasShare := config.CosignerConfig != nil
+
+			if args[0] != config.ChainID {
+				// Never replace the state of another chain
+				for _, newPath := range []string{pvNewPath, shareNewPath} {
+					if _, err = os.Stat(newPath); !os.IsNotExist(err) {
+						return fmt.Errorf("%s already exists", newPath)
+					}
+				}
+			}
+
 			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
 				return err
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			if hasShare {
+				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
+					// Leave everything as it was
+					if errUndo := os.Rename(pvNewPath, pvOldPath); errUndo != nil {
+						return fmt.Errorf("%v, and then: %w", err, errUndo)
+					}
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
-- 
2.43.0


From 5faa163f5f69f76474247206eaea1f9df6bf7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 14/23] fix: keep the sign state when initializing a home again

---
 cmd/horcrux/cmd/config.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index ea090de..fe1fb3a 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -147,14 +147,14 @@ func initCmd() *cobra.Command {
 			}
 
 			// initialize state/{chainid}_priv_validator_state.json file
-			if _, err = signer.LoadOrCreateSignState(
+			if err = createSignStateIfMissing(
 				path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))); err != nil {
 				return err
 			}
 
 			// if node is a cosigner initialize state/{chainid}_priv_validator_state.json file
 			if cs {
-				if _, err = signer.LoadOrCreateSignState(
+				if err = createSignStateIfMissing(
 					path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", cid))); err != nil {
 					return err
 				}
@@ -177,6 +177,16 @@ func initCmd() *cobra.Command {
 	return cmd
 }
 
+// createSignStateIfMissing initializes a sign state, leaving any that exists as it is,
+// whether written by a cosigner or by the single signer.
+func createSignStateIfMissing(stateFile string) error {
+	if _, err := os.Stat(stateFile); !os.IsNotExist(err) {
+		return err
+	}
+	_, err := signer.LoadOrCreateSignState(stateFile)
+	return err
+}
+
 func writeConfigFile(path string, cfg *Config) error {
 	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
 }
-- 
2.43.0


From 4f30017ed5dc81d69309d54451a7d4c72a7e230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 15/23] fix: keep the share sign state with the chain id of a
 home that was a cosigner

---
 cmd/horcrux/cmd/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index fe1fb3a..4d2dd87 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -511,8 +511,9 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
-			// Only a cosigner has a share sign state
-			hasShare := config.CosignerConfig != nil
+			// A cosigner has a share sign state, and so may a single signer that was a cosigner before
+			_, err = os.Stat(shareOldPath)
+			hasShare := config.CosignerConfig != nil || !os.IsNotExist(err)
 
 			if args[0] != config.ChainID {
 				// Never replace the state of another chain
-- 
2.43.0


From 954cebcff570b38a7b6b269dcb66229aa8c3b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 16/23] fix: refuse an empty chain id

---
 cmd/horcrux/cmd/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 4d2dd87..cfe6467 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -505,6 +505,10 @@ func setChainIDCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if args[0] == "" {
+				return errors.New("chain-id cannot be empty")
+			}
+
 			stateDir := path.Join(home, "state")
 			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
-- 
2.43.0


From 67cfef18fc2b7e2740b5ee0d4f3e1f563f8a4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 17/23] fix: combine the shares of 13 or more cosigners without
 overflow

---
 signer/threshold_validator.go | 37 +++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 9ed3f07..6810abe 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math/big"
 	"sync"
 	"time"
 
@@ -14,7 +15,6 @@ import (
 	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
 	rpcTypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
 	tm "github.com/tendermint/tendermint/types"
-	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
 )
 
 type ThresholdValidator struct {
@@ -454,7 +454,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	}
 
 	// assemble into final signature
-	combinedSig := tsed25519.CombineShares(total, sigIds, shareSigs)
+	combinedSig := combineShares(sigIds, shareSigs)
 
 	signature := ephemeralPublic
 	signature = append(signature, combinedSig...)
@@ -487,3 +487,36 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 
 	return signature, stamp, nil
 }
+
+// orderL is the order of the ed25519 base point
+var orderL, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
+
+// combineShares combines the shares of the cosigners with the given IDs by interpolating at zero.
+// It is tsed25519.CombineShares for any number of cosigners: that one overflows with 13 or more.
+func combineShares(ids []int, shares [][]byte) []byte {
+	sum := new(big.Int)
+	for i, id := range ids {
+		num, den := big.NewInt(1), big.NewInt(1)
+		for _, other := range ids {
+			if other != id {
+				num.Mul(num, big.NewInt(int64(other)))
+				den.Mul(den, big.NewInt(int64(other-id)))
+			}
+		}
+		share := new(big.Int).SetBytes(reverse(shares[i]))
+		share.Mul(share, num)
+		share.Mul(share, den.ModInverse(den.Mod(den, orderL), orderL))
+		sum.Add(sum, share)
+	}
+	sum.Mod(sum, orderL)
+	return reverse(sum.FillBytes(make([]byte, 32)))
+}
+
+// reverse returns the bytes in the opposite order
+func reverse(in []byte) []byte {
+	out := make([]byte, len(in))
+	for i, b := range in {
+		out[len(in)-1-i] = b
+	}
+	return out
+}
-- 
2.43.0


From 96d544d484e70e2a214b3af45bdf547d19f79d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 18/23] fix: refuse to create shares with a threshold or number
 of shares out of range

---
 signer/cosigner_key_shares.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..9f256a9 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,7 +4,9 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
+	"math"
 
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
@@ -22,6 +24,10 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if threshold < 1 || threshold > shares || shares > math.MaxUint8 {
+		return nil, fmt.Errorf("cannot create %d shares with threshold %d: need 1 <= threshold <= shares <= %d",
+			shares, threshold, math.MaxUint8)
+	}
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
-- 
2.43.0


From 0620bdb379ed043e936690f02a4958debde16b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 19/23] fix: start the raft store once it has its validator

The store serves sign requests and handles events with the validator, and
starts in the background. It captured a nil validator if it was faster.
---
 cmd/horcrux/cmd/cosigner.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..d9b038a 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,14 +217,8 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
-
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
 				Threshold: cfg.CosignerThreshold,
@@ -237,6 +231,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Start RAFT store listener. It serves the validator, so that has to be there
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
-- 
2.43.0


From 3778e21213ae5420c7d3335ebcd69b27dde96616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 20/23] fix: keep the last sign state in raft snapshots

A member that is far behind gets the snapshot of the leader instead of the
events, and did not learn what had been signed.
---
 signer/raft_events.go | 11 +++++++++++
 signer/raft_store.go  | 16 ++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/signer/raft_events.go b/signer/raft_events.go
index a4e9aa7..fccb751 100644
--- a/signer/raft_events.go
+++ b/signer/raft_events.go
@@ -32,10 +32,21 @@ func (f *fsm) handleLSSEvent(value string) {
 		f.logger.Error("LSS Unmarshal Error", err.Error())
 		return
 	}
+	f.keepLSS(*lss)
 	_ = f.thresholdValidator.SaveLastSignedState(*lss)
 	_ = f.cosigner.SaveLastSignedState(*lss)
 }
 
+// keepLSS remembers the highest last sign state event, which goes into snapshots.
+func (f *fsm) keepLSS(lss SignStateConsensus) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	last := HRSTKey{Height: f.lss.Height, Round: f.lss.Round, Step: f.lss.Step}
+	if last.Less(HRSTKey{Height: lss.Height, Round: lss.Round, Step: lss.Step}) {
+		f.lss = lss
+	}
+}
+
 func (s *RaftStore) getLeaderGRPCClient() (proto.CosignerGRPCClient, *grpc.ClientConn, error) {
 	var leader string
 	for i := 0; i < 30; i++ {
diff --git a/signer/raft_store.go b/signer/raft_store.go
index 727cb28..ea77846 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -54,6 +54,8 @@ type RaftStore struct {
 	mu sync.Mutex
 	m  map[string]string // The key-value store for the system.
 
+	lss SignStateConsensus // The highest last sign state event, for snapshots.
+
 	raft *raft.Raft // The consensus mechanism
 
 	logger             log.Logger
@@ -319,6 +321,15 @@ func (f *fsm) Snapshot() (raft.FSMSnapshot, error) {
 	for k, v := range f.m {
 		o[k] = v
 	}
+
+	// A member which is given this snapshot does not get the events before it.
+	if f.lss.Signature != nil {
+		lssJSON, err := json.Marshal(f.lss)
+		if err != nil {
+			return nil, err
+		}
+		o[raftEventLSS] = string(lssJSON)
+	}
 	return &fsmSnapshot{store: o, logger: f.logger}, nil
 }
 
@@ -329,6 +340,11 @@ func (f *fsm) Restore(rc io.ReadCloser) error {
 		return err
 	}
 
+	if lss, ok := o[raftEventLSS]; ok {
+		delete(o, raftEventLSS)
+		f.handleLSSEvent(lss)
+	}
+
 	// Set the state from the snapshot, no lock required according to
 	// Hashicorp docs.
 	f.m = o
-- 
2.43.0


From 3c9d1aea9c25a6377c6fb4a2b3ed8ccefd5bfd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 21/23] fix: announce a signature that was stored but not
 announced before a stop

---
 signer/threshold_validator.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 6810abe..d09179b 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -31,6 +31,9 @@ type ThresholdValidator struct {
 	lastSignStateInitiated      SignState
 	lastSignStateInitiatedMutex sync.Mutex
 
+	// the last sign state the cluster was told of, guarded by lastSignStateMutex
+	lastAnnounced HRSTKey
+
 	// our own cosigner
 	cosigner Cosigner
 
@@ -78,7 +81,31 @@ func (pv *ThresholdValidator) SaveLastSignedState(signState SignStateConsensus)
 	// A block signed by the cluster needs no signing round here, even if we become the leader.
 	// An error is expected if we have already started on this or a later block.
 	_ = pv.SaveLastSignedStateInitiated(NewSignStateConsensus(signState.Height, signState.Round, signState.Step))
-	return pv.lastSignState.Save(signState, &pv.lastSignStateMutex)
+
+	pv.lastSignStateMutex.Lock()
+	defer pv.lastSignStateMutex.Unlock()
+	announced := HRSTKey{Height: signState.Height, Round: signState.Round, Step: signState.Step}
+	if pv.lastAnnounced.Less(announced) {
+		pv.lastAnnounced = announced
+	}
+	return pv.lastSignState.Save(signState, nil)
+}
+
+// announceExisting tells the cluster of a block we signed earlier, if we stopped before we could.
+func (pv *ThresholdValidator) announceExisting(hrs HRSKey) {
+	_, ssc := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
+	if ssc == nil {
+		return
+	}
+	pv.lastSignStateMutex.Lock()
+	announced := !pv.lastAnnounced.Less(HRSTKey{Height: hrs.Height, Round: hrs.Round, Step: hrs.Step})
+	pv.lastSignStateMutex.Unlock()
+	if announced {
+		return
+	}
+	if err := pv.raftStore.Emit(raftEventLSS, *ssc); err != nil {
+		pv.logger.Error("Error emitting LSS", err.Error())
+	}
 }
 
 func (pv *ThresholdValidator) SaveLastSignedStateInitiated(signState SignStateConsensus) error {
@@ -345,6 +372,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 						signAgain = true
 						break
 					}
+					pv.announceExisting(HRSKey{Height: height, Round: round, Step: step})
 					return existingSignature, existingTimestamp, nil
 				}
 				switch sameBlockErr.(type) {
-- 
2.43.0


From e6529533c8858c9df86f81f0ab274412151fcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:30 +0000
Subject: [PATCH 22/23] fix: commands replace the configuration as a whole, and
 init writes it last

The file was truncated and then written, so that a command that was killed, or that
the system failed (a full disk), left a node without its configuration. init wrote it
before the sign states: if these could not be created it failed, yet the configuration
had been replaced.
---
 cmd/horcrux/cmd/config.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index cfe6467..552f8c8 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"net"
 	"net/url"
 	"os"
@@ -15,6 +14,7 @@ import (
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	"github.com/tendermint/tendermint/libs/tempfile"
 	"gopkg.in/yaml.v2"
 )
 
@@ -141,11 +141,6 @@ func initCmd() *cobra.Command {
 			if err = os.MkdirAll(path.Join(home, "state"), 0755); err != nil {
 				return err
 			}
-			// create the config file
-			if err = writeConfigFile(configYamlPath, cfg); err != nil {
-				return err
-			}
-
 			// initialize state/{chainid}_priv_validator_state.json file
 			if err = createSignStateIfMissing(
 				path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))); err != nil {
@@ -160,6 +155,11 @@ func initCmd() *cobra.Command {
 				}
 			}
 
+			// create the config file
+			if err = writeConfigFile(configYamlPath, cfg); err != nil {
+				return err
+			}
+
 			fmt.Printf("Successfully initialized configuration: %s\n", configYamlPath)
 			return nil
 		},
@@ -188,7 +188,7 @@ func createSignStateIfMissing(stateFile string) error {
 }
 
 func writeConfigFile(path string, cfg *Config) error {
-	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
+	return tempfile.WriteFileAtomic(path, cfg.MustMarshalYaml(), 0644)
 }
 
 func validateSingleSignerConfig(cfg *Config) error {
-- 
2.43.0


From 683bf1f44294d5f397fb85c7935fff4b348a1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:44 +0000
Subject: [PATCH 23/23] fix: config chain-id set keeps the sign states under
 the configured chain ID at every moment

They were renamed before the configuration was written: if the command was killed in
between, or could not write it, the configured chain ID had lost its watermarks, and
a single signer would have started from none. Now they have both names until the
configuration is written.
---
 cmd/horcrux/cmd/config.go | 54 +++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 552f8c8..6ca0ce8 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"net"
 	"net/url"
 	"os"
@@ -528,21 +529,11 @@ func setChainIDCmd() *cobra.Command {
 				}
 			}
 
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
-				return err
-			}
+			moved := map[string]string{pvOldPath: pvNewPath}
 			if hasShare {
-				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-					// Leave everything as it was
-					if errUndo := os.Rename(pvNewPath, pvOldPath); errUndo != nil {
-						return fmt.Errorf("%v, and then: %w", err, errUndo)
-					}
-					return err
-				}
+				moved[shareOldPath] = shareNewPath
 			}
-
-			config.ChainID = args[0]
-			if err = writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
+			if err = setChainID(path.Join(home, "config.yaml"), args[0], moved); err != nil {
 				return err
 			}
 			return nil
@@ -550,6 +541,43 @@ func setChainIDCmd() *cobra.Command {
 	}
 }
 
+// setChainID writes the configuration with the new chain ID, and moves the sign states. These have both names
+// until it is written, so that the configured chain ID has its sign states whenever we stop.
+func setChainID(configYamlPath, chainID string, moved map[string]string) (err error) {
+	created := []string{}
+	defer func() {
+		if err != nil {
+			for _, newPath := range created {
+				os.Remove(newPath)
+			}
+		}
+	}()
+	for oldPath, newPath := range moved {
+		state, err := ioutil.ReadFile(oldPath)
+		if err != nil {
+			return err
+		}
+		if newPath == oldPath {
+			continue
+		}
+		created = append(created, newPath)
+		if err := tempfile.WriteFileAtomic(newPath, state, 0600); err != nil {
+			return err
+		}
+	}
+
+	config.ChainID = chainID
+	if err := writeConfigFile(configYamlPath, config); err != nil {
+		return err
+	}
+	for oldPath, newPath := range moved {
+		if newPath != oldPath {
+			os.Remove(oldPath)
+		}
+	}
+	return nil
+}
+
 type Config struct {
 	HomeDir        string          `json:"home-dir" yaml:"home-dir"`
 	PrivValKeyFile string          `json:"key-file,omitempty" yaml:"key-file,omitempty"`
-- 
2.43.0

