import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S='signer/'; C='cmd/horcrux/cmd/'
p('C01','The cluster never produces two conflicting signatures',
 'With a threshold greater than half of the cosigners, the cluster never produces two valid signatures by the validator key for the same height, round and step whose signed content differs in anything except the timestamp. This holds whatever requests reach whichever nodes, including several nodes coordinating at once, cosigners that crash and restart from their state files, lost requests or replies, and notifications that are late or never arrive.',
 ['schedules','crash_points','histories','fault_sequences'],'all interleavings of conflicting sign requests on any coordinators, with crashes/restarts, message loss and late notifications between any two steps',
 'Tests sign exactly one block with one coordinator and no faults; a double sign needs conflicting requests combined with failover, restart or message loss.',
 [S+'threshold_validator.go',S+'local_cosigner.go',S+'sign_state.go'],
 [('per-cosigner watermark check before a share is made','signer/local_cosigner.go sign'),('coordinator watermark and initiated state','signer/threshold_validator.go SignBlock'),('same-payload-modulo-timestamp comparison','signer/sign_state.go onlyDifferByTimestamp')],
 [('share sign state','highest height/round/step a cosigner has signed, with the bytes','signer/local_cosigner.go lastSignState'),('validator sign state','last full signature','signer/threshold_validator.go lastSignState')],
 ['ThresholdValidator.SignVote/SignProposal results','share responses of every cosigner','state files'])
p('C02','A cosigner never signs backwards or two different payloads at one step',
 'Once a cosigner has released a signature share, or has learned of a cluster signature, for some height/round/step, it never releases a share for a lower height/round/step. At the same height/round/step it only releases shares for content that is identical except for the timestamp, in every field of the vote or proposal. This holds for any order of requests, for concurrent requests and across restarts.',
 ['inputs','histories','schedules'],'all sequences and concurrent batches of share requests with arbitrary heights, rounds, steps, payload fields and timestamps, interleaved with notifications and restarts',
 'The only cosigner test signs one prevote; the watermark test body is commented out.',
 [S+'local_cosigner.go',S+'sign_state.go',S+'Serialization.go'],
 [('CheckHRS regression check','signer/sign_state.go CheckHRS'),('OnlyDifferByTimestamp','signer/sign_state.go'),('mutex over check, sign and save','signer/local_cosigner.go sign')],
 [('lastSignState','watermark of the share','signer/local_cosigner.go')],['LocalCosigner.SetEphemeralSecretPartsAndSign result'])
p('C03','Sign state is on disk before a share or signature is released',
 'When a cosigner hands out a signature share, or a coordinator hands out a signature, the state file already records that height/round/step and content, so a process killed at any later instant restarts with it and never contradicts what it released. The state file is at every instant either the old or the new complete record, and if the state cannot be stored nothing is released.',
 ['crash_points','histories','fault_sequences'],'a crash immediately after any release or in the middle of any state write, and any failing state write, in any history of sign requests',
 'No test restarts a signer from its state file; tests sleep before reading files, which hides the window between release and persistence.',
 [S+'sign_state.go',S+'local_cosigner.go',S+'threshold_validator.go'],
 [('Save writes the file','signer/sign_state.go Save/save'),('atomic replace','signer/sign_state.go save'),('restart','signer/sign_state.go LoadSignState')],
 [('state file','durable watermark','signer/sign_state.go filePath')],['state file contents at the moment a response is returned','inode of the previous state file'])
p('C04','High watermarks never move backwards',
 'The height/round/step recorded by a node for its share and for its validator, in memory and in the state files, never decreases. Stale, repeated, reordered or concurrent signings and notifications leave it at the highest value seen, and a restart resumes from that value.',
 ['histories','schedules','crash_points'],'all orders and interleavings of signings and last-signed notifications with old and new values, and restarts',
 'Tests never present an older state after a newer one nor update the state concurrently.',
 [S+'sign_state.go',S+'local_cosigner.go',S+'threshold_validator.go',S+'raft_events.go'],
 [('GetErrorIfLessOrEqual under lock in Save','signer/sign_state.go'),('SaveLastSignedState on both states','signer/raft_events.go handleLSSEvent')],
 [('SignState','height, round, step','signer/sign_state.go')],['state file','SignState fields','GetFromCache'])
p('C05','A successful sign reply carries a valid signature, a failed one carries none',
 'Every sign request reported as successful carries a signature by the validator key that verifies for exactly the vote or proposal returned; the only exception is a repeated proposal, which receives the signature already made for that height/round. A request that fails returns no signature, and a bad, missing or foreign share from a cosigner makes the request fail rather than yield an invalid signature or advance the recorded last signature.',
 ['inputs','histories','fault_sequences'],'all request sequences (fresh, repeated, older, differing only in time) with cosigners that return errors, garbage or shares for other data',
 'Tests request one fresh proposal from honest cosigners only.',
 [S+'threshold_validator.go'],
 [('combined signature verified before it is recorded','signer/threshold_validator.go SignBlock'),('existing signature lookup','signer/threshold_validator.go getExistingBlockSignature')],
 [('lastSignState cache','recent signatures by height/round/step','signer/sign_state.go cache')],['SignVote/SignProposal result and error'])
p('C06','Any threshold of cosigners suffices and fewer never sign',
 'In an n-member cluster with threshold t, a fresh sign request to the coordinator succeeds whenever at least t-1 of the other cosigners are reachable, whichever those are and however slow or unreachable the rest. With fewer than t participating cosigners no valid signature is ever produced, and the request still ends.',
 ['configurations','fault_sequences'],'every t of n (n up to 5 or more) and every subset of unavailable, failing or slow cosigners',
 'Tests cover 2of2, 2of3 and 3of3 with all cosigners healthy.',
 [S+'threshold_validator.go',S+'local_cosigner.go'],
 [('collect first t-1 ephemeral responses','signer/threshold_validator.go waitForPeerEphemeralShares'),('only parts from chosen cosigners are forwarded','signer/threshold_validator.go waitForPeerSetEphemeralSharesAndSign'),('combine','signer/threshold_validator.go SignBlock')],
 [],['SignVote/SignProposal result','cosigner calls made by the coordinator'])
p('C07','One signing per step; repeats receive the recorded signature',
 'While running, a coordinator starts the signing protocol at most once per height/round/step, except for a vote that differs from the recorded one only in timestamp, which is signed anew. A request identical to the recorded one, concurrent or later, gets the recorded signature without another signing round, on every node that knows it and after a restart. A request with other content for that step is refused, except that a repeated proposal gets the original signature.',
 ['schedules','histories'],'all interleavings of two or more requests for the same or neighbouring steps at one node, at a node that learned the signature by notification, or after a restart',
 'No test sends a second request.',
 [S+'threshold_validator.go',S+'sign_state.go',S+'raft_events.go'],
 [('last initiated state allows one attempt','signer/threshold_validator.go SaveLastSignedStateInitiated'),('wait for and return the existing signature','signer/threshold_validator.go getExistingBlockSignature')],
 [('lastSignStateInitiated','step on which signing has begun','signer/threshold_validator.go')],['cosigner calls made by the coordinator','replies'])
p('C08','Requests behind progress get the recorded signature or a refusal',
 'Once signing has started for some height/round/step, a request for an earlier one never starts a signing round: it returns the recorded signature when exactly that payload (or, for a proposal, any proposal at that step) was signed within the last three heights, and is refused otherwise. While a node runs, the signatures it knows stay available for three heights and older ones are dropped.',
 ['histories','inputs'],'all request sequences that revisit earlier heights, rounds or steps with the same, conflicting or re-timestamped payloads',
 'Tests never request an earlier step.',
 [S+'threshold_validator.go',S+'sign_state.go'],
 [('BeyondBlockError path','signer/threshold_validator.go SignBlock'),('cache window','signer/sign_state.go Save/GetFromCache')],
 [('cache','recent signatures','signer/sign_state.go cache')],['SignVote/SignProposal result','cosigner calls'])
p('C09','Only authentic secret parts from known cosigners are used',
 'A cosigner uses an ephemeral secret part only if it carries a valid signature by the claimed source cosigner over its contents and decrypts with the cosigner\'s own key; a missing or wrong signature, an unknown source, or any alteration of what was signed (source, nonce key, encrypted part) makes the request fail without a share. Each part a cosigner hands out can be decrypted only by its destination.',
 ['inputs'],'every single-field alteration, source, destination and signer of every part, at any position in the request and in any cosigner state',
 'Tests exchange only well-formed parts between two honest cosigners.',
 [S+'local_cosigner.go'],
 [('PSS signature verification','signer/local_cosigner.go setEphemeralSecretPart'),('OAEP encryption to destination','signer/local_cosigner.go getEphemeralSecretPart')],
 [('hrsMeta','secrets per height/round/step/time','signer/local_cosigner.go')],['SetEphemeralSecretPartsAndSign result','encrypted parts'])
p('C10','Nonces are fresh, consistent and always include the signer\'s own',
 'A cosigner deals one fresh random nonce per height, round, step and timestamp, hands out the same one for repeated requests, and never uses one nonce for two of them. Every share it releases is made with the sum of its own nonce and exactly the parts it was given for that request key, so no other cosigner knows the whole nonce: a threshold of the parts handed out for a nonce determines it, fewer do not. After signing, nonces for earlier steps are forgotten.',
 ['histories','inputs'],'all orders of nonce requests, part deliveries and signings over several steps and timestamps, including parts delivered before any nonce was requested and restarts in between',
 'The test follows the single regular order once.',
 [S+'local_cosigner.go'],
 [('nonce dealt once per key','signer/local_cosigner.go dealShares'),('own share included','signer/local_cosigner.go getEphemeralSecretPart/sign'),('metadata purge','signer/local_cosigner.go sign')],
 [('hrsMeta','nonce state per key','signer/local_cosigner.go')],['ephemeral public keys in parts and in share responses'])
p('C11','Every node learns the last signed state',
 'After the leader has produced a signature, every running cluster member\'s validator and share watermarks (memory and files) reach at least that height/round/step, with the signed content, and a member that was down or lagging reaches it after it returns. A member that learned of a signature this way refuses shares for conflicting or lower requests even if it did not take part in the signing.',
 ['histories','crash_points','fault_sequences'],'all histories of signings with members stopping, restarting and catching up through log replay',
 'No existing test runs more than one consensus member outside docker.',
 [S+'raft_events.go',S+'raft_store.go',S+'threshold_validator.go'],
 [('Emit last signed state through raft','signer/threshold_validator.go SignBlock'),('handleLSSEvent updates both states','signer/raft_events.go')],
 [('raft log','committed notifications','signer/raft_store.go')],['state files of every node','share requests to every node'])
p('C12','The replicated store converges on every member',
 'A successful write or delete through the leader becomes visible with the same result on every member, members apply operations in one common order, and the contents survive restarts, log replay and snapshot restore. Writes on a non-leader are refused, deleting removes the key, and signing notifications are never retained as data.',
 ['histories','schedules','crash_points'],'all sequences of writes, deletes, leader changes, member crashes, restarts and snapshots',
 'The existing test sets and deletes one key on a single-node store.',
 [S+'raft_store.go',S+'raft_events.go'],
 [('Apply/applySet/applyDelete','signer/raft_store.go'),('Snapshot/Restore/Persist','signer/raft_store.go'),('leader check','signer/raft_store.go Set/Delete')],
 [('m','key-value contents','signer/raft_store.go')],['RaftStore.Get/Set/Delete on each node'])
p('C13','Any node can be asked; the leader signs; leadership can move',
 'A sign request made to a node that is not the leader gives the result the leader gives for it, and such a node never coordinates a signing itself. While a majority including a threshold of members is up, requests succeed again after the leader stops or leadership is handed over, and a handover request naming a member ends with that member as leader.',
 ['histories','fault_sequences','schedules'],'all placements of requests on members, with the leader killed, restarted or changed by request in between',
 'Leader failover is only in the docker tests, which cannot run here; unit tests have one node that is always leader.',
 [S+'threshold_validator.go',S+'raft_events.go',S+'grpc_server.go',S+'raft_store.go'],
 [('proxy to leader','signer/raft_events.go LeaderSignBlock'),('TransferLeadership','signer/grpc_server.go'),('leader test','signer/threshold_validator.go SignBlock')],
 [],['SignVote/SignProposal at each node','leader as seen by each node'])
p('C14','A signer connection answers every request once, in order, correctly typed',
 'On each connection to a chain node the signer answers every request with exactly one response, in request order and of the matching type, carrying either the signed message for the configured chain or an error without signature. A broken connection or malformed frame only drops that connection: the signer reconnects and keeps answering.',
 ['histories','inputs','fault_sequences'],'all sequences of ping, public-key, vote, proposal, unknown and malformed messages with disconnects at any point',
 'No test opens a remote-signer connection.',
 [S+'remote_signer.go',S+'Serialization.go'],
 [('request loop','signer/remote_signer.go loop'),('handlers','signer/remote_signer.go handleRequest'),('framing','signer/Serialization.go')],
 [],['bytes on the connection'])
p('C15','Guarded signing: one request at a time reaches the validator',
 'However many chain-node connections issue requests concurrently, the guarded validator processes at most one call at a time, each call reaches it exactly once with its own arguments, and each caller receives the result of its own call. A failing call does not block later ones.',
 ['schedules'],'all interleavings of concurrent public-key, vote and proposal calls, including failing calls',
 'No test calls the guard concurrently.',
 [S+'PvGuard.go'],
 [('mutex around every call','signer/PvGuard.go')],[],['calls into a recording validator'])
p('C16','Key sharding: any threshold of shares signs for the original key, fewer do not',
 'For every threshold t and number of shares n, the share files made from a validator key let any t cosigners produce a signature that verifies under the original public key, and no t-1 of them can. Shares carry distinct ids 1..n, each private communication key matches the public key listed for its id in every share, and a share file read back is the share that was written.',
 ['configurations','inputs'],'all (t, n) within bounds, all subsets of shares, any validator key',
 'Only loading one fixture key file is tested.',
 [S+'cosigner_key_shares.go',S+'cosigner_key.go',C+'key2shares.go'],
 [('DealShares','signer/cosigner_key_shares.go CreateCosignerShares'),('JSON round trip','signer/cosigner_key.go')],[],['share files written by create-shares'])
p('C17','Configuration commands keep the configuration valid or change nothing',
 'After any sequence of configuration commands the stored configuration has distinct peer ids within 1..shares, fewer peers than shares, and well-formed chain node addresses; additions and removals have exactly the requested effect on the listed entries, touch nothing else, and never empty a list. A command that reports an error leaves the configuration file unchanged, one that is killed leaves either the old or the new one, whole, and initialisation never overwrites an existing one unless told to.',
 ['inputs','histories','crash_points'],'all sequences of init, node, peer, share and chain-id commands with valid, overlapping, duplicate, out-of-range and malformed arguments; a kill or an error of the system at each step of a command',
 'Tests run one command from a fresh configuration for a few arguments.',
 [C+'config.go',C+'root.go'],
 [('validateCosignerPeers','cmd/horcrux/cmd/config.go'),('diffSet','cmd/horcrux/cmd/config.go')],[],['config.yaml after each command','exit status'])
p('C18','Operator commands never lower or lose sign state',
 'Setting the state raises both the validator and the share watermark to the given height, durably by the time the command returns, and never lowers either; a refused setting is reported as an error. Re-initialising a home directory or renaming the chain id carries the existing watermarks over unchanged, and showing state changes nothing. Whenever a command is cut short, the chain id that is configured then has the watermarks it had.',
 ['inputs','histories','crash_points'],'all sequences of state set/show, re-initialisation with overwrite, and chain-id changes with any heights; a kill or an error of the system at each step of a command',
 'The single test sets one height in-process and sleeps before looking; it never re-runs a command nor runs the real program.',
 [C+'state.go',C+'config.go',S+'sign_state.go'],
 [('state set','cmd/horcrux/cmd/state.go setStateCmd'),('LoadOrCreateSignState','signer/sign_state.go'),('chain-id rename','cmd/horcrux/cmd/config.go setChainIDCmd')],
 [('state files','watermarks','<home>/state')],['state files after each command','exit status'])
p('C19','Single-signer mode never double signs, including across restarts',
 'A single signer never signs a lower height/round/step than it has signed before, nor different content at the same one, across any number of restarts or kills with the same home directory.',
 ['crash_points','histories'],'all request sequences with the process killed and restarted at any point',
 'No test starts the single signer.',
 [C+'signer.go',S+'remote_signer.go'],
 [('state file loaded at start','cmd/horcrux/cmd/signer.go StartSignerCmd')],
 [('state file','last signed state','<home>/state/<chain>_priv_validator_state.json')],['responses on the connection'])
p('C20','A signer that lacks its configuration, key or share state refuses to run',
 'A cosigner whose configuration is invalid, whose key share is missing or unreadable, or whose share state file is missing or corrupt exits with an error before connecting to any chain node or signing anything, and does not create or overwrite the share state file. A single signer likewise refuses to run without valid configuration and key.',
 ['configurations','fault_sequences'],'all combinations of missing, empty, truncated or invalid files and configuration values at start',
 'No test starts the programs.',
 [C+'cosigner.go',C+'signer.go',S+'sign_state.go',S+'cosigner_key.go'],
 [('LoadSignState instead of LoadOrCreate','cmd/horcrux/cmd/cosigner.go'),('KeyFileExists','signer/Config.go'),('validateCosignerConfig','cmd/horcrux/cmd/config.go')],[],['exit status, connections attempted, files'])
p('C21','Malformed input never crashes a signer or moves its watermark',
 'No message from a chain node or another cosigner, however malformed (unknown vote types, missing fields, arbitrary sign bytes, wrong step, out-of-range ids), crashes the process; it is answered with an error. Such a message leaves the recorded watermarks unchanged, and well-formed requests are still served afterwards.',
 ['inputs'],'arbitrary field values and byte strings in every remotely reachable request, in any order with valid requests',
 'Tests only send well-formed requests.',
 [S+'remote_signer.go',S+'threshold_validator.go',S+'Serialization.go',S+'local_cosigner.go',S+'grpc_server.go'],
 [('UnpackHRST','signer/Serialization.go'),('handlers','signer/remote_signer.go'),('gRPC server','signer/grpc_server.go')],[],['process liveness','responses','state files'])
p('C22','A repeated share request receives the identical share, also after restart',
 'Asked again for exactly the bytes at its watermark that it signed, a cosigner returns the same share together with the same nonce key as the first time, without making a new share. This stays true after re-signings that differ only in timestamp, after refused requests, after notifications, and after a restart from disk.',
 ['histories','crash_points'],'all histories of signings, re-signings, refusals, notifications and restarts before the repetition',
 'Tests never repeat a share request.',
 [S+'local_cosigner.go',S+'sign_state.go'],
 [('cached share returned for equal bytes','signer/local_cosigner.go sign'),('ephemeral public key kept with the signature','signer/sign_state.go SignState')],
 [('EphemeralPublic, Signature, SignBytes','recorded share','signer/sign_state.go')],['share responses'])
p('C23','A cosigner reached over the network behaves exactly like a local one',
 'Requests made through the network interface reach the cosigner with the same height, round, step, timestamp, parts and bytes, and return the same results and refusals as direct calls. A cosigner that does not answer in time yields an error, never an empty success.',
 ['inputs','fault_sequences'],'all field values of the cosigner requests and responses, and unreachable or stalled peers',
 'No test uses the network interface.',
 [S+'remote_cosigner.go',S+'grpc_server.go',S+'Cosigner.go'],
 [('conversion to and from wire messages','signer/Cosigner.go'),('client with deadline','signer/remote_cosigner.go'),('server','signer/grpc_server.go')],[],['RemoteCosigner results against LocalCosigner behaviour'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
