#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe,hook_needed=None)))
D='protocol/directory/directory.go'; PAD='merkletree/pad.go'; MT='merkletree/merkletree.go'; ND='merkletree/node.go'
PR='merkletree/proof.go'; STR='merkletree/str.go'; MSG='protocol/message.go'; CC='protocol/client/consistencychecks.go'
AU='protocol/auditor/auditor.go'; AL='protocol/auditlog/auditlog.go'; SB='application/serverbase.go'; SV='application/server/server.go'
EN='application/encoding.go'; TW='application/bots/twitterbot.go'; LD='storage/kv/leveldbkv/leveldbkv.go'

p('D01','Directory publishes one linear, signed, immutable chain of tree roots',
 'Every epoch update of a directory publishes exactly one new signed tree root (STR) whose epoch is its predecessor\'s plus one, that names the predecessor by epoch and by the hash of its signature, that commits to the root of the tree of that epoch, and whose signature by the directory\'s key covers epoch, previous epoch, root, previous hash and policies. Two observations of the STR of the same epoch, through any request and at any later time, are identical, including its tree root, policies and signature.',
 ['histories','inputs'],'all interleavings of registrations, lookups, policy changes and epoch updates, and every request type through which an STR is returned',
 'Tests look at one or two epochs and compare a few fields; whether an already published STR can change later or a chain can fork depends on the whole history.',
 [PAD,STR,D,'protocol/str.go','protocol/policy.go'],[('signTreeRoot/updateInternal',PAD),('NewSTR, SerializeInternal',STR),('Update',D)],
 ['LatestSTR','KeyLookup','KeyLookupInEpoch','Monitor','GetSTRHistory'],[dict(name='snapshots/latestSTR',meaning='published STRs',where=PAD)])
p('D02','Every answer is read from exactly the snapshot of the epoch it claims',
 'Each authentication path a directory returns for an epoch verifies against the tree root of that epoch\'s STR and proves precisely what was in that snapshot: a name is proven included, with its registered key, iff its registration preceded the epoch update that published the snapshot, and proven absent otherwise. Registrations made after a snapshot was published never alter any later answer about that snapshot, and the answer\'s status code agrees with the proof.',
 ['histories','inputs'],'all histories of registrations and epoch updates, all epochs still retained, all names (registered, pending, unknown)',
 'Tests look up one name in one or two epochs; isolation between the mutable tree and each retained snapshot is a property of every later history.',
 [D,PAD,MT,ND],[('Clone per snapshot',MT),('LookupInEpoch',PAD),('Get',MT)],['KeyLookup','KeyLookupInEpoch','Monitor','Register'])
p('D03','First registration wins; a binding is never changed or removed',
 'Once a registration of a name has been accepted, every later registration of that name, in the same or any later epoch and with the same or another key, is answered as already existing and has no effect, and all later answers (temporary binding or proof of inclusion) carry the first key. Every accepted name is included, with exactly that key, in every snapshot published afterwards, and a registration is accepted whenever the name was not registered before.',
 ['histories','inputs'],'all sequences of registrations, lookups and epoch updates over all names and keys, including re-registration before and after commitment to a snapshot',
 'Tests re-register one name once; append-only must hold over all histories.',
 [D,MT],[('Register existence checks (snapshot and TBs)',D),('insertNode',MT)],['Register','KeyLookup','Monitor'])
p('D04','Temporary bindings are promises: verifiable, repeated and fulfilled',
 'An accepted registration is answered with a temporary binding for the requested name\'s private index and key, signed by the directory over the current STR\'s signature, index and key; until the next epoch update every lookup or registration of the name returns the same binding together with a proof of absence. After the next epoch update the name is included with the promised key and no answer carries a temporary binding for it any more, and names without pending registration never get one.',
 ['histories','inputs'],'all interleavings of registrations, lookups and epoch updates',
 'Tests check single TBs; the promise relates a response to all responses and snapshots that follow.',
 [D,'protocol/tb.go'],[('tbs map, NewTB, Update clearing',D),('Serialize','protocol/tb.go')],['Register','KeyLookup'])
p('D05','Requests are answered over exactly the requested range, or refused',
 'A request with an empty name, an empty key, a start epoch beyond the latest epoch, or a start epoch after its end epoch is refused as malformed; an end epoch beyond the latest one means the latest one. A well-formed monitoring request returns one proof and one STR per epoch of its range in ascending order, an epoch lookup one proof for its epoch and all STRs from it up to the latest, and an STR history request the STRs of its range; refused requests have no effect and no request, however extreme its epochs, crashes the directory.',
 ['inputs','histories'],'all request types with all argument combinations (empty, boundary, reversed, far-future, maximal 64-bit epochs) at every reachable directory state',
 'Tests sample a few malformed requests; boundaries relative to the current epoch and the retained history need systematic coverage.',
 [D,'protocol/error.go'],[('well-formedness checks and clamping',D)],['Register','KeyLookup','KeyLookupInEpoch','Monitor','GetSTRHistory'])
p('D06','Only old snapshots are evicted, within capacity, and answers stay honest',
 'A directory configured to retain n snapshots keeps at most max(n,1) of them; when an update finds the store full it evicts the oldest half (at least one) and nothing else, so the retained epochs are always a contiguous range ending at the latest epoch. A request that needs an evicted epoch is answered with a directory error, never with data of another epoch and never with a crash, while requests on retained epochs keep being answered exactly.',
 ['histories','configurations'],'all capacities (including 0 and 1) and all numbers of epoch updates',
 'Tests use one capacity and look at the cache once.',
 [PAD,D],[('Update eviction',PAD),('ErrSTRNotFound handling',D)],['GetSTR','LookupInEpoch','Monitor','KeyLookupInEpoch','GetSTRHistory'])
p('D07','A policy change takes effect at one epoch boundary, one epoch later',
 'Changing the epoch deadline never affects a published STR: the STR of the epoch update following the change still carries the policies in force when that epoch\'s changes were collected, and the change appears in the next one and stays until changed again. Each STR\'s policies carry the protocol version, hash identifier and the directory\'s VRF public key, are covered by its signature, and the directory reports as its deadline the one in the latest STR.',
 ['histories'],'all interleavings of policy changes (several per epoch included) and epoch updates',
 'The one existing test changes the policies once.',
 [D,PAD,'protocol/policy.go'],[('SetPolicies/Update',D),('updateInternal delayed ad',PAD)],['LatestSTR','EpochDeadline','SetPolicies'])
p('M01','The Merkle tree is canonical and complete',
 'For any set of bindings the tree root equals the one defined by the Merkle prefix tree construction over the set of (index, commitment) pairs, whatever the order of insertions, replacements and snapshots in between. For every index the tree yields a proof that verifies under that root: an inclusion proof with the latest value if the index was set, and otherwise an absence proof ending in the empty branch or in the other user\'s leaf on the index\'s path.',
 ['inputs','histories'],'all sets of bindings (including indices sharing arbitrarily long prefixes), all insertion orders, all replacements, all clones, all lookups',
 'Tests insert a few random or static names; shared prefixes deeper than a few bits, re-hashing after replacement and clone independence are not reached.',
 [MT,ND,PR,PAD],[('insertNode, hash caching',MT),('hash/clone',ND)],['Set','Get','Verify','tree root in the STR'])
p('M02','Proofs are sound: a root admits one answer per name',
 'Under one tree root no two authentication paths that verify can disagree about a name: not one proving inclusion and another proving absence, nor two proving different values, whatever prover constructed root and paths. Changing any part of a valid path (nonce, index, level, sibling hashes, commitment, salt, value, emptiness) so that it would prove something else, verifying it for another name, value or root, or giving it a malformed shape is rejected without crashing.',
 ['inputs'],'all authentication paths, honest or adversarially constructed (including re-split nonce/index bytes, commitment-less leaves, wrong levels), all names, values and roots',
 'Tests try four mutations of one proof; soundness quantifies over all adversarial proofs.',
 [PR,'crypto/util.go'],[('Verify, checkShape, authPathHash',PR),('Commit.Verify','crypto/util.go')],['AuthenticationPath.Verify'])
p('M03','Answers reveal nothing about other users\' bindings',
 'An answer about a name never contains another user\'s name, key or commitment opening: a proof of absence that ends in another user\'s leaf carries only its index and commitment, an index is only the output of the verifiable random function, and every commitment uses a fresh random salt (also when a binding is set again) and every directory a fresh random tree nonce. The opening of a commitment is given only for the name that was asked for.',
 ['inputs','histories'],'all directory contents, all lookups, all response types',
 'Tests check value suppression for a single pair of names.',
 [MT,PAD,'crypto/util.go'],[('Get suppression of salt and value',MT),('NewCommit','crypto/util.go'),('computePrivateIndex',PAD)],['KeyLookup','KeyLookupInEpoch','Monitor','Register'])
p('C01','A client\'s view of a directory only advances along one signed chain',
 'The root a client trusts changes only to an STR that is signed with the pinned key, has the next epoch and links to the hash of the trusted one\'s signature; an STR of the same epoch is accepted only if it is identical to the trusted one. Anything else (older, skipping, forked, wrongly linked, altered or wrongly signed) is reported as a failed check and leaves the trusted root unchanged.',
 ['histories','inputs'],'all sequences of responses by an adversarial directory that may fork, replay, skip, or alter any field of the STR or its policies',
 'protocol/client has no tests of its own; the protocol tests try a few bad STRs.',
 [CC,AU,STR],[('updateSTR',CC),('CheckSTRAgainstVerified',AU),('VerifyHashChain',STR)],['HandleResponse','VerifiedSTR'])
p('C02','A client accepts an answer only if everything in it is proven',
 'A lookup or registration answer is accepted only if its index is proven by the VRF for the requested name, its authentication path verifies under the trusted root, its status agrees with the kind of proof, the key in it (or its temporary binding) equals the expected key, if one is expected, and a temporary binding that it relies on is present, belongs to the same index and is signed for the current STR. Any answer failing one of these is reported with an error and never adds or changes a remembered key or promise.',
 ['inputs','histories'],'all responses obtained by altering, mixing or re-using parts of genuine ones (other names, keys, epochs, directories), under every status code',
 'The protocol tests alter single fields of a handful of responses.',
 [CC,PR,MSG],[('verifyAuthPath, verifyRegistration, verifyKeyLookup, verifyReturnedPromise',CC)],['HandleResponse','Bindings','TBs'])
p('C03','Honest answers are accepted',
 'A client that follows an honest directory epoch by epoch accepts every answer to its registrations and lookups, whether delivered in memory or in encoded form, and reports for each name the registered key or its absence, as of that moment. An expected key that differs from the registered one is reported as differing binding, and not as any other failure.',
 ['histories','inputs'],'all interleavings of registrations and lookups by several clients and epoch updates of one honest directory',
 'Tests cover a few single-client request sequences and never the encoded form.',
 [CC,MSG,EN,D],[('HandleResponse',CC),('GetKey',MSG),('Marshal/UnmarshalResponse',EN)],['HandleResponse','GetKey'])
p('C04','A client remembers the first key it accepted for a name',
 'After an answer that gives a key for a name has been accepted, the client remembers exactly that key for that name, and answers accepted under this expectation never carry another key. Failed checks, answers about other names and answers without key never change or erase the remembered key.',
 ['histories','inputs'],'all sequences of honest and adversarial responses over several names',
 'No test looks at the remembered keys.',
 [CC,MSG],[('Bindings, GetKey',CC)],['HandleResponse','Bindings'])
p('C05','A broken registration promise is detected',
 'If a directory gave a client a valid temporary binding for a name, then any later answer that the client accepts for that name either repeats that same binding within the epoch of the promise or proves inclusion of exactly the promised key. An answer in which the name is missing from a later epoch, is denied within the epoch, or has another key is reported as a failure, and the promise is kept until it was fulfilled.',
 ['histories','inputs'],'all sequences of promises, epochs and answers of a directory that signs anything it likes',
 'One test breaks a promise in one way.',
 [CC],[('updateTBs, verifyFulfilledPromise, verifyPendingPromise',CC)],['HandleResponse','TBs'])
p('C06','A client detects equivocation using an auditor\'s view',
 'Comparing with an auditor\'s range of STRs succeeds only if the range is a correctly signed and linked chain and its last STR is either identical to the client\'s trusted one or its signed, linked successor; every other range (a fork at any position, older, further ahead, altered) is reported as failure. The comparison never changes the client\'s state.',
 ['inputs','histories'],'all ranges of STRs from honest and equivocating directories, of all lengths, with forks at every position',
 'Tests compare a few ranges from one honest chain.',
 [CC,AU],[('CheckEquivocation',CC),('VerifySTRRange, CheckSTRAgainstVerified',AU)],['CheckEquivocation','VerifiedSTR'])
p('C07','Malformed answers are rejected without crashing or changing state',
 'Whatever bytes a client receives as the answer to a registration, lookup or audit request (invalid encoding, missing, null, truncated, wrongly typed or oversized parts, unknown status codes, another kind of response), decoding and checking them ends with an error and never with a crash. An answer without proof, leaf, STR or policies leaves the trusted root unchanged, and any rejected answer leaves remembered keys and promises unchanged.',
 ['inputs'],'all byte strings as responses, in particular all structural mutations of genuine responses',
 'Tests feed a few malformed messages to Validate().',
 [MSG,CC,EN,PR,'protocol/str.go'],[('Validate',MSG),('UnmarshalResponse',EN),('checkShape',PR)],['UnmarshalResponse','HandleResponse','CheckEquivocation'])
p('A01','An audited history is one linear, signed, gapless chain',
 'An auditor extends its history of a directory only by a range of STRs that starts with the latest audited STR or its successor and continues epoch by epoch, every one signed by that directory\'s key and linked to its predecessor; otherwise the audit fails and the histories stay exactly as they were. The histories of different directories are independent, and initialising a known directory again, or one without an STR for epoch 0, is refused without effect.',
 ['histories','inputs'],'all sequences of audits with ranges of all lengths and defects at every position, over several directories',
 'Tests audit a few ranges with one defect each.',
 [AL,AU],[('Audit, InitHistory, insertRange',AL),('AuditDirectory',AU)],['Audit','InitHistory','GetObservedSTRs','VerifiedSTR'])
p('A02','An auditor serves exactly the range it observed',
 'For a known directory and a range of epochs within the audited history the auditor returns exactly the audited STRs of these epochs in ascending order. A range that is reversed or reaches beyond the latest audited epoch is refused as malformed, an unknown directory is reported as unknown, and no request changes the log or crashes.',
 ['histories','inputs'],'all histories of audits and all requests (boundary and extreme epochs, all identities)',
 'Tests request a handful of ranges of one history.',
 [AL],[('GetObservedSTRs',AL)],['GetObservedSTRs'])
p('S01','Concurrent requests are served as if one at a time',
 'For any concurrent mix of registrations, lookups, monitoring requests and epoch updates, on any of its addresses, the server\'s answers are those of a directory that handles the requests one at a time, each between its arrival and its answer. In particular of concurrent registrations of one name exactly one succeeds, every answer is consistent with a single epoch, and no data race occurs.',
 ['schedules'],'all schedules of concurrent connections, epoch updates and reloads',
 'Server tests send one request at a time.',
 [SB,SV],[('sync.RWMutex around handler and epoch update',SB)],['network requests to the server'])
p('S02','Registration is possible only through addresses that allow it',
 'An address serves lookups, epoch lookups and monitoring, and registrations iff it is configured to allow registration; every other request type is refused as malformed on every address. A refused request has no effect on the directory, and the permission of one address never affects another one.',
 ['configurations','inputs'],'all sets of addresses with all permissions, all request types',
 'Tests use two fixed configurations.',
 [SV,SB],[('perms, checkRequestType',SB)],['network requests to the server'])
p('S03','Each connection gets one well-formed answer and cannot harm the server',
 'Whatever a connection sends (arbitrary bytes, truncated, oversized, nothing, or a request that never completes), the server either answers with exactly one well-formed response, refusing malformed input as malformed, or closes the connection within its time limit, and it keeps serving all others meanwhile. Malformed input never has an effect on the directory, and a shutdown completes after answering the requests it had accepted.',
 ['inputs','schedules','fault_sequences'],'all byte strings and connection behaviours (early close, half close, stall), at any time including shutdown',
 'Tests send a handful of malformed messages.',
 [SB,EN],[('acceptClient limits, deadline',SB),('UnmarshalRequest, malformedClientMsg',EN)],['network requests to the server','Shutdown'])
p('S04','Epochs advance by timer at the configured rate, atomically with requests',
 'The server starts one new epoch each time its epoch timer fires and at no other moment, re-arms the timer with the configured deadline after each update, and stops doing so after shutdown. A freshly initialised server configuration has the same positive epoch interval in its policies and its timer.',
 ['schedules','configurations'],'all timer expirations relative to requests, all configurations',
 'A test waits for one update.',
 [SB,SV,'application/server/config.go'],[('EpochUpdate, NewEpochTimer',SB),('NewConfig','application/server/config.go')],['EpochUpdate','network lookups'])
p('S05','A reload signal changes only the policies, and only if the config is valid',
 'On its reload signal the server re-reads its configuration file and announces the new epoch deadline in its STRs starting with the second epoch update after it, without interrupting requests or altering anything else. If the configuration cannot be loaded, the policies remain as they are and the server keeps running.',
 ['histories','fault_sequences'],'all sequences of reloads with valid, invalid, missing configurations, and epoch updates',
 'Tests reload once with an error and once without, sampling a single field.',
 [SB,SV,'application/server/config.go'],[('HotReload',SB),('updatePolicies',SV)],['LatestSTR through lookups'])
p('W01','Encoding and decoding of messages loses and confuses nothing',
 'Every request and response survives encoding and decoding unchanged: type or status, all names (any valid UTF-8 text), keys of any bytes, epochs of the full 64-bit range, proofs, STRs and temporary bindings, so that a decoded proof, STR or binding verifies iff the original does. A request decodes to the request kind named by its type or not at all, and a pinned initial STR saved to a file is read back unchanged, files with another epoch or without a complete STR being refused with an error.',
 ['inputs'],'all request and response values, all status codes',
 'Tests encode a few requests and error responses.',
 [EN,'application/client/encoding.go','application/config.go'],[('Marshal/Unmarshal',EN),('SaveSTR, LoadInitSTR','application/config.go')],['MarshalRequest','UnmarshalRequest','MarshalResponse','UnmarshalResponse','SaveSTR','LoadInitSTR'])
p('B01','The registration bot forwards only authentic registrations',
 'The bot forwards a message to the CONIKS server only if it decodes to a registration request whose name is the sender\'s Twitter handle, compared case-insensitively, followed by "@twitter"; anything else is answered as malformed and nothing reaches the server. A forwarded message is passed on unmodified and the server\'s answer is returned unmodified, and a server that fails or does not answer is reported as a directory error. On its stream the bot answers each direct message that starts with its prefix once, to that message\'s sender, and ignores all others and its own; it starts only if the server\'s socket exists and Twitter confirms its handle, and removes the old messages.',
 ['inputs','fault_sequences'],'all sender handles, all messages and streams of messages, reachable, unreachable and failing servers',
 'Tests use a few messages and one handle.',
 [TW,'application/bots/bot.go'],[('HandleRegistration',TW)],['HandleRegistration','bytes arriving at the server socket'])
p('K01','The key-value store is a map with atomic, durable writes',
 'Reading a key returns the value last written to it, or not-found if there is none or it was deleted last; a batch takes effect completely, in order and at once. When a write, delete or batch has returned, its effect survives a crash that loses everything not forced to stable storage, and a batch interrupted by a crash takes effect completely or not at all.',
 ['histories','crash_points'],'all sequences of puts, deletes, batches and reopenings, with a crash at every point',
 'The storage packages have no tests.',
 ['storage/kv/kv.go',LD],[('Put/Delete/Write with Sync',LD)],['Get','Put','Delete','Write','OpenDB'])
p('K02','Range scans return exactly the keys with the prefix, in order',
 'Iterating the range of a prefix yields exactly the stored keys that begin with the prefix, each once, in ascending byte order with their current values, for every prefix including the empty one and those ending in or consisting of 0xff bytes. Iterating a range yields exactly the keys k with start <= k < limit, and computing a range never modifies the given prefix.',
 ['inputs','histories'],'all key sets and prefixes',
 'The storage packages have no tests.',
 ['storage/kv/range.go',LD],[('BytesPrefix, IncrementKey','storage/kv/range.go'),('NewIterator',LD)],['BytesPrefix','IncrementKey','NewIterator'])
p('X01','The VRF is a function with unforgeable, transferable proofs',
 'For each key and input there is exactly one output, the same whether computed or proven; its proof verifies under the matching public key for exactly that input and output. No proof verifies for another input, another output, another key or with any byte of proof or output altered, malformed lengths are refused without crashing, and outputs for different inputs or keys differ.',
 ['inputs'],'all keys, inputs (including empty and long ones), outputs and proofs, honest or altered',
 'Tests check one honest case and single bit flips of one proof.',
 ['crypto/vrf/vrf.go','crypto/internal/ed25519'],[('Compute, Prove, Verify','crypto/vrf/vrf.go')],['Compute','Prove','Verify'])
p('X02','Signatures and commitments bind exactly what was signed or committed',
 'A signature verifies under a public key iff it was made with the matching private key over exactly that message, and a commitment opens only to the sequence of values committed to (as concatenated after its salt). Digests are those of SHAKE128 with 32-byte output over the concatenated parts, salts are fresh and random, and none of these operations modifies its inputs.',
 ['inputs'],'all keys, messages, signatures, salts and values',
 'Tests check one honest and a few altered cases.',
 ['crypto/sign/sign.go','crypto/util.go'],[('Sign, Verify','crypto/sign/sign.go'),('NewCommit, Verify, Digest, MakeRand','crypto/util.go')],['Sign','Verify','NewCommit','Digest'])
p('I01','Initialisation never destroys existing state and yields a usable setup',
 'Initialising a server, client or bot directory (also while another initialisation runs, or after one was killed), or starting a server, never overwrites an existing configuration, key, certificate or pinned-root file; the keys written by a fresh initialisation are matching pairs readable only by their owner. A server started from a freshly initialised directory serves clients whose configuration pins its public key and its saved initial STR, relative paths being resolved against the configuration file, wherever the programs are started; a client does not trust a server whose key or initial STR is not the one its configuration pins.',
 ['configurations','histories','fault_sequences'],'all subsets of pre-existing files, all sequences of init and run',
 'The command line packages have no tests.',
 ['cli/coniksserver/internal/cmd/init.go','cli/coniksclient/internal/cmd/init.go','utils/utils.go','application/config.go','application/server/config.go','application/client/config.go'],[('WriteFile','utils/utils.go'),('mkConfig, mkSigningKey, mkVrfKey','cli/coniksserver/internal/cmd/init.go'),('ResolvePath','utils/utils.go')],['files written by init and run'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
