#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list in one reviewable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
V='pkg/core/verify.go'; ST='internal/chain/state.go'; CH='internal/chain/chain.go'; INV='internal/inv/inv.go'
TX='pkg/core/transaction.go'; TG='internal/chain/target.go'; DF='pkg/core/difficulty.go'; HT='pkg/core/hasht.go'
SY='internal/peer/sync.go'; PE='internal/peer/peer.go'; PF='internal/peerfactory/peerfactory.go'; CN='pkg/prot/conn.go'
NT='the repository has no test of the node: its 14 tests cover hashing, one signature, merkle shape, JSON of one tx, record serialisation and one topic exchange; '
p('C01','Coins are only created by block rewards',
 'At every moment the sum of all unspent outputs on a node\'s head chain equals the height of that chain times the block reward; no transaction or block (inputs and outputs of any size, repeated inputs, mis-stated input amounts, coinbase of any claimed amount) that a node accepts creates or destroys coin beyond that. A transaction is accepted only if its inputs are worth strictly more than its outputs as true (non-wrapping) sums, and fees go entirely to the coinbase of the block.',
 ['inputs','histories'],'every sequence of submitted transactions and candidate chains, including amounts near 2^64, repeated inputs, wrong claimed values and wrong coinbase amounts',
 NT+'none ever executes a block or a spend, and the failing amounts are extreme',
 [V,TX,ST,INV],[('surplus and value checks','Verifier.VerifyTxIsolated / VerifyTx'),('block totals','Verifier.VerifyBlock')],
 [('utxos','unspent outputs at the head',ST)],['balance, utxo and rich-list queries'])
p('C02','An output is spent at most once, a transaction confirmed at most once',
 'On any chain a node adopts as its head, every transaction input consumes an output that exists and is unspent at that point of that same chain, and each transaction is confirmed in at most one block. This holds across blocks, inside one block (including two inputs of one transaction), across forks and after reorganisations.',
 ['inputs','histories'],'every tree of blocks over conflicting transactions and every order in which chains are offered',
 NT+'no test builds two blocks',[ST,CH,V],[('utxo availability on advance','State.Advance / VerifyTxIncludable'),('already-included check','State.Advance'),('duplicate detection in merkle trees','Verifier.VerifyMerkle')],
 [('utxos','unspent outputs at the head',ST),('includedTxBlocks','block confirming each tx',ST)],['height, confirms, included-block and utxo queries'])
p('C03','Only the key an output names can spend it, and signatures bind outputs',
 'A transaction is accepted (into the pending set or a block) only if every input carries a public key hashing to the spent output\'s owner, the exact value of that output, and a valid signature by that key over the transaction\'s minimum block height and complete ordered list of outputs. Altering any output amount, any recipient, or the minimum height after signing makes every node reject it.',
 ['inputs'],'every transaction: every mutation of one field of a correctly signed transaction, any number of inputs and keys',
 NT+'the signature tests sign a fixed hash and never a transaction',[V,TX,'pkg/core/crypto.go'],[('signature check','Verifier.VerifyTxIsolated, EcdsaVerify, TxHashPreSig'),('owner and value check','Verifier.VerifyTx')],(),['CandidateTx reply, CandidateHead outcome'])
p('C04','The head moves exactly to valid, strictly heavier chains',
 'A node\'s head changes only when it is offered a chain whose blocks and transactions are all valid and whose total expected work is strictly larger than that of its current head, and then it changes to exactly that chain. Whenever such a chain is offered completely (every block, tree node and transaction the node lacks, in dependency order), the node adopts it, whatever it has seen, been offered, refused or stored before.',
 ['inputs','histories'],'every pair of current and offered chains (any fork depth, any difficulty mix, any prior history, including longer-but-lighter chains and ties)',
 NT+'no test offers a chain',[CH,INV,HT],[('work comparison','Chain.handleCandidateHead'),('work accumulation','HashT.WorkAppendTarget / TargetToWork'),('fork point','Inv.GetBlockLCA')],
 [('state.head','current head',ST)],['ValidatedHead events, height query, included-block query'])
p('C05','Ledger answers depend only on the head chain',
 'After any history of advances and reorganisations, the height, balances, unspent outputs, confirmation counts, confirming blocks and rich list a node reports are exactly those obtained by applying the blocks of its current head chain in order to an empty ledger. In particular, switching to a fork and back restores the same answers.',
 ['histories'],'every sequence of chain switches over block trees with dependent transactions, shared transactions and shared coinbases across forks',
 NT+'no test performs a reorganisation',[ST,CH],[('rewind and advance','State.Rewind / Advance / Copy'),('queries','State.GetPkhBalance, GetPkhUtxos, GetTxConfirms, GetTxIncludedBlock, GetRichList')],
 [('pkhUtxos','utxos per owner',ST),('includedTxBlocks','confirming block',ST)],['all ledger queries'])
p('C06','Invalid input never disturbs the ledger or stops the node',
 'A transaction or candidate chain that is refused leaves the head and every head-dependent answer unchanged and emits no new-head or new-transaction announcement, at whichever of its entities the refusal happens. Whatever is offered (missing parents, missing tree nodes, unknown heads, already known blocks, malformed amounts, indexes or signatures), the node keeps running and keeps answering.',
 ['inputs','histories','fault_sequences'],'every malformed or incomplete candidate, at every position in the chain, followed by further valid work',
 NT+'no test offers a bad candidate',[CH,ST,V,INV],[('copy-then-commit','Chain.handleCandidateHead'),('state copy','State.Copy')],(),['query answers before and after, liveness of the chain loop'])
p('C07','Verified transactions stay pending until confirmed, and return on reorg',
 'A verified transaction a running node has learned (submitted, or received with a chain) stays pending until a block of the head chain confirms it, and becomes pending again when a reorganisation removes that block; it is never both pending and confirmed. Unspent-output answers that exclude pending spends hide exactly the outputs some pending transaction spends, and a transaction is announced exactly when it newly enters the pending set by submission.',
 ['histories'],'every interleaving of submissions, confirmations and reorganisations, including conflicting pending transactions',
 NT+'no test has pending transactions',[ST,CH],[('pending set maintenance','State.AddMempoolTx / Rewind / Advance'),('pending spends','State.mempoolUtxoSpends')],
 [('mempool','verified, unconfirmed txs',ST),('mempoolUtxoSpends','outputs spent by pending txs',ST)],['confirms, utxo (exclude pending) queries, ValidatedTx events, mining templates'])
p('C08','Mining templates are always minable and fee-greedy',
 'Every mining template a node publishes is based on its current head with the correct next target, and its transactions are pending, mutually conflict-free, spend outputs unspent at the head, respect their minimum heights and fit in the block size limit with the coinbase. They are chosen greedily by fee per size: a pending includable transaction is left out only if it conflicts with, or no longer fits beside, chosen transactions paying at least its rate.',
 ['histories','inputs'],'every pending set (conflicts, ties, oversize, future minimum heights, zero fee) over every chain state',
 NT+'no test produces a template',[TG,ST,DF],[('template selection','Chain.CreateMiningTarget'),('includable sort','State.GetSortedIncludableMempool')],(),['MinerTarget events; blocks mined on the template are accepted'])
p('C09','Every block the miners announce is valid and pays exactly reward plus fees',
 'Whenever a miner solves a template, the block it announces sits on the template\'s head, contains exactly one coinbase (first, paying the configured address the block reward plus exactly the fees of the included transactions) followed by the template\'s transactions in order, satisfies its target, and is accepted by the node. This holds for any number of concurrent miners receiving the same templates and for templates that change while mining.',
 ['schedules','histories','configurations'],'every number of miners, template size and template update during mining',
 NT+'no test runs a miner',['internal/miner/miner.go','pkg/util/util.go','pkg/core/block.go'],[('template to block','Miner.updateTemplate / publishSolution'),('tree construction','MerkleFromTxIds')],(),['CandidateHead events from miners, chain height'])
p('C10','Accepted blocks obey every structural rule',
 'A block becomes part of a head chain only if its id meets its own target, its parent is known, its tree holds distinct known transactions within the block size limit, the first and only the first is a coinbase with a single output, no inputs and the block\'s own height as its minimum height, the coinbase takes exactly reward plus fees, and no transaction is below its minimum height or above the transaction size limit.',
 ['inputs'],'every block in which exactly one rule (or any combination) is broken, at every position of an offered chain, including unbalanced and overlapping trees and boundary sizes',
 NT+'no test verifies a block',[V,INV,ST],[('block rules','Verifier.VerifyBlock / VerifyBlockIsolated'),('tree rules','Verifier.VerifyMerkle'),('transaction rules','Verifier.VerifyTxIsolated'),('minimum height','State.Advance')],(),['CandidateHead outcome'])
p('C11','Block times and difficulty targets stay within the rules',
 'A block is accepted exactly when, besides the other rules, its time is later than the median of (up to) the five preceding blocks, at most one hour ahead of the node\'s clock, and, for the last block of a difficulty period, later than the first block of that period; and its target equals the original target (first block), its parent\'s target (inside a period), or at a period boundary lies within a factor of four of its parent\'s target and not above the network maximum. Chains breaking any of these never become the head.',
 ['inputs','histories'],'every sequence of block times and targets over several difficulty periods, including both boundaries of each rule',
 NT+'no test verifies a block; the last-in-period rule needs a whole period of blocks',[V,HT],[('time and target rules','Verifier.VerifyBlock'),('factor of four','HashT.MinNextTarget / MaxNextTarget')],(),['CandidateHead outcome'])
p('C12','The next difficulty target follows the published formula and always exists',
 'For every valid head chain the target handed to miners is: the original target for the first block; the parent\'s target inside a period; at a boundary the parent\'s target times actual over desired period time (rounded down, first to last block of the period), limited to a quarter and four times the parent\'s target and to the network maximum. Computing it never fails or crashes the node, whatever valid block times the chain has.',
 ['inputs','histories'],'every chain of valid block times and targets, including equal, decreasing and extreme times',
 NT+'the only difficulty test checks work from fixed targets',[DF,HT,TG],[('formula','NextTarget / ExpectedTargetAdjustment')],(),['MinerTarget events'])
p('C13','A behind peer obtains the whole heavier chain by synchronising',
 'When two honest nodes are connected and one has a heavier valid chain, a single synchronisation transfers every block, tree node and transaction the other lacks, in an order in which it can be verified, and the receiver adopts the chain. This holds for any fork point, any number of blocks, any tree shapes and any dependencies between transactions inside or across blocks, and whatever the receiver already holds.',
 ['histories','inputs'],'every pair of honest inventories with a heavier and a lighter head',
 NT+'no test opens a connection',[SY,'pkg/prot/core.go',CH],[('entity negotiation','Peer.handleInboundSyncChain / handleOutboundSyncChain')],(),['bytes on the connection; CandidateHead handed over; receiver head'])
p('C14','Peer conversations never deadlock, drop or misparse a message',
 'Between two honest nodes, under any interleaving of commands issued by both sides (including both issuing a command at the same moment) and any segmentation or delay of the byte stream below the protocol timeouts, every issued command is acknowledged and carried out on the other side, and the stream never loses or misinterprets a message. Every message within the declared length limit arrives intact; a longer one is refused by the sender instead of corrupting the stream.',
 ['schedules','inputs','fault_sequences'],'every interleaving of two command streams and every split and delay of the byte stream',
 NT+'no test opens a connection',[PE,CN,'pkg/prot/primitives.go'],[('command/ack with collision rule','Peer.issueCommand / handleReceivedMessage'),('framing','Conn.Read/Write')],(),['what a scripted peer sends and receives on the wire'])
p('C15','Connected nodes converge and gossip',
 'In any connected network of honest nodes, once no new blocks are mined every node\'s head has the same total work, and all nodes share the head if one chain is strictly heaviest; a transaction a node newly accepts by submission reaches every node then connected to it, directly or through others, as long as each of them knows the outputs it spends. This holds for any topology, order of mining, and connections lost or joining late.',
 ['schedules','histories','configurations'],'every small connected topology, placement of chains and transactions, and late joins',
 NT+'no test runs two nodes',[PE,SY,'internal/peer/handlers.go'],[('announce on new head / tx','Peer.Loop'),('sync on connect','Peer.Loop')],(),['heads and pending sets of every node'])
p('C16','A faulty peer can only cost its own connection',
 'Whatever bytes a connected peer sends (wrong identities, blocks or transactions whose content does not match the requested id, claimed work it cannot prove, absurd lengths or counts, truncated or silent conversations), the node\'s head, ledger and other connections are unaffected, no unverified entity enters the ledger, and resources used stay bounded by the bytes actually received. The node ends by closing or recovering that connection.',
 ['inputs','fault_sequences'],'every deviation of one scripted peer at every step of every conversation',
 NT+'no test opens a connection',[SY,PE,'pkg/prot/core.go',CN,'internal/peer/handlers.go'],[('content check against id','Conn.ReadBlock / ReadMerkle / ReadTx'),('proof-of-work pre-check','Peer.quickVerifyChain'),('recover in loop','Peer.Loop')],(),['node queries and other peers during and after the attack'])
p('C17','A restart or crash resumes the last adopted chain',
 'A node with a save directory that is stopped or killed at any point and restarted on the same directory resumes a head it had adopted (the last one announced, or the one being adopted at the kill), with the answers that chain implies, and can go on following the network, including confirming transactions it had seen before. No prefix of its file operations leaves the directory in a state from which it cannot start or loses an announced head.',
 ['crash_points','histories'],'every prefix of the node\'s file operations, over every history of advances and reorganisations',
 NT+'the disk map is never tested; no test restarts anything',[CH,INV,'pkg/disksyncmap/disksyncmap.go','internal/inv/serialize.go'],[('head file','Chain.saveHeadToFile / loadHeadFromFile'),('write-through map','DiskSyncMap.Store'),('replay on start','NewChain')],
 [('save dir','head file and one file per entity','-save-dir')],['save directory contents; answers after restart'])
p('C18','The peer set is bounded, unique, never includes the node itself, and frees slots',
 'A node never keeps more than its maximum number of peers, never two connections under the same peer identity, and never one to itself. A refused connection is told so (with alternative addresses when known) and closed; when a peer\'s connection ends, its slot becomes free again and its address is no longer handed out. While it has room, it tries the addresses its peers give it.',
 ['schedules','histories','fault_sequences'],'every sequence of connects, duplicate identities, refusals, disconnects and address exchanges',
 NT+'no test of the peer factory',[PF,PE,CN],[('admission','PeerFactory.addConn'),('slot release','PeerFactory.Loop / PeerClosing'),('self detection','Conn.handshake')],
 [('knownPeers','connected identities',PF)],['connections as seen by scripted peers'])
p('C19','Every subscriber gets every message exactly once, in publishing order',
 'A subscription created before a publication receives every message published to its topic from then until it is closed, exactly once, and each publisher\'s messages in the order it published them (messages of one publication contiguous and in order). Closing a subscription never blocks publishers or affects other subscribers, and any number of publishers, subscribers and closes may run concurrently.',
 ['schedules'],'every interleaving of publish, subscribe, receive and close',
 'TestTopic exchanges a few messages sequentially; interleavings, slow readers and closes are not exercised',['pkg/topic/topic.go','pkg/syncqueue/syncqueue.go','pkg/queue/queue.go'],[('fan-out under lock','Topic.Pub / Sub'),('channel adapter','SubCh.loop / Close'),('queue','SyncQueue')],(),['messages received per subscriber'])
p('C20','Wallet-built transactions are valid and pay exactly what was asked',
 'A payment the wallet builds is accepted by the network, pays each requested destination exactly its amount, uses only outputs the wallet owns (each once), pays at least the requested fee rate (at least one coin) and at most the rounding of signature sizes more, and returns all the rest to the wallet\'s richest address; a consolidation moves as many outputs as fit into one transaction, minus such a fee, to one wallet address. The wallet program sends what it builds once, after the user confirmed it, showing the fee and amounts it really has. When the balance, fee or size limit does not allow it the wallet reports an error; it never crashes or builds a transaction that moves other amounts.',
 ['inputs'],'every set of owned outputs, destinations, fee rate and limits, including empty sets, zero and extreme amounts',
 NT+'the transaction factory is untested',['pkg/core/txfactory.go','cmd/bcwallet/bcwallet.go'],[('coin selection and change','MakeOutboundTx / MakeConsolidateTx')],(),['returned transaction or error'])
p('C21','The HTTP wallet interface reports the ledger faithfully',
 'Every wallet endpoint answers with exactly the node\'s ledger state at that time (height, balances, unspent outputs with and without pending spends, confirmations, confirming blocks, rich list of at most the asked length, and the exact stored transactions, tree nodes and blocks), and submitting a transaction answers success with its id exactly when the node accepted it. Malformed requests get an error status and never disturb the node.',
 ['inputs','histories'],'every ledger history and every request, well formed or not',
 NT+'no test of the HTTP interface',['internal/rest/wallet.go','internal/rest/models/models.go','internal/rest/busclient.go','internal/rest/client/wallet.go'],[('handlers','Server.handleWallet*'),('encoding','models.*JSON')],(),['HTTP responses'])
p('C22','Administrative actions require the configured password',
 'When an admin password is configured, no request without exactly that password has any effect on the node and it is answered as unauthorised, whatever the method or headers; the right password with the right method terminates the node. Endpoint groups that are not enabled are not served at all.',
 ['inputs','configurations'],'every combination of enabled groups, password, method and header',
 NT+'no test of the HTTP interface',['internal/rest/server.go','internal/rest/admin.go'],[('password gate','Server.mountHandlers')],(),['HTTP status; Terminate command'])
p('C23','Stored entities are immutable, read back exactly, and named by their content',
 'Once a node has accepted a transaction, tree node or block under an id, every later read of that id (from memory, after a restart, over HTTP or by a peer) yields exactly the same content, size, height and total work. Ids are determined by content: changing any field of a transaction or tree node, or any field of a block that its id covers, changes the id.',
 ['inputs','histories'],'every entity (any number of inputs and outputs, any field values) and every storage and transport path',
 'serialisation tests use one fixed record each; transport and restart paths are not exercised',[INV,'internal/inv/serialize.go','pkg/disksyncmap/disksyncmap.go','pkg/prot/core.go',TX,'pkg/core/block.go'],[('records','BlockRecord/MerkleRecord/TxRecord String and parse'),('ids','Tx.Hash, MerkleNode.Hash, Block.Hash')],(),['inventory reads, HTTP reads, peer reads'])
p('C24','The wallet never loses or corrupts a key',
 'Keys a wallet command has generated or imported remain in the wallet file, usable and unchanged, after every later command and after a crash at any point of any later command. Importing adds exactly the missing keys, refuses files whose keys do not match their addresses, and the reported addresses are those of the stored keys.',
 ['histories','crash_points','inputs'],'every sequence of wallet commands and every prefix of their file operations',
 NT+'no test of the wallet program',['cmd/bcwallet/config.go','cmd/bcwallet/bcwallet.go'],[('persisting','Config.Save'),('key check','Config.VerifyKeys / AddKeys')],
 [('wallet file','keys and node address','~/.config/basiccoin/wallet*.json')],['wallet file after each command or kill'])
p('C25','The wallet program shows and spends what the node it is connected to has',
 'What the wallet program shows (balances with their total, unspent outputs, confirmations and confirming blocks, stored transactions, tree nodes and blocks, the rich list) is exactly what the ledger of the node it is connected to says at that time, for the keys or ids it was asked about or, without any, for all the wallet\'s own, each once, balances and rich list highest first; what is unknown there is reported as such. A payment or consolidation spends only outputs of the wallet\'s keys that are unspent and not spent by a pending transaction, is a transaction the node accepts, and success is reported exactly when the node accepted it; when the free outputs suffice, it is possible. Nothing is sent without confirmation, and none of these commands changes the wallet.',
 ['inputs','histories'],'every ledger history of the node, set of wallet keys and sequence of queries and payments',
 NT+'no test of the wallet program',['cmd/bcwallet/bcwallet.go','cmd/bcwallet/cli.go','internal/rest/client/wallet.go','internal/rest/models/models.go','internal/rest/wallet.go'],[('commands','commands'),('client','WalletClient')],(),['output of the program; transactions it sends; answers of the node afterwards'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
import sys
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
    assert q['statement'].count('. ')<=2,(q['id'])
