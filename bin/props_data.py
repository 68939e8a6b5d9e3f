STORE = "Chain tests replay a few long random histories and never compare a store with an independently built one"
prop("L01", "A crash at any point leaves a ledger that recovers to a consistent prefix",
 "If the process stops at any instant while blocks are inserted, removed or written to disk, reopening the data directory succeeds and yields a ledger that is complete and self-consistent. It equals the ledger obtained by executing from genesis either everything confirmed up to the interrupted write or everything confirmed before it, with nothing half applied. A failed disk write leaves the running node able to continue and to flush later.",
 ["crash_points", "histories", "fault_sequences"],
 "every crash point between two file-system effects of every flush of every enumerated history, every subset of stores already written, torn and missing log records, and every failing write",
 "Tests never stop a node between the phases of a flush; the crash space is the product of histories, phases and per-store progress",
 ["ledger/chain/flusher", "ledger/chain/db", "ledger/chain/block", "ledger/chain/index", "ledger/chain/state", "ledger/chain/chain.go"],
 [("redo log written and synced before the stores, replayed on open", "ledger/chain/flusher/flusher.go"), ("prepare / redo / commit / after-commit per store", "ledger/chain/db/store.go, ledger/chain/block/block_db.go")],
 "exhaustive crash-point and write-fault enumeration on the real ledger against a reference ledger",
 "Every crash image of the bounded histories is recovered by the real code and compared with a reference ledger rebuilt from genesis. Assumes writes already issued to the key-value stores are not lost by a power failure (the node does not sync them).",
 observe=["every query of the opened chain", "account balances, storage, on-road sets, confirmations"])
prop("L02", "Removing snapshot blocks restores the ledger that existed before them",
 "After snapshot blocks are removed down to any height, every query of the ledger (blocks, confirmations, balances, contract storage, code, on-road sets, quota usage, histories) answers exactly as on a ledger that only ever executed what remained. The removed blocks are reported completely, and the ledger can be extended again afterwards.",
 ["histories"], "every sequence of transfers, receives, contract calls, snapshots, flushes and rollbacks up to the stated depth",
 "Rollback tests compare a few aggregates after random histories; wrong residues in caches or indexes depend on the exact order of inserts, flushes and rollbacks",
 ["ledger/chain/delete.go", "ledger/chain/state", "ledger/chain/index", "ledger/chain/block", "ledger/chain/cache"],
 [("per-snapshot undo of state, index and caches", "ledger/chain/delete.go, ledger/chain/state/redo.go, ledger/chain/index/delete.go, ledger/chain/cache")],
 "exhaustive enumeration of operation sequences on the real ledger, differential against a ledger built without the removed part",
 "All sequences within the bound are executed on the real chain; every query is compared with a reference chain that never saw the removed blocks.")
prop("L03", "Removing unconfirmed account blocks removes exactly them and their dependents",
 "When unconfirmed account blocks are removed, the block, its successors on the account and every block that received from any of them disappear, and every other block stays. Afterwards every query answers exactly as on a ledger that never contained the removed blocks.",
 ["histories"], "every sequence of transfers, receives, contract calls, snapshots, flushes and removals up to the stated depth",
 "Tests remove blocks from a few random histories; dependency closure and cache residue depend on which blocks were sent, received, confirmed and flushed in which order",
 ["ledger/chain/delete.go", "ledger/chain/state", "ledger/chain/cache", "ledger/chain/index", "ledger/chain/block"],
 [("dependency closure of removed account blocks", "ledger/chain/delete.go, ledger/chain/unconfirmed.go"), ("undo of unconfirmed state", "ledger/chain/state/redo.go")],
 "exhaustive enumeration of operation sequences on the real ledger, differential against a ledger built without the removed part",
 "All sequences within the bound are executed on the real chain and compared query by query with a reference chain.")
prop("L09", "A restarted node serves the same confirmed ledger",
 "Closing a ledger cleanly and opening it again yields the same answers to every query about the confirmed ledger as before, whatever was inserted, received, confirmed or rolled back since the last flush. The reopened ledger can be extended exactly like the original.",
 ["histories"], "every sequence of transfers, receives, contract calls, snapshots, rollbacks and restarts up to the stated depth",
 "Tests reopen a ledger after one history and check a few heights; caches rebuilt on start must agree with caches maintained incrementally for every history",
 ["ledger/chain/chain.go", "ledger/chain/cache", "ledger/chain/flusher", "ledger/chain/state", "ledger/chain/index"],
 [("stop flushes all stores; start rebuilds caches", "ledger/chain/chain.go, ledger/chain/cache/cache.go")],
 "exhaustive enumeration of operation sequences with restarts on the real ledger, differential against an uninterrupted ledger",
 "All sequences within the bound are executed on the real chain and compared query by query with an uninterrupted reference chain.")
VMT = "VM tests run a few fixed programs; a wrong result needs a particular operand, offset, stack height or program shape"
prop("V01", "Every contract instruction computes its defined result at its defined price",
 "For every operand, memory offset, stack height and storage content, each instruction of the contract machine gives the result its definition prescribes (256-bit arithmetic, bounds, jumps, storage, events, outgoing messages) and charges exactly the prescribed quota. Anything undefined (unknown instruction, stack under- or overflow, bad jump, out-of-range return data) fails the call instead of giving a result.",
 ["inputs"], "every instruction on every combination of boundary operands, offsets, lengths, stack heights and storage states",
 VMT, ["vm/instructions.go", "vm/gas_table.go", "vm/interpreter.go", "vm/jump_table.go", "vm/memory.go", "vm/memory_table.go", "vm/stack.go", "vm/stack_table.go", "vm/destination.go", "vm/util"],
 [("instruction set, stack validation, memory and price functions", "vm/jump_table.go, vm/instructions.go, vm/gas_table.go")],
 "exhaustive enumeration of instruction inputs on the real VM, differential against an independent reference interpreter",
 "Every case runs through the real VM entry point as a contract receive; result, storage, messages, events and quota are compared with ref/evm.go, written from the definitions.")
prop("V02", "Every contract program terminates within its quota with one determined outcome",
 "Any byte string accepted as contract code, run with any call data and any quota, ends: it succeeds, reverts or fails, never crashes the node and never uses more quota than it was given. The outcome (storage, messages, events, quota used) is the one the instruction definitions prescribe and is the same on every node; an off-chain query changes nothing.",
 ["inputs", "configurations"], "every program up to the stated length, every short byte string, every quota from zero to completion",
 VMT, ["vm/vm.go", "vm/interpreter.go", "vm/instructions.go", "vm/gas_table.go", "vm/memory.go", "vm/destination.go"],
 [("fetch, validate, charge, execute loop", "vm/interpreter.go"), ("offchain reader", "vm/vm.go")],
 "exhaustive enumeration of programs and quota limits on the real VM, differential against an independent reference interpreter",
 "All programs within the bound run on the real VM and on the reference interpreter.")
prop("V03", "A contract call takes effect completely or not at all and conserves tokens",
 "When a call to a contract succeeds, all of its storage writes, messages, events and transfers take effect; when it fails, none do and the sent tokens go back to the sender. No call, creation or refund creates or destroys tokens, and a contract never spends more than it has; a call that cannot be handled now is retried later without effect.",
 ["inputs", "histories"], "every program of the stated effects and endings, every amount, token and fee, every sequence of sends, receives and snapshots up to the stated depth",
 "Tests check single calls; lost refunds and half-applied effects need a failure after a particular effect or nesting", ["vm/vm.go", "vm_db", "vm/contract.go", "vm/instructions.go"],
 [("save / revert of the VM database around a call, refund block", "vm/vm.go")],
 "exhaustive enumeration of calls and histories on the real VM with a conservation and atomicity monitor",
 "The real VM runs every call and history over an in-memory implementation of the chain interface; balances, storage, refunds and totals are compared after each step.")
prop("V06", "Quota equals what stake and proof of work pay for, and nobody uses more",
 "An account's quota for a block follows from its stake, its proof of work, its own usage in the last 75 snapshots and the congestion of the network as the published tables say, is monotonic in stake and difficulty, and is refused beyond the per-block and per-window limits. A sequence of blocks never uses more quota than the window grants, and an account whose last receive ran out of quota is blocked for the prescribed confirmations.",
 ["inputs", "histories"], "every table section and its neighbours, every congestion step, every usage window up to the stated length",
 "Tests sample a few rows of the 3571-row tables and a handful of windows", ["vm/quota", "vm/gas_table.go"],
 [("sectioned stake and difficulty tables, congestion factor", "vm/quota/quota.go, vm/quota/params.go"), ("usage window and block limits", "vm/quota/quota.go")],
 "exhaustive enumeration of the quota parameter space and of send/snapshot histories on the real code against the published formula",
 "All sections, all congestion steps and all windows within the bound are evaluated by the real quota code and compared with an independent computation.")
prop("V07", "A contract sees its own writes over the ledger; discarding them leaves no trace",
 "While a block executes, reading a key, iterating a prefix and reading a balance give the ledger's content overlaid with what the block wrote, set or cleared so far, in key order and without duplicates. Resetting the execution leaves exactly the ledger's content; the recorded change set is exactly what was written.",
 ["histories"], "every sequence of writes, clears, iterations and resets up to the stated depth over keys that share prefixes",
 "Tests use a few keys in one order; merge errors need a deleted or overwritten key at a particular position of the iteration", ["vm_db", "interfaces/vmdb.go", "common/db", "vm_db/unsaved.go"],
 [("unsaved overlay and merged iterator", "vm_db/unsaved.go, vm_db/storage.go, common/db/xleveldb")],
 "exhaustive enumeration of operation sequences on the real overlay against an ordered map",
 "Every sequence within the bound is executed on the real vm_db and compared with an ordered map after each step.")
BUILTIN = "Tests make a few requests in one order; a wrong balance needs a particular sequence of requests, owners, expiries and partial withdrawals"
prop("C01", "Staked tokens come back in full, only to who staked them, only when due",
 "The quota contract always holds exactly the sum of all open stakes, each beneficiary is credited with exactly the stakes made for it, and a stake can be withdrawn, in part or whole, only by its owner (or the delegate that made it) and only after it expired. A refused or failed request changes nothing and returns the tokens it carried, and every listing of stakes agrees.",
 ["histories", "inputs"], "every sequence of stake, withdraw and delegate requests and waits up to the stated depth, every malformed request",
 BUILTIN, ["vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go", "vm/vm.go"],
 [("stake records and beneficiary totals", "vm/contracts/contracts_quota.go"), ("queries", "vm/contracts/abi/abi_quota.go")],
 "exhaustive enumeration of request sequences on the real built-in contract in lock step with a reference model",
 "The real VM and contract run every sequence over an in-memory ledger; outcome, payments, records and balances are compared with the model after each step.")
prop("C02", "A token's supply is what its owner issued within the maximum minus burns",
 "For every token, the amount in circulation equals its recorded supply; only its owner can issue more, transfer or freeze it, never beyond its maximum, and burning follows its owner-only rule. Issuing costs exactly the fee, ids and symbol numbers are unique, failed requests change nothing and return what they carried, and every token listing agrees.",
 ["histories", "inputs"], "every sequence of issue, reissue, burn, transfer and freeze requests up to the stated depth, every boundary parameter",
 BUILTIN, ["vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go", "vm/vm.go"],
 [("token records, owner lists, symbol numbering", "vm/contracts/contracts_asset.go, vm/contracts/abi/abi_asset.go")],
 "exhaustive enumeration of request sequences on the real built-in contract in lock step with a reference model",
 "As C01.")
prop("C03", "Producer registrations, votes and rewards follow the governance rules",
 "A producer name belongs to who registered it, its stake is held until the lock ends and returned once, a producing address never serves two names, and votes go to active producers only. Rewards are paid for each complete day at most once, to the owner or its withdraw address only, in exactly the amount the formula gives, and every listing agrees with the registrations.",
 ["histories", "inputs"], "every sequence of register, update, revoke, vote and withdraw requests and waits up to the stated depth",
 BUILTIN, ["vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_gonvernance.go", "vm/util/consensus_reader.go", "ledger/consensus/core/time_index.go"],
 [("registration records, producing address history, withdraw address index", "vm/contracts/contracts_governance.go"), ("reward by day", "vm/contracts/contracts_governance.go, vm/util/consensus_reader.go")],
 "exhaustive enumeration of request sequences on the real built-in contract in lock step with a reference model",
 "As C01; daily producer statistics are supplied by the harness.")
DEX = "Tests place a few orders on a bare book; wrong balances need particular prices, decimals, fee levels, fills and job orders"
prop("C04", "The exchange owes exactly what it holds, to whom it should, when it should",
 "Every amount a user has in the exchange (available, locked in orders, staked, locked or returning VX and stakes) changes only by that user's own accepted requests, trades, and the period jobs, by exactly the amounts the rules give, and the exchange always holds the sum of what it owes. Dividends, operator fees and mined VX are paid once per period in the proportions the rules give, stakes and unlocked VX come back in full exactly when due, and nobody but the entitled party can move, stake, settle or administer anything. A refused request changes nothing and returns what it carried.",
 ["histories", "inputs"], "every sequence of deposits, withdrawals, transfers, stakes, locks, trades, period jobs and forged requests up to the stated depth",
 DEX, ["vm/contracts/contracts_dex_fund.go", "vm/contracts/dex/fund_stake.go", "vm/contracts/dex/fund_dividend.go", "vm/contracts/dex/fund_mine.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_finish_pendings.go", "vm/contracts/dex/fund_storage.go", "vm/contracts/dex/account.go"],
 [("accounts and their locked parts", "vm/contracts/dex/account.go, vm/contracts/dex/fund_storage.go"), ("period jobs", "vm/contracts/dex/fund_dividend.go, vm/contracts/dex/fund_mine.go, vm/contracts/dex/fund_finish_pendings.go")],
 "exhaustive enumeration of request and job sequences on the real exchange contracts in lock step with a reference model",
 "The real VM runs the two exchange contracts, the quota and the asset contract over an in-memory ledger; all accounts, pools, stakes and wallets are compared with the model after each step and the exchange's holdings with its debts.")
prop("C05", "Orders match by price then time at the maker's price, to the last unit",
 "Every order trades only with orders whose price crosses it, best price first and oldest first at a price, at the resting order's price, within its own limits and order type; what remains rests, is cancelled or refused as its type says. Both sides pay and receive exactly the traded amounts and the fees of their level, unfilled money is released in full, and only the owner, or an agent it named, can place or cancel for it.",
 ["histories", "inputs"], "every sequence of orders and cancellations up to the stated depth over sides, prices, quantities, types, fee levels, decimals and agents",
 DEX, ["vm/contracts/contracts_dex_trade.go", "vm/contracts/contracts_dex_fund.go", "vm/contracts/dex/matcher.go", "vm/contracts/dex/leveldb_book.go", "vm/contracts/dex/order.go", "vm/contracts/dex/calculator.go", "vm/contracts/dex/fund_helper.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/trade_helper.go", "vm/contracts/dex/utils.go"],
 [("order ids sort the book by price and time", "vm/contracts/dex/order.go, vm/contracts/dex/leveldb_book.go"), ("matching, fees, refunds", "vm/contracts/dex/matcher.go"), ("locking and settlement", "vm/contracts/dex/fund_helper.go, vm/contracts/dex/fund_settle.go")],
 "exhaustive enumeration of order sequences on the real exchange contracts in lock step with a reference order book",
 "As C04; the book, every order's state, fees, events and accounts are compared with a reference order book after each step.")
CONS = "Tests elect once from a fixed chain; a wrong schedule needs a particular combination of cache, rollback, gap, rate and seed"
prop("S01", "Every node derives the same producers and time slots from the ledger alone",
 "For every period, the producers and their time slots are a function of the confirmed ledger (registrations, votes, balances, seeds, and success rates at the block that decides the period), with the votes ranked and the seats filled, exchanged and drawn as the rules say, whatever was asked, cached, rolled back or restarted before. A snapshot block or contract block is accepted as produced by an address if and only if that schedule gives the address that slot or that period.",
 ["inputs", "histories", "schedules"], "every combination of votes, rates, seats and seeds in the stated ranges, every sequence of blocks, gaps, changes, rollbacks, queries, background elections and restarts up to the stated depth",
 CONS, ["ledger/consensus", "ledger/consensus/core", "ledger/consensus/cdb"],
 [("election and shuffle", "ledger/consensus/core/vote_algo.go"), ("slots and periods", "ledger/consensus/core/group.go, ledger/consensus/core/time_index.go"), ("deciding block and election caches", "ledger/consensus/consensus_snapshot.go, ledger/consensus/consensus_contract_dpos.go, ledger/consensus/chain_rw.go")],
 "exhaustive enumeration of ballots and of chain histories on the real consensus module against an independent election",
 "The real module runs over an in-memory chain; every schedule, verification and rate is compared with an independent computation from the chain alone.")
prop("S02", "Production statistics count exactly the blocks of the present chain",
 "For every period, hour and day, the reported number of blocks made and due per producer, the day's votes, block total and mapping to producer names, and the success rates equal what the present chain contains, whatever was asked, stored, rolled back, regrown or restarted before. A day's, hour's or period's report never mixes two forks or counts a block twice.",
 ["histories"], "every sequence of blocks, gaps, rollbacks, queries, changes of votes and registrations and restarts up to the stated depth",
 "Tests compute a few points of one chain; stale or doubled counts need a query between particular blocks, a rollback and a boundary", ["ledger/consensus/consensus_point_array.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/rollback_proof.go", "ledger/consensus/cdb"],
 [("points chained by hash", "ledger/consensus/consensus_point_array.go, ledger/consensus/cdb/point.go"), ("proof against rollback", "ledger/consensus/rollback_proof.go")],
 "exhaustive enumeration of chain histories on the real consensus module against counts over the chain",
 "The real module runs over an in-memory chain; all reports are compared with direct counts after each history and at each query.")
prop("B01", "A block's hash binds its content and its encoding loses nothing",
 "The hash of an account block, snapshot block, embedded send block or event list is the published function of all of its content, so that any change of content changes it and nothing else does. Encoding, decoding and copying a block, event list, contract metadata or hash-height pair reproduces it completely, a copy shares nothing mutable with its original, and a malformed block encoding is refused.",
 ["inputs", "configurations"], "the product of block types, heights, addresses, amounts, data, fees, log hashes, nonces and embedded sends; every field width; every single-bit change of every fixed field; every upgrade schedule used",
 "Tests hash and encode a few blocks; a field left out of the hash or lost in the encoding shows only for a particular type, width or combination",
 ["interfaces/core", "common/vitepb", "common/types/hash.go"],
 [("hash source of blocks", "interfaces/core/account_block.go, interfaces/core/snapshot_block.go"), ("protobuf codecs", "interfaces/core/*.go")],
 "exhaustive enumeration of block contents on the real codecs, against an independently written definition of the hash",
 "All contents of the bounded product are hashed, encoded, decoded and copied by the real code and compared with an independent definition. Assumes amounts and fees below 2^256.")
prop("B02", "Only the key holder's signature verifies; encryption and hashes are exact",
 "Key generation, signing, verification, key conversion and shared secrets equal Ed25519 and X25519 over BLAKE2b: the holder's signature always verifies, and any changed bit of message, signature or key, any unreduced or otherwise malleable signature and any key of wrong length is refused. Decryption returns exactly what was encrypted and refuses any change of text, nonce or key, nonces never repeat, and every hash helper equals the hash of the concatenated input.",
 ["inputs"], "every seed of the stated family, every single-bit change of key, message and signature, small-order and non-canonical keys, scalars around every power of two and the group order, all text lengths in the bound",
 "Tests verify some random signatures; malleability, special points and carry errors need particular scalars or encodings",
 ["crypto", "crypto/ed25519", "common/types/address.go"],
 [("signature check with reduced s", "crypto/ed25519/ed25519.go"), ("authenticated encryption", "crypto/crypto.go")],
 "exhaustive enumeration of keys, messages and corruptions on the real code, differential against a big-integer reference of the curve",
 "The real functions are compared with ref/ed25519.go, written from RFC 8032 with big integers, and with the standard library's AES-GCM, CTR and X25519.")
prop("B03", "Identifiers, numbers and bytes keep their value in text; nothing else is read",
 "Every address, token id, group id, hash, byte string and number survives its text, JSON, byte and number form unchanged. Every text with a wrong character, length, prefix or checksum is refused, no two values share a text, and contract, user and built-in addresses are told apart and derived as published.",
 ["inputs"], "hundreds of values per kind, every single-character substitution, transposition, insertion, deletion and truncation of their texts, every short string over the alphabet of numbers",
 "Tests parse a few good and bad strings; an accepted wrong text means funds sent to a wrong address",
 ["common/types", "common/hexutil", "common/math", "common/bytes.go"],
 [("checksummed text form", "common/types/address.go, common/types/tokentypeid.go"), ("hex rules", "common/hexutil")],
 "exhaustive enumeration of texts on the real parsers, against independently written rules",
 "All texts of the bound go through the real parsers and formatters and are compared with the rules written again in the harness.")
prop("B04", "Shared 256-bit and overflow-aware arithmetic is exact",
 "The shared helpers for additions and multiplications with overflow flags, 256-bit wrap-around, signed interpretation, powers, byte extraction, padding and slicing give the mathematically defined result for every input. In particular an overflow is reported exactly when it occurs.",
 ["inputs"], "every pair of boundary values around every power of two, every byte position, buffer length and slice within the bound",
 "Tests sample a few values; overflow and word-boundary errors sit at particular operands",
 ["common/helper", "common/math"],
 [("checked arithmetic", "common/helper/math_integer.go, common/math/integer.go"), ("256-bit arithmetic", "common/helper/math_big.go, common/math/big.go")],
 "exhaustive enumeration of boundary operands on the real functions, against big-integer definitions",
 "All boundary operands of the bound are evaluated and compared with math/big.")
prop("U01", "An upgrade takes effect exactly from its scheduled height",
 "Under every upgrade schedule each version is active exactly at heights not below its own, and the current, latest and active upgrade points and upgrade heights follow from the schedule alone. A schedule that skips a version or goes backwards is refused, and the main network schedule is the published one.",
 ["configurations", "inputs"], "every non-decreasing schedule of 0 to 14 versions over the stated heights, asked at every height; every broken schedule of up to 4 points",
 "Tests look at one schedule; a node that activates a rule one height off forks from the network",
 ["common/upgrade"],
 [("schedule and activation", "common/upgrade/upgrade.go, common/upgrade/face.go, common/upgrade/upgrade_init.go")],
 "exhaustive enumeration of schedules and heights on the real upgrade box, against the definition of activation",
 "All schedules of the bound are installed through the real interface and every question is compared with the definition.")
prop("P01", "The tree of pending forks keeps every branch a true chain and loses no block",
 "Whatever forks, extensions, commits to the ledger, rollbacks, main-branch switches and prunings happen in whatever order, every branch of the pending tree reads as the linked chain of blocks from its head down into the ledger, and the main branch hangs exactly at the ledger's head and is the one last switched to. A pending block is found and reported as existing until it is on the ledger or no branch holds it, pruning removes only branches that hold nothing of their own, and the fork point of a branch is its highest block in common with the main branch.",
 ["histories"], "every sequence of pool operations up to the stated depth from four starting trees",
 "Tests build a few trees; re-rooting errors depend on the nesting of branches, on where the ledger's head is and on what was pruned before",
 ["ledger/pool/tree"],
 [("re-rooting on a main-branch switch", "ledger/pool/tree/branch.go:exchangeRoot"), ("commit, rollback and prune", "ledger/pool/tree/tree_impl.go")],
 "exhaustive enumeration of operation sequences on the real tree, against a model that keeps only the block graph and the branch heads",
 "All operation sequences of the bound run on the real tree. The 20-minute expiry of idle branches is not exercised; a branch is switched to only when the ledger's head lies on it, as the pool does.")
prop("P02", "A batch never inserts a block before the blocks it refers to",
 "A block offered to an insertion batch is taken exactly when everything it refers to is on the ledger or already in the batch and the level limit allows it, and once taken it is inserted exactly once. Its predecessor, the block it receives from and the blocks a snapshot confirms are always inserted before it, under every completion order of the concurrent inserts. When an insert fails the batch reports the failure and inserts nothing that depends on it.",
 ["histories", "schedules"], "every sequence of offered account and snapshot blocks up to the stated depth, every completion order of concurrent inserts and every single failing insert",
 "Tests build a few batches; a missing dependency edge needs a particular mix of predecessors, receives and snapshots, and shows only under some insert order",
 ["ledger/pool/batch"],
 [("dependency levels", "ledger/pool/batch/batch_impl.go"), ("level-by-level concurrent execution", "ledger/pool/batch/batch_executor_impl.go")],
 "exhaustive enumeration of offers and of insert completion orders under a controlled scheduler on the real batch",
 "All offers of the bound go to the real batch and its executor runs under every completion order with the inserts held back by the harness.")
prop("P03", "Whatever the order blocks arrive in, a node follows the longest valid chain",
 "Whatever the order in which the blocks of competing chains reach the pool, announced, repeated, fetched on request or downloaded in pieces, the ledger ends with the longest chain among them that is valid and whose blocks are available (once it leads by three snapshot blocks), and says exactly what a ledger says that never saw the others. An invalid block never enters, and a longer chain that proves invalid leaves the node able to follow the valid one. An irreversible block, built on by more than two thirds of the producers, is never removed, and a block the node made itself is kept across the switch while it is valid.",
 ["histories", "schedules"], "every order in which the snapshot and account blocks of two or three competing chains arrive, with every division into downloaded pieces, repeated deliveries, answered and unanswered requests, and the node's own blocks in between",
 "Tests build a pool over a mock; a lost block, a stuck fork or a ledger mixed from two chains needs a particular order of arrival around a switch of chains",
 ["ledger/pool"],
 [("arrival, compaction, fork choice", "ledger/pool/pool.go, ledger/pool/bc_pool.go, ledger/pool/snapshot_pool.go, ledger/pool/account_pool.go, ledger/pool/chain_pool.go"), ("switching chains, irreversible blocks", "ledger/pool/pool_fork_checker.go, ledger/pool/pool_batch_fork.go"), ("insertion", "ledger/pool/pool_batch.go, ledger/pool/pool_batch_chunk.go")],
 "exhaustive enumeration of arrival orders into the real pool over a real ledger and verifier, compared with a ledger that followed only the winning chain",
 "All arrival orders of the bound run in the real pool; within one order the pool's own timers and goroutines run as they come, and only what must hold for all of them is asserted.")
prop("L11", "Block files give back every block written, through rollback, flush and crash",
 "A block written to the block files is read back unchanged from the location returned for it, by location, by scanning and by segment, and consecutive writes lie one after the other. A rollback to a location removes exactly what was written from there on and returns it, for every interleaving with the phases of a flush. After a crash at any byte of the flush, with or without the redo log, exactly the blocks of the last completed flush are readable.",
 ["histories", "crashes"], "every sequence of writes, rollbacks, flush phases, cancelled flushes and restarts up to the stated depth, with files small enough that blocks span them; every crash point and torn byte of the file writes",
 "Tests write and read a few blocks; loss needs a block that spans two files, a rollback into an earlier file or a crash between two phases of the flush",
 ["ledger/chain/block", "ledger/chain/file_manager"],
 [("cached, flushed and deleted ranges", "ledger/chain/file_manager/file_manager.go, ledger/chain/file_manager/fd_manager.go, ledger/chain/file_manager/fd.go"), ("block framing and location", "ledger/chain/block/block_db.go, ledger/chain/block/flush.go")],
 "exhaustive enumeration of operation sequences and crash points on the real block files, against a byte-sequence model",
 "All operation sequences of the bound run on real files in a scratch directory, and the files are cut at every byte of every flush. Assumes that less than the cache of 10 files is written between two phases of one flush and that a block is smaller than a file.")
prop("L12", "The cache of downloaded chain segments holds exactly what was downloaded",
 "A segment is listed and readable exactly when its download was finished and it was not deleted, under its own bounds and hashes and in order of height, and two segments never overlap. Its reader returns exactly the blocks written, or for a damaged file the intact ones before the damage and then an error, never a different block. A restart keeps every finished segment with its verified mark and forgets unfinished ones with their files.",
 ["histories", "crashes"], "every sequence of started, finished, verified and deleted downloads and restarts up to the stated depth over overlapping and conflicting segments; every cut of a file",
 "Tests write a few files; loss needs a restart between particular steps, overlapping ranges or a cut inside a block",
 ["ledger/chain/sync_cache"],
 [("segment index and files", "ledger/chain/sync_cache/sync_cache.go, ledger/chain/sync_cache/cache_item.go"), ("reading a segment", "ledger/chain/sync_cache/reader.go")],
 "exhaustive enumeration of operation sequences and file cuts on the real cache, against a model of the finished segments",
 "All operation sequences of the bound run on a real cache directory. Assumes a segment is not deleted while it is still being written.")
prop("L13", "A contract is offered each caller's oldest pending send, once, in order",
 "After any history of sends, receives, rollbacks and restarts, the on-road pool offers a contract exactly the oldest unreceived send of every caller, ordered by the sender's block height and, within one contract receive, by position. A send is reported as the front of its caller exactly when it is that one.",
 ["histories"], "every sequence of sends by users, receives with embedded sends, removals of the newest blocks and restarts up to the stated depth over two users and two contracts",
 "Tests check a single caller of a single contract; a lost or reordered send needs several callers and contracts, embedded sends, and a rollback or restart",
 ["ledger/onroad/pool"],
 [("stored pending sends and callers", "ledger/onroad/pool/storage.go"), ("front of each caller", "ledger/onroad/pool/contract_pool.go, ledger/onroad/pool/types.go")],
 "exhaustive enumeration of histories on the real pool, against the pending sends computed from the history",
 "All histories of the bound are passed to the real pool through the manager's own pairing of blocks. The pool's total count, which the code leaves unimplemented, is not part of the property.")
prop("K01", "The ledger's key-value store shows exactly the confirmed plus pending writes",
 "Reading a key, asking for its presence and iterating any range in either direction show exactly what was written to the store, batch by batch, whether a write is still in memory, being flushed or on disk, and whichever of the flush phases completed, was cancelled or was redone. Taking back the writes of account blocks or of snapshots removes exactly their effect. After a restart or a crash between any two steps of a flush the store holds exactly the flushed batches.",
 ["histories", "crashes"], "every sequence of unconfirmed writes, confirmations, rollbacks, flush phases, cancellations and restarts up to the stated depth, over keys that are prefixes of each other",
 "Tests write a few keys; a lost or resurrected value needs a delete and a write of one key in different layers around a particular flush phase",
 ["ledger/chain/db", "common/db"],
 [("layers of pending, flushing and stored writes", "ledger/chain/db/store.go, ledger/chain/db/store.go, common/db/memdb.go"), ("flush phases and redo", "ledger/chain/db/flush.go")],
 "exhaustive enumeration of operation sequences and crash points on the real store, against a map per layer",
 "All operation sequences of the bound run on the real store in memory and on disk. Assumes that different account blocks write different keys between two snapshots, as the ledger's keys do.")
prop("K02", "The database keeps every acknowledged write through compaction, crash and damage",
 "Whatever is written, deleted, batched, put in transactions, compacted, snapshotted and reopened, every read and every iteration in either direction shows exactly the last acknowledged content as of the snapshot, transaction or moment it was taken. After a crash at any file operation, with the last write torn at any byte, the database opens and holds all synced writes and a prefix of the others, each batch whole or absent. Damage to a file is reported as an error, never as wrong data; concurrent writers act as if one after the other.",
 ["histories", "crashes", "schedules"], "every sequence of operations up to the stated depth with tables of a few entries; every crash point, torn length and lost unsynced tail of the scripts; every byte of every file damaged; boundary sizes of journal blocks; every program of the memory table",
 "The repository has no tests of its copy of the database; losses need a crash at one file operation, a delete shadowing a value two levels down or a record that ends at a block boundary",
 ["common/db/xleveldb"],
 [("write path, journal and recovery", "common/db/xleveldb/db.go, common/db/xleveldb/db_write.go, common/db/xleveldb/journal/journal.go"), ("compaction and versions", "common/db/xleveldb/db_compaction.go, common/db/xleveldb/session_compaction.go, common/db/xleveldb/version.go"), ("manifest switch", "common/db/xleveldb/session_util.go, common/db/xleveldb/storage/file_storage.go"), ("tables", "common/db/xleveldb/table/reader.go, common/db/xleveldb/table/writer.go")],
 "exhaustive enumeration of operation sequences, crash points and single-byte damages on the real database, against a sorted map",
 "All operation sequences and crash points of the bound run on the real database over recording storages. The creation of the database is assumed complete, and the moment at which background compaction runs is the scheduler's choice.")
prop("V05", "Contract arguments, results, events and variables keep their value when encoded",
 "Encoding a call, callback, query, event or stored variable gives exactly the published encoding of its arguments, and decoding gives back the same values, into lists, structs or single values. Decoding any other bytes gives what the encoding defines or an error: never a crash, never a value read beyond the data; malformed types and argument counts are refused, and encoding never changes its arguments.",
 ["inputs"], "every value of 74 types alone, every pair of types, every triple of representative types with every choice of indexed arguments; every cut and every boundary value in every word of the encodings",
 "Tests decode a few hand-made encodings; offsets, lengths and signs go wrong only for particular combinations of dynamic and static arguments or for malicious data",
 ["vm/abi", "vm/contracts/abi"],
 [("encoding", "vm/abi/pack.go, vm/abi/argument.go, vm/abi/numbers.go"), ("decoding", "vm/abi/unpack.go, vm/abi/reflect.go"), ("events", "vm/abi/event.go")],
 "exhaustive enumeration of argument lists and of damaged encodings on the real codec, against an encoder and a decoder written from the definition",
 "All argument lists and damages of the bound go through the real codec. Arrays of arrays, lists of strings and lists of byte strings, which no built-in contract uses, are not part of the property.")
prop("W01", "A wallet file yields its keys to its passphrase only, and signs only unlocked",
 "A stored mnemonic is recovered exactly, together with the same addresses and keys, by its passphrase alone; any other passphrase or any damage to the file gives an error, never another seed and never a crash. A wallet signs for, lists and finds exactly the addresses of the stores that are known and unlocked at that moment, through any sequence of adding, removing, unlocking, locking, refreshing and restarting, and tells every listener each change once. Keys follow the published derivation, and malformed paths are refused.",
 ["histories", "inputs"], "every sequence of wallet operations up to the stated depth on two stores with different passphrases; every byte of five files changed, removed or cut, every pair of fields replaced; every path of boundary indices and every one-character change of a path",
 "Tests unlock one store once; a key that stays usable after a lock or removal, or a store found only depending on the order of a map, needs several stores and a sequence of operations",
 ["wallet", "wallet/entropystore", "wallet/hd-bip/derivation", "crypto/crypto.go"],
 [("stores known to the wallet", "wallet/manager.go"), ("locking and searching", "wallet/entropystore/manager.go"), ("encrypted file", "wallet/entropystore/crypto_store.go, crypto/crypto.go"), ("derivation", "wallet/hd-bip/derivation/main.go")],
 "exhaustive enumeration of wallet histories, file damages and derivation paths on the real wallet, against a model and an independent reading of the file and of the derivation",
 "All histories and damages of the bound run on the real wallet and real files. The strength of scrypt and AES-GCM is assumed; files are read with small scrypt parameters except where stored by the wallet itself.")
prop("L04", "No token appears, disappears or is spent twice",
 "After any history of transfers, receives, contract calls, failed receives, stakes, rollbacks and restarts, the balances of all accounts plus the amounts of all sends not yet received equal the total supply of every token, and each balance is what its own blocks received minus what they sent and burnt. A send is received by its addressee only and at most once; receiving it again or from another account is refused.",
 ["histories"], "every sequence of transfers, receives, failing and succeeding contract calls, stakes, snapshots, rollbacks and restarts up to the stated depth",
 "Tests check the balance of one account after one transfer; a doubled or lost amount needs a failed receive with a refund, a rollback of a receive, or a second receive after a restart",
 ["vm", "ledger/chain", "ledger/generator", "ledger/verifier"],
 [("balance changes of every block", "vm/vm.go, vm/contracts/contracts.go"), ("received marks and on-road sets", "ledger/chain/index/onroad.go, ledger/chain/index/insert.go, ledger/chain/onroad.go"), ("balances in the state", "ledger/chain/state/write.go, ledger/chain/state/state_db.go")],
 "exhaustive enumeration of operation sequences on the real ledger, against balances summed from the history of blocks",
 "All sequences within the bound run on the real chain, generator and verifier; after each step every balance and every pending amount is compared with a sum over the blocks.")
prop("L05", "Every question about blocks is answered from the history of blocks",
 "A block is found by its hash, by its account and height, by the block that received it, in lists and ranges and as the latest, confirmed or unconfirmed, exactly when the history contains it there, and comes back unchanged. The confirming snapshot, the number of confirmations, the pending sends of an account and the next blocks to confirm follow from the history, after any inserts, removals and restarts; a block removed is found nowhere.",
 ["histories"], "every sequence of transfers, receives, contract calls, snapshots, flushes, rollbacks, removals and restarts up to the stated depth; every hash ever seen, every height and range within one of the existing ones, every count",
 "Tests insert one long random chain and sample a few queries; a wrong answer needs a query at the edge of a range, or a block that was removed and replaced",
 ["ledger/chain", "ledger/chain/index", "ledger/chain/block", "ledger/chain/cache"],
 [("queries", "ledger/chain/account_block.go, ledger/chain/snapshot_block.go, ledger/chain/unconfirmed.go, ledger/chain/onroad.go"), ("index", "ledger/chain/index/account_block.go, ledger/chain/index/snapshot_block.go, ledger/chain/index/onroad.go"), ("caches", "ledger/chain/cache")],
 "exhaustive enumeration of operation sequences on the real ledger, every query against an answer computed from the list of blocks",
 "All sequences within the bound run on the real chain and every query with every argument of the bound is compared with an answer computed from the plain list of blocks.")
prop("L06", "The ledger accepts exactly the valid next blocks of an account",
 "An account block is accepted exactly when it is the next block of its account, its hash covers every field, its owner (for contracts the scheduled producer) signed it, and its send, if it receives, exists, is addressed to it, is unreceived, sufficiently confirmed and, for a contract, the caller's oldest. Sequence, token, amount, fee, type, quota, proof of work and embedded sends must be what the protocol and the execution prescribe; a block with any other value is refused and changes nothing.",
 ["inputs", "histories"], "every honest block of 14 kinds with every one and every two of its fields replaced by every other meaningful value, and every way of hashing and signing it",
 "Tests verify a few correct and a few wrong blocks; a forged block that passes needs two fields that cover for each other, or a kind of block the check forgets",
 ["ledger/verifier", "vm", "interfaces/core/account_block.go", "ledger/chain/insert.go"],
 [("verification of account blocks", "ledger/verifier/account_verifier.go, ledger/verifier/verifier.go"), ("execution compared with the block", "vm/vm.go, ledger/generator/generator.go"), ("hash", "interfaces/core/account_block.go")],
 "exhaustive enumeration of one- and two-field changes of every kind of block on the real verifier and ledger, against an independent statement of validity",
 "All changed blocks of the bound go to the real verifier over a real ledger; the verdict is compared with an independent predicate and the ledger with the one before.")
prop("L07", "Exactly the valid next snapshot blocks are accepted, confirming what they list",
 "A snapshot block is accepted exactly when it follows the latest one, is later in time and not in the future, its hash covers its fields, the producer scheduled for its time signed it, it carries the version of its height and it names for each account an existing later block. Once inserted, exactly the named blocks and their predecessors are confirmed by it and everything else stays unconfirmed.",
 ["inputs", "histories"], "an honest block with every one and every two fields replaced and hashed and signed in every way; every choice of an unconfirmed, confirmed, missing or wrong block for five accounts",
 "Tests verify one good block; a block that passes wrongly needs a turn nobody is scheduled in, a content that skips a dependency, or a signature over another hash",
 ["ledger/verifier/snapshot_verifier.go", "interfaces/core/snapshot_block.go", "ledger/chain/insert.go", "ledger/chain/unconfirmed.go"],
 [("verification of snapshot blocks", "ledger/verifier/snapshot_verifier.go"), ("hash and version", "interfaces/core/snapshot_block.go"), ("confirmation", "ledger/chain/insert.go, ledger/chain/unconfirmed.go")],
 "exhaustive enumeration of field changes and of contents on the real verifier and ledger, against an independent statement of validity",
 "All changed blocks of the bound go to the real verifier, and accepted ones to the real ledger. Fractions of a second of the time, which the hash does not cover, and the published seeds, whose check the code leaves open, are not part of the property.")
prop("L08", "State now and at every snapshot block is what the blocks up to there make it",
 "Balances, contract storage, code, contract meta data, logs, call depths and the lists of contracts of a group are, in the latest state and as of every earlier snapshot block, exactly the result of the blocks up to there. Reading a key, iterating a prefix and asking for a past value give the same, after any inserts, removals and restarts.",
 ["histories"], "every sequence of creations, calls that write, overwrite and delete storage, receives, snapshots, flushes, rollbacks, removals and restarts up to the stated depth; every snapshot height",
 "Tests read the latest value of a few keys; a wrong past value needs a key written, deleted and rewritten around snapshots, flushes and rollbacks",
 ["ledger/chain/state", "ledger/chain/state.go", "ledger/chain/state/storage_database.go"],
 [("latest and history of values", "ledger/chain/state/write.go, ledger/chain/state/state_db.go, ledger/chain/state/storage_database.go, ledger/chain/state/iteration.go"), ("undo", "ledger/chain/state/delete.go, ledger/chain/state/redo.go"), ("storage during execution", "ledger/chain/state/storage_database.go")],
 "exhaustive enumeration of operation sequences on the real ledger, against the state recomputed from the list of blocks",
 "All sequences within the bound run on the real chain; the state at every snapshot block is compared with one recomputed by a small interpreter of the scripted contracts.")
prop("L10", "Questions of time, confirmations and seeds are answered by the snapshot chain",
 "The snapshot block before, at or after a time, the blocks of a time range, of a producer and of a range of heights are those of the chain, for every time and every chain. A contract that asks for confirmations and seeds receives a send exactly when enough later snapshot blocks and published seeds exist, and the seeds it draws depend on the published ones.",
 ["inputs", "histories"], "every chain of the stated length with gaps of a second to minutes, every time within a second of a block; every chain of two producers that commit, publish, publish wrongly or not at all; one chain of several hundred blocks",
 "Tests ask for a few times in an evenly spaced chain; a wrong answer needs uneven gaps, a time equal to that of a block, or a producer that skips publishing",
 ["ledger/chain/snapshot_block.go", "ledger/chain/index"],
 [("time queries", "ledger/chain/snapshot_block.go"), ("seeds", "ledger/chain/snapshot_block.go, ledger/verifier/account_verifier.go")],
 "exhaustive enumeration of snapshot chains and times on the real ledger, against a scan of the list of blocks",
 "All chains of the bound are built on the real ledger and every question is compared with a scan of the list. One known finding: the random seed offered to a contract ignores the producers' published seeds, which cannot be changed without changing consensus.")
prop("S03", "The votes and balances kept for elections are those of the ledger",
 "Whatever the node keeps to answer elections quickly, the candidates, the votes and the voters' balances it reports for a snapshot block are those a full scan of the ledger at that block gives. This holds through any sequence of votes, transfers, registrations, snapshots, rounds, rollbacks and restarts, and for every snapshot block asked.",
 ["histories"], "every sequence of votes, cancelled votes, transfers to and from voters, registrations, snapshots within and across rounds, rollbacks and restarts up to the stated depth; every snapshot block since",
 "Tests read the cache after one run without rollback or restart; a stale vote or balance needs a change, a boundary of a round, a rollback or a restart in a particular order",
 ["ledger/chain/state/round_cache.go", "ledger/chain/state/state_db.go", "vm/contracts/abi/abi_gonvernance.go"],
 [("rounds kept in memory", "ledger/chain/state/round_cache.go, ledger/chain/state/storage_database.go"), ("election data", "vm/contracts/abi/abi_gonvernance.go")],
 "exhaustive enumeration of operation sequences on the real ledger, against votes and balances computed from the history",
 "All sequences within the bound run on the real chain with its round cache; each answer is compared with one computed from the history of blocks.")
prop("N01", "Nothing a remote sends can stop a node or exhaust its memory",
 "Whatever bytes a remote sends to a node's peer port or file port, before or after it introduced itself, the node does not crash, does not hang, allocates no more than a small multiple of what was sent plus what it answers, and keeps serving its other peers. A remote that breaks the protocol at most loses its own connection.",
 ["inputs", "fault_sequences"], "every message a peer can send with every single field removed, doubled or given every boundary value, every cut and every byte replaced; every message head and code; before and after the introduction, on both ports",
 "Tests decode messages they encoded themselves; a crash needs a field of the wrong length, a step of zero or a number near 2^64 from a stranger",
 ["net", "net/vnode"],
 [("message frames", "net/codec.go"), ("introduction", "net/handshaker.go, net/sync_conn.go"), ("message handlers", "net/msghandler.go, net/message.go, net/broadcaster.go, net/fetcher.go, net/syncer.go, net/skeleton.go"), ("peers", "net/peer.go")],
 "exhaustive enumeration of malformed messages against a real running node over real connections, watching for crashes, hangs, memory and other peers",
 "All messages of the bound are sent over loopback to a real node with a real ledger; after each the node has to answer another peer. The node as the dialling side, and discovery over UDP, are not covered.")
prop("N02", "A node answers its peers exactly from its ledger",
 "A peer's request for snapshot blocks, account blocks, an outline of hashes or a chunk of the ledger is answered with exactly the blocks the ledger holds there, complete, in order and unaltered, or with the statement that they are missing. No request, however it names its start, direction, count, step or range, gets blocks of another account, another height or another branch.",
 ["inputs"], "every start height, by height and by hash, both directions, every boundary count; every outline start, step and end, with unknown points; every range of chunks with right and wrong hashes",
 "Tests encode the messages; a wrong answer needs a count at the edge of a batch, a start at the head, or a list that begins with a point the node does not know",
 ["net/msghandler.go", "net/sync_conn.go", "net/sync_server.go", "ledger/chain/sync_ledger.go"],
 [("answers to requests", "net/msghandler.go, net/message.go"), ("chunks", "net/sync_server.go, ledger/chain/sync_ledger.go")],
 "exhaustive enumeration of requests to a real running node over real connections, against answers computed from the list of blocks",
 "All requests of the bound go to a real node over loopback; every answer is compared block by block with the history. A request for zero blocks, which gets no answer, is not part of the property.")
prop("N03", "A node admits exactly the peers it should",
 "A connection becomes a peer exactly when the remote proves the key it claims, is of the same network with the same genesis, is not the node itself, already connected, denied or calling from an address refused within the last minute, and a place is free for its kind; producers and named peers are let in where ordinary ones are not. The refusal says why, places are free again after a departure, and the file port serves connected peers only.",
 ["inputs", "histories", "configurations"], "every sequence of arrivals of plain, producing, allowed and denied peers and departures up to the stated depth under three configurations; introductions wrong in one of 17 ways with every bit error of token and time",
 "Tests run one correct handshake; a forged identity or an exceeded limit needs a wrong bit, a second connection, or a sequence of arrivals",
 ["net/handshaker.go", "net/net.go", "net/peer.go"],
 [("proof of identity and compatibility", "net/handshaker.go"), ("limits and lists", "net/net.go"), ("file port", "net/sync_conn.go, net/sync_server.go")],
 "exhaustive enumeration of arrivals, departures and forged introductions against a real running node, against a model of admission",
 "All sequences and forgeries of the bound run over loopback against a real node and are compared with a model of who should be connected.")
prop("N04", "New blocks reach the pool once and the other peers; invalid ones nobody",
 "A valid new block announced by a peer is delivered to every subscriber exactly once and passed on, with a smaller time to live, to peers that do not have it and never back to its sender, whatever else arrives before or after it. An invalid, blacklisted or far too old block is delivered to nobody and does not keep the valid one out; blocks that arrive during a download are delivered when it ends, and a cancelled subscription gets nothing more.",
 ["histories", "inputs"], "every sequence of announcements of a block and its wrong copies with several times to live from two peers and the node itself, under both forwarding strategies; every age; every sequence of subscriptions; two downloads in a row",
 "Tests of the broadcaster use mocks and one block; a suppressed, doubled or leaked block needs an invalid copy first, a second download or a cancelled subscription",
 ["net/broadcaster.go", "net/block_feed.go", "net/peer.go", "net/message.go"],
 [("filter, forwarding and store", "net/broadcaster.go"), ("subscriptions", "net/block_feed.go"), ("what peers know", "net/peer.go")],
 "exhaustive enumeration of announcement sequences to a real running node over real connections, against a model of delivery and forwarding",
 "All sequences of the bound run over loopback against a real node with a real ledger and verifier. The bloom filters' small rate of false positives is avoided by fresh blocks.")
prop("R01", "The ledger RPC interface reports the ledger exactly",
 "For every history of blocks, rollbacks and restarts, each read of the ledger over JSON-RPC (account and snapshot blocks by hash, height, page and range, balances, unreceived blocks, chunks, event logs and their filters) returns exactly the blocks, amounts, confirmations, receipts and logs of the current ledger, in order, with pages that show everything once. Each receive block carries the sender, token and amount of its send, and a block read over RPC and submitted back is the same block. A request about something that does not exist, or with senseless arguments, is answered and leaves the node working.",
 ["histories", "inputs"], "every history of the bound, and in each state every address, height, hash, page, range and log filter",
 "Tests call few endpoints on one ledger; a wrong page bound, a stale receipt or a mixed-up address shows only for particular histories and arguments",
 ["rpcapi/api", "rpc"],
 [("queries", "rpcapi/api/ledger.go, rpcapi/api/ledger_v2.go"), ("conversion of blocks", "rpcapi/api/ledger_model.go"), ("requests and answers", "rpc/server.go, rpc/json.go")],
 "exhaustive enumeration of ledger histories and of all queries in every state, through the real JSON-RPC server, against a model computed from the blocks",
 "All histories of the bound run on a real node's ledger and all queries go through the real RPC server and client. Genesis blocks are compared by identity only.")
prop("R02", "The token history and the summary of unreceived funds match the ledger",
 "For every history of blocks, snapshots, rollbacks, flushes and restarts, the history of an account in a token lists exactly its blocks that move that token (sent, received, or sent by a contract in answer), newest first, from any of them on and cut to any count. The summary of what an account has not received gives for each token exactly the number and amount of the sends to it that it has not received, confirmed or not. Rebuilding both from the ledger gives the same.",
 ["histories"], "every history of the bound over transfers of two tokens, contract calls that pay out, issues, receives, partial snapshots, rollbacks, removals of account blocks, flushes, restarts and rebuilds",
 "Tests fill a chain once; a stale or lost entry needs a rollback that leaves blocks unconfirmed, a restart after it or a contract that pays in another token",
 ["ledger/chain/plugins"],
 [("token history", "ledger/chain/plugins/filter_token.go"), ("summary", "ledger/chain/plugins/onroad_info.go"), ("updates and rebuild", "ledger/chain/plugins/plugins.go"), ("storage", "ledger/chain/db")],
 "exhaustive enumeration of ledger histories on the real ledger with its indexes, compared after every step with what the blocks say",
 "All histories of the bound run on the real ledger. Genesis blocks are left out.")

prop("R03", "The contract RPC interface reports stakes, producers and tokens exactly",
 "For every history of calls to the built-in and user contracts, rollbacks and restarts, each read over JSON-RPC (the stakes of an account and of the whole ledger by page, stake amount and quota of a beneficiary, registered producers by name, owner and reward address, an account's vote, tokens by identifier, owner and page, the code, parameters and storage of a contract) returns exactly what the accepted calls add up to, each item once. Reads at an earlier snapshot block give the state of that block. Code run off chain reads the contract's current storage.",
 ["histories"], "every history of the bound over stakes and their cancellation, registrations, changes of producing and reward address, votes, issues, reissues, transfers of ownership, contract calls, snapshots, rollbacks and restarts",
 "Tests read one fixed state; a wrong page, a doubled or missing item needs owners, reward addresses or tokens that changed hands, several stakes of one account, or a rollback before the read",
 ["rpcapi/api", "vm/contracts/abi", "ledger/chain"],
 [("contract interface", "rpcapi/api/contract_v2.go"), ("token interface", "rpcapi/api/mintage.go"), ("reading of contract state", "vm/contracts/abi"), ("state by snapshot block", "ledger/chain/builtin_contract.go"), ("off-chain reads", "vm/vm.go")],
 "exhaustive enumeration of call histories on the real node, every read compared over the real JSON-RPC server with a model of the accepted calls",
 "All histories of the bound run on the real ledger and virtual machine. Delegated stakes, rewards and vote tallies are decided by C01, C03 and S02, not here; lists without a documented order are compared as sets.")

