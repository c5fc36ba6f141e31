"""What each check runs: property -> harnesses (crate, entry, reachability witnesses that must be hit, engine args)."""
COMMON = [
    "the stub crates under ws/stub model Substrate's storage, origins, dispatch layers and math primitives as documented; the pallets' own sources are compiled unmodified from /repo",
    "Z3 and the symx LLVM-IR executor are trusted; sampled paths are re-run natively and must agree",
]
LEDGER = ["the multi-currency behind the pallet is an exact ledger: transfers, mints, burns and holds move the stated amount or fail (what the assets-ext properties check for the real one)"]
OE = ["ok", "err"]
def R(c, *hs, reach=OE, args=()):
    return [(c, h, reach, list(args)) for h in hs]
PROPS = {
 "C01": dict(
  bounds="one swap_with_exact_supply / swap_with_exact_target call: over one pool in full, and over a path of three assets (two pools) for accounting, the caller's bounds and reserves = pool balances; all u128 reserves, balances, amounts, u32 blocks",
  outside="the constant product along paths of two or more hops (each hop is the same code as one hop); paths of four or more assets; protocol fee receiver set during the swap",
  runs=R("dex", "h_swap_supply", "h_swap_target") + R("dex", "h_path_supply", "h_path_target", args=["--solver-ms", "1000"]) + R("dex", "h_path_twice", reach=["err"]),
  deep=R("dex", "h_path_supply_2", args=["--solver-ms", "1000"]),
  assumptions=COMMON + LEDGER,
 ),
 "C02": dict(
  bounds="one add_liquidity (existing or first), remove_liquidity or pair switch; all u128 reserves, balances, supplies and amounts",
  outside="minimum amounts above the desired amounts; on an empty pool the minimum amounts are not consulted",
  runs=R("dex", "h_add", "h_add_swapped", args=["--solver-ms", "4000"]) + R("dex", "h_add_first", "h_remove", "h_switch"),
  deep=R("dex", "h_add_fee"),
  assumptions=COMMON + LEDGER,
 ),
 "C03": dict(
  bounds="one transfer of 1..3 serials over any well-formed collection of at most 4 tokens and two holders; collection limit 8",
  runs=R("nft", "h_transfer_10", "h_transfer_21", "h_transfer_22"),
  deep=R("nft", "h_transfer_deep"),
  assumptions=COMMON + LEDGER,
 ),
 "C04": dict(
  bounds="one mint (mint limit 3), burn or bridged mint (lists of 2..3) over any well-formed collection of at most 3 tokens; collection limit 8",
  runs=R("nft", "h_mint_0", "h_mint_2", "h_burn") + R("nft", "h_bridged_2", "h_bridged_3", reach=["ok"]),
  assumptions=COMMON + LEDGER,
 ),
 "C05": dict(
  bounds="one administrative call, one creation (initial supply < 5), one lock; all callers and arguments; two royalty entitlements",
  runs=R("nft", "h_admin", "h_create", "h_lock"),
  assumptions=COMMON + LEDGER,
 ),
 "C06": dict(
  bounds="one transfer (1..2 token types), mint (1..2), burn or reserve/unreserve over any well-formed pair of token types with up to two holders (or a full holder table); all u128 balances, supplies and caps",
  runs=R("sft", "h_transfer_1", "h_transfer_2", "h_transfer_full", "h_mint_1", "h_mint_2", "h_mint_full", "h_burn_1", "h_burn_2", "h_reserve"),
  assumptions=COMMON + LEDGER,
 ),
 "C07": dict(
  bounds="one creation (collection, token) or administrative call; all callers and arguments; two royalty entitlements",
  runs=R("sft", "h_create", "h_admin"),
  assumptions=COMMON + LEDGER,
 ),
 "C08": dict(
  bounds="one approve / revoke / approve-for-all / ERC-20 allowance update or spend / ownership change, all accounts, serials and amounts",
  runs=R("approvals", "h_approve", "h_move", "h_for_all", "h_erc20") + R("approvals", "h_allowed", reach=["ok"]),
  assumptions=COMMON + LEDGER,
 ),
 "C09": dict(
  bounds="one sale, listing or price change of 1..2 tokens; all prices, balances, marketplace fees; up to two royalty entitlements with arbitrary shares",
  runs=R("marketplace", "h_buy_nft", "h_buy_roy", "h_buy_sft", "h_multi", "h_sell_nft", "h_sell_sft", "h_price", "h_market"),
  assumptions=COMMON + LEDGER,
 ),
 "C10": dict(
  bounds="one cancel, bid, offer, acceptance or listing-expiry sweep over any consistent listing, auction or offer of up to 2 tokens; all prices and balances",
  runs=R("marketplace", "h_cancel_nft", "h_cancel_sft", "h_bid_first", "h_bid_over", "h_offer_make", "h_offer_make_auction", "h_offer_cancel", "h_offer_accept", "h_offer_accept_fixed", "h_offer_accept_auction") + R("marketplace", "h_close_fixed", "h_close_nobid", "h_close_bid", "h_close_sft", reach=["open", "closed"]),
  assumptions=COMMON + LEDGER,
 ),
 "C11": dict(
  bounds="one place_hold / release_hold / spend_hold (1..2 parts) over any state of two accounts with free, reserved and held amounts of up to three pallets, native or pallet_assets asset, any minimum balance; issuance up to 2^127",
  outside="issuance above 2^127 (upstream pallet_assets then refuses transfers)",
  runs=R("assetsext", "h_place", "h_place_native", "h_release", "h_release_native", "h_spend", "h_spend_native", "h_place_min", "h_release_min", "h_spend_min"),
  assumptions=COMMON + ["pallet_assets and pallet_balances are modelled operation by operation (ws/alias), not compiled from their upstream sources"],
 ),
 "C12": dict(
  bounds="one split transfer (up to 2 parts; 3 in thorough), transfer, mint, burn, asset creation or currency query over any two-account state; issuance up to 2^127",
  runs=R("assetsext", "h_split", "h_split_native", "h_transfer", "h_transfer_native", "h_mint", "h_burn", "h_create", "h_currency") + R("assetsext", "h_mint_native", "h_burn_native", reach=["err"]) + R("assetsext", "h_deposit_cfg", reach=["ok"]),
  deep=R("assetsext", "h_split_3"),
  assumptions=COMMON + ["pallet_assets and pallet_balances are modelled operation by operation (ws/alias), not compiled from their upstream sources"],
 ),
 "C13": dict(
  bounds="one withdrawal or incoming message (any source, any 0..100 bytes), one idle/initialise step over up to three due payments in two blocks, one delayed payment followed through six blocks; all amounts, delays, switches, weights",
  outside="schedules of more than four payments; the bridge refusing a message when a delayed withdrawal comes due (ethy only refuses messages that are too long); amounts the tracked assets cannot hold",
  runs=R("erc20peg", "h_withdraw", reach=["sent", "delayed", "err"]) + R("erc20peg", "h_deposit", reach=["delayed", "native", "minted", "new", "err"]) + R("erc20peg", "h_idle", reach=["all", "some"]) + R("erc20peg", "h_history", reach=["ok"]) + R("erc20peg", "h_claim", "h_admin"),
  assumptions=COMMON + LEDGER + ["ethabi encoding/decoding is modelled in ws/stub/vstub/src/ethabi.rs"],
 ),
 "C14": dict(
  bounds="one incoming message with up to 3 contracts and up to 3 tokens each, or truncated messages of arbitrary bytes up to 127; one withdrawal of up to 2 collections, one reclaim; two bridged collections with up to 3 tokens (limit 3); all 32-bit serials",
  outside="token ids above 2^32-1 (the contract's ABI carries uint32); arbitrary malformed messages of 128 bytes or more",
  runs=R("nftpeg", "h_deposit_1", "h_deposit_new", "h_deposit_none", reach=["ok", "refused"]) + R("nftpeg", "h_deposit_full", "h_deposit_both", "h_deposit_both_new", "h_deposit_twice", "h_deposit_all", reach=["ok", "blocked", "refused"]) + R("nftpeg", "h_deposit_wide", "h_deposit_long", reach=["refused"]) + R("nftpeg", "h_short", "h_mismatch", "h_contract", reach=["ok"]) + R("nftpeg", "h_withdraw_1", "h_withdraw_2", "h_withdraw_both", "h_withdraw_swapped", "h_withdraw_same", "h_reclaim"),
  assumptions=COMMON + ["ethabi encoding/decoding is modelled in ws/stub/vstub/src/ethabi.rs"],
 ),
 "C15": dict(
  bounds="one block, submission or clearing over any consistent replay lists of up to 2 processed and 2 skipped ids (at most 3 kept), up to 2 pending claims and 1 invalidated claim, due now or later; all ids (64-bit), challenge periods below 2^30 blocks, message data up to 2 bytes (encoding), truncated data up to 159 bytes of any content",
  outside="challenge period 0; the first message ever processed sets the starting id (earlier ids that were not submitted by then are refused)",
  runs=R("ethy", "h_due_first", "h_due_1", "h_due_missed", "h_due_missed2", "h_due_2", reach=["routed", "kept"]) + R("ethy", "h_due_invalid", "h_due_invalid_first", reach=["invalidated"]) + R("ethy", "h_submit", "h_submit_first", "h_submit_invalid", "h_missing", reach=["accepted", "refused"]) + R("ethy", "h_malformed", "h_clear", reach=["done"]),
  assumptions=COMMON + ["ethabi encoding/decoding is modelled in ws/stub/vstub/src/ethabi.rs", "the router and the other pallets it calls are replaced by a recorder"],
 ),
 "C16": dict(
  bounds="one challenge, vote, bond or relayer change over any state with up to 2 challenged claims; 1, 3 or 5 notaries with any votes (thresholds 51, 66, 75, 100 %), the last vote of 23, 26 and 29 notaries; one node's vote on a receipt of 1 or 2 logs; all bonds and balances below 2^120",
  outside="votes left behind by notaries rotated out meanwhile",
  runs=R("ethy", "h_challenge", reach=["challenged", "refused"]) + R("ethy", "h_vote_1", "h_vote_last", reach=["valid", "invalid"]) + R("ethy", "h_vote_3", "h_vote_5", reach=["valid", "invalid", "open"]) + R("ethy", "h_vote_refused", reach=["ok", "refused"]) + R("ethy", "h_validate", reach=["accepted", "done"]) + R("ethy", "h_bond", reach=["ok", "err", "set"]) + R("ethy", "h_notarize_1", "h_notarize_2", reach=["valid", "invalid", "none"]),
  assumptions=COMMON + LEDGER + ["signature verification is an uninterpreted predicate of message, key and signature", "the node's Ethereum RPC client is replaced by arbitrary answers"],
 ),
 "C17": dict(
  bounds="two messages sent in a row (0, 2, 320 and 321 bytes with a limit of 320), one idle step over up to 3 delayed messages; all proof ids, validator set ids, weights, pause states",
  outside="proof ids wrapping around after 2^64 messages",
  runs=R("ethy", "h_send", reach=["sent", "delayed", "refused"]) + R("ethy", "h_idle", reach=["moves", "sent", "waits"]) + R("ethy", "h_pause", reach=["done"]),
  assumptions=COMMON + ["ethabi encoding/decoding is modelled in ws/stub/vstub/src/ethabi.rs"],
 ),
 "C18": dict(
  bounds="one step of the handover with up to 3 current and 2 next notaries out of 4 keys in any order, any XRPL whitelist (limit 2); all set ids, proof ids, blocks",
  outside="a handover while the bridge is manually paused (its proof is then delayed until after the handover)",
  runs=R("ethy", "h_handover", reach=["due", "not due", "xrpl new", "xrpl same"]) + R("ethy", "h_ending", reach=["announced", "forced", "other session"]) + R("ethy", "h_finalise", reach=["done", "refused"]) + R("ethy", "h_session", reach=["final", "other"]) + R("ethy", "h_door", reach=["done"]),
  assumptions=COMMON + ["secp256k1 key decompression is an uninterpreted injective function", "the scheduler and the XRPL bridge are replaced by recorders"],
 ),
 "C19": dict(
  bounds="one request, one node's answer, one vote over any open request; 1, 3, 4 or 6 notaries with answers of up to 4 kinds (thresholds 51, 66, 75, 100 %); all block numbers, timestamps, look-behind windows; return data of 0, 31, 32, 33 bytes",
  runs=R("ethy", "h_ecall_node", reach=["ok", "failed", "none"]) + R("ethy", "h_ecall", "h_ecall_refused", reach=["done"]) + R("ethy", "h_ecall_vote_1", reach=["agreed"]) + R("ethy", "h_ecall_vote_3", "h_ecall_vote_4", "h_ecall_vote_6", reach=["agreed", "split", "open"]),
  assumptions=COMMON + ["signature verification is an uninterpreted predicate of message, key and signature", "the node's Ethereum RPC client is replaced by arbitrary answers"],
 ),
 "C20": dict(
  bounds="one distribution from registration to the last payment with 2 or 3 rewards (accounts in any order and possibly repeated, in one or two registrations), batches of 1 to 3; one payment over any state of two distributions with 3 entries each; one administrative call over any state; amounts below 2^120",
  outside="payments the receiver cannot take (they are skipped by design); the order in which the trie lists the accounts is the order of insertion",
  runs=R("vortex", "h_life_2", "h_life_3_one", reach=["paid", "in batches"]) + R("vortex", "h_life_3", reach=["paid", "in batches"]) + R("vortex", "h_pay", reach=["paid", "none"]) + R("vortex", "h_steps", reach=["done", "refused"]) + R("vortex", "h_node", reach=["submitted", "validated"]),
  deep=R("vortex", "h_life_4", reach=["paid", "in batches"]),
  assumptions=COMMON + [LEDGER],
 ),
 "C21": dict(
  bounds="up to 2 of 3 assets redeemed, 3 assets swept; all 128-bit balances, issuances and amounts for redemption, below 2^120 for the sweep",
  runs=R("vortex", "h_redeem_1", "h_redeem_2", reach=["redeemed", "refused"]) + R("vortex", "h_trigger", reach=["done"]),
  assumptions=COMMON + [LEDGER],
 ),
 "C22": dict(
  bounds="one call or block over any sale state; 2 sales ending in one block; all ids, prices, durations, issuances; amounts below 2^100; names of 3 bytes",
  outside="a payment or voucher transfer that fails while a sale is closed (receiver frozen, asset frozen): the sale then stays enabled",
  runs=R("crowdsale", "h_open", reach=["opened", "refused"]) + R("crowdsale", "h_enable", reach=["enabled", "refused"]) + R("crowdsale", "h_join", reach=["joined", "refused"]) + R("crowdsale", "h_close", reach=["closed", "none due"]) + R("crowdsale", "h_force", reach=["restarted", "refused"]) + R("crowdsale", "h_proxy", reach=["called", "refused"]),
  assumptions=COMMON + [LEDGER, "the NFT pallet is replaced by owner, issuance and cap of a collection; the vault call filter is an arbitrary predicate", "the first 20 bytes of blake2 hashes are collision-free"],
 ),
 "C23": dict(
  bounds="one round of distribution or claim with up to 2 (thorough 3) participants over any sale state; whole distributions with 2 participants; all prices, caps, batch sizes; amounts below 2^100; redemption of up to 1000 tokens at once (the NFT mint limit)",
  outside="payments of vouchers the participant cannot take",
  runs=R("crowdsale", "h_distribute_1", reach=["over", "refused"]) + R("crowdsale", "h_distribute_2", reach=["over", "part", "refused"]) + R("crowdsale", "h_claim_1", reach=["over", "refused"]) + R("crowdsale", "h_claim_2", reach=["part", "refused"]) + R("crowdsale", "h_life_1", "h_life_2", reach=["over", "oversubscribed"]) + R("crowdsale", "h_redeem", reach=["redeemed", "refused"]) + R("crowdsale", "h_node", reach=["done"]),
  deep=R("crowdsale", "h_distribute_3", reach=["over", "part", "refused"]),
  assumptions=COMMON + [LEDGER, "the NFT pallet is replaced by owner, issuance and cap of a collection"],
 ),
 "C24": dict(
  bounds="one call over any state of two futurepasses with up to 3 delegates each; all callers, kinds, deadlines, blocks and signatures; futurepass numbers below 2^128",
  outside="more delegates per futurepass; what the runtime's proxy pallet does with deposits",
  runs=R("futurepass", "h_create", reach=["created", "refused"]) + R("futurepass", "h_register", reach=["registered", "refused"]) + R("futurepass", "h_unregister", reach=["removed", "refused"]) + R("futurepass", "h_transfer", reach=["handed over", "refused"]) + R("futurepass", "h_act", reach=["acted", "refused"]),
  assumptions=COMMON + ["the proxy pallet is replaced by an exact list of (delegate, kind) per account", "signature recovery is an uninterpreted function of message and signature"],
 ),
 "C25": dict(
  bounds="one call over any state; pallet and call names of up to 4 ASCII letters or underscores (and the pallet's own 15), in any spelling; all accounts and EVM addresses",
  outside="transactions that enter without the signed-extension check (doughnut and XRPL transact)",
  runs=R("maintenance", "h_block_pallet", "h_block_call", "h_block_short", "h_names", "h_shut", reach=["set", "refused"]) + R("maintenance", "h_long", reach=["set"]) + R("maintenance", "h_self", reach=["refused"]),
  assumptions=COMMON + ["the vital pallets other than the pallet itself carry the names Sudo, TiM, ImO and Ethy"],
 ),
 "C26": dict(
  bounds="one call or block over any state: 2 known transactions, 2 due ones, 3 ledgers of settled ones; all hashes of those, ledger indexes, windows, amounts, weights; balances below 2^126",
  outside="ledger indexes above 2^32 - 1 (XRPL's are 32 bits wide); more settled transactions under one ledger than the runtime's limit of a million",
  runs=R("xrplbridge", "h_submit", reach=["accepted", "refused"]) + R("xrplbridge", "h_process_1", reach=["paid", "not paid"]) + R("xrplbridge", "h_process_2", reach=["processed"]) + R("xrplbridge", "h_challenge", reach=["done"]) + R("xrplbridge", "h_prune", reach=["done", "forgotten"]) + R("xrplbridge", "h_prune_manual", reach=["forgotten", "refused"]) + R("xrplbridge", "h_admin", reach=["set", "refused"]),
  assumptions=COMMON + [LEDGER],
 ),
 "C27": dict(
  bounds="one withdrawal of XRP, ROOT or a token of 0, 6, 18 or 20 decimals over any state, or one block with up to 3 delayed withdrawals; all amounts, fees, tags, thresholds, delays and weights; balances below 2^102 for assets other than XRP; the asset map with 3 assets and 3 currencies",
  outside="assets of more than 38 decimals; what XRPL does with the signed payment",
  runs=R("xrplbridge", "h_withdraw_xrp", "h_withdraw_asset", "h_withdraw_big", "h_withdraw_big_0", "h_withdraw_18", "h_withdraw_20", reach=["withdrawn", "refused"]) + R("xrplbridge", "h_delay", reach=["at once", "delayed", "refused"]) + R("xrplbridge", "h_delayed", reach=["done", "sent"]) + R("xrplbridge", "h_map", "h_map_invalid", reach=["set", "refused"]),
  assumptions=COMMON + [LEDGER, "xrpl_codec is replaced by an injective serialization of every field of the transaction"],
 ),
 "C28": dict(
  bounds="one call over any state of both doors; all sequence numbers, buckets, fees and addresses; signer lists of up to 3 notaries",
  outside="governance setting a current ticket before the start of its bucket",
  runs=R("xrplbridge", "h_ticket", reach=["ticket", "same bucket", "next bucket", "none"]) + R("xrplbridge", "h_allocate", reach=["allocated", "refused"]) + R("xrplbridge", "h_signers", reach=["requested", "refused"]) + R("xrplbridge", "h_nft", reach=["signed", "refused"]),
  assumptions=COMMON + ["xrpl_codec is replaced by an injective serialization of every field of the transaction"],
 ),
 "C29": dict(
  bounds="one call of each function of the ERC-20 interface over any state with 3 accounts and 2 assets; all amounts of 256 bits, balances, allowances; malformed input of up to 100 bytes in all; addresses of any 20 bytes",
  outside="gas metering beyond the recorded cost; token names longer than 8 bytes",
  runs=R("erc20", "h_views", reach=["an allowance", "another account"]) + R("erc20", "h_transfer", reach=["transferred", "to oneself", "refused"]) + R("erc20", "h_approve", reach=["approved", "an unlimited approval", "refused"]) + R("erc20", "h_transfer_from", reach=["part of the approval", "all of the approval", "refused"]) + R("erc20", "h_modifiers", reach=["a static view", "a call", "refused"]) + R("erc20", "h_any_input", reach=["answered", "reverted"]) + R("erc20", "h_address", reach=["a token", "another address"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; dispatched calls are executed by the real pallets or the ledger model"],
 ),
 "C30": dict(
  bounds="one call of each function of the ERC-721 interface over a collection with 3 tokens of any serial numbers, 2 holders, an approved account and an operator; token ids of 256 bits, receivers that answer 0, 3, 4 or 32 bytes of any value and may change approvals, owner or lock while they are asked; up to 3 XLS-20 requests; malformed input up to 100 bytes; addresses of any 20 bytes",
  outside="tokenURI on malformed input (decimal formatting of a symbolic number); gas metering beyond the recorded cost; names longer than 10 bytes",
  runs=R("erc721", "h_views", reach=["a token", "no token"]) + R("erc721", "h_owned", reach=["two tokens", "more to come"]) + R("erc721", "h_transfer_from", reach=["by the owner", "by another", "refused"]) + R("erc721", "h_safe", reach=["accepted", "not a contract", "refused"]) + R("erc721", "h_approve", reach=["an operator", "a token", "refused"]) + R("erc721", "h_burn", reach=["burnt", "refused"]) + R("erc721", "h_mint", reach=["minted", "refused"]) + R("erc721", "h_admin", reach=["done", "refused"]) + R("erc721", "h_modifiers", reach=["a static view", "a call", "refused"]) + R("erc721", "h_any_input", reach=["answered", "reverted"]) + R("erc721", "h_xls20", reach=["asked", "refused"]) + R("erc721", "h_address", reach=["a collection", "another address"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; dispatched calls are executed by the real pallets"],
 ),
 "C31": dict(
  bounds="one call of each function of the ERC-1155 interface over a collection with 2 token ids, 2 holders with any balances and an operator; ids and amounts of 256 bits, batches of up to 3 with repeated ids and differing lengths; receivers that answer 0, 3, 4 or 32 bytes of any value and may end the approval while they are asked; malformed input up to 100 bytes; addresses of any 20 bytes",
  outside="uri on malformed input (decimal formatting of a symbolic number); gas metering beyond the recorded cost; batches longer than 3",
  runs=R("erc1155", "h_views", reach=["an id", "no id"]) + R("erc1155", "h_approve", reach=["set", "refused"]) + R("erc1155", "h_transfer", "h_batch_1", "h_batch_2", reach=["by the holder", "by an operator", "refused"]) + R("erc1155", "h_batch_3", reach=["refused"]) + R("erc1155", "h_accept", reach=["accepted", "not a contract", "refused"]) + R("erc1155", "h_burn", "h_burn_batch", reach=["by the holder", "by an operator", "refused"]) + R("erc1155", "h_mint", "h_mint_batch", reach=["minted", "refused"]) + R("erc1155", "h_create", reach=["created", "refused"]) + R("erc1155", "h_admin", reach=["done", "refused"]) + R("erc1155", "h_modifiers", reach=["a static view", "a call", "refused"]) + R("erc1155", "h_any_input", reach=["answered", "reverted"]) + R("erc1155", "h_lengths", reach=["accepted", "refused"]) + R("erc1155", "h_address", reach=["a collection", "another address"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; dispatched calls are executed by the real pallets"],
 ),
 "C32": dict(
  bounds="one call of each function of the marketplace interface, and the same extrinsic from the same state, compared in everything they leave in storage: one collection of each kind, one marketplace, one listing (fixed price, with or without a chosen buyer, or auction with or without a bid) or one offer; all prices, balances, ids, durations and addresses, numbers of 256 bits, 0 to 4 tokens; malformed input up to 68 bytes",
  outside="gas metering beyond the recorded cost; several listings at once (C08-C10 cover the pallet itself)",
  runs=R("mktpc", "h_register", reach=["registered", "refused"]) + R("mktpc", "h_sell_nft", "h_sell_nft_n", "h_sell_sft", "h_auction_nft", "h_auction_nft_n", "h_auction_sft", reach=["listed", "refused"]) + R("mktpc", "h_buy", reach=["bought", "refused"]) + R("mktpc", "h_update", reach=["changed", "refused"]) + R("mktpc", "h_bid", reach=["bid", "refused"]) + R("mktpc", "h_cancel", reach=["cancelled", "refused"]) + R("mktpc", "h_offer", reach=["offered", "refused"]) + R("mktpc", "h_accept_offer", "h_cancel_offer", reach=["closed", "refused"]) + R("mktpc", "h_views", reach=["account", "listing"]) + R("mktpc", "h_modifiers", reach=["a static view", "a call"]) + R("mktpc", "h_any_input", reach=["answered", "reverted"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; pallet-marketplace, pallet-nft and pallet-sft are real"],
 ),
 "C33": dict(
  bounds="one call of each function of the DEX interface, and the same extrinsic from the same state, compared in everything they leave in storage: two or three pools of the stated reserves, paths of 2 or 3 assets of any kind, any balances, amounts, limits and deadlines of 256 bits; malformed input up to 100 bytes",
  outside="gas metering beyond the recorded cost; other reserves (C01 and C02 cover the pallet itself); paths longer than 3",
  runs=R("dexpc", "h_add", "h_add_eth", reach=["added", "refused"]) + R("dexpc", "h_remove", reach=["removed", "refused"]) + R("dexpc", "h_swap_supply", "h_swap_target", "h_swap_from_eth", "h_swap_to_eth", "h_value", reach=["swapped"]) + R("dexpc", "h_views", reach=["answered", "no answer"]) + R("dexpc", "h_modifiers", reach=["a static view", "a call", "a payable call"]) + R("dexpc", "h_input", "h_input_words", reach=["refused"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; pallet-dex and pallet-assets-ext are real"],
 ),
 "C34": dict(
  bounds="one call of each function of the collection creation and peg interfaces, and the same extrinsic from the same state, compared in everything they leave in storage: names and paths of 0 to 2 bytes or one byte too long, royalties of up to 2 owners, any issuance; up to 2 collections with up to 2 tokens each, any ids and amounts of 256 bits; malformed input up to 100 bytes",
  outside="gas metering beyond the recorded cost; longer lists",
  runs=R("colpc", "h_nft", "h_sft", reach=["created", "refused", "refused by the pallet"]) + R("colpc", "h_input", reach=["refused"]) + R("pegpc", "h_erc20", reach=["withdrawn", "refused"]) + R("pegpc", "h_erc721", reach=["withdrawn", "two collections", "refused"]) + R("pegpc", "h_input", reach=["refused"]),
  assumptions=COMMON + [LEDGER, "pallet_evm is a model: the handle records gas, logs and sub-calls; the pallets called are real"],
 ),
 "C35": dict(
  bounds="one call of each function of the futurepass and registrar interfaces by any of 3 accounts, on one of 2 futurepasses with any delegates and owner; proxied calls of every type and value, with data of up to 8 bytes or any length of malformed input up to 132 bytes; any gas, sub-call result, deadline and signature",
  outside="what the contract called does (the EVM is a model which records the call and answers anything)",
  runs=R("fppc", "h_registrar", reach=["created", "refused"]) + R("fppc", "h_register", reach=["registered", "refused"]) + R("fppc", "h_unregister", reach=["unregistered", "refused"]) + R("fppc", "h_views", reach=["answered"]) + R("fppc", "h_owner", reach=["handed over", "given up", "refused"]) + R("fppc", "h_call", reach=["called", "guarded", "refused"]) + R("fppc", "h_create", reach=["created", "refused"]) + R("fppc", "h_modifiers", reach=["ran", "refused"]) + R("fppc", "h_input", reach=["ran", "refused"]),
  assumptions=COMMON + ["signature recovery is an uninterpreted function", "pallet_evm is a model: the handle records gas, logs, sub-calls and transfers; pallet-futurepass is real"],
 ),
 "C36": dict(
  bounds="one transaction of any of 8 shapes (with or without fee preferences, a futurepass and an EVM call), any fee up to 2^60, tip, limit and balances, three gas prices, over one pool of fixed reserves; one EVM call or creation with any sender, target, value and data of 5 bytes, blocked accounts and targets, 4 fee caps and 3 gas limits; EVM fees of any gas limit, and fee caps of 256 bits; malformed fee proxy input up to 100 bytes; fee settings of any value",
  outside="the ordinary way of charging and the EVM itself (models that record what they are told); other pools (C01)",
  runs=R("feeproxy", "h_charge", reach=["swapped and charged", "charged", "the futurepass pays", "refused"]) + R("feeproxy", "h_correct", reach=["settled"]) + R("feeproxy", "h_call", reach=["called", "refused"]) + R("feeproxy", "h_price", reach=["priced", "refused"]) + R("feeproxy", "h_run", reach=["ran with fee preferences", "ran", "refused"]) + R("feeproxy", "h_create", reach=["created", "understood", "refused"]) + R("feeproxy", "h_control", reach=["set"]),
  assumptions=COMMON + ["pallet_evm and pallet_transaction_payment are models; pallet-fee-proxy, pallet-fee-control, pallet-dex, pallet-assets-ext and pallet-futurepass are real"],
 ),
 "C37": dict(
  bounds="one EVM transfer or withdrawal of any wei amount up to 2^64 drops, between two accounts of any balances up to 2^64 (each existing or not); one EVM transaction's fee taken, corrected and shared, any fee, corrected fee and base fee up to 2^64 drops, payer, author and pot of any balances, the payer with a default futurepass or not; the fee of any 64-bit weight at the runtime's rate; any transaction to any target, value and gas limit of 64 bits, gas price of 32 bits and balance of 128 bits",
  outside="the EVM (it is given what the corrected and base fee are; neither is above what was taken); what pallet_evm does between taking and correcting a fee; amounts above 2^64 drops",
  runs=R("glue", "h_scale", reach=["EVM transfer", "EVM transfer refused", "EVM withdrawal", "EVM withdrawal refused"]) + R("glue", "h_evm_fee", reach=["a futurepass pays", "fee not covered", "refunded", "an emptied account"]) + R("glue", "h_fee_weight", reach=["weight"]) + R("glue", "h_tx_validation", reach=["with a fee preference", "without a fee preference"]),
  assumptions=COMMON + ["pallet_assets and pallet_evm are models; runtime/src/impls.rs, pallet-tx-fee-pot, pallet-assets-ext and pallet-futurepass are real"],
 ),
 "C38": dict(
  bounds="two tokens of any ids and precompile prefixes and any 20-byte address; any address against a holder with a futurepass (default or not) whose proxies are any of 4 lists; any author index over 3 validators; three kinds of origin; one event of 3 bytes between any two addresses, its handler failing or not; any active era, session and era start, with 4 forcing modes",
  outside="what the receiving pallets do with an event (C13, C14, C31); the digests an author index is found from",
  runs=R("glue", "h_token_address", reach=["addresses", "an address of a token"]) + R("glue", "h_accounts", reach=["accounts", "a default futurepass"]) + R("glue", "h_router", reach=["nobody's event", "an event is handed over", "a foreign sender"]) + R("glue", "h_session", reach=["sessions"]),
  assumptions=COMMON + ["the session, staking and handling pallets are stand-ins that answer with any value; runtime/src/impls.rs and pallet-futurepass are real"],
 ),
 "C39": dict(
  bounds="one call of 14 shapes (proxy, futurepass, balances, tokens, XRPL, batch, and EVM calls to any address, through the fee proxy or not) by each of the 6 kinds of proxy; one EVM call to any address with any selector; every pair of kinds; a futurepass with up to 3 proxies of any balance, its funder of any balance, one delegate added, removed, all removed, asked for or calling; one call of 13 shapes with any arguments, bare or inside a futurepass, a fee preference or both, paused or not, its topping agreeing or not; 14 shapes against the chain's call filter",
  outside="batches are filtered where pallet_proxy dispatches what is inside them; pallet_proxy itself (a model with its deposits); what a topping's contract decides (it answers yes or no)",
  runs=R("glue", "h_proxy_filter", reach=["a call that changes control", "another call"]) + R("glue", "h_evm_filter", reach=["a call that changes control", "another call"]) + R("glue", "h_superset", reach=["kinds"]) + R("glue", "h_proxy_provider", reach=["delegate added", "delegate not added", "delegate removed", "delegate not removed", "futurepass removed", "questions"]) + R("glue", "h_validators", reach=["calls"]) + R("glue", "h_doughnut", reach=["a doughnut's call", "a doughnut's call refused"]) + R("glue", "h_call_filter", reach=["calls"]),
  assumptions=COMMON + ["the runtime's call type is a stand-in with the calls named; pallet_proxy, pallet_balances, the toppings and maintenance mode are models; runtime/src/impls.rs and the call filter of runtime/src/lib.rs are real"],
 ),
 "C40": dict(
  bounds="one setting by root, nobody or one of 6 accounts; one request, submission, mint or burn against a real NFT collection with two tokens of any serials and a real SFT collection with one token, the token id of any chain, any collection and serial format of up to 2 bytes, NFI enabled for it or not, the fee up to 2^64 or none, the network's receiver set or not, the requester's balance up to 2^126, data of up to 3 bytes",
  outside="longer byte-string ids and data; what the relayer's data says; ids of other chains are only named, never looked up",
  runs=R("tokx", "h_nfi_set", reach=["a relayer", "a fee receiver", "a fee", "a collection"]) + R("tokx", "h_nfi_request", reach=["requested", "refused"]) + R("tokx", "h_nfi_submit", reach=["submitted", "refused"]) + R("tokx", "h_nfi_token", reach=["minted", "not paid for", "burnt"]) + R("tokx", "h_mint", reach=["minted", "not minted"]),
  assumptions=COMMON + LEDGER + ["pallet-nfi, pallet-nft, pallet-sft and pallet-xls20 are real; events (by which data is requested) are not observed"],
 ),
 "C41": dict(
  bounds="one XLS-20 request, mint, fulfilment, setting or deposit against a real NFT collection with two tokens of any serials (of one digit where a request names their URIs), one of which may have its XLS-20 token; up to 2 tokens per request, the fee up to 2^64, the payer's balance up to 2^126, relayer set or not; a deposit of any 32-byte token id into a collection that is known or not, followed by one of the same issuer with any other taxon and sequence",
  outside="requests by event (not observed); migration in progress (the migrator says it is done); the bridge's own deposits and withdrawals (C26, C27)",
  runs=R("tokx", "h_xls_request", reach=["requested", "refused"]) + R("tokx", "h_mint", reach=["minted", "not minted"]) + R("tokx", "h_xls_enable", reach=["asked"]) + R("tokx", "h_xls_fulfil", reach=["fulfilled", "refused", "set"]) + R("tokx", "h_xls_deposit", reach=["a burnable token", "a token that is already here", "a token of a known collection", "a token of a new collection", "a second token"]),
  assumptions=COMMON + LEDGER + ["pallet-xls20, pallet-nft and pallet-nfi are real"],
 ),
 "C42": dict(
  bounds="one doughnut of any version, issuer and holder of 3 keys or an invalid one, any expiry, start, fee mode, signed or not, with or without the network's domain and any topping of 3 bytes; one transaction with any call number, nonce, tip and genesis, signed over any of another call, nonce, tip, genesis or doughnut byte, by any key, in either signature format; holder listed or not, doughnut or holder revoked or not, the call failing or not; payers of any 64-bit balances with or without a futurepass; the transaction validated, applied, and applied again",
  outside="the doughnut format and cryptography (doughnut-rs is a model with an ideal signature scheme); what a topping allows (C39); the weights that fees are of",
  runs=R("dough", "h_dough_check", reach=["a transaction", "no transaction"]) + R("dough", "h_dough_transact", reach=["a call", "no call"]) + R("dough", "h_dough_apply", reach=["valid", "applied", "not applied"]) + R("dough", "h_dough_revoke", reach=["a doughnut", "a holder", "a listing"]),
  assumptions=COMMON + ["doughnut-rs, the signed extensions and the fee interface are models; pallet-doughnut is real; no two of the keys hash to the same account"],
 ),
 "C43": dict(
  bounds="one idle hook over any state (status, progress, pause, pace, left-over key) with up to 4 items and up to 5 steps a block, any block number, any weights below 2^60 in both dimensions, each step weighing any amount up to its declared maximum; one or two upgrades followed by a block, with 2 items; one call of governance or of anybody else",
  outside="what a concrete migration converts (none is configured in the runtime at this commit: NoopMigration); weights near 64 bits",
  runs=R("migration", "h_idle", reach=["nothing done", "completed", "some steps"]) + R("migration", "h_upgrade", reach=["already new", "running", "started"]) + R("migration", "h_govern", reach=["set", "refused"]),
  assumptions=COMMON + ["the migration is a model: a list of items, converted one per step, of symbolic weights; no step weighs more than its declared maximum; the declared overhead of a block covers its storage reads"],
 ),
 "C44": dict(
  bounds="one XRPL transaction signed with any of 3 keys (Ed25519 and both parities of ECDSA) or with none; nonce, last block and tip of any two digits, right or wrong genesis, any of 4 calls (ordinary, of a futurepass, forbidden, another than the one signed), with other memos beside; signed over any other nonce, last block and tip, another call, by another key, with any altered signature byte; any nonce of the account, any block number, payers of any 64-bit balances with or without a futurepass, the call failing or not; validated, applied, and applied again; 16 kinds of malformed messages",
  outside="the wire format of the XRP Ledger and the cryptography (models: an injective serialization, ideal signatures); numbers of more digits except the overflowing ones; the weights that fees are of",
  runs=R("xrpl", "h_xrpl_check", reach=["a transaction", "no transaction"]) + R("xrpl", "h_xrpl_apply_ed", reach=["valid", "applied", "not applied"]) + R("xrpl", "h_xrpl_apply_ec", reach=["valid", "applied", "not applied"]) + R("xrpl", "h_xrpl_transact", reach=["a call", "no call"]) + R("xrpl", "h_xrpl_malformed", reach=["refused"]),
  assumptions=COMMON + ["the xrpl codec crates, serde_json's value type, the signed extensions and the fee interface are models; pallet-xrpl, the hex crate and serde's derived code are real; no two of the keys hash to the same account; Blake2 hashes of the calls are the given constants"],
 ),
}
