"""The properties, and for each claimed one the level note. gen_meta.py writes properties.jsonl and MANIFEST.json from this."""
def P(id, title, statement, over, text, why, files, mech, note=None, na=None, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, state=state, observe=observe)
W = "The existing tests are mock-runtime unit tests (not even compiled in this sandbox) that sample a few concrete "
PROPS = [
P("C01", "DEX swaps keep the constant product and honour the trader's bounds",
  "A successful swap never lowers the product of a pool's reserves, takes exactly (or at most) the stated input, delivers at least (or exactly) the stated output to the named recipient, and happens only on an enabled pair before its deadline. Pool reserves always equal what the pool account holds. A failed swap moves nothing.",
  ["inputs", "configurations"], "every reserve, pool balance, trader balance, amount, bound, deadline and block number (full 128/32-bit ranges), both trading directions, own or foreign recipient",
  W + "amounts; rounding at the edge of 128/256-bit arithmetic and the fee formula can only be settled over all values.",
  ["pallet/dex/src/lib.rs", "pallet/dex/src/types.rs"],
  [("swap execution", "pallet/dex/src/lib.rs: do_swap_with_exact_supply, do_swap_with_exact_target, _swap"), ("price formulas", "pallet/dex/src/lib.rs: get_amount_out, get_amount_in, get_amounts_out, get_amounts_in")],
  note="every assertion proved by Z3 for all 128-bit values on every path of one swap over one pool; longer trading paths outside"),
P("C02", "DEX liquidity providers are never diluted and withdraw at most pro rata",
  "Adding liquidity takes amounts between the stated minimum and desired amounts and never lowers the reserves backing an existing liquidity token; the first provision locks a fixed minimum of liquidity for ever. Removing liquidity burns exactly the given tokens and pays at most the pro-rata share and at least the stated minima. Only root switches pairs on or off, and failures change nothing.",
  ["inputs", "configurations"], "every reserve, balance, liquidity-token supply, desired and minimum amount, both token orders, protocol fee receiver set or not",
  W + "pools; share arithmetic with rounding has to be right for all reserve ratios.",
  ["pallet/dex/src/lib.rs"],
  [("liquidity", "pallet/dex/src/lib.rs: do_add_liquidity, do_remove_liquidity, mint_fee"), ("pair switching", "pallet/dex/src/lib.rs: reenable_trading_pair, disable_trading_pair")],
  note="proved by Z3 for all values on every path of one add or remove; sequences follow by induction over the reserves=balance invariant that is part of the assertions"),
P("C03", "An NFT has one owner and only that owner moves it",
  "A transfer succeeds only for unlocked, transferable tokens of the caller, gives each of them to the new owner, and leaves every other token's owner, the issuance and the serial counter as they were. No serial is ever recorded for two owners or twice. Failed transfers change nothing.",
  ["inputs", "histories"], "every well-formed collection of up to 4 tokens held by two accounts with arbitrary serials, flags and locks; every list of up to 3 serials, duplicates included; every sender and receiver among three accounts",
  W + "collections with consecutive serials; lists with repeated serials, foreign serials or locked tokens are not covered.",
  ["pallet/nft/src/impls.rs", "pallet/nft/src/types.rs", "pallet/nft/src/lib.rs"],
  [("transfer", "pallet/nft/src/impls.rs: do_transfer"), ("ownership table", "pallet/nft/src/types.rs: CollectionInformation")],
  note="inductive: any well-formed collection of the stated size, one call, checked for all values"),
P("C04", "NFT mints and burns respect caps, fees and never reuse a serial",
  "A mint gives exactly the next unused serials to the recipient, within the size limit, the collection limit and the maximum issuance, and only for the owner or in an enabled public mint whose fee is price times quantity paid to the owner. A burn needs the owner, an unlocked token and a burnable collection, and removes exactly that token. Bridged mints add exactly the serials not yet present.",
  ["inputs", "histories"], "every well-formed collection of up to 3 tokens, every quantity, price, issuance cap, serial counter (32-bit), flags, locks, and bridged serial lists of up to 3 entries including duplicates",
  W + "quantities; counters near their caps, free/priced public mints for every account and duplicate bridged serials are not sampled.",
  ["pallet/nft/src/impls.rs", "pallet/nft/src/lib.rs", "pallet/nft/src/types.rs"],
  [("mint", "pallet/nft/src/impls.rs: pre_mint, do_mint, charge_mint_fee"), ("bridged mint", "pallet/nft/src/impls.rs: do_mint, mint_bridged_nft"), ("burn", "pallet/nft/src/impls.rs: do_burn")],
  note="inductive: any well-formed collection of the stated size, one call, all values"),
P("C05", "NFT collections are created uniquely and administered only by their owner",
  "A new collection gets an id never used before, belongs to its creator and starts with exactly the requested tokens. Only its owner changes ownership, caps, metadata, royalties, flags or public-mint terms; the maximum issuance is set once, royalties never exceed the price, and administration never touches tokens. Locks are taken only on unlocked tokens of the stated owner, and a locked token can be neither moved nor burnt.",
  ["inputs", "configurations"], "every caller account (160-bit), every administrative call with arbitrary arguments, every collection id counter, every pair of royalty shares",
  W + "callers and arguments; access control and cap arithmetic must hold for all.",
  ["pallet/nft/src/lib.rs", "pallet/nft/src/impls.rs", "primitives/src/nft.rs", "pallet/common/src/utils.rs"],
  [("administration", "pallet/nft/src/lib.rs: set_owner, set_max_issuance, set_base_uri, set_royalties_schedule, set_utility_flags, toggle_public_mint, set_mint_fee, set_name"), ("creation", "pallet/nft/src/impls.rs: do_create_collection"), ("ids", "pallet/common/src/utils.rs: next_asset_uuid"), ("locks", "pallet/nft/src/impls.rs: set_token_lock")],
  note="one call over any well-formed collection, all values; two royalty entitlements"),
P("C06", "SFT balances always add up to the issuance and only owners spend them",
  "For every SFT token, the holders' free and reserved balances sum to the token's issuance and never exceed its maximum. A transfer moves exactly the stated free amounts between sender and receiver; a mint credits exactly the stated amounts within the caps, by the collection owner or in an enabled public mint whose fee is paid; a burn removes exactly the caller's free amount. Reserving moves between free and reserved. Failures change nothing.",
  ["inputs", "histories"], "every issuance, cap, free and reserved balance and amount (128-bit), holder tables with up to two accounts or completely full, one or two token types per call with duplicates",
  W + "balances; overflow at the caps, repeated serials in one call and full holder tables are not sampled.",
  ["pallet/sft/src/impls.rs", "pallet/sft/src/types.rs", "pallet/sft/src/lib.rs"],
  [("transfer", "pallet/sft/src/impls.rs: do_transfer"), ("mint", "pallet/sft/src/impls.rs: do_mint"), ("burn", "pallet/sft/src/impls.rs: do_burn"), ("balances", "pallet/sft/src/types.rs: SftTokenInformation, SftTokenBalance")],
  note="inductive: any well-formed token pair of the stated size, one call, all values"),
P("C07", "SFT collections and tokens are created uniquely and administered by their owner",
  "A new SFT collection gets an id never used before; a new token gets the collection's next serial and starts with exactly its initial issuance, credited to its owner and within its maximum. Only the collection owner creates tokens or changes ownership, caps, metadata, royalties, flags or public-mint terms; a maximum issuance is set once and never below what exists; administration never changes balances.",
  ["inputs", "configurations"], "every caller (160-bit), every administrative call with arbitrary arguments, every id and serial counter",
  W + "callers and arguments; access control must hold for all.",
  ["pallet/sft/src/lib.rs", "pallet/sft/src/impls.rs", "pallet/common/src/utils.rs"],
  [("creation", "pallet/sft/src/impls.rs: do_create_collection, do_create_token"), ("administration", "pallet/sft/src/impls.rs: do_set_owner, do_set_max_issuance, do_set_base_uri, do_set_royalties_schedule")],
  note="one call over any well-formed collection, all values"),
P("C08", "Token approvals come only from the owner, are spent exactly and die on transfer",
  "An NFT approval is created only by the token's owner (or an operator the owner approved for all) and never for itself; it disappears when the token changes hands. An ERC-20 allowance is exactly what the holder set, spending needs an allowance at least as large and reduces it by exactly that amount. A caller counts as approved only if it is the approved account, an operator or the owner.",
  ["inputs", "histories"], "every caller, spender, owner and asset, every allowance and amount (128-bit), every approval already present",
  W + "accounts; stale approvals and partial spends need all combinations.",
  ["pallet/token-approvals/src/lib.rs", "pallet/nft/src/impls.rs"],
  [("NFT approvals", "pallet/token-approvals/src/lib.rs: erc721_approval, erc721_remove_approval, erc721_approval_for_all, is_approved_or_owner"), ("ERC-20 allowances", "pallet/token-approvals/src/lib.rs: erc20_approval, erc20_update_approval")],
  note="one call from any state, all values"),
P("C09", "Marketplace sales deliver the tokens and split the price exactly",
  "A purchase of a fixed-price listing happens before it closes and by the permitted buyer; the buyer pays exactly the price, the royalties, the marketplace fee and the seller receive together exactly that, each royalty its stated share (rounded, never above the price), and the buyer gets every listed token. Listings can be created only for one's own unlocked tokens, which become locked. Only the seller changes the price. Failures change nothing.",
  ["inputs", "configurations"], "every price, balance, royalty share, marketplace fee, closing block, buyer and seller; NFT and SFT listings of up to two tokens",
  W + "prices and shares; rounding of fractions of arbitrary amounts must never create or lose money.",
  ["pallet/marketplace/src/impls.rs", "pallet/marketplace/src/lib.rs", "pallet/marketplace/src/types.rs"],
  [("purchase", "pallet/marketplace/src/impls.rs: do_buy, process_payment_and_transfer, calculate_royalty_schedule"), ("listing", "pallet/marketplace/src/impls.rs: do_sell_nft, lock_tokens_for_listing")],
  note="one sale over any consistent listing, all values; up to two royalty entitlements"),
P("C10", "Auctions, offers and expiries keep every token and bid accounted for",
  "A bid is held in full until it is outbid, wins or the listing is cancelled, and then released or paid exactly once; bids meet the reserve and always rise. An offer holds its amount until cancelled or accepted. Closing or cancelling a listing, selling or accepting an offer releases all locks and holds and removes the listing entirely; a settled auction pays the seller and hands over the tokens, a failed one gives everything back.",
  ["inputs", "histories"], "every price, bid, held and free balance, closing block and party; listings of up to two NFTs or SFTs; settlement failing for any reason",
  W + "auctions; a settlement that fails, an offer on a listed token or a late bid leave leftovers no test looks for.",
  ["pallet/marketplace/src/impls.rs", "pallet/marketplace/src/lib.rs", "pallet/marketplace/src/types.rs"],
  [("auction", "pallet/marketplace/src/impls.rs: do_bid, settle_auction_listing, close_listings_at"), ("offers", "pallet/marketplace/src/impls.rs: do_make_simple_offer, do_cancel_offer, do_accept_offer"), ("cancel", "pallet/marketplace/src/impls.rs: do_cancel_sale, remove_listing")],
  note="inductive: one step from any consistent listing/offer state, all values"),
P("C11", "Held money is fully backed, separate per pallet and returned or spent exactly",
  "Placing a hold takes exactly the amount from the holder's free balance; releasing returns exactly the amount, spending pays exactly the listed payees; neither exceeds the pallet's own hold. The module account always holds at least the sum of all holds of an asset, holds of other pallets, accounts or assets are untouched, no hold is left that the ledger would lose as dust, and failures change nothing.",
  ["inputs", "histories"], "every free and held balance, amount, minimum balance and issuance (up to 2^127), three pallets' holds on one account plus another account's hold, native and other assets",
  W + "amounts; several pallets' holds on one account, amounts at the minimum balance and partial spends are not sampled together.",
  ["pallet/assets-ext/src/lib.rs", "pallet/assets-ext/src/impls.rs"],
  [("holds", "pallet/assets-ext/src/lib.rs: impl Hold for Pallet (place_hold, release_hold, spend_hold)"), ("hold table", "pallet/assets-ext/src/lib.rs: storage Holds")],
  note="inductive: any consistent hold table of the stated size, one call, all values"),
P("C12", "Asset transfers, mints, burns and the gas currency conserve the issuance",
  "Through the asset layer, a (split) transfer moves exactly the amounts from the sender to the payees or fails; a mint or burn changes one balance and the issuance by exactly the amount, only for the asset's issuer or admin and never for the native token; keep-alive never kills the sender. A created asset gets an id never used before, belongs to its creator and starts empty or with exactly the initial supply. Gas-currency withdrawals, refunds and burns keep issuance equal to the sum of balances.",
  ["inputs", "configurations"], "every caller, balance, amount, issuance (up to 2^127), asset id counter, minimum balance; native and other assets; split transfers of up to two parts (three in the thorough tier)",
  W + "amounts; imbalances, minimum balances and overflow are not sampled.",
  ["pallet/assets-ext/src/lib.rs", "pallet/assets-ext/src/impls.rs", "pallet/assets-ext/src/imbalances.rs", "pallet/common/src/utils.rs"],
  [("transfers", "pallet/assets-ext/src/lib.rs: impl Mutate/Transfer/TransferExt for Pallet"), ("gas currency", "pallet/assets-ext/src/impls.rs: AssetCurrency"), ("creation", "pallet/assets-ext/src/lib.rs: create_asset, CreateExt")],
  note="one call over any two-account state, all values"),
P("C13", "The ERC-20 peg mints and burns exactly what crosses the bridge, once",
  "A deposit message from the right contract credits exactly its amount to its beneficiary (minting, or paying ROOT from the peg account), now or once after the configured delay; anything else changes nothing. A withdrawal takes exactly the amount and sends exactly one message with token, amount and beneficiary, now or once after the delay; delayed EVM withdrawals are refused. Delayed payments are made in order when due, never early, twice or lost. Only root administers the peg.",
  ["inputs", "histories", "schedules"], "every message of 0, 31, 95, 96 or 100 bytes from every source, every amount (256-bit), delay, threshold, switch and idle weight",
  W + "delays and weights; the split of due payments by leftover weight and thresholds around the amount have to work for all values.",
  ["pallet/erc20-peg/src/lib.rs", "pallet/erc20-peg/src/types.rs"],
  [("deposits", "pallet/erc20-peg/src/lib.rs: on_event, do_deposit, process_deposit"), ("withdrawals", "pallet/erc20-peg/src/lib.rs: do_withdrawal, process_withdrawal"), ("delays", "pallet/erc20-peg/src/lib.rs: delay_payment, on_initialize, on_idle, claim_delayed_payment")],
  note="one step over any state, plus one delayed payment followed to its end, all values"),
P("C14", "The NFT peg neither loses, duplicates nor steals bridged tokens",
  "A deposit message gives every listed token that does not exist yet to the beneficiary or records it as blocked for exactly that beneficiary, in the collection mapped to its contract (created once if new); existing tokens keep their owners, other messages change nothing and never panic. A withdrawal burns exactly the caller's listed unlocked bridged tokens and sends exactly one message listing them. Blocked tokens can be sent back once, only by their beneficiary.",
  ["inputs", "histories"], "every message with up to 3 contracts and 3 tokens each, truncated messages of arbitrary bytes, every serial (32-bit), every caller, locks, two collections at or near their size limit",
  W + "deposits; several collections of which one is full, duplicates and truncated messages are not sampled.",
  ["pallet/nft-peg/src/lib.rs", "pallet/nft-peg/src/types.rs", "pallet/nft/src/impls.rs"],
  [("deposits", "pallet/nft-peg/src/lib.rs: on_event, decode_deposit_event, do_deposit"), ("withdrawals", "pallet/nft-peg/src/lib.rs: do_withdrawal, do_reclaim_blocked_nfts")],
  note="one message or call over any state of the stated size, all values"),
P("C15", "Every message from Ethereum is acted on once, after its challenge period",
  "Only the relayer submits messages. A message already acted on, pending, or skipped (unless submitted as skipped) is refused; any other is recorded exactly as submitted and due one challenge period later. When its block comes, a message not under challenge is forwarded once with its source, destination and data and can never be submitted again; one under challenge waits another period; one found invalid is not forwarded and can be submitted again. The replay lists stay sorted and bounded and never lose or invent an id.",
  ["inputs", "histories"], "every message id (64-bit), replay list, set of pending, challenged and invalidated claims, challenge period and block",
  W + "message histories; the pruned replay lists have to be right for every order and gap of ids.",
  ["pallet/ethy/src/lib.rs", "pallet/ethy/src/impls.rs"],
  [("submission", "pallet/ethy/src/lib.rs: submit_event, submit_missing_event; impls.rs: do_submit_event, decode_event_data"), ("processing", "pallet/ethy/src/lib.rs: on_initialize"), ("replay lists", "pallet/ethy/src/impls.rs: prune_claim_ids")],
  note="inductive: one step over any consistent state of the stated size, all values"),
P("C16", "A challenged message goes ahead iff the notaries confirm it, and bonds follow",
  "Anyone who can hold the bond may challenge a pending claim once. Votes count only from an active notary, signed by it, once each. The claim goes ahead when the share of confirming votes reaches the threshold and is dropped when it no longer can, at the latest when all have voted; the loser's bond goes to the other side (the challenger's back if there is no relayer), the slashed relayer is removed. A node confirms a message iff Ethereum shows that event, deep enough. Relayer bonds are backed by holds and locked while active.",
  ["inputs", "histories"], "every split of votes, threshold, bond, balance, claim state, receipt content and block depth",
  W + "vote counts; rounding of vote shares and missing relayers are not sampled.",
  ["pallet/ethy/src/lib.rs", "pallet/ethy/src/impls.rs"],
  [("challenge", "pallet/ethy/src/lib.rs: submit_challenge, submit_notarization, validate_unsigned"), ("outcome", "pallet/ethy/src/impls.rs: handle_event_notarization, handle_invalid_claim, handle_valid_claim"), ("node", "pallet/ethy/src/impls.rs: do_event_notarization_ocw, offchain_try_notarize_event"), ("bonds", "pallet/ethy/src/lib.rs: deposit_relayer_bond, withdraw_relayer_bond, set_relayer")],
  note="one step over any state of the stated size, all values"),
P("C17", "Every outgoing bridge message gets one proof request under its own id",
  "Each accepted outgoing message (Ethereum or XRPL) gets the next proof id, used once. Unless the bridge is paused, exactly one signing request for exactly that message, its id and the current validator set is put in the block; while paused the message is kept unchanged and, once the bridge is back, leaves the queue with exactly one such request for the then active set, within the per-block limit. Only root pauses or configures the bridge.",
  ["inputs", "histories"], "every message, proof id, validator set id, pause state, idle weight and per-block limit",
  W + "weights and limits; a message lost or signed twice on the way through the queue shows only for particular ones.",
  ["pallet/ethy/src/lib.rs", "pallet/ethy/src/impls.rs", "pallet/ethy/src/types.rs"],
  [("sending", "pallet/ethy/src/impls.rs: send_event, sign_xrpl_transaction, do_request_event_proof"), ("queue", "pallet/ethy/src/lib.rs: on_idle"), ("content", "pallet/ethy/src/types.rs: EthereumEventInfo::abi_encode, EthySigningRequest")],
  note="one or two steps over any state of the stated size, all values"),
P("C18", "Validator handover: the old set vouches for the new one, which then takes over",
  "Shortly before an era ends (or when it is cut short) the current validators are asked once to sign the next set (addresses in order, next set id) for the bridge contract, and the XRPL signer list if it changes; the bridge pauses. The next validators take over exactly once, when the era ends (or after the delay), as the next set id; the gadget is told the set and its threshold and the bridge resumes, a manual pause aside. In other sessions nothing happens. XRPL signers are the whitelisted active validators, up to the limit.",
  ["histories", "inputs"], "every pair of sets of up to 3 keys in any order, whitelist, set id, proof id, block, session kind and pause state",
  W + "sets; forced eras, unchanged signers and ordering are not sampled together.",
  ["pallet/ethy/src/impls.rs", "pallet/ethy/src/lib.rs"],
  [("announcement", "pallet/ethy/src/impls.rs: handle_authorities_change"), ("takeover", "pallet/ethy/src/impls.rs: do_finalise_authorities_change, on_before_session_ending, on_new_session"), ("XRPL signers", "pallet/ethy/src/impls.rs: update_xrpl_notary_keys, get_xrpl_notary_keys")],
  note="one step over any state of the stated size, all values"),
P("C19", "The eth_call oracle delivers only answers enough notaries agree on",
  "Each request gets a fresh id and is queued exactly as asked. A node answers with what the call returned at the named block if that is recent enough, else at the latest, naming the block; signed by its notary, once. As soon as the share of identical answers reaches the threshold that answer is delivered to the subscriber, once; as soon as no answer can reach it any more the request fails, once; then nothing is left of it. Other requests are unaffected.",
  ["inputs", "histories"], "every split of answers, threshold, block number, timestamp and look-behind window",
  W + "answer counts; splits that cannot reach agreement are not sampled.",
  ["pallet/ethy/src/impls.rs"],
  [("requests", "pallet/ethy/src/impls.rs: checked_eth_call"), ("consensus", "pallet/ethy/src/impls.rs: handle_call_notarization"), ("node", "pallet/ethy/src/impls.rs: do_call_notarization_ocw, offchain_try_eth_call")],
  note="one step over any state of the stated size, all values"),
P("C20", "Every reward of a vortex distribution is minted and paid exactly once",
  "A distribution moves only from enabled to triggered to paying to done, or to disabled, and only root or the admin moves it. Rewards are registered only while it is enabled; the last amount registered for an account counts. Starting it mints exactly the sum of the rewards. Whatever the batches, each listed account is paid its whole reward exactly once by the time the distribution is done, nothing is paid before or after, and other distributions are unaffected.",
  ["inputs", "histories"], "every list of rewards of the stated size, repeated accounts included, every amount, batch size and order of calls",
  W + "lists; an account registered twice, a batch ending exactly at the last account, or two distributions under way are not sampled.",
  ["pallet/vortex-distribution/src/lib.rs"],
  [("registration", "pallet/vortex-distribution/src/lib.rs: register_rewards, do_start_vtx_dist"), ("payments", "pallet/vortex-distribution/src/lib.rs: pay_unsigned"), ("node", "pallet/vortex-distribution/src/lib.rs: vtx_dist_offchain_worker, validate_unsigned")],
  note="whole histories of a distribution with up to 3 (thorough 4) rewards, all amounts"),
P("C21", "Redeeming vortex burns it for exactly its share of the vault",
  "Once a distribution is done, whoever holds vortex can redeem any positive amount of it: exactly that amount is burnt, and of each asset listed for the distribution the vault pays the share that amount is of the total vortex, rounded down. Nothing else moves. Triggering a distribution moves the whole fee pot of each listed asset and the native root pot into the vault, and nothing else.",
  ["inputs", "configurations"], "every amount, balance, issuance (full 128-bit range) and list of assets of the stated size",
  W + "small amounts; products beyond 128 bits and rounding need all values.",
  ["pallet/vortex-distribution/src/lib.rs"],
  [("redemption", "pallet/vortex-distribution/src/lib.rs: redeem_tokens_from_vault"), ("sweep", "pallet/vortex-distribution/src/lib.rs: do_vtx_distribution_trigger")],
  note="one call, all values"),
P("C22", "A crowdsale keeps its collection and funds in its own vault until it ends",
  "Opening a sale takes an unminted, capped collection of the caller, not open for public minting, into a vault of that sale's own, with exactly one voucher per token of the cap. Only the admin enables it, once; it ends by itself when its positive duration is over. Until then anyone can pay in; each payment goes to the vault and is recorded in full. At the end the admin gets exactly the funds raised and the vouchers they do not pay for at the soft-cap price, and the rest is handed out, at once or when someone restarts it. The vault acts otherwise only through permitted calls of the admin.",
  ["inputs", "histories"], "every price, duration, cap, payment, caller, sale state and number of sales ending or being distributed at the same time within the bounds",
  W + "sales; durations of zero, sales ending together, full queues and foreign callers are not sampled.",
  ["pallet/crowdsale/src/lib.rs", "pallet/crowdsale/src/impls.rs"],
  [("opening", "pallet/crowdsale/src/lib.rs: initialize, enable; impls.rs: create_voucher_asset, vault_account"), ("payments", "pallet/crowdsale/src/lib.rs: participate"), ("end", "pallet/crowdsale/src/impls.rs: close_sales_at; lib.rs: try_force_distribution"), ("vault", "pallet/crowdsale/src/lib.rs: proxy_vault_call")],
  note="one step over any state of the stated size, all values"),
P("C23", "Crowdsale participants get their full share of vouchers once, one per token",
  "Once a sale has ended each participant gets, once, by claiming or in a round of distribution: its payment divided by the soft-cap price in vouchers, or if more was raised than the cap costs, its share of all vouchers in proportion to its payment, rounded down to a millionth. The vault always reaches for everyone; what is left with the last participant goes to the admin and the sale is over. A whole voucher buys exactly one token of the collection, minted to its holder, and is burnt.",
  ["inputs", "histories", "schedules"], "every payment, price, cap, order of claims and rounds, and batch size within the bounds",
  W + "amounts; rounding, oversubscription and claims between rounds need all values.",
  ["pallet/crowdsale/src/lib.rs", "pallet/crowdsale/src/impls.rs"],
  [("shares", "pallet/crowdsale/src/impls.rs: calculate_voucher_rewards, transfer_user_vouchers"), ("distribution", "pallet/crowdsale/src/lib.rs: distribute_crowdsale_rewards, claim_voucher"), ("redemption", "pallet/crowdsale/src/lib.rs: redeem_voucher")],
  note="one step over any state and whole distributions of the stated size, all values"),
P("C24", "Only its owner controls a futurepass, and its delegates act only as allowed",
  "An account owns at most one futurepass, each with an address of its own, and its owner is always exactly one of its delegates. Another delegate is added only by the owner or the futurepass itself, with that delegate's own unexpired signature over these very terms; owner, futurepass and the delegate can always end it. Only the owner or the futurepass hands it over; then nobody but the new owner may act for it. Only delegates act through it, only with permitted calls, and only the owner manages the futurepass through itself. Other futurepasses are unaffected.",
  ["inputs", "histories"], "every caller, delegate set of the stated size, signature, deadline, kind and nested call",
  W + "callers and signatures; expired, replayed or altered consents and calls nested in a proxied call are not sampled together.",
  ["pallet/futurepass/src/lib.rs"],
  [("delegates", "pallet/futurepass/src/lib.rs: register_delegate_with_signature, do_register_delegate, generate_add_delegate_eth_signed_message, unregister_delegate"), ("ownership", "pallet/futurepass/src/lib.rs: create, do_create_futurepass, transfer_futurepass"), ("acting", "pallet/futurepass/src/lib.rs: proxy_extrinsic, do_proxy_extrinsic")],
  note="one step over any state of the stated size, all values"),
P("C25", "Maintenance mode stops exactly what governance blocks, never the vital calls",
  "Only governance blocks or unblocks. A blocked call, a call of a blocked pallet, a transaction of a blocked account, and during maintenance mode any transaction is refused, in the pool and in the block alike, whatever the spelling of the names; everything else passes, and lifting a block lifts exactly that block. The pallets needed to recover (sudo, timestamp, im-online, ethy, maintenance mode itself) cannot be blocked and always pass. EVM calls and contract creation follow the same rules, plus blocked contract addresses.",
  ["inputs", "configurations"], "every name within the bounds in every spelling, account, address and combination of blocks",
  W + "names; other spellings, names cut to the limit, and two blocks in place at once are not sampled.",
  ["pallet/maintenance-mode/src/lib.rs"],
  [("blocking", "pallet/maintenance-mode/src/lib.rs: block_pallet, block_call, block_account, block_evm_target, enable_maintenance_mode"), ("checking", "pallet/maintenance-mode/src/lib.rs: MaintenanceChecker (SignedExtension, MaintenanceCheck, MaintenanceCheckEVM)")],
  note="one step over any state of the stated size, all values"),
P("C26", "An XRPL deposit is paid out exactly once, after its challenge period",
  "Only an active relayer relays XRPL transactions, each at most once, only for supported currencies, and never one from a ledger before the submission window. A relayed transaction that nobody has challenged is executed exactly once, in the block in which its challenge period is over: its receiver gets exactly the deposit, minted, or for ROOT released by the bridge. Nothing is executed earlier, later, challenged or unknown. Settled transactions are forgotten only once their ledger can no longer be relayed, so none can be replayed. Only governance configures the bridge.",
  ["inputs", "histories"], "every relayed transaction, ledger index, window, block, set of challenges and failing payment within the bounds",
  W + "transactions; relaying at the edge of the window, pruning under limited weight and failing deposits in the middle of a block are not sampled together.",
  ["pallet/xrpl-bridge/src/lib.rs"],
  [("relaying", "pallet/xrpl-bridge/src/lib.rs: submit_transaction, add_to_relay, submit_challenge"), ("execution", "pallet/xrpl-bridge/src/lib.rs: process_xrp_tx, process_asset_deposit"), ("pruning", "pallet/xrpl-bridge/src/lib.rs: clear_storages, prune_settled_ledger_index, reset_settled_xrpl_tx_data")],
  note="one step over any state of the stated size, all values"),
P("C27", "An XRPL withdrawal pays out exactly what it takes, with its own ticket",
  "A withdrawal burns exactly the amount XRPL will pay out (for ROOT: keeps it in the bridge) and the door's fee in XRP, and asks for exactly one signed payment of that amount, in the asset's currency, to the given address and tag. An asset's amount is cut to what XRPL can represent, by less than one token. A withdrawal at or above the asset's threshold is signed only after the delay, exactly as it was made, once, in order; none is lost. A refused one changes nothing. Assets and currencies map one to one, as governance sets them.",
  ["inputs", "histories"], "every amount, fee, balance, number of decimals within the bounds, threshold, delay, block weight and mapping",
  W + "amounts; amounts beyond 64 bits, mantissa rounding, full delay queues and re-mapped currencies are not sampled.",
  ["pallet/xrpl-bridge/src/lib.rs", "pallet/xrpl-bridge/src/types.rs"],
  [("withdrawal", "pallet/xrpl-bridge/src/lib.rs: add_to_withdraw, process_xrp_withdrawal, process_root_withdrawal, process_asset_withdrawal"), ("amounts", "pallet/xrpl-bridge/src/lib.rs: saturate_balance, balance_to_mantissa_exponent, serialize_asset_tx"), ("delay", "pallet/xrpl-bridge/src/lib.rs: delay_payment, process_delayed_payments"), ("currencies", "pallet/xrpl-bridge/src/lib.rs: set_xrpl_asset_map")],
  note="one step over any state of the stated size, all values"),
P("C28", "No XRPL ticket is used twice and each door signs only what it was asked",
  "Every message to XRPL carries a ticket sequence number of its door that was not used before, from the bucket allocated to it; when a bucket is used up the next allocation takes over. Only relayers allocate next buckets and only governance resets the current one, never backwards. The doors are independent. NFT offers are accepted only for relayers, NFTs are offered only for tokens their owner burns here, and a change of notaries asks both doors for exactly the new signer list.",
  ["inputs", "histories"], "every ticket sequence, bucket, allocation, door, fee, token and caller",
  W + "sequences; overlapping or exhausted buckets and 32-bit limits are not sampled.",
  ["pallet/xrpl-bridge/src/lib.rs"],
  [("tickets", "pallet/xrpl-bridge/src/lib.rs: get_door_ticket_sequence, set_ticket_sequence_next_allocation, set_ticket_sequence_current_allocation"), ("signers", "pallet/xrpl-bridge/src/lib.rs: submit_signer_list_set_request"), ("nfts", "pallet/xrpl-bridge/src/lib.rs: generate_nft_accept_offer, withdraw_nft, do_nft_withdrawal")],
  note="one step over any state, all values"),
P("C29", "An ERC-20 precompile is the asset itself",
  "Every existing asset, and nothing else, answers at its own address as an ERC-20 token: supply, balances, allowances and metadata are those of the asset. transfer moves exactly the amount from the caller to the receiver, or reverts and changes nothing; approve sets exactly the allowance; transferFrom moves exactly the amount and takes it from the allowance the owner gave this caller, and reverts without one. Each success is one Transfer or Approval event with the real values. Nothing changes in a static call, no call takes value, and no input, however malformed, makes the chain panic.",
  ["inputs"], "every caller, receiver, amount of 256 bits, balance, allowance, address and malformed input within the bounds",
  W + "calls; amounts beyond 128 bits, unlimited approvals, self-transfers and truncated input are not sampled together.",
  ["evm-precompiles/erc20/src/lib.rs", "evm-precompiles/utils/src"],
  [("interface", "evm-precompiles/erc20/src/lib.rs: Erc20PrecompileSet::execute, is_precompile"), ("transfer", "evm-precompiles/erc20/src/lib.rs: transfer, transfer_from, approve"), ("arguments", "evm-precompiles/utils/src/data.rs: EvmDataReader"), ("modifiers", "evm-precompiles/utils/src/modifier.rs: check_function_modifier")],
  note="one call over any state of the stated size, all values"),
P("C30", "An ERC-721 precompile is the NFT collection itself",
  "Every existing NFT collection, and nothing else, answers at its own address as an ERC-721 contract: owners, balances, approvals, supply and owned tokens are those of the collection. A token moves only when its owner, the account approved for it or an operator of its owner asks, only from its owner, only that token, and never while locked; a contract receives a safe transfer only if it is asked with operator, sender, token and data and answers with the selector, and what it changes while asked counts. Approvals end with the transfer. Minting, burning and the owner's functions do what the same extrinsics do, for the caller. Each success emits its event with the real values; nothing changes in a static call; no call takes value; no input makes the chain panic.",
  ["inputs", "histories"], "every caller, token id of 256 bits, approval state, lock, receiver answer and malformed input within the bounds",
  W + "calls; a receiver that answers too little or changes the approval in between, ids above 2^32 and static calls to each function are not sampled.",
  ["evm-precompiles/erc721/src/lib.rs", "evm-precompiles/utils/src"],
  [("interface", "evm-precompiles/erc721/src/lib.rs: Erc721PrecompileSet::execute, is_precompile"), ("transfers", "evm-precompiles/erc721/src/lib.rs: transfer_from, do_safe_transfer"), ("approvals", "evm-precompiles/erc721/src/lib.rs: approve, set_approval_for_all"), ("owner's functions", "evm-precompiles/erc721/src/lib.rs: mint, burn, set_max_supply, set_base_uri, transfer_ownership, renounce_ownership")],
  note="one call over any state of the stated size, all values"),
P("C31", "An ERC-1155 precompile is the SFT collection itself",
  "Every existing SFT collection, and nothing else, answers at its own address as an ERC-1155 contract: balances, supplies, existence and approvals are those of the collection. Single and batch transfers and burns move exactly the amounts of the ids, from a holder who made the call or approved the caller, or change nothing; lists of different length are refused. A contract receives tokens only if it is asked with the function of the standard (single or batch), the operator, sender, ids, amounts and data, and answers with that function's selector. Creation, minting and the owner's functions do what the same extrinsics do, for the caller. Each success emits its event; nothing changes in a static call; no call takes value; no input makes the chain panic.",
  ["inputs", "histories"], "every caller, id and amount of 256 bits, balances, approval state, receiver answer and malformed input within the bounds",
  W + "calls; repeated ids in a batch, amounts above 2^128, short receiver answers and static calls to each function are not sampled.",
  ["evm-precompiles/erc1155/src/lib.rs", "evm-precompiles/utils/src"],
  [("interface", "evm-precompiles/erc1155/src/lib.rs: Erc1155PrecompileSet::execute, is_precompile"), ("transfers", "evm-precompiles/erc1155/src/lib.rs: safe_transfer_from, safe_batch_transfer_from, do_safe_transfer"), ("acceptance", "evm-precompiles/erc1155/src/lib.rs: do_safe_transfer_acceptance_check, do_batch_safe_transfer_acceptance_check"), ("owner's functions", "evm-precompiles/erc1155/src/lib.rs: create_token, mint, mint_batch, set_max_supply, set_base_uri")],
  note="one call over any state of the stated size, all values"),
P("C32", "The marketplace precompile does exactly what the extrinsics do",
  "Registering a marketplace, selling, auctioning, changing the price, buying, bidding, cancelling, offering, accepting and cancelling offers through the marketplace precompile succeed exactly when the same extrinsic signed by the caller would, with the same terms, and leave exactly the same state. Marketplace id 0 means none; numbers that the chain cannot represent, addresses that name no collection or asset, lists of different length and too many tokens are refused instead of being turned into something else. Each success emits one event with the real parties, ids, prices and marketplace, and answers the new id; the views answer what is listed and offered; nothing changes in a static call; no call takes value; no input makes the chain panic.",
  ["inputs", "histories"], "every caller, argument of 256 bits, address, listing, bid, offer and balance within the bounds",
  W + "calls; the whole storage left by precompile and extrinsic is compared for all argument values at once.",
  ["evm-precompiles/marketplace/src/lib.rs", "evm-precompiles/utils/src", "pallet/marketplace/src"],
  [("interface", "evm-precompiles/marketplace/src/lib.rs: MarketplacePrecompile::execute"), ("sales", "evm-precompiles/marketplace/src/lib.rs: sell_nft, sell_sft, update_fixed_price, buy, cancel_sale"), ("auctions", "evm-precompiles/marketplace/src/lib.rs: auction_nft_with_marketplace_id, auction_sft_with_marketplace_id, bid"), ("offers", "evm-precompiles/marketplace/src/lib.rs: make_simple_offer_with_marketplace_id, accept_offer, cancel_offer")],
  note="one call over any state of the stated size, all values, compared with the extrinsic"),
P("C33", "The DEX precompile does exactly what the extrinsics do",
  "Every function of the DEX precompile leaves the pools, balances and liquidity tokens exactly as the same extrinsic of the caller would, succeeds exactly if that would, and answers with the amounts really moved; functions for the gas token move the value sent with the call and pass on or return exactly what the extrinsic would, and refuse a path without the gas token at its end. Events carry the real amounts; quotes are those of the pallet. Numbers out of range are refused, never cut. Nothing changes in a static call; only the payable functions take value, and take it once; no input makes the chain panic.",
  ["inputs", "histories"], "every caller, path, amount and limit of 256 bits, balances and malformed input within the bounds",
  W + "calls; amounts above 2^128, paths without the gas token, and values sent with a call are not sampled together.",
  ["evm-precompiles/dex/src/lib.rs", "evm-precompiles/utils/src"],
  [("liquidity", "evm-precompiles/dex/src/lib.rs: add_liquidity, add_liquidity_eth, remove_liquidity"), ("swaps", "evm-precompiles/dex/src/lib.rs: swap_exact_tokens_for_tokens, swap_tokens_for_exact_tokens, swap_exact_eth_for_tokens, swap_exact_tokens_for_eth"), ("quotes", "evm-precompiles/dex/src/lib.rs: quote, get_amount_in, get_amount_out, get_amounts_in, get_amounts_out")],
  note="one call over any state of the stated size, all values"),
P("C34", "The collection and peg precompiles do exactly what the extrinsics do",
  "initializeCollection of the NFT and SFT precompiles creates exactly the collection the same extrinsic would, with the owner, names, supply, royalties and metadata path named, and answers with its address and id; the peg precompile withdraws exactly the assets and NFTs the same extrinsics would, from the caller to the Ethereum address named, in the collections and with the serial numbers named. Each succeeds exactly if the extrinsic would and every value is in range (never cut), and emits its event; refusal changes nothing; no static call changes anything; no input makes the chain panic.",
  ["inputs"], "every caller, owner, number of 256 bits, royalty, list and malformed input within the bounds",
  W + "calls; serial numbers above 2^32, lists of unequal length, several collections and names that are not text are not sampled.",
  ["evm-precompiles/nft/src/lib.rs", "evm-precompiles/sft/src/lib.rs", "evm-precompiles/peg/src/lib.rs", "evm-precompiles/utils/src"],
  [("collections", "evm-precompiles/nft/src/lib.rs, evm-precompiles/sft/src/lib.rs: initialize_collection"), ("withdrawals", "evm-precompiles/peg/src/lib.rs: erc20_withdraw, erc721_withdraw")],
  note="one call over any state of the stated size, all values"),
P("C35", "A futurepass contract acts only for its owner and delegates",
  "The registrar creates one futurepass for the account named and answers with the futurepass of any account. At a futurepass's own address: only its owner hands over or gives up ownership, of this futurepass alone, and registers delegates, each with his own signature that has not expired; a delegate is removed by the owner or himself. proxyCall runs exactly the call named (CALL, STATICCALL, DELEGATECALL refused, CREATE, CREATE2), from the futurepass, with the data sent and the value sent through it, only for the owner or a delegate, never a precompile or function that is not allowed, and charges the gas used. Whatever is refused changes nothing; no static call changes anything; no function but proxyCall and payments takes value; no input makes the chain panic.",
  ["inputs", "histories"], "every caller, futurepass, delegate, call type, target, value, data, gas, signature and deadline within the bounds",
  W + "calls; a caller who is the owner of another futurepass, data shorter than a selector, values sent to functions that take none and static calls are not sampled together.",
  ["evm-precompiles/futurepass/src/lib.rs", "evm-precompiles/futurepass-registrar/src/lib.rs", "pallet/futurepass/src/lib.rs"],
  [("ownership", "evm-precompiles/futurepass/src/lib.rs: transfer_futurepass, renounce_ownership"), ("delegates", "evm-precompiles/futurepass/src/lib.rs: register_delegate_with_signature, unregister_delegate"), ("calls", "evm-precompiles/futurepass/src/lib.rs: proxy_call, do_proxy_call"), ("registrar", "evm-precompiles/futurepass-registrar/src/lib.rs: create_futurepass, futurepass_of")],
  note="one call over any state of the stated size, all values"),
P("C36", "A fee paid in another asset is swapped for and charged exactly once",
  "A transaction with fee preferences swaps, before it runs, exactly the fee it may cost (with the EVM fee of the call inside, and the minimum balance if the payer holds no gas token) out of the asset named, for at most the maximum named, by the account that pays: the futurepass if the call goes through it and the sender is its delegate, else the sender; then the ordinary charge is made once, on that account. If either fails nothing is left. The call inside runs once, as its sender; the gas token and nesting are refused. An EVM call through the fee proxy swaps the most it may cost, rounded up to the gas token's unit, and runs the target, input and value named; only the fee proxy's functions and token addresses are understood; blocked accounts and targets stay blocked. Fees too large are refused, never cut and never a panic; fees change by governance only.",
  ["inputs"], "every shape of call, fee, tip, limit, fee cap, balance and malformed input within the bounds",
  W + "transactions; a delegate's call through a futurepass with an EVM call inside, fee caps beyond 128 bits and blocked targets behind the fee proxy are not sampled.",
  ["pallet/fee-proxy/src/impls.rs", "pallet/fee-proxy/src/runner.rs", "pallet/fee-proxy/src/lib.rs", "pallet/fee-control/src/lib.rs", "pallet/common/src/utils.rs"],
  [("charging", "pallet/fee-proxy/src/impls.rs: withdraw_fee, correct_and_deposit_fee"), ("EVM", "pallet/fee-proxy/src/runner.rs: call, create, create2, decode_input, calculate_total_gas, get_fee_preferences_data"), ("call", "pallet/fee-proxy/src/lib.rs: call_with_fee_preferences"), ("fees", "pallet/fee-control/src/lib.rs: set_evm_base_fee, set_weight_multiplier, set_length_multiplier, weight_to_fee, length_to_fee")],
  note="one transaction over any state of the stated size, all values"),
P("C37", "EVM fees and transfers move XRP exactly, rounded to a drop, none lost",
  "The EVM sees a balance as its XRP in wei. A transfer or withdrawal moves the wei amount rounded up to a drop, zero moves nothing and always works, and one that is covered is not refused. A transaction's fee is taken up front from the account that acts for the sender, rounded up to a drop; what was not used goes back to it, within one drop; of the rest the fee pot receives the base fee rounded up (at most all) and counts it to the era, and the block's author the remainder. All of it moves XRP and never creates or destroys any. A transaction must be covered by its sender unless it pays through the fee proxy. Weight costs its share, rounded, and real work is never free.",
  ["inputs"], "every wei amount, fee, corrected fee, base fee and balance within the bounds, accounts existing or not",
  W + "wei to drops on seven amounts; refunds to emptied accounts, tips, amounts that are not whole drops and accounts that do not exist are not sampled.",
  ["runtime/src/impls.rs", "pallet/tx-fee-pot/src/lib.rs", "pallet/assets-ext/src/impls.rs", "pallet/common/src/utils.rs"],
  [("scaling", "runtime/src/impls.rs: EvmCurrencyScaler, scale_wei_to_6dp, scale_6dp_to_wei"), ("fees", "runtime/src/impls.rs: FutureverseEVMCurrencyAdapter"), ("pot", "pallet/tx-fee-pot/src/lib.rs: on_nonzero_unbalanced, accrue_era_tx_fees"), ("weight", "runtime/src/impls.rs: PercentageOfWeight"), ("cover", "runtime/src/impls.rs: HandleTxValidation")],
  note="one operation over any state of the stated size, all values"),
P("C38", "Tokens, accounts and bridge events map one to one to where they belong",
  "Every token has exactly one EVM address and that address leads back to it and to nothing else; a new token's address gets code and no other does. An EVM address acts as its default futurepass if it has one, else as itself; a holder leads to the futurepass it holds and a futurepass to its owner or to nobody. A block is credited to the validator its slot belongs to. Only its own signed account acts for an EVM address. A bridge event reaches the one pallet it is addressed to, unaltered, if it comes from that pallet's contract, and otherwise nobody; the outcome is passed on. A session is the last of its era when the era's sessions are up or a new era is forced.",
  ["inputs"], "every id, prefix, address, author index, era and session, and every source and destination of an event",
  W + "nothing of this mapping: aliases of a token's address, holders without futurepass and sessions at the end of an era are not sampled.",
  ["runtime/src/impls.rs", "pallet/common/src/lib.rs"],
  [("tokens", "runtime/src/impls.rs: ErcIdConversion, OnNewAssetSubscription"), ("accounts", "runtime/src/impls.rs: AddressMapping, FuturepassLookup, DoughnutFuturepassLookup, EthereumFindAuthor, FutureverseEnsureAddressSame"), ("events", "runtime/src/impls.rs: EthereumEventRouter; pallet/common/src/lib.rs: process_event"), ("sessions", "runtime/src/impls.rs: StakingSessionTracker")],
  note="all values within the bounds"),
P("C39", "Delegates, doughnuts and vaults do exactly what they were allowed",
  "Only a futurepass's owner, and no delegate, changes through it who controls it, by extrinsic or by an EVM call to a futurepass (also behind the fee proxy); any other call is made by owners and full delegates and by nobody else; a kind of proxy that contains another allows all it does. Who adds a delegate pays exactly his deposit (and the minimum balance if the futurepass has none), a removed delegate's deposit is paid out, the futurepass's own money stays. A proxied call is made by the caller for the futurepass. A doughnut's call is made only if its topping agrees to exactly that call with its real arguments, however it is wrapped; a crowdsale's vault makes the listed calls only; an XRPL transaction goes through no futurepass; paused and switched-off calls are refused everywhere.",
  ["inputs"], "every kind of proxy, call, wrapping, amount, address, balance and topping within the bounds",
  W + "none of the runtime's filters; delegates' EVM calls to the futurepass, amounts beyond 64 bits in a doughnut's call and nested calls are not sampled.",
  ["runtime/src/impls.rs", "runtime/src/lib.rs"],
  [("filters", "runtime/src/impls.rs: ProxyType (filter, is_superset, is_evm_proxy_call_allowed)"), ("deposits", "runtime/src/impls.rs: ProxyPalletProvider"), ("doughnuts", "runtime/src/impls.rs: DoughnutCallValidator, DoughnutFuturepassLookup"), ("validators", "runtime/src/impls.rs: CrowdsaleProxyVaultValidator, FuturepassCallValidator, MaintenanceModeCallValidator"), ("switched off", "runtime/src/lib.rs: CallFilter")],
  note="all values within the bounds"),
P("C40", "NFI data is asked for by owners, paid in full and set by the relayer alone",
  "Only governance sets the NFI relayer, the fee (never zero) and who gets the network's share; only a collection's owner enables NFI for it. Data of a token of this chain is requested only while NFI is enabled for its collection, by the token's or the collection's owner, and of an existing token; each request and each mint in such a collection costs the fee per token, the network's share of it going to its receiver and the rest to the fee's receiver, nothing lost. Only the relayer sets data, here only of existing tokens with NFI enabled, and only that token's. A burnt token's data goes and nobody else's.",
  ["inputs"], "every token id of every chain and format, fee, balance, serial and caller within the bounds",
  W + "a token or two of one collection; fees that do not divide evenly, ids of other chains, SFT serials and burns beside other chains' data are not sampled.",
  ["pallet/nfi/src/lib.rs", "pallet/nft/src/lib.rs", "pallet/nft/src/impls.rs", "pallet/sft/src/impls.rs"],
  [("calls", "pallet/nfi/src/lib.rs: set_relayer, set_fee_to, set_fee_details, enable_nfi_for_trn_collection, manual_data_request, submit_nfi_data"), ("fees", "pallet/nfi/src/lib.rs: pay_mint_fee, NFIRequest::request"), ("burns", "pallet/nfi/src/lib.rs: NFIRequest::on_burn")],
  note="one operation over any state of the stated size, all values"),
P("C41", "XLS-20: each token has one XRPL twin, named once, and the exact fee is paid",
  "Only governance sets the relayer, the fee and which TRN collection belongs to an XRPL issuer and taxon. A collection becomes compatible only by its owner and before its first token. Each token minted in a compatible collection, or asked for again by its owner while it has no XLS-20 token, costs exactly the fee, paid to the relayer. Only the relayer names a token's XLS-20 token, for existing tokens, once and for ever. A token that arrives from XRPL goes to its receiver under its own sequence number and keeps its identity; tokens share a collection exactly if issuer and unscrambled taxon agree, a new one being created for the bridge; a token its issuer can burn is refused.",
  ["inputs"], "every token id, serial, fee, balance and caller within the bounds",
  W + "a few ids and small fees; fees beyond 32 bits, repeated serials in one call, taxon scrambling of all sequences are not sampled.",
  ["pallet/xls20/src/lib.rs", "pallet/xls20/src/types.rs", "pallet/nft/src/impls.rs"],
  [("calls", "pallet/xls20/src/lib.rs: set_relayer, set_xls20_fee, enable_xls20_compatibility, re_request_xls20_mint, fulfill_xls20_mint, set_collection_mappings"), ("fees", "pallet/xls20/src/lib.rs: pay_xls20_fee, request_xls20_mint"), ("deposits", "pallet/xls20/src/lib.rs: deposit_xls20_token; types.rs: From<Xls20TokenId>")],
  note="one operation over any state of the stated size, all values"),
P("C42", "A doughnut acts only for its issuer, once per signature, until it is revoked",
  "A doughnut's transaction is its holder's: it is accepted only if the doughnut is well formed, signed by its issuer and within its time, and the holder signed exactly this call, doughnut, nonce, chain and tip. It is applied in the order of the holder's nonces, on this chain, and never twice; the fee and tip are paid once by the payer the doughnut names (his futurepass for a futurepass call) and by nobody else. The call is made once, as the issuer, and only while the holder is listed, neither the doughnut nor the holder is revoked by the issuer, and the topping allows it. Only its issuer revokes a doughnut, only the account itself its holders, only governance lists holders.",
  ["inputs", "histories"], "every doughnut, signature, nonce, tip, balance and state within the bounds",
  W + "one doughnut of one pair of keys; signatures over another nonce or tip, payers with a futurepass, revocations of others and second applications are not sampled.",
  ["pallet/doughnut/src/lib.rs", "primitives/src/signature.rs"],
  [("signature", "pallet/doughnut/src/lib.rs: check_self_contained"), ("fees and nonces", "pallet/doughnut/src/lib.rs: validate_self_contained, apply_self_contained, validate_params"), ("the call", "pallet/doughnut/src/lib.rs: transact"), ("revocation", "pallet/doughnut/src/lib.rs: revoke_doughnut, revoke_holder, update_whitelisted_holders")],
  note="one transaction (twice applied) over any state of the stated size, all values"),
P("C43", "A storage migration converts each item once and never overruns its block",
  "A migration that an upgrade of the runtime starts begins with the first item and, block after block, converts every item exactly once, in order, until it is complete; then the status says so and nothing is left of its progress. An upgrade never starts a running migration over. A block takes steps only while the migration is in progress, enabled and due, at most as many as the limit, and never uses more weight than the block has left or than the pallet may use. While it is in progress, and only then, other pallets are told to wait. Only governance pauses it or sets its pace, and never to zero.",
  ["inputs", "histories"], "every progress, pace, block number, weight and order of upgrades within the bounds",
  W + "one map with plenty of weight; scarce weight, two-dimensional limits, left-over keys and upgrades in the middle of a migration are not sampled.",
  ["pallet/migration/src/lib.rs", "primitives/src/migration.rs"],
  [("steps", "pallet/migration/src/lib.rs: migrate, complete_migration"), ("upgrades", "pallet/migration/src/lib.rs: on_runtime_upgrade, ensure_migrated"), ("pace", "pallet/migration/src/lib.rs: enable_migration, set_block_delay, set_block_limit")],
  note="one block over any state of the stated size, all values"),
P("C44", "An XRPL wallet's transaction does exactly what it signed, once",
  "A transaction of the XRP Ledger makes a call here only if its memo names this chain, a last block that has not passed, a nonce, a tip and the hash of exactly this call, and the wallet's key, of either kind, signed exactly these bytes. It is the account of that key, or its futurepass for a futurepass call, that it comes from and that pays the fee and tip, once; nobody else pays. It is applied in the order of the account's nonces and never twice, and then the call is made once, as that account, unless calls of its kind are forbidden; no XRPL transaction makes another. Messages that are no such transactions are refused: nothing is charged, nothing is called and nothing panics.",
  ["inputs", "histories"], "every transaction, signature, nonce, tip, balance and state within the bounds",
  W + "a few captured transactions; signatures over another nonce, tip, call or genesis, second applications, futurepass holders who cannot pay and malformed keys and memos are not sampled.",
  ["pallet/xrpl/src/lib.rs", "pallet/xrpl/src/types.rs", "primitives/src/signature.rs"],
  [("signature and memo", "pallet/xrpl/src/types.rs: XRPLTransaction::get_public_key, get_account, get_extrinsic_data, verify_transaction, encode_for_signing"), ("validation", "pallet/xrpl/src/lib.rs: check_self_contained, validate_self_contained, validate_params"), ("application", "pallet/xrpl/src/lib.rs: apply_self_contained, transact")],
  note="one transaction (twice applied) over any state of the stated size, all values"),
]
