exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
D = "pallet/dex/src/lib.rs"
B("dex-reserve-sync", "C01", ["pallet-dex"], "tokens of the output side sent to the pool account before a swap of the first pair token",
  "after a swap the recorded reserves differ from what the pool account holds",
  [(D, "\t\t\t\t\t*reserve_0 = balance_0;\n\t\t\t\t\t*reserve_1 = balance_1;\n\t\t\t\t\tOk(())\n\t\t\t\t},\n\t\t\t);", "\t\t\t\t\t*reserve_0 = balance_0;\n\t\t\t\t\t*reserve_1 = if input == trading_pair.0 { reserve_1.saturating_sub(amount_1_out) } else { balance_1 };\n\t\t\t\t\tOk(())\n\t\t\t\t},\n\t\t\t);")],
  DEX + """pub fn demo() {
	let p = pool(A, B, LP, 1_000_000, 1_000_000);
	Ledger::set(B, &p, 1_000_500);
	Ledger::set(A, &acc(0), 5000);
	Pallet::<T>::swap_with_exact_supply(signed!(acc(0)), 1000, 1, vec![A, B], None, None).ok().unwrap();
	let r = LiquidityPool::<T>::get(TradingPair::new(A, B));
	assert_eq!(r, (Ledger::bal(A, &p), Ledger::bal(B, &p)));
}
""")
B("dex-min-multihop", "C01", ["pallet-dex"], "a trade over two pools",
  "a swap delivers less than the trader's stated minimum",
  [(D, "ensure!(amounts[amounts.len() - 1] >= min_amount_out", "ensure!(amounts[1] >= min_amount_out")],
  DEX + """pub fn demo() {
	pool(A, B, LP, 1_000_000, 1_000_000);
	pool(B, C, LP + 1, 1_000_000, 1_000);
	Ledger::set(A, &acc(0), 50_000);
	let r = with_layer(|| Pallet::<T>::swap_with_exact_supply(signed!(acc(0)), 10_000, 9_000, vec![A, B, C], None, None).map(|_| ()).map_err(|e| e.error));
	assert!(r.is_err() || Ledger::bal(C, &acc(0)) >= 9_000);
}
""")
B("dex-min-swapped", "C02", ["pallet-dex"], "liquidity added with the pair's tokens in descending order",
  "an added amount lies below its stated minimum",
  [(D, "\t\t\t\tU256::from(amount_b_desired),\n\t\t\t\tU256::from(amount_a_desired),\n\t\t\t\tU256::from(amount_b_min),\n\t\t\t\tU256::from(amount_a_min),\n", "\t\t\t\tU256::from(amount_b_desired),\n\t\t\t\tU256::from(amount_a_desired),\n\t\t\t\tU256::from(amount_a_min),\n\t\t\t\tU256::from(amount_b_min),\n")],
  DEX + """pub fn demo() {
	let p = pool(A, B, LP, 1_000_000, 2_000_000);
	for x in [A, B] { Ledger::set(x, &acc(0), 1_000_000); }
	// B first: at most 1000 B and 1000 A, at least 900 A
	let r = with_layer(|| Pallet::<T>::add_liquidity(signed!(acc(0)), B, A, 1000, 1000, 1, 900, None, None).map(|_| ()).map_err(|e| e.error));
	assert!(r.is_err() || Ledger::bal(A, &acc(0)) <= 1_000_000 - 900);
}
""")
B("dex-one-leg", "C02", ["pallet-dex"], "a donation to the pool before the next provision", "new liquidity is credited for a donation and dilutes the others",
  [(D, "\t\t\tmin(\n\t\t\t\tU256::from(amount_0).mul(total_supply)?.div(U256::from(reserve_a))?,\n\t\t\t\tU256::from(amount_1).mul(total_supply)?.div(U256::from(reserve_b))?,\n\t\t\t)\n", "\t\t\tsp_std::cmp::max(\n\t\t\t\tU256::from(amount_0).mul(total_supply)?.div(U256::from(reserve_a))?,\n\t\t\t\tU256::from(amount_1).mul(total_supply)?.div(U256::from(reserve_b))?,\n\t\t\t)\n")],
  DEX + """pub fn demo() {
	let p = pool(A, B, LP, 1_000_000, 1_000_000);
	Ledger::create(LP, 1_000_000);
	Ledger::set(A, &p, 2_000_000);
	for x in [A, B] { Ledger::set(x, &acc(0), 1_000_000); }
	let _ = with_layer(|| Pallet::<T>::add_liquidity(signed!(acc(0)), A, B, 1000, 1000, 0, 0, None, None).map(|_| ()).map_err(|e| e.error));
	// reserves of B behind one liquidity token never drop
	assert!(Ledger::bal(B, &p) >= Ledger::supply(LP));
}
""")
I = "pallet/nft/src/impls.rs"; Ty = "pallet/nft/src/types.rs"
B("nft-lock-first", "C03", ["pallet-nft"], "a transfer of several tokens with a locked one that is not the first", "a locked token moves",
  [(I, "\t\t\t\tensure!(\n\t\t\t\t\t!<TokenLocks<T>>::contains_key((collection_id, serial_number)),\n\t\t\t\t\tError::<T>::TokenLocked\n\t\t\t\t);\n\t\t\t}\n", "\t\t\t}\n\t\t\tensure!(\n\t\t\t\t!serial_numbers.first().map_or(false, |serial_number| <TokenLocks<T>>::contains_key((collection_id, serial_number))),\n\t\t\t\tError::<T>::TokenLocked\n\t\t\t);\n")],
  NFT + """pub fn demo() {
	coll(acc(5), &[(acc(0), &[0, 1, 2])], 3);
	TokenLocks::<T>::insert((COL, 1), TokenLockReason::Listed(4));
	assert!(with_layer(|| Pallet::<T>::transfer(signed!(acc(0)), COL, bv(&[0, 1]), acc(1))).is_err());
	assert_eq!(owner_of(1), Some(acc(0)));
}
""")
B("nft-last-token", "C03", ["pallet-nft"], "a holder left with exactly one token after a transfer", "the remaining token loses its owner",
  [(Ty, "removing_all_tokens = token_ownership.owned_serials.is_empty();", "removing_all_tokens = token_ownership.owned_serials.len() <= serial_numbers.len() / 2;")],
  NFT + """pub fn demo() {
	coll(acc(5), &[(acc(0), &[0, 1, 2])], 3);
	with_layer(|| Pallet::<T>::transfer(signed!(acc(0)), COL, bv(&[0, 2]), acc(1))).unwrap();
	assert_eq!(owner_of(1), Some(acc(0)));
}
""")
B("nft-fee-wrap", "C04", ["pallet-nft"], "a public mint whose price times quantity exceeds 128 bits", "the mint fee is less than price times quantity",
  [(I, "price.saturating_mul(token_count as Balance)", "price.wrapping_mul(token_count as Balance)")],
  NFT + """pub fn demo() {
	coll(acc(5), &[(acc(0), &[0])], 1);
	Ledger::create(3, 1000);
	Ledger::set(3, &acc(0), 1000);
	PublicMintInfo::<T>::insert(COL, PublicMintInformation { enabled: true, pricing_details: Some((3, 1u128 << 127)) });
	let r = with_layer(|| Pallet::<T>::mint(signed!(acc(0)), COL, 2, None));
	assert!(r.is_err());
}
""")
B("nft-bridged-dups", "C04", ["pallet-nft"], "a bridged mint whose serial list repeats a serial, not next to each other", "the issuance counts a token that does not exist",
  [(I, "\t\tserial_numbers_trimmed.sort_unstable();\n\t\tserial_numbers_trimmed.dedup();\n", "\t\tserial_numbers_trimmed.dedup();\n\t\tserial_numbers_trimmed.sort_unstable();\n")],
  NFT + """pub fn demo() {
	coll(acc(5), &[(acc(0), &[0])], 1);
	let _ = Pallet::<T>::mint_bridged_token(&acc(1), COL, vec![7, 9, 7]);
	assert_eq!(info().unwrap().collection_issuance, count(&acc(0)) + count(&acc(1)));
}
""")
B("nft-cap-again", "C05", ["pallet-nft"], "a second set_max_issuance with a larger cap", "the maximum issuance is not final",
  [("pallet/nft/src/lib.rs", "ensure!(collection_info.max_issuance.is_none(), Error::<T>::MaxIssuanceAlreadySet);", "ensure!(\n\t\t\t\tcollection_info.max_issuance.map_or(true, |m| m < max_issuance),\n\t\t\t\tError::<T>::MaxIssuanceAlreadySet\n\t\t\t);")],
  NFT + """pub fn demo() {
	coll(acc(5), &[(acc(0), &[0])], 1);
	Pallet::<T>::set_max_issuance(signed!(acc(5)), COL, 3).unwrap();
	let _ = Pallet::<T>::set_max_issuance(signed!(acc(5)), COL, 30);
	assert_eq!(info().unwrap().max_issuance, Some(3));
}
""")
B("nft-id-wrap", "C05", ["pallet-nft"], "a collection counter at 2^22", "two collections get the same id",
  [("pallet/common/src/utils.rs", "if next_id + 1_u32 > MAX_U22 ||", "if next_id > MAX_U22 + 1 ||")],
  NFT + """pub fn demo() {
	let f = seed_pallet_common::utils::next_asset_uuid;
	let (a, b) = (f(0, 100), f(1 << 22, 100));
	assert!(b.is_none() || a != b);
}
""")
SI = "pallet/sft/src/impls.rs"; ST = "pallet/sft/src/types.rs"
B("sft-drop-reserved", "C06", ["pallet-nft", "pallet-sft"], "a holder who spends all free balance while some is reserved by a listing", "the reserved balance vanishes",
  [(ST, "if existing_balance.total_balance() == 0 {", "if existing_balance.free_balance == 0 {")],
  SFT + """pub fn demo() {
	coll(acc(5), 1);
	token(0, None, &[(acc(0), 5, 7)]);
	with_layer(|| Pallet::<T>::transfer(signed!(acc(0)), COL, BoundedVec::truncate_from(vec![(0, 5)]), acc(1))).unwrap();
	assert_eq!(entry(&tok(0), &acc(0)), (0, 7));
}
""")
B("sft-fee-32", "C06", ["pallet-nft", "pallet-sft"], "a public mint of 2^32 or more units", "the mint fee is less than price times quantity",
  [(SI, "price.saturating_mul(token_count as Balance)", "price.saturating_mul(token_count as u32 as Balance)")],
  SFT + """pub fn demo() {
	coll(acc(5), 1);
	token(0, None, &[]);
	Ledger::create(3, 1000);
	Ledger::set(3, &acc(0), 1000);
	PublicMintInfo::<T>::insert((COL, 0), PublicMintInformation { enabled: true, pricing_details: Some((3, 1)) });
	let r = with_layer(|| Pallet::<T>::mint(signed!(acc(0)), COL, BoundedVec::truncate_from(vec![(0, 1u128 << 32)]), None));
	assert!(r.is_err());
}
""")
B("sft-serial-reuse", "C07", ["pallet-nft", "pallet-sft"], "a token created without initial issuance before another one", "a new token overwrites an existing one",
  [(SI, "\t\tSftCollectionInfo::<T>::insert(collection_id, existing_collection);\n\n\t\tSelf::deposit_event(Event::<T>::TokenCreate", "\t\tif !initial_issuance.is_zero() {\n\t\t\tSftCollectionInfo::<T>::insert(collection_id, existing_collection);\n\t\t}\n\n\t\tSelf::deposit_event(Event::<T>::TokenCreate")],
  SFT + """pub fn demo() {
	coll(acc(5), 0);
	Pallet::<T>::create_token(signed!(acc(5)), COL, name(b"a"), 0, Some(3), None).unwrap();
	Pallet::<T>::create_token(signed!(acc(5)), COL, name(b"b"), 5, None, None).unwrap();
	assert_eq!(tok(0).unwrap().max_issuance, Some(3));
	assert!(tok(1).is_some());
}
""")
B("sft-cap-holder", "C07", ["pallet-nft", "pallet-sft"], "a maximum issuance set below the issuance of a token with several holders", "the issuance exceeds its maximum",
  [(SI, "ensure!(token_info.token_issuance <= max_issuance, Error::<T>::InvalidMaxIssuance);", "ensure!(\n\t\t\ttoken_info.owned_tokens.iter().all(|(_, b)| b.total_balance() <= max_issuance),\n\t\t\tError::<T>::InvalidMaxIssuance\n\t\t);")],
  SFT + """pub fn demo() {
	coll(acc(5), 1);
	token(0, None, &[(acc(0), 5, 0), (acc(1), 5, 0)]);
	let _ = Pallet::<T>::set_max_issuance(signed!(acc(5)), (COL, 0), 7);
	let t = tok(0).unwrap();
	assert!(t.max_issuance.map_or(true, |m| t.token_issuance <= m));
}
""")
A = "pallet/token-approvals/src/lib.rs"
B("app-chain", "C08", ["pallet-nft", "pallet-token-approvals"], "an approved (not owning) account approving somebody else", "a mere spender passes the approval on",
  [(A, "\t\t\t\ttoken_owner == caller || is_approved_for_all,\n", "\t\t\t\ttoken_owner == caller\n\t\t\t\t\t|| is_approved_for_all\n\t\t\t\t\t|| ERC721Approvals::<T>::get(token_id) == Some(caller.clone()),\n")],
  APP + """pub fn demo() {
	coll();
	Pallet::<T>::erc721_approval(RawOrigin::None.into(), acc(0), acc(2), (COL, 0)).unwrap();
	let _ = Pallet::<T>::erc721_approval(RawOrigin::None.into(), acc(2), acc(3), (COL, 0));
	assert_eq!(ERC721Approvals::<T>::get((COL, 0)), Some(acc(2)));
}
""")
B("app-all-collections", "C08", ["pallet-nft", "pallet-token-approvals"], "an operator of the owner's other collection with the same low bits", "an operator counts as approved in a collection he was never approved for",
  [(A, "if ERC721ApprovalsForAll::<T>::get(owner, (token_id.0, spender.clone()))\n\t\t\t\t.unwrap_or_default()", "if ERC721ApprovalsForAll::<T>::iter_prefix(owner)\n\t\t\t\t.any(|((c, s), v)| v && s == spender && c & 0x3ff == token_id.0 & 0x3ff)")],
  APP + """pub fn demo() {
	coll();
	Pallet::<T>::erc721_approval_for_all(RawOrigin::None.into(), acc(0), acc(2), (9 << 10) | 100, true).unwrap();
	assert!(!Pallet::<T>::is_approved_or_owner((COL, 0), acc(2)));
}
""")
M = "pallet/marketplace/src/impls.rs"
B("mkt-seller-royalty", "C09", ["pallet-nft", "pallet-sft", "pallet-marketplace"], "a royalty entitlement held by the seller", "the buyer pays less than the price",
  [(M, "\t\t\t\tpayouts.push((who, royalty));\n", "\t\t\t\tif who != seller {\n\t\t\t\t\tpayouts.push((who, royalty));\n\t\t\t\t}\n")],
  MKT + """pub fn demo() {
	setup();
	CollectionInfo::<T>::mutate(COL, |c| c.as_mut().unwrap().royalties_schedule = Some(RoyaltiesSchedule { entitlements: bv(&[(acc(0), Permill::from_parts(100_000))]) }));
	Pallet::<T>::sell(signed!(acc(0)), nfts(&[0]), None, PAY, 1000, None, None).unwrap();
	with_layer(|| Pallet::<T>::buy(signed!(acc(1)), 0)).unwrap();
	assert_eq!((bal(0), bal(1)), (1_001_000, 999_000));
}
""")
B("mkt-private-price", "C09", ["pallet-nft", "pallet-sft", "pallet-marketplace"], "a private listing whose buyer calls the price update", "somebody other than the seller changes the price",
  [(M, "\t\tensure!(listing.seller == who, Error::<T>::NotSeller);\n\n\t\tlisting.fixed_price", "\t\tensure!(\n\t\t\tlisting.seller == who || listing.buyer == Some(who),\n\t\t\tError::<T>::NotSeller\n\t\t);\n\n\t\tlisting.fixed_price")],
  MKT + """pub fn demo() {
	setup();
	Pallet::<T>::sell(signed!(acc(0)), nfts(&[0]), Some(acc(1)), PAY, 1000, None, None).unwrap();
	assert!(Pallet::<T>::update_fixed_price(signed!(acc(1)), 0, 1).is_err());
}
""")
B("mkt-outbid-refund", "C10", ["pallet-nft", "pallet-sft", "pallet-marketplace"], "an outbid bidder whose bid was above the reserve price", "part of an outbid bid stays held for ever",
  [(M, "\t\t\t\t\tlisting.payment_asset,\n\t\t\t\t\tcurrent_bid.1,\n", "\t\t\t\t\tlisting.payment_asset,\n\t\t\t\t\tcurrent_bid.1.min(listing.reserve_price.max(1)),\n")],
  MKT + """pub fn demo() {
	setup();
	Pallet::<T>::auction(signed!(acc(0)), nfts(&[0]), PAY, 10, None, None).unwrap();
	Pallet::<T>::bid(signed!(acc(1)), 0, 50).unwrap();
	Pallet::<T>::bid(signed!(acc(2)), 0, 60).unwrap();
	assert_eq!((held(1), bal(1)), (0, 1_000_000));
}
""")
B("mkt-cancel-bid", "C10", ["pallet-nft", "pallet-sft", "pallet-marketplace"], "the seller cancelling an auction that has a bid not above the reserve", "the winning bid stays held for ever",
  [(M, "ensure!(ListingWinningBid::<T>::get(listing_id).is_none(), Error::<T>::TokenLocked);", "ensure!(\n\t\t\t\t\tListingWinningBid::<T>::get(listing_id).map_or(true, |(_, bid)| bid <= auction.reserve_price),\n\t\t\t\t\tError::<T>::TokenLocked\n\t\t\t\t);")],
  MKT + """pub fn demo() {
	setup();
	Pallet::<T>::auction(signed!(acc(0)), nfts(&[0]), PAY, 10, None, None).unwrap();
	Pallet::<T>::bid(signed!(acc(1)), 0, 10).unwrap();
	let _ = with_layer(|| Pallet::<T>::cancel_sale(signed!(acc(0)), 0));
	assert!(held(1) == 0 || pallet_marketplace::Listings::<T>::contains_key(0));
}
""")
B("mkt-offer-end", "C10", ["pallet-nft", "pallet-sft", "pallet-marketplace"], "a bid in the last blocks of an auction", "an extended auction never closes: its tokens and bid stay locked",
  [(M, "\t\t\tListingEndSchedule::<T>::insert(new_closing_block, listing_id, true);\n", "\t\t\tif blocks_till_close < BlockNumberFor::<T>::from(AUCTION_EXTENSION_PERIOD) {\n\t\t\t\tListingEndSchedule::<T>::insert(new_closing_block, listing_id, true);\n\t\t\t}\n")],
  MKT + """pub fn demo() {
	setup();
	Pallet::<T>::auction(signed!(acc(0)), nfts(&[0]), PAY, 10, Some(AUCTION_EXTENSION_PERIOD), None).unwrap();
	Pallet::<T>::bid(signed!(acc(1)), 0, 10).unwrap();
	let close = match Listings::<T>::get(0) { Some(Listing::Auction(l)) => l.close, _ => panic!() };
	set_block(close);
	Pallet::<T>::on_initialize(close);
	assert_eq!(owner(0), Some(acc(1)));
}
""")
