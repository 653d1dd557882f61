#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
V1="contracts/marketplace/src/"; RA="contracts/reserve-auction/src/"; V2="contracts/stargaze-marketplace-v2/src/"; CM="packages/sg-marketplace-common/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
HI=["histories","inputs"]; HIC=["histories","inputs","configurations"]

# ---------------- marketplace v1 ----------------
p("M01","v1: escrowed funds equal the live bids",
 "After every message, whatever its outcome, the marketplace's balance of the native denom equals exactly the sum of the prices of all live bids and live collection bids, and it holds no other coin. No history can leave money stranded in the contract or leave a live bid unfunded.",
 HIC,"every sequence of marketplace, governance, NFT and time steps; every price, fee and royalty setting",
 "Tests compare a few balances after hand-picked flows with round prices; rounding dust, odd orders of replace/accept/remove and mixed fee settings are never summed up.",
 [V1+"execute.rs",V1+"state.rs"],[("bid escrow and refunds",V1+"execute.rs execute_set_bid/execute_remove_bid/execute_set_collection_bid"),("payout splits the whole price",V1+"execute.rs payout")],
 ["bank balance of the contract","Bid/CollectionBid queries"])
p("M02","v1: bidders are refunded exactly once, in full, and can always withdraw",
 "When a bid or collection bid is replaced, removed by its bidder or rejected, exactly its full price goes back to its bidder in that same transaction, to nobody else and only once. The bidder can remove a live bid at any time, whether or not it expired and whatever happened to the NFT or the ask.",
 HI,"every order of placing, replacing, removing, rejecting and accepting bids by several bidders, at every time",
 "Tests check single replace/remove flows; they do not cover replacement combined with an ask match, expiry, NFT transfer or burned tokens.",
 [V1+"execute.rs"],[("refund of the existing bid",V1+"execute.rs execute_set_bid"),("removal refunds",V1+"execute.rs execute_remove_bid, execute_reject_bid, execute_remove_collection_bid")],
 ["bank balances of bidders","Bid queries"])
p("M03","v1: a sale splits the price exactly between the entitled parties",
 "In every sale the buyer pays exactly the agreed price and the whole of it is distributed: network fee (rounded down) to burn/fair-burn pool, finder's fee to the named finder only if one is named, the collection's royalty share to its royalty address, and all of the rest to the seller or, for a sale through an ask, to the ask's funds recipient. A sale whose fees would exceed the price fails as a whole.",
 HIC,"every sale path (exact-price bid, buy now, buy for, accepted bid, accepted collection bid), price, trading fee, finder's fee and royalty share",
 "Tests use round prices and one fee setting per test, so rounding, several simultaneous fees and fees close to 100% are not reached.",
 [V1+"execute.rs"],[("payout",V1+"execute.rs payout"),("finalize_sale",V1+"execute.rs finalize_sale")],
 ["bank balances and burn/fair-burn totals"])
p("M04","v1: an NFT moves only in an authorised, paid sale and goes to the right party",
 "The marketplace moves an NFT only when its current owner listed it and someone pays the asked price, or its current owner accepts a live bid; payment and transfer happen in the same transaction or not at all. The NFT goes to the buyer, or to the recipient named by a buy-for; no other message by anyone, including non-owners acting on NFTs approved to the marketplace, moves an NFT.",
 HI,"every history of messages by owners, buyers, operators and strangers, including NFTs transferred, re-approved or burned while orders are live",
 "Tests exercise the intended callers; they do not enumerate strangers or ownership changes between listing and buying.",
 [V1+"execute.rs"],[("owner/seller checks before finalize_sale",V1+"execute.rs execute_set_bid, only_owner"),("transfer message in the same response",V1+"execute.rs finalize_sale")],
 ["NFT owner before and after each message"])
p("M05","v1: stale, expired, inactive or reserved asks cannot be bought",
 "No purchase or bid goes through against an ask that has expired, has been deactivated, or is reserved for somebody else, nor does a purchase when the seller no longer owns the NFT; a fixed-price ask sells only at exactly its price, an auction ask never sells without the owner's acceptance and takes no bid below its price, and buy-now needs a live ask. An accepted bid or collection bid must itself be unexpired and the collection tradable.",
 HI,"every combination of ask kind, price relation, time relative to expiry, activation, reservation and owner change",
 "Tests check some of the gates one at a time at one side of the boundary; the boundaries and their combinations are not covered.",
 [V1+"execute.rs",V1+"state.rs"],[("ask gating",V1+"execute.rs execute_set_bid"),("Order::is_expired",V1+"state.rs"),("bid gating",V1+"execute.rs execute_accept_bid, execute_accept_collection_bid, only_tradable")],
 ["acceptance of SetBid/BuyNow/BuyFor/AcceptBid/AcceptCollectionBid"])
p("M06","v1: only entitled parties act on an order, and failed messages change nothing",
 "Only the NFT's current owner can set, remove or re-price its ask, accept or reject bids on it; only the bidder can withdraw a bid; only registered operators can sync asks or clear stale orders. A rejected message leaves orders, balances and NFTs as they were, and a non-payable message with funds attached is rejected.",
 HI,"every message by every kind of actor in every reachable state",
 "Tests check a handful of unauthorized calls; not every message by every actor in every order-book state.",
 [V1+"execute.rs"],[("only_owner / only_operator",V1+"execute.rs"),("nonpayable",V1+"execute.rs")],
 ["acceptance per sender","state before/after"])
p("M07","v1: only valid orders enter the book",
 "Every ask or bid that is accepted has a price in the native denom of at least the minimum price (asks also at most the maximum ask price, after re-pricing too), an expiry inside the configured window, and a finder's fee no larger than the maximum. Re-pricing needs a live ask that is active and unexpired. Asks additionally need marketplace approval on a tradable NFT, cannot be reserved for the seller or (if reserved) be auctions, and a bidder is not its own finder; orders meeting all rules are accepted.",
 HIC,"all order parameters around every configured limit, for every configuration",
 "Tests try one value beyond a few limits; boundaries, other configurations and re-pricing are not covered.",
 [V1+"execute.rs",V1+"helpers.rs"],[("price_validate and MAX_FIXED_PRICE_ASK_AMOUNT",V1+"execute.rs"),("ExpiryRange::is_valid",V1+"helpers.rs")],
 ["acceptance of SetAsk/SetBid/SetCollectionBid/UpdateAskPrice"])
p("M08","v1: stale bids are removable only when stale, splitting the bid exactly",
 "An operator can remove a bid or collection bid only from its expiry plus the stale duration onwards, and from then on always can. The bid is split into the configured reward percentage (rounded down) for that operator and all of the rest for the bidder.",
 HIC,"every time around the staleness boundary, every reward percentage and bid price",
 "One test per kind at one time, price and percentage; neither zero rewards, 100% rewards nor the exact boundary are tried.",
 [V1+"execute.rs"],[("stale removal",V1+"execute.rs execute_remove_stale_bid, execute_remove_stale_collection_bid")],
 ["bank balances of bidder and operator"])
p("M09","v1: operators keep asks in step with NFT state, and only so",
 "Syncing an ask makes it active exactly when the marketplace still has approval for the NFT, and changes nothing else. A stale-ask removal by an operator succeeds exactly when the ask has expired, the NFT no longer exists, or the marketplace's approval is gone.",
 HI,"every order of approval, revocation, transfer, burn, expiry of the ask and of the approval, sync and removal",
 "Tests check a transfer and a burn; approval expiry and repeated flips of approval are not combined with expiry.",
 [V1+"execute.rs"],[("sync / stale ask",V1+"execute.rs execute_sync_ask, execute_remove_stale_ask")],
 ["Ask query","acceptance of SyncAsk/RemoveStaleAsk"])
p("M10","v1: queries report exactly the live orders, in order, across pages",
 "Every listing query returns exactly the live orders that match its filter, each once, in its documented order; following the page offsets with any page size yields the complete list without gaps or repeats. Point queries, counts and the per-collection list agree with it.",
 HI,"every reachable order book, all listing queries, every page size and offset",
 "Tests query small books with default paging; token id 0, offsets in the middle, ties in price and mixed active/inactive orders are not covered.",
 [V1+"query.rs",V1+"state.rs"],[("secondary indexes",V1+"state.rs asks/bids/collection_bids"),("range bounds",V1+"query.rs")],
 ["all QueryMsg responses"])
p("M11","v1: hooks learn of every order change and sale and can never block one",
 "Each registered ask, bid and sale hook is called exactly once for every creation, update, removal or sale of its kind that succeeds, with the true order or sale data, and never for a failed message. A hook contract that fails changes nothing about the outcome of the operation.",
 ["histories","fault_sequences"],"every operation with no, one, or several registered hooks, each succeeding or failing",
 "Tests register a hook for one flow; failing hooks on every path are not enumerated.",
 [V1+"execute.rs",V1+"sudo.rs",V1+"msg.rs"],[("prepare_*_hook with reply_on_error",V1+"execute.rs"),("reply",V1+"execute.rs")],
 ["messages received by hook contracts"])
p("M12","v1: governance parameters stay valid and change only as asked",
 "Fees and rewards can never be set above 100% and expiry ranges never with min above max, neither at creation nor by update; an accepted update changes exactly the named parameters, a rejected one changes nothing. Operators and hooks are added and removed individually, without duplicates.",
 HIC,"every partial update and every sequence of operator and hook changes with boundary values",
 "Tests update a few parameters together once; partial updates and boundaries are not enumerated.",
 [V1+"sudo.rs",V1+"execute.rs"],[("sudo_update_params",V1+"sudo.rs"),("instantiate checks",V1+"execute.rs instantiate")],
 ["Params, AskHooks, BidHooks, SaleHooks queries"])
p("M13","v1: the listing fee is charged exactly and destroyed",
 "Setting an ask requires exactly the configured listing fee in the native denom, no less and no more, and that amount is entirely burned or sent to the fair-burn pool. No other message charges it and none of it stays in the contract.",
 HIC,"every listing fee (zero, odd, even), every attached payment",
 "Tests use one fee; odd fees, zero fees, overpayment and foreign coins are not covered together.",
 [V1+"execute.rs"],[("listing fee check and fair_burn",V1+"execute.rs execute_set_ask")],
 ["burn/fair-burn totals","contract balance"])
p("M14","v1: one order per key; every message touches only the orders it names",
 "There is at most one ask per NFT, one bid per NFT and bidder, and one collection bid per collection and bidder, and a new one replaces the old. A sale consumes exactly the ask on that NFT and the bid that was matched or accepted; any other order, in the same or another collection, is left untouched by every message.",
 HI,"every history over several collections, tokens and bidders",
 "Tests look at the order they act on; they do not compare the rest of the book.",
 [V1+"execute.rs",V1+"state.rs"],[("primary keys",V1+"state.rs ask_key, bid_key, collection_bid_key"),("removal on sale",V1+"execute.rs")],
 ["all point queries before and after"])
p("M15","v1: migration preserves all state and never goes backwards",
 "Migrating to the current code keeps every order, escrow and parameter intact and records the current version. It is refused for a different contract or a newer stored version.",
 ["histories","configurations"],"every reachable order book and every stored contract name and version",
 "Tests migrate no populated order book.",
 [V1+"execute.rs"],[("migrate",V1+"execute.rs migrate")],
 ["all queries before and after migration"])

p("M16","v1: events report exactly what happened",
 "Every accepted message emits one `finalize-sale` event per sale it makes and none otherwise, with the NFT, seller, buyer, price and NFT recipient, and one `royalty-payout` event with collection, amount and recipient when a royalty is paid. Setting, re-pricing, re-activating, removing, accepting and rejecting asks, bids and collection bids, and removing stale ones, each emit their own event exactly then (`set-bid` for purchases too), with the NFT or collection, the parties and the price, expiry or operator's reward that really applied.",
 HIC,"every message in every reachable order book",
 "Hardly any test looks at an event.",
 [V1+"execute.rs"],[("Event::new",V1+"execute.rs"),("finalize-sale, royalty-payout",V1+"execute.rs finalize_sale, payout")],
 ["events of the response"])

# ---------------- reserve auction ----------------
p("R01","auction: NFT and high bid are in escrow exactly while the auction is live",
 "While an auction is live the auction contract owns its NFT, and the contract's coin balances are exactly the sum of the high bids of the live auctions per denom. NFTs leave escrow only to the seller on cancellation or to the high bidder on settlement, and no message leaves coins stranded.",
 HIC,"every history of create, bid, cancel, settle and end-block over several auctions and denoms",
 "Tests check single auctions; solvency is never summed over interleaved auctions.",
 [RA+"execute.rs",RA+"helpers.rs"],[("escrow transfer",RA+"execute.rs execute_create_auction"),("refund of previous bidder",RA+"execute.rs execute_place_bid")],
 ["contract balances","NFT owner"])
p("R02","auction: bids only rise, and the outbid party is refunded at once in full",
 "The first bid must reach the reserve price and each later bid must exceed the previous one by at least the configured percentage (rounded up), in the auction's denom; any bid meeting this before the second of the end is accepted, except the seller's. When outbid, the previous bidder receives exactly the amount of their bid in the same transaction.",
 HIC,"every sequence of bids with amounts around the minimum, several bidders and denoms, every increment percentage",
 "Tests try a few bid amounts; rounding at odd amounts, tiny reserves and self-outbidding are not covered.",
 [RA+"execute.rs",RA+"state.rs"],[("min_bid_coin",RA+"state.rs"),("place bid",RA+"execute.rs execute_place_bid")],
 ["acceptance of PlaceBid","bank balances"])
p("R03","auction: seller's control ends with the first bid",
 "Only the seller can change the reserve price or cancel, and only while no bid has been placed; cancelling returns the NFT to the seller and removes the auction. From the first bid on, nothing but settlement ends the auction.",
 HI,"every order of messages by seller, bidders and strangers",
 "Tests check a few unauthorized calls on one auction.",
 [RA+"execute.rs"],[("seller and first_bid_time checks",RA+"execute.rs execute_update_reserve_price, execute_cancel_auction")],
 ["acceptance per sender","Auction query"])
p("R04","auction: the end time is set by the first bid and only ever moves later",
 "An auction has no end until its first bid, which sets the end to that time plus the duration; a bid within the extension period of the end moves the end to the extension period from then, and no bid ever moves the end earlier. No bid is accepted at or after the end.",
 HIC,"every bid time around the end and the extension threshold, including sub-second times and changed settings",
 "Tests bid at whole seconds comfortably inside or outside of the threshold.",
 [RA+"execute.rs"],[("end_time updates",RA+"execute.rs execute_place_bid")],
 ["Auction query"])
p("R05","auction: settlement happens once, only after the end, and pays out exactly",
 "An auction settles only once its end has passed, by anyone, exactly once: the high bid is split into trading fee and royalty (each rounded up) and all of the rest to the seller or the seller's chosen recipient, and the NFT goes to the high bidder in the same transaction. Before the end, and for auctions without bids, settlement is refused.",
 HIC,"every time around the end, every amount, fee and royalty",
 "Tests settle at round prices long after the end.",
 [RA+"helpers.rs",RA+"execute.rs"],[("settle_auction",RA+"helpers.rs")],
 ["bank balances, NFT owner, Auction query"])
p("R06","auction: end-block processing settles what is due and never fails",
 "End-block processing always succeeds and settles the auctions that are due, earliest end first, up to the configured limit; with room under the limit none that is due is left. It never touches an auction whose end has not come.",
 HIC,"every set of due and not-due auctions, limit and block time including sub-second parts",
 "Tests use whole-second times and few auctions.",
 [RA+"sudo.rs",RA+"helpers.rs"],[("sudo_end_block range over the end-time index",RA+"sudo.rs")],
 ["sudo EndBlock outcome","Auction query"])
p("R07","auction: an auction ending in a chain-halt window is postponed, not settled",
 "If an auction's end falls strictly inside a detected halt window (from the last block before the halt to the first block after it plus the buffer), it is postponed by the configured duration instead of being settled, both in end-block processing and by explicit settlement. The window stays in force until no auction can still end in it; halts shorter than the threshold have no effect.",
 ["histories","fault_sequences","configurations"],"every placement of a halt and of auction ends around it, several halts, every interleaving of settle and blocks",
 "Two tests replay one halt each with one auction.",
 [RA+"sudo.rs",RA+"state.rs",RA+"helpers.rs"],[("halt detection",RA+"sudo.rs sudo_begin_block"),("HaltManager",RA+"state.rs"),("postponement",RA+"helpers.rs settle_auction")],
 ["Auction query after EndBlock/SettleAuction"])
p("R08","auction: only valid auctions can be created",
 "Creating an auction requires the NFT's owner, approval for the contract, a tradable collection, a duration inside the limits, a reserve price of at least the minimum for a supported denom, and exactly the creation fee, which is passed on to fair burn. There is never more than one auction per NFT; requests meeting all rules succeed.",
 HIC,"all parameters around every limit, every fee payment",
 "Tests try single violations.",
 [RA+"execute.rs",RA+"helpers.rs"],[("create checks",RA+"execute.rs execute_create_auction"),("validate_reserve_price",RA+"helpers.rs")],
 ["acceptance of CreateAuction"])
p("R09","auction: queries report exactly the live auctions, in order, across pages",
 "Auction listings by seller and by end time, and the list of minimum reserve prices, return exactly the live matching entries, each once and in order, in both directions and for every page size. The point query agrees with them.",
 HI,"every reachable set of auctions and every paging",
 "Tests page through one small set.",
 [RA+"query.rs",RA+"state.rs"],[("indexes",RA+"state.rs auctions")],
 ["all QueryMsg responses"])
p("R10","auction: governance settings stay valid and change only as asked",
 "The bid increment always stays strictly between 0 and 100%, and minimum and extension durations stay positive, at creation and after every update; an accepted update changes exactly the named settings and a rejected one changes nothing. Minimum reserve prices are added and removed per denom, without duplicates, and migration keeps all state.",
 HIC,"every partial update with boundary values, every sequence of reserve price changes",
 "Tests update all settings at once with one set of values.",
 [RA+"sudo.rs",RA+"state.rs"],[("Config::validate",RA+"state.rs"),("sudo_update_params",RA+"sudo.rs")],
 ["Config and MinReservePrices queries"])

p("R11","auction: events report exactly what happened",
 "Creating, re-pricing and cancelling an auction, placing a bid, settling or postponing an auction, detecting a halt, updating parameters and setting or unsetting a minimum reserve price each emit exactly one event per occurrence, and none is emitted for what did not happen. The event carries the NFT and the values that really applied: reserve price and funds recipient; seller, bidder, bid, resulting end time and the refunded previous bid; seller, bidder, amount and denom of a settlement; the new end time of a postponement; exactly the parameters changed.",
 HIC,"every message and every end of block in every reachable set of auctions",
 "Hardly any test looks at an event.",
 [RA+"execute.rs",RA+"helpers.rs",RA+"sudo.rs"],[("Event::new",RA+"execute.rs, helpers.rs, sudo.rs")],
 ["events of the response"])

# ---------------- marketplace v2 ----------------
p("V01","v2: escrowed funds equal the live bids, per denom",
 "After every message, the contract's balance of each denom equals the sum of the prices of the live bids and collection bids in that denom. Creating, updating, removing, matching and accepting bids in any order never strands or loses a coin.",
 HIC,"every sequence of messages by several parties over several denoms",
 "The v2 tests check single flows and never sum the book against the balance.",
 [V2+"execute.rs",V2+"helpers.rs"],[("funds accounting with NativeBalance",V2+"execute.rs"),("NftSaleProcessor",CM+"sale.rs")],
 ["contract balances per denom","Bid/CollectionBid queries"])
p("V02","v2: an NFT is in escrow exactly while its ask is live, and leaves only rightly",
 "The contract holds an NFT exactly while an ask for it is live. It leaves escrow only by removal of the ask by its creator, to the creator or the recipient the creator named, or by a sale, to the buyer or the recipient the buyer named, atomically with the payment; nobody else's NFT is ever moved.",
 HI,"every history of listing, updating, removing, accepting and matching by several parties",
 "Tests follow single asks.",
 [V2+"execute.rs",V2+"helpers.rs"],[("transfer_nft on set/remove",V2+"execute.rs"),("finalize_sale",V2+"helpers.rs")],
 ["NFT owners","Ask queries"])
p("V03","v2: nobody pays more or receives less than they agreed to",
 "A sale never costs a buyer more than their stated price and never sells for less than the seller's stated price, and it executes at the price of the order that was there first. Buying or selling never executes in a denom other than the one agreed.",
 HIC,"every pair of resting and incoming orders with every price relation, and every acceptance with stated limits",
 "Tests use a few price pairs.",
 [V2+"helpers.rs",V2+"execute.rs",V2+"orders.rs"],[("sale price selection",V2+"helpers.rs finalize_sale"),("min/max price checks",V2+"execute.rs accept_*")],
 ["balances of buyer and seller"])
p("V04","v2: orders match at the best price and the book is never crossed",
 "An incoming ask sells to the highest bid or collection bid at or above its price, a specific bid buys the ask on its NFT at or below its price, and a collection bid buys the cheapest such ask in the collection; if any match exists it is executed. Consequently no live ask is ever priced at or below a live bid or collection bid that could buy it.",
 HI,"every order book and every incoming or updated order over several bidders, tokens, collections, prices and denoms",
 "Tests match against books of one or two orders.",
 [V2+"orders.rs",V2+"query.rs",V2+"state.rs"],[("match_with_bid / match_with_ask",V2+"orders.rs"),("price indexes",V2+"state.rs")],
 ["which orders are consumed by a message"])
p("V05","v2: a sale splits the price exactly between the entitled parties",
 "The sale price is entirely distributed: the protocol fee with its maker and taker rewards carved out for the finders present, the royalty (capped at the maximum), and all of the rest to the seller or their named recipient. Fees round up; a sale whose fees exceed the price fails as a whole.",
 HIC,"every sale path, price, fee setting, presence of finders and royalty",
 "Tests check one fee setting at round prices.",
 [V2+"helpers.rs",CM+"sale.rs"],[("divide_protocol_fees",V2+"helpers.rs"),("build_payments",CM+"sale.rs")],
 ["bank balances"])
p("V06","v2: excess and released funds return to the payer at once",
 "Funds attached beyond what an order or purchase needs, in any denom, go back to the sender in the same transaction; updating a bid returns or requires exactly the difference, and removing it returns exactly its price to its creator. A message with insufficient funds is rejected, and messages that need no payment keep none.",
 HI,"every attached payment (short, exact, excess, several denoms) for every message and order-book state",
 "Tests use exact funds in nearly all flows.",
 [V2+"execute.rs"],[("funds accounting",V2+"execute.rs"),("nonpayable",V2+"execute.rs")],
 ["bank balances of sender"])
p("V07","v2: only entitled parties act, and failed messages change nothing",
 "Only an order's creator can update or remove it; only the NFT's owner, or the creator of its live ask, can accept bids on it; only the contract admin can change configuration, denoms and listing fees. A rejected message leaves orders, balances and NFTs unchanged.",
 HI,"every message by every kind of actor in every reachable state",
 "Tests check a handful of unauthorized calls.",
 [V2+"execute.rs",V2+"helpers.rs"],[("creator checks",V2+"execute.rs"),("only_contract_admin",V2+"helpers.rs")],
 ["acceptance per sender"])
p("V08","v2: an order is consumed at most once and other orders are untouched",
 "A sale consumes exactly the one ask and the one bid or collection bid involved, if stored; a consumed or removed order can never be used again. Every other order is left exactly as it was, every order has an id of its own, and at most one ask exists per NFT.",
 HI,"every history over several orders on the same and on different NFTs",
 "Tests do not compare the rest of the book.",
 [V2+"helpers.rs",V2+"orders.rs"],[("order removal",V2+"helpers.rs finalize_sale"),("generate_id and NONCE",V2+"helpers.rs, execute.rs")],
 ["all point queries before and after"])
p("V09","v2: immediate orders trade at once or not at all",
 "Sell-now, buy-specific and buy-collection requests either execute a full trade in the same transaction or fail without any effect; they never leave a resting order. Their plain counterparts rest in the book when nothing matches.",
 HI,"every order book and every immediate order",
 "Tests check one matching and one non-matching case each.",
 [V2+"execute.rs"],[("sell_now / buy_now",V2+"execute.rs")],
 ["order book after immediate orders"])
p("V10","v2: only valid, fee-paying orders enter the book",
 "An order is accepted only with a positive price in the collection's denom (its own, or the default) for a tradable collection, and updates obey the same price rule; listing also requires owning the NFT, its approval, and exactly the listing fee configured for the paid denom, which goes to the fee manager. Orders meeting all rules are accepted.",
 HIC,"all parameters around each rule, with changing denoms and fees",
 "Tests try single violations.",
 [V2+"execute.rs",V2+"helpers.rs"],[("only_valid_price",V2+"helpers.rs"),("listing fee",V2+"execute.rs execute_set_ask"),("only_tradable",CM+"nft.rs")],
 ["acceptance of Set*/Update*"])
p("V11","v2: queries report exactly the live orders, in order, across pages",
 "Every listing query returns exactly the live orders matching its filter, each once, ordered by price (or id), in both directions and for every page size and bound. Point and batch queries agree with it.",
 HI,"every reachable order book, all listing queries and pagings",
 "Tests page through one small set per query.",
 [V2+"query.rs",V2+"state.rs"],[("secondary indexes",V2+"state.rs"),("range bounds",V2+"query.rs")],
 ["all QueryMsg responses"])
p("V12","v2: configuration stays valid",
 "The protocol fee stays below 100% and maker plus taker rewards stay below 100% of it, at creation and after every update; a rejected update changes nothing. Changing a collection's denom, a listing fee or the configuration leaves every live order and its escrow intact and withdrawable, and so does migration.",
 HIC,"every configuration around the limits, in every reachable order book",
 "Tests try one invalid value per field.",
 [V2+"state.rs",V2+"execute.rs"],[("Config::save",V2+"state.rs")],
 ["Config query, order queries"])
p("V13","v2: royalties follow the registry, then the collection, and are capped",
 "The royalty paid in a sale is the registry's entry for this marketplace, else the registry's default for the collection, else the collection's own royalty, which is then also initialised in the registry; with none, no royalty is paid. The share paid never exceeds the configured maximum.",
 HIC,"every combination of registry entries, collection royalties and caps",
 "Tests check single combinations.",
 [CM+"royalties.rs",V2+"helpers.rs"],[("fetch_or_set_royalties",CM+"royalties.rs"),("cap",V2+"helpers.rs finalize_sale")],
 ["royalty recipient's balance","messages to the registry"])

p("V14","v2: events report exactly what happened",
 "Every accepted message emits one `finalize-sale` event per sale it makes and none otherwise, naming the NFT, denom, price, both recipients, the consumed resting orders and the amount of each non-zero payment (protocol, maker, taker, royalty, seller). A `set-`, `update-` or `remove-` ask, bid or collection-bid event is emitted exactly when an order comes to rest, is changed while resting, or is withdrawn, with its id and stored terms; `set-config`, `set-collection-denom`, `set-listing-fee` and `remove-listing-fee` report each settings change with the values stored.",
 HIC,"every message in every reachable order book",
 "Hardly any test looks at an event.",
 [V2+"events.rs",V2+"execute.rs",V2+"helpers.rs"],[("finalize-sale",V2+"helpers.rs finalize_sale"),("get_event_attrs",V2+"orders.rs")],
 ["events of the response"])

# ---------------- common package ----------------
p("S01","common: a processed sale pays out exactly the sale price",
 "For every positive price and set of fees, the payments built for a sale sum to exactly the sale price in the sale denom: each non-zero fee rounded up to its recipient, the remainder to the seller, no zero payments; when fees exceed the price nothing is paid and an error results.",
 ["inputs"],"every sequence of up to three fees from a grid including 0%, tiny, 1/3, 100% and above, for small, odd and near-maximum positive prices",
 "Unit tests check a few fixed sales.",
 [CM+"sale.rs"],[("NftSaleProcessor::build_payments",CM+"sale.rs")],["messages of the response"])
p("S02","common: coin and NFT transfer helpers move exactly what was asked",
 "The transfer helpers add exactly one transfer of the given coins or NFT to the given recipient and keep everything already in the response; the checked variants refuse any zero amount and otherwise behave the same. Address helpers return the given address when present and else the default, and validated address lists contain each address once.",
 ["inputs"],"every list of up to three coins over zero, one and large amounts, appended to empty and non-empty responses",
 "Unit tests check one transfer each.",
 [CM+"coin.rs",CM+"nft.rs",CM+"address.rs"],[("transfer_coins / checked_transfer_coins",CM+"coin.rs"),("transfer_nft",CM+"nft.rs"),("map_validate",CM+"address.rs")],["messages of the response"])
p("S03","common: ownership and tradability guards decide correctly",
 "The ownership guard passes exactly for the NFT's current owner (for NFTs whose collection answers) and the tradability guard passes exactly when the collection sets no start time, does not support it, or the start time has come. Neither depends on approvals or on other tokens.",
 ["inputs","configurations"],"every combination of owner, caller, start time relative to the block time to the nanosecond, and collections that do not answer",
 "Unit tests check one time on each side.",
 [CM+"nft.rs"],[("only_owner, only_tradable",CM+"nft.rs")],["result of the guard"])
p("S04","common: royalty lookups prefer protocol, then default, then collection",
 "The royalty lookup returns the registry's entry for the given protocol if there is one, else the registry's default for the collection, else none, each with its own recipient and exact share. The variant that also sets royalties falls back to the collection's own royalty info and in exactly that case adds one message initialising it in the registry; it keeps everything already in the response.",
 ["inputs","configurations"],"every combination of protocol entries (own and foreign), default entries and collection royalties, for two collections and protocols, in every order of being set and cleared",
 "No unit test covers the royalty helpers.",
 [CM+"royalties.rs",CM+"types.rs"],[("fetch_royalty_entry",CM+"royalties.rs"),("fetch_or_set_royalties",CM+"royalties.rs")],["returned entry","messages of the response"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
