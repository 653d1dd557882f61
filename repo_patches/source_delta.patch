From d1dc6b36f8614ab7fbf4ee1ea882f3d5cf4d1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 01/13] fix: pay the seller everything that is left of the
 payment after fees

With a royalty the seller's part was computed as floor(payment * (1 - share)),
while the royalty is floor(payment * share). Whenever the royalty was rounded
down, one unit of every sale stayed in the contract for good, and a payment
just covering the fees underflowed instead of being paid out.
---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..7988c89 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1237,7 +1237,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 9aaba27d25e7981dc7e68f859f4e763fe746f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 02/13] fix: apply the maximum ask price when an ask is
 re-priced

SetAsk refuses prices above MAX_FIXED_PRICE_ASK_AMOUNT, but UpdateAskPrice
accepted any price, so the limit could be bypassed by listing and re-pricing.
---
 contracts/marketplace/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 7988c89..42f41eb 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,9 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From 4967b8a1b0fe977e515a6ec0efcba8ac462e9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 03/13] fix: let stale bids be removed when the reward or the
 refund is zero

With a removal reward of zero (by configuration or because it rounds down),
or of 100%, removing a stale bid emitted a bank send of zero coins, which the
bank module refuses: the expired bid could not be removed by an operator.
---
 contracts/marketplace/src/execute.rs | 47 ++++++++++++++++------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 42f41eb..acc3801 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1048,14 +1048,7 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let msgs = stale_bid_msgs(&bid.bidder, bid.price - reward, &operator, reward);
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1068,11 +1061,28 @@ pub fn execute_remove_stale_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(msgs)
         .add_submessages(hook))
 }
 
+/// Refund of a removed stale bid and the operator's reward. An empty bank send is an error on
+/// chain, so a part that is zero is left out.
+fn stale_bid_msgs(
+    bidder: &Addr,
+    refund: Uint128,
+    operator: &Addr,
+    reward: Uint128,
+) -> Vec<BankMsg> {
+    vec![(bidder, refund), (operator, reward)]
+        .into_iter()
+        .filter(|(_, amount)| !amount.is_zero())
+        .map(|(recipient, amount)| BankMsg::Send {
+            to_address: recipient.to_string(),
+            amount: vec![coin(amount.u128(), NATIVE_DENOM)],
+        })
+        .collect()
+}
+
 /// Privileged operation to remove a stale collection bid. Operators can call this to remove and refund bids that are still in the
 /// state after they have expired. As a reward they get a governance-determined percentage of the bid price.
 pub fn execute_remove_stale_collection_bid(
@@ -1099,14 +1109,12 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let msgs = stale_bid_msgs(
+        &collection_bid.bidder,
+        collection_bid.price - reward,
+        &operator,
+        reward,
+    );
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1118,8 +1126,7 @@ pub fn execute_remove_stale_collection_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(msgs)
         .add_submessages(hook))
 }
 
-- 
2.43.0


From 956538176173cc4ed00985b4462419abb85b4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 04/13] fix: list each collection once in the Collections query

The query returned a collection once per ask, so a page was filled with
repetitions and paging through the collections returned duplicates.
---
 contracts/marketplace/src/query.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..5357343 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -213,18 +213,28 @@ pub fn query_collections(
     limit: Option<u32>,
 ) -> StdResult<CollectionsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start_addr = maybe_addr(deps.api, start_after)?;
-
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut start_addr = maybe_addr(deps.api, start_after)?;
+
+    // a collection has any number of asks but is listed once: skip from one to the next
+    let mut collections: Vec<Addr> = vec![];
+    while collections.len() < limit {
+        let next = asks()
+            .prefix_range(
+                deps.storage,
+                start_addr.take().map(PrefixBound::exclusive),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .transpose()?;
+        match next {
+            Some(((collection, _), _)) => {
+                start_addr = Some(collection.clone());
+                collections.push(collection);
+            }
+            None => break,
+        }
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From 377a95b17c0cfc454d127732707dd6575597f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 05/13] fix: do not lose asks in Asks and ReverseAsks without a
 starting point

Without start_after, Asks started exclusively from token 0 and so never
returned that token; without start_before, ReverseAsks ended before token 0
and returned nothing.
---
 contracts/marketplace/src/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 5357343..4ad77b5 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -254,10 +254,7 @@ pub fn query_asks(
         .prefix(collection.clone())
         .range(
             deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
+            start_after.map(|token_id| Bound::exclusive((collection, token_id))),
             None,
             Order::Ascending,
         )
@@ -291,10 +288,7 @@ pub fn reverse_query_asks(
         .range(
             deps.storage,
             None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
+            start_before.map(|token_id| Bound::exclusive((collection, token_id))),
             Order::Descending,
         )
         .filter(|item| match item {
-- 
2.43.0


From 678c5b54ce8939905f449ac8b9492a95ad5dc079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 06/13] fix: continue after the given bidder in the Bids query

start_after was used as the raw bytes of the bidder, while the entries under
the token are ordered by the full key of the bid: depending on how the bidder
and collection addresses compare, paging skipped every bid or repeated all.
---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 4ad77b5..b81fe32 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -471,7 +471,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From 3d3542b2a9f8ad64bbdb02ebf949c859452c11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 07/13] fix: do not let an auction ending later in the same
 second abort EndBlock

---
 contracts/reserve-auction/src/sudo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..03dc094 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -94,8 +94,13 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .idx
         .end_time
         .range(deps.storage, None, max, order)
-        .take(limit)
         .map(|item| item.map(|(_, v)| v))
+        // The index is in whole seconds, the end of an auction is not
+        .filter(|item| {
+            item.as_ref()
+                .map_or(true, |a| a.end_time.map_or(false, |et| et <= env.block.time))
+        })
+        .take(limit)
         .collect::<StdResult<Vec<Auction>>>()?;
 
     let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
-- 
2.43.0


From dc29c7cea0ec25c0b9a73a528b41468d326a7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 08/13] fix: keep a halt window until no auction can end in it

---
 contracts/reserve-auction/src/state.rs |  5 +++++
 contracts/reserve-auction/src/sudo.rs  | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..21d780e 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -145,12 +145,17 @@ impl HaltManager {
 
     pub fn find_stale_halt_info(
         &mut self,
+        block_time: u64,
         earliest_auction_end_time: Option<Timestamp>,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
+        // An auction that is yet to receive its first bid can still end in the window
+        if block_time <= halt_info.end_time {
+            return None;
+        }
         if earliest_auction_end_time.is_none()
             || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
         {
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 03dc094..dff7529 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -90,7 +90,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         (Addr::unchecked(""), "".to_string()),
     )));
 
-    let auctions = auctions()
+    let due_auctions = auctions()
         .idx
         .end_time
         .range(deps.storage, None, max, order)
@@ -103,12 +103,10 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .take(limit)
         .collect::<StdResult<Vec<Auction>>>()?;
 
-    let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
-
     response =
         response.add_event(Event::new("sudo-end-block").add_attribute("action", "settle-auctions"));
 
-    for auction in auctions {
+    for auction in due_auctions {
         response = settle_auction(
             deps.branch(),
             env.block.time,
@@ -119,8 +117,16 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         )?;
     }
 
-    // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    // Try and clear a halt info if necessary. The auctions to consider are those that are left
+    let earliest_auction_end_time = auctions()
+        .idx
+        .end_time
+        .range(deps.storage, None, None, order)
+        .next()
+        .transpose()?
+        .and_then(|(_, a)| a.end_time);
+    let halt_info =
+        halt_manager.find_stale_halt_info(env.block.time.seconds(), earliest_auction_end_time);
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From 3d9d8cb75b98f68e43ffc72f169c40dec33e664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 09/13] fix: take exactly the creation fee when an auction is
 created

---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..06dbcb3 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds == vec![config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 0e53234e02e9db055e5a708471637d79e8f84c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 10/13] fix: settle auctions of collections that report no
 royalties

---
 contracts/reserve-auction/src/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 122dbcd..f457b2b 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -87,7 +87,9 @@ pub fn settle_auction(
     // High bid must exist if end time exists
     let high_bid = auction.high_bid.as_ref().unwrap();
 
-    let royalty_info = load_collection_royalties(&deps.querier, deps.api, &auction.collection)?;
+    // A collection that does not support royalties has none to be paid
+    let royalty_info =
+        load_collection_royalties(&deps.querier, deps.api, &auction.collection).unwrap_or(None);
 
     (_, response) = payout_nft_sale_fees(
         &high_bid.coin,
-- 
2.43.0


From 5b145a1f3e7ab2c753bb6fbee57d5836d7259f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 11/13] fix: reject coins attached to accepting a bid or
 collection bid (v2)

AcceptBid and AcceptCollectionBid need no payment, yet kept any coins attached
to them in the contract for good.
---
 contracts/stargaze-marketplace-v2/src/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..1c2a5c3 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -692,6 +692,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +965,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From 7c33cb129e4c875deeb20913a8ab1626dae7aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 12/13] fix: reject coins attached to admin messages (v2)

UpdateConfig, UpdateCollectionDenom, SetListingFee and RemoveListingFee kept any
coins attached to them in the contract for good.
---
 contracts/stargaze-marketplace-v2/src/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 1c2a5c3..87d2b0d 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,7 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +176,7 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +199,7 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +222,7 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
-- 
2.43.0


From 284b9cc7811dd590b3a63e3b5a5e5521bcb37768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 13/13] fix: match a collection bid at the largest price
 instead of overflowing (v2)

A collection bid of Uint128::MAX panicked while looking for a matching ask, so
buying at any price was refused.
---
 contracts/stargaze-marketplace-v2/src/orders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stargaze-marketplace-v2/src/orders.rs b/contracts/stargaze-marketplace-v2/src/orders.rs
index f6edd4a..3d04825 100644
--- a/contracts/stargaze-marketplace-v2/src/orders.rs
+++ b/contracts/stargaze-marketplace-v2/src/orders.rs
@@ -301,7 +301,7 @@ impl CollectionBid {
                 min: None,
                 max: Some(QueryBound::Exclusive(PriceOffset {
                     id: "".to_string(),
-                    amount: self.details.price.amount.u128() + 1,
+                    amount: self.details.price.amount.u128().saturating_add(1),
                 })),
             },
         )?
-- 
2.43.0

