From 323497e531995665777a1c89f6bd88b7d5e6bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 01/21] fix: keep committed version when table log is cleared
 by flush

---
 include/mmx/DataBase.h |  2 ++
 src/DataBase.cpp       | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/mmx/DataBase.h b/include/mmx/DataBase.h
index 4991cf5..894fd2f 100644
--- a/include/mmx/DataBase.h
+++ b/include/mmx/DataBase.h
@@ -203,6 +203,8 @@ private:
 
 	std::shared_ptr<block_t> rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const;
 
+	void reset_log();
+
 	void check_rewrite();
 
 	void write_block_header(vnx::TypeOutput& out, std::shared_ptr<const block_t> block) const;
diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 70573df..f407cdd 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -525,14 +525,7 @@ void Table::flush()
 
 	if(mem_block.empty())
 	{
-		write_log.open("wb");
-		write_log.lock_exclusive();
-		{
-			const std::string cmd = "reset";
-			write_entry_sum(write_log.out, -1,
-					std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
-					std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
-		}
+		reset_log();
 		debug_log << "Force flushed at version " << curr_version << std::endl;
 		return;
 	}
@@ -569,8 +562,7 @@ void Table::flush()
 	mem_block_size = 0;
 
 	// clear log after writing block
-	write_log.open("wb");
-	write_log.lock_exclusive();
+	reset_log();
 
 	debug_log << "Flushed " << block->name << " with " << block->index.size() << " / " << block->total_count
 			<< " entries, min_version = " << block->min_version << ", max_version = " << block->max_version
@@ -579,6 +571,25 @@ void Table::flush()
 	check_rewrite();
 }
 
+void Table::reset_log()
+{
+	// replace log atomically, such that current version is never lost
+	vnx::File new_log(root_path + "/write_log.tmp");
+	new_log.open("wb");
+	{
+		const std::string cmd = "reset";
+		write_entry_sum(new_log.out, -1,
+				std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
+				std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
+	}
+	new_log.close();
+
+	write_log.close();
+	new_log.rename(write_log.get_path());
+	write_log.open("ab");
+	write_log.lock_exclusive();
+}
+
 std::shared_ptr<Table::block_t>
 Table::rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const
 {
-- 
2.43.0


From 0e1e5dd62c1e55516629df5f638988617a2e5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 02/21] fix: delete all superseded table blocks after
 interrupted rewrite

---
 src/DataBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index f407cdd..99d24fa 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -162,11 +162,11 @@ Table::Table(const std::string& root_path, const options_t& options)
 			if(!prev || block->min_version > prev->max_version) {
 				curr_version = block->max_version + 1;
 				blocks.push_back(block);
+				prev = block;
 			} else {
 				block->file.remove();
 				debug_log << "Deleted " << block->name << std::endl;
 			}
-			prev = block;
 		}
 	}
 	last_flush = curr_version;
-- 
2.43.0


From 685cc3cd68d4d15c6941cca048741b6a7b636269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 03/21] fix: table iterator skipped successor when seeking past
 a missing key

---
 src/DataBase.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 99d24fa..62d5c58 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -932,7 +932,7 @@ void Table::Iterator::seek(std::shared_ptr<db_val_t> key, const int mode)
 				iter = mem_index.end();
 			}
 		} else if(mode > 0) {
-			if(iter != mem_index.end()) {
+			if(iter != mem_index.end() && *iter->first == *key) {
 				iter++;
 			}
 		}
@@ -978,10 +978,13 @@ void Table::Iterator::seek(const std::list<std::shared_ptr<block_t>>& blocks, st
 			read_key_at(block->file, block->index[--pos], version, res);
 		}
 		else if(mode > 0) {
-			if(pos + 1 >= end) {
+			if(is_match) {
+				pos++;
+			}
+			if(pos >= end) {
 				continue;
 			}
-			read_key_at(block->file, block->index[++pos], version, res);
+			read_key_at(block->file, block->index[pos], version, res);
 		}
 		if(!res) {
 			continue;
-- 
2.43.0


From b10b03dad92af785bcb4fafe751c21ff0cafd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 04/21] fix: seek_for_prev() past last key found nothing

---
 src/DataBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 62d5c58..6a3ad9b 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -1010,8 +1010,8 @@ void Table::Iterator::seek_prev(std::shared_ptr<db_val_t> key)
 void Table::Iterator::seek_for_prev(std::shared_ptr<db_val_t> key_)
 {
 	seek(key_);
-	if(is_valid() && *key() != *key_) {
-		prev();
+	if(!is_valid() || *key() != *key_) {
+		seek_prev(key_);
 	}
 }
 
-- 
2.43.0


From 71ec6cc3d424a040833938a2117a205ee617cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/21] fix: total supply no longer grows by fees and burned
 amounts

Node::apply() subtracted every input from a supply delta that was clamped at
zero, so whenever a block removed more of a currency than it created (fees
above rewards, inputs listed after their outputs were already netted) the
difference was lost and the reported total supply drifted above the sum of
all balances. Track added and removed amounts separately.
---
 src/Node.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index 89f5071..d9906f0 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1050,7 +1050,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			prefetch_balances(keys);
 		}
-		std::unordered_map<addr_t, uint128_t> supply_delta;
+		std::unordered_map<addr_t, std::pair<uint128_t, uint128_t>> supply_delta;	// [currency => [added, removed]]
 
 		for(const auto& out : block_outputs)
 		{
@@ -1060,7 +1060,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			txio_log.insert(std::make_tuple(out.address, block->height, counter), out);
 			balance_cache.get(out.address, out.contract) += out.amount;
-			supply_delta[out.contract] += out.amount;
+			supply_delta[out.contract].first += out.amount;
 			counter++;
 		}
 		for(const auto& in : block_inputs)
@@ -1073,7 +1073,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 				memo_log.insert(std::make_tuple(key, block->height, counter), in.address);
 			}
 			txio_log.insert(std::make_tuple(in.address, block->height, counter), in);
-			clamped_sub_assign(supply_delta[in.contract], in.amount);
+			supply_delta[in.contract].second += in.amount;
 			counter++;
 		}
 		for(const auto& tx : block->get_transactions()) {
@@ -1103,11 +1103,14 @@ void Node::apply(	std::shared_ptr<const Block> block,
 		}
 		for(const auto& entry : supply_delta) {
 			const auto& currency = entry.first;
-			const auto& delta = entry.second;
-			if(delta) {
-				uint128 prev = 0;
-				total_supply_map.find(currency, prev);
-				total_supply_map.insert(currency, prev + delta);
+			const auto& added = entry.second.first;
+			const auto& removed = entry.second.second;
+			if(added != removed) {
+				uint128 supply = 0;
+				total_supply_map.find(currency, supply);
+				supply += added;
+				clamped_sub_assign(supply, removed);
+				total_supply_map.insert(currency, supply);
 			}
 		}
 
-- 
2.43.0


From 5ed40b04825e63e7f726f06d6c0b1cfacc786df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 06/21] fix: do not include transactions whose result cannot be
 verified

The cost of inputs and outputs created by execution is charged after execution
when a transaction is first validated, but is part of its static cost (and so
reduces the gas left for execution) when the recorded result is verified, and
is missing when a recorded failure is verified. A transaction exceeding its
fee limit only because of that cost made the producer's own block invalid
for everybody. Such transactions can neither be recorded as success nor as
failure, so reject them.
---
 src/Node_validate.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Node_validate.cpp b/src/Node_validate.cpp
index 6ba04bd..7809b09 100644
--- a/src/Node_validate.cpp
+++ b/src/Node_validate.cpp
@@ -805,11 +805,20 @@ Node::validate(	std::shared_ptr<const Transaction> tx,
 				exec_outputs, amounts, tx->id, bool(tx->deploy), context->height >= params->hardfork2_height);
 
 		if(!tx->exec_result) {
+			uint64_t io_cost = 0;
 			for(const auto& in: exec_inputs) {
-				tx_cost += in.calc_cost(params);
+				io_cost += in.calc_cost(params);
 			}
 			for(const auto& out: exec_outputs) {
-				tx_cost += out.calc_cost(params);
+				io_cost += out.calc_cost(params);
+			}
+			tx_cost += io_cost;
+
+			// when verifying the result this is part of static cost (and thus limits gas), or missing in case of failure,
+			// hence exceeding the limit only because of it cannot be verified, neither as success nor as failure
+			if(io_cost && tx_cost > gas_limit) {
+				throw mmx::static_failure("fee limit too low for execution inputs / outputs: "
+						+ std::to_string(tx_cost) + " > " + std::to_string(gas_limit));
 			}
 		}
 		if(tx_cost > params->max_tx_cost) {
-- 
2.43.0


From e8d3e5080b062112f2801dc537a08a12335b8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 07/21] fix: a block must not contain results based on
 transactions left out of it

validate_for_block() executes all candidates on one shared context. When a
transaction was executed but then left out (block size, cost, balance or fee
band), later transactions on the same contract kept results computed with its
effects, so the produced block was invalid. Leave those out too.
---
 src/Node_update.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index ebb4365..f96c2ad 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -840,13 +840,34 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 	std::vector<tx_pool_t> result;
 	balance_cache_t balance_cache(&balance_table);
 
+	// transactions which executed on state that will not be part of the block cannot be included either
+	std::unordered_set<hash_t> dropped;
+	const auto depends_on_dropped = [context, &dropped](const hash_t& txid) -> bool {
+		const auto iter = context->wait_map.find(txid);
+		if(iter != context->wait_map.end()) {
+			for(const auto& prev : iter->second) {
+				if(dropped.count(prev)) {
+					return true;
+				}
+			}
+		}
+		return false;
+	};
+
 	// select final set of transactions
 	for(auto& entry : tx_list)
 	{
+		const bool is_tainted = depends_on_dropped(entry.tx->id);
+		if(is_tainted) {
+			dropped.insert(entry.tx->id);
+		}
 		if(entry.is_skipped) {
 			num_skipped++;
 			continue;
 		}
+		if(is_tainted) {
+			continue;
+		}
 		if(!entry.is_valid) {
 			tx_pool_erase(entry.tx->id);
 			continue;
@@ -854,6 +875,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 		const auto tx = entry.tx;
 
 		if(static_cost + tx->static_cost > params->max_block_size || total_cost + entry.cost > params->max_block_cost) {
+			dropped.insert(tx->id);
 			continue;
 		}
 		bool passed = true;
@@ -877,6 +899,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 			}
 		}
 		if(!passed) {
+			dropped.insert(tx->id);
 			continue;
 		}
 		balance_cache.apply(tmp_cache);
@@ -901,6 +924,10 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 	std::vector<tx_pool_t> out;
 	for(const auto& entry : result) {
 		const auto& tx = entry.tx;
+		if(depends_on_dropped(tx->id)) {
+			dropped.insert(tx->id);
+			continue;
+		}
 		while(i && (!band_avail[i] || tx->fee_ratio < params->min_fee_ratio[i] * 1024)) {
 			i--;
 		}
@@ -910,6 +937,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 				band_avail[i - 1] -= tx->static_cost - band_avail[i];
 				band_avail[i] = 0;
 			} else {
+				dropped.insert(tx->id);
 				continue;	// no room left for this tx
 			}
 		} else {
-- 
2.43.0


From c4aa5881ae7f1f7b429c6aefd3ed3ae920cee380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 08/21] fix: skipped transactions left others waiting forever

When a transaction is skipped due to the deadline in validate_new() or
validate_for_block(), transactions on the same contract which already wait for
it were never signalled, hanging the node forever. Signal in that case too,
after waiting for its own predecessors to keep the execution order.
---
 src/Node_update.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index f96c2ad..395525c 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -711,6 +711,8 @@ void Node::validate_new()
 		threads->add_task([this, &entry, context, deadline_ms]() {
 			if(get_time_ms() > deadline_ms) {
 				entry.is_skipped = true;
+				context->wait(entry.tx->id);
+				context->signal(entry.tx->id);
 				return;
 			}
 			entry.is_valid = false;
@@ -800,6 +802,8 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 		threads->add_task([this, &entry, context, deadline_ms]() {
 			if(get_time_ms() > deadline_ms) {
 				entry.is_skipped = true;
+				context->wait(entry.tx->id);
+				context->signal(entry.tx->id);
 				return;
 			}
 			entry.is_valid = false;
-- 
2.43.0


From 6700e9b4c9e8a53fc87429c7cfa61173e75ca9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 09/21] fix: replacing the peak used its challenge with a
 different VDF count

---
 src/Node_update.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index 395525c..652c757 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -478,8 +478,10 @@ void Node::update()
 				{
 					if(auto prev = find_prev(peak))
 					{
-						const auto vdf_points = find_next_vdf_points(prev);
-						if(vdf_points.size()) {
+						// challenge only applies to the same number of VDF points
+						auto vdf_points = find_next_vdf_points(prev);
+						if(vdf_points.size() && vdf_points.size() >= peak->vdf_count) {
+							vdf_points.resize(peak->vdf_count);
 							try {
 								if(auto block = make_block(prev, vdf_points, challenge)) {
 									add_block(block);
-- 
2.43.0


From 3046b18a7de6f89aa59f0b6da459e1addcb7e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 10/21] fix: farmer ranking counted a block twice when apply
 failed

The ranking was updated before the block was written. When writing failed
revert() did not take the block back, since it was not part of the state yet.
---
 src/Node.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index d9906f0..efc004c 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1130,7 +1130,18 @@ void Node::apply(	std::shared_ptr<const Block> block,
 
 			const auto& farmer_key = block->get_farmer_key();
 			farmer_block_map.insert(std::make_pair(farmer_key, block->height), info);
+		}
+
+		write_block(block);
 
+		height_map.insert(block->height, block->hash);
+		contract_cache.clear();
+
+		state_hash = block->hash;
+
+		// Note: needs to happen after state_hash is updated, since revert() only removes what is part of the current state
+		if(block->height) {
+			const auto& farmer_key = block->get_farmer_key();
 			bool found = false;
 			for(auto& entry : farmer_ranking) {
 				if(entry.first == farmer_key) {
@@ -1145,13 +1156,6 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			update_farmer_ranking();
 		}
 
-		write_block(block);
-
-		height_map.insert(block->height, block->hash);
-		contract_cache.clear();
-
-		state_hash = block->hash;
-
 		db->commit(block->height + 1);
 	}
 	catch(const std::exception& ex) {
-- 
2.43.0


From b6e58f80f7b74209c78a68a2a0b6f02a95540f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:55 +0000
Subject: [PATCH 11/21] fix: block's timelord reward addresses were not checked
 against its proofs of time

---
 src/Node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index efc004c..3177913 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1627,7 +1627,7 @@ std::vector<std::shared_ptr<const VDF_Point>>
 Node::find_vdf_points(std::shared_ptr<const BlockHeader> block) const
 {
 	const auto prev = find_prev(block);
-	if(!prev) {
+	if(!prev || block->vdf_reward_addr.size() != block->vdf_count) {
 		return {};
 	}
 	std::vector<std::shared_ptr<const VDF_Point>> out;
@@ -1648,7 +1648,8 @@ Node::find_vdf_points(std::shared_ptr<const BlockHeader> block) const
 			const auto& point = iter->second;
 			if(point->output == output
 				&& point->prev == infuse
-				&& point->num_iters == num_iters)
+				&& point->num_iters == num_iters
+				&& point->reward_addr == block->vdf_reward_addr[offset])
 			{
 				output = point->input;
 				vdf_iters += num_iters;
-- 
2.43.0


From a540963a5c75c9d9e66c70966e2625bd690249e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 12/21] fix: timelord could publish an invalid proof right
 after a restart of its VDF

---
 src/TimeLord.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeLord.cpp b/src/TimeLord.cpp
index d139b59..136b427 100644
--- a/src/TimeLord.cpp
+++ b/src/TimeLord.cpp
@@ -203,6 +203,10 @@ void TimeLord::update()
 {
 	std::unique_lock<std::mutex> lock(mutex);
 
+	if(is_reset) {
+		return;		// history still belongs to the previous VDF
+	}
+
 	// clear old requests first
 	if(!history.empty()) {
 		const auto begin = history.begin()->first;
-- 
2.43.0


From 6baf8f47040def5c6dea13c013e3df552ba0ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 13/21] fix: timelord published invalid proofs for outdated
 requests with another infusion

---
 src/TimeLord.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TimeLord.cpp b/src/TimeLord.cpp
index 136b427..08c15c0 100644
--- a/src/TimeLord.cpp
+++ b/src/TimeLord.cpp
@@ -221,8 +221,12 @@ void TimeLord::update()
 		auto end = history.find(req->end);
 		if(end != history.end())
 		{
+			// request could be outdated, in case infusion was changed since
+			const auto infused = infuse.find(req->start);
+			const bool is_valid = infused != infuse.end() && infused->second == req->infuse;
+
 			auto begin = history.find(req->start);
-			if(begin != history.end())
+			if(begin != history.end() && is_valid)
 			{
 				auto proof = ProofOfTime::create();
 				proof->vdf_height = req->vdf_height;
-- 
2.43.0


From 23ed12524f1f3f9bc4b83dd41b995b8c90d586d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 14/21] fix: ignore blocks of another height in reply to
 get_blocks_at()

---
 src/Router.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Router.cpp b/src/Router.cpp
index 68f2d7e..61242a3 100644
--- a/src/Router.cpp
+++ b/src/Router.cpp
@@ -540,7 +540,7 @@ bool Router::process(std::shared_ptr<const Return> ret)
 				else if(auto result = std::dynamic_pointer_cast<const Node_get_block_return>(ret->result)) {
 					if(auto block = result->_ret_0) {
 						const auto& hash = block->content_hash;
-						if(block->is_valid(params)) {
+						if(block->height == job->height && block->is_valid(params)) {
 							for(const auto& entry : job->got_hash) {
 								if(entry.second.second == hash) {
 									job->succeeded.insert(entry.first);
-- 
2.43.0


From 337690f687c60967056b2a7c3c183d9a966fe4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 15/21] fix: check blocks received by fetch_block() and
 fetch_block_at()

---
 src/Router.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Router.cpp b/src/Router.cpp
index 61242a3..ca65485 100644
--- a/src/Router.cpp
+++ b/src/Router.cpp
@@ -666,14 +666,22 @@ bool Router::process(std::shared_ptr<const Return> ret)
 				const auto client = iter->second;
 				if(auto result = std::dynamic_pointer_cast<const Node_get_block_at_return>(ret->result)) {
 					if(job->height) {
+						auto block = result->_ret_0;
+						if(block && (block->height != *job->height || !block->is_valid(params))) {
+							block = nullptr;
+						}
 						job->is_done = true;
-						job->callback(result->_ret_0);
+						job->callback(block);
 					}
 				} else if(auto result = std::dynamic_pointer_cast<const Node_get_block_return>(ret->result)) {
 					if(job->hash) {
-						if(result->_ret_0 || job->from_peer) {
+						auto block = result->_ret_0;
+						if(block && (block->hash != *job->hash || !block->is_valid(params))) {
+							block = nullptr;
+						}
+						if(block || job->from_peer) {
 							job->is_done = true;
-							job->callback(result->_ret_0);
+							job->callback(block);
 							log(DEBUG) << "Got block " << *job->hash << " by fetching "
 									<< job->pending.size() + job->failed.size() << " times, " << job->failed.size() << " failed, took"
 									<< (now_ms - job->start_time_ms) / 1e3 << " sec";
-- 
2.43.0


From c8f06c7dc3c4623d64091842e4cb93129f7e0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 16/21] fix: do not keep fetching a block from the same failing
 peer

---
 src/Router.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Router.cpp b/src/Router.cpp
index ca65485..0801229 100644
--- a/src/Router.cpp
+++ b/src/Router.cpp
@@ -192,8 +192,8 @@ template<typename T, typename R>
 std::vector<T> get_subset(const std::set<T>& candidates, const size_t max_count, R& engine)
 {
 	std::vector<T> result(candidates.begin(), candidates.end());
+	std::shuffle(result.begin(), result.end(), engine);
 	if(max_count < result.size()) {
-		std::shuffle(result.begin(), result.end(), engine);
 		result.resize(max_count);
 	}
 	return result;
-- 
2.43.0


From a1dcbb499cf90c7e9354c7803bdde4fd54b16eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 17/21] fix: only accept replies to a block request from the
 peer that was asked

---
 include/mmx/Router.h | 2 +-
 src/Router.cpp       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mmx/Router.h b/include/mmx/Router.h
index 4280826..ac14761 100644
--- a/include/mmx/Router.h
+++ b/include/mmx/Router.h
@@ -137,7 +137,7 @@ private:
 
 	void update();
 
-	bool process(std::shared_ptr<const Return> ret = nullptr);
+	bool process(std::shared_ptr<const Return> ret = nullptr, uint64_t from = 0);
 
 	void connect();
 
diff --git a/src/Router.cpp b/src/Router.cpp
index 0801229..0f77faf 100644
--- a/src/Router.cpp
+++ b/src/Router.cpp
@@ -512,7 +512,7 @@ void Router::update()
 	process();
 }
 
-bool Router::process(std::shared_ptr<const Return> ret)
+bool Router::process(std::shared_ptr<const Return> ret, uint64_t from)
 {
 	const auto now_ms = get_time_ms();
 
@@ -525,7 +525,7 @@ bool Router::process(std::shared_ptr<const Return> ret)
 		if(ret) {
 			// check for any returns
 			auto iter = job->request_map.find(ret->id);
-			if(iter != job->request_map.end()) {
+			if(iter != job->request_map.end() && iter->second == from) {
 				const auto client = iter->second;
 				if(auto result = std::dynamic_pointer_cast<const Node_get_block_hash_ex_return>(ret->result)) {
 					if(auto hash = result->_ret_0) {
@@ -662,7 +662,7 @@ bool Router::process(std::shared_ptr<const Return> ret)
 		if(ret) {
 			// check for any returns
 			auto iter = job->request_map.find(ret->id);
-			if(iter != job->request_map.end()) {
+			if(iter != job->request_map.end() && iter->second == from) {
 				const auto client = iter->second;
 				if(auto result = std::dynamic_pointer_cast<const Node_get_block_at_return>(ret->result)) {
 					if(job->height) {
@@ -1438,7 +1438,7 @@ void Router::on_request(uint64_t client, std::shared_ptr<const Request> msg)
 
 void Router::on_return(uint64_t client, std::shared_ptr<const Return> msg)
 {
-	if(process(msg)) {
+	if(process(msg, client)) {
 		return;
 	}
 	const auto result = msg->result;
-- 
2.43.0


From a5caf2f186a382a3a58b485d6c85b57d8c7c1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 18/21] fix: no history entries for an empty height range

With since > until (and no entry in between) get_history() returned the
entries of the block at 'until', which the caller excluded.
---
 src/Node_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index 40f2e55..dbeb4ee 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -402,7 +402,7 @@ std::vector<tx_entry_t> Node::get_history(const std::vector<addr_t>& addresses,
 	if(const auto& memo = filter.memo) {
 		return get_history_memo(addresses, *memo, filter);
 	}
-	if(filter.limit == 0) {
+	if(filter.limit == 0 || filter.since > filter.until) {
 		return {};
 	}
 	std::map<addr_t, uint32_t> count_map;
-- 
2.43.0


From f805bfcc73b887e37fff55526368d269ef3b48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:47 +0000
Subject: [PATCH 19/21] fix: read_storage() ignored the height and returned
 current values

---
 src/Node_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index dbeb4ee..3a67d2a 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -791,7 +791,7 @@ std::map<std::string, vm::varptr_t> Node::read_storage(const addr_t& contract, c
 	if(auto exec = std::dynamic_pointer_cast<const contract::Executable>(get_contract(contract))) {
 		if(auto bin = std::dynamic_pointer_cast<const contract::Binary>(get_contract(exec->binary))) {
 			for(const auto& entry : bin->fields) {
-				if(auto var = storage->read(contract, entry.second)) {
+				if(auto var = storage->read_ex(contract, entry.second, height)) {
 					out[entry.first] = std::move(var);
 				}
 			}
-- 
2.43.0


From 396f61cf279b8572a2ee90e5cfb8b49513f511d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:47 +0000
Subject: [PATCH 20/21] fix: wallet spent the same funds twice via send_from()
 of an own address, a given fee sender, or the fee for signatures

---
 include/mmx/ECDSA_Wallet.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/mmx/ECDSA_Wallet.h b/include/mmx/ECDSA_Wallet.h
index 303949a..1de81dc 100644
--- a/include/mmx/ECDSA_Wallet.h
+++ b/include/mmx/ECDSA_Wallet.h
@@ -490,6 +490,17 @@ public:
 				missing[entry.first] += entry.second;
 			}
 			std::map<std::pair<addr_t, addr_t>, uint128_t> spent_map;
+			for(const auto& in : tx->inputs) {
+				// account for existing inputs
+				const auto iter = balance_map.find(std::make_pair(in.address, in.contract));
+				if(iter != balance_map.end()) {
+					auto& spent = spent_map[iter->first];
+					spent += in.amount;
+					if(spent > iter->second) {
+						throw std::logic_error("not enough funds");
+					}
+				}
+			}
 			for(const auto& entry : missing) {
 				if(const auto& amount = entry.second) {
 					gather_inputs(tx, spent_map, amount, entry.first, options);
@@ -527,6 +538,16 @@ public:
 				}
 			}
 			sign_off(tx, options);
+
+			if(find_address(*tx->sender) >= 0) {
+				// check final fee, which includes signatures
+				const auto key = std::make_pair(*tx->sender, addr_t());
+				const auto iter = balance_map.find(key);
+				const auto total = spent_map[key] + cost_to_fee<std::logic_error>(tx->static_cost, tx->fee_ratio);
+				if(iter == balance_map.end() || total > iter->second) {
+					throw std::logic_error("insufficient funds for tx fee");
+				}
+			}
 		}
 		catch(...) {
 			if(was_locked) {
-- 
2.43.0


From 91fc3df09a63117b58194d02922c0717818ac8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:47 +0000
Subject: [PATCH 21/21] fix: wallet released pending funds of a transaction
 before seeing the balance without them

---
 src/Wallet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Wallet.cpp b/src/Wallet.cpp
index 7f35636..c08cb0f 100644
--- a/src/Wallet.cpp
+++ b/src/Wallet.cpp
@@ -643,11 +643,12 @@ void Wallet::update_cache(const uint32_t& index) const
 	{
 		const auto height = node->get_height();
 		const auto addresses = wallet->get_all_addresses();
+		// get history before balances: what is no longer pending must have been subtracted already
+		const auto history = wallet->pending_tx.empty() ? std::vector<hash_t>() :
+				node->get_tx_ids_since(wallet->height - std::min(params->commit_delay, wallet->height));
 		const auto balances = node->get_all_balances(addresses, token_whitelist);
 		const auto contracts = node->get_contracts_owned_by(addresses);
 		const auto liquidity = node->get_swap_liquidity_by(addresses);
-		const auto history = wallet->pending_tx.empty() ? std::vector<hash_t>() :
-				node->get_tx_ids_since(wallet->height - std::min(params->commit_delay, wallet->height));
 
 		wallet->external_balance_map.clear();
 		for(const auto& entry : node->get_total_balances(contracts, token_whitelist)) {
-- 
2.43.0

