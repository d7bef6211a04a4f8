From 288a6ccdbb897bd2a891035c7f406f4522950a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 01/77] fix: environment progress bar uses a valid cast, so
 that environment.cpp compiles

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6be27b1 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -233,7 +233,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From a9438dde263739d80559583b9f889cfe4c6ed10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 02/77] fix: process activation and deactivation queues once,
 without growing them while iterating

---
 esl/computation/environment.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6be27b1..3df84ed 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,8 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        // the agents are already queued, processing them must not queue again
+        const size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +70,8 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        const size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From 91023cdc93609d62052a006b30f57f95da4630a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 03/77] fix: agents with an overdue wake-up act instead of
 blocking the step forever

---
 esl/simulation/model.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..2189996 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -198,10 +198,11 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error and refused below, but a wake-up
+                // time can lie in the past if a message was sent with a delivery
+                // time that already passed, or if the model was stepped past it
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From 5ce41bcd4770b4394c0b2022763b3eed829217f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 04/77] fix: an agent keeps its wake-up for messages already
 waiting in its inbox

---
 esl/simulation/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 2189996..6dc3739 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -147,6 +147,12 @@ namespace esl::simulation {
                         stream_ << "Can't set next event to time_point (" << wake_up_ << ") before current time(" << step.lower << ")";
                         throw std::logic_error(stream_.str());
                     }
+                    // messages that were received earlier, but are to be handled
+                    // in the future, also wake up the agent
+                    auto pending_ = a->inbox.upper_bound(step.lower);
+                    if(a->inbox.end() != pending_) {
+                        wake_up_ = std::min(wake_up_, pending_->first);
+                    }
 
                     //first_event_ = std::min(first_event_, wake_up_);
 
-- 
2.43.0


From 2424d7d84a57e0982078e09e36ba940b8620083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 05/77] fix: deactivated agents no longer block simulated time

---
 esl/simulation/model.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 6dc3739..58e94a4 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -245,9 +245,15 @@ namespace esl::simulation {
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-            if(0 < messages_sent_){
-                first_event_   = determine_next_event();
+            // agents that were deactivated no longer determine the next event
+            for(auto i = wake_up_times.begin(); i != wake_up_times.end();){
+                if(agents.local_agents_.end() == agents.local_agents_.find(i->first)){
+                    i = wake_up_times.erase(i);
+                }else{
+                    ++i;
+                }
             }
+            first_event_   = determine_next_event();
 
             messages_sent += messages_sent_;
 
-- 
2.43.0


From a46b88e27f92e464915a96c06893d6df28007e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 06/77] fix: looking up an absent agent does not register a
 null agent

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..2eed751 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_) {
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From a6c93ba601785ab067f3c673ac279c493e3ccbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 07/77] fix: agents created during a step act in its next
 round, also when they are sent a message

---
 esl/simulation/model.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 58e94a4..7b155da 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -244,6 +244,13 @@ namespace esl::simulation {
                 }
             }
 
+            // agents created in this round act in the next round, which must be
+            // recorded before messages to them change their wake-up time
+            for(const auto &[i, a]: agents.local_agents_) {
+                (void) a;
+                wake_up_times.emplace(i, step.lower);
+            }
+
             auto messages_sent_ = environment_.send_messages(*this);
             // agents that were deactivated no longer determine the next event
             for(auto i = wake_up_times.begin(); i != wake_up_times.end();){
-- 
2.43.0


From c6a8d88aa71d3beb1482bf0a18582e2feb927131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 08/77] fix: block pool tracks the index of each element, so
 that it can be erased once and read back

---
 esl/computation/block_pool.hpp | 37 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..fd69940 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -27,7 +27,10 @@
 #ifndef ESL_BLOCK_POOL_HPP
 #define ESL_BLOCK_POOL_HPP
 
+#include <algorithm>
+#include <cassert>
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <stdexcept>
 #include <vector>
@@ -57,10 +60,15 @@ namespace esl::computation::block_pool {
         ///
         typedef std::uint64_t index_t;
 
+        ///
+        /// \brief  The index of blocks that hold no element
+        ///
+        constexpr static index_t unused = std::numeric_limits<index_t>::max();
+
         ///
         /// \brief  The index associated with this block
         ///
-        index_t index = 0;
+        index_t index = unused;
 
         ///
         /// \brief  A pointer to the next free block
@@ -244,7 +252,8 @@ namespace esl::computation::block_pool {
                 assigned_ = round_ * capacity() + offset_;
                 
             }
-            highest_ = std::max(highest_, assigned_ + 1);
+            highest_ = std::max<index>(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
@@ -261,7 +270,7 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(size_ == 0 || removed_->index != i || i == block<element_t_>::unused) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -280,16 +289,9 @@ namespace esl::computation::block_pool {
 
             // ->next points to the next *free* element, so we need to add 
             // the cleared element to the start of the list of free elements
-            removed_->next = end_;
-            end_           = removed_;
-
-            if(size_ == 0){
-#if DEBUG
-                throw std::exception("trying to erase non-existing element");
-#else
-                return 0;
-#endif
-            }
+            removed_->next  = end_;
+            removed_->index = block<element_t_>::unused;
+            end_            = removed_;
 
             --size_;
             return 1;
@@ -309,24 +311,25 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
         {
             assert(blocks[i % capacity()].index == i);
-            block<element_t_> *element_ = blocks[i % capacity()];
+            block<element_t_> *element_ = &blocks[i % capacity()];
 #if DEBUG
             if(!element_->set) {
                 throw std::exception("trying to access non-existing element");
             }
 #endif
-            return *element_;
+            return element_->data;
         }
 
         constexpr const_reference at(index i) const
         {
-            return at(i);
+            assert(blocks[i % capacity()].index == i);
+            return blocks[i % capacity()].data;
         }
     };
 }
-- 
2.43.0


From d9ae66164d2208abdd544c2d4553c6cfc505599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 09/77] fix: a thread pool with zero threads requested uses the
 hardware's concurrency

---
 esl/computation/thread_pool.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..793debe 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,22 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of threads to use: zero requests the concurrency
+        ///         of the hardware
+        ///
+        static unsigned int concurrency(unsigned int threads)
+        {
+            if (0 == threads) {
+                threads = std::thread::hardware_concurrency();
+                // hardware_concurrency is not guaranteed to work well on any OS
+                if (0 == threads) {
+                    threads = 1;
+                }
+            }
+            return threads;
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,17 +80,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(concurrency(threads))
+        , threads(concurrency(threads))
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
-
             auto worker_ = [this](auto i) {
                 while (true) {
                     std::function<void(void)> function_;
@@ -92,7 +100,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From a58c4c2a2de8e9508d440fffed4dd1f1d7ee2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 10/77] fix: static order book maps every valid quote, the
 highest included, to a level of its own and back

---
 .../markets/order_book/static_order_book.hpp  | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..b972326 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -147,9 +147,9 @@ namespace esl::economics::markets::order_book {
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
-                return static_cast<size_t>(
+                return static_cast<size_t>(std::llround(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
-                    * ticks + 1);
+                    * ticks)) + 1;
             }
 
         public:
@@ -181,7 +181,7 @@ namespace esl::economics::markets::order_book {
                     round(
                     (real_ - low_)
                     / (high_ - low_)
-                    * limits_.size())
+                    * (limits_.size() - 1))
                 );
                 return true;
             }
@@ -193,20 +193,22 @@ namespace esl::economics::markets::order_book {
             /// \return
             /*C++20 constexpr*/ quote default_decode(const mathematics::interval<quote> &limits, const limit &limit)
             {
-                auto high_ = double(valid_limits.upper);
-                auto low_  = double(valid_limits.lower);
-
-                auto reverse = round((double(limit) * (high_ - low_)) * limits.lower.lot * limits.lower.lot);
-
-                auto intercept_ = low_ * limits.lower.lot * limits.lower.lot;
-                return quote( (reverse/ double(limits_.size()-1) +  intercept_) / limits.lower.lot, valid_limits.lower);
+                return std::visit([&](const auto &low_) {
+                    using variant_ = std::decay_t<decltype(low_)>;
+                    const auto &high_ = std::get<variant_>(limits.upper.type);
+                    const auto span_  = double(high_.value) - double(low_.value);
+                    // the nearest value that can be quoted
+                    const auto steps_ = std::llround(double(limit) * span_ / double(limits_.size() - 1));
+                    return quote(variant_(low_.value + steps_, low_.valuation), limits.lower.lot);
+                }, limits.lower.type);
             }
 
             ///
             /// \brief
             ///
             /// \details    The tick-size is set to the minimum lot size taken
-            ///             from the minimum and maximum quotes
+            ///             from the minimum and maximum quotes, but is never
+            ///             coarser than the smallest unit of the currency
             ///
             /// \param minimum
             /// \param maximum
@@ -222,6 +224,11 @@ namespace esl::economics::markets::order_book {
             , ticks(std::min(static_cast<std::uint32_t >(minimum.lot),
                              static_cast<std::uint32_t>(maximum.lot)))
             {
+                // every value that can be quoted needs a level of its own
+                ticks = std::max(ticks, std::visit([](const auto &value_) {
+                    return static_cast<std::uint32_t>(value_.valuation.denominator);
+                }, minimum.type));
+
 
                 reports.reserve(32);
                 if(valid_limits.empty()){
-- 
2.43.0


From 4a89c538a91e6943c49ce96b94402e32f165323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 11/77] fix: static order book keeps its best quotes inside the
 book and on their own side

---
 .../markets/order_book/static_order_book.hpp  | 74 +++++++++++--------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index b972326..f800ae7 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -244,8 +244,8 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -309,7 +309,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -322,7 +322,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -330,6 +330,34 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+            ///
+            /// \brief  The nearest level with orders above a given level, or
+            ///         nullptr if there is none
+            ///
+            limit_type *next_ask(limit_type *level) const
+            {
+                for(auto i = level; i != &limits_.back();) {
+                    if((++i)->first) {
+                        return i;
+                    }
+                }
+                return nullptr;
+            }
+
+            ///
+            /// \brief  The nearest level with orders below a given level, or
+            ///         nullptr if there is none
+            ///
+            limit_type *next_bid(limit_type *level) const
+            {
+                for(auto i = level; i != &limits_.front();) {
+                    if((--i)->first) {
+                        return i;
+                    }
+                }
+                return nullptr;
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -412,21 +440,9 @@ namespace esl::economics::markets::order_book {
                         // if the aggressor was a buy order, it took away
                         // the best ask
                         if(order.side == limit_order::buy){
-                            // increase the best ask, until we find an order, or exhaust the order book
-                            // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            best_ask_ = next_ask(level);
                         }else{
-                            // decrease the best bid, until we find an order, or exhaust the order book
-                            // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            best_bid_ = next_bid(level);
                         }
                     }
                     break;
@@ -491,19 +507,13 @@ namespace esl::economics::markets::order_book {
 
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
-                    for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-                        if(!al->first){
-                            continue;
-                        }
-                        remainder_ = match_at_level(order, remainder_, al);
+                    while(best_ask_ && best_ask_ <= limit_level_ && 0 < remainder_){
+                        remainder_ = match_at_level(order, remainder_, best_ask_);
                     }
                 }else if(order.side == limit_order::sell && bid().has_value() && order.limit <= bid().value()) {
                     // direct execution: seller aggressor
-                    for(auto bl = best_bid_; bl >= limit_level_ && 0 < remainder_; --bl){
-                        if(!bl->first){
-                            continue;
-                        }
-                        remainder_ = match_at_level(order, remainder_, bl);
+                    while(best_bid_ && best_bid_ >= limit_level_ && 0 < remainder_){
+                        remainder_ = match_at_level(order, remainder_, best_bid_);
                     }
 
                 }else if(order.lifetime == limit_order::lifetime_t::immediate_or_cancel
@@ -582,9 +592,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -692,7 +702,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && displayed_ < levels; i = next_ask(i)) {
                     if(!i->first) {
                         continue;
                     }
@@ -722,7 +732,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && displayed_ < levels; i = next_bid(i)) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From b7687f6de831e55df7dc2d7d00e8a330beaaf92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 12/77] fix: cancelling in the static order book removes only
 resting orders and updates the best quotes

---
 .../markets/order_book/static_order_book.hpp  | 58 +++++++------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index f800ae7..2e5abf4 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -608,53 +608,39 @@ namespace esl::economics::markets::order_book {
             {
                 record &order_ = pool_[order];
 
-                auto side_ = limit_order::side_t::buy;
-                // if there is no bid, or the best bid is lower than this order,
-                // this must be a sell order.
-                auto bid_ = bid();
-                if(!bid_.has_value() || bid_.value() < order_.limit){
-                    side_ = limit_order::side_t::sell;
+                // the order was matched fully, cancelled before or never
+                // placed, so we can't do anything here
+                if(0 == pool_.erase(order)) {
+                    return;
                 }
 
                 limit limit_index_;
                 auto encode_success_ = encode(valid_limits, order_.limit, limit_index_);
+                assert(encode_success_);
+                (void)encode_success_;
                 limit_type *limit_level_ = &limits_[limit_index_];
 
-                
-                // The order could be cancelled/matched before, and nothing is left at this level
-                if(!limit_level_->first || !limit_level_->second) {
-                    return;
-                }
-
+                // the book is never crossed, so orders up to the best bid are
+                // buy orders, and all others are sell orders
+                auto side_ = (best_bid_ && limit_level_ <= best_bid_)
+                                 ? limit_order::side_t::buy
+                                 : limit_order::side_t::sell;
 
-                if(limit_level_->first->index == order) {
-                    limits_[limit_index_].first =
-                        limit_level_->first->data.successor;
+                if(!order_.predecessor) {
+                    limit_level_->first = order_.successor;
                 }
 
-
-                if(limit_level_->second->index == order) {
-                    limits_[limit_index_].second =
-                        limit_level_->second->data.predecessor;
+                if(!order_.successor) {
+                    limit_level_->second = order_.predecessor;
                 }
 
-                // either both were set to an order
-                bool both_set_ = (limits_[limit_index_].first
-                                  && limits_[limit_index_].second);
-                // or both are empty
-                bool none_set_ = (!limits_[limit_index_].first
-                                  && !limits_[limit_index_].second);
-
-                assert(both_set_ || none_set_ );
-
-                auto result_ = pool_.erase(order);
-
-                // canceled
-                if(0 == result_) {
-                    // the order was matched fully/cancelled before, so we can't
-                    // do anything here
-                    //LOG(warning) << "canceled dead order << " << order << std::endl;
-                    return;
+                // the last order at the best quote was removed
+                if(!limit_level_->first) {
+                    if(limit_level_ == best_bid_) {
+                        best_bid_ = next_bid(limit_level_);
+                    } else if(limit_level_ == best_ask_) {
+                        best_ask_ = next_ask(limit_level_);
+                    }
                 }
 /*
                 std::cout << "cancelling an order of " << order_.quantity
-- 
2.43.0


From f67c76cffa636aeb765e5b9d712677ccd4f83097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 13/77] fix: malformed orders are reported as invalid by both
 order books

---
 .../markets/order_book/binary_tree_order_book.hpp    | 12 ++++++++++++
 .../markets/order_book/static_order_book.hpp         |  8 ++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..3dbf1a2 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -110,6 +110,18 @@ namespace esl::economics::markets::order_book {
         /// \param order
         void insert(const limit_order &order) override
         {
+            if(0 == order.quantity) {
+                reports.emplace_back(execution_report (
+                    execution_report::invalid,
+                    order.side,
+                    order.quantity,
+                    direct_order,
+                    order.limit,
+                    order.owner
+                ));
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 2e5abf4..adca3b9 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -458,9 +458,13 @@ namespace esl::economics::markets::order_book {
             /// \return
             void insert(const limit_order &order) override
             {
-                if(!valid_limits.contains(order.limit) || 0 >= order.quantity || order.limit.lot != valid_limits.lower.lot ){
+                // quotes with different lot sizes can not be compared
+                const bool equal_lot_ = order.limit.lot == valid_limits.lower.lot;
+                const bool in_range_  = equal_lot_ && valid_limits.contains(order.limit);
 
-                    if(!valid_limits.contains(order.limit)){
+                if(!in_range_ || 0 >= order.quantity || !equal_lot_){
+
+                    if(equal_lot_ && !in_range_){
                         LOG(warning) << "Order invalid because it is outside the accepted range: " << this->valid_limits << std::endl;
                     }
 
-- 
2.43.0


From d605a45ecbd56ce9e35601af30f2d78456b4cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 14/77] fix: cancelled orders are no longer listed by the tree
 order book

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index 3dbf1a2..0973a0d 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -281,6 +281,7 @@ namespace esl::economics::markets::order_book {
                                 , i->second.second.owner
                                 });
                             orders_bid.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
@@ -299,6 +300,7 @@ namespace esl::economics::markets::order_book {
                                 , o->second
                                 , i->second.second.owner});
                             orders_ask.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
-- 
2.43.0


From 69ba20ac8eb6bf902681d40c77b50d745b4f8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 15/77] fix: both order books honour immediate-or-cancel and
 fill-or-kill

---
 .../order_book/binary_tree_order_book.hpp     | 46 ++++++++++++++++++-
 .../markets/order_book/static_order_book.hpp  | 40 ++++++++++++++--
 2 files changed, 81 insertions(+), 5 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index 0973a0d..3e0a5c4 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -104,6 +104,39 @@ namespace esl::economics::markets::order_book {
             return quote(orders_ask.begin()->first);
         }
 
+        ///
+        /// \brief  Whether the resting orders meet the full quantity of the order
+        ///
+        [[nodiscard]] bool fillable(const limit_order &order) const
+        {
+            std::uint64_t available_ = 0;
+            if(limit_order::side_t::buy == order.side) {
+                for(auto i = orders_ask.begin(); i != orders_ask.end() && order.limit >= i->first; ++i) {
+                    available_ += i->second.second.quantity;
+                }
+            }else{
+                for(auto i = orders_bid.begin(); i != orders_bid.end() && order.limit <= i->first; ++i) {
+                    available_ += i->second.second.quantity;
+                }
+            }
+            return available_ >= order.quantity;
+        }
+
+        ///
+        /// \brief  Reports the quantity of an order that is neither matched nor placed
+        ///
+        void reject(const limit_order &order, std::uint32_t quantity)
+        {
+            reports.emplace_back(execution_report (
+                execution_report::cancel,
+                order.side,
+                quantity,
+                direct_order,
+                order.limit,
+                order.owner
+            ));
+        }
+
         ///
         /// \brief
         ///
@@ -122,6 +155,11 @@ namespace esl::economics::markets::order_book {
                 return;
             }
 
+            if(order.lifetime == limit_order::lifetime_t::fill_or_kill && !fillable(order)) {
+                reject(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -172,7 +210,9 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime == limit_order::lifetime_t::immediate_or_cancel) {
+                    reject(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -238,7 +278,9 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime == limit_order::lifetime_t::immediate_or_cancel) {
+                    reject(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index adca3b9..6b5b275 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -358,6 +358,27 @@ namespace esl::economics::markets::order_book {
                 return nullptr;
             }
 
+            ///
+            /// \brief  Whether the resting orders up to the given level meet
+            ///         the full quantity of the order
+            ///
+            [[nodiscard]] bool fillable(const limit_order &order, limit_type *limit_level) const
+            {
+                const bool buy_ = order.side == limit_order::buy;
+                std::uint64_t available_ = 0;
+                for(auto level = buy_ ? best_ask_ : best_bid_
+                   ; level && (buy_ ? level <= limit_level : level >= limit_level)
+                   ; level = buy_ ? next_ask(level) : next_bid(level)) {
+                    for(auto o = level->first; o; o = o->data.successor) {
+                        available_ += o->data.quantity;
+                        if(available_ >= order.quantity) {
+                            return true;
+                        }
+                    }
+                }
+                return false;
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -509,6 +530,20 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                   && !fillable(order, limit_level_)) {
+                    // an order that can not be filled completely is not matched at all
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     while(best_ask_ && best_ask_ <= limit_level_ && 0 < remainder_){
@@ -520,9 +555,8 @@ namespace esl::economics::markets::order_book {
                         remainder_ = match_at_level(order, remainder_, best_bid_);
                     }
 
-                }else if(order.lifetime == limit_order::lifetime_t::immediate_or_cancel
-                           || order.lifetime == limit_order::lifetime_t::fill_or_kill){
-                    // cancel an immediate/fill order that could not be matched
+                }else if(order.lifetime == limit_order::lifetime_t::immediate_or_cancel){
+                    // cancel an immediate order that could not be matched
                     reports.emplace_back(execution_report
                                              ( execution_report::cancel
                                              , order.side
-- 
2.43.0


From 13d6a922ef69fb6bea3cb019859231f720986f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 16/77] fix: refused inventory removals and insertions change
 nothing, and absent or foreign items are not dereferenced

---
 esl/economics/accounting/inventory.hpp | 39 ++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..067f910 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,7 +205,10 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
+            if(items.end() == iterator_) {
+                if(q.amount == 0) {
+                    return;
+                }
                 throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
             }
 
@@ -218,6 +221,15 @@ namespace esl::economics::accounting {
 
         void erase(const inventory_by_fungibility<property_t_, true> &removed)
         {
+            // verify before removing anything, so that a refused removal
+            // leaves the inventory as it was
+            for(const auto &[k, v]: removed.items) {
+                auto i = items.find(k);
+                const auto held_ = items.end() == i ? quantity(0) : i->second;
+                if(held_ < v) {
+                    throw insufficent_inventory(held_, v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+            }
             for(const auto &[k, v]: removed.items) {
                 erase(k, v);
             }
@@ -243,6 +255,9 @@ namespace esl::economics::accounting {
                 if(v == 0){
                     continue;
                 }
+
+                // verify before removing anything, so that a refused removal
+                // leaves the inventory as it was
                 auto i = m.find(k);
                 if(m.end() == i) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " no entry was found" << std::endl;
@@ -250,7 +265,16 @@ namespace esl::economics::accounting {
                 } else if(i->second < v) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " there were insufficient ("<<i->second<<") items to withdraw " << v << std::endl;
                     throw insufficent_inventory(i->second, v, k->identifier, k->name());
-                } else if(i->second == v) {
+                }
+            }
+
+            for(auto [k, v] : items) {
+                if(v == 0){
+                    continue;
+                }
+
+                auto i = m.find(k);
+                if(i->second == v) {
                     m.erase(k);
                 } else {
                     i->second -= v;
@@ -314,19 +338,22 @@ namespace esl::economics::accounting {
         /// property \param values
         void erase(const law::property_set &values)
         {
-            items.erase(values.begin(), values.end());
+            for(const auto &value_ : values) {
+                items.erase(value_);
+            }
         }
 
         void insert_into(law::property_map<quantity> &m) const
         {
             for(auto k : items) {
                 auto i = m.find(k);
-                if(m.end() == i) {
-                    m.insert({k, quantity(1)});
-                } else {
+                if(m.end() != i) {
                     throw duplicate_infungible(i->second + 1);
                 }
             }
+            for(auto k : items) {
+                m.insert({k, quantity(1)});
+            }
         }
 
         /*
-- 
2.43.0


From 7f410c5d2a941f80d79f011379861dbf015df473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 17/77] fix: transfers to oneself and repeated taking keep
 filtered properties equal to the inventory

---
 esl/economics/owner.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..08d9739 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee){
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
@@ -251,9 +255,14 @@ namespace esl::law {
 
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
-            this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            typedef detail::filter_inserter<
+                std::is_base_of<economics::fungible, property_t_>::value,
+                property_t_> inserter_t_;
+
+            economics::accounting::inventory_filter<property_t_> taken_;
+            inserter_t_().insert(taken_, property, amount);
+            taken_.insert_into(esl::law::owner<esl::law::property>::inventory);
+            inserter_t_().insert(this->properties, property, amount);
         }
 
 
-- 
2.43.0


From 84642b96ab6e9fec9c573ebaf4de24a126899c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 18/77] fix: decrementing a quantity lowers it, and is refused
 at zero

---
 esl/quantity.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..d990ccc 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            (*this) -= quantity(1);
             return *this;
         }
 
@@ -333,7 +333,9 @@ namespace esl {
 
         [[nodiscard]] constexpr quantity operator -- (int)
         {
-            return quantity(amount--);
+            const quantity previous_ = *this;
+            amount = ((*this) - quantity(1)).amount;
+            return previous_;
         }
 
 
-- 
2.43.0


From 4ff957c00e832f1d2eee953865f7131287f3364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 19/77] fix: arithmetic on prices of different currencies is
 refused in all builds

---
 esl/economics/price.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..a83fa8e 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -28,6 +28,7 @@
 #include <sstream>
 #include <string>
 #include <locale>
+#include <stdexcept>
 
 
 #include <esl/economics/iso_4217.hpp>
@@ -160,13 +161,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator + (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value + operand.value, valuation);
         }
 
         constexpr price &operator += (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value += operand.value;
             return *this;
         }
@@ -178,13 +179,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator - (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value - operand.value, valuation);
         }
 
         constexpr price &operator -= (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value -= operand.value;
             return *this;
         }
@@ -192,26 +193,26 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator*(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value * operand.value, valuation);
         }
 
         constexpr price &operator*=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value *= operand.value;
             return *this;
         }
 
         [[nodiscard]] constexpr price operator/(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value / operand.value, valuation);
         }
 
         constexpr price &operator/=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value /= operand.value;
             return *this;
         }
-- 
2.43.0


From b242596ed980f7bb94b1bd10eaa5a73621b69071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 20/77] fix: comparing quotes checks the lots with every
 operator, and does not overflow for large lots

---
 esl/economics/markets/quote.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..15dca17 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -159,7 +159,7 @@ namespace esl::economics::markets {
                 using variant_ = std::decay_t<decltype(k)>;
 
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) == ( (*vp) * other.lot );
+                    return k == (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -174,7 +174,7 @@ namespace esl::economics::markets {
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) != ((*vp) * other.lot );
+                    return k != (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -190,7 +190,7 @@ namespace esl::economics::markets {
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) < ((*vp) * other.lot );
+                    return k < (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -206,7 +206,7 @@ namespace esl::economics::markets {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) > (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) > ((*vp) * other.lot );
+                    return k > (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -222,7 +222,7 @@ namespace esl::economics::markets {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) <= (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) <= ((*vp) * other.lot );
+                    return k <= (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -231,12 +231,13 @@ namespace esl::economics::markets {
         [[nodiscard]] constexpr bool operator >= (const quote &other) const
         {
             assert_equal_type_(other);
+            assert_equal_lot_(other);
 
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) >= ((*vp) * other.lot );
+                    return k >= (*vp);
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
-- 
2.43.0


From b16b61d27809564d0f92d92b58651caaf43e10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 21/77] fix: loading a price or a quote restores the saved
 amount and currency

---
 esl/economics/markets/quote.hpp |  6 +-----
 esl/economics/price.hpp         | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 15dca17..48d2cad 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -378,11 +378,7 @@ namespace esl::economics::markets {
 
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
-            if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
+            if(0 == index_ || 1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index a83fa8e..f4a7d94 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -344,6 +344,23 @@ namespace esl::economics {
             std::string res_ = stream_.str();
 
             archive & boost::serialization::make_nvp("price", res_);
+
+            if constexpr(archive_t::is_loading::value) {
+                // the format is the one written above, e.g. `USD 123/100`
+                if(res_.size() < 7) {
+                    throw std::invalid_argument("malformed price");
+                }
+                std::int64_t value_        = 0;
+                std::uint64_t denominator_ = 0;
+                char separator_            = 0;
+                std::stringstream amount_(res_.substr(3));
+                if(!(amount_ >> value_ >> separator_ >> denominator_)
+                   || '/' != separator_) {
+                    throw std::invalid_argument("malformed price");
+                }
+                value     = value_;
+                valuation = iso_4217({res_[0], res_[1], res_[2]}, denominator_);
+            }
         }
     };
 }
-- 
2.43.0


From 68ed3133e83cc6cce735f411c2741e44ddabcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 22/77] fix: negative prices are converted by exchange rates
 with signed arithmetic

---
 esl/economics/exchange_rate.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..3725546 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,12 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            // signed arithmetic, because prices can be negative
+            const auto numerator_   = static_cast<int64_t>(numerator());
+            const auto denominator_ = static_cast<int64_t>(denominator());
+            return price( (p.value / denominator_) * numerator_
+                        + (p.value % denominator_) * numerator_ / denominator_
+                        , p.valuation);
         }
 
 
-- 
2.43.0


From d426d8a7defa8b93a51fa3682e20276ad119f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 23/77] fix: rates are archived with their full width, and
 exchange rates can be archived

---
 esl/economics/exchange_rate.hpp | 2 +-
 esl/mathematics/rational.hpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 3725546..3b62925 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -161,7 +161,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..13439b9 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n = 0, d = 1;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From 0d12d2254646eaa509498e9e094ff825225b59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 24/77] fix: TND, CLF and UYI have the minor units given by ISO
 4217

---
 esl/economics/currencies.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/currencies.hpp b/esl/economics/currencies.hpp
index 155c12d..3145ea3 100644
--- a/esl/economics/currencies.hpp
+++ b/esl/economics/currencies.hpp
@@ -68,7 +68,7 @@ namespace esl::economics {
         constexpr iso_4217 CHE = iso_4217({'C', 'H', 'E'});
         constexpr iso_4217 CHF = iso_4217({'C', 'H', 'F'});
         constexpr iso_4217 CHW = iso_4217({'C', 'H', 'W'});
-        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'});
+        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'}, 10000);
         constexpr iso_4217 CLP = iso_4217({'C', 'L', 'P'}, 1);
         constexpr iso_4217 CNY = iso_4217({'C', 'N', 'Y'});
         constexpr iso_4217 COP = iso_4217({'C', 'O', 'P'});
@@ -177,7 +177,7 @@ namespace esl::economics {
         constexpr iso_4217 THB = iso_4217({'T', 'H', 'B'});
         constexpr iso_4217 TJS = iso_4217({'T', 'J', 'S'});
         constexpr iso_4217 TMT = iso_4217({'T', 'M', 'T'});
-        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'});
+        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'}, 1000);
         constexpr iso_4217 TOP = iso_4217({'T', 'O', 'P'});
         constexpr iso_4217 TRY = iso_4217({'T', 'R', 'Y'});
         constexpr iso_4217 TTD = iso_4217({'T', 'T', 'D'});
@@ -187,7 +187,7 @@ namespace esl::economics {
         constexpr iso_4217 UGX = iso_4217({'U', 'G', 'X'}, 1);
         constexpr iso_4217 USD = iso_4217({'U', 'S', 'D'});
 //        constexpr iso_4217 USN = iso_4217({'U', 'S', 'N'});
-        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'});
+        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'}, 1);
         constexpr iso_4217 UYU = iso_4217({'U', 'Y', 'U'});
         constexpr iso_4217 UZS = iso_4217({'U', 'Z', 'S'});
         constexpr iso_4217 VEF = iso_4217({'V', 'E', 'F'});
-- 
2.43.0


From 1f73e94c439c347191cdfd127333b1d11ed3dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 25/77] fix: rounding away from zero compiles, and keeps whole
 numbers

---
 esl/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index f031d91..a73707c 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -155,7 +155,7 @@ namespace esl {
         template<typename floating_t_, typename integer_t_ = int64_t>
         integer_t_ integer_away_from_zero(floating_t_ value)
         {
-            return integer_t_(std::trunc(value) + sign(value));
+            return integer_t_(value < 0 ? std::floor(value) : std::ceil(value));
         }
     }  // namespace rounding
 
-- 
2.43.0


From 99e4aab7cf5f140de9345b6693e79d32be45b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 26/77] fix: allocating fractions keeps whole parts, and
 handles parts rounded up too often

---
 esl/algorithms.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index a73707c..2e747bb 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -206,11 +206,11 @@ namespace esl {
         std::vector<int> result_;
         for(const auto &f : fractions) {
             sum_ += f;
-            near_ += round(f);
-            result_.push_back(round(abs(f)));
+            near_ += std::round(f);
+            result_.push_back(std::round(std::abs(f)));
         }
 
-        int target_ = round(sum_);
+        int target_ = std::round(sum_);
         if(near_ == target_) {
             return result_;
         }
@@ -220,14 +220,20 @@ namespace esl {
         sort(indices_.begin(),
              indices_.end(),
              [&fractions](size_t i1, size_t i2) {
-                 return (fractions[i1] - std::nearbyint(fractions[i1]))
-                        > (fractions[i2] - std::nearbyint(fractions[i2]));
+                 return (fractions[i1] - std::round(fractions[i1]))
+                        > (fractions[i2] - std::round(fractions[i2]));
              });
 
-        for(size_t i = 0; i < (target_ - near_); ++i) {
+        // allocate what is missing to those that were rounded down the most
+        for(int i = 0; i < (target_ - near_); ++i) {
             ++result_[indices_[i]];
         }
 
+        // take away the excess from those that were rounded up the most
+        for(int i = 0; i < (near_ - target_); ++i) {
+            --result_[indices_[indices_.size() - 1 - i]];
+        }
+
         return result_;
     }
 
-- 
2.43.0


From b190780e9073f0f8adc14862e775644a2e036e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 27/77] fix: the growth rate is the mean over the number of
 growth steps

---
 esl/algorithms.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 2e747bb..571d404 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -181,13 +181,17 @@ namespace esl {
     {
         auto result_log_ =
             typename std::iterator_traits<iterator_t_>::value_type(0);
-        size_t elements_ = 1;
+        size_t elements_ = 0;
         auto next_ = std::next(begin);
 
         for(begin; next_ != end; ++begin, ++next_, ++elements_) {
             result_log_ += std::log(*next_) - std::log(*begin);
         }
 
+        if(0 == elements_) {
+            return 0;
+        }
+
         return std::exp(result_log_ / elements_) - 1;
     }
 
-- 
2.43.0


From 6b2865454b31437d050428e0584f263b0a729a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 28/77] fix: the number of threads given to a parametrization
 is stored

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 19fafeea3a97b970c1889393d7a45905de41a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 29/77] fix: the zero-truncated Poisson distribution is usable,
 and has the right probabilities

---
 esl/mathematics/zero_truncated_poisson_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/mathematics/zero_truncated_poisson_distribution.hpp b/esl/mathematics/zero_truncated_poisson_distribution.hpp
index d3a67e3..8994cdd 100644
--- a/esl/mathematics/zero_truncated_poisson_distribution.hpp
+++ b/esl/mathematics/zero_truncated_poisson_distribution.hpp
@@ -32,6 +32,7 @@
 template<typename integer_t_ = int>
 class zero_truncated_poisson_distribution
 {
+public:
     typedef integer_t_ result_type;
 
     ///
@@ -59,7 +60,7 @@ class zero_truncated_poisson_distribution
         result_type k = 1;
 
         for(; s < u && k < std::numeric_limits<result_type>::max(); ++k){
-            t *= (lambda / k);
+            t *= (lambda / (k + 1.));
             s += t;
         }
 
-- 
2.43.0


From ac1fb4e2e3587ea06edc108cea7d1ecf6295ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 30/77] fix: sampling parameters uniformly compiles

---
 esl/simulation/parameter/sampler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..21c2c76 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -62,7 +62,7 @@ namespace esl::simulation::parameter {
             for(const auto &p: parameters){
                 // the upper bound is exclusive in the distribution, so we move
                 // the bound up
-                distributions_.template emplace(p, std::uniform_real_distribution<number_t_>
+                distributions_.emplace(p, std::uniform_real_distribution<number_t_>
                     ( p->lower
                     , std::nextafter(p->upper, std::numeric_limits<number_t_>::infinity())));
             }
@@ -73,9 +73,9 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    sample_[p] = distributions_[p](generator_);
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From 7027edf0d6b34119fa7c36a5cc9264d090a4b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 31/77] fix: rates can be compared with !=, <= and >=

---
 esl/economics/rate.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/esl/economics/rate.hpp b/esl/economics/rate.hpp
index 922c0ff..8f59701 100644
--- a/esl/economics/rate.hpp
+++ b/esl/economics/rate.hpp
@@ -76,6 +76,23 @@ namespace esl::economics {
 
         virtual ~rate() = default;
 
+        // These operators of the base are not available for its derived types:
+        // without this operator, `!=` compares whether the rates are nonzero.
+        [[nodiscard]] bool operator != (const rate<integer_type_> &operand) const
+        {
+            return !this->operator==(static_cast<const boost::rational<integer_type_> &>(operand));
+        }
+
+        [[nodiscard]] bool operator <= (const rate<integer_type_> &operand) const
+        {
+            return !this->operator>(static_cast<const boost::rational<integer_type_> &>(operand));
+        }
+
+        [[nodiscard]] bool operator >= (const rate<integer_type_> &operand) const
+        {
+            return !this->operator<(static_cast<const boost::rational<integer_type_> &>(operand));
+        }
+
         //rate<integer_type_> &operator=(const rate<integer_type_> &o)
         //{
         //    boost::rational<integer_type_>::operator=(o);
-- 
2.43.0


From 9cd76becbf50d7c8f8f05a573203d984b91efbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 32/77] fix: participants that log on to an exchange are
 registered in each of its markets

---
 esl/economics/markets/centralized_exchange.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..0eedf00 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,13 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                // the ticker itself may have been registered before
+                positions[t].insert_or_assign(m->sender, position_);
             }
             return ti.upper;
         }
-- 
2.43.0


From ff6b1affc17f13d8a81bf2ad5304063362a15944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 33/77] fix: market data can be streamed by the first
 subscriber, and cancelled without a subscription

---
 esl/economics/markets/centralized_exchange.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 0eedf00..0687ba3 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -489,14 +489,8 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            instrument_->second.erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From 35c095a78fc3d6afd445c5186bf7a1811c5b80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 34/77] fix: a snapshot of market data is sent once, when it is
 requested

---
 .../markets/centralized_exchange.hpp          | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 0687ba3..5e22755 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -383,7 +383,7 @@ namespace esl::economics::markets {
                 if((trade_ && r.owner == m->sender) || best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
-                        if(details_.start + details_.periodicity > ti.lower) {
+                        if(details_.start > ti.lower || ti.lower - details_.start < details_.periodicity) {
                             continue;
                         }
 
@@ -466,24 +466,27 @@ namespace esl::economics::markets {
                     for(const auto &i: m->instruments){
                         if(market_data_request_message::snapshot == m->type){
                             
-                            // periodicity is set to max
-                      
-                            auto subscription_ =
-                                market_data_subscriptions[i].find(m->sender);
-
-                            centralized_exchange::data_subscription s;
-                            s.depth       = m->depth;
-                            s.start       = ti.lower;
-                            s.periodicity = std::numeric_limits<simulation::time_point>::max();
-
-                            if(market_data_subscriptions[i].end()
-                               == subscription_) {
-                                market_data_subscriptions[i].insert(
-                                    {m->sender, s});
-                            } else {
-                                subscription_->second = s;
+                            // answered once, with the current state of the book
+                            auto book_ = books.find(i);
+                            if(books.end() == book_) {
+                                continue;
+                            }
+
+                            simulation::time_point arrival_ = ti.lower;
+                            if(communication_model) {
+                                arrival_ += communication_model->sample(identifier, m->sender, s);
+                            }
+                            auto market_data_ = this->template create_message<market_data_message>(m->sender, arrival_);
+                            market_data_->sender = (*this);
+                            market_data_->sent   = ti.lower;
+                            market_data_->symbol = i;
+
+                            if(book_->second->ask().has_value()) {
+                                market_data_->ask.push_back({book_->second->ask().value(), 1});
+                            }
+                            if(book_->second->bid().has_value()) {
+                                market_data_->bid.push_back({book_->second->bid().value(), 1});
                             }
-                               
                         }else if(market_data_request_message::cancel == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
                             if(market_data_subscriptions.end() == instrument_) {
-- 
2.43.0


From cc005bc37cbbc9f33c33351855feb9a16335580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 35/77] fix: each trade is published once to market data
 subscribers

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5e22755..6e65d27 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -380,7 +380,7 @@ namespace esl::economics::markets {
                 auto trade_ = (r.state == execution_report::state_t::match);
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
+                if(trade_ ? basic_book::direct_order == r.identifier : best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
                         if(details_.start > ti.lower || ti.lower - details_.start < details_.periodicity) {
-- 
2.43.0


From 93ac4c000102be73203703f1a5c3d0fc3f7e2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 36/77] fix: cancelling an order through an exchange reports it
 to its owner and to market data subscribers

---
 .../markets/centralized_exchange.hpp          | 51 +++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 6e65d27..b1f360e 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -303,9 +303,28 @@ namespace esl::economics::markets {
             const auto bid_ = b.bid();
 
             b.insert(m->order_details);
+            send_reports(b, m->order_details, m->sender, ask_, bid_, ti, seed);
+            return ti.upper;
+        }
 
-            market_data data_;
-
+        ///
+        /// \brief  Sends the reports that an order or its cancellation generated to the owners of the orders
+        ///         concerned, and updates the subscribers to the market data.
+        ///
+        /// \param b        The book, with the reports to send
+        /// \param order    The order that was inserted or cancelled
+        /// \param sender   The agent that sent the order or its cancellation
+        /// \param ask_     The best ask before the reports were generated
+        /// \param bid_     The best bid before the reports were generated
+        void send_reports( order_book::basic_book &b
+                         , const limit_order &order
+                         , const identity<agent> &sender
+                         , const std::optional<quote> &ask_
+                         , const std::optional<quote> &bid_
+                         , simulation::time_interval ti
+                         , std::seed_seq &seed
+                         )
+        {
             for(const auto & r: b.reports){
                 //////////////////////////////////////////////////////////////////////////////////////////////////////
                 //if(r.owner == m->sender) {
@@ -348,10 +367,10 @@ namespace esl::economics::markets {
 
                 // we do not log rejected messages, so that later analyses do not accidently use these
                 // invalid orders should not be part of the simulation
-                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == m->sender) {
+                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == sender) {
                     output_orders->put( ti.lower
                                       , std::make_tuple
-                                        ( m->order_details.symbol
+                                        ( order.symbol
                                         , r.limit
                                         , r.owner
                                         , r.side
@@ -364,16 +383,16 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, sender, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-                    response_->order  = m->order_details;
+                    response_->order  = order;
                     response_->sent   = ti.lower;
                     response_->report = r;
                 }
                 // if no one wants market data on this symbol, skip the next steps.
-                if(market_data_subscriptions.end() == market_data_subscriptions.find(m->order_details.symbol)) {
+                if(market_data_subscriptions.end() == market_data_subscriptions.find(order.symbol)) {
                     continue;
                 }
                 // if the order resulted in a match, update market data feed (once, as there will be two reports)
@@ -381,7 +400,7 @@ namespace esl::economics::markets {
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
                 if(trade_ ? basic_book::direct_order == r.identifier : best_bid_ask_){
-                    for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
+                    for(auto &[subscriber_, details_]: market_data_subscriptions[order.symbol]) {
 
                         if(details_.start > ti.lower || ti.lower - details_.start < details_.periodicity) {
                             continue;
@@ -401,7 +420,7 @@ namespace esl::economics::markets {
                         auto market_data_ = this->template create_message<market_data_message>(subscriber_, arrival_);
                         market_data_->sender = (*this);
                         market_data_->sent   = ti.lower;
-                        market_data_->symbol = m->order_details.symbol;
+                        market_data_->symbol = order.symbol;
 
                         if(trade_) {
                             market_data_->trades.push_back({r.limit, r.quantity});
@@ -417,7 +436,6 @@ namespace esl::economics::markets {
                 }
             }
             b.reports.clear();
-            return ti.upper;
         }
 
         ///
@@ -539,7 +557,20 @@ namespace esl::economics::markets {
                                       , simulation::time_interval step
                                       , std::seed_seq &s) 
                                     { 
+                                        auto i = books.find(m->symbol);
+                                        if(books.end() == i) {
+                                            return step.upper;
+                                        }
+                                        auto &b = *(i->second);
+                                        const auto ask_ = b.ask();
+                                        const auto bid_ = b.bid();
                                         cancel(m->symbol, m->order); 
+                                        if(!b.reports.empty()) {
+                                            // the order as it was when it was cancelled
+                                            const auto &r = b.reports.front();
+                                            limit_order order_(m->symbol, r.owner, r.side, r.limit, r.quantity);
+                                            send_reports(b, order_, m->sender, ask_, bid_, step, s);
+                                        }
                                         return step.upper;
                                     }
                                  , "cancel existing order");
-- 
2.43.0


From 91ed0c7868e1bd8da004cbedd7a9438bc882b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 37/77] fix: Avellaneda-Stoikov quotes of a risk-neutral market
 maker are finite

---
 esl/economics/markets/order_book/avellaneda_stoikov.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/order_book/avellaneda_stoikov.hpp b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
index 30758eb..beb5f72 100644
--- a/esl/economics/markets/order_book/avellaneda_stoikov.hpp
+++ b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
@@ -66,7 +66,9 @@ namespace esl::economics::markets::order_book{
         assert(0 <= theta && theta <= 1.0);
         assert(sigma > 0.);
         double reservation_ = double(mid) - (double(n_long) - double(n_short)) * gamma * sigma*sigma * (1. - theta);
-        double spread_ = gamma * (sigma * sigma) * (1. - theta) + 2./gamma * std::log(1+gamma/k);
+        // the limit of (2/gamma) * log(1 + gamma/k) as risk aversion vanishes is 2/k
+        double arrival_ = (gamma > 0.) ? 2./gamma * std::log1p(gamma/k) : 2./k;
+        double spread_ = gamma * (sigma * sigma) * (1. - theta) + arrival_;
         auto bid_ = static_cast<std::int64_t>(std::floor( (reservation_ - spread_/2) * mid.valuation.denominator));
         auto ask_ = static_cast<std::int64_t>(std::ceil( (reservation_ + spread_/2) * mid.valuation.denominator));
 
-- 
2.43.0


From 08021e322533bc13c3dc798bb3a103858bf2f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 38/77] fix: dividends per share are amounts for each share
 that do not exceed the profit

---
 esl/economics/company.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..0d2c3a8 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -66,16 +66,24 @@ namespace esl::economics {
         }
 
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
-
-        double fraction_ = double(unappropriated_profit) / total_shares();
-
+        std::uint64_t eligible_shares_ = 0;
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
-                result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                eligible_shares_ += q;
+            }
+        }
+        if(0 == eligible_shares_){
+            return result_;
+        }
+        // the amount for each share, truncated to a whole unit of currency
+        const auto per_share_ = price( static_cast<std::int64_t>(
+            std::uint64_t(unappropriated_profit.value) / eligible_shares_)
+            , unappropriated_profit.valuation);
+        for(const auto &[s, q]: shares_outstanding) {
+            if(s.dividend) {
+                result_.insert(make_pair(s, std::make_tuple(q, per_share_)));
             }
         }
-
         return result_;
     }
 
-- 
2.43.0


From eafa936af8300d4e2373cd9e3ea107c45a88416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 39/77] fix: a company that announced a dividend next acts on
 the payable date, not in the past

---
 esl/economics/company.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 0d2c3a8..450953e 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -184,8 +184,10 @@ namespace esl::economics {
                    }*/
             }
         } else {
-            next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+            if(interval.lower >= policy_.announcement_date) {
+                next_event_ = std::min<simulation::time_point>(
+                    policy_.payable_date, next_event_);
+            }
         }
         return next_event_;
     }
-- 
2.43.0


From d54e68721a0e4a95f271da56efd34c52c615415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 40/77] fix: a shareholder answers each dividend announcement
 once

---
 esl/economics/finance/shareholder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..f880601 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -86,15 +86,18 @@ namespace esl::economics::finance {
     simulation::time_point
     shareholder::submit_dividend_record(simulation::time_interval interval)
     {
-        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
-            ++i) {
+        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();) {
             const auto &[s, c] = *i;
             if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
                 if(shares.find(c) != shares.end()) {
                     auto record_ = this->create_message<dividend_record>(
                         c, 0, this->identifier, c, shares[c]);
+                    // one reply for each announcement
+                    i = ex_dividend_dates.erase(i);
+                    continue;
                 }
             }
+            ++i;
         }
         return interval.upper;
     }
-- 
2.43.0


From 3deb7aa09834a776ea375752dfc432016c911e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 41/77] fix: holdings of shares without a known stock are
 refused instead of read out of bounds

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index f880601..282e388 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -110,7 +110,7 @@ namespace esl::economics::finance {
         for(const auto &[k, v] : shares) {
             for(const auto &[share_, amount_] : v) {
                 auto key_         = std::make_tuple(k, share_);
-                auto property_id_ = stocks.find(key_)->second;
+                auto property_id_ = stocks.at(key_);
 
                 auto iterator_ = result_.find(property_id_);
 
-- 
2.43.0


From 1408f0f12a1555155000bf41666158b3b6e700a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 42/77] fix: different share classes of the same rank are kept
 apart in ordered containers

---
 esl/economics/finance/share_class.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..c0121d4 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -109,7 +109,22 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            if(rank != s.rank){
+                return rank < s.rank;
+            }
+            if(votes != s.votes){
+                return votes < s.votes;
+            }
+            if(preference != s.preference){
+                return preference < s.preference;
+            }
+            if(dividend != s.dividend){
+                return dividend < s.dividend;
+            }
+            if(cumulative != s.cumulative){
+                return cumulative < s.cumulative;
+            }
+            return redeemable < s.redeemable;
         }
 
         template<class archive_t>
-- 
2.43.0


From 373a73e6d1cfd64697f6be3788f61d3a850c3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 43/77] fix: money in a foreign currency is valued in the
 reporting currency

---
 esl/economics/accounting/standard.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..b0034a0 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -83,7 +83,7 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign_).value, reporting_currency);
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
-- 
2.43.0


From 5946ebf1596b2fb672b5b658960ff01d9eed50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 44/77] fix: holdings with a negative market price are valued
 with signed arithmetic

---
 esl/economics/accounting/standard.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index b0034a0..8226d72 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,8 +99,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
@@ -120,8 +120,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
+                             / int64_t(i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
-- 
2.43.0


From 3db0a0d6f518de092f53084ffe6d48bed046f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 45/77] fix: an ISIN made from a complete code takes its NSIN
 from the third symbol on

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From 0dcf42818135338454577e7b35705d64d50fb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 46/77] fix: ISIN constructors refuse text of the wrong length
 before reading it

---
 esl/economics/finance/isin.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 413f8cb..634b50a 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -83,11 +83,10 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(geography::iso_3166_1_alpha_2 issuer, const std::string &nsin_code)
-        : isin(issuer, esl::to_array<0, 9, char>(nsin_code))
+        : isin(issuer, esl::to_array<0, 9, char>(sized(nsin_code, 9, 10
+                , "A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.")))
         {
-            if((9 > code.size()) || (10 < code.size())){
-                throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
-            }
+
         }
 
         ///
@@ -97,11 +96,10 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(const std::string &issuer, const std::string &nsin_code)
-        : isin(geography::iso_3166_1_alpha_2(issuer), esl::to_array<0, 9, char>(nsin_code))
+        : isin( geography::iso_3166_1_alpha_2(sized(issuer, 2, 2
+                , "The issuer part of the ISIN must be 2 letters (ISO 3166)")), nsin_code)
         {
-            if(2 != issuer.size()){
-                throw esl::exception("The issuer part of the ISIN must be 2 letters (ISO 3166)");
-            }
+
         }
 
         ///
@@ -109,11 +107,10 @@ namespace esl::economics::finance {
         ///
         /// \param code     The code part describing a security
         explicit isin(const std::string &code = "AA000000000")
-        : isin(esl::to_array<0, 11, char>(code))
+        : isin(esl::to_array<0, 11, char>(sized(code, 11, 12
+                , "A valid ISIN is constructed from 11 or 12 symbols.")))
         {
-            if(!(11 == code.size() || 12 == code.size())){
-                throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols.");
-            }
+
         }
 
         ///
@@ -131,6 +128,16 @@ namespace esl::economics::finance {
         }
 
     protected:
+        ///
+        /// \brief  Refuses text of the wrong length, before any symbol is read
+        static const std::string &sized(const std::string &text, size_t shortest, size_t longest, const char *message)
+        {
+            if(shortest > text.size() || longest < text.size()){
+                throw esl::exception(message);
+            }
+            return text;
+        }
+
         ///
         /// \brief Converts ISIN symbol to numerical value
         ///
-- 
2.43.0


From 6ffc951c6d5b7bf13bc374199c493e7fcdf45799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 47/77] fix: interval predicates do not overflow for bounds far
 apart

---
 esl/mathematics/interval.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/esl/mathematics/interval.hpp b/esl/mathematics/interval.hpp
index 13d9860..486e5f4 100644
--- a/esl/mathematics/interval.hpp
+++ b/esl/mathematics/interval.hpp
@@ -106,7 +106,7 @@ namespace esl::mathematics {
 
             // (lower < upper) is implied
             if constexpr(std::is_integral<number_t_>::value){
-                if (1 == upper - lower)
+                if (lower + 1 == upper)
                 {
                     return left_closed_ && right_closed_;
                 }
@@ -127,11 +127,16 @@ namespace esl::mathematics {
             }
 
             // is_integral is implied from here
+            if(upper <= lower) {
+                return false;
+            }
+            // (lower < upper) is implied, so that these do not overflow
             bool asymmetric_ =
-                (1 == upper - lower) && (left_closed_ != right_closed_);
+                (lower + 1 == upper) && (left_closed_ != right_closed_);
             bool symmetric_ =
-                (2 == upper - lower) && (left_closed_ && right_closed_);
-            return (upper > lower) && (asymmetric_ || symmetric_);
+                (lower + 1 == upper - 1) && (left_closed_ && right_closed_);
+
+            return asymmetric_ || symmetric_;
         }
 
         ///
-- 
2.43.0


From f6b04f698b69db5858970c74604757ce6f2b3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 48/77] fix: the rate of the gamma distributed latency is not
 used as its scale

---
 esl/interaction/communication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/interaction/communication.hpp b/esl/interaction/communication.hpp
index 65a17e8..472a5ed 100644
--- a/esl/interaction/communication.hpp
+++ b/esl/interaction/communication.hpp
@@ -99,7 +99,7 @@ namespace esl::interaction::communication {
         {
             (void)sender;
             (void)recipient;
-            auto gamma_ = std::gamma_distribution<double>(shape, rate);
+            auto gamma_ = std::gamma_distribution<double>(shape, 1. / rate);
             std::mt19937 gen(seed);
             auto real_ = gamma_(gen);
             return simulation::time_duration( shift + real_);
-- 
2.43.0


From 0f06f52feaab22d59681200da559a2f5e7621585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 49/77] fix: an output file can be created without a directory
 prefix

---
 esl/data/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/file.cpp b/esl/data/file.cpp
index 061d5f7..4eea5b1 100644
--- a/esl/data/file.cpp
+++ b/esl/data/file.cpp
@@ -9,7 +9,7 @@ namespace esl::data {
 
     file::file(const std::filesystem::path &name, const std::filesystem::path &prefix)
     : stream(file_)
-    , file_((std::filesystem::create_directories(prefix), prefix / name ))
+    , file_(((prefix.empty() || std::filesystem::create_directories(prefix)), prefix / name ))
     {
         if(!file_.good()){
             std::stringstream message_;
-- 
2.43.0


From ca27a0c29a38874f2d059f1cd5e7df37f54b25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 50/77] fix: an output made with several streams has a defined
 buffering mode

---
 esl/data/output_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/data/output_base.cpp b/esl/data/output_base.cpp
index 33c4a93..4f37216 100644
--- a/esl/data/output_base.cpp
+++ b/esl/data/output_base.cpp
@@ -45,9 +45,9 @@ namespace esl::data {
 
     output_base::output_base(const std::string &name
         , std::vector<std::shared_ptr<stream>, boost::pool_allocator<std::shared_ptr<stream> >> streams)
-    : name(name)
-    , streams(streams)
+    : output_base(name)
     {
+        this->streams = streams;
         
     }
 }
-- 
2.43.0


From 1068900268dd50740cb35f6d6c0e5b16d101b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 51/77] fix: ending a line of a log channel does not lock its
 mutex twice

---
 esl/data/channel.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..b1abef0 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -121,7 +121,7 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            // the manipulator locks when it writes
             return function(*this);
         }
 
@@ -131,12 +131,7 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
-            stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
-            return stream;
+            return stream << static_cast<line_end_t>(std::endl);
         }
 
         typedef std::basic_ostream<char, std::char_traits<char>> ostream_t;
-- 
2.43.0


From b8a9045103e26903eb00d4f981d1ea316e93bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 52/77] fix: the text form of a queue shows all elements

---
 esl/data/representation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index d6b0173..1ef1eb0 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -237,7 +237,7 @@ namespace std {
         if(!queue.empty()){
             stream << queue.front();
             queue.pop();
-            for(size_t c = 0; c < queue.size(); ++c){
+            while(!queue.empty()){
                 stream << ", " << queue.front();
                 queue.pop();
             }
-- 
2.43.0


From 65b4f324c6623a35fb86d3c68d80e1d6498ce0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 53/77] fix: text forms of sets and lists compile

---
 esl/data/representation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index 1ef1eb0..da06ec4 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -108,7 +108,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -163,7 +163,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -260,7 +260,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " -> " << *i;
             }
         }
@@ -282,7 +282,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " <-> " << *i;
             }
         }
-- 
2.43.0


From a2c8b51a6dd741502631bf96ea3d498913f19270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 54/77] fix: delimiter separated values that contain line ends
 are quoted

---
 esl/data/format/delimiter_separated_values.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index fce8edd..e1fe5ec 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -52,6 +52,8 @@ namespace esl::data::format::delimiter_separated_values {
             quote_ = true;
         } else if(text.find(escape) != std::string::npos) {
             quote_ = true;
+        } else if(text.find_first_of("\r\n") != std::string::npos) {
+            quote_ = true;
         }
 
         std::stringstream stream_;
-- 
2.43.0


From adfba889bf344046660d4bc79d3b21c1bc5669b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 55/77] fix: strings in delimiter separated rows are escaped

---
 .../format/delimiter_separated_values.hpp     | 38 +++++++------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index e1fe5ec..219b0ef 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -75,42 +75,30 @@ namespace esl::data::format::delimiter_separated_values {
     }
 
 
-    template<typename element_t_>
-    void extract_element(std::ostream &s, element_t_ v)
-    {
-        s << v;
-    }
-
     ///
-    /// \brief  Specialization for strings, which must be escaped.
+    /// \brief  Writes one element. Strings must be escaped.
     ///
     /// \param s
     /// \param v
-    template<>
-    void extract_element(std::ostream &s, const std::string &v)
-    {
-        s << render(v);
-    }
-
-
-    template<typename... elements_t_>
-    static void extract_element( std::ostream &s
-                               , std::string &&first
-                               , elements_t_ &&... rest)
+    template<typename element_t_>
+    void extract_element(std::ostream &s, const element_t_ &v)
     {
-        char delimiter_ = ',';
-        s << render(first) << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        if constexpr(std::is_convertible<const element_t_ &, std::string>::value) {
+            s << render(v);
+        } else {
+            s << v;
+        }
     }
 
     template<typename element_t_, typename... elements_t_>
     static void extract_element(std::ostream &s
-                               , element_t_ &&first
-                               , elements_t_ &&... rest)
+                               , const element_t_ &first
+                               , const elements_t_ &... rest)
     {
         char delimiter_ = ',';
-        s << first << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        extract_element(s, first);
+        s << delimiter_;
+        extract_element(s, rest...);
     }
 
     ///
-- 
2.43.0


From ef9909429d299fcbb73d4accb334259b8b696802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 56/77] fix: delimiter separated rows can be written next to
 other text forms

---
 esl/data/format/delimiter_separated_values.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index 219b0ef..b7fa6ee 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -96,9 +96,9 @@ namespace esl::data::format::delimiter_separated_values {
                                , const elements_t_ &... rest)
     {
         char delimiter_ = ',';
-        extract_element(s, first);
+        delimiter_separated_values::extract_element(s, first);
         s << delimiter_;
-        extract_element(s, rest...);
+        delimiter_separated_values::extract_element(s, rest...);
     }
 
     ///
@@ -111,7 +111,7 @@ namespace esl::data::format::delimiter_separated_values {
                     const std::tuple<element_t_...> &tuple)
     {
         auto print_ = [&](auto... elements_) {
-            return extract_element(stream, elements_...);
+            return delimiter_separated_values::extract_element(stream, elements_...);
         };
         std::apply(print_, tuple);
         stream << std::endl;
-- 
2.43.0


From 1376032e7c1f6494075749f113338a8b6eb45482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 57/77] fix: archived messages keep their header

---
 esl/economics/finance/dividend.hpp | 4 ++--
 esl/interaction/message.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 33c7f4478a550282aacda26efe403d9f6c449985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 58/77] fix: agent timings are archived

---
 esl/computation/timing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/computation/timing.hpp b/esl/computation/timing.hpp
index 2264ac5..8e1e01a 100644
--- a/esl/computation/timing.hpp
+++ b/esl/computation/timing.hpp
@@ -56,12 +56,12 @@ namespace esl::computation {
         {
             (void)version;
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "messaging",
                 boost::serialization::make_binary_object(&messaging,
                                                          sizeof(messaging)));
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "acting",
                 boost::serialization::make_binary_object(&acting,
                                                          sizeof(acting)));
-- 
2.43.0


From ed07124358e712a87e508c522c457b656fb92586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 59/77] fix: names of archived members are valid XML names

---
 esl/economics/company.hpp                              | 2 +-
 esl/economics/exchange_rate.hpp                        | 2 +-
 esl/economics/markets/logon_message.hpp                | 2 +-
 esl/economics/markets/logout_message.hpp               | 2 +-
 esl/economics/markets/market_data_request_message.hpp  | 2 +-
 esl/economics/markets/order_message.hpp                | 2 +-
 esl/economics/markets/order_status_request_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp                | 2 +-
 esl/interaction/message.hpp                            | 4 ++--
 esl/law/property.hpp                                   | 2 +-
 esl/simulation/world.hpp                               | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index d179887..1ab63c5 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -163,7 +163,7 @@ namespace esl::economics {
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(organization);
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(shareholder);
             archive &boost::serialization::make_nvp(
-                "identifiable_as〈company〉",
+                "identifiable_as_company",
                 boost::serialization::base_object<identifiable_as<company>>(
                     *this));
 
diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 3b62925..9e0b2f5 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -160,7 +160,7 @@ namespace esl::economics {
         {
             (void)version;
             archive &boost::serialization::make_nvp(
-                "rate_std::uint64_t_",
+                "rate_std_uint64_t_",
                 boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
diff --git a/esl/economics/markets/logon_message.hpp b/esl/economics/markets/logon_message.hpp
index 49dd1c7..af98f75 100644
--- a/esl/economics/markets/logon_message.hpp
+++ b/esl/economics/markets/logon_message.hpp
@@ -61,7 +61,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨logon_message⟩"
+            archive &boost::serialization::make_nvp( "message_logon_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<logon_message,interaction::library_message_code<0x00C00>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/logout_message.hpp b/esl/economics/markets/logout_message.hpp
index 259956d..b42a493 100644
--- a/esl/economics/markets/logout_message.hpp
+++ b/esl/economics/markets/logout_message.hpp
@@ -56,7 +56,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨logout_message⟩"
+            archive &boost::serialization::make_nvp( "message_logout_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<logout_message,interaction::library_message_code<0x00C01>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/market_data_request_message.hpp b/esl/economics/markets/market_data_request_message.hpp
index 0082d96..027a05f 100644
--- a/esl/economics/markets/market_data_request_message.hpp
+++ b/esl/economics/markets/market_data_request_message.hpp
@@ -90,7 +90,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨market_data_request_message⟩"
+            archive &boost::serialization::make_nvp( "message_market_data_request_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<market_data_request_message,interaction::library_message_code<0x00C02>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index 9760e82..ab2df35 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -70,7 +70,7 @@ struct order_message
     {
         (void)version;
         archive &make_nvp(
-            "interaction〈message_type_,type_code_〉",
+            "interaction_message_type__type_code",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
                 *this));
diff --git a/esl/economics/markets/order_status_request_message.hpp b/esl/economics/markets/order_status_request_message.hpp
index 561babb..d536ad5 100644
--- a/esl/economics/markets/order_status_request_message.hpp
+++ b/esl/economics/markets/order_status_request_message.hpp
@@ -54,7 +54,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨order_status_request_message⟩"
+            archive &boost::serialization::make_nvp( "message_order_status_request_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<order_status_request_message,interaction::library_message_code<0x00C03>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index 414a14e..3ec7eb4 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -76,7 +76,7 @@ namespace esl::economics::markets {
         {
             (void)version;
             archive &make_nvp(
-                "interaction〈message_type_,type_code_〉",
+                "interaction_message_type__type_code",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
             archive &BOOST_SERIALIZATION_NVP(proposed);
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index a32be53..c2e3c67 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -76,12 +76,12 @@ namespace esl::interaction {
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
-                "type_code_t⟨type_code_⟩",
+                "type_code_t_type_code",
                 boost::serialization::base_object<type_code<type_code_>>(
                     *this));
 
             archive &boost::serialization::make_nvp(
-                "market_type⟨message_type_⟩",
+                "market_type_message_type",
                 boost::serialization::base_object<type_marker<message_type_>>(
                     *this));
         }
diff --git a/esl/law/property.hpp b/esl/law/property.hpp
index 889f208..6565fda 100644
--- a/esl/law/property.hpp
+++ b/esl/law/property.hpp
@@ -62,7 +62,7 @@ namespace esl::law {
         {
             (void)version;
             archive &boost::serialization::make_nvp(
-                "entity⟨property⟩",
+                "entity_property",
                 boost::serialization::base_object<entity<property>>(*this));
         }
     };
diff --git a/esl/simulation/world.hpp b/esl/simulation/world.hpp
index a1d953e..b63c82f 100644
--- a/esl/simulation/world.hpp
+++ b/esl/simulation/world.hpp
@@ -51,7 +51,7 @@ namespace esl::simulation {
             (void)version;
 
             archive &boost::serialization::make_nvp(
-                "entity⟨world⟩",
+                "entity_world",
                 boost::serialization::base_object<entity<world>>(*this));
         }
     };
-- 
2.43.0


From a6b1162385ee659d7e9fe64111b0959e0aa48e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 60/77] fix: order and quote messages can be archived

---
 esl/economics/markets/order_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index ab2df35..33610da 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -69,7 +69,7 @@ struct order_message
     void serialize(archive_t &archive, const unsigned int version)
     {
         (void)version;
-        archive &make_nvp(
+        archive &boost::serialization::make_nvp(
             "interaction_message_type__type_code",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index 3ec7eb4..873a6e4 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -75,7 +75,7 @@ namespace esl::economics::markets {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &make_nvp(
+            archive &boost::serialization::make_nvp(
                 "interaction_message_type__type_code",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
-- 
2.43.0


From 02597a3f3daef122fcd0145e56b0352f57edfcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 61/77] fix: assets are archived under a valid XML name

---
 esl/economics/asset.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/asset.hpp b/esl/economics/asset.hpp
index 881acb9..800c4c9 100644
--- a/esl/economics/asset.hpp
+++ b/esl/economics/asset.hpp
@@ -80,7 +80,9 @@ namespace esl::economics {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(law::property);
+            archive &boost::serialization::make_nvp(
+                "property",
+                boost::serialization::base_object<law::property>(*this));
         }
     };
 
-- 
2.43.0


From a43e11d0fb36756f18deb57a411caaf53df1f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 62/77] fix: the Walrasian root finder continues until excess
 demand is within tolerance

---
 esl/economics/markets/walras/tatonnement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 6a785d1..a7611c3 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -457,6 +457,10 @@ namespace esl::economics::markets::tatonnement {
                             status_ = GSL_SUCCESS;
                             break;
                         }
+                        // a successful step is not yet a solution
+                        if(GSL_SUCCESS == status_){
+                            status_ = GSL_CONTINUE;
+                        }
                         //status_ = gsl_root_test_delta (xt, x0, delta_absolute_tolerance, delta_relative_tolerance);
                     } while (GSL_CONTINUE == status_ && iteration_ < max_iterations);
 
-- 
2.43.0


From 0767594e88a407177d4dcdc1800d5a05941180e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 63/77] fix: the Jacobian of excess demand is passed to solvers
 in row order

---
 esl/economics/markets/walras/tatonnement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index a7611c3..e1108aa 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -372,6 +372,12 @@ namespace esl::economics::markets::tatonnement {
         stack_.independent(&active_[0], active_.size());
         stack_.dependent(&values_[0], values_.size());
         stack_.jacobian(jacobian);
+        // the derivatives are stored by column, solvers expect them by row
+        for(size_t i = 0; i < active_.size(); ++i) {
+            for(size_t j = i + 1; j < active_.size(); ++j) {
+                std::swap(jacobian[i * active_.size() + j], jacobian[j * active_.size() + i]);
+            }
+        }
 
         std::vector<double> result_;
         for(auto &v : values_) {
-- 
2.43.0


From 8691ac25b63d914d02a0da80818c8b61bb64181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 64/77] fix: the Walrasian market delivers every property a
 participant buys

---
 esl/economics/markets/walras/price_setter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 2a49d43..c4d1434 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -445,9 +445,8 @@ namespace esl::economics::markets::walras {
 
                     if(uint64_t(v) > 0){
                         //LOG(trace) << p << " purchased additional " << v << std::endl;
-                        accounting::inventory_filter<law::property> purchased_;
-                        purchased_.insert(property_, quantity(uint64_t(v)));
-                        send_.emplace(p, purchased_);
+                        auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
+                        s->second.insert(property_, quantity(uint64_t(v)));
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-- 
2.43.0


From 6d686ed56ade2a1f707d3f0c614d24d3ec1ac7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 65/77] fix: the Walrasian market nets what it sends and
 receives

---
 esl/economics/markets/walras/price_setter.cpp | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index c4d1434..b9003b2 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -486,20 +486,18 @@ namespace esl::economics::markets::walras {
         }
 
         // apply netting
-        for(auto &[p, i_r] : receive_) {
-            auto offset_ = send_.find(p);
+        for(auto r = receive_.begin(); r != receive_.end();) {
+            auto &items_ = r->second.items;
+            auto offset_ = send_.find(r->first);
             if(send_.end() == offset_) {
+                ++r;
                 continue;
             }
-
-            for(auto &[k, v] : i_r.items) {
-                if(0 == v.amount){
-                    //i_r.items.erase(k);
-                    continue;
-                }
-
-                auto property_ = offset_->second.items.find(k);
+            for(auto i = items_.begin(); i != items_.end();) {
+                auto &v = i->second;
+                auto property_ = offset_->second.items.find(i->first);
                 if(offset_->second.items.end() == property_) {
+                    ++i;
                     continue;
                 }
                 // receiving more than sending
@@ -507,17 +505,20 @@ namespace esl::economics::markets::walras {
                     auto diff_ = v - property_->second;
                     v          = diff_;
                     offset_->second.items.erase(property_);
+                    ++i;
                 } else if(v < property_->second) {  // sending more than recv
                     auto diff_        = property_->second - v;
                     property_->second = diff_;
-                    //i_r.items.erase(k);
+                    i                 = items_.erase(i);
                 } else {  // sending and rececing same amount
-                    //i_r.items.erase(k);
                     offset_->second.items.erase(property_);
+                    i = items_.erase(i);
                 }
             }
-            if(i_r.items.empty()){
-                receive_.erase(p);
+            if(items_.empty()){
+                r = receive_.erase(r);
+            } else {
+                ++r;
             }
         }
 
-- 
2.43.0


From cf727064caf09c53a183510e8c2a39c520341fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 66/77] fix: closing a short position is paid for at the
 clearing price

---
 esl/economics/markets/walras/price_setter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index b9003b2..3fce1c2 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -282,8 +282,6 @@ namespace esl::economics::markets::walras {
             std::shared_ptr<walras::differentiable_order_message>> &orders,
         const simulation::time_interval &step)
     {
-        law::property_map<quote> old_quotes_ = traded_properties;
-
         tatonnement::excess_demand_model model_(traded_properties);
         for(auto [key, function_] : orders) {
             (void)key;
@@ -436,8 +434,8 @@ namespace esl::economics::markets::walras {
                         // auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
                         //
                         auto s = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        auto o = old_quotes_.find(property_);
-                        auto collateral_ = usd_->amount(cancel_ * double(std::get<price>(o->second.type)) / o->second.lot);
+                        // bought at the clearing price, like what is sold
+                        auto collateral_ = usd_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
 
                         s->second.insert(usd_, collateral_);
                         v -= cancel_;
-- 
2.43.0


From d6c7e575ffc8854f2f7b6af8e5c5168e2ee07792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 67/77] fix: solver errors are silenced only, and always, while
 solving

---
 esl/economics/markets/walras/tatonnement.cpp | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index e1108aa..3b95fb8 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -194,9 +194,23 @@ void handler ([[maybe_unused]] const char *reason,
               [[maybe_unused]] int line,
               [[maybe_unused]] int gsl_errno)
 {
-
 }
 
+/// \brief  Silences solver errors, until it goes out of scope
+struct silence_solver_errors
+{
+    gsl_error_handler_t *previous;
+
+    silence_solver_errors()
+    : previous(gsl_set_error_handler(&handler))
+    {
+    }
+
+    ~silence_solver_errors()
+    {
+        gsl_set_error_handler(previous);
+    }
+};
 namespace esl::economics::markets::tatonnement {
     ///
     /// \brief  Initializes a stack for automatic differentiation
@@ -399,6 +413,9 @@ namespace esl::economics::markets::tatonnement {
             throw esl::invalid_parameters(error_no_solvers_);
         }
 
+        // a solver that fails is followed by the next, or by no solution
+        silence_solver_errors silence_;
+
         for(auto method_: methods){
             // for every method we try, we need to reset our variables
             active_.clear();
@@ -423,8 +440,6 @@ namespace esl::economics::markets::tatonnement {
                 if(1 == quotes.size()){
                     constexpr double absolute_tolerance = 1e-6;
 
-                    // capture previous error handler to restore later
-                    auto old_handler_ = gsl_set_error_handler (&handler);
 
                     // solver and solver type
                     const gsl_root_fdfsolver_type *solver_type_;
@@ -481,8 +496,6 @@ namespace esl::economics::markets::tatonnement {
                         return result_;
                     }
                     gsl_root_fdfsolver_free (s);
-                    // reset the old error handler.
-                    gsl_set_error_handler(old_handler_);
                 } else {
                     // else, we solve for multiple roots at once
                     // TODO: set adaptively
-- 
2.43.0


From 0f482fb8af1854e5f7c51bc61fece87703fc4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 68/77] fix: the circuit breaker limits the quotes of every
 solver

---
 esl/economics/markets/walras/tatonnement.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 3b95fb8..fe8fefc 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -416,6 +416,11 @@ namespace esl::economics::markets::tatonnement {
         // a solver that fails is followed by the next, or by no solution
         silence_solver_errors silence_;
 
+        // the circuit breaker applies to the solution of every solver
+        auto limited_ = [this](double scalar) {
+            return std::max(std::min(scalar, circuit_breaker.second), circuit_breaker.first);
+        };
+
         for(auto method_: methods){
             // for every method we try, we need to reset our variables
             active_.clear();
@@ -640,7 +645,7 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
-                        result_.insert({mapping_index_[i], scalar_});
+                        result_.insert({mapping_index_[i], limited_(scalar_)});
                     }
                     gsl_multimin_fdfminimizer_free(minimizer);
                     gsl_vector_free(x);
@@ -713,7 +718,7 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
-                        result_.insert({mapping_index_[i], scalar_});
+                        result_.insert({mapping_index_[i], limited_(scalar_)});
                     }
                     gsl_multimin_fminimizer_free(minimizer);
                     gsl_vector_free(x);
@@ -808,7 +813,7 @@ namespace esl::economics::markets::tatonnement {
                 std::map<esl::identity<esl::law::property>, double> result_;
                 for(size_t i = 0; i < active_.size(); ++i) {
                     //LOG(trace) << "outcome: " << multipliers_[i] << std::endl;
-                    result_.emplace(mapping_index_[i], multipliers_[i]);
+                    result_.emplace(mapping_index_[i], limited_(multipliers_[i]));
                 }
 
                 gsl_multiroot_fsolver_free (solver_);
-- 
2.43.0


From ce85187658fc71e1fdd2efb995439a235728eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 69/77] fix: the derivative free minimizer starts from a
 defined simplex and tests its size

---
 esl/economics/markets/walras/tatonnement.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index fe8fefc..64eb953 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -661,6 +661,7 @@ namespace esl::economics::markets::tatonnement {
             }else if (method_ == derivative_free_minimization) {
 // TODO: set adaptively
                 auto initial_step_size         = gsl_vector_alloc(active_.size());
+                gsl_vector_set_all(initial_step_size, 0.1);
 
                 constexpr double error_tolerance         = 0.0001;
 
@@ -708,7 +709,7 @@ namespace esl::economics::markets::tatonnement {
                         break;
                     }
 
-                    status = gsl_multimin_test_size (double(active_.size()), error_tolerance);
+                    status = gsl_multimin_test_size (gsl_multimin_fminimizer_size(minimizer), error_tolerance);
 
                     //status = gsl_multimin_test_gradient(minimizer->gradient,
                     //                                    converged_gradient_norm);
-- 
2.43.0


From 68c422b9140dc765f6f3e7308ecd75d6143dbd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 70/77] fix: the derivative free root finder compares with the
 residual at the start

---
 esl/economics/markets/walras/tatonnement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 64eb953..e01428f 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -749,7 +749,9 @@ namespace esl::economics::markets::tatonnement {
                 for(size_t i = 0; i < active_.size(); ++i) {
                     gsl_vector_set(variables_, i, start_multiplier_);
                     multipliers_.push_back(start_multiplier_);
-                    best_residual_ += abs(start_multiplier_);
+                }
+                for(auto residual_ : multiroot_function_value(&multipliers_[0])) {
+                    best_residual_ += abs(residual_);
                 }
 
                 // Powell's Hybrid method, but with finite-difference approximation
-- 
2.43.0


From d945cf40b8adeeb9b0eb6117f40971acb2b2ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 71/77] fix: impact function market read the side of an order
 as its volume

The volumes of an order are pairs of an amount and a side; the two were
mixed up, so that the net volume of all orders was meaningless.
---
 esl/economics/markets/impact_function/market.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..10f4f09 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -163,10 +163,10 @@ namespace esl::economics::markets::impact_function {
                 volumes_.emplace(p, 0.);
 
 
-                if(order_message::buy == i.first ){
-                    volumes_[p] += double(i.second);
-                }else if(order_message::sell == i.first ){
-                    volumes_[p] -= double(i.second);
+                if(order_message::buy == i.second){
+                    volumes_[p] += double(i.first);
+                }else if(order_message::sell == i.second){
+                    volumes_[p] -= double(i.first);
                 }
             }
         }
-- 
2.43.0


From 44c7717b9598ccb8a0a576f0c648d9e899eb5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 72/77] fix: an order for a property that is not traded added
 it to the impact function market

Looking up its quote inserted a quote of zero, which was then proposed to
all participants and divided by.
---
 esl/economics/markets/impact_function/market.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 10f4f09..9a9a6f5 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -160,9 +160,11 @@ namespace esl::economics::markets::impact_function {
 
         for(const auto &[a, m]: orders){
             for(const auto &[p, i]: m->volumes){
+                if(traded_properties.end() == traded_properties.find(p)){
+                    continue; // not traded in this market
+                }
                 volumes_.emplace(p, 0.);
 
-
                 if(order_message::buy == i.second){
                     volumes_[p] += double(i.first);
                 }else if(order_message::sell == i.second){
-- 
2.43.0


From 8b6112f7b043864e2ce59c0e510cb572d29a7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 73/77] fix: impact function market never moved its quotes

The multipliers computed from the impact function were discarded, so the
prices proposed and recorded after orders were always the initial ones.
---
 esl/economics/markets/impact_function/market.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 9a9a6f5..53da8f6 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -24,6 +24,9 @@
 ///
 #include <esl/economics/markets/impact_function/market.hpp>
 
+#include <algorithm>
+#include <cmath>
+
 #include <esl/economics/markets/impact_function/order.hpp>
 #include <esl/economics/markets/impact_function/quote.hpp>
 
@@ -106,6 +109,15 @@ namespace esl::economics::markets::impact_function {
 
 
                 auto scalars_ = clear_market(orders_, step);
+                for(auto &[k, v]: traded_properties){
+                    auto scalar_ = scalars_.find(k->identifier);
+                    if(scalars_.end() == scalar_){
+                        continue; // nobody ordered this property
+                    }
+                    auto &price_ = std::get<price>(v.type);
+                    price_.value = std::max<std::int64_t>(1
+                        , std::llround(double(price_.value) * scalar_->second));
+                }
 //                LOG(notice) << "clearing market took " << (double((std::chrono::high_resolution_clock::now()-before_).count()) / 1e+6) <<  " milliseconds" << std::endl;
 
                 std::vector<price> prices_;
-- 
2.43.0


From bda28ea2045a8dc2495fdaad831b06975fcdd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 74/77] fix: market identifier codes from text of another
 length

Shorter text was read past its end, and of longer text the excess was ignored.
---
 esl/economics/markets/iso_10383.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/iso_10383.hpp b/esl/economics/markets/iso_10383.hpp
index 928cdca..a4e2b20 100644
--- a/esl/economics/markets/iso_10383.hpp
+++ b/esl/economics/markets/iso_10383.hpp
@@ -61,7 +61,9 @@ namespace esl::economics::markets {
         /// \brief Construct an ISO 10383 code from a 4 symbol string.
         /// \param  code A  4 symbol alphanumeric code A-Z | 0-9
         explicit iso_10383(const std::string &code)
-        : iso_10383(std::array<char, 4> {code[0], code[1], code[2], code[3]})
+        : iso_10383(4 == code.size()
+                        ? std::array<char, 4> {code[0], code[1], code[2], code[3]}
+                        : throw esl::exception("a market identifier code has 4 symbols"))
         {
 
         }
-- 
2.43.0


From 82b649f79b3c2a3623675491df46cd22d45ebe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 75/77] fix: bondholders keep the latest price announced

Prices were inserted only once, so that the first price announced for a
property was kept forever.
---
 esl/economics/finance/bondholder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..cd675dc 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,7 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    this->bond_prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
-- 
2.43.0


From 60135aba854b8257e98460b5d380fdd9008c7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 76/77] fix: shareholders keep the currency of the latest price
 announced

The amount was updated but not its currency, so that a price announced in
another currency became an amount in the first one.
---
 esl/economics/finance/shareholder.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 282e388..2e41b92 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -69,12 +69,7 @@ namespace esl::economics::finance {
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
 
-                    auto i = prices.find(k);
-                    if(prices.end() == i){
-                        prices.emplace(k, std::get<price>(v.type));
-                    }else{
-                        i->second.value = std::get<price>(v.type).value;
-                    }
+                    prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
-- 
2.43.0


From 786b8ff130230dd9ffd89e64c0c959d6ef7544af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 77/77] fix: execution reports arrive after the latency to
 their recipient

The latency to the sender of the incoming order was used also for the
reports to the owners of the orders it traded with.
---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index b1f360e..ad606b1 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -383,7 +383,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0

