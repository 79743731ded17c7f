From 74d71a85e29b3212cfca4e1c7956b93e94b6c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 1/9] fix: gain_from_trade of a trade whose recipe has a
 zero-count category with no agents

---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..5382d3b 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:
+                continue  # agents of this category do not participate in any deal (the category may even be empty).
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From 893107448b58bd531fd19632e2273cc9057d96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 2/9] fix: optimal_trade of a recipe-tree with a single node

---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..86ef53a 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -326,7 +326,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]  # in a single-node tree, t is a number
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From f3d416b64cc42142195bb3ece70d9689347038b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 3/9] fix: recipe-tree auctions never ended when the price of
 an empty category reached MAX_VALUE

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..e0bee4b 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..62fa5b4 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From e91fb816e7b4dabe2ea0bbdec31d67af866c9661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 4/9] fix: integer price-vectors did not keep the price-sums
 equal when a recipe has counts larger than 1

---
 prices_integer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..bab1f6a 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
@@ -220,21 +220,24 @@ class SimultaneousAscendingPriceVectors:
         #    raise ValueError("There must be exactly one increase per recipe!")
 
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
-                                   for (category_index,new_price,_) in increases]
+        # Raising the price-per-unit of a category by x raises the price-sum by x*weight.
+        weights = [max([recipe[category_index] for recipe in self.ps_recipes]) * self.agent_counts[category_index]
+                   for (category_index,_,_) in increases]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * weight
+                                   for ((category_index,new_price,_),weight) in zip(increases,weights)]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description),weight) in zip(increases,weights):
+                fixed_new_price = self.vector[category_index] + min_increase / weight
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description),weight,increase) in zip(increases,weights,increases_to_new_prices):
+                fixed_new_price = float(new_price) if increase == min_increase else self.vector[category_index] + min_increase / weight
                 if fixed_new_price == new_price:
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
-- 
2.43.0


From b7a6ce1209da0fa7ec320e096626efcaea846cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 5/9] fix: integer initial prices of a recipe whose last
 category is shared with other recipes

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index bab1f6a..80af758 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -283,7 +283,7 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
+            if recipe[j] > 0 and all(other[j] == 0 for other in ps_recipes[:i] + ps_recipes[i+1:]):
                 if price_vector[j] != max_price_per_category:
                     raise ValueError("Cannot determine initial prices: "+str(price_vector))
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
-- 
2.43.0


From 24af456a1a853d348a6f34e5313e6b9626d40381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 6/9] fix: integer recipe-tree optimal_trade_with_counters
 failed on every tree with more than one node

---
 recipetree_integer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..a257def 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -393,21 +393,22 @@ class RecipeTree (NodeMixin):
         self_values.sort(reverse=True)
         value_sets = []
         current_set = []
+        deals_counter = {'counter': 0}  # counts the deals in the path that ends at this node, if it is a leaf.
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                value_sets.append((current_set, deals_counter))
                 current_set = []
 
         if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children],[])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
             #Get the min size
             min_len = min(len(value_sets), len(children_values))
             #zip the parent with its child value
             for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+                children_values[i] = ([*value_sets[i][0], *children_values[i][0]], children_values[i][1])
+            value_sets = children_values[0:min_len]
 
             logger.debug("children_values: %s", value_sets)
         value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
-- 
2.43.0


From ee9950a782d826b9c3ee9e67424f6a53af3c1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 7/9] fix: recipe-tree explanation said that all traders of a
 category are selected when some are left over

---
 recipetree_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index a257def..248c638 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -677,7 +677,7 @@ class RecipeTree (NodeMixin):
             sum_children_names = " + ".join(children_names)
             num_of_deals = min(sum_children_num_of_deals,self_num_of_deals)
             explanation = "".join(children_explanations)
-            if num_of_deals==self_num_of_deals:
+            if num_of_deals*self.agent_count==self.category.size():
                 explanation += "{}: all {} traders selected, price={}\n".format(self.name, self.category.size(), self_price)
             else:
                 explanation += "{}: {} out of {} traders selected, price={}\n".format(self.name, num_of_deals * self.agent_count, self.category.size(), self_price)
-- 
2.43.0


From 84b8674764e5ba4aa248641d2c8c734cd22859a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 8/9] fix: stock experiments on recipe-trees averaged over
 stocks that had no market of the size

---
 experiment_ascending_auction_recipetree_integer_stock.py | 7 ++++++-
 experiment_ascending_auction_recipetree_stock.py         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/experiment_ascending_auction_recipetree_integer_stock.py b/experiment_ascending_auction_recipetree_integer_stock.py
index cea6b75..58f4e04 100644
--- a/experiment_ascending_auction_recipetree_integer_stock.py
+++ b/experiment_ascending_auction_recipetree_integer_stock.py
@@ -71,8 +71,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    num_of_markets = {}  # a stock with too few prices has no market of some sizes
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        num_of_markets[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -128,6 +130,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                num_of_markets[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -137,6 +140,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0:
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -145,7 +150,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
diff --git a/experiment_ascending_auction_recipetree_stock.py b/experiment_ascending_auction_recipetree_stock.py
index b99f56e..0e2b621 100644
--- a/experiment_ascending_auction_recipetree_stock.py
+++ b/experiment_ascending_auction_recipetree_stock.py
@@ -72,8 +72,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    num_of_markets = {}  # a stock with too few prices has no market of some sizes
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        num_of_markets[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -129,6 +131,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                num_of_markets[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -138,6 +141,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0:
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -146,7 +151,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
-- 
2.43.0


From 0b114855ebfa1dc127fb705d4494216035564358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 9/9] fix: shuffled stock experiment averaged over iterations
 and stocks that had no market of the size

---
 stock/experiment_compare_sbb_shufled_stock.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 7298e10..58daff6 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -70,13 +70,17 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     average_total_results = {}
+    num_of_stocks = {}
     for num_of_agents_per_category in nums_of_agents:
         average_total_results[str(num_of_agents_per_category)] = []
+        num_of_stocks[str(num_of_agents_per_category)] = 0
 
     for i in range(len(stocks_prices)):
         total_results = {}
+        num_of_markets = {}
         for num_of_agents_per_category in nums_of_agents:
             total_results[str(num_of_agents_per_category)] = []
+            num_of_markets[str(num_of_agents_per_category)] = 0
         stock_prices = stocks_prices[i]
         last_iteration = False
         for num_of_agents_per_category in nums_of_agents:
@@ -135,6 +139,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                     results.append((auction_name + "gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100))
 
                 #results_table.add(OrderedDict(results))
+                num_of_markets[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -149,13 +154,14 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
             for index in range(len(results)):
                 if index > 2:
                     if 'ratio' in results[index][0]:
-                        results[index] = (results[index][0], results[index][1]/iterations)
+                        results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
                     else:
-                        results[index] = (results[index][0], results[index][1]/iterations)
+                        results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
                 #elif index == 0:
                 #    results[index] = (results[index][0], 'Average')
             results_table.add(OrderedDict(results))
 
+            num_of_stocks[str(num_of_agents_per_category)] += 1
             if len(average_total_results[str(num_of_agents_per_category)]) == 0:
                 average_total_results[str(num_of_agents_per_category)] = results[0:len(results)]
             else:
@@ -170,9 +176,9 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
         for index in range(len(results)):
             if index > 2:
                 if 'ratio' in results[index][0]:
-                    results[index] = (results[index][0], int(results[index][1]/len(stocks_prices)*1000)/1000)
+                    results[index] = (results[index][0], int(results[index][1]/num_of_stocks[str(num_of_agents_per_category)]*1000)/1000)
                 else:
-                    results[index] = (results[index][0], round(results[index][1]/len(stocks_prices), 1))
+                    results[index] = (results[index][0], round(results[index][1]/num_of_stocks[str(num_of_agents_per_category)], 1))
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
         results_table.add(OrderedDict(results))
-- 
2.43.0

