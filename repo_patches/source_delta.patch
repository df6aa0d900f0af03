From d0a2053be741d7aeb16bf950de3c8594c48413d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 01/20] fix: mixed categories index the part they name

index() delegated to the part before the one named, and category() counted from
the end of the part; both only agreed for parts of equal shape.
---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From b259e24249cc7ee4ec53c9afb380ae8baca790b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 02/20] fix: a red five has the tenhou numbers of the five of
 its suit

The number 0 of a red five was taken as a face, giving the numbers of the
tile four below the ones (negative numbers for characters).
---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..982f7a2 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (5 if isinstance(tile, AkaTile) else tile.number) - 1
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From fdd84a42dee0d90c4fc8af6a65622cdc5d09ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 03/20] fix: show a red five with the glyph of the five of its
 suit

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..c565659 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -46,7 +46,7 @@ def to_unicode_tile(tile: Tile) -> str:
     if tile.color == 'z':
         number = UNICODE_HONOR_ORDER[tile.number] - 1
     else:
-        number = tile.number - 1
+        number = (tile.number or 5) - 1
     index = TILE_CATEGORY.index((color, number))
     return chr(0x1f000 + index)
 
-- 
2.43.0


From 707603974dd79f17f9849779aa586001b3fedcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 04/20] fix: setdefault of a nested state returns the whole
 state also when the key is present

set() and drop() return the new whole state; setdefault() returned only the
nested view when the key was already there.
---
 mahjong/record/universe/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..3022c48 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -211,7 +211,7 @@ class TransferDict:
         if key not in self:
             return self.set(key, default)
         else:
-            return self
+            return self.set(key, self[key])
 
     def transfer_value(self, k, v):
         if isinstance(v, dict):
-- 
2.43.0


From bec79c2ada6cad01bc7a136431ec79e03cfd1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 05/20] fix: waiting step of a hand with fewer tiles than the
 win needs

---
 mahjong/container/pattern/reasoning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..a5fe7a2 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -129,7 +129,7 @@ class HeuristicPatternMatchWaiting(Waiting):
         self.borrowed_count = None
 
     def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
-        self.max_used_tiles = sum(hand.values())
+        self.max_used_tiles = self.win_pattern.need_count()
 
         borrows = self.init_search_by_hand(hand)
 
-- 
2.43.0


From cfc0f62145732959aeddf6b84d8387d88ad68cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 06/20] fix: merge the reasonings of a discard by its tile and
 keep the listing of every win form

---
 mahjong/tenhou_record_check.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index c565659..a264ad1 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -8,7 +8,7 @@ import pkg_resources
 
 from loguru import logger
 from functools import reduce
-from itertools import groupby, product
+from itertools import chain, groupby, product
 from typing import Set, List, Callable, TypeVar, Optional
 
 from jinja2 import Environment, select_autoescape, PackageLoader, FileSystemLoader
@@ -230,10 +230,13 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
+    reasonings_by_discard = {}
+    for item in chain(*win_reasonings):
+        reasonings_by_discard.setdefault(item.discard_tile, []).append(item)
     merged_win_reasonings = [
-        reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        reasoning_merge(reasoning_same_discard, invisible_player_perspective)
+        for reasoning_same_discard in reasonings_by_discard.values()
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
-- 
2.43.0


From 3598b297fb68954e8125eff55f8703c6fce6dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 07/20] fix: grade a discard also when the expected discards
 have no useful tile left

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index a264ad1..8bceaea 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -260,7 +260,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    # base is 0 when no useful tile is left for the expected discards.
+    correct_rate = your_counts / base if base else float(your_shanten == expect_shanten)
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 3ee922258ca649f5446546b46a5f582b518bc7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 08/20] fix: analyse the discards of a hand that already
 contains a win

---
 mahjong/tenhou_record_check.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 8bceaea..11b9a10 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -300,6 +300,11 @@ def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
 
 def one_win_reasoning(hand, invisible_player_perspective, win):
     reasoning = HeuristicPatternMatchWaiting(win)
+    if win.match(hand):
+        # every discard breaks the win, so the batch analysis lists none of them.
+        for tile in hand:
+            yield reasoning_discards(hand, invisible_player_perspective, tile, win)
+        return
     # analysed_tiles = set()
     for tile, step, useful in reasoning.batch_waiting_and_useful_tiles(hand):
         # analysed_tiles.add(tile)
-- 
2.43.0


From f060d862165ae77546cd228770a6d9ec082b15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 09/20] fix: the unseen 1m and 9m of a three-player game are
 tile numbers

---
 mahjong/record/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..1dae70e 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,8 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i))
+                               for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 015dc27e49feb9834b015c0371084b7e2604ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 10/20] fix: a discarded tile number 0 is no longer unseen

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 1dae70e..dd410f9 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -189,7 +189,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From 8c349eb4cb549ea5369ad947730c842c08bf533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 11/20] fix: the yaku of a win do not include the fan counts

---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..a406227 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # "yaku" alternates pattern ids and their fans, "yakuman" lists ids only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = [SCORE_PATTERN[t] for t in yaku_ids]
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From c105ac04bd3dd34e8afc2257468b63565a9bb4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 12/20] fix: a missing text stays missing in command records

---
 mahjong/record/universe/property_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..f8b6a64 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -73,6 +73,8 @@ def general_equal(expceted, actual):
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
 @prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
+    if x is None or x != x:
+        return None
     return str(x)
 
 
-- 
2.43.0


From e19d183104896019b5d902ee1437d2d95c25b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 13/20] fix: the exported row of a dora indicator holds text
 like the other rows

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..04cde67 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -231,7 +231,7 @@ class TenhouEvent:
                 return [richi, score]
 
         if is_dora_indicator_event(event):
-            tile = tile_from_tenhou(int(attrs['hai']))
+            tile = str(tile_from_tenhou(int(attrs['hai'])))
             return [{'event_type': 'DORA', 'player': '0', 'player_see': tile, 'player_show': tile}]
 
         if is_somebody_win_game(event):
-- 
2.43.0


From b8b0294fbaf187e7f5f71ec2279eeac301804d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 14/20] fix: the win-rate demo prints its summary also when no
 experiment wins

---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..411a1bc 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count > 0 else 0
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From 08a71fdd3dde4dd4e07cdd582775f95f388da6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 15/20] fix: an event can be shown with repr

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 04cde67..d8d9907 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From dc78869c08e9d02a9792700fa558a9ef418c5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 16/20] fix: handlers for a name with an attribute are found

---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From 05cf1bbcaa1ce925a195f09c8cead1557bb7f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 17/20] fix: report file names hold no characters that file
 names can not have

---
 mahjong/tenhou_record_check.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 11b9a10..b3974f8 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -180,6 +181,11 @@ def main():
         print("report has been saved to", os.path.abspath(file_name))
 
 
+def plain_file_name(name: str) -> str:
+    # player names may hold characters that are not allowed in file names.
+    return re.sub(r'[\\/:*?"<>|\x00-\x1f]', "_", name)
+
+
 def render_template(player, record, template, log_url=None, log_id=None, generate_filename=True):
     games = [GameAnalysis(str(game), game_reason_list(game, player, record)) for game in record.game_list]
     if log_url is not None:
@@ -193,7 +199,7 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        return plain_file_name("tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)), render_str
     else:
         return render_str
 
-- 
2.43.0


From 9ba1439d026cb2ce21211ed45b7dbd0d92ff0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 18/20] fix: a superscript digit as player selection selects
 all players like other text

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index b3974f8..71a9531 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -165,7 +165,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0


From f9ebf39c8da635d368afdf79f9be94bbe44a16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 19/20] fix: a stage group left behind takes no elements of the
 current group

---
 mahjong/record/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..f9130f9 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,9 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            # a group left behind must not take elements of the current one.
+            if self.id is not id:
+                return
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From 0f09989beea396c498c1834b4aefb88a39fbba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 20/20] fix: texts of a table file are read back as text

---
 mahjong/record/universe/command.py  | 4 +++-
 mahjong/record/universe/executor.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..9a25493 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,9 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        # texts such as the name "123" or "NA" are neither numbers nor missing.
+        return GameCommand.clean(pandas.read_csv(
+            csv_path, dtype={"value": str, "state": str}, keep_default_na=False, na_values=[""]))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 3022c48..4ef093d 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -64,14 +64,15 @@ def state_series_apply(x):
             return prop_manager.from_str(t, prop=col_last)
 
         return x.apply(from_str_view)
-    return x
+    return pd.to_numeric(x, errors="ignore")
 
 
 
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        # texts such as the name "123" or "NA" are neither numbers nor missing.
+        df_states = pd.read_csv(csv_path, header=[0, 1, 2], dtype=str, keep_default_na=False, na_values=[""])
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
-- 
2.43.0

