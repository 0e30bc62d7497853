From c3d05521ea81939ba5e050c5957c5bd45e405c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 01/31] fix: apply the four-copies switch in every waiting
 analysis

---
 mahjong/container/pattern/reasoning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..f05037d 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -36,14 +36,15 @@ class BruteForceWaiting(Waiting):
         for need_tiles in count(1):
             for tiles in product(TileDistribution.ALL_TILES, repeat=need_tiles):
                 added_hand = hand + TileSet(tiles)
-                if (ignore_4counts and all(v <= 4 for v in added_hand.values())) and self.win_pattern.match(added_hand):
+                if (not ignore_4counts or all(v <= 4 for v in added_hand.values())) \
+                        and self.win_pattern.match(added_hand):
                     return need_tiles - 1
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         return set(tile for tile in TileDistribution.ALL_TILES if
-                   (ignore_4counts and hand[tile] < 4) and
-                   self.before_waiting_step(hand + TileSet([tile])) < self_waiting)
+                   (not ignore_4counts or hand[tile] < 4) and
+                   self.before_waiting_step(hand + TileSet([tile]), ignore_4counts) < self_waiting)
 
 
 def borrowed_limit(hand):
@@ -159,13 +160,13 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         logging.debug("finding waiting step")
-        self_waiting = self.before_waiting_step(hand)
+        self_waiting = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, self_waiting)
 
         return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
-        waiting_step = self.before_waiting_step(hand)
+        waiting_step = self.before_waiting_step(hand, ignore_4counts)
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From 41317b9e7409369c7156ad71fb4533ba5e4d1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/31] fix: a complete hand has waiting step -1 and no useful
 tiles in PatternMatchWaiting

---
 mahjong/container/pattern/reasoning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index f05037d..cdfc875 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -86,11 +86,13 @@ class PatternMatchWaiting(Waiting):
 
         for need_tile_count in count(0):
             useful_tiles = set()
+            reached = False
             for pattern, borrowed in self._win_selections_in_tiles(hand, need_tile_count, ignore_4counts,
                                                                    self.win_pattern, borrow_limit,
                                                                    TileDistribution.ALL_TILES.copy()):
+                reached = True
                 useful_tiles.update(borrowed)
-            if len(useful_tiles) > 0:
+            if reached:
                 return need_tile_count - 1, useful_tiles
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-- 
2.43.0


From b2857d9db4571da3662af780bd15d9d966703484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 03/31] fix: tile_to_tenhou_range of a red five is the range of
 its five

---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..b1b5dfa 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (tile.number or 5) - 1  # an aka dora (number 0) is one of the fives.
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From d5e83295188fb3f170db1c72c00c2e0dfb981e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 04/31] fix: MixedCategory uses the part a position belongs to

---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From 8d668d630c923c3fdd879541712cc4d1304c858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 05/31] fix: MixedCategory accepts an unbounded last part
 (len() cannot return infinity)

---
 mahjong/record/category.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 61b7e3b..f1a7973 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -34,20 +34,20 @@ class MixedCategory(Category):
     def __init__(self, category_list: Iterable[Category], caption=None, field_name: str = None, merged_sep='__'):
         super().__init__(caption, [field_name] if field_name is not None else None)
         self.category_list = list(category_list)
-        assert all(len(c) < math.inf for c in self.category_list[:-1])
+        assert all(c.__len__() < math.inf for c in self.category_list[:-1])
         if field_name is not None:
             self._merged_category_classes = [
                 flat_named_tuple_class(self.named_tuple_class, cat.named_tuple_class, sep=merged_sep)
                 for cat in self.category_list]
         else:
             self._merged_category_classes = None
-        self._max = sum(len(c) for c in self.category_list)
+        self._max = sum(c.__len__() for c in self.category_list)
         self._accumulate_range = list(self._accumulate())
 
     def _accumulate(self):
         sum_len = 0
         yield sum_len
-        for length in (len(c) for c in self.category_list):
+        for length in (c.__len__() for c in self.category_list):
             sum_len += length
             yield sum_len
 
-- 
2.43.0


From a539278fc8e9583404556e9a812aacb00b949fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 06/31] fix: tiles are published in the pool only when they are
 complete

---
 mahjong/tile/definition.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mahjong/tile/definition.py b/mahjong/tile/definition.py
index 59b087d..8a60b29 100644
--- a/mahjong/tile/definition.py
+++ b/mahjong/tile/definition.py
@@ -40,13 +40,13 @@ class Tile:
             self._number = number
             self._color = color
             self._tuple_view = (color, number)
-            Tile._TILE_POOL[tile_hash] = tile_obj
             self._flush = TileSet(
-                (Tile(self._number + i, self._color) for i in range(Tile.FLUSH_LENGTH))
+                [self] + [Tile(self._number + i, self._color) for i in range(1, Tile.FLUSH_LENGTH)]
             ) if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1 else None
-            self._triplet = self.repeat(Tile.TRIPLET_LENGTH)
-            self._pair = self.repeat(Tile.PAIR_LENGTH)
-            return tile_obj
+            self._triplet = TileSet({self: Tile.TRIPLET_LENGTH})
+            self._pair = TileSet({self: Tile.PAIR_LENGTH})
+            # publish complete tiles only, other threads look them up in the pool.
+            return Tile._TILE_POOL.setdefault(tile_hash, tile_obj)
 
     def __hash__(self):
         return self._hash
-- 
2.43.0


From 46a88ae3cfb95e5c771a13457adc8f07990a977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 07/31] fix: reading on in an old stage group no longer
 swallows an element of the current one

---
 mahjong/record/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..cd0db68 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,8 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            if self.id is not id:
+                return  # a later group has been opened, its elements are not ours to skip.
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From b6ee0da419d236ed5c6cfad82f0410a548a4f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 08/31] fix: a discarded tile number 0 is no longer counted as
 unseen

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From 5ac4c7fdee18ef4eef3f528cd62ee20386b3310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 09/31] fix: the unseen 1m and 9m of a three-player game are
 tile numbers like the others

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 5001beae1f857813ee812739fb79ddb553a28b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 10/31] fix: the patterns of a win are the pattern ids of the
 yaku list, not the han in between

---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..7dfc287 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # "yaku" alternates pattern id and han, "yakuman" lists pattern ids only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = [SCORE_PATTERN[t] for t in yaku_ids]
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From f34f2538118e019333ae6bb317373b8af1eb4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 11/31] fix: the rating of a player is a number, not a text

---
 mahjong/record/universe/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/format.py b/mahjong/record/universe/format.py
index 02bd63c..22a115a 100644
--- a/mahjong/record/universe/format.py
+++ b/mahjong/record/universe/format.py
@@ -150,10 +150,10 @@ class PlayerView(View, Flag):
     final_score = auto()
     final_point = auto()
 
-    type__str = name | level | extra_level
+    type__str = name | level
     type__index = round
     type__int = rank
-    type__float = final_point
+    type__float = final_point | extra_level
     type__bool = is_dealer | is_win | is_self_win | is_discard_lose_game | in_richii | disconnected
     type__score = score | final_score
     type__tiles = hand | discard_tiles | meld_public_tiles | bonus_tiles
-- 
2.43.0


From b3580746330d03491673f726af4ec291bcde0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 12/31] fix: a missing text stays missing instead of becoming
 'None' or 'nan'

---
 mahjong/record/universe/property_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 9ea3c3a..2c83a57 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -73,7 +73,7 @@ def general_equal(expceted, actual):
 @prop_manager.register(ViewType.str, PropertyMethod.to_str)
 @prop_manager.register(ViewType.str, PropertyMethod.from_str)
 def plain_str(x):
-    return str(x)
+    return None if x is None or x != x else str(x)
 
 
 @prop_manager.register(None, PropertyMethod.to_str)
-- 
2.43.0


From a02be2ab3b4a6fec5e65cb519fc6ed5ffea573be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 13/31] fix: texts that look like missing values or numbers
 survive the command CSV

---
 mahjong/record/universe/command.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..9cef134 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,13 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        # only empty cells are missing: "NA", "null" or "007" are texts like any other.
+        return GameCommand.clean(pandas.read_csv(
+            csv_path,
+            dtype={"value": str, "state": str},
+            keep_default_na=False,
+            na_values={name: [""] for name in command_field_names}
+        ))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
-- 
2.43.0


From 7b6b2220219b2ef605052e47b4f6e35ca0498a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 14/31] fix: saved state tables are read back as they were
 written

---
 mahjong/record/universe/executor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..2e077cc 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -64,14 +64,18 @@ def state_series_apply(x):
             return prop_manager.from_str(t, prop=col_last)
 
         return x.apply(from_str_view)
-    return x
+    try:
+        return pd.to_numeric(x)
+    except ValueError:
+        return x
 
 
 
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        # every cell is the text flatten() wrote: only an empty one is missing, and no type is to be guessed.
+        df_states = pd.read_csv(csv_path, header=[0, 1, 2], dtype=str, keep_default_na=False, na_values=[""])
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
-- 
2.43.0


From 84d7858f42af2e18fbfdd96995ae04ed0c3c9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 15/31] fix: lazy conversions that are advanced alternately no
 longer share their state

---
 mahjong/record/universe/tenhou/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..8f05aaf 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -4,7 +4,10 @@ from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 def to_command_iter(record, strict):
     tenhou_command.clear()
+    state = tenhou_command.interpreter.state
     for event in record.events:
+        # another conversion may have run since the last event: each one goes on with its own state.
+        tenhou_command.interpreter.state = state
         yield from tenhou_command(event, strict)
 
 
-- 
2.43.0


From 81e52d2bca961044027b221c977a15c6699f1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 16/31] fix: a state cannot be cleared in place

---
 mahjong/record/universe/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 2e077cc..05ec67d 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -181,7 +181,7 @@ class TransferDict:
     def _readonly(self, *args, **kwards):
         raise NotImplemented
 
-    __setitem__ = __delattr__ = pop = update = popitem = _readonly
+    __setitem__ = __delattr__ = pop = update = popitem = clear = _readonly
 
     def set(self, key, value):
         modified_dict = {
-- 
2.43.0


From 5ebb9fda484cc89ab2135719a336aca9ae2ca655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 17/31] fix: defaulting a nested key that is already there
 returns the complete state

---
 mahjong/record/universe/executor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index 05ec67d..bb22593 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -214,8 +214,11 @@ class TransferDict:
     def setdefault(self, key, default):
         if key not in self:
             return self.set(key, default)
-        else:
-            return self
+        # nothing to change, but the result is the complete state like that of every other change.
+        root = self
+        while root.parent is not None:
+            root = root.parent
+        return root
 
     def transfer_value(self, k, v):
         if isinstance(v, dict):
-- 
2.43.0


From 695b69deb26c7a7aac885ccb2796f23a4882ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 18/31] fix: the win rate tool reports hands that never win in
 its experiments

---
 mahjong/win_rate_demo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..c9cab13 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,7 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count else 0
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
-- 
2.43.0


From b62d3711b5657179e66d88419f50fcaa1ff692ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 19/31] fix: the report merges the win types discard by discard
 and lists each of them

---
 mahjong/tenhou_record_check.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..c3bfa8d 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -7,6 +7,7 @@ import sys
 import pkg_resources
 
 from loguru import logger
+from collections import defaultdict
 from functools import reduce
 from itertools import groupby, product
 from typing import Set, List, Callable, TypeVar, Optional
@@ -230,11 +231,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
-    merged_win_reasonings = [
-        reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
-    ]
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
+    merged_win_reasonings = merge_win_types(win_reasonings, invisible_player_perspective)
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
     expected_reasonings = list(expected_reasonings)
@@ -291,7 +289,20 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
 
 def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
     for win in win_types:
-        yield list(one_win_reasoning(hand, invisible_player_perspective, win))
+        # a complete hand has no discard which keeps its waiting step, so every discard is considered.
+        yield list(one_win_reasoning(hand, invisible_player_perspective, win)) or [
+            reasoning_discards(hand, invisible_player_perspective, tile, win) for tile in hand
+        ]
+
+
+def merge_win_types(win_reasonings, invisible_player_perspective):
+    reasonings = [item for win_reasoning in win_reasonings for item in win_reasoning]
+    best_step = min(item.waiting_step for item in reasonings)
+    same_discard_reasonings = defaultdict(list)
+    for item in reasonings:
+        if item.waiting_step == best_step:
+            same_discard_reasonings[item.discard_tile].append(item)
+    return [reasoning_merge(items, invisible_player_perspective) for items in same_discard_reasonings.values()]
 
 
 def one_win_reasoning(hand, invisible_player_perspective, win):
-- 
2.43.0


From c1248a026439aea0d7018044b5bcd4199596fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 20/31] fix: the report copes with a best discard that no
 unseen tile improves

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index c3bfa8d..f3e6ab9 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -255,7 +255,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    # without any useful tile left, a choice is either as good as the expected ones or completely wrong.
+    correct_rate = your_counts / base if base else float(your_shanten == expect_shanten)
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 88f977d7deda75c452f08d1a549fe02e674cf2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 21/31] fix: the report shows red fives of a hand as they are
 held

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index f3e6ab9..ef2b2c5 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -266,7 +266,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     for item in merged_win_reasonings:
         item.norm()
 
-    hand_str = join_tiles(to_plain_tile(x) for x in hand.tiles())
+    hand_str = join_tiles(to_plain_tile(tile_from_tenhou(x)) for x in sorted(hand_state.value))
     meld_strs = [
         join_tiles(to_plain_tile(tile_from_tenhou(x))
                    for x in list(meld.self_tiles) + list(meld.borrowed_tiles))
-- 
2.43.0


From 20b2e84ea914a9cabaab66ba76703447d1406c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 22/31] fix: report names with characters that are not allowed
 in file names

---
 mahjong/tenhou_record_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index ef2b2c5..67337a2 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -194,7 +195,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)
+        return re.sub(r'[\\/:*?"<>|\x00-\x1f]', "_", file_name), render_str
     else:
         return render_str
 
-- 
2.43.0


From b8de05396509ca9ecc498e200cf45c19a927f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 23/31] fix: a discard that leaves a worse waiting step is
 always shaded

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 67337a2..290a896 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -253,7 +253,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     your_shanten, your_counts = reasoning_key(your_choice_reasoning)
     expect_counts = -expect_counts
     your_counts = -your_counts
-    shanten_sequence_count = len(invisible_player_perspective) ** (your_shanten - expect_shanten)
+    # one more than the unseen tiles: a worse waiting step is never as good, even if every unseen tile is useful.
+    shanten_sequence_count = (len(invisible_player_perspective) + 1) ** (your_shanten - expect_shanten)
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-- 
2.43.0


From 768eb3fdcba6f55d0cd38d18b2b1082a469291f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 24/31] fix: rules for a tag with an attribute were filed under
 (attribute, tag) and never tried

---
 mahjong/record/universe/tenhou/xml_macher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/xml_macher.py b/mahjong/record/universe/tenhou/xml_macher.py
index 5d1caf8..f3aed83 100644
--- a/mahjong/record/universe/tenhou/xml_macher.py
+++ b/mahjong/record/universe/tenhou/xml_macher.py
@@ -44,7 +44,7 @@ class TenhouCommandTranslator(CommandTranslator):
 
     def match_both(self, *, name: str, attr: str) -> Callable[[EventTransform], EventTransform]:
         def _matcher_decor(func: EventTransform):
-            self.both_match[(attr, name)].append(func)
+            self.both_match[(name, attr)].append(func)
             return func
 
         return _matcher_decor
-- 
2.43.0


From ad0c298a4dd0be2667dcb631613551102614ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 25/31] fix: repr of a log event always raised TypeError

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From f9084c1f5aa6ec84786168c538b014d0cc8ef89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 26/31] fix: a tracker whose key events depend on its state was
 asked about the first state only

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 4998032..4732bae 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -38,7 +38,7 @@ class GameState(metaclass=ABCMeta):
     def with_key_events(self, events) -> Iterator[GameState]:
         initial_state = self
         for event in events:
-            if self.is_key_event(event):
+            if initial_state.is_key_event(event):
                 initial_state = initial_state.scan(event)
                 yield initial_state
 
-- 
2.43.0


From 2e8c0f17434a89168348b88459848f26ceca2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 27/31] fix: registering an assertion check always raised
 TypeError

---
 mahjong/record/universe/property_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/property_manager.py b/mahjong/record/universe/property_manager.py
index 2c83a57..e197988 100644
--- a/mahjong/record/universe/property_manager.py
+++ b/mahjong/record/universe/property_manager.py
@@ -41,7 +41,7 @@ class PropertyTypeManager:
     def register_assertion_check(self, name):
         def _assertion_wrapper(func):
             checker = assertion(func)
-            self.register(name, PropertyMethod.is_type)()
+            self.register(name, PropertyMethod.is_type)(checker)
             return checker
 
         return _assertion_wrapper
-- 
2.43.0


From a97e39e295ef771f9d1f0aaae4db0f748c04d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 28/31] fix: the symbol of an aka dora was that of another kind
 of tile

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 290a896..51e9cf4 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -48,7 +48,7 @@ def to_unicode_tile(tile: Tile) -> str:
     if tile.color == 'z':
         number = UNICODE_HONOR_ORDER[tile.number] - 1
     else:
-        number = tile.number - 1
+        number = (tile.number or 5) - 1  # an aka dora (number 0) is one of the fives.
     index = TILE_CATEGORY.index((color, number))
     return chr(0x1f000 + index)
 
-- 
2.43.0


From 7c613738f36432db12fdb099aa5bca818ea154f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 29/31] fix: printing a tile set emptied it for a moment, also
 the sets all threads share

---
 mahjong/container/set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mahjong/container/set.py b/mahjong/container/set.py
index 400e4f2..632889f 100644
--- a/mahjong/container/set.py
+++ b/mahjong/container/set.py
@@ -41,8 +41,10 @@ class TileSet(Counter):
             return None
 
     def __str__(self):
-        self.re_sort()
-        return ''.join(self._gen_str_iter())
+        # sorting in place empties the set for a moment: it may be in use elsewhere.
+        ordered = self.copy()
+        ordered.re_sort()
+        return ''.join(ordered._gen_str_iter())
 
     def __repr__(self):
         return "%s" % self
-- 
2.43.0


From f7b7856df79531f7fb07c59c108fd2c0025e542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 30/31] fix: conversions in several threads used one another's
 state

---
 mahjong/record/universe/tenhou/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 8f05aaf..c596a8f 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -1,14 +1,16 @@
+from copy import copy
+
 import mahjong.record.universe.tenhou.event_definition as _event_def
+from mahjong.record.universe.interpreter import GameInterpreter
 from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 
 def to_command_iter(record, strict):
-    tenhou_command.clear()
-    state = tenhou_command.interpreter.state
+    # each conversion has a state of its own, also when several of them run at once.
+    translator = copy(tenhou_command)
+    translator.interpreter = GameInterpreter()
     for event in record.events:
-        # another conversion may have run since the last event: each one goes on with its own state.
-        tenhou_command.interpreter.state = state
-        yield from tenhou_command(event, strict)
+        yield from translator(event, strict)
 
 
 def to_command_records(record, raw=False, strict=False):
-- 
2.43.0


From 37a19643ed431f69504a1edffb52f7cfa09bcbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 31/31] fix: a superscript digit as player number means all
 players, not a crash

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 51e9cf4..6171729 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -166,7 +166,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0

