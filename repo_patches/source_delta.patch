From 83bf00fa8dd275d47dca5ea6eeff58732cea78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 01/27] fix: MinesweeperBoard::reset also resets the pre-flag
 count and the middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..ba2a097 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From 9ab8b0c9e22680763efd8674e484a7be5b884827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 02/27] fix: rqp, qg and ce_s of a finished game use its time,
 not the replay clock

---
 base/src/videos/base_video.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..8a1afc6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1607,19 +1607,27 @@ impl<T> BaseVideo<T> {
             )
         }
     }
+    /// 动态指标所用的时间：播放时是当前时间，游戏结束后是时间成绩（current_time仅播放时用）
+    fn get_elapsed_time(&self) -> f64 {
+        if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        }
+    }
     pub fn get_rqp(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        Ok(self.get_elapsed_time().powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        Ok(self.get_elapsed_time().powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1637,10 +1645,11 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = self.get_elapsed_time();
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From e9f90280170c8bff9b8d2ba9e39305a3113a2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 03/27] fix: replacing the checksum also updates the stored one

---
 base/src/videos/base_video.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 8a1afc6..fc2fec5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1374,6 +1374,7 @@ impl<T> BaseVideo<T> {
             for i in 0..32 {
                 self.raw_data[ptr + i] = checksum[i];
             }
+            self.checksum = checksum;
             return Ok(0);
         }
     }
-- 
2.43.0


From 11c572e9efe50a89d05f6877b5ca68c0879774cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 04/27] fix: BaseVideo::reset forgets the previous game's
 checksum

---
 base/src/videos/base_video.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index fc2fec5..c5b7d8b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -438,6 +438,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
@@ -641,6 +643,8 @@ impl BaseVideo<SafeBoard> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
-- 
2.43.0


From 882698d456036f02ffdb4835159e1b648c1b844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 05/27] fix: default probabilities of the first board have the
 board's dimensions

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index c5b7d8b..30f3f44 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1128,7 +1128,7 @@ impl<T> BaseVideo<T> {
                 id -= 1;
                 if id <= 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
-- 
2.43.0


From 674b559317143a313b54d4bd689db062049fac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 06/27] fix: get_game_board_poss does not step before the first
 event

---
 base/src/videos/base_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 30f3f44..ac1f93b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1125,11 +1125,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id == 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
                     return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
-- 
2.43.0


From 0707cad4c9a4c05ff3536d43b0f71b1413ba8c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 07/27] fix: a game decided by its first opening also starts
 its clock there

---
 base/src/videos/base_video.rs | 40 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index ac1f93b..a2eafee 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -804,6 +804,27 @@ impl<T> BaseVideo<T> {
 
         let a = self.minesweeper_board.step(e, (x, y))?;
         self.game_board_state = self.minesweeper_board.game_board_state;
+        // 游戏开始。第一次打开就可能直接获胜或失败，此时同样要开始计时
+        if old_state != GameBoardState::Playing
+            && (self.game_board_state == GameBoardState::Playing
+                || self.game_board_state == GameBoardState::Win
+                || self.game_board_state == GameBoardState::Loss)
+        {
+            if old_state == GameBoardState::Ready {
+                self.video_start_instant = step_instant;
+                time_ms = time_ms_between(step_instant, self.video_start_instant);
+                time = time_ms as f64 / 1000.0;
+            }
+            self.game_start_ms = time_ms;
+            // 高精度的时间戳，单位为微秒
+            // https://doc.rust-lang.org/std/time/struct.Instant.html
+            self.start_time = SystemTime::now()
+                .duration_since(UNIX_EPOCH)
+                .unwrap()
+                .as_micros()
+                .to_string()
+                .into_bytes();
+        }
         match self.game_board_state {
             GameBoardState::Ready => {
                 self.game_board_stream.clear();
@@ -817,24 +838,7 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
-                if old_state != GameBoardState::Playing {
-                    if old_state == GameBoardState::Ready {
-                        self.video_start_instant = step_instant;
-                        time_ms = time_ms_between(step_instant, self.video_start_instant);
-                        time = time_ms as f64 / 1000.0;
-                    }
-                    self.game_start_ms = time_ms;
-                    // 高精度的时间戳，单位为微秒
-                    // https://doc.rust-lang.org/std/time/struct.Instant.html
-                    self.start_time = SystemTime::now()
-                        .duration_since(UNIX_EPOCH)
-                        .unwrap()
-                        .as_micros()
-                        .to_string()
-                        .into_bytes();
-                }
-            }
+            GameBoardState::Playing => {}
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
-- 
2.43.0


From 1176928c129459f7fd1b6c092a479fd2000b8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 08/27] fix: setting the replay clock to an event's own time
 keeps that event current

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index a2eafee..73bbac1 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1221,7 +1221,7 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        if time >= self.video_action_state_recorder[self.current_event_id].time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
-- 
2.43.0


From 863969f12f0c5486d118aa99cceaf13c8e396a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 09/27] fix: the EVF reader remembers that the file carries a
 checksum

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 73bbac1..a8e6233 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -327,7 +327,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..4a9c64d 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -202,6 +202,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From 02c8d95bcf8b7dbcab4f10bb14d0e529c6024f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 10/27] fix: 8x8 stnb of a replay uses the coefficient get_stnb
 uses

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index a8e6233..8e4f1f9 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -557,7 +557,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
             * self.game_dynamic_params.rtime
             / self.static_params.bbbv as f64;
         if self.height == 8 && self.width == 8 && self.mine_num == 10 {
-            self.video_dynamic_params.stnb = 47.22
+            self.video_dynamic_params.stnb = 47.299
                 / (self.game_dynamic_params.rtime.powf(1.7) / self.static_params.bbbv as f64)
                 * (b.bbbv_solved as f64 / self.static_params.bbbv as f64).powf(0.5);
         } else if self.height == 16 && self.width == 16 && self.mine_num == 40 {
-- 
2.43.0


From d791567c2c9e46ff4789da78a0c8512b9f61077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 11/27] fix: replay analysis records doubles and flags per
 second

---
 base/src/videos/base_video.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 8e4f1f9..a421c8b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -547,10 +547,12 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.video_dynamic_params.ce = b.ce;
         self.video_dynamic_params.ce_s = b.ce as f64 / self.game_dynamic_params.rtime;
         self.game_dynamic_params.double = b.double;
+        self.game_dynamic_params.double_s = b.double as f64 / self.game_dynamic_params.rtime;
         self.game_dynamic_params.cl = b.left + b.right + b.double;
         self.game_dynamic_params.cl_s =
             self.game_dynamic_params.cl as f64 / self.game_dynamic_params.rtime;
         self.game_dynamic_params.flag = b.flag;
+        self.game_dynamic_params.flag_s = b.flag as f64 / self.game_dynamic_params.rtime;
         self.video_dynamic_params.bbbv_s =
             self.static_params.bbbv as f64 / self.game_dynamic_params.rtime;
         self.video_dynamic_params.rqp = self.game_dynamic_params.rtime
-- 
2.43.0


From 98d971e738e7288ecf2d8ddbdfe2275731e1dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 12/27] fix: iterating over an encoded row yields the cells'
 values

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..43d3a23 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -172,7 +172,7 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
-- 
2.43.0


From a3c6dfb287e684d82f3c95497ea3b91132783147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 13/27] fix: an encoded row's exact length is the number of
 cells left

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 43d3a23..6c82831 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -182,7 +182,7 @@ impl Iterator for SafeBoardRow {
 #[cfg(any(feature = "py", feature = "rs"))]
 impl ExactSizeIterator for SafeBoardRow {
     fn len(&self) -> usize {
-        self.value_1.len()
+        self.value_1.len() - self.counter
     }
 }
 
-- 
2.43.0


From 1cc9bccc57faf8165f8d5ba8b6490ce8466a378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 14/27] fix: Board keeps the statistics it has computed

---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From 222b4c94c8d2d35f5b35cbeb5e06f27279e4f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 15/27] fix: GameBoard forgets its results when given another
 board

---
 base/src/board.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..b227913 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,13 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        // 换了局面，之前的计算结果作废
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
-- 
2.43.0


From f005b447036b17ae158c6a8860df98c41cbeef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 16/27] fix: GameBoard reports the mines found by enumeration

---
 base/src/board.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index b227913..6a9650c 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -97,15 +97,9 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        let (enum_not_mine, enum_is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
+        self.enum_not_mine = enum_not_mine;
+        self.enum_is_mine = enum_is_mine;
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From 934a713dceb37593365bf544e912fa05e6ecf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 17/27] fix: is_good_chording does not look past the last
 column

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..2dbd2d7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1733,7 +1733,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From dc7d60bfe7ce3bf778026fffceb7f184594012af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 18/27] fix: sample_3BVs_exp counted openings of one region
 more than once

---
 base/src/algorithms.rs |  4 +-
 base/src/utils.rs      | 91 ------------------------------------------
 2 files changed, 2 insertions(+), 93 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..b20a178 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1,5 +1,5 @@
 use crate::utils::{
-    cal_bbbv_exp, cal_table_minenum_recursion, chunk_matrixes,
+    cal_bbbv, cal_table_minenum_recursion, chunk_matrixes,
     combine, find_a_border_cell, laymine, laymine_op, legalize_board,
     refresh_board, refresh_matrixs, refresh_matrixses, unsolvable_structure,
     BigNumber, C,
@@ -1124,7 +1124,7 @@ fn laymine_study_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
                 }
             }
         }
-        bv_record[cal_bbbv_exp(&board)] += 1;
+        bv_record[cal_bbbv(&board)] += 1;
     }
     bv_record
 }
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 2dbd2d7..0f91574 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1419,97 +1419,6 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
     false
 }
 
-// 专用于高级局面的3BV快速计算
-pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
-    let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
-    let mut bv = 0;
-    for x in 0..16 {
-        for y in 0..30 {
-            if board[x][y] > 0 {
-                board[x][y] = 1000000;
-                bv += 1;
-            } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
-                if x >= 1 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x - 1][j] > 999999 {
-                            board[x - 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
-                        }
-                    }
-                }
-                if y >= 1 {
-                    if board[x][y - 1] > 999999 {
-                        board[x][y - 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
-                    }
-                }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
-            }
-        }
-    }
-    for x in (0..16).rev() {
-        for y in (0..30).rev() {
-            if board[x][y] == 0 {
-                if x <= 14 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x + 1][j] > 999999 {
-                            board[x + 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
-                            }
-                        }
-                    }
-                }
-                if y <= 28 {
-                    if board[x][y + 1] > 999999 {
-                        board[x][y + 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
-                    }
-                }
-            }
-        }
-    }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
-        }
-    }
-    bv
-}
-
 // 把局面合法化：只能合法化简单的情况，不能应付所有的情况！因为检查一个局面是否合法也是NP难的
 // 配合局面光学识别算法
 // 局面中标记的标准是10为待判的雷，1到8，没有11、12
-- 
2.43.0


From ab68bcb055b6b1b4a360e02534d13cabd6c7f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 19/27] fix: laymine_op and laymine_solvable_adjust panicked on
 boards one row or column wide

---
 base/src/algorithms.rs | 14 ++------------
 base/src/utils.rs      | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index b20a178..483c6e5 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -803,18 +803,8 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    // 起手位置周围（含自身）不埋雷的格子数，只有一行或一列时也成立
+    let area_op = (min(row, x0 + 2) + 1 - max(1, x0)) * (min(column, y0 + 2) + 1 - max(1, y0));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 0f91574..81fd14d 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -509,18 +509,8 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置周围（含自身）不埋雷的格子数，只有一行或一列时也成立
+    let areaOp = (min(row, X0 + 2) + 1 - max(1, X0)) * (min(column, Y0 + 2) + 1 - max(1, Y0));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From a71e2bdad048a09bd74a261a1cd86a7787abe546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 20/27] fix: a chord counted part of an opening blocked by a
 mark as an opening of its own

---
 base/src/videos/minesweeper_board.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index ba2a097..f992096 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -359,6 +359,8 @@ impl<T> MinesweeperBoard<T> {
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        // 遇到标雷也要走完整个空，否则同一个空的剩余部分会被当成另一个空
+        let mut completed = true;
         let mut poses = vec![(x, y)];
         while let Some(top) = poses.pop() {
             let (i, j) = top;
@@ -366,7 +368,7 @@ impl<T> MinesweeperBoard<T> {
                 continue;
             } else if self.board[i][j] == 0 {
                 if self.game_board[i][j] == 11 {
-                    return false;
+                    completed = false;
                 }
                 game_board_mark[i][j] = true;
                 for m in max(1, i) - 1..min(self.row, i + 2) {
@@ -379,7 +381,7 @@ impl<T> MinesweeperBoard<T> {
             } else {
             }
         }
-        true
+        completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From 0c4b801adfbca98df030454fc87346cccf9192c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 21/27] fix: refuse AVF mines outside the board

---
 base/src/videos/avf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..f5cabe4 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c < 1 || c > self.data.height || d < 1 || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
-- 
2.43.0


From 1eedfdca191d114bb22915539c00d685839096c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 22/27] fix: report MVF files of unsupported versions as errors

---
 base/src/videos/mvf_video.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..4263c23 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -302,7 +302,6 @@ impl MvfVideo {
         Ok(())
     }
     pub fn parse_video(&mut self) -> Result<(), ErrReadVideoReason> {
-        self.data.can_analyse = true;
         // self.data.is_completed; // 该格式解析前不能确定是否扫完
         self.data.is_offical = true;
         self.data.is_fair = true;
@@ -316,12 +315,14 @@ impl MvfVideo {
                 //Clone 0.97
                 self.data.offset += 46;
                 self.data.software = "0.97 beta".as_bytes().to_vec();
-                return self.read_097();
+                self.read_097()?;
+                self.data.can_analyse = true;
+                return Ok(());
             } else {
-                Ok(())
+                Err(ErrReadVideoReason::InvalidParams)
             }
         } else {
-            Ok(())
+            Err(ErrReadVideoReason::InvalidParams)
         }
     }
 }
-- 
2.43.0


From 5b354dd732e8f001cbe394aa4329d2129b93c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 23/27] fix: MVF reader: refuse mines outside the board,
 unknown levels, boards without cells and games without events

---
 base/src/videos/mvf_video.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 4263c23..e3d2a05 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,13 +44,18 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if h >= self.data.height || w >= self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
@@ -116,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()?.checked_add(2) {
+            Some(level) => level,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -204,6 +212,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
-- 
2.43.0


From 1cbe7f868250f0a399f8cd8e496c3d9964cc6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 24/27] fix: RMV reader: refuse short results and properties,
 unknown levels, boards without cells and games without events

---
 base/src/videos/rmv_video.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..9b5e830 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,6 +101,9 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
+            if result_string_size < 3 {
+                return Err(ErrReadVideoReason::InvalidParams);
+            }
             for _ in 0..result_string_size - 3 {
                 self.data.get_u8()?;
             }
@@ -146,6 +149,9 @@ impl RmvVideo {
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
         self.data.mine_num = self.data.get_u16()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
 
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
@@ -183,8 +189,14 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()?.checked_add(3) {
+            Some(level) => level,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
@@ -243,9 +255,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(event) => event.time,
+            None => return Err(ErrReadVideoReason::InvalidParams),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From cbd0f7b3b4eb1cc5ad9cde0ac6adfbdf4c72b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 25/27] fix: refuse EVF files of boards without cells

---
 base/src/videos/evf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 4a9c64d..fa9df8e 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -49,6 +49,9 @@ impl EvfVideo {
         self.data.is_fair = the_byte & 0b0010_0000 != 0;
         self.data.height = self.data.get_u8()? as usize;
         self.data.width = self.data.get_u8()? as usize;
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()? as usize;
         if self.data.height == 8 && self.data.width == 8 && self.data.mine_num == 10 {
             self.data.level = 3;
-- 
2.43.0


From 8b41aff4cb4c99926187377eb30f2ca3a8916f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 26/27] fix: the chance of survival is added to the remarks of
 the last event instead of replacing them

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..1781a84 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -240,7 +240,7 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    video.video_action_state_recorder.last_mut().unwrap().comments.push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From 1a0de4509fba1a434b051453b473b8ede8fb4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 27/27] fix: the FL analysis looks up the cell of a right click
 only when the click had an effect, so one beside the board cannot panic

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 1781a84..353dc05 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -273,8 +273,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0

