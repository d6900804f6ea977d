From 3b8bfc51417040cb4ec8ea9c884df340ca34519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 01/21] fix: do not panic when looking for serverinfo in data
 shorter than 1280 bytes

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From fb41920db79c301674952311b68dc2ec7b41050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 02/21] fix: do not panic when clientinfo strings are close to
 the end of the data

---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From 57016ba00aff5f0a7bc1eaa193473a9d42f8673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 03/21] fix: reject frames reaching past the end of the data

---
 src/qw/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..681a4ec 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,10 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let Some(remaining) = data.get(index..) else {
+            return Err(e!("Frame index is out of bounds"));
+        };
+        let mut cur = Cursor::new(remaining);
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +51,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if remaining.len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From 42f70c39cefcec0645a609b4ee03e18d55e0d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 04/21] fix: reject hidden blocks smaller than their own block
 number

---
 src/qw/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..7c2a716 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let body_size = (cur.read_u32()? as usize)
+            .checked_sub(numsize::SHORT)
+            .ok_or_else(|| e!("Block is smaller than expected size"))?;
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 81e5f36f979672664cdcfbe1c953099433c87f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 05/21] fix: return an error for truncated ktxstats blocks

---
 src/ktxstats.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..43da855 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,29 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|offset| offset.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    while let Some(header) = data.get(offset + frame::MULTI_HEADER_SIZE..) {
+        let Ok(info) = block::Info::try_from(header) else {
+            break;
+        };
+
         if info.hidden_message != HiddenMessage::Demoinfo {
             break;
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats is truncated"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
-- 
2.43.0


From 6a776079c3ceb205e105a94964a0be1785784d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 06/21] fix: do not overflow when averaging high pings

---
 src/ping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..cb86629 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,7 +51,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
+        let pings_sum = pings.iter().map(|ping| *ping as u32).sum::<u32>();
         let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
-- 
2.43.0


From 4347ca4276605128ad3c01ae1422bb585e4cb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 07/21] fix: do not overflow when summing frame durations

---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..cfc8b9c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,14 +59,14 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += frame_info.duration as u64;
         index += frame_info.size;
     }
 
-- 
2.43.0


From f2ddf34e985714b35b9f0398d0286615803a8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 08/21] fix: return an error for impossible match durations

---
 src/duration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index cfc8b9c..5b5b899 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,8 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    end.checked_sub(begin)
+        .ok_or_else(|| e!("Match ends before it begins"))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
@@ -54,7 +55,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From 81942a8a361ce2278c4ec4b45756f44fbc7514a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 09/21] fix: do not panic on matchdates with multibyte
 characters

---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From 3ccbb99c9a93dcc75aac2f3170e6f073973ad036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 10/21] fix: do not overflow when summing frags and pings of a
 team

---
 src/team.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..70a8b6c 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,17 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut frags: i64 = 0;
+        let mut ping: u64 = 0;
+
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            frags += player.frags as i64;
+            ping += player.ping as u64;
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.frags = frags.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
+        team.ping = (ping as f64 / team.players.len() as f64).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 85ba0d8460508b70eabda3f4c875e5c51a66852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 11/21] fix: make the majority color deterministic and able to
 count past 255

---
 src/team.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index 70a8b6c..30f2172 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -68,18 +68,20 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
     }
 
+    // first color wins on ties
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From de965d996957a36971ec9f03846a7a704a93a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 12/21] fix: make the order of teams whose names only differ in
 case deterministic

---
 src/team.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index 30f2172..ed0d425 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -56,7 +56,9 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        (a.name.to_lowercase(), &a.name).cmp(&(b.name.to_lowercase(), &b.name))
+    });
 
     teams
 }
-- 
2.43.0


From e8d43cd1bd44cea2945295d8a04c8b0cc7dcf987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 13/21] fix: make the order of players with equal frags and
 name deterministic

---
 src/players.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..9c52fe5 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,5 +1,3 @@
-use std::collections::HashMap;
-
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
 
@@ -28,7 +26,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut players: Vec<Player> = vec![];
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
@@ -41,10 +39,9 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
             auth_cc: c.auth_cc.clone(),
             is_bot: c.is_bot,
         };
-        pmap.insert(c.number, player);
+        players.push(player);
     }
 
-    let mut players: Vec<Player> = pmap.values().cloned().collect();
     players.sort_by(player::sort());
     Ok(players)
 }
-- 
2.43.0


From 046619fb972158b75f37c2df6363f4ff98545eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 14/21] fix: do not turn negative pings into huge ones

---
 src/player.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/player.rs b/src/player.rs
index a89465b..67c3fc2 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -26,7 +26,7 @@ impl From<&ktxstats::v3::Player> for Player {
             team: player.team.clone(),
             color: [player.top_color as u8, player.bottom_color as u8],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
-- 
2.43.0


From d7c578f28813249f5faf97e5f59638549fc79b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 15/21] fix: do not overflow when counting more than 255 flag
 events

---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From 372b22c49ba56c51891fa9dad5f910149eb06625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 16/21] fix: list every team name once

---
 src/clients.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..05c6c29 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -70,9 +70,9 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
-    names = unicode::sort(&names);
+    names.sort();
     names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 569008cfc475145ef0fa7a5f96ca83a384258920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 17/21] fix: credit frags to players whose name ends with a
 space

---
 src/frags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..4814fb8 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -43,7 +43,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        match FragEvent::try_from(content_u.trim_end_matches('\n')) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From ae1c3f07e2664d179923cb1f37627fd5cca5ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 18/21] fix: count every flag event of a frame containing
 several of them

---
 src/flags.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..f2b4ae8 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -40,16 +40,14 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
+                        let is_complete = current_print.ends_with(b"\n");
+
+                        if is_complete || !is_message_suffix(&p.content) {
+                            prints.push(current_print);
                             current_print = vec![];
                         }
+
+                        current_print.extend_from_slice(&p.content);
                     }
                 }
             }
-- 
2.43.0


From 1214fe11534882f77159dfc1c923a294aafeed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 19/21] fix: do not read one-digit and three-digit UTC offsets
 as tens of hours

---
 src/timezone.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/timezone.rs b/src/timezone.rs
index bf047a9..1e1efc6 100644
--- a/src/timezone.rs
+++ b/src/timezone.rs
@@ -235,12 +235,14 @@ fn utc_offset_by_offset(offset: &str) -> Option<String> {
     };
 
     // support +xx and +xxxx
-    let offset = format!("{:0<4}", offset[1..].replace(':', ""));
+    let digits = offset[1..].replace(':', "");
 
-    if offset.len() != 4 {
+    if ![2, 4].contains(&digits.len()) {
         return None;
     }
 
+    let offset = format!("{:0<4}", digits);
+
     // validate that number is between 0000 and 1200
     match offset.parse::<i32>() {
         Ok(number) if (0..=1200).contains(&number) => {
-- 
2.43.0


From f106803e6fd1f923bc63d100a67542d6fe59f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 20/21] fix: keep durations exact to the millisecond

---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5b5b899..692def5 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -71,7 +71,7 @@ fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From f4f4952597bf031c995ed8c63a1a22cc67615930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 21/21] fix: average any number of pings exactly

---
 src/ping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index cb86629..3636d50 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,8 +51,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().map(|ping| *ping as u32).sum::<u32>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let pings_sum = pings.iter().map(|ping| *ping as u64).sum::<u64>();
+        let avg_ping = (pings_sum / pings.len() as u64) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0

