From 6eb5b3e6e6922bfa841a28cac005be7866499934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 01/17] fix: keep output on one line when colors are disabled

write_in_color printed a newline after every fragment whenever stdout was not a
color terminal, tearing the documented layout apart (one bit per line).
---
 src/console.rs | 2 +-
 src/main.rs    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
diff --git a/src/main.rs b/src/main.rs
index 21da9bf..36d3162 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,6 +25,7 @@ fn color_test() {
     crate::console::write_in_color("Magenta", Some(Color::Magenta), 20);
     crate::console::write_in_color("Yellow", Some(Color::Yellow), 20);
     crate::console::write_in_color("White", Some(Color::White), 20);
+    println!();
 }
 
 fn usage() {
-- 
2.43.0


From 188416c3daa0bd8278ad0470aacfd871b41ed651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 02/17] fix: end the "no hosts/net" line

---
 src/cmds/show_net.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
-- 
2.43.0


From d69c8cabf1c50c6eac479d0a6b611e06e43af6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 03/17] fix: derange ranges that reach the end of the address
 space

The subnets of such a range have no successor, which made --derange panic; the
range covering the whole address space additionally underflowed the prefix.
---
 src/cmds/derange.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..84c3d78 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -65,16 +65,24 @@ pub fn range_to_subnets<A: IpAddress>(
     // start with the full mask
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
-        // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
-        if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
+        // try enlarging the subnet (unless it already spans the whole address space)
+        let larger_subnet = match current_subnet.cidr_prefix().unwrap() {
+            0 => None,
+            prefix => Some(IpNetwork::new_with_prefix(first_addr, prefix - 1)),
+        }
+            .filter(|net| net.base_addr() == first_addr && net.last_addr_of_subnet() <= last_addr);
+
+        if let Some(net) = larger_subnet {
+            // anchor the growth and continue
+            current_subnet = net;
+        } else {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(addr) => addr,
+                None => break, // we have reached the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
-        } else {
-            // anchor the growth and continue
-            current_subnet = larger_subnet;
         }
     }
 
-- 
2.43.0


From 477c1ac2b8919d2bf98f856a4e3f51b40dff1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 04/17] fix: split networks up to the end of the address space

A slice bordering the end of the address space (or spanning all of it) was
refused with "Not enough addresses available" although it fits exactly.
---
 src/cmds/split.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..617d408 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -100,28 +100,25 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        let base_addr = match next_base_addr {
+            Some(nba) => nba,
+            None => return None, // the previous slice borders the end of the address space
+        };
+        let mut current_net = IpNetwork::new_with_prefix(base_addr, base_addr.byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
-                break;
+                // this won't fit
+                return None;
             }
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
-            // this won't fit
-            return None;
-        }
-
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From d1949fe5087aae36a9bb4ddbe7c92851ae03ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 05/17] fix: list no unused networks when a split uses up the
 whole network

The leftover range was empty, but its swapped ends were taken for the range from
the last address of the network to the first address after it.
---
 src/cmds/split.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 617d408..3a70713 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -73,9 +73,17 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .expect("no subnets returned");
     if !subnet.contains(&max_used_address) {
         println!("Network is too small");
-    } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
+        return 0;
+    }
+
+    let last_address = subnet.last_addr_of_subnet();
+    if max_used_address == last_address {
+        // nothing left over
+        return 0;
+    }
+
+    if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
-        let last_address = subnet.last_addr_of_subnet();
         let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
         for unused_subnet in unused_subnets {
-- 
2.43.0


From d28a9a5b91b6ac97b7fa38a1014d9135e20fd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 06/17] fix: notice split slices that are larger than the
 network

Such a slice can start before the network and end exactly with it (e.g. 300 hosts
in 10.0.1.0/24), so checking only the last used address reported it as fitting.
---
 src/cmds/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 3a70713..fe10cfb 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,7 +71,7 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if !split_subnets.iter().all(|sn| sn.is_subset_of(&subnet)) {
         println!("Network is too small");
         return 0;
     }
-- 
2.43.0


From e10d1f20231675e6f0d55c8a73676ba79b2d8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 07/17] fix: borrow from the top half in IPv6 subtraction

The borrow was only taken when the top halves were equal, so e.g.
0:0:0:1:: minus ::1 yielded 0:0:0:1:ffff:ffff:ffff:ffff.
---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..e46b4f2 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From 12140a26cd0002cc14c7de0744c2c46dc5c0eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 08/17] fix: accept the smallest offset in IPv6 address
 arithmetic

Negating i32::MIN overflowed.
---
 src/addr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index e46b4f2..0290dbd 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -355,12 +355,16 @@ impl IpAddress for Ipv6Address {
     }
 
     fn add_offset(&self, offset: i32) -> Option<Ipv6Address> {
+        let magnitude: u64 = offset.unsigned_abs().into();
         if offset < 0 {
-            Ipv6Address::subtract_offset(&self, -offset)
+            Ipv6Address::sub_internal(
+                self.top_half, self.bottom_half,
+                0, magnitude,
+            )
         } else {
             Ipv6Address::add_internal(
                 self.top_half, self.bottom_half,
-                0, offset.try_into().unwrap(),
+                0, magnitude,
             )
         }
     }
@@ -373,12 +377,16 @@ impl IpAddress for Ipv6Address {
     }
 
     fn subtract_offset(&self, offset: i32) -> Option<Ipv6Address> {
+        let magnitude: u64 = offset.unsigned_abs().into();
         if offset < 0 {
-            Ipv6Address::add_offset(&self, -offset)
+            Ipv6Address::add_internal(
+                self.top_half, self.bottom_half,
+                0, magnitude,
+            )
         } else {
             Ipv6Address::sub_internal(
                 self.top_half, self.bottom_half,
-                0, offset.try_into().unwrap(),
+                0, magnitude,
             )
         }
     }
-- 
2.43.0


From 1d4c868e3d385d1f338cfb18215e8f53a5c3b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 09/17] fix: include the chunks in the full IPv6 string
 representation

The loop ran over the (still empty) output instead of the chunks.
---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0290dbd..f7d66e9 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From bd6d357b84426984535a060832ca754538d10a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 10/17] fix: decide intersection of lopsided networks by their
 members

Comparing first and last addresses is only valid for contiguous networks.
---
 src/net.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..cfaf118 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,10 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // host bits of either network can be chosen freely, so the networks only differ if their base
+        // addresses differ in a bit that is a network bit of both
+        let common_mask = self.subnet_mask & other.subnet_mask;
+        (self.base_addr & common_mask) == (other.base_addr & common_mask)
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 633644087c6f30748f436629bca94f8ae9cf3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 11/17] fix: drop networks contained in a merged network when
 minimizing

Subnets were only eliminated before merging, but two lopsided-mask neighbors can
merge into a network containing a third one that neither of them contained.
---
 src/cmds/minimize.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..f44387e 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -54,22 +54,9 @@ pub fn minimize(args: &[String]) -> i32 {
 pub fn minimize_subnets<A: IpAddress>(
     mut subnets: Vec<IpNetwork<A>>,
 ) -> Vec<IpNetwork<A>> {
-    subnets.sort_unstable_by_key(|net| (net.base_addr(), net.subnet_mask()));
-
     let mut filtered_subnets: HashSet<IpNetwork<A>> = HashSet::new();
     filtered_subnets.extend(subnets.iter());
 
-    // eliminate subnets
-    for i in 0..subnets.len() {
-        for j in (i+1)..subnets.len() {
-            if subnets[i].is_superset_of(&subnets[j]) && subnets[i] != subnets[j] {
-                // i is a subset of j
-                filtered_subnets.remove(&subnets[j]);
-            }
-        }
-    }
-
-    // try joining adjacent same-size subnets
     let mut subnets_merged = true;
     while subnets_merged {
         subnets_merged = false;
@@ -79,6 +66,18 @@ pub fn minimize_subnets<A: IpAddress>(
             .collect();
         subnets.sort_unstable_by_key(|net| (net.base_addr(), net.subnet_mask()));
 
+        // eliminate subnets (a freshly merged network may contain further lopsided ones)
+        for i in 0..subnets.len() {
+            for j in (i+1)..subnets.len() {
+                if subnets[i].is_superset_of(&subnets[j]) && subnets[i] != subnets[j] {
+                    // j is a subset of i
+                    filtered_subnets.remove(&subnets[j]);
+                }
+            }
+        }
+        subnets.retain(|net| filtered_subnets.contains(net));
+
+        // try joining adjacent same-size subnets
         for i in 0..subnets.len() {
             for j in (i+1)..subnets.len() {
                 if subnets[i].subnet_mask() != subnets[j].subnet_mask() {
-- 
2.43.0


From 8a5c62441e7929bc40c329d06ca2b333850a83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 12/17] fix: parse colons at the start and end of IPv6
 addresses correctly

Replacing a leading or trailing empty chunk with "0" made addresses in which "::"
stands for a single chunk there (1:2:3:4:5:6:7::, which is also how such addresses
are output) one chunk too long, and accepted stray colons (1:2:3:4:5:6:7:).
---
 src/addr.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index f7d66e9..9e22216 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -396,15 +396,24 @@ impl FromStr for Ipv6Address {
     type Err = IpAddressParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut addr_str = String::from(s);
-        if addr_str.starts_with(':') {
-            addr_str.insert(0, '0');
+        let mut chunks: Vec<&str> = s.split(":").collect();
+        if chunks.len() != 8 && !s.contains("::") {
+            return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
+        }
+
+        // a shortening element at the start or end of the address ("::1", "1::") leads to an
+        // additional empty chunk; a single colon in those places (":1", "1:") is invalid
+        if s.starts_with("::") {
+            chunks.remove(0);
+        } else if s.starts_with(':') {
+            return Err(IpAddressParseError::EmptyChunk(0));
         }
-        if addr_str.ends_with(':') {
-            addr_str.push('0');
+        if s.ends_with("::") {
+            chunks.pop();
+        } else if s.ends_with(':') {
+            return Err(IpAddressParseError::EmptyChunk(chunks.len() - 1));
         }
 
-        let chunks: Vec<&str> = addr_str.split(":").collect();
         if chunks.len() > 8 {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
-- 
2.43.0


From 710b509af6eae42e64ed345a815a0d5603841f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 13/17] fix: reject plus signs in IP addresses

The integer parsers accept them, so 1.2.+3.4 and ::+1 were taken for addresses.
---
 src/addr.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 9e22216..8e96069 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -147,6 +147,10 @@ impl FromStr for Ipv4Address {
                 return Err(IpAddressParseError::EmptyChunk(i));
             }
 
+            if chunks[i].starts_with('+') {
+                return Err(IpAddressParseError::UnexpectedSign(i, String::from(chunks[i])));
+            }
+
             let chunk_val: u32 = chunks[i].parse()
                 .map_err(|e| IpAddressParseError::ChunkParseError(i, String::from(chunks[i]), e))?;
             if chunk_val > 255 {
@@ -471,6 +475,10 @@ impl FromStr for Ipv6Address {
             let shift_count_within_half = shift_count % 64;
             let into_top_half = i < 4;
 
+            if actual_chunks[i].starts_with('+') {
+                return Err(IpAddressParseError::UnexpectedSign(i, actual_chunks[i].clone()));
+            }
+
             let chunk_value = match u16::from_str_radix(&actual_chunks[i], 16) {
                 Ok(v) => v,
                 Err(e)
@@ -593,6 +601,7 @@ pub enum IpAddressParseError {
     IncorrectChunkCount(usize, usize),
     EmptyChunk(usize),
     ChunkParseError(usize, String, ParseIntError),
+    UnexpectedSign(usize, String),
     ChunkOutOfRange(usize, u32, u32, u32),
     TooManyShorteningElements(usize, usize),
 }
@@ -607,6 +616,8 @@ impl fmt::Display for IpAddressParseError {
                 => write!(f, "IP address chunk with index {} is empty", chunk_idx),
             IpAddressParseError::ChunkParseError(chunk_idx, chunk, error)
                 => write!(f, "failed to parse IP address chunk with index {} ({:?}): {}", chunk_idx, chunk, error),
+            IpAddressParseError::UnexpectedSign(chunk_idx, chunk)
+                => write!(f, "IP address chunk with index {} ({:?}) has a sign", chunk_idx, chunk),
             IpAddressParseError::ChunkOutOfRange(chunk_idx, got, min, max)
                 => write!(f, "IP address chunk with index {} ({}) is out of range {} <= n <= {} chunk", chunk_idx, got, min, max),
             IpAddressParseError::TooManyShorteningElements(got, expected_max)
-- 
2.43.0


From f3ddc2ba59c7a1bec7cfc991eeb2314683e3c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 14/17] fix: accept upper-case hexadecimal in IPv6 network
 specifications

Plain addresses and masks were already accepted in either case.
---
 src/cmds/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..2dcfb91 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -25,10 +25,10 @@ static IPV4_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
     Regex::new("^(?P<addr>[0-9]+(?:[.][0-9]+){3})/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 static IPV6_WITH_SUBNET_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-f:]*:[0-9a-f:]*)$").unwrap()
+    Regex::new("^(?P<addr>[0-9a-fA-F:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-fA-F:]*:[0-9a-fA-F:]*)$").unwrap()
 );
 static IPV6_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
+    Regex::new("^(?P<addr>[0-9a-fA-F:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 
 
-- 
2.43.0


From db1b3801a6c9b70fee225e8afee99fdabad03640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 15/17] fix: accept Cisco wildcards as the subnet to resize to

The usage message documents -WILDCARD as one of the forms of SUBNET, but --resize
rejected it.
---
 src/cmds/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 2dcfb91..c0eb50f 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -252,8 +252,16 @@ pub fn parse_same_family_netspecs<S: AsRef<str>>(spec_strs: &[S]) -> Result<Netw
     }
 }
 
-/// Attempts to parse a subnet specification (mask or CIDR prefix).
+/// Attempts to parse a subnet specification (mask, CIDR prefix or Cisco wildcard).
 pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
+    if let Some(wildcard) = spec.strip_prefix('-') {
+        return match parse_addr(wildcard) {
+            Ok(ParsedIpAddress::Ipv4(w)) => Ok(ParsedSubnet::Ipv4Mask(w.bitwise_negate())),
+            Ok(ParsedIpAddress::Ipv6(w)) => Ok(ParsedSubnet::Ipv6Mask(w.bitwise_negate())),
+            Err(e) => Err(ParseNetspecError::Mask(e)),
+        };
+    }
+
     if spec.contains(':') {
         let ipv6_addr: Ipv6Address = match spec.parse() {
             Ok(ia) => ia,
-- 
2.43.0


From abf8e212d074189be8739fc9286c64d4d24caabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 16/17] hook: run in a server loop when built with --cfg
 ripcalc_mc

---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 36d3162..e35fa1d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod addr;
 mod bit_manip;
 mod cidr;
@@ -7,6 +9,9 @@ mod net;
 
 use crate::console::Color;
 
+#[cfg(ripcalc_mc)]
+include!(env!("RIPCALC_MC_SERVER"));
+
 
 fn color_test() {
     crate::console::write_in_color("Black", Some(Color::Black), 20);
@@ -75,5 +80,8 @@ fn do_main() -> i32 {
 }
 
 fn main() {
+    #[cfg(ripcalc_mc)]
+    mc_server::serve(do_main);
+
     std::process::exit(do_main());
 }
-- 
2.43.0


From b6e09ae8b5b25d827ed8aba38cbd752a94404d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 17/17] fix: color the class bits whenever the class is part of
 the network

---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 3f44c24..00e9b6c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -177,11 +177,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0

