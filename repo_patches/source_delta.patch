From 0b3fe57e3cb77475084f11c11274d1ebc9062c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 01/36] fix: slice_channels of a borrowed buffer swapped
 channel and frame counts

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From cf5bd3d9e01b51559faae7939a52b0f2d3715490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 02/36] fix: from_slice must allocate every channel it fills

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From e27c0a62d2ef424a8bf24d51717c413627953581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 03/36] fix: interleaved data with more channels than the
 buffer was read with the wrong stride

---
 src/buffer/audio_buffer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..dac2274 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,8 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +42,9 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 76176c866baeecab8062a3f399e5db91e5d2760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 04/36] fix: sample rate conversion lost position precision in
 long buffers

---
 src/buffer/audio_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index dac2274..a344ef7 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -308,7 +308,7 @@ pub trait AudioBuffer {
         destination_location: SampleLocation,
         channel_count: usize,
     ) {
-        let ratio = audio_buffer.sample_rate() as f32 / self.sample_rate() as f32;
+        let ratio = audio_buffer.sample_rate() as f64 / self.sample_rate() as f64;
 
         for channel_offset in 0..channel_count {
             let source_data =
@@ -320,7 +320,7 @@ pub trait AudioBuffer {
                 .iter_mut()
                 .enumerate()
                 .for_each(|(index, sample)| {
-                    let source_index = index as f32 * ratio;
+                    let source_index = index as f64 * ratio;
 
                     let sample_before = (source_index.floor() as usize).min(source_data.len() - 1);
                     let sample_after = (source_index.ceil() as usize).min(source_data.len() - 1);
@@ -332,7 +332,7 @@ pub trait AudioBuffer {
                     let sample_before = source_data[sample_before];
                     let sample_after = source_data[sample_after];
 
-                    let sample_after_amount = source_index - source_index.floor();
+                    let sample_after_amount = (source_index - source_index.floor()) as f32;
                     *sample = (1.0_f32 - sample_after_amount) * sample_before
                         + sample_after_amount * sample_after;
                 });
-- 
2.43.0


From 83189e67ce2463b190f5b113daccfea477b96e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 05/36] fix: levels just above zero were reported below minus
 infinity dB

---
 src/utility/level.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/level.rs b/src/utility/level.rs
index 53168c5..9920474 100644
--- a/src/utility/level.rs
+++ b/src/utility/level.rs
@@ -38,7 +38,7 @@ impl Level {
         if self.linear <= 1e-9 {
             MINUS_INFINITY_DECIBELS
         } else {
-            20.0 * self.linear.log10()
+            (20.0 * self.linear.log10()).max(MINUS_INFINITY_DECIBELS)
         }
     }
 
-- 
2.43.0


From dee62f02650a7266118505aea697ef9ca45b68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 06/36] fix: parameter ramps ran one sample early and only one
 due change applied per frame

---
 src/parameter/realtime_parameter.rs | 80 ++++++++++++++++-------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..4053a3d 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -110,50 +110,58 @@ impl RealtimeAudioParameter {
     }
 
     fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, value: f64) -> f64 {
-        if let Some(next_event) = self.parameter_changes.first() {
-            match next_event.method {
-                ValueChangeMethod::Immediate => {
-                    if next_event.end_time <= *time {
-                        self.increment = 0.0;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
-                }
-                ValueChangeMethod::Linear(start_time) => {
-                    if *time >= start_time {
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
-                        let delta = next_event.value - value;
-
-                        self.increment = delta / duration;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
-                }
-                ValueChangeMethod::Exponential(start_time) => {
-                    if *time >= start_time {
-                        debug_assert_ne!(next_event.value, 0.0);
-                        debug_assert_ne!(value, 0.0);
+        let mut value = (value * self.coefficient) + self.increment;
+
+        if self.current_change.end_time <= *time {
+            value = self.finish_current_change();
+        }
+
+        while let Some(next_event) = self.parameter_changes.first() {
+            let start_time = match next_event.method {
+                ValueChangeMethod::Immediate => next_event.end_time,
+                ValueChangeMethod::Linear(start_time) => start_time,
+                ValueChangeMethod::Exponential(start_time) => start_time,
+            };
+
+            if start_time > *time {
+                break;
+            }
 
-                        let ratio = next_event.value / value;
+            self.current_change = self.parameter_changes.remove(0);
 
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
+            if self.current_change.end_time <= *time {
+                value = self.finish_current_change();
+                continue;
+            }
+
+            let target = self.current_change.value;
+            let duration = self.current_change.end_time.as_samples(sample_rate)
+                - time.as_samples(sample_rate);
+
+            match self.current_change.method {
+                ValueChangeMethod::Exponential(_) => {
+                    debug_assert_ne!(target, 0.0);
+                    debug_assert_ne!(value, 0.0);
 
-                        self.increment = 0.0;
-                        self.coefficient = (ratio.ln() / duration).exp();
+                    let ratio = target / value;
 
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
+                    self.increment = 0.0;
+                    self.coefficient = (ratio.ln() / duration).exp();
                 }
-            };
+                _ => {
+                    self.increment = (target - value) / duration;
+                    self.coefficient = 1.0;
+                }
+            }
         }
 
-        if self.current_change.end_time <= *time {
-            return self.current_change.value;
-        }
+        value
+    }
 
-        (value * self.coefficient) + self.increment
+    fn finish_current_change(&mut self) -> f64 {
+        self.increment = 0.0;
+        self.coefficient = 1.0;
+        self.current_change.value
     }
 
     pub fn get_values(&self, frame_count: usize) -> &[f32] {
-- 
2.43.0


From fbdaa41cdfbfe4a6ff3c82117ea8939147945b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 07/36] fix: cancelling changes ending after a time removed the
 wrong ones

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 4053a3d..3ae0097 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -181,7 +181,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 402b31212abcc546ee48004b335c559ba6176b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/36] fix: the oscillator interpolated towards zero instead
 of its first sample at the wrap

---
 src/effects/oscillator/oscillator_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..b460c16 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -32,7 +32,7 @@ impl OscillatorProcessor {
         let value_after = if offset_after < self.wavetable.len() {
             self.wavetable[offset_after]
         } else {
-            0.0
+            self.wavetable[0]
         };
 
         let weighting = offset - offset.floor();
-- 
2.43.0


From 35c8363c61bde4abc450609679b6de270fe207af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/36] fix: the oscillator read past its table when the phase
 was exactly one

---
 src/effects/oscillator/oscillator_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index b460c16..df77e8a 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
-- 
2.43.0


From b0a41b7318b83c9a34b8e9a320c49b45ca2abc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 10/36] fix: system input was lost on a node that also has
 connections

---
 src/realtime/dsp_graph.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..1deeb61 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -289,8 +289,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -304,10 +302,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -370,7 +366,14 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let receives_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
+    if !receives_system_input
+        && edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+    {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
-- 
2.43.0


From 9aef80e664e23f45a73a7060e07a557b3633e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 11/36] fix: several connections between the same two nodes
 were taken for a cycle

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 11 +++++------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..0bb28eb 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -108,11 +108,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..b966f37 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,11 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            // A node is visited once for each of the connections to it
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From b06bf785e1cff5150e879ed8f094e61bb86fd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 12/36] fix: dropping a connected node stopped the engine

---
 src/realtime/graph.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 0bb28eb..7fa03d2 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -77,19 +77,27 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
     pub fn remove_edge(&mut self, from_node_id: Id, to_node_id: Id) -> Option<EdgeData> {
         let id = self.find_edge_between_nodes(from_node_id, to_node_id);
 
-        if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+        id.and_then(|id| self.remove_edge_with_id(id))
+    }
 
-                return Some(edge.edge_data);
-            }
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        if let Some((_, edge)) = self.edges.remove_entry(&id) {
+            replace_connections(self, Direction::Outgoing, id, edge.next_out);
+            replace_connections(self, Direction::Incoming, id, edge.next_in);
+
+            return Some(edge.edge_data);
         }
 
         None
     }
 
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        for direction in [Direction::Outgoing, Direction::Incoming] {
+            while let Some(edge_id) = self.edge_iterator(id, direction).next() {
+                self.remove_edge_with_id(edge_id);
+            }
+        }
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
-- 
2.43.0


From 17029d6c32ea443194fe9685bb48de1d3a26eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 13/36] fix: disconnecting two nodes left all but one of their
 connections

---
 src/parameter/realtime_parameter.rs | 4 ++--
 src/realtime/dsp_graph.rs           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 3ae0097..06e1044 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -135,8 +135,8 @@ impl RealtimeAudioParameter {
             }
 
             let target = self.current_change.value;
-            let duration = self.current_change.end_time.as_samples(sample_rate)
-                - time.as_samples(sample_rate);
+            let duration =
+                self.current_change.end_time.as_samples(sample_rate) - time.as_samples(sample_rate);
 
             match self.current_change.method {
                 ValueChangeMethod::Exponential(_) => {
diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 1deeb61..8de2a99 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,10 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        let source_id = connection.source.dsp_id;
+        let destination_id = connection.destination.dsp_id;
+
+        while self.graph.remove_edge(source_id, destination_id).is_some() {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From 68d3127285b3e5a598717f82c84095422056252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 14/36] fix: a single connection of some channels passed all
 channels

---
 src/realtime/dsp_graph.rs | 5 +++++
 src/realtime/graph.rs     | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 8de2a99..bc720ff 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -368,11 +368,16 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
+    let connects_all_channels = graph
+        .get_node(edge.from_node_id)
+        .is_some_and(|source| edge.edge_data.channel_count >= source.output_count());
+
     let receives_system_input = buffer_pools
         .assigned
         .has(&Endpoint::new(dsp_id, EndpointType::Input));
 
     if !receives_system_input
+        && connects_all_channels
         && edge.edge_data.destination_input_channel == 0
         && edge.edge_data.source_output_channel == 0
     {
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 7fa03d2..21dfc0f 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -107,6 +107,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         None
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 4abd2d5311f6a1a5eba3841a91a8349a0acf8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 15/36] fix: setting many mixer levels between two blocks
 blocked for ever

---
 src/effects/mixer/mixer_node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -23,8 +23,6 @@ pub struct Mixer {
     event_transmitter: EventTransmitter,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -32,7 +30,7 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(MixerProcessor::new(event_receiver));
 
-- 
2.43.0


From 78c35a212d2e841260b8c9547070331b4240c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 16/36] fix: the shelf gain of a biquad could not be reached

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From 4d435365d6b6bf6c6b6c0de86ec73c3ddf2bcf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 17/36] fix: biquad filters lost quiet signals in a dead zone
 meant for denormals

---
 src/effects/biquad/biquad_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_processor.rs b/src/effects/biquad/biquad_processor.rs
index 79b5fe0..ebed93e 100644
--- a/src/effects/biquad/biquad_processor.rs
+++ b/src/effects/biquad/biquad_processor.rs
@@ -130,7 +130,7 @@ impl DspProcessor for BiquadProcessor {
 }
 
 fn denormal(sample: f64) -> f64 {
-    let denormal_threshold = 1e-8;
+    let denormal_threshold = 1e-30;
 
     if -denormal_threshold <= sample && sample <= denormal_threshold {
         return 0.0;
-- 
2.43.0


From 935dc937d940f55f72a7e572d8b3792c77a5c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 18/36] fix: the compressor ignored the lower half of its knee
 and divided by a zero knee

---
 src/effects/compressor/compressor_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..7a21c0c 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,7 +80,7 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
         } else if envelope_db > threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
-- 
2.43.0


From 9058a517ad67ae12b99807618da0e21b0f6ad509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 19/36] fix: a soft saturator with a threshold of one gave NaN
 at full scale

---
 src/effects/waveshaper/waveshaper_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/waveshaper/waveshaper_node.rs b/src/effects/waveshaper/waveshaper_node.rs
index d88f561..64d5de8 100644
--- a/src/effects/waveshaper/waveshaper_node.rs
+++ b/src/effects/waveshaper/waveshaper_node.rs
@@ -43,7 +43,7 @@ impl Waveshaper {
         assert!(threshold <= 1.0);
 
         let shaper = move |input: f32| {
-            if input < threshold {
+            if input <= threshold {
                 input
             } else {
                 threshold
-- 
2.43.0


From c5ffd3aae6daedbc8bd8dbdaa27d2c9d2cd8a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 20/36] fix: submitting many notes to an ADSR between two
 blocks blocked for ever

---
 src/effects/adsr/adsr_node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
-- 
2.43.0


From f2d0dc8bf573829b23d16f409f125ddea4a4e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 21/36] fix: ADSR release never ended with zero sustain, and
 ignored its time from other levels

---
 src/effects/adsr/adsr_envelope.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..89c3d91 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -21,6 +21,7 @@ pub struct AdsrEnvelope {
 
     decay_time: Duration,
     release_time: Duration,
+    release_start_level: f64,
 }
 
 const ATTACK_TARGET: f64 = 1.1;
@@ -44,11 +45,12 @@ impl AdsrEnvelope {
             sustain_level,
             release_coefficient: calculate_release_coefficient(
                 release_time,
-                sustain_level,
+                sustain_level.as_linear(),
                 sample_rate,
             ),
             decay_time,
             release_time,
+            release_start_level: sustain_level.as_linear(),
         }
     }
 
@@ -59,10 +61,23 @@ impl AdsrEnvelope {
     pub fn close(&mut self) {
         self.phase = match self.phase {
             Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
+            Phase::Release => Phase::Release,
+            _ => {
+                self.release_start_level = self.envelope;
+                self.update_release_coefficient();
+                Phase::Release
+            }
         };
     }
 
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient = calculate_release_coefficient(
+            self.release_time,
+            self.release_start_level,
+            self.sample_rate,
+        );
+    }
+
     pub fn set_attack_time(&mut self, attack_time: Duration) {
         self.attack_coefficient = calculate_attack_coefficient(attack_time, self.sample_rate);
     }
@@ -76,15 +91,12 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
     }
 
     pub fn process(&mut self) -> f64 {
@@ -164,11 +176,11 @@ fn calculate_decay_coefficient(
 
 fn calculate_release_coefficient(
     release_time: Duration,
-    sustain_level: Level,
+    start_level: f64,
     sample_rate: usize,
 ) -> f64 {
     calculate_coefficient(
-        (-RELEASE_TARGET) / (sustain_level.as_linear() - RELEASE_TARGET),
+        (-RELEASE_TARGET) / (start_level - RELEASE_TARGET),
         release_time,
         sample_rate,
     )
-- 
2.43.0


From f7cdc019b774cec4be8e7486e66cc37f23bbdb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 22/36] fix: a sampler start was lost while both voices were
 still fading out

---
 src/effects/sampler/sampler_processor.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..e630d50 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -243,19 +243,22 @@ impl SamplerDspProcess {
             }
         }
 
+        let last_active_voice = self.active_voice;
         self.stop();
 
-        if let Some((index, free_voice)) = self
-            .voices
-            .iter_mut()
-            .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
-        {
-            free_voice.start_from_position(sample_position);
+        if let Some(index) = self.find_voice(last_active_voice) {
+            self.voices[index].start_from_position(sample_position);
             self.active_voice = Some(index);
         }
     }
 
+    fn find_voice(&self, last_active_voice: Option<usize>) -> Option<usize> {
+        self.voices
+            .iter()
+            .position(|voice| voice.is_stopped())
+            .or_else(|| (0..self.voices.len()).find(|index| Some(*index) != last_active_voice))
+    }
+
     fn get_active_voice(&self) -> Option<&Voice> {
         if let Some(active_voice_index) = self.active_voice {
             return self.voices.get(active_voice_index);
-- 
2.43.0


From 7003977b6ff11edaca6dd02312fbc35a32412301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 23/36] fix: sampler voices stopped rendering once the play
 position passed the sample's length

---
 src/effects/sampler/sampler_processor.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index e630d50..df59aa7 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -120,13 +120,8 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
+    fn next_loop_position(&self) -> Option<Timestamp> {
+        let (loop_start, loop_end) = self.loop_points?;
 
         let first_loop_length = loop_end - self.start_position_in_sample;
         let subsequent_loop_length = loop_end - loop_start;
@@ -134,7 +129,7 @@ impl SamplerDspProcess {
         let sample_position = first_loop_length.as_samples(self.sample_rate)
             + subsequent_loop_length.as_samples(self.sample_rate) * self.completed_loops as f64;
 
-        Timestamp::from_samples(sample_position, self.sample_rate)
+        Some(Timestamp::from_samples(sample_position, self.sample_rate))
     }
 
     fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
@@ -142,12 +137,9 @@ impl SamplerDspProcess {
             .position
             .incremented_by_samples(samples_remaining, self.sample_rate);
 
-        let end_of_sample = self.next_loop_position();
-
-        let end_point = if end_of_frame < end_of_sample {
-            end_of_frame
-        } else {
-            end_of_sample
+        let end_point = match self.next_loop_position() {
+            Some(end_of_loop) if end_of_loop < end_of_frame => end_of_loop,
+            _ => end_of_frame,
         };
 
         end_point - self.position
-- 
2.43.0


From 64709acfa3d950d46c068eb7c76907afbd5ddc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 24/36] fix: an enabled sampler loop started playback by itself
 and resumed it after a stop

---
 src/effects/sampler/sampler_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index df59aa7..d94f2b0 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -121,6 +121,7 @@ impl SamplerDspProcess {
     }
 
     fn next_loop_position(&self) -> Option<Timestamp> {
+        self.active_voice?;
         let (loop_start, loop_end) = self.loop_points?;
 
         let first_loop_length = loop_end - self.start_position_in_sample;
@@ -152,7 +153,7 @@ impl SamplerDspProcess {
     }
 
     fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
+        self.active_voice.is_some() && self.loop_points.is_some()
     }
 
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
-- 
2.43.0


From 20aafd8edded7b9c22e1eef3d082be75c1a2bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 25/36] fix: sampler loops shorter than a fade lost repetitions
 to cross-fading voices

---
 src/effects/sampler/sampler_processor.rs | 26 ++++++++++++++++++++----
 src/effects/sampler/sampler_voice.rs     |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index d94f2b0..a188a97 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -147,8 +147,8 @@ impl SamplerDspProcess {
     }
 
     fn finish_sample(&mut self) {
-        if let Some((loop_start, _)) = self.loop_points {
-            self.loop_back(loop_start);
+        if let Some((loop_start, loop_end)) = self.loop_points {
+            self.loop_back(loop_start, loop_end);
         }
     }
 
@@ -271,9 +271,27 @@ impl SamplerDspProcess {
         self.start_position_in_sample = from_position;
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
+    fn loop_back(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
         self.completed_loops += 1;
-        self.assign_voice(from_position);
+
+        let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+        if loop_length <= self.fade.len() as f64 {
+            // No time for a cross-fade between repetitions
+            self.move_active_voice(loop_start);
+        } else {
+            self.assign_voice(loop_start);
+        }
+    }
+
+    fn move_active_voice(&mut self, position: Timestamp) {
+        let sample_position = position.as_samples(self.sample_rate).round() as usize;
+
+        if let Some(voice) = self
+            .active_voice
+            .and_then(|index| self.voices.get_mut(index))
+        {
+            voice.set_position(sample_position);
+        }
     }
 
     fn stop(&mut self) {
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..4b22d7a 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -41,6 +41,10 @@ impl Voice {
         self.position
     }
 
+    pub fn set_position(&mut self, position: usize) {
+        self.position = position;
+    }
+
     pub fn stop(&mut self) {
         match self.phase {
             Phase::Stopped => (),
-- 
2.43.0


From e61f82f4a37b46d04c44ac53107a3f3a43652e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 26/36] fix: changing or cancelling a sampler loop while
 looping lost the place in the sample

---
 src/effects/sampler/sampler_processor.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index a188a97..e0c3ce0 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -215,13 +215,37 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        self.rebase_position();
         self.loop_points = Some((loop_start, loop_end));
     }
 
     fn clear_loop_points(&mut self) {
+        self.rebase_position();
         self.loop_points = None
     }
 
+    /// Continue from the current position in the sample, as counted with the
+    /// present loop points, before they change
+    fn rebase_position(&mut self) {
+        let position_in_sample = match self.loop_points {
+            Some((loop_start, loop_end)) if self.completed_loops > 0 => {
+                let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+                let first_loop_length =
+                    (loop_end - self.start_position_in_sample).as_samples(self.sample_rate);
+                let position_in_loop = self.position.as_samples(self.sample_rate)
+                    - first_loop_length
+                    - loop_length * (self.completed_loops - 1) as f64;
+
+                loop_start + Timestamp::from_samples(position_in_loop, self.sample_rate)
+            }
+            _ => self.start_position_in_sample + self.position,
+        };
+
+        self.start_position_in_sample = position_in_sample;
+        self.position = Timestamp::zero();
+        self.completed_loops = 0;
+    }
+
     fn cancel_all(&mut self) {
         self.stop();
         self.clear_loop_points();
-- 
2.43.0


From 04733df9b97ad9f67b914cd80c56671e90cb0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 27/36] fix: a sampler loop whose end is not after its start
 hung the engine

---
 src/effects/sampler/sampler_processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index e0c3ce0..9719d3f 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -215,6 +215,11 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
+        if (loop_end - loop_start).as_samples(self.sample_rate).round() < 1.0 {
+            // There is nothing to loop
+            return;
+        }
+
         self.rebase_position();
         self.loop_points = Some((loop_start, loop_end));
     }
-- 
2.43.0


From 6a8009ec54830e233b3390c2008410d1ab3f56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 28/36] fix: a recorder blocked the engine or the application
 once its channels were full

---
 src/effects/recorder/recorder_node.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..e185143 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,9 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
-
 impl Recorder {
     /// Create a new recorder node
     pub fn new(
@@ -31,9 +28,8 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
-        let (notification_transmitter, notification_receiver) =
-            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
+        let (notification_transmitter, notification_receiver) = Channel::unbounded();
 
         let processor = Box::new(RecorderProcessor::new(
             sample_rate,
-- 
2.43.0


From f89e82a65645f7c06f6d12984eac3abc8508dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 29/36] fix: a recorder panicked on the audio thread when it
 ran out of buffers

---
 src/effects/recorder/recorder_processor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..cf13bb0 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -41,10 +41,14 @@ impl RecorderProcessor {
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
+        // Buffers only run out when the application hasn't collected the recording for a long time
+        let mut next_buffer = self.buffer_pool.remove().unwrap_or_else(|| {
+            OwnedAudioBuffer::new(
+                self.current_buffer.frame_count(),
+                self.current_buffer.channel_count(),
+                self.sample_rate,
+            )
+        });
 
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
-- 
2.43.0


From 313ac3bfee34f80fa2c397c61c209c534f8a827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 30/36] fix: the envelope meter looked at only part of each
 block, and panicked on short ones

---
 src/effects/envelope/envelope_processor.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..0b54c53 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -44,9 +44,9 @@ impl DspProcessor for EnvelopeProcessor {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
 
-        while position < channel_count {
+        while position < context.input_buffer.frame_count() {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                context.input_buffer.frame_count() - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +71,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From 0267079946521a68bae784adc2b730c97c024469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 31/36] fix: uncollected envelope notifications blocked the
 engine

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 0b54c53..15875a0 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From e85fab733e0115f1e27c74f52f36933b7de0f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 32/36] fix: convolution allocated memory on the audio thread
 for every block

---
 src/effects/convolution/convolution_processor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..ad89fb8 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,21 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+
+        let scratch_length = std::cmp::max(
+            fft.get_inplace_scratch_len(),
+            ifft.get_inplace_scratch_len(),
+        );
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            scratch: vec![Complex::zero(); scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -65,7 +73,7 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft.process_with_scratch(input_fft, &mut self.scratch);
         }
     }
 
@@ -85,7 +93,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.scratch);
         }
     }
 
-- 
2.43.0


From c5e8fb2dea7b9941159235854a876a015f13013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 33/36] fix: dropping many nodes at once stalled rendering
 until the garbage collector woke up

---
 src/realtime/garbage_collector.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/realtime/garbage_collector.rs b/src/realtime/garbage_collector.rs
index f72fcd6..214969e 100644
--- a/src/realtime/garbage_collector.rs
+++ b/src/realtime/garbage_collector.rs
@@ -1,6 +1,4 @@
-use std::{thread, time};
-
-use crossbeam::channel::TryRecvError;
+use std::thread;
 
 use crate::graph::Dsp;
 
@@ -12,12 +10,10 @@ pub enum GarbageCollectionCommand {
 }
 
 pub fn run_garbage_collector(receive_channel: GarbaseCollectionReceiver) {
-    thread::spawn(move || loop {
-        match receive_channel.try_recv() {
-            Ok(command) => handle_garbage_collection_event(command),
-            Err(TryRecvError::Empty) => thread::sleep(time::Duration::from_secs(1)),
-            Err(TryRecvError::Disconnected) => break,
-        };
+    thread::spawn(move || {
+        for command in receive_channel {
+            handle_garbage_collection_event(command);
+        }
     });
 }
 
-- 
2.43.0


From 90dad2567422bdbb45599176b8e444ec62e78e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 34/36] fix: a gain value of zero was applied to the first
 channel of a range only

---
 src/buffer/audio_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index a344ef7..fb988f5 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -271,11 +271,11 @@ pub trait AudioBuffer {
 
             if relative_eq!(gain, 0.0) {
                 channel_data.fill(0.0);
-                return;
+                continue;
             }
 
             if relative_eq!(gain, 1.0) {
-                return;
+                continue;
             }
 
             multiply_by_value(channel_data, gain);
-- 
2.43.0


From 3a2a76da849f878e04d25bd41e698157d7471818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 35/36] Hook: export internals under cfg(rawdio_verif)

---
 src/buffer/mod.rs |  2 ++
 src/lib.rs        | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index c7bf312..5f2172e 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -11,3 +11,5 @@ pub(crate) use buffer_pool::BufferPool;
 pub use mutable_borrowed_audio_buffer::MutableBorrowedAudioBuffer;
 pub use owned_audio_buffer::OwnedAudioBuffer;
 pub use sample_location::SampleLocation;
+#[cfg(rawdio_verif)]
+pub use sample_location::SampleRange;
diff --git a/src/lib.rs b/src/lib.rs
index 445d3b6..75f41c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![feature(portable_simd)]
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! rawdio is an audio engine that is inspired by the Web Audio API
 //!  
@@ -79,6 +80,15 @@ pub(crate) use parameter::Parameters;
 pub use utility::Level;
 pub use utility::Timestamp;
 
+/// Internals that the verification harness drives directly (`--cfg rawdio_verif`)
+#[cfg(rawdio_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use crate::buffer::SampleRange;
+    pub use crate::dsp::*;
+}
+
 /// Module to re-export commonly used types
 pub mod prelude {
     pub use crate::{
-- 
2.43.0


From 3670e9b4c57b0bdfd6c1e6f327823ab7464f7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:01 +0000
Subject: [PATCH 36/36] fix: ADSR release from a level lost to rounding never
 ended

---
 src/effects/adsr/adsr_envelope.rs | 33 ++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 89c3d91..9dc369a 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -17,7 +17,7 @@ pub struct AdsrEnvelope {
     attack_coefficient: f64,
     decay_coefficient: f64,
     sustain_level: Level,
-    release_coefficient: f64,
+    release_rate: f64,
 
     decay_time: Duration,
     release_time: Duration,
@@ -43,7 +43,7 @@ impl AdsrEnvelope {
             attack_coefficient: calculate_attack_coefficient(attack_time, sample_rate),
             decay_coefficient: calculate_decay_coefficient(decay_time, sustain_level, sample_rate),
             sustain_level,
-            release_coefficient: calculate_release_coefficient(
+            release_rate: calculate_release_rate(
                 release_time,
                 sustain_level.as_linear(),
                 sample_rate,
@@ -64,14 +64,14 @@ impl AdsrEnvelope {
             Phase::Release => Phase::Release,
             _ => {
                 self.release_start_level = self.envelope;
-                self.update_release_coefficient();
+                self.update_release_rate();
                 Phase::Release
             }
         };
     }
 
-    fn update_release_coefficient(&mut self) {
-        self.release_coefficient = calculate_release_coefficient(
+    fn update_release_rate(&mut self) {
+        self.release_rate = calculate_release_rate(
             self.release_time,
             self.release_start_level,
             self.sample_rate,
@@ -96,7 +96,7 @@ impl AdsrEnvelope {
 
     pub fn set_release_time(&mut self, release_time: Duration) {
         self.release_time = release_time;
-        self.update_release_coefficient();
+        self.update_release_rate();
     }
 
     pub fn process(&mut self) -> f64 {
@@ -126,8 +126,8 @@ impl AdsrEnvelope {
             }
             Phase::Sustain => self.sustain_level.as_linear(),
             Phase::Release => {
-                let output =
-                    process_exponential(self.envelope, RELEASE_TARGET, self.release_coefficient);
+                // From a level far below the target's a coefficient would round to one
+                let output = self.envelope + self.release_rate * (RELEASE_TARGET - self.envelope);
                 let output = output.max(0.0);
 
                 if output <= 0.0 {
@@ -174,16 +174,13 @@ fn calculate_decay_coefficient(
     )
 }
 
-fn calculate_release_coefficient(
-    release_time: Duration,
-    start_level: f64,
-    sample_rate: usize,
-) -> f64 {
-    calculate_coefficient(
-        (-RELEASE_TARGET) / (start_level - RELEASE_TARGET),
-        release_time,
-        sample_rate,
-    )
+fn calculate_release_rate(release_time: Duration, start_level: f64, sample_rate: usize) -> f64 {
+    if release_time.as_secs_f64() <= 0.0 {
+        return 1.0;
+    }
+
+    let release_frames = release_time.as_secs_f64() * sample_rate as f64;
+    -(-(start_level / -RELEASE_TARGET).ln_1p() / release_frames).exp_m1()
 }
 
 #[cfg(test)]
-- 
2.43.0

