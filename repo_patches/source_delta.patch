From 736f697ea2d7971129a6a165961518b118af886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 01/13] fix: reset the stages behind the chroma filter when a
 fingerprint is restarted

ChromaFilter::reset did not pass the reset on, so the fingerprint and the
image of the previous stream survived Fingerprinter::start.
---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From ac30a7d4fc24c7058e4c86504742d5221f75f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 02/13] fix: drop the resampler when restarting at the target
 sample rate

A fingerprinter restarted with a stream that needs no resampling kept
resampling it with the ratio of the previous stream.
---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..a9ccfaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -150,6 +150,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             self.output_buffer
                 .resize(resampler.output_frames_max(), 0.0);
             self.resampler = Some(resampler);
+        } else {
+            self.resampler = None;
         }
 
         Ok(())
-- 
2.43.0


From 13ade65a76ee8ff409b2a6be617aeaf94a4fbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 03/13] fix: forget samples of the previous stream when a
 fingerprint is restarted

Fft::reset kept the incomplete frame, which was then prepended to the next
stream.
---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From 1b4e87840570cce8848ef868dd4700e698e51799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 04/13] fix: honour the interpolation setting of a
 configuration

Fingerprinter::new never passed it on, so preset_test3 and
with_interpolation(true) produced non-interpolated fingerprints.
---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..027fad1 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Enables or disables interpolation between neighbouring notes.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From fd0a003e74568a23ec24df5606d9c3921e259b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 05/13] fix: do not overflow when averaging more than 65536
 channels

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index a9ccfaf..d74acaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From 7126fd496670f07ec3c020752fd9ef4f89d08da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 06/13] fix: support more than eight chroma filter coefficients

The history was fixed at eight rows, so a configuration with a longer
filter panicked or read the wrong rows.
---
 chromaprint/src/chroma_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 28af660..2caceb8 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -3,7 +3,7 @@ use crate::stages::{FeatureVectorConsumer, Stage};
 pub struct ChromaFilter<C: FeatureVectorConsumer> {
     coefficients: Box<[f64]>,
     consumer: C,
-    buffer: [[f64; 12]; 8],
+    buffer: Box<[[f64; 12]]>,
     result: [f64; 12],
     buffer_offset: usize,
     buffer_size: usize,
@@ -12,9 +12,9 @@ pub struct ChromaFilter<C: FeatureVectorConsumer> {
 impl<C: FeatureVectorConsumer> ChromaFilter<C> {
     pub(crate) fn new(coefficients: Box<[f64]>, consumer: C) -> Self {
         Self {
+            buffer: vec![[0.0; 12]; coefficients.len().max(8)].into_boxed_slice(),
             coefficients,
             consumer,
-            buffer: std::array::from_fn(|_| [0.0; 12]),
             result: [0.0; 12],
             buffer_offset: 0,
             buffer_size: 1,
-- 
2.43.0


From 0623cbe0ce685cbc80c61cfe2e9087a49c69c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 07/13] fix: keep the resampler history intact for the last
 chunk of a stream

Changing the chunk size of the resampler before the last, shorter chunk made
it copy the wrong samples as the history of that chunk. Every resampled
stream longer than one buffer got a discontinuity at the start of its last
chunk, which changed its last items.
---
 chromaprint/src/audio_processor.rs | 43 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index d74acaf..7990fae 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -13,6 +13,7 @@ pub struct AudioProcessor<C: AudioConsumer<f64>> {
     output_buffer: Vec<f64>,
     input: Vec<f64>,
     channels: u32,
+    sample_rate: u32,
     consumer: C,
     target_sample_rate: u32,
     resampler: Option<rubato::SincFixedIn<f64>>,
@@ -26,6 +27,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             output_buffer: Vec::new(),
             input: Vec::new(),
             channels: 0,
+            sample_rate: target_sample_rate,
             consumer,
             target_sample_rate,
             resampler: None,
@@ -71,22 +73,34 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         self.buffer_offset = 0;
 
         if let Some(resampler) = self.resampler.as_mut() {
-            let default_input_frames = resampler.input_frames_next();
             while !self.input.is_empty() {
-                if self.input.len() < resampler.input_frames_next() {
-                    if is_end {
-                        // Update chunk size to accept the remaining samples
-                        resampler
-                            .set_chunk_size(self.input.len())
-                            .expect("cannot update chunk size for the resampler");
-                    } else {
+                let required_input = resampler.input_frames_next();
+                self.output_buffer
+                    .resize(resampler.output_frames_next(), 0.0);
+
+                let remaining = self.input.len();
+                if remaining < required_input {
+                    if !is_end {
                         break;
                     }
+
+                    // Shrinking the chunk size would make the resampler lose track of the samples
+                    // preceding this chunk, so pad the chunk and drop the output for the padding.
+                    let (_, written_samples) = resampler
+                        .process_partial_into_buffer(
+                            Some(&[&self.input[..]]),
+                            std::slice::from_mut(&mut self.output_buffer),
+                            None,
+                        )
+                        .expect("invalid parameters for resampler");
+                    let ratio = f64::from(self.target_sample_rate) / f64::from(self.sample_rate);
+                    let expected_samples = (remaining as f64 * ratio) as usize;
+                    self.input.clear();
+                    self.consumer
+                        .consume(&self.output_buffer[..written_samples.min(expected_samples)]);
+                    break;
                 }
 
-                let required_input = resampler.input_frames_next();
-                self.output_buffer
-                    .resize(resampler.output_frames_next(), 0.0);
                 let (read_samples, written_samples) = resampler
                     .process_into_buffer(
                         &[&self.input[..required_input]],
@@ -97,12 +111,6 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
                 self.input.drain(..read_samples);
                 self.consumer
                     .consume(&self.output_buffer[..written_samples]);
-
-                if is_end {
-                    resampler
-                        .set_chunk_size(default_input_frames)
-                        .expect("cannot restore chunk size for the resampler");
-                }
             }
         } else {
             self.consumer.consume(&self.input);
@@ -130,6 +138,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         }
 
         self.channels = channels;
+        self.sample_rate = sample_rate;
         self.buffer_offset = 0;
         self.consumer.reset();
 
-- 
2.43.0


From 0ee7df0728ca6796555e6fec27715fd28808c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 08/13] fix: remove leading silence when the configuration asks
 for it

with_removed_silence (and so preset_test4) had no effect. Do what the
reference implementation does: drop samples from the start of the stream
until their moving average exceeds the threshold.
---
 chromaprint/src/fingerprinter.rs   | 11 +++--
 chromaprint/src/lib.rs             |  1 +
 chromaprint/src/silence_remover.rs | 73 ++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+), 4 deletions(-)
 create mode 100644 chromaprint/src/silence_remover.rs

diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 7fdb8c6..1602386 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -7,6 +7,7 @@ use crate::fft::Fft;
 use crate::filter::{Filter, FilterKind};
 use crate::fingerprint_calculator::FingerprintCalculator;
 use crate::quantize::Quantizer;
+use crate::silence_remover::SilenceRemover;
 use crate::stages::{AudioConsumer, Stage};
 
 /// Structure containing configuration for a [Fingerprinter].
@@ -191,10 +192,12 @@ impl Fingerprinter {
         )
         .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
-        let processor = AudioProcessor::new(
-            DEFAULT_SAMPLE_RATE,
-            Box::new(fft) as Box<dyn AudioConsumer<_, Output = _>>,
-        );
+        let consumer: Box<dyn AudioConsumer<_, Output = _>> = if config.remove_silence {
+            Box::new(SilenceRemover::new(config.silence_threshold, fft))
+        } else {
+            Box::new(fft)
+        };
+        let processor = AudioProcessor::new(DEFAULT_SAMPLE_RATE, consumer);
         Self { processor }
     }
 
diff --git a/chromaprint/src/lib.rs b/chromaprint/src/lib.rs
index bac7a4e..865a1b8 100644
--- a/chromaprint/src/lib.rs
+++ b/chromaprint/src/lib.rs
@@ -20,5 +20,6 @@ mod gaussian;
 mod gradient;
 mod quantize;
 mod rolling_image;
+mod silence_remover;
 mod stages;
 mod utils;
diff --git a/chromaprint/src/silence_remover.rs b/chromaprint/src/silence_remover.rs
new file mode 100644
index 0000000..72f1e26
--- /dev/null
+++ b/chromaprint/src/silence_remover.rs
@@ -0,0 +1,73 @@
+use std::collections::VecDeque;
+
+use crate::stages::{AudioConsumer, Stage};
+
+/// Number of samples for the moving average (5 ms at 11025 Hz).
+const SILENCE_WINDOW: usize = 55;
+
+/// Drops samples from the beginning of the stream as long as their average level doesn't exceed
+/// the threshold.
+pub(crate) struct SilenceRemover<C: AudioConsumer<f64>> {
+    consumer: C,
+    threshold: u32,
+    window: VecDeque<u32>,
+    sum: u32,
+    start: bool,
+}
+
+impl<C: AudioConsumer<f64>> SilenceRemover<C> {
+    pub(crate) fn new(threshold: u32, consumer: C) -> Self {
+        Self {
+            consumer,
+            threshold,
+            window: VecDeque::with_capacity(SILENCE_WINDOW),
+            sum: 0,
+            start: true,
+        }
+    }
+
+    fn update_average(&mut self, sample: f64) -> u32 {
+        if self.window.len() == SILENCE_WINDOW {
+            self.sum -= self.window.pop_front().unwrap_or(0);
+        }
+        let level = (sample.abs() * f64::from(i16::MAX)).round() as u32;
+        self.window.push_back(level);
+        self.sum += level;
+        self.sum / self.window.len() as u32
+    }
+}
+
+impl<C: AudioConsumer<f64>> Stage for SilenceRemover<C> {
+    type Output = C::Output;
+
+    fn output(&self) -> &Self::Output {
+        self.consumer.output()
+    }
+}
+
+impl<C: AudioConsumer<f64>> AudioConsumer<f64> for SilenceRemover<C> {
+    fn reset(&mut self) {
+        self.window.clear();
+        self.sum = 0;
+        self.start = true;
+        self.consumer.reset();
+    }
+
+    fn consume(&mut self, mut data: &[f64]) {
+        while self.start {
+            let Some((&sample, rest)) = data.split_first() else {
+                return;
+            };
+            if self.update_average(sample) > self.threshold {
+                self.start = false;
+            } else {
+                data = rest;
+            }
+        }
+        self.consumer.consume(data);
+    }
+
+    fn flush(&mut self) {
+        self.consumer.flush();
+    }
+}
-- 
2.43.0


From e629161d2f9b348d21530ff285f0e2bfaa3c5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 09/13] fix: do not lose or crash on samples at chunk
 boundaries in fpcalc

The part of a packet behind a chunk boundary was cut short (or the slice
panicked), and a packet spanning more than one chunk underflowed.
---
 fpcalc/src/main.rs | 87 ++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..6247c62 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -293,7 +293,7 @@ pub fn main() -> anyhow::Result<()> {
         }
 
         if let Some(buf) = &mut sample_buf {
-            let (stream_done, mut frame_size) = if stream_limit > 0 {
+            let (stream_done, frame_size) = if stream_limit > 0 {
                 let remaining = stream_limit - stream_size;
                 let frame_size = audio_buf.frames();
                 (frame_size > remaining, frame_size.min(remaining))
@@ -310,61 +310,56 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut frame_data = &buf.samples()[..frame_size * reader.channel_count];
+
+            // A single packet may span several chunks.
+            while !frame_data.is_empty() {
+                let part_size = frame_data.len() / reader.channel_count;
+                let (chunk_done, part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (part_size > remaining, part_size.min(remaining))
+                } else {
+                    (false, part_size)
+                };
 
-            chunk_size += first_part_size;
+                let (part, rest) = frame_data.split_at(part_size * reader.channel_count);
+                printer.consume(part);
+                frame_data = rest;
+                chunk_size += part_size;
 
-            if chunk_done {
-                printer.finish();
+                if chunk_done {
+                    printer.finish();
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
-                    / f64::from(reader.sample_rate)
-                    + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                    let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
+                        / f64::from(reader.sample_rate)
+                        + overlap;
+                    result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
 
-                if args.ts {
-                    ts = get_current_timestamp();
-                } else {
-                    ts += chunk_duration;
-                }
-
-                if args.overlap {
-                    printer = Fingerprinter::new(config);
-                    ts -= overlap;
-                } else {
-                    printer
-                        .start(reader.sample_rate, channel_count)
-                        .context("initializing fingerprinter")?;
-                }
+                    if args.ts {
+                        ts = get_current_timestamp();
+                    } else {
+                        ts += chunk_duration;
+                    }
 
-                if first_chunk {
-                    extra_chunk_limit = 0;
-                    first_chunk = false;
-                }
+                    if args.overlap {
+                        printer = Fingerprinter::new(config);
+                        ts -= overlap;
+                    } else {
+                        printer
+                            .start(reader.sample_rate, channel_count)
+                            .context("initializing fingerprinter")?;
+                    }
 
-                chunk_size = 0;
-            }
+                    if first_chunk {
+                        extra_chunk_limit = 0;
+                        first_chunk = false;
+                    }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
+                    chunk_size = 0;
+                }
             }
 
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
-- 
2.43.0


From 6b8eb3ee703c3be943e422a9e71493dbef1b5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 10/13] fix: make overlapping chunks work in fpcalc

With --overlap the fingerprinter was replaced by one that was never started,
which panicked on the next samples; a file shorter than the overlap
underflowed; and the overlap was computed in the wrong units. Feed the end of
a chunk again at the start of the next one instead.
---
 fpcalc/src/main.rs | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 6247c62..6cc60ae 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -269,14 +269,17 @@ pub fn main() -> anyhow::Result<()> {
     let mut chunk_size = 0;
     let chunk_limit = args.max_chunk_duration() * sample_rate;
 
-    let mut extra_chunk_limit = 0;
-    let mut overlap: f64 = 0.0;
+    // Number of frames at the end of a chunk, which are repeated at the start of the next one.
+    let mut overlap_size = 0;
+    let mut overlap_data = Vec::new();
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        let target_rate = config.sample_rate() as usize;
+        overlap_size = (config.delay() * sample_rate + target_rate - 1) / target_rate;
     }
 
+    let overlap = overlap_size as f64 / sample_rate as f64;
+
     let mut first_chunk = true;
 
     loop {
@@ -317,7 +320,7 @@ pub fn main() -> anyhow::Result<()> {
             while !frame_data.is_empty() {
                 let part_size = frame_data.len() / reader.channel_count;
                 let (chunk_done, part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    let remaining = chunk_limit + overlap_size - chunk_size;
                     (part_size > remaining, part_size.min(remaining))
                 } else {
                     (false, part_size)
@@ -328,12 +331,16 @@ pub fn main() -> anyhow::Result<()> {
                 frame_data = rest;
                 chunk_size += part_size;
 
+                if overlap_size > 0 {
+                    overlap_data.extend_from_slice(part);
+                    let keep = overlap_size * reader.channel_count;
+                    overlap_data.drain(..overlap_data.len().saturating_sub(keep));
+                }
+
                 if chunk_done {
                     printer.finish();
 
-                    let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
-                        / f64::from(reader.sample_rate)
-                        + overlap;
+                    let chunk_duration = chunk_size as f64 / f64::from(reader.sample_rate);
                     result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
 
                     if args.ts {
@@ -342,21 +349,14 @@ pub fn main() -> anyhow::Result<()> {
                         ts += chunk_duration;
                     }
 
-                    if args.overlap {
-                        printer = Fingerprinter::new(config);
-                        ts -= overlap;
-                    } else {
-                        printer
-                            .start(reader.sample_rate, channel_count)
-                            .context("initializing fingerprinter")?;
-                    }
-
-                    if first_chunk {
-                        extra_chunk_limit = 0;
-                        first_chunk = false;
-                    }
+                    printer
+                        .start(reader.sample_rate, channel_count)
+                        .context("initializing fingerprinter")?;
+                    printer.consume(&overlap_data);
+                    ts -= overlap;
 
-                    chunk_size = 0;
+                    first_chunk = false;
+                    chunk_size = overlap_size;
                 }
             }
 
@@ -368,9 +368,9 @@ pub fn main() -> anyhow::Result<()> {
 
     printer.finish();
 
-    if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
+    let repeated_size = if first_chunk { 0 } else { overlap_size };
+    if chunk_size > repeated_size {
+        let chunk_duration = chunk_size as f64 / f64::from(reader.sample_rate);
         result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
     }
 
-- 
2.43.0


From beeddd85e989fee78bf68c9076189e354a502065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 11/13] fix: do not overflow on huge durations in fpcalc

---
 fpcalc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 6cc60ae..d505c43 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -264,10 +264,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     // Number of frames at the end of a chunk, which are repeated at the start of the next one.
     let mut overlap_size = 0;
@@ -320,7 +320,7 @@ pub fn main() -> anyhow::Result<()> {
             while !frame_data.is_empty() {
                 let part_size = frame_data.len() / reader.channel_count;
                 let (chunk_done, part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + overlap_size - chunk_size;
+                    let remaining = chunk_limit.saturating_add(overlap_size) - chunk_size;
                     (part_size > remaining, part_size.min(remaining))
                 } else {
                     (false, part_size)
-- 
2.43.0


From 3779cf27eb0412eea7d9be8bdc1c1feba5d1bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 12/13] fix: refuse audio with another number of channels than
 announced

---
 compare/src/main.rs | 6 +++++-
 fpcalc/src/main.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index f479851..50b5653 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -2,7 +2,7 @@ mod utils;
 
 use std::path::Path;
 
-use anyhow::Context;
+use anyhow::{bail, Context};
 use symphonia::core::audio::SampleBuffer;
 use symphonia::core::codecs::{DecoderOptions, CODEC_TYPE_NULL};
 use symphonia::core::errors::Error;
@@ -78,6 +78,10 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
 
         match decoder.decode(&packet) {
             Ok(audio_buf) => {
+                if audio_buf.spec().channels.count() != channels as usize {
+                    bail!("the number of channels differs from the one announced by the container");
+                }
+
                 if sample_buf.is_none() {
                     let spec = *audio_buf.spec();
                     let duration = audio_buf.capacity() as u64;
diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index d505c43..d0a63cb 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -4,7 +4,7 @@ use clap::Parser;
 use std::fmt;
 use std::path::{Path, PathBuf};
 
-use anyhow::Context;
+use anyhow::{bail, Context};
 use rusty_chromaprint::{Configuration, FingerprintCompressor, Fingerprinter};
 use symphonia::core::audio::{AudioBufferRef, SampleBuffer};
 use symphonia::core::codecs::{Decoder, DecoderOptions, CODEC_TYPE_NULL};
@@ -289,6 +289,10 @@ pub fn main() -> anyhow::Result<()> {
             Err(_) => break,
         };
 
+        if audio_buf.spec().channels.count() != channel_count as usize {
+            bail!("the number of channels differs from the one announced by the container");
+        }
+
         if sample_buf.is_none() {
             let spec = *audio_buf.spec();
             let duration = audio_buf.capacity() as u64;
-- 
2.43.0


From 05b610f0984d8efa106d2ce40512765ca5df714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 13/13] fix: compare: exit with an error when it is not given
 two files

---
 compare/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index 50b5653..c65529e 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -105,8 +105,7 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
 pub fn main() -> anyhow::Result<()> {
     let args: Vec<_> = std::env::args_os().collect();
     if args.len() != 3 {
-        eprintln!("missing paths to audio files");
-        return Ok(());
+        bail!("missing paths to audio files");
     }
 
     let config = Configuration::preset_test1();
-- 
2.43.0

