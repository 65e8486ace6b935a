From c30b608f4a5a322ac35f32e35df645a896556880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:10 +0000
Subject: [PATCH 01/18] fix: use the speech patch size in wideband mode and the
 audio patch size in fullband mode

---
 visqol-rs/src/visqol_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 0beb2fb..022d01c 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -40,13 +40,13 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
             Variant::Wideband {
                 use_unscaled_mos_mapping,
             } => {
-                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_AUDIO));
+                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                 sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                     !use_unscaled_mos_mapping,
                 ));
             }
             Variant::Fullband { model_path } => {
-                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_SPEECH));
+                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                 sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
             }
         }
-- 
2.43.0


From d9d4c9885024d10c3502c6aaf65b50acfd13abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 02/18] fix: report a reference that is too short for a single
 VAD patch instead of panicking

---
 visqol-rs/src/vad_patch_creator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..b9edf46 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,12 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From f6a08fe48d07ff76844c4315124b9b62aa66490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 03/18] fix: avoid an underflow when the first reference patch
 starts within half a patch

---
 visqol-rs/src/comparison_patches_selector.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..5c02b9a 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
-                > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1]
+                > num_frames_in_deg_spectro + (num_frames_per_patch / 2)
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 17c3b63d10e988f749098430abb1693ce8fd58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 04/18] fix: stop the patch search when its window starts
 beyond the degraded spectrogram

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 5c02b9a..d95bd20 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From feb473793e7fb5caa62968b7437a6a2ef58a51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 05/18] fix: leave a silent degraded signal unscaled instead of
 turning it into NaN

---
 visqol-rs/src/audio_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..448f91f 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,11 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    let mut scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    if !scale_factor.is_finite() {
+        // A silent signal has no level that could be matched.
+        scale_factor = 1.0;
+    }
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From 172114c8fccf291057451b2a519cf4f14648e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 06/18] fix: report unreadable wav samples as an error instead
 of panicking

---
 visqol-rs/src/wav_reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..c16fdc3 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -25,10 +25,9 @@ impl WavFile {
             }));
         }
 
-        let samples: Vec<i32> = reader
+        let samples = reader
             .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+            .collect::<Result<Vec<i32>, _>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 65a1e0aeb8cb95d8a2c34a92d32bd541cacecdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 07/18] fix: compute the next power of two for inputs wider
 than eight bits

---
 visqol-rs/src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/math_utils.rs b/visqol-rs/src/math_utils.rs
index f33c74a..5e48464 100644
--- a/visqol-rs/src/math_utils.rs
+++ b/visqol-rs/src/math_utils.rs
@@ -12,7 +12,7 @@ pub fn next_pow_two(input: usize) -> usize {
     next_power_of_two |= next_power_of_two >> 1;
     next_power_of_two |= next_power_of_two >> 2;
     next_power_of_two |= next_power_of_two >> 4;
-    next_power_of_two |= next_power_of_two >> 1;
+    next_power_of_two |= next_power_of_two >> 8;
     next_power_of_two |= next_power_of_two >> 16;
     next_power_of_two + 1
 }
-- 
2.43.0


From e8361729849135403f6020d994a253821148dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 08/18] fix: report the number of frames that the image patch
 creator really requires

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From 01ebe05f4abe9153b8296cefb2bda705ab8f466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 09/18] fix: derive the frame duration from the whole-sample
 hop of the spectrogram

---
 visqol-rs/src/visqol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..0b52389 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -35,7 +35,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
 
     let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
+        (window.size as f64 * window.overlap).floor(),
         ref_signal.sample_rate as usize,
     );
 
-- 
2.43.0


From a9ca81162e31125960b314aaafe2a0f3c6008108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 10/18] fix: keep large search window radii from overflowing

---
 visqol-rs/src/visqol.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index 0b52389..527cf2c 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -47,7 +47,13 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         &mut ref_patch_indices,
         &deg_spectrogram.data,
         frame_duration,
-        search_window as i32,
+        // A radius of as many patches as there are frames reaches everything.
+        search_window.min(
+            ref_spectrogram
+                .data
+                .ncols()
+                .max(deg_spectrogram.data.ncols()),
+        ) as i32,
     )?;
     // Realign the patches in time domain subsignals that start at the coarse
     // patch times.
-- 
2.43.0


From 0c7b2cf882b20af45a4da3124ac51a88a9171650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 11/18] fix: name the required companion options by their ids
 so that a lone file is rejected

---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From 6e530329647ae17b47b530686bfb99a7437dcca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 12/18] fix: report an unreadable batch file as an error
 instead of panicking

---
 visqol/src/command_line_utils.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index e892166..ea5ba42 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -119,15 +119,12 @@ pub fn read_files_to_compare(batch_input_path: &PathBuf) -> Result<Vec<PathPair>
     let mut reader = ReaderBuilder::new()
         .has_headers(true)
         .delimiter(b',')
-        .from_path(batch_input_path)
-        .unwrap_or_else(|_| panic!("Failed to read csv file!"));
+        .from_path(batch_input_path)?;
 
     let header = StringRecord::from(vec!["reference", "degraded"]);
     while let Some(result) = reader.records().next() {
         let record = result?;
-        let row: PathPair = record
-            .deserialize(Some(&header))
-            .expect("Failed to deserialize line in csv file!");
+        let row: PathPair = record.deserialize(Some(&header))?;
         file_paths.push(row);
     }
     Ok(file_paths)
-- 
2.43.0


From 2f5dfd885f92c0163c3324a326f79c8fa3801a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 13/18] fix: write the results csv in the documented
 reference,degraded,moslqo format

---
 visqol/src/output_utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..70a4416 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -22,7 +22,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -55,15 +55,22 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &Vec<SimilarityResult>,
+    file_pairs: &Vec<PathPair>,
+) {
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .write_record(["reference", "degraded", "moslqo"])
+        .expect("Failed to write csv header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
+            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
     writer.flush().expect("Failed to flush csv file!")
-- 
2.43.0


From 40841294f4c7b40684dda0f54ac7ddda9b015432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 14/18] fix: append every result to the debug output as
 documented

---
 visqol/src/output_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 70a4416..d746b46 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -48,9 +49,14 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From 015ff1b15d3b4dbf1fdc09ae033f959853cfcd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 15/18] fix: reject an invocation without any input files

---
 visqol/src/command_line_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index ea5ba42..c6343b1 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -58,6 +58,7 @@ pub struct CommandLineArgs {
     #[clap(
         long = "reference_file",
         requires = "degraded_file",
+        required_unless_present = "batch_input_csv",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
-- 
2.43.0


From 8e467df2f0c6f8d4b94bad934264dbbbbdecbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 16/18] Add adapters for an external test harness behind
 cfg(visqol_verif)

---
 visqol-rs/src/lib.rs         |   4 +
 visqol-rs/src/verif_hooks.rs | 211 +++++++++++++++++++++++++++++++++++
 2 files changed, 215 insertions(+)
 create mode 100644 visqol-rs/src/verif_hooks.rs

diff --git a/visqol-rs/src/lib.rs b/visqol-rs/src/lib.rs
index 5e9a8ab..45c1d4e 100644
--- a/visqol-rs/src/lib.rs
+++ b/visqol-rs/src/lib.rs
@@ -26,6 +26,8 @@
 //! );
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod alignment;
 mod analysis_window;
 mod audio_signal;
@@ -55,6 +57,8 @@ mod support_vector_regression_model;
 mod svr_similarity_to_quality_mapper;
 mod vad_patch_creator;
 pub mod variant;
+#[cfg(visqol_verif)]
+pub mod verif_hooks;
 mod visqol;
 mod visqol_error;
 pub mod visqol_manager;
diff --git a/visqol-rs/src/verif_hooks.rs b/visqol-rs/src/verif_hooks.rs
new file mode 100644
index 0000000..4c1bd3d
--- /dev/null
+++ b/visqol-rs/src/verif_hooks.rs
@@ -0,0 +1,211 @@
+//! Adapters that let an external test harness call single stages of the
+//! pipeline with plain types. Compiled only with `--cfg visqol_verif`; each
+//! group has a switch of its own, `--cfg visqol_verif="group"`, so that one that
+//! no longer matches the code can be left out without losing the others.
+
+#![allow(missing_docs)]
+
+/// Plain matrix: rows are frequency bands, inner vectors are frames.
+pub type Mat = Vec<Vec<f64>>;
+
+#[allow(dead_code)]
+fn to_array(m: &Mat) -> ndarray::Array2<f64> {
+    let columns = m.first().map_or(0, |r| r.len());
+    ndarray::Array2::from_shape_fn((m.len(), columns), |(r, c)| m[r][c])
+}
+
+#[allow(dead_code)]
+fn from_array(a: &ndarray::Array2<f64>) -> Mat { a.outer_iter().map(|r| r.to_vec()).collect() }
+
+/// Fourier transforms.
+#[cfg(visqol_verif = "fft")]
+pub mod fft {
+    use crate::{fast_fourier_transform as f, fft_manager::FftManager, math_utils};
+    use num::complex::Complex64;
+
+    /// Transform size and spectrum of the zero-padded signal.
+    pub fn forward(x: &[f64]) -> (usize, Vec<(f64, f64)>) {
+        let mut m = FftManager::new(x.len());
+        let y = f::forward_1d_from_matrix(&mut m, x);
+        (m.fft_size, y.iter().map(|c| (c.re, c.im)).collect())
+    }
+    /// Real part of the inverse transform, cut to `n` samples.
+    pub fn inverse(spectrum: &[(f64, f64)], n: usize) -> Vec<f64> {
+        let mut m = FftManager::new(n);
+        let s: Vec<Complex64> = spectrum
+            .iter()
+            .map(|&(re, im)| Complex64::new(re, im))
+            .collect();
+        f::inverse_1d(&mut m, &s).iter().map(|c| c.re).collect()
+    }
+    pub fn next_pow_two(n: usize) -> usize { math_utils::next_pow_two(n) }
+}
+
+/// Envelope, lag and alignment.
+#[cfg(visqol_verif = "lag")]
+pub mod lag {
+    use crate::{alignment, audio_signal::AudioSignal, envelope, xcorr};
+
+    pub fn best_lag(a: &[f64], b: &[f64]) -> Option<i64> { xcorr::calculate_best_lag(a, b) }
+    pub fn upper_envelope(x: &[f64]) -> Option<Vec<f64>> {
+        envelope::calculate_upper_env(&ndarray::Array1::from(x.to_vec())).map(|e| e.to_vec())
+    }
+    pub fn globally_align(r: &[f64], d: &[f64], sr: u32) -> Option<(Vec<f64>, f64)> {
+        alignment::globally_align(&AudioSignal::new(r, sr), &AudioSignal::new(d, sr))
+            .map(|(s, l)| (s.data_matrix.to_vec(), l))
+    }
+    pub fn align_and_truncate(r: &[f64], d: &[f64], sr: u32) -> Option<(Vec<f64>, Vec<f64>, f64)> {
+        alignment::align_and_truncate(&AudioSignal::new(r, sr), &AudioSignal::new(d, sr))
+            .map(|(a, b, l)| (a.data_matrix.to_vec(), b.data_matrix.to_vec(), l))
+    }
+}
+
+/// Spectrograms.
+#[cfg(visqol_verif = "spectro")]
+pub mod spectro {
+    use super::{from_array, to_array, Mat};
+    use crate::{
+        analysis_window::AnalysisWindow, audio_signal::AudioSignal, audio_utils, constants,
+        gammatone_filterbank::GammatoneFilterbank,
+        gammatone_spectrogram_builder::GammatoneSpectrogramBuilder, spectrogram::Spectrogram,
+        spectrogram_builder::SpectrogramBuilder,
+    };
+
+    /// Spectrograms of several signals, all from one builder.
+    pub fn build<const BANDS: usize>(
+        signals: &[(&[f64], u32)],
+    ) -> Vec<Result<(Mat, Vec<f64>), String>> {
+        let mut b = GammatoneSpectrogramBuilder::<BANDS>::new(GammatoneFilterbank::new(
+            constants::MINIMUM_FREQ,
+        ));
+        signals
+            .iter()
+            .map(|(x, sr)| {
+                let w = AnalysisWindow::new(*sr, constants::OVERLAP, constants::WINDOW_DURATION);
+                b.build(&AudioSignal::new(x, *sr), &w)
+                    .map(|s| (from_array(&s.data), s.center_freq_bands))
+                    .map_err(|e| e.to_string())
+            })
+            .collect()
+    }
+    pub fn prepare(a: &Mat, b: &Mat) -> (Mat, Mat) {
+        let mut a = Spectrogram::new(to_array(a), vec![]);
+        let mut b = Spectrogram::new(to_array(b), vec![]);
+        audio_utils::prepare_spectrograms_for_comparison(&mut a, &mut b);
+        (from_array(&a.data), from_array(&b.data))
+    }
+}
+
+/// Neurogram similarity.
+#[cfg(visqol_verif = "nsim")]
+pub mod nsim {
+    use super::{to_array, Mat};
+    use crate::{
+        neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure,
+        patch_similarity_comparator::PatchSimilarityComparator,
+    };
+
+    /// (band means, band standard deviations, band energies, similarity)
+    pub fn measure(r: &Mat, d: &Mat) -> (Vec<f64>, Vec<f64>, Vec<f64>, f64) {
+        let p = NeurogramSimiliarityIndexMeasure::default()
+            .measure_patch_similarity(&mut to_array(r), &mut to_array(d));
+        (
+            p.freq_band_means,
+            p.freq_band_stddevs,
+            p.freq_band_deg_energy,
+            p.similarity,
+        )
+    }
+}
+
+/// Reference patches.
+#[cfg(visqol_verif = "patches")]
+pub mod patches {
+    use super::Mat;
+    use crate::{
+        analysis_window::AnalysisWindow, audio_signal::AudioSignal, constants,
+        image_patch_creator::ImagePatchCreator, patch_creator::PatchCreator,
+        vad_patch_creator::VadPatchCreator,
+    };
+
+    fn indices(
+        c: &dyn PatchCreator,
+        frames: usize,
+        x: &[f64],
+        sr: u32,
+    ) -> Result<Vec<usize>, String> {
+        let spectrogram = ndarray::Array2::zeros((3, frames));
+        let w = AnalysisWindow::new(sr, constants::OVERLAP, constants::WINDOW_DURATION);
+        c.create_ref_patch_indices(&spectrogram, &AudioSignal::new(x, sr), &w)
+            .map_err(|e| e.to_string())
+    }
+    pub fn image(frames: usize, patch: usize) -> Result<Vec<usize>, String> {
+        indices(&ImagePatchCreator::new(patch), frames, &[0.0], 8000)
+    }
+    pub fn vad(frames: usize, x: &[f64], sr: u32, patch: usize) -> Result<Vec<usize>, String> {
+        indices(&VadPatchCreator::new(patch), frames, x, sr)
+    }
+    /// The patches that each creator cuts out of a spectrogram.
+    pub fn cut(m: &Mat, idx: &[usize], patch: usize) -> [Vec<Mat>; 2] {
+        let a = super::to_array(m);
+        [
+            ImagePatchCreator::new(patch).create_patches_from_indices(&a, idx),
+            VadPatchCreator::new(patch).create_patches_from_indices(&a, idx),
+        ]
+        .map(|v| v.iter().map(super::from_array).collect())
+    }
+}
+
+/// Patch matching.
+#[cfg(visqol_verif = "matching")]
+pub mod matching {
+    use super::{to_array, Mat};
+    use crate::{
+        comparison_patches_selector::ComparisonPatchesSelector,
+        neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure,
+        patch_similarity_comparator::PatchSimilarityResult,
+    };
+
+    /// Reference patches are cut from `r` at `idx`.
+    pub fn find(
+        r: &Mat,
+        d: &Mat,
+        idx: &[usize],
+        patch: usize,
+        frame_duration: f64,
+        radius: usize,
+    ) -> Result<Vec<PatchSimilarityResult>, String> {
+        let r = to_array(r);
+        let mut refs: Vec<_> = idx
+            .iter()
+            .map(|i| r.slice(ndarray::s![.., *i..*i + patch]).to_owned())
+            .collect();
+        ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default())
+            .find_most_optimal_deg_patches(
+                &mut refs,
+                &mut idx.to_vec(),
+                &to_array(d),
+                frame_duration,
+                radius as i32,
+            )
+            .map_err(|e| e.to_string())
+    }
+}
+
+/// Quality mapping.
+#[cfg(visqol_verif = "mapping")]
+pub mod mapping {
+    use crate::{
+        similarity_to_quality_mapper::SimilarityToQualityMapper,
+        speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper,
+        svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper,
+    };
+
+    pub fn speech(fvnsim: &[f64], scaled: bool) -> f64 {
+        SpeechSimilarityToQualityMapper::new(scaled).predict_quality(fvnsim)
+    }
+    pub fn svr(model: &str, vectors: &[Vec<f64>]) -> Vec<f64> {
+        let m = SvrSimilarityToQualityMapper::new(model);
+        vectors.iter().map(|v| m.predict_quality(v)).collect()
+    }
+}
-- 
2.43.0


From 4569f9c1870ca617e85642e7c405bf6f3e6f06d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:40 +0000
Subject: [PATCH 17/18] fix: load multichannel wav files without samples
 instead of panicking

---
 visqol-rs/src/audio_utils.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index 448f91f..b102336 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -68,11 +68,8 @@ pub fn load_as_mono(file_path: &str) -> Result<AudioSignal, Box<dyn Error>> {
 fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Array2<f64> {
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
-    Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
-        interleaved_vector.to_vec(),
-    )
-    .expect("Failed to sum multichannel signal to mono signal!")
+    Array2::from_shape_vec((sub_vector_size, num_channels), interleaved_vector.to_vec())
+        .expect("Failed to sum multichannel signal to mono signal!")
 }
 
 /// Scales 2 spectrograms to match their sound pressure levels.
-- 
2.43.0


From 5da8b20ca8d3f4ae8814c0fde4674bf0d4a98628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 18/18] fix: refuse sample rates too low for a hop of one
 sample instead of dividing by zero

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 4 ++++
 visqol-rs/src/visqol_error.rs                  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 3094688..5d53b3d 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -46,6 +46,10 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
             });
         }
 
+        if hop_size == 0 {
+            return Err(VisqolError::SampleRateTooLow { sample_rate });
+        }
+
         let num_cols = 1 + ((time_domain_signal.len() - window.size) / hop_size);
         let mut out_matrix = Array2::<f64>::zeros((NUM_BANDS, num_cols));
 
diff --git a/visqol-rs/src/visqol_error.rs b/visqol-rs/src/visqol_error.rs
index 1ee226b..8b58d78 100644
--- a/visqol-rs/src/visqol_error.rs
+++ b/visqol-rs/src/visqol_error.rs
@@ -33,4 +33,7 @@ pub enum VisqolError {
 
     #[error("Visqol input files must be quantized to 16 bit. Found {bits_per_sample:?}!")]
     InvalidBitsPerSample { bits_per_sample: u16 },
+
+    #[error("A sample rate of {sample_rate:?} Hz is too low to be analyzed!")]
+    SampleRateTooLow { sample_rate: u32 },
 }
-- 
2.43.0

