From efbc0393a8b95c4b39a8eb64c416285ca537b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 01/28] fix: matrices with different column counts are not
 equal

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..bc8f9bd 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From d0c0413090f8495cb612f3562c2369dd11c649b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 02/28] fix: a matrix built from a temporary vector copies its
 data

The matrix aliased the storage of the vector it was moved from, which is
freed at the end of the full expression.
---
 src/amatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index bc8f9bd..fa843e3 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,13 +62,13 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  matrix_ = arma::Mat<T>(data.data(), (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols,
                            const std::vector<T>& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
+  matrix_ = arma::Mat<T>(data.data(), (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From 3df242c11d50d6f160b9b4404f73c3cfa5a41d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 03/28] fix: WavReader never reads past the end of the data
 chunk

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From 277bc6b7654d130e115c471e54af95cbecd20492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 04/28] fix: WavReader rejects sample sizes that are not
 exactly 16 bit

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..f087409 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From e1c514e50e29fc5e71d592a9449911baf421580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 05/28] fix: WavReader skips the pad byte of odd-sized chunks

---
 src/wav_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index f087409..0894237 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -196,7 +196,10 @@ bool WavReader::ParseHeader() {
       return false;
     }
 
-    binary_stream_->seekg(header.data.header.size, std::ios::cur);
+    // Chunks are padded to an even number of bytes.
+    binary_stream_->seekg(static_cast<int64_t>(header.data.header.size) +
+                              header.data.header.size % 2,
+                          std::ios::cur);
 
     if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
         sizeof(header.data)) {
-- 
2.43.0


From 9d5b049660d4e3b31488d49672da03d19caa0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 06/28] fix: extensible WAV files do not need a fact chunk

The chunk is optional for PCM data. Where there is one, it is skipped like
any other chunk before the data.
---
 src/wav_reader.cc | 28 ----------------------------
 1 file changed, 28 deletions(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 0894237..87795af 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -141,34 +141,6 @@ bool WavReader::ParseHeader() {
       }
     }
   }
-  if (header.format.format_tag == kExtensibleWavFormat) {
-    // Skip extensible wav format "fact" header.
-    ChunkHeader fact_header;
-    if (ReadBinaryDataFromStream(&fact_header, sizeof(fact_header)) !=
-        sizeof(fact_header)) {
-      ABSL_RAW_LOG(ERROR,
-                   "Error parsing WAV Header - Error reading 'fact'"
-                   " header");
-      return false;
-    }
-    if (std::string(fact_header.id, 4) != "fact") {
-      ABSL_RAW_LOG(ERROR,
-                   "Error parsing WAV Header - Incorrect 'fact' header"
-                   " id");
-      return false;
-    }
-    int8_t fact_data;
-    for (size_t i = 0; i < static_cast<size_t>(fact_header.size); ++i) {
-      if (ReadBinaryDataFromStream(&fact_data, sizeof(fact_data)) !=
-          sizeof(fact_data)) {
-        ABSL_RAW_LOG(ERROR,
-                     "Error parsing WAV Header - Error reading 'fact'"
-                     " data");
-        return false;
-      }
-    }
-  }
-
   num_channels_ = header.format.num_channels;
   sample_rate_hz_ = header.format.samples_rate;
 
-- 
2.43.0


From 902f6b27047ab08849d2b1a1d4b178dc5096674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/28] fix: a WAV file is loaded with only the samples it
 holds

The buffer was sized by the header alone: a few bytes could demand
gigabytes, and a truncated file was extended with silence.
---
 src/misc_audio.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/misc_audio.cc b/src/misc_audio.cc
index 9fb14a6..f432ddc 100644
--- a/src/misc_audio.cc
+++ b/src/misc_audio.cc
@@ -105,9 +105,16 @@ AudioSignal MiscAudio::LoadAsMono(std::stringstream* string_stream,
   const size_t num_total_samples = wav_reader.GetNumTotalSamples();
 
   if (wav_reader.IsHeaderValid() && num_total_samples != 0) {
-    std::vector<int16_t> interleaved_samples(num_total_samples);
-    const auto num_samp_read =
-        wav_reader.ReadSamples(num_total_samples, &interleaved_samples[0]);
+    // The size in the header may be far more than what the stream holds.
+    const std::streamsize available =
+        std::max<std::streamsize>(string_stream->rdbuf()->in_avail(), 0);
+    std::vector<int16_t> interleaved_samples(
+        std::min<size_t>(num_total_samples, available / sizeof(int16_t)));
+    const auto num_samp_read = wav_reader.ReadSamples(
+        interleaved_samples.size(), interleaved_samples.data());
+    // Only keep whole frames that were actually read.
+    interleaved_samples.resize(num_samp_read -
+                               num_samp_read % wav_reader.GetNumChannels());
 
     // Certain wav files are 'mostly valid' and have a slight difference with
     // the reported file length.  Warn for these.
@@ -117,7 +124,7 @@ AudioSignal MiscAudio::LoadAsMono(std::stringstream* string_stream,
                    " number (%lu).",
                    num_samp_read, num_total_samples);
     }
-    if (num_samp_read > 0) {
+    if (!interleaved_samples.empty()) {
       const auto interleaved_norm_vec =
           MiscMath::NormalizeInt16ToDouble(interleaved_samples);
       const auto multi_chan_norm_vec = ExtractMultiChannel(
-- 
2.43.0


From 20d405b1c5a926494fc1aa7db0264ed45d61efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 08/28] fix: empty or unreadable signals are refused with an
 error

The sample rate of a signal that could not be loaded was uninitialised and
its data was dereferenced.
---
 src/include/audio_signal.h | 2 +-
 src/visqol_manager.cc      | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..de772dd 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -239,6 +239,14 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if a signal is missing, e.g. because its file could not be loaded.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0 ||
+      ref_signal.sample_rate == 0 || deg_signal.sample_rate == 0) {
+    return absl::InvalidArgumentError(
+        "Input audio signals must be non-empty and have a sample rate.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From 156aab29d6d209a95aaa50d293dbd9927c35d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 09/28] fix: sample rates too low for one sample per hop are
 refused

They divided by zero.
---
 src/gammatone_spectrogram_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index 6314f8e..36b1f10 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -55,6 +55,11 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
   // Set up the windowing.
   size_t hop_size = window.size * window.overlap;
 
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Sample rate ", sample_rate, " is too low to build a spectrogram."));
+  }
+
   // Ensure that the signal is large enough.
   if (sig.NumRows() <= window.size) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From f3d2b6cad332503a1f4928ac7ea653a4584dd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 10/28] fix: VAD patches use the hop size of the spectrogram

With a fractional hop the sample count exceeded the signal for long inputs.
---
 src/vad_patch_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..9c98616 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -59,7 +59,7 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
     const AnalysisWindow& window) const {
   const auto norm_mat = MiscMath::Normalize(ref_signal.data_matrix);
   const AudioSignal norm_sig{norm_mat, ref_signal.sample_rate};
-  const double frame_size = window.size * window.overlap;
+  const size_t frame_size = window.size * window.overlap;
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
-- 
2.43.0


From 901c87b1364ab97fb5d16d8e43929c1abfb94f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 11/28] fix: speech references shorter than a patch are refused
 with an error

---
 src/vad_patch_creator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 9c98616..c6bdfc2 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -18,7 +18,9 @@
 #include <numeric>
 #include <vector>
 
+#include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "amatrix.h"
 #include "analysis_window.h"
 #include "audio_signal.h"
@@ -63,6 +65,13 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
+  // Ensure that the spectrum is at least as big as a single patch.
+  if (spectrum_length < first_patch_idx + patch_size_) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Reference spectrum size (", spectrum_length,
+                     ") smaller than minimum patch size (",
+                     first_patch_idx + patch_size_, ")."));
+  }
   const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
-- 
2.43.0


From 8c8c6e00b72949434fe0d448087c9197ba9e3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 12/28] fix: patch search without any usable reference patch
 ends with an error

---
 src/comparison_patches_selector.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..752e44d 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -119,13 +119,11 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
     size_t num_frames_in_deg_spectro, size_t num_frames_per_patch) const {
   size_t num_patches = ref_patch_indices.size();
 
-  if (num_patches) {
-    // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
-      num_patches--;
-    }
+  // The last patch can start up to half a patch away.
+  while (num_patches && ref_patch_indices[num_patches - 1] -
+                                floor(num_frames_per_patch / 2) >
+                            num_frames_in_deg_spectro) {
+    num_patches--;
   }
 
   return num_patches;
@@ -137,6 +135,9 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
+  if (ref_patches.empty()) {
+    return absl::CancelledError("There are no reference patches to score.");
+  }
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-- 
2.43.0


From fa372e4a975eba8e05cb21721a0dd9fb31f85e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 13/28] fix: degenerate search windows are handled

A negative window, a window that overflows and a window entirely past the
end of the degraded signal left the match position uninitialised.
---
 src/comparison_patches_selector.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 752e44d..c57046c 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -16,6 +16,7 @@
 
 #include <assert.h>
 
+#include <algorithm>
 #include <limits>
 #include <memory>
 #include <utility>
@@ -141,9 +142,20 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-  const int search_window = search_window_radius * num_frames_per_patch;
-  const size_t num_patches = CalcMaxNumPatches(
+  if (search_window_radius < 0) {
+    return absl::InvalidArgumentError("The search window is negative.");
+  }
+  // Nothing is further away than the ends of the signals.
+  const int search_window =
+      std::min(search_window_radius * num_frames_per_patch,
+               ref_patch_indices.back() + num_frames_in_deg_spectro);
+  size_t num_patches = CalcMaxNumPatches(
       ref_patch_indices, num_frames_in_deg_spectro, num_frames_per_patch);
+  // Patches whose whole search window is past the end cannot be scored.
+  while (num_patches && ref_patch_indices[num_patches - 1] >=
+                            num_frames_in_deg_spectro + search_window) {
+    num_patches--;
+  }
 
   if (!num_patches) {
     return absl::Status(
-- 
2.43.0


From 49a8518ffa5583016eceb4fab3778e22caa107f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/28] fix: frames outside a search window are never matched

Their cumulative similarity was 0, which beats any negative similarity.
---
 src/comparison_patches_selector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index c57046c..759a2a3 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -174,7 +174,8 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From a93518bd8e1777cb7c5af3d995d43efb12030d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 15/28] fix: truncation after a negative lag starts at the
 first sample

It used the negative lag as an index.
---
 src/alignment.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..4afbee3 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -14,6 +14,7 @@
 
 #include "alignment.h"
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -44,12 +45,14 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
     // that amount should be truncated.
+    // Negative lag already removed samples of deg.
+    const double start = std::max(lag, 0.0);
     new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
+        static_cast<int>(start * reference_signal.sample_rate),
         reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
     new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
+        static_cast<int>(start * degraded_signal.sample_rate),
         reference_matrix.NumRows() - 1);
   }
 
-- 
2.43.0


From 9999b72856944b004ff5446cc9e40dd73c187e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 16/28] fix: no alignment that would remove the whole degraded
 signal

A degraded signal shorter than the lag was indexed out of range.
---
 src/alignment.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 4afbee3..5547799 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -76,7 +76,8 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   // Limit the lag to half a patch.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From b2c0f5f6723378af6ce400533a833f78687b2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 17/28] fix: cross-correlation of very short signals uses the
 actual FFT size

The FFT is at least kMinFftSize points, negative lags were looked up at
the end of a shorter one.
---
 src/xcorr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xcorr.cc b/src/xcorr.cc
index f6745cd..a565916 100644
--- a/src/xcorr.cc
+++ b/src/xcorr.cc
@@ -73,7 +73,8 @@ std::vector<double> XCorr::InverseFFTPointwiseProduct(
   // Calculate how many points in FFT (next ^2 elements)
   int exponent;
   frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);
-  const size_t fft_points = pow(2, exponent);
+  const size_t fft_points =
+      std::max(FftManager::kMinFftSize, static_cast<size_t>(pow(2, exponent)));
 
   // Calculate the pointwise product of the forward fft of both signals.
   auto fft_manager = std::make_unique<FftManager>(fft_points);
-- 
2.43.0


From 80f2848807b0865628befefd7da9b5185b94cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 18/28] fix: an SVR model that was never initialised can be
 destroyed

---
 src/support_vector_regression_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..b1ae265 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -28,7 +28,7 @@ namespace Visqol {
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
 SupportVectorRegressionModel::SupportVectorRegressionModel()
-    : observations_ptr_{nullptr}, num_observations_{0} {}
+    : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
 SupportVectorRegressionModel::~SupportVectorRegressionModel() {
   if (model_) {
-- 
2.43.0


From 7a5d0a0d4dc487009dd5ff95b03cdf2b6819f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 19/28] fix: a failed re-initialisation leaves the manager
 uninitialised

---
 src/visqol_manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index de772dd..3f1d869 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -53,6 +53,7 @@ absl::Status VisqolManager::Init(
     const FilePath& similarity_to_quality_mapper_model, bool use_speech_mode,
     bool use_unscaled_speech, int search_window, bool use_lattice_model,
     bool disable_global_alignment, bool disable_realignment) {
+  is_initialized_ = false;
   use_speech_mode_ = use_speech_mode;
   use_unscaled_speech_mos_mapping_ = use_unscaled_speech;
   search_window_ = search_window;
-- 
2.43.0


From f1c723d6a111deb17f3512784a173451c886c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 20/28] fix: batch lines without two files are skipped with an
 error

They were indexed out of range.
---
 src/commandline_parser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..67e1cbf 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,7 +200,7 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
       std::istringstream in(line);
@@ -208,7 +208,12 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      } else {
+        ABSL_RAW_LOG(ERROR, "Skipping line without a file pair: '%s'",
+                     line.c_str());
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0


From 77b3522ff4f2325bf9ea82d4f6bef938f11be672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 21/28] fix: a negative sample rate is not a sample rate

---
 src/visqol_api.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 42a6b17..1daa7be 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -41,13 +41,13 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // Read the sample rate for the input signals.
   // The sample rate must be the same for both signals.
   auto audio_info = config.audio();
-  sample_rate_ = audio_info.sample_rate();
 
   // Ensure a sample rate value was provided.
-  if (sample_rate_ == 0) {
+  if (audio_info.sample_rate() <= 0) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
                         "The sample rate for the signals must be set.");
   }
+  sample_rate_ = audio_info.sample_rate();
 
   // Read the config options if they were set. Else, use default values.
   bool speech_mode = false;
-- 
2.43.0


From ed7082d48bb421a37936c5ca30657e4ce5ff28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:28 +0000
Subject: [PATCH 22/28] fix: make_svm_train_file: take the band similarities
 from the results by name

The results CSV also holds the score and three more features per band, and the
label file may have columns before the label, so counting columns made the
script stop with a KeyError.
---
 scripts/make_svm_train_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/make_svm_train_file.py b/scripts/make_svm_train_file.py
index 30bc313..1db1114 100644
--- a/scripts/make_svm_train_file.py
+++ b/scripts/make_svm_train_file.py
@@ -56,14 +56,16 @@ def main(argv):
   fvnsims_df = pd.read_csv(FLAGS.results_csv_path)
   moslqs = pd.read_csv(FLAGS.moslqs_csv_path)
 
-  # Remove the ViSQOL reference,degraded columns that come before the nsim.
-  fvnsims_cols = fvnsims_df[fvnsims_df.columns[2:]]
+  # Keep only the per-band similarities (fvnsim0, fvnsim1...): the results also
+  # have the paths, the score and the other per-band features.
+  fvnsims_cols = fvnsims_df.filter(regex=r'^fvnsim\d+$')
+  num_bands = len(fvnsims_cols.columns)
   merged = moslqs.join(fvnsims_cols)
 
   for index, row in merged.iterrows():
     label_str = str(row['moslqs'])
     # Gather the fvnsims in 1:fvnsim0, 2:fvnsim1 format
-    input_str = ''.join([' {}:{}'.format(i + 1, row['fvnsim'+str(i)]) for i in range(len(row) - 1)])
+    input_str = ''.join([' {}:{}'.format(i + 1, row['fvnsim'+str(i)]) for i in range(num_bands)])
     print(label_str + input_str)
 
 
-- 
2.43.0


From 192a3f4511f67480945a4c618a4a107f9eb074d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:28 +0000
Subject: [PATCH 23/28] fix: fit_nsim_to_mos_poly: run under Python 3

The CSV files were opened in binary mode and dictionaries used as in Python 2,
so the script stopped before reading anything.
---
 scripts/fit_nsim_to_mos_poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/fit_nsim_to_mos_poly.py b/scripts/fit_nsim_to_mos_poly.py
index 90022ef..a6eb8eb 100644
--- a/scripts/fit_nsim_to_mos_poly.py
+++ b/scripts/fit_nsim_to_mos_poly.py
@@ -82,7 +82,7 @@ def LoadVNSIM(nsim_csv):
   """
   nsim_dict = {}
 
-  with open(nsim_csv, 'rb') as csvfile:
+  with open(nsim_csv, 'r') as csvfile:
     nsim_reader = csv.reader(csvfile)
     for row in nsim_reader:
       # Skip header
@@ -105,7 +105,7 @@ def LoadMOS(mos_csv):
     Dictionary with filename keys and MOS values
   """
   mos_dict = {}
-  with open(mos_csv, 'rb') as csvfile:
+  with open(mos_csv, 'r') as csvfile:
     mos_reader = csv.reader(csvfile)
     for row in mos_reader:
       # Skip header
@@ -129,7 +129,7 @@ def MergeVNSIMAndMOS(mos_dict, nsim_dict):
   # NSIM keys are full paths, wheras MOS keys are filenames
   merged_dict = {}
 
-  for nsim_key, nsim_value in nsim_dict.iteritems():
+  for nsim_key, nsim_value in nsim_dict.items():
     # Some nsim values are NaN, skip those.
     if nsim_value == 'nan':
       logging.warn('skipping nan nsim key %s', nsim_key)
@@ -219,7 +219,7 @@ def main(argv):
 
   logging.debug('merged dict: %s', merged_dict)
 
-  merged_list = merged_dict.items()
+  merged_list = list(merged_dict.items())
   train_list = random.sample(merged_list,
                              int(len(merged_list) * FLAGS.train_set_ratio))
   test_list = [x for x in merged_list if x not in train_list]
-- 
2.43.0


From c4757b5e86413ac9c8357c40ac9aa514c2336cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:18 +0000
Subject: [PATCH 24/28] fix: tflite_quality_mapper: destroy the interpreter
 before its model and delegate

---
 src/include/tflite_quality_mapper.h | 4 +++-
 src/tflite_quality_mapper.cc        | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/tflite_quality_mapper.h b/src/include/tflite_quality_mapper.h
index c27ed31..346ffb5 100644
--- a/src/include/tflite_quality_mapper.h
+++ b/src/include/tflite_quality_mapper.h
@@ -46,10 +46,12 @@ class TFLiteQualityMapper : public SimilarityToQualityMapper {
  private:
   const std::string model_path_;
   const int num_frequency_bands_;
+  // The interpreter uses the model and the delegate, so both are declared
+  // before it in order to be destroyed after it.
   std::unique_ptr<tflite::FlatBufferModel> model_;
-  std::unique_ptr<tflite::Interpreter> interpreter_;
   std::unique_ptr<TfLiteDelegate, std::function<void(TfLiteDelegate*)>>
       delegate_;
+  std::unique_ptr<tflite::Interpreter> interpreter_;
 };
 
 }  // namespace Visqol
diff --git a/src/tflite_quality_mapper.cc b/src/tflite_quality_mapper.cc
index 83059b6..2f3296f 100644
--- a/src/tflite_quality_mapper.cc
+++ b/src/tflite_quality_mapper.cc
@@ -32,6 +32,9 @@ absl::Status TFLiteQualityMapper::Init() {
   ABSL_RAW_LOG(INFO, "Loading TF Lattice TFLite model at %s",
                model_path_.c_str());
 
+  // A previous interpreter must not outlive the model and delegate it uses.
+  interpreter_.reset();
+
   model_ = tflite::FlatBufferModel::BuildFromFile(model_path_.c_str());
   if (model_ == nullptr) {
     return absl::InvalidArgumentError(absl::StrCat(
-- 
2.43.0


From 4044c9382f3f24033c4fd1636f00434390eb6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:13 +0000
Subject: [PATCH 25/28] fix: comparison_patches_selector: a similarity that is
 not finite is no match

---
 src/comparison_patches_selector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 759a2a3..1576f61 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -17,6 +17,7 @@
 #include <assert.h>
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <memory>
 #include <utility>
@@ -70,6 +71,10 @@ void ComparisonPatchesSelector::FindMostOptimalDegPatch(
     }
     deg_patch = deg_patches[slide_offset];
     sim_result = sim_comparator_->MeasurePatchSimilarity(ref_patch, deg_patch);
+    if (!std::isfinite(sim_result.similarity)) {
+      // Patches that cannot be compared do not match.
+      sim_result.similarity = 0.0;
+    }
 
     int past_slide_offset = -1;
     double highest_sim = std::numeric_limits<double>::lowest();
-- 
2.43.0


From 60bd5c1659fe87cea21ad659c5d741c666e90095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:07 +0000
Subject: [PATCH 26/28] fix: support_vector_regression_model: free the previous
 model when initialised again

---
 src/include/support_vector_regression_model.h | 5 +++++
 src/support_vector_regression_model.cc        | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index 57c131a..022d346 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -72,6 +72,11 @@ class SupportVectorRegressionModel {
   double Predict(const MlObservation& observation) const;
 
  private:
+  /**
+   * Frees the current model, if any, and the observations it was trained on.
+   */
+  void Free();
+
   /**
    * The svm model provided by the LIBSVM library.
    */
diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index b1ae265..f0e602d 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -30,7 +30,9 @@ absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 SupportVectorRegressionModel::SupportVectorRegressionModel()
     : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
-SupportVectorRegressionModel::~SupportVectorRegressionModel() {
+SupportVectorRegressionModel::~SupportVectorRegressionModel() { Free(); }
+
+void SupportVectorRegressionModel::Free() {
   if (model_) {
     svm_free_model_content(model_);
     svm_free_and_destroy_model(&model_);
@@ -39,12 +41,15 @@ SupportVectorRegressionModel::~SupportVectorRegressionModel() {
       free(observations_ptr_[i]);
     }
     free(observations_ptr_);
+    observations_ptr_ = nullptr;
+    num_observations_ = 0;
   }
 }
 
 void SupportVectorRegressionModel::Init(
     const std::vector<MlObservation>& observations,
     const std::vector<MlTarget>& targets) {
+  Free();
   // Assumes all observations have same number of features
   size_t num_features = observations[0].size();
 
@@ -98,6 +103,7 @@ double SupportVectorRegressionModel::Predict(
 
 absl::Status SupportVectorRegressionModel::Init(const FilePath& model_path) {
   absl::MutexLock lock(&load_model_mutex_);
+  Free();
   model_ = svm_load_model(model_path.Path().c_str());
 
   if (model_ == nullptr) {
-- 
2.43.0


From 28bd452d4d017ef2fd7aba63335293d878d64718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:33 +0000
Subject: [PATCH 27/28] fix: create_conformance_scores: give Init all its
 arguments

---
 scripts/create_conformance_scores.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/create_conformance_scores.py b/scripts/create_conformance_scores.py
index 9684680..24e59fd 100644
--- a/scripts/create_conformance_scores.py
+++ b/scripts/create_conformance_scores.py
@@ -157,8 +157,9 @@ def RunVisqolWithSettings(
       os.path.join(files_dir, 'google3', degraded_file))
   # Initialize a fresh VisqolManager instead of reusing the previous one.
   manager = visqol_lib_py.VisqolManager()
+  # The module's Init has no default arguments.
   manager.Init(model_path, use_speech_mode, use_unscaled_speech_mos_mapping,
-               search_window_radius, use_lattice_model)
+               search_window_radius, use_lattice_model, False, False)
   similarity_result = manager.Run(ref_path, deg_path)
   return similarity_result
 
-- 
2.43.0


From 3f43e1f9f9d2d3a4af4066596344538d9305922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:33 +0000
Subject: [PATCH 28/28] fix: create_conformance_scores: give the lattice cases
 the lattice model

---
 scripts/create_conformance_scores.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/create_conformance_scores.py b/scripts/create_conformance_scores.py
index 24e59fd..f1fe5cf 100644
--- a/scripts/create_conformance_scores.py
+++ b/scripts/create_conformance_scores.py
@@ -23,6 +23,9 @@ from google3.third_party.visqol.src.proto import similarity_result_pb2
 # The search window radius is constant through the test cases.
 SEARCH_WINDOW_RADIUS = 60
 SVR_MODEL_FILE = 'google3/third_party/visqol/model/libsvm_nu_svr_model.txt'
+LATTICE_MODEL_FILE = (
+    'google3/third_party/visqol/model/lattice_tcditugenmeetpackhref_ls2_nl60_'
+    'lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite')
 
 
 @dataclasses.dataclass
@@ -166,8 +169,10 @@ def RunVisqolWithSettings(
 
 def RunCases(cases: Sequence[ConformanceCase]) -> None:
   for case in cases:
+    model_file = (
+        LATTICE_MODEL_FILE if case.use_lattice_model else SVR_MODEL_FILE)
     result = RunVisqolWithSettings(case.reference_file, case.degraded_file,
-                                   SVR_MODEL_FILE, case.use_speech_mode,
+                                   model_file, case.use_speech_mode,
                                    case.use_unscaled_speech_mos_mapping,
                                    SEARCH_WINDOW_RADIUS, case.use_lattice_model)
     score = result.moslqo
-- 
2.43.0

