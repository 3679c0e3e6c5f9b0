From 3f69c05a8411c3400422f1c72d88ac2438a803fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:14 +0000
Subject: [PATCH 01/76] fix: report each added-only chord alteration once,
 keeping later alterations aligned

---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..2901c7d 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From 30426421aedd93c55a40ed47a11f021864a32fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:26 +0000
Subject: [PATCH 02/76] fix: remove_repeats no longer deletes every measure of
 a single-piece corpus

---
 harmonic_inference/utils/corpus_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..1edc61e 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -74,6 +74,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     last_measures |= np.roll(
         measures.index.get_level_values("file_id").to_numpy(), -1
     ) != measures.index.get_level_values("file_id")
+    last_measures.iloc[-1:] = True  # The roll finds no boundary if there is only 1 piece
 
     next_lengths[last_measures] = 0
 
@@ -97,6 +98,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
         start_measures = np.roll(
             measures.index.get_level_values("file_id").to_numpy(), 1
         ) != measures.index.get_level_values("file_id")
+        start_measures[:1] = True  # The roll finds no boundary if there is only 1 piece
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
-- 
2.43.0


From 9f816bc91ba3d35f4f3d1fe850dfef236e79994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:27 +0000
Subject: [PATCH 03/76] fix: add_chord_metrical_data completes the last chord
 of a single-piece corpus

---
 harmonic_inference/utils/corpus_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index 1edc61e..cd35edc 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -181,10 +181,11 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords_mask = chords.index.get_level_values("file_id") != np.roll(
+        chords.index.get_level_values("file_id"), -1
+    )
+    last_chords_mask[-1:] = True  # The roll finds no boundary if there is only 1 piece
+    last_chords = chords.loc[last_chords_mask]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From 4eff6051198d271b328a156602c30c6a1f569ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:07 +0000
Subject: [PATCH 04/76] fix: merge_ties no longer extends a tie past its end
 when the tie has no start

---
 harmonic_inference/utils/corpus_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index cd35edc..7772768 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -658,8 +658,11 @@ def merge_ties(notes: pd.DataFrame) -> pd.DataFrame:
             A new tied_in_notes dataframe, from which used notes have been dropped.
         """
         update_tied_out_notes(tied_out_notes, new_tied_out_values_df)
+        # A tie without a start (-1) which has reached its end is finished as well
         tied_out_notes = remove_finished(
-            tied_out_notes, tied_out_notes["tied"].isnull(), finished_notes_dfs
+            tied_out_notes,
+            tied_out_notes["tied"].isnull() | tied_out_notes["tied"].isin([-1]),
+            finished_notes_dfs,
         )
         tied_in_notes = tied_in_notes.drop(tied_in_drop_indexes)
 
-- 
2.43.0


From 65a48bb0cb91beb35e57e5d0db82ebd7b7a4cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:10 +0000
Subject: [PATCH 05/76] fix: Chord.from_labels_csv_row derives inversion and
 bass from the reduced chord

---
 harmonic_inference/data/chord.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 5164800..1f4d9c0 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -672,6 +672,11 @@ class Chord:
             if chord_row["type"] in ["Gr+6", "Fr+6", "It+6"]:
                 inversion = 0
 
+            # Apply the settings before finding the bass, so that the resulting chord is consistent
+            chord_type = reduction[chord_type]
+            if not use_inversion:
+                inversion = 0
+
             # Bugfix for triads in 3rd inversion
             inversion = inversion % len(CHORD_PITCHES[PitchType.TPC][chord_type])
 
@@ -712,8 +717,8 @@ class Chord:
                 get_bass_note(chord_type, root, inversion, pitch_type, modulo=True),
                 key.relative_tonic if use_relative else key.local_tonic,
                 key.relative_mode if use_relative else key.local_mode,
-                reduction[chord_type],
-                inversion if use_inversion else 0,
+                chord_type,
+                inversion,
                 (onset_measure["mc"], onset_beat),
                 onset_level,
                 (offset_measure["mc"], offset_beat),
-- 
2.43.0


From 4f1f14a2b4244aa19649e86b9fce815366deaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 06/76] fix: Note.get_midi_note_number uses 12 semitones per
 octave for MIDI pitches

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From c3a553a9b051d7825a06d0b47f1977dcd0680771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 07/76] fix: Note.from_music21 computes the offset of notes in
 and into partial measures

---
 harmonic_inference/data/note.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..6ada292 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,13 +473,13 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
 
         onset_beat = note_start
-        offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
+        offset_beat = tmp_duration
 
         onset_beat += onset_measure[MEASURE_OFFSET]
         offset_beat += offset_measure[MEASURE_OFFSET]
-- 
2.43.0


From a040cd19472e88dedc2184c53ea69382b0e4c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 08/76] fix: Note.from_music21 stores the sounding octave of
 notes spelled across an octave boundary

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 6ada292..ad05932 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -509,7 +509,7 @@ class Note:
 
         return Note(
             get_pitch_from_string(m21_note.pitch.name.replace("-", "b"), pitch_type),
-            m21_note.octave,
+            m21_note.pitch.midi // NUM_PITCHES[PitchType.MIDI] - 1,  # Sounding octave (Cb, B#)
             (onset_measure["mc"], onset_beat),
             onset_level,
             note_duration,
-- 
2.43.0


From d0a31687d53d024652da1b7521ea590b8eb19ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 09/76] fix: reduce_chord_types keeps the chord types that the
 reduction does not change

---
 harmonic_inference/data/vector_decoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..4d911a8 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -442,7 +442,7 @@ def reduce_chord_types(
     chord_type_index = get_chord_vector_chord_type_index(len(tensor[0]), pad, pitch_type=pitch_type)
 
     chord_type_vectors = tensor[:, chord_type_index : chord_type_index + len(ChordType)]
-    new_chord_type_vectors = np.zeros_like(chord_type_vectors)
+    new_chord_type_vectors = chord_type_vectors.copy()
 
     for from_type, to_type in reduction.items():
         if from_type == to_type:
@@ -452,6 +452,7 @@ def reduce_chord_types(
         to_index = to_type.value
 
         to_change_indexes = np.where(chord_type_vectors[:, from_index] == 1)[0]
+        new_chord_type_vectors[to_change_indexes, from_index] = 0
         new_chord_type_vectors[to_change_indexes, to_index] = 1
 
     tensor[:, chord_type_index : chord_type_index + len(ChordType)] = new_chord_type_vectors
-- 
2.43.0


From d12c2090e668efeab52ab0d2ad5de7d12c6ae678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 10/76] fix: transpose_note_vector wraps semitones and rejects
 pitches outside of the TPC range

---
 harmonic_inference/data/vector_decoding.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 4d911a8..8546c61 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -20,6 +20,7 @@ from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
     get_chord_one_hot_index,
     get_pitch_string,
+    transpose_pitch,
 )
 
 
@@ -561,13 +562,7 @@ def transpose_note_vector(
     new_note_vector = copy(note_vector)
 
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
-    new_pitch = old_pitch + interval
-
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
-        raise ValueError(
-            f"Transposed note {decode_note_vector(note_vector)} + {interval} "
-            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
-        )
+    new_pitch = transpose_pitch(old_pitch, interval, pitch_type)
 
     new_note_vector[old_pitch] = 0
     new_note_vector[new_pitch] = 1
-- 
2.43.0


From 988bc9e0518d74264e598a9c184e0faaf87e862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 11/76] fix: decode_note_vector reads the note vector's actual
 layout

---
 harmonic_inference/data/vector_decoding.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 8546c61..2237bb3 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -64,17 +64,21 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+
+    current_idx += 5
+    is_min = note_vector[current_idx] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Relative position: {onset} -- {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(
+        pitch, octave, onset, onset_level, dur, offset, offset_level, pitch_type, mc_onset=onset
+    )
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
-- 
2.43.0


From ea347ba68e6ba8095df0fb8b25b4d018a549f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 12/76] fix: decode_key_change_vector returns a single KeyMode

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 2237bb3..844e845 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -110,7 +110,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
-- 
2.43.0


From ff437991409ebadcb71cf914bf11f3c2cf07a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:14 +0000
Subject: [PATCH 13/76] fix: get_score_piece_from_data_frames accepts pieces
 with a single note or chord

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..98ff2da 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -635,8 +635,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.ravel(notes)
+    note_ilocs = np.ravel(note_ilocs).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -670,8 +670,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.ravel(chords_list)
+    chord_ilocs = np.ravel(chord_ilocs).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From fa06215c392e487ec6c441f0c462964077bd6181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 14/76] fix: get_chords_within_range no longer returns the last
 chord for inputs before the first chord

---
 harmonic_inference/data/piece.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 98ff2da..26f5ce1 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,7 +280,7 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
-- 
2.43.0


From 24634d0ba5b100e53d3c605e7eca322c44b6a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 15/76] fix: to_pitch_type chooses one spelling when converting
 MIDI black keys to TPC

---
 harmonic_inference/data/chord.py | 2 +-
 harmonic_inference/data/key.py   | 2 +-
 harmonic_inference/data/note.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 1f4d9c0..0e1642e 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -138,7 +138,7 @@ class Chord:
         # Convert key_tonic, root, and bass
         for key in ["key_tonic", "root", "bass"]:
             new_params[key] = get_pitch_from_string(
-                get_pitch_string(new_params[key], self.pitch_type), pitch_type
+                get_pitch_string(new_params[key], self.pitch_type).split("/")[0], pitch_type
             )
 
         return Chord(**new_params)
diff --git a/harmonic_inference/data/key.py b/harmonic_inference/data/key.py
index 894890e..7278000 100644
--- a/harmonic_inference/data/key.py
+++ b/harmonic_inference/data/key.py
@@ -101,7 +101,7 @@ class Key:
         # Convert relative, local, and global tonic
         for key in ["relative_tonic", "local_tonic", "global_tonic"]:
             new_params[key] = get_pitch_from_string(
-                get_pitch_string(new_params[key], self.tonic_type), pitch_type
+                get_pitch_string(new_params[key], self.tonic_type).split("/")[0], pitch_type
             )
 
         return Key(**new_params)
diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index ad05932..3e94b1b 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -110,7 +110,7 @@ class Note:
 
         # Convert pitch
         new_params["pitch_class"] = get_pitch_from_string(
-            get_pitch_string(new_params["pitch_class"], self.pitch_type), pitch_type
+            get_pitch_string(new_params["pitch_class"], self.pitch_type).split("/")[0], pitch_type
         )
 
         return Note(**new_params)
-- 
2.43.0


From 862fc0749400a13447394a44fc0e666fd8df6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 16/76] fix: pieces without annotations survive conversion to a
 dictionary and back

---
 harmonic_inference/data/piece.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 26f5ce1..144e6bf 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -536,8 +536,12 @@ class ScorePiece(Piece):
         """
         return {
             "notes": [note.to_dict() for note in self.get_inputs()],
-            "chords": [chord.to_dict() for chord in self.get_chords()],
-            "keys": [key.to_dict() for key in self.get_keys()],
+            "chords": None
+            if self.get_chords() is None
+            else [chord.to_dict() for chord in self.get_chords()],
+            "keys": None
+            if self.get_keys() is None
+            else [key.to_dict() for key in self.get_keys()],
             "chord_changes": self.get_chord_change_indices(),
             "chord_ranges": self.get_chord_ranges(),
             "key_changes": self.get_key_change_indices(),
@@ -569,8 +573,10 @@ def get_score_piece_from_dict(
     return ScorePiece(
         measures_df,
         [Note(**note) for note in piece_dict["notes"]],
-        [Chord(**chord) for chord in piece_dict["chords"]],
-        [Key(**key) for key in piece_dict["keys"]],
+        None
+        if piece_dict["chords"] is None
+        else [Chord(**chord) for chord in piece_dict["chords"]],
+        None if piece_dict["keys"] is None else [Key(**key) for key in piece_dict["keys"]],
         piece_dict["chord_changes"],
         piece_dict["chord_ranges"],
         piece_dict["key_changes"],
-- 
2.43.0


From c3106e155da8385c9110bb4af30bdc1feb70f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 17/76] fix: load_clean_corpus_dfs loads corpora in which a
 piece lacks notes, measures or chords

---
 harmonic_inference/data/corpus_reading.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..7d92133 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -101,15 +101,15 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
 
     if count is not None:
         files_df = files_df.iloc[:count]
-        measures_df = measures_df.loc[files_df.index]
-        notes_df = notes_df.loc[files_df.index]
+        measures_df = measures_df.loc[measures_df.index.get_level_values(0).isin(files_df.index)]
+        notes_df = notes_df.loc[notes_df.index.get_level_values(0).isin(files_df.index)]
         if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
+            chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-    measures_df = measures_df.loc[files_df.index]
-    notes_df = notes_df.loc[files_df.index]
+    measures_df = measures_df.loc[measures_df.index.get_level_values(0).isin(files_df.index)]
+    notes_df = notes_df.loc[notes_df.index.get_level_values(0).isin(files_df.index)]
     if chords_df is not None:
         chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
     # End bugfix
-- 
2.43.0


From 33e10741d84b3d08c1842f71ed85b16c378f71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 18/76] fix: get_measures_df_from_music21_score reads scores
 with a single measure

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 144e6bf..3771c63 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -782,7 +782,8 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     mns = []
 
     # The start of the 2nd measure (the first full measure in the case of an anacrusis)
-    ts_epoch = Fraction(list(m21_score.measureOffsetMap().keys())[1] / 4)
+    measure_offsets = list(m21_score.measureOffsetMap().keys())
+    ts_epoch = Fraction(measure_offsets[1]) / 4 if len(measure_offsets) > 1 else Fraction(0)
 
     # Default time signature
     time_signature = "4/4"
-- 
2.43.0


From 9c63c4b0025bd03f568a1d1d812565c4872f02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 19/76] fix: get_notes_from_music_xml joins ties in chords,
 voices and multiple parts

---
 harmonic_inference/data/piece.py | 58 +++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 3771c63..e067af1 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -876,10 +876,12 @@ def get_notes_from_music_xml(
         A List of the Notes present in the given music21 score.
     """
     m21_score = m21_score.flattenParts()
-    m21_score = m21_score.stripTies()
 
     levels_cache = defaultdict(dict)
     notes = []
+    # Notes which are tied to a following note, by pitch (music21's stripTies can only handle
+    # ties between notes which are adjacent to one another in the score)
+    open_ties = defaultdict(list)
 
     for measure_mc, measures_list in enumerate(m21_score.measureOffsetMap().values()):
         measure = measures_list[0]
@@ -889,30 +891,38 @@ def get_notes_from_music_xml(
 
         measure_mc = measures_df.loc[measures_df["mn"] == measure.measureNumber, "mc"].iloc[0]
 
-        for note in measure.recurse().notes:
-            if note.isChord:
-                chord = note
-                for chord_note in chord.notes:
-                    notes.append(
-                        Note.from_music21(
-                            chord_note,
-                            measures_df,
-                            measure_mc,
-                            pitch_type=PitchType.TPC,
-                            m21_chord=chord,
-                            levels_cache=levels_cache,
-                        )
-                    )
-            else:
-                notes.append(
-                    Note.from_music21(
-                        note,
-                        measures_df,
-                        measure_mc,
-                        pitch_type=PitchType.TPC,
-                        levels_cache=levels_cache,
-                    )
+        for m21_object in measure.recurse().notes:
+            for m21_note in m21_object.notes if m21_object.isChord else [m21_object]:
+                note = Note.from_music21(
+                    m21_note,
+                    measures_df,
+                    measure_mc,
+                    pitch_type=PitchType.TPC,
+                    m21_chord=m21_object if m21_object.isChord else None,
+                    levels_cache=levels_cache,
                 )
+                tie = None if m21_note.tie is None else m21_note.tie.type
+                tied_notes = open_ties[note.pitch_class, note.octave]
+
+                tied_from = None
+                if tie in ["stop", "continue"]:
+                    for tied_note in tied_notes:
+                        if tied_note.offset == note.onset:
+                            tied_from = tied_note
+                            break
+
+                if tied_from is None:
+                    notes.append(note)
+                else:
+                    # Merge into the note that this one is tied to
+                    tied_notes[:] = [other for other in tied_notes if other is not tied_from]
+                    tied_from.duration += note.duration
+                    tied_from.offset = note.offset
+                    tied_from.offset_level = note.offset_level
+                    note = tied_from
+
+                if tie in ["start", "continue"]:
+                    tied_notes.append(note)
 
     return notes
 
-- 
2.43.0


From 1dbe73fb7f90081be6434e0901e6300e6903024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:38 +0000
Subject: [PATCH 20/76] fix: get_notes_from_music_xml places notes correctly
 when measure numbers are repeated

---
 harmonic_inference/data/piece.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index e067af1..31d910e 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -883,13 +883,17 @@ def get_notes_from_music_xml(
     # ties between notes which are adjacent to one another in the score)
     open_ties = defaultdict(list)
 
-    for measure_mc, measures_list in enumerate(m21_score.measureOffsetMap().values()):
+    # Measure numbers are not unique (e.g., for the 2nd half of a split measure), so match the
+    # measures to the rows of the measures_df in order
+    measure_mcs = iter(measures_df["mc"])
+
+    for measures_list in m21_score.measureOffsetMap().values():
         measure = measures_list[0]
 
         if measure.measureNumber not in measures_df["mn"].values:
             continue
 
-        measure_mc = measures_df.loc[measures_df["mn"] == measure.measureNumber, "mc"].iloc[0]
+        measure_mc = next(measure_mcs)
 
         for m21_object in measure.recurse().notes:
             for m21_note in m21_object.notes if m21_object.isChord else [m21_object]:
-- 
2.43.0


From fa4dc10d786d3e900522e4b4bbb86df77590658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 21/76] fix: get_measures_df_from_music21_score reads endings
 that are played more than once

---
 harmonic_inference/data/piece.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 31d910e..fff13f0 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -793,7 +793,7 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     first_endings = [
         (bracket.getFirst().number, bracket.getLast().number)
         for bracket in m21_score.flat.getElementsByClass(music21.spanner.RepeatBracket)
-        if int(bracket.number) == 1
+        if 1 in bracket.getNumberList()
     ]
     skipped_dur = 0
 
-- 
2.43.0


From fbe7787d00ba2075aa6e4bcd281f5f384450f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:28 +0000
Subject: [PATCH 22/76] fix: an emptied HashedBeam can be used again

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 8e12d9868caf4f3d222eb7917c784b2b9f7cd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:28 +0000
Subject: [PATCH 23/76] fix: State.copy keeps the most recent model
 log-probabilities

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..5c1d9f6 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From 46db027c653fd50a577789baa42cf63482db8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 24/76] fix: forced seventh chords are not read as triads

---
 harmonic_inference/utils/forces.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..4795c35 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,8 +25,11 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
-    r"(_[0-3])?"  # Inversion
+    # Chord type (longest first, since e.g. M is a prefix of Mm7)
+    + "("
+    + "|".join(map(re.escape, sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)))
+    + ")"
+    + r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
 
-- 
2.43.0


From e999b29d6ab900b4a122ad766564901586947df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 25/76] fix: forced chords without an inversion are read in
 root position

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 4795c35..e570ce1 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -174,7 +174,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isna(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From dab67c7b6239c8373ebf97df19f5ff28d7d2eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 26/76] fix: extract_forces_from_musescore reads scores with
 only lyrics or only harmony labels

---
 harmonic_inference/utils/forces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index e570ce1..c9dfb0a 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -113,11 +113,15 @@ def extract_forces_from_musescore(
     """
     score = Score(score_path)
 
-    labels = score.annotations.get_labels()
+    labels = (
+        pd.DataFrame(columns=["mc", "mn_onset", "label"])
+        if score.annotations is None
+        else score.annotations.get_labels()
+    )
 
     chord_labels = score.mscx.get_chords(lyrics=True)
     chord_labels = chord_labels.loc[~chord_labels["lyrics"].isnull()]
-    chord_labels["label"] = chord_labels["lyrics"]
+    chord_labels["label"] = chord_labels["lyrics"].astype(str)
 
     chord_changes = pd.concat(
         [
-- 
2.43.0


From 46c58e6daa9a52e63ca76570a62bd08b4eca1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 27/76] fix: a forced position after the last note raises
 ValueError

---
 harmonic_inference/utils/forces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index c9dfb0a..4a667e6 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -61,9 +61,10 @@ def convert_score_positions_to_note_indexes(
     for i, force in enumerate(forces):
         index = bisect.bisect_left(note_positions, force[:2])
 
-        if note_positions[index] != force[:2]:
+        if index == len(note_positions) or note_positions[index] != force[:2]:
             raise ValueError(
-                f"Position {force[:2]} is not a note onset. Closest is {note_positions[index]}"
+                f"Position {force[:2]} is not a note onset. Closest is "
+                f"{note_positions[min(index, len(note_positions) - 1)]}"
             )
 
         new_forces[i] = index if len(force) == 2 else (index, force[-1])
-- 
2.43.0


From 5010ce9b52a6003311cd7c34e39ce9681f8a9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:46 +0000
Subject: [PATCH 28/76] fix: SimpleInitialChordModel can be loaded with a
 reduction or without inversions

---
 .../models/initial_chord_models.py            | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..9c853ec 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -10,7 +10,9 @@ from harmonic_inference.data.chord import Chord, get_chord_vector_length
 from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
 from harmonic_inference.data.piece import Piece
 from harmonic_inference.utils.harmonic_utils import (
+    absolute_to_relative,
     get_chord_from_one_hot_index,
+    get_chord_inversion_count,
     get_chord_label_list,
     get_chord_one_hot_index,
 )
@@ -108,11 +110,13 @@ class SimpleInitialChordModel:
                 self.reduction = new_reduction
 
         if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    use_inversions,
+                    relative=True,
+                    reduction=reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -128,11 +132,12 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
+                reduced_type = chord_type if reduction is None else reduction[chord_type]
                 index = get_chord_one_hot_index(
                     chord_type,
-                    root,
+                    absolute_to_relative(root, 0, self.PITCH_TYPE, False, pad=False),
                     self.PITCH_TYPE,
-                    inversion=inversion,
+                    inversion=inversion % get_chord_inversion_count(reduced_type),
                     use_inversion=use_inversions,
                     relative=True,
                     reduction=reduction,
-- 
2.43.0


From ba10ff58a0faa81f0a1e7837d23d15319e1e3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:49 +0000
Subject: [PATCH 29/76] fix: the first chord range's duration is not counted
 twice

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..3ed86ad 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -714,8 +714,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From b6c5c85bbcb478d03e9df9cf200c210d61d097c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:49 +0000
Subject: [PATCH 30/76] fix: no chord range spans two different forced labels,
 wherever they lie

---
 harmonic_inference/models/joint_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 3ed86ad..49a0fe3 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -738,9 +738,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -755,6 +752,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -778,6 +778,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The last input's forced labels are not seen by the loop above
+            forced_chords.add(self.forced_chord_ids[-1])
+            forced_keys.add(self.forced_key_ids[-1])
+            if len(forced_chords - {-1}) > 1 or len(forced_keys - {-1}) > 1:
+                reached_end = False
+
             # Detect if a chord reaches the end of the piece and add it here if so
             if reached_end:
                 chord_ranges.append((start, len(change_probs)))
-- 
2.43.0


From 78888525eba8ad468783c1ac3cbf7c8bce08112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:49 +0000
Subject: [PATCH 31/76] fix: the KTM's no-change probability is added to the
 state which doesn't change key

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 49a0fe3..edaa902 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1069,7 +1069,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From d6336d9ac13ba3f95b1d149757cd14b1b674461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:49 +0000
Subject: [PATCH 32/76] fix: the beam search prunes ranges only against a full
 beam

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index edaa902..b557ffb 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -972,7 +972,7 @@ class HarmonicInferenceModel:
 
                 if (
                     current_start != 0
-                    and len(all_states[range_end]) > 0
+                    and len(all_states[range_end]) >= self.beam_size
                     and all_states[range_end].beam[0].log_prob >= state.log_prob + range_log_prob
                 ):
                     # Quick exit if range will never get into resulting beam
-- 
2.43.0


From 817c4fed1d80b0b5937f96c4b85cb6cea68d5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:52 +0000
Subject: [PATCH 33/76] fix: forced chord and key changes and non-changes are
 applied

---
 harmonic_inference/models/joint_model.py | 45 ++++++++++++++++++------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index b557ffb..a36d8c4 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -652,6 +652,7 @@ class HarmonicInferenceModel:
     def _apply_forced_chord_changes(self, change_probs: List[float]):
         """
         Apply forced chord changes and chord non-changes to the given change probabilities.
+        Each forced key change is also a forced chord change.
         This can be done by simply setting each forced change to p=1 and each forced
         non-change to p=0, since each state will be using the exact same probabilites
         for each of these ranges. The change_probs list will be modified in place,
@@ -663,7 +664,7 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -698,6 +699,10 @@ class HarmonicInferenceModel:
         invalid = np.roll(self.duration_cache == 0, 1)
         invalid[0] = True
 
+        # Forced changes and non-changes are enforced regardless of the probability thresholds
+        forced_changes = self.forced_chord_changes | self.forced_key_changes
+        forced_non_changes = self.forced_chord_non_changes
+
         # Log everything vectorized
         change_log_probs = np.log(change_probs)
         no_change_log_probs = np.log(1 - change_probs)
@@ -761,7 +766,9 @@ class HarmonicInferenceModel:
                     reached_end = False
                     break
 
-                if change_prob >= self.min_chord_change_prob:
+                if index in forced_changes or (
+                    change_prob >= self.min_chord_change_prob and index not in forced_non_changes
+                ):
                     # Chord change can occur
                     chord_ranges.append((start, index))
                     range_log_probs.append(running_log_prob + change_log_prob)
@@ -770,7 +777,7 @@ class HarmonicInferenceModel:
                         heapq.heappush(starts, index)
                         in_starts[index] = True
 
-                    if change_prob > self.max_no_chord_change_prob:
+                    if index in forced_changes or change_prob > self.max_no_chord_change_prob:
                         # Chord change must occur
                         reached_end = False
                         break
@@ -991,6 +998,13 @@ class HarmonicInferenceModel:
                 # Branch
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
+                        if (
+                            current_start in self.forced_chord_changes
+                            or current_start in self.forced_key_changes
+                        ):
+                            # A forced change here: no rejoining
+                            continue
+
                         # Same chord as last range: rejoin a split range
                         new_state = state.rejoin(
                             range_end,
@@ -1044,18 +1058,29 @@ class HarmonicInferenceModel:
                 can_change = change_prob >= self.min_key_change_prob
 
                 # Enforce forced key change (or non-key change)
+                change_index = state.prev_state.change_index
+                must_change = change_index in self.forced_key_changes
+                must_not_change = change_index in self.forced_key_non_changes
                 forced_key_ids = set(
                     self.forced_key_ids[state.prev_state.change_index : state.change_index]
                 ) - set([-1])
+                if len(forced_key_ids) > 1:
+                    # A rejoined range cannot contain multiple different forced keys
+                    continue
                 if len(forced_key_ids) > 0:
-                    forced_key_id = list(forced_key_ids)[0]
-                    if state.key == forced_key_id:
-                        can_change = False
-                        # Drop the max_no_key_change_prob requirement but keep the other
-                        can_not_change = state.is_valid(check_key=True)
+                    if state.key in forced_key_ids:
+                        must_not_change = True
                     else:
-                        can_not_change = False
-                        can_change = True  # Drop the min_key_change_prob requirement
+                        must_change = True
+
+                if must_change:
+                    # Drop the min_key_change_prob requirement but keep the other
+                    can_change = not must_not_change and state.can_key_transition()
+                    can_not_change = False
+                elif must_not_change:
+                    # Drop the max_no_key_change_prob requirement but keep the other
+                    can_change = False
+                    can_not_change = state.is_valid(check_key=True)
 
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
-- 
2.43.0


From eac25003a1f8c25fb814d6ad99009946a57eba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:52 +0000
Subject: [PATCH 34/76] fix: contradictory forced labels raise an ArgumentError
 with its message

---
 harmonic_inference/models/joint_model.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index a36d8c4..39a07f1 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,12 +392,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -405,6 +407,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -413,6 +416,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -435,6 +439,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -442,7 +447,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,6 +461,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,6 +485,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -486,6 +495,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -494,9 +504,10 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From 8c5055adb13c4adf9502e27b37defd2d524946bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:52 +0000
Subject: [PATCH 35/76] fix: the caller's set of forced changes is not changed

---
 harmonic_inference/models/joint_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 39a07f1..f7dab83 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -388,7 +388,8 @@ class HarmonicInferenceModel:
             # Basic checks
             if 0 in forced_changes:
                 logging.warning("There can be no forced change at time 0. Ignoring.")
-                forced_changes.remove(0)
+                forced_changes = forced_changes - {0}
+                setattr(self, f"forced_{type_str}_changes", forced_changes)
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
-- 
2.43.0


From a9b7783293190848bcbbcd7ffda0e156a1419864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:21 +0000
Subject: [PATCH 36/76] fix: a forced non-change on the first note is not
 compared with the last one

---
 harmonic_inference/models/joint_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index f7dab83..13a6185 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -467,7 +467,7 @@ class HarmonicInferenceModel:
                         f"is {forced_ids[change_index]} both before and after."
                     )
 
-            for change_index in forced_non_changes:
+            for change_index in forced_non_changes - {0}:
                 if (
                     forced_ids[change_index - 1] != forced_ids[change_index]
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
@@ -502,7 +502,7 @@ class HarmonicInferenceModel:
                 )
 
         # If there is a forced non-chord change, there cannot be a key change
-        for change_index in self.forced_chord_non_changes:
+        for change_index in self.forced_chord_non_changes - {0}:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
                 and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
-- 
2.43.0


From 7743b1ed4cc19d1c1489703baabc09ce97851ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:21 +0000
Subject: [PATCH 37/76] fix: a target branching probability which is never
 reached allows the maximum branching

---
 harmonic_inference/models/joint_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 13a6185..b6e5e7c 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -892,12 +892,12 @@ class HarmonicInferenceModel:
         priors = np.exp(chord_classifications)
         priors_argsort = np.argsort(-priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(priors, priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_chord_branch_prob,
+                < self.target_chord_branch_prob,
                 axis=-1,
             )
             + 1,
@@ -1289,12 +1289,12 @@ class HarmonicInferenceModel:
         key_log_priors = np.array(key_log_priors)
         priors_argsort = np.argsort(-key_log_priors)  # Negative to sort descending
         max_indexes = np.clip(
-            np.argmax(
+            np.sum(
                 np.cumsum(
                     np.take_along_axis(np.exp(key_log_priors), priors_argsort, -1),
                     axis=-1,
                 )
-                >= self.target_key_branch_prob,
+                < self.target_key_branch_prob,
                 axis=-1,
             )
             + 1,
-- 
2.43.0


From cd9733570ba15cc7b8987a4092ad85c565679fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:21 +0000
Subject: [PATCH 38/76] fix: get_harmony returns None when there is no possible
 chord range

---
 harmonic_inference/models/joint_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index b6e5e7c..a55b193 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -615,6 +615,11 @@ class HarmonicInferenceModel:
         logging.info("Calculating valid chord ranges")
         chord_ranges, range_log_probs, rejoin_log_probs = self.get_chord_ranges(change_probs)
 
+        if len(chord_ranges) == 0:
+            logging.warning("There are no valid chord ranges.")
+            self.current_piece = None
+            return None
+
         # Convert range starting points to new starts based on the note offsets
         chord_change_indices = [start for start, _ in chord_ranges]
         chord_windows = [
-- 
2.43.0


From db527b7a1a8516ba02a4928e9bfadbbb3eee83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:38 +0000
Subject: [PATCH 39/76] fix: the sequence models' inputs are reduced during
 inference as in training

---
 harmonic_inference/data/datasets.py      |  4 ++++
 harmonic_inference/models/joint_model.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..91ecdba 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,10 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        # During inference, we have no targets
+        if "targets" not in data:
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index a55b193..bb5985f 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1188,7 +1188,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1261,7 +1263,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset(
+            [], **self.key_sequence_model.get_dataset_kwargs()
+        ).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1395,8 +1399,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From 78fe996ea7cc0d28eb7c4fdda40e6430feb6f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:38 +0000
Subject: [PATCH 40/76] fix: the chord classifier runs on a batch of one

---
 harmonic_inference/models/chord_classifier_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index e9b4f78..a2c611f 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -308,7 +308,7 @@ class SimpleChordClassifier(ChordClassifierModel):
         lstm_out_lengths_tensor = (
             lstm_out_lengths.unsqueeze(1).unsqueeze(2).expand((-1, 1, lstm_out_forward.shape[2]))
         ).to(self.device)
-        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze()
+        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze(1)
         last_backward = lstm_out_backward[:, 0, :]
         lstm_out = torch.cat((last_forward, last_backward), 1)
 
-- 
2.43.0


From 6e39a7490f7c49cb74d7c7e72a1bdbd63ea80778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:25 +0000
Subject: [PATCH 41/76] fix: the sequence models' inputs can be reduced (they
 include a key change vector)

---
 harmonic_inference/data/datasets.py        | 11 +++++---
 harmonic_inference/data/vector_decoding.py | 31 ++++++++++++++++++++++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 91ecdba..54df665 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -18,6 +18,7 @@ from harmonic_inference.data.piece import (
     get_score_piece_from_music_xml,
 )
 from harmonic_inference.data.vector_decoding import (
+    infer_sequence_vector_pitch_type,
     reduce_chord_one_hots,
     reduce_chord_types,
     remove_chord_inversions,
@@ -686,9 +687,10 @@ class ChordSequenceDataset(HarmonicDataset):
         self.pitch_based = pitch_based
 
     def reduce(self, data: Dict, transposition: int = None):
-        reduce_chord_types(data["inputs"], self.input_reduction, pad=False)
+        pitch_type = infer_sequence_vector_pitch_type(len(data["inputs"][0]), False)
+        reduce_chord_types(data["inputs"], self.input_reduction, pad=False, pitch_type=pitch_type)
         if not self.use_inversions_input:
-            remove_chord_inversions(data["inputs"], pad=False)
+            remove_chord_inversions(data["inputs"], pad=False, pitch_type=pitch_type)
 
         # During inference, we have no targets
         if "targets" not in data:
@@ -872,9 +874,10 @@ class KeyHarmonicDataset(HarmonicDataset):
         return self.finalize_data(data, item)
 
     def reduce(self, data: Dict, transposition: int = None):
-        reduce_chord_types(data["inputs"], self.reduction, pad=True)
+        pitch_type = infer_sequence_vector_pitch_type(len(data["inputs"][0]), True)
+        reduce_chord_types(data["inputs"], self.reduction, pad=True, pitch_type=pitch_type)
         if not self.use_inversions:
-            remove_chord_inversions(data["inputs"], pad=True)
+            remove_chord_inversions(data["inputs"], pad=True, pitch_type=pitch_type)
 
 
 class KeyTransitionDataset(KeyHarmonicDataset):
diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 844e845..3d8aaa0 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -234,6 +234,37 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
 
 
+def infer_sequence_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
+    """
+    Infer the pitch type used in a sequence model's input vector: a chord vector, followed by a
+    key change vector, followed by a key change flag.
+
+    Parameters
+    ----------
+    vector_length : int
+        The length of the input vector.
+    pad : bool
+        Whether padding is used in the chord vector.
+
+    Returns
+    -------
+    pitch_type : PitchType
+        The pitch type used in an input vector of the given length.
+
+    Raises
+    ------
+    ValueError
+        If no known PitchType results in the given vector length.
+    """
+    for pitch_type in PitchType:
+        chord_length = get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+        key_length = get_key_change_vector_length(pitch_type, one_hot=False)
+        if vector_length == chord_length + key_length + 1:
+            return pitch_type
+
+    raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
+
+
 def get_chord_vector_inversion_index(
     vector_length: int,
     pad: bool,
-- 
2.43.0


From 4bf7454d8ba092d2a5e9e53380e202a20432f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:06 +0000
Subject: [PATCH 42/76] fix: the first chord does not change key, whatever the
 minimum key change probability

---
 harmonic_inference/models/joint_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index bb5985f..635da0b 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1072,7 +1072,9 @@ class HarmonicInferenceModel:
                 can_not_change = change_prob <= self.max_no_key_change_prob and state.is_valid(
                     check_key=True
                 )
-                can_change = change_prob >= self.min_key_change_prob
+                can_change = (
+                    change_prob >= self.min_key_change_prob and state.can_key_transition()
+                )
 
                 # Enforce forced key change (or non-key change)
                 change_index = state.prev_state.change_index
-- 
2.43.0


From 22637ec13df05d4ef394b3e2240e84ed60492801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:28 +0000
Subject: [PATCH 43/76] fix: a chord whose bass lies outside of the pitch range
 is not branched into

---
 harmonic_inference/utils/beam_search_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 5c1d9f6..f5ac1b3 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -192,10 +192,15 @@ class State:
         -------
         new_state : State
             The state resulting from the given transition. None if the transition would
-            result in an invalid State (chord root too far away from key tonic).
+            result in an invalid State (chord root too far away from key tonic, or its bass
+            note outside of the valid pitch range).
         """
         root, chord_type, inversion = labels["chord"][chord]
-        bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        try:
+            bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        except ValueError:
+            # The chord's bass note lies outside of the valid pitch range
+            return None
 
         tonic = self.get_key(pitch_type, labels).relative_tonic
         relative_root = root - tonic
-- 
2.43.0


From a9df0c9e58da1d199e770204386139abc74d7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:51 +0000
Subject: [PATCH 44/76] fix: the results table can be made for a model with
 MIDI output

---
 harmonic_inference/utils/eval_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..91df7d4 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -71,7 +71,7 @@ def get_results_df(
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         root, chord_type, inv = hu.get_chord_from_one_hot_index(chord, output_root_type)
         root = hu.get_pitch_from_string(
-            hu.get_pitch_string(root, output_root_type), chord_root_type
+            hu.get_pitch_string(root, output_root_type).split("/")[0], chord_root_type
         )
         chord = hu.get_chord_one_hot_index(chord_type, root, chord_root_type, inversion=inv)
         estimated_chord_labels[start:end] = chord
@@ -89,7 +89,7 @@ def get_results_df(
     for key, start, end in zip(keys, changes[:-1], changes[1:]):
         tonic, mode = hu.get_key_from_one_hot_index(key, output_tonic_type)
         tonic = hu.get_pitch_from_string(
-            hu.get_pitch_string(tonic, output_tonic_type), key_tonic_type
+            hu.get_pitch_string(tonic, output_tonic_type).split("/")[0], key_tonic_type
         )
         key = hu.get_key_one_hot_index(mode, tonic, key_tonic_type)
         estimated_key_labels[start:end] = key
-- 
2.43.0


From 75de4fa7a5a33b8570e87cb2dd0938294862c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:26 +0000
Subject: [PATCH 45/76] fix: evaluation compares estimate and ground truth in
 the same pitch type

---
 harmonic_inference/utils/eval_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 91df7d4..4623965 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -324,7 +324,7 @@ def evaluate_chords(
         The average accuracy of the state's chord estimates for the full duration of
         the piece.
     """
-    gt_chords = piece.get_chords()
+    gt_chords = [chord.to_pitch_type(pitch_type) for chord in piece.get_chords()]
     gt_changes = piece.get_chord_change_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -448,7 +448,7 @@ def evaluate_keys(
         The average accuracy of the state's key estimates for the full duration of
         the piece.
     """
-    gt_keys = piece.get_keys()
+    gt_keys = [key.to_pitch_type(pitch_type) for key in piece.get_keys()]
     gt_changes = piece.get_key_change_input_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
@@ -553,7 +553,7 @@ def evaluate_chords_and_keys_jointly(
         The average accuracy of the state's joint chord and key estimates for the full
         duration of the piece.
     """
-    gt_chords = piece.get_chords()
+    gt_chords = [chord.to_pitch_type(root_type) for chord in piece.get_chords()]
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -569,7 +569,7 @@ def evaluate_chords_and_keys_jointly(
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         estimated_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
+    gt_keys = [key.to_pitch_type(tonic_type) for key in piece.get_keys()]
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
@@ -743,7 +743,7 @@ def get_label_df(
 
     gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if len(piece.get_chords()) > 0:
-        gt_chords = piece.get_chords()
+        gt_chords = [chord.to_pitch_type(root_type) for chord in piece.get_chords()]
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
             gt_chord_labels[start:end] = chord.get_one_hot_index(
@@ -760,7 +760,7 @@ def get_label_df(
 
     gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
     if len(piece.get_keys()) > 0:
-        gt_keys = piece.get_keys()
+        gt_keys = [key.to_pitch_type(tonic_type) for key in piece.get_keys()]
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
@@ -991,7 +991,7 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     tonic_type : PitchType
         The pitch type used for the key tonics.
     """
-    gt_chords = piece.get_chords()
+    gt_chords = [chord.to_pitch_type(root_type) for chord in piece.get_chords()]
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -1007,7 +1007,7 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_keys = piece.get_keys()
+    gt_keys = [key.to_pitch_type(tonic_type) for key in piece.get_keys()]
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-- 
2.43.0


From 06e428614e4cedcf53c4c3b1f0db00c0cb2ce595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 46/76] fix: items of the key datasets have one shape and do
 not change the dataset

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 54df665..0754fc5 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -846,10 +846,11 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Copy the input, leaving room for the key_change_replacement
+        max_input_length = self.max_input_length if self.in_ram else len(piece_input)
+        padded_input = np.zeros((max_input_length + 1, piece_input.shape[1]))
+        padded_input[: len(piece_input)] = piece_input
+        piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From d0c346d52172297249328cc0100df1560e94c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 47/76] fix: a loaded key dataset's piece inputs are not
 truncated to other pieces' lengths

---
 harmonic_inference/data/datasets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 0754fc5..435f6bc 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1119,8 +1119,13 @@ def h5_to_dataset(
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
                     lengths = np.array(h5_file[f"{data}_lengths"])
+                    setattr(dataset, f"{data}_lengths", lengths)
                     data_list = []
 
+                    if data == "input" and "piece_lengths" in h5_file:
+                        # Key datasets: There is 1 input per piece, as long as its last item
+                        lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+
                     for chunk_start in tqdm(
                         range(0, len(lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
@@ -1134,7 +1139,6 @@ def h5_to_dataset(
                             ]
                         )
 
-                    setattr(dataset, f"{data}_lengths", lengths)
                     setattr(dataset, f"{data}s", data_list)
 
                 else:
-- 
2.43.0


From 4b1db7f6bda997a4551da887dc59af5c3c90522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 48/76] fix: a dataset streamed from its h5 file knows its
 pitch type and its pieces' lengths

---
 harmonic_inference/data/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 435f6bc..7f82857 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1115,6 +1115,10 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1144,10 +1148,6 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
-
             dataset.in_ram = True
 
         except MemoryError:
-- 
2.43.0


From 317156f3a9f515c69ca56ab87c8542d5bedb9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 49/76] fix: transposed MIDI chord targets wrap around the
 octave

---
 harmonic_inference/data/datasets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 7f82857..cee3194 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -34,6 +34,7 @@ from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
     get_chord_one_hot_index,
     get_vector_from_chord_type,
+    transpose_pitch,
 )
 
 
@@ -543,7 +544,9 @@ class ChordClassificationDataset(HarmonicDataset):
 
                 data["targets"] = get_chord_one_hot_index(
                     chord_type,
-                    root + transposition,
+                    transpose_pitch(
+                        root, transposition, PitchType(self.target_pitch_type[0])
+                    ),
                     PitchType(self.target_pitch_type[0]),
                     inversion=inversion,
                     use_inversion=self.use_inversions,
-- 
2.43.0


From 4f7d76bbed0a8c8f2dea13bac3aebe8f1bf6ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 50/76] fix: load_kwargs_from_json reads piece types

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..cb5e4c7 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType"):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType"):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From 50c5b4e3cf92627d9c5f5a2b168c624891fc82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 51/76] fix: load_pieces loads a single score given as a string

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index cb5e4c7..e21c8f1 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -104,7 +104,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
-- 
2.43.0


From 6aae399c35d98ca31831db066c7c7f9f25f366d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 52/76] fix: load_pieces does not give a score another one's
 labels

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index e21c8f1..25bddbd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -121,7 +121,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From dd96df519c6ab6426d00b411aced18025007c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 53/76] fix: load_pieces reads the source files if there are no
 saved dictionaries

---
 harmonic_inference/utils/data_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 25bddbd..ea2a8dd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -130,15 +130,12 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
+    piece_dicts = [None] * len(file_ids)
     if piece_dicts_path:
         pkl_path = Path(piece_dicts_path)
         if pkl_path.exists():
             with open(pkl_path, "rb") as pkl_file:
                 piece_dicts = pickle.load(pkl_file)
-    elif xml:
-        piece_dicts = [None] * len(xmls)
-    else:
-        piece_dicts = [None] * len(file_ids)
 
     # Return only one specific file
     if specific_id is not None:
-- 
2.43.0


From 9de3aade7c87b9bd2065883e836ae8ad34104e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 54/76] fix: create_h5_data.py skips a dataset without items (a
 split without key changes)

---
 create_h5_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index 9cd9c3c..cefb259 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -162,7 +162,7 @@ if __name__ == "__main__":
 
     for i1, data_type in enumerate(DATASET_CLASSES):
         for i2, split in enumerate(SPLITS):
-            if dataset_splits[i1][i2] is not None:
+            if dataset_splits[i1][i2] is not None and len(dataset_splits[i1][i2]) > 0:
                 h5_path = ARGS.output / f"{data_type.__name__}_{split}_seed_{ARGS.seed}.h5"
                 dataset_splits[i1][i2].to_h5(h5_path, file_ids=split_ids[i2])
                 dataset_splits[i1][i2] = None
-- 
2.43.0


From 18fe8c6dc87a227ece19e7ae7d0b456fa921b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 55/76] fix: load_pieces loads pieces without annotations from
 a partially annotated corpus

---
 harmonic_inference/utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index ea2a8dd..e9c0694 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -170,7 +170,9 @@ def load_pieces(
         pieces = [
             get_score_piece_from_data_frames(
                 notes_df.loc[file_id],
-                chords_df.loc[file_id] if chords_df is not None else None,
+                chords_df.loc[file_id]
+                if chords_df is not None and file_id in chords_df.index.get_level_values(0)
+                else None,
                 measures_df.loc[file_id],
                 name=(
                     f"{file_id}: {files_df.loc[file_id, 'corpus_name']}/"
-- 
2.43.0


From f14cb1b625bb2466756c1a67f944b0ccd0071e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 56/76] fix: the file ids of a MusicXML corpus count unlabelled
 scores, as load_pieces does

---
 create_h5_data.py                   | 4 ++--
 harmonic_inference/data/datasets.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/create_h5_data.py b/create_h5_data.py
index cefb259..068cad6 100755
--- a/create_h5_data.py
+++ b/create_h5_data.py
@@ -112,9 +112,9 @@ if __name__ == "__main__":
                 music_xml_path.parent.parent / "chords" / Path(str(music_xml_path.stem) + ".csv")
             )
 
-            if music_xml_path.exists() and label_csv_path.exists():
+            if music_xml_path.exists():
                 xmls.append(music_xml_path)
-                csvs.append(label_csv_path)
+                csvs.append(label_csv_path if label_csv_path.exists() else None)
 
         xmls_and_csvs = {"xmls": xmls, "csvs": csvs}
 
diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index cee3194..5904543 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1268,6 +1268,10 @@ def get_split_file_ids_and_pieces(
             desc="Parsing MusicXML files",
             total=len(xml_and_csv_paths["xmls"]),
         ):
+            if csv_path is None:
+                logging.warning("%s has no labels (id %s).", xml_path, i)
+                continue
+
             piece = get_score_piece_from_music_xml(xml_path, csv_path)
             pieces.append(piece)
             indexes.append(i)
-- 
2.43.0


From 8f42001e6a8ae68c30cb5463431922a2e9fcd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 57/76] fix: KeySequenceModel.evaluate weights batches by their
 number of examples

---
 harmonic_inference/models/key_sequence_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/key_sequence_models.py b/harmonic_inference/models/key_sequence_models.py
index 11f8871..3293c8e 100755
--- a/harmonic_inference/models/key_sequence_models.py
+++ b/harmonic_inference/models/key_sequence_models.py
@@ -128,7 +128,7 @@ class KeySequenceModel(pl.LightningModule, ABC):
 
             outputs, _ = self(inputs, input_lengths)
 
-            batch_count = len(batch)
+            batch_count = len(targets)
             loss = F.nll_loss(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 6ae5c7d2ac039c57dacd99c3f63b7b131d0ab203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 58/76] fix: ChordClassifierModel.evaluate ignores examples
 which were transposed out of range

---
 harmonic_inference/models/chord_classifier_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index a2c611f..f2fe3f4 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -133,8 +133,16 @@ class ChordClassifierModel(pl.LightningModule, ABC):
             notes_lengths = batch["input_lengths"]
             targets = batch["targets"].long()
 
-            batch_count = len(targets)
             outputs = self(notes, notes_lengths)
+
+            mask = targets != -1
+            outputs = outputs[mask]
+            targets = targets[mask]
+
+            batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             loss = F.cross_entropy(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From c553742365da5d2c92ae01a0a7845a393de195d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 59/76] fix: a batch in which nothing is measured does not make
 the evaluation nan

---
 harmonic_inference/models/chord_sequence_models.py   | 3 +++
 harmonic_inference/models/chord_transition_models.py | 3 +++
 harmonic_inference/models/key_transition_models.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index 21a9b93..c3c51a7 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -152,6 +152,9 @@ class ChordSequenceModel(pl.LightningModule, ABC):
             outputs = outputs.argmax(-1).reshape(-1)[mask]
             targets = targets[mask]
             batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             acc = 100 * (outputs == targets).sum().float() / len(targets)
 
             total += batch_count
diff --git a/harmonic_inference/models/chord_transition_models.py b/harmonic_inference/models/chord_transition_models.py
index 61a1536..a473ff2 100755
--- a/harmonic_inference/models/chord_transition_models.py
+++ b/harmonic_inference/models/chord_transition_models.py
@@ -121,6 +121,9 @@ class ChordTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets.float())
             acc = 100 * (outputs.round() == targets).sum().float() / len(outputs)
 
diff --git a/harmonic_inference/models/key_transition_models.py b/harmonic_inference/models/key_transition_models.py
index 9655285..0c6df29 100755
--- a/harmonic_inference/models/key_transition_models.py
+++ b/harmonic_inference/models/key_transition_models.py
@@ -130,6 +130,9 @@ class KeyTransitionModel(pl.LightningModule, ABC):
             targets = targets.reshape(-1)[flat_mask]
 
             batch_count = len(outputs)
+            if batch_count == 0:
+                continue
+
             loss = F.binary_cross_entropy(outputs, targets)
             acc = 100 * (outputs.round().long() == targets).sum().float() / len(outputs)
 
-- 
2.43.0


From 3363a793193cddaf1d3e9ae4ac8a3e8b5620d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 60/76] fix: the pitch-based chord sequence model measures
 every chord within a key, and can be evaluated

---
 harmonic_inference/models/chord_sequence_models.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index c3c51a7..de6c75e 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -484,7 +484,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -501,7 +501,7 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
         flat_outputs = outputs.view(-1, outputs.shape[-1])
         flat_targets = targets.view(-1, targets.shape[-1])
-        flat_mask = flat_targets[:, 0] == 0
+        flat_mask = flat_targets[:, 0] != -100
 
         flat_outputs = flat_outputs[flat_mask]
         flat_targets = flat_targets[flat_mask]
@@ -530,13 +530,16 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
 
             flat_outputs = outputs.view(-1, outputs.shape[-1])
             flat_targets = targets.view(-1, targets.shape[-1])
-            flat_mask = flat_targets[:, 0] == 0
-            batch_count = len(flat_mask.view(-1))
+            flat_mask = flat_targets[:, 0] != -100
 
             flat_outputs = flat_outputs[flat_mask]
             flat_targets = flat_targets[flat_mask]
 
-            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float(), reduction="none")
+            batch_count = len(flat_targets)
+            if batch_count == 0:
+                continue
+
+            loss = F.binary_cross_entropy(flat_outputs, flat_targets.float())
 
             acc = (
                 100
-- 
2.43.0


From 0a8e5fba44ecd771538c34b52a291ecb3c4d7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 61/76] fix: annotate.py applies --defaults and --fh-defaults

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index c0784f8..22533b8 100644
--- a/annotate.py
+++ b/annotate.py
@@ -320,6 +320,8 @@ if __name__ == "__main__":
         filemode="w",
     )
 
+    set_default_args(ARGS)
+
     # Load models
     models = load_models_from_argparse(ARGS)
 
-- 
2.43.0


From 094119a82895b7a0a0769a90202d57c208a0526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 62/76] fix: annotate.py writes pieces with equal file names to
 their own sub-directories

---
 annotate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/annotate.py b/annotate.py
index 22533b8..1cbce6b 100644
--- a/annotate.py
+++ b/annotate.py
@@ -170,8 +170,8 @@ def annotate(
             )
 
             if piece.name is not None and output_tsv_dir is not None:
-                piece_name = Path(piece.name.split(" ")[-1])
-                output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
+                piece_name = Path(piece.name.split(": ", 1)[-1])
+                output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bf648ab952634dfdb12a5b0ee600f6adfdc095b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 63/76] fix: test.py writes the labels of MusicXML scores to
 .tsv files, also for names with spaces

---
 test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/test.py b/test.py
index ab8717b..4624487 100755
--- a/test.py
+++ b/test.py
@@ -323,8 +323,8 @@ def evaluate(
         )
 
         if piece.name is not None and output_tsv_dir is not None:
-            piece_name = Path(piece.name.split(" ")[-1])
-            output_tsv_path = output_tsv_dir / piece_name
+            piece_name = Path(piece.name.split(": ", 1)[-1])
+            output_tsv_path = output_tsv_dir / piece_name.with_suffix(".tsv")
 
             try:
                 output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 68b8f2b9bf427dfa4ed741a784f5059dd46cd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:49 +0000
Subject: [PATCH 64/76] fix: grid_search.py quotes the arguments of the
 commands it prints

---
 grid_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid_search.py b/grid_search.py
index 4ddfb2f..9216285 100644
--- a/grid_search.py
+++ b/grid_search.py
@@ -1,6 +1,7 @@
 import argparse
 import itertools
 import os
+import shlex
 from pathlib import Path
 
 from harmonic_inference.models.joint_model import MODEL_CLASSES, add_joint_model_args
@@ -205,4 +206,4 @@ if __name__ == "__main__":
             this_args.append(f"--{name.replace('_', '-')}")
             this_args.append(str(val))
 
-        print(f"python test.py {' '.join(this_args)}")
+        print(f"python test.py {' '.join(shlex.quote(arg) for arg in this_args)}")
-- 
2.43.0


From 9f531aab799d0d0ceb95e17fdfe12effb2249350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:10 +0000
Subject: [PATCH 65/76] fix: write_labels_to_score reads the files of the named
 piece only

---
 harmonic_inference/utils/eval_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 4623965..a8e2579 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -923,7 +923,7 @@ def write_labels_to_score(
         annotations_dir = str(annotations_dir)
 
     # Add musescore and tsv suffixes to filename match
-    filename_regex = re.compile(basename + "\\.(mscx|tsv)")
+    filename_regex = re.compile("^" + re.escape(basename) + "\\.(mscx|tsv)$")
 
     # Parse scores and tsvs
     parse = Parse(annotations_dir, file_re=filename_regex)
-- 
2.43.0


From a303e06950ff544f9882e7477236580bcd09ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:31 +0000
Subject: [PATCH 66/76] fix: a time signature written in a first ending applies
 to the measures after it

---
 harmonic_inference/data/piece.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index fff13f0..4690311 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -802,15 +802,6 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
         offset = Fraction(offset) / 4 - skipped_dur
         measure = measures_list[0]
 
-        skip = False
-        for start, end in first_endings:
-            if measure.measureNumber in range(start, end + 1):
-                skip = True
-                break
-        if skip:
-            skipped_dur += Fraction(measure.duration.quarterLength) / 4
-            continue
-
         if measure.timeSignature is not None:
             if measure.timeSignature.ratioString != time_signature:
                 # Time Signature change
@@ -821,6 +812,15 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
                 if mc != 0:
                     ts_epoch = offset
 
+        skip = False
+        for start, end in first_endings:
+            if measure.measureNumber in range(start, end + 1):
+                skip = True
+                break
+        if skip:
+            skipped_dur += Fraction(measure.duration.quarterLength) / 4
+            continue
+
         if lengths:
             # Set the length of each bar to the difference between consecutive measure offsets
             lengths[-1] = offset - starts[-1]
-- 
2.43.0


From 52bd7f4c56718b2c2026db336f4bcb089df6d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:45 +0000
Subject: [PATCH 67/76] fix: log_state handles pieces without ground truth

---
 harmonic_inference/utils/eval_utils.py | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index a8e2579..dceeb93 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -991,28 +991,31 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     tonic_type : PitchType
         The pitch type used for the key tonics.
     """
-    gt_chords = [chord.to_pitch_type(root_type) for chord in piece.get_chords()]
-    gt_changes = piece.get_chord_change_indices()
+    has_truth = piece.get_chords() is not None
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+    if has_truth:
+        gt_chords = [chord.to_pitch_type(root_type) for chord in piece.get_chords()]
+        gt_changes = piece.get_chord_change_indices()
+        for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
+            gt_chord_labels[start:end] = chord.get_one_hot_index(
+                relative=False, use_inversion=True, pad=False
+            )
+        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
-    )
 
     chords, changes = state.get_chords()
     est_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(chords, changes[:-1], changes[1:]):
         est_chord_labels[start:end] = chord
 
-    gt_keys = [key.to_pitch_type(tonic_type) for key in piece.get_keys()]
-    gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-    for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+    if has_truth:
+        gt_keys = [key.to_pitch_type(tonic_type) for key in piece.get_keys()]
+        gt_changes = piece.get_key_change_input_indices()
+        for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
+            gt_key_labels[start:end] = key.get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -1054,5 +1057,5 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
 
         logging.debug("%s - %s (duration %s):", input_start, input_end, duration)
         logging.debug("    Estimated structure: %s\t%s", est_key_label, est_chord_label)
-        if gt_key_label != est_key_label or gt_chord_label != est_chord_label:
+        if has_truth and (gt_key_label != est_key_label or gt_chord_label != est_chord_label):
             logging.debug("      Correct structure: %s\t%s", gt_key_label, gt_chord_label)
-- 
2.43.0


From ba284d91d6ce529d7505f88eed4302e8081e0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:16 +0000
Subject: [PATCH 68/76] fix: debug logging of the joint model handles empty
 counts, rejoined states and out of range labels

---
 harmonic_inference/models/joint_model.py | 106 +++++++++++++++--------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 635da0b..15b5d3a 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1625,9 +1625,18 @@ class DebugLogger:
             correct_next_key = keys[new_key_index].to_pitch_type(
                 self.joint_model.key_sequence_model.OUTPUT_PITCH_TYPE
             )
-            correct_key_change_one_hot = correct_prev_key.get_key_change_one_hot_index(
-                correct_next_key
-            )
+            try:
+                correct_key_change_one_hot = correct_prev_key.get_key_change_one_hot_index(
+                    correct_next_key
+                )
+            except ValueError:
+                logging.debug(
+                    "Key change at index %s: %s -> %s is out of range",
+                    change_index,
+                    correct_prev_key,
+                    correct_next_key,
+                )
+                return
 
             if chord_changes[new_chord_index] == change_index:
                 if new_chord_index == len(chords):
@@ -1802,14 +1811,20 @@ class DebugLogger:
             ).get_one_hot_index()
 
             correct_next_chord = chords[chord_index]
-            correct_next_chord_relative_one_hot = correct_next_chord.to_pitch_type(
-                self.joint_model.chord_sequence_model.OUTPUT_PITCH_TYPE
-            ).get_one_hot_index(
-                relative=True,
-                use_inversion=self.joint_model.chord_sequence_model.use_output_inversions,
-                pad=False,
-                reduction=self.joint_model.chord_sequence_model.output_reduction,
-            )
+            try:
+                correct_next_chord_relative_one_hot = correct_next_chord.to_pitch_type(
+                    self.joint_model.chord_sequence_model.OUTPUT_PITCH_TYPE
+                ).get_one_hot_index(
+                    relative=True,
+                    use_inversion=self.joint_model.chord_sequence_model.use_output_inversions,
+                    pad=False,
+                    reduction=self.joint_model.chord_sequence_model.output_reduction,
+                )
+            except ValueError:
+                logging.debug(
+                    "Chord at index %s is out of range: %s", change_index, correct_next_chord
+                )
+                return
 
             correct_prev_chords = chords[max(0, chord_index - 5) : chord_index]
             correct_prev_chords_one_hots = [
@@ -1859,6 +1874,10 @@ class DebugLogger:
         total_correct = 0
 
         for state in states:
+            if state.prev_state.change_index != change_index:
+                # A rejoined state, whose prior is for a different change
+                continue
+
             if keys is not None and state.prev_state.chord != correct_prev_chords_one_hots[-1]:
                 # Most recent chord is incorrect
                 continue
@@ -1979,18 +1998,24 @@ class DebugLogger:
 
         if self.piece.get_chord_change_indices() is not None:
             logging.debug("CTM accuracy")
-            logging.debug(
-                "    Change: %s / %s = %s",
-                change_correct,
-                change_total,
-                change_correct / change_total,
-            )
-            logging.debug(
-                "    No change: %s / %s = %s",
-                no_change_correct,
-                no_change_total,
-                no_change_correct / no_change_total,
-            )
+            if change_total > 0:
+                logging.debug(
+                    "    Change: %s / %s = %s",
+                    change_correct,
+                    change_total,
+                    change_correct / change_total,
+                )
+            else:
+                logging.debug("    No chord changes")
+            if no_change_total > 0:
+                logging.debug(
+                    "    No change: %s / %s = %s",
+                    no_change_correct,
+                    no_change_total,
+                    no_change_correct / no_change_total,
+                )
+            else:
+                logging.debug("    No non-changes")
 
     def debug_chord_classifications(
         self,
@@ -2088,12 +2113,15 @@ class DebugLogger:
 
         if change_indices is not None:
             logging.debug("CCM accuracy")
-            logging.debug(
-                "    correct_chords / correct_ranges: %s / %s = %s",
-                num_correct_chords,
-                num_correct_ranges,
-                num_correct_chords / num_correct_ranges,
-            )
+            if num_correct_ranges > 0:
+                logging.debug(
+                    "    correct_chords / correct_ranges: %s / %s = %s",
+                    num_correct_chords,
+                    num_correct_ranges,
+                    num_correct_chords / num_correct_ranges,
+                )
+            else:
+                logging.debug("    No correct ranges")
 
     def debug_initial_chord_prior(self, icm_prior: List[float]):
         """
@@ -2109,14 +2137,18 @@ class DebugLogger:
         correct_chord = self.piece.get_chords()[0]
         correct_key = self.piece.get_keys()[0]
 
-        correct_chord_one_hot_relative = correct_chord.to_pitch_type(
-            self.joint_model.initial_chord_model.PITCH_TYPE
-        ).get_one_hot_index(
-            relative=True,
-            use_inversion=self.joint_model.initial_chord_model.use_inversions,
-            pad=False,
-            reduction=self.joint_model.initial_chord_model.reduction,
-        )
+        try:
+            correct_chord_one_hot_relative = correct_chord.to_pitch_type(
+                self.joint_model.initial_chord_model.PITCH_TYPE
+            ).get_one_hot_index(
+                relative=True,
+                use_inversion=self.joint_model.initial_chord_model.use_inversions,
+                pad=False,
+                reduction=self.joint_model.initial_chord_model.reduction,
+            )
+        except ValueError:
+            logging.debug("Initial chord is out of range: %s", correct_chord)
+            return
 
         correct_prob = icm_prior[correct_chord_one_hot_relative]
         correct_rank = rankings.index(correct_chord_one_hot_relative)
-- 
2.43.0


From 256cddd41b46b07dded6bf2f7c40be1c07f28208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 69/76] fix: check the chord pitch type of the KTM when models
 are combined

The pitch type that the CSM outputs was compared with the KSM's input twice,
and never with the KTM's, so that a KTM trained on another pitch type was
accepted and given chord vectors it does not understand.
---
 harmonic_inference/models/joint_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 15b5d3a..3fa7b8b 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -344,8 +344,8 @@ class HarmonicInferenceModel:
         ), "CSM output pitch type does not match KSM input chord pitch type"
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
-            == self.key_sequence_model.INPUT_CHORD_PITCH_TYPE
-        ), "CSM output pitch type does not match KSM input chord pitch type"
+            == self.key_transition_model.INPUT_CHORD_PITCH_TYPE
+        ), "CSM output pitch type does not match KTM input chord pitch type"
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
             == self.chord_sequence_model.INPUT_CHORD_PITCH_TYPE
-- 
2.43.0


From 4c49c59e7b689a4e840bfc3a5af2045f367bf3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:28 +0000
Subject: [PATCH 70/76] fix: collect the symbols of the ML course data in its
 vocabularies

---
 create_ml_course_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/create_ml_course_data.py b/create_ml_course_data.py
index c1b24b9..1abdf58 100644
--- a/create_ml_course_data.py
+++ b/create_ml_course_data.py
@@ -65,7 +65,7 @@ for composer in composers:
                 + str(key.local_mode).split(".")[1]
                 for key in piece.get_keys()
             ]
-            key_labels[piece.get_keys()[0].global_mode].add([symbol for symbol in key_symbols])
+            key_labels[piece.get_keys()[0].global_mode].update(key_symbols)
             key_file.write(",".join(key_symbols) + "\n")
 
         with open(chord_dir / f"{composer}.csv", "a+") as chord_file:
@@ -82,7 +82,7 @@ for composer in composers:
                     + str(chord.chord_type).split(".")[1][:3]
                     for chord in piece.get_chords()[start:end]
                 ]
-                chord_labels[mode].add([symbol for symbol in chord_symbols])
+                chord_labels[mode].update(chord_symbols)
                 chord_file.write(str(mode).split(".")[1] + ";" + ",".join(chord_symbols) + "\n")
 
 Path(base_dir / "chord_vocab_major.txt").write_text("\n".join(sorted(chord_labels[KeyMode.MAJOR])))
-- 
2.43.0


From 6ed9c1d653f280afd41f0c143f040524c4742134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:28 +0000
Subject: [PATCH 71/76] fix: list each piece of the ML course data under its
 own composer only

---
 create_ml_course_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/create_ml_course_data.py b/create_ml_course_data.py
index 1abdf58..ac024a2 100644
--- a/create_ml_course_data.py
+++ b/create_ml_course_data.py
@@ -33,8 +33,10 @@ chord_labels = {KeyMode.MAJOR: set(), KeyMode.MINOR: set()}
 key_labels = {KeyMode.MAJOR: set(), KeyMode.MINOR: set()}
 
 for composer in composers:
-    # startswith instead of contains because of WFBach/Bach
-    composer_df = files_df.loc[files_df["corpus_name"].str.startswith(composer)]
+    # Match the whole name because of WFBach/Bach, and names which begin with another name
+    composer_df = files_df.loc[
+        files_df["corpus_name"].apply(lambda name: name.split("-")[0].strip()) == composer
+    ]
 
     for file_id, file_row in tqdm(
         composer_df.iterrows(),
-- 
2.43.0


From 2902f4bcafbbe3cdc98ffbf721604d51d373fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:28 +0000
Subject: [PATCH 72/76] fix: the settings in the file of the initial chord
 prior reduce the prior as well

---
 harmonic_inference/models/initial_chord_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index 9c853ec..1d2bebc 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -109,13 +109,13 @@ class SimpleInitialChordModel:
 
                 self.reduction = new_reduction
 
-        if reduction is not None or not use_inversions:
+        if self.reduction != reduction_present or self.use_inversions != inversions_present:
             num_labels = len(
                 get_chord_label_list(
                     self.PITCH_TYPE,
-                    use_inversions,
+                    self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
             )
             self.major_prior = np.zeros(num_labels)
@@ -132,15 +132,15 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
-                reduced_type = chord_type if reduction is None else reduction[chord_type]
+                reduced_type = self.reduction[chord_type]
                 index = get_chord_one_hot_index(
                     chord_type,
                     absolute_to_relative(root, 0, self.PITCH_TYPE, False, pad=False),
                     self.PITCH_TYPE,
                     inversion=inversion % get_chord_inversion_count(reduced_type),
-                    use_inversion=use_inversions,
+                    use_inversion=self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
 
                 self.major_prior[index] += major_prior
-- 
2.43.0


From 57fe48d72a6571503bb70113c5f9132ccafbfb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:28 +0000
Subject: [PATCH 73/76] fix: SimpleInitialChordModel.evaluate uses the model's
 own label space

---
 harmonic_inference/models/initial_chord_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index 1d2bebc..e83a41a 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -192,7 +192,10 @@ class SimpleInitialChordModel:
 
         for piece in pieces:
             first_chord_one_hot = piece.get_chords()[0].get_one_hot_index(
-                relative=True, use_inversion=True, pad=False
+                relative=True,
+                use_inversion=self.use_inversions,
+                pad=False,
+                reduction=self.reduction,
             )
 
             if piece.get_keys()[0].relative_mode == KeyMode.MAJOR:
-- 
2.43.0


From 82a53f478fc91f709ccceb10bb3e8a30c3ea6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:16 +0000
Subject: [PATCH 74/76] fix: the pitch-based chord sequence prior is read at
 the chord's own pitches

---
 harmonic_inference/utils/beam_search_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index f5ac1b3..df0ac8f 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -481,6 +481,10 @@ class State:
                 reduction=output_reduction,
             )
 
+            if pitch_type == PitchType.TPC:
+                # The prior's first pitch is the lowest relative one
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From ad98a5174a56e87b1ca40a97da15c66c71a4dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 75/76] fix: the pitch-based chord sequence model outputs one
 value per MIDI pitch class

---
 harmonic_inference/models/chord_sequence_models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/chord_sequence_models.py b/harmonic_inference/models/chord_sequence_models.py
index de6c75e..0e1af78 100755
--- a/harmonic_inference/models/chord_sequence_models.py
+++ b/harmonic_inference/models/chord_sequence_models.py
@@ -15,7 +15,11 @@ from harmonic_inference.data.chord import get_chord_vector_length
 from harmonic_inference.data.data_types import ChordType, PitchType
 from harmonic_inference.data.datasets import ChordSequenceDataset
 from harmonic_inference.data.key import get_key_change_vector_length
-from harmonic_inference.utils.harmonic_constants import MAX_RELATIVE_TPC, MIN_RELATIVE_TPC
+from harmonic_inference.utils.harmonic_constants import (
+    MAX_RELATIVE_TPC,
+    MIN_RELATIVE_TPC,
+    NUM_PITCHES,
+)
 
 
 class ChordSequenceModel(pl.LightningModule, ABC):
@@ -435,7 +439,11 @@ class PitchBasedChordSequenceModel(ChordSequenceModel):
             + get_key_change_vector_length(input_key_pitch_type, one_hot=False)  # Key change vector
             + 1  # is_key_change
         )
-        self.output_dim = MAX_RELATIVE_TPC - MIN_RELATIVE_TPC
+        self.output_dim = (
+            NUM_PITCHES[PitchType.MIDI]
+            if output_pitch_type == PitchType.MIDI
+            else MAX_RELATIVE_TPC - MIN_RELATIVE_TPC
+        )
 
         self.embed_dim = embed_dim
         self.embed = nn.Linear(self.input_dim, self.embed_dim)
-- 
2.43.0


From db27c3f4a7db84a91e20a75b8d0f37d95cbae117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 76/76] fix: debug logging handles the pitch-based chord
 sequence model

---
 harmonic_inference/models/joint_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 3fa7b8b..adf373c 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1784,6 +1784,10 @@ class DebugLogger:
         if len(states) == 0:
             return
 
+        if isinstance(self.joint_model.chord_sequence_model, csm.PitchBasedChordSequenceModel):
+            # The prior is over pitches rather than chords
+            return
+
         change_index = states[0].prev_state.change_index
         if change_index == 0:
             # ICM is used here
-- 
2.43.0

