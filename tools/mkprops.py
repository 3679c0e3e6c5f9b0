"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
D = "harmonic_inference/data/"
U = "harmonic_inference/utils/"
M = "harmonic_inference/models/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


P("C01", "Pitch names and pitch numbers convert without loss or aliasing",
  "On the line of fifths every letter with up to two accidentals has exactly one number and every number one name, and converting back and forth in either letter case returns the start; on the semitone scale a name's class equals its line-of-fifths position mapped by seven semitones per fifth, so enharmonic spellings agree. Interval conversion between the two scales obeys the same rule. A name outside the representable range is rejected with an error rather than aliased to another pitch.",
  ["inputs"], "every letter, accidental count, letter case and pitch number, in both pitch representations",
  "The unit tests sample the conversions for some names; nothing relates the two representations or checks rejection at each edge of the range.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("get_pitch_from_string / get_pitch_string / get_accidental_adjustment", U + "harmonic_utils.py"), ("tpc_interval_to_midi_interval", U + "harmonic_utils.py")])

P("C02", "Transposition and relative pitches are exact, invertible shifts",
  "Transposing a pitch adds the interval, wrapping modulo twelve for semitones and raising an error instead of wrapping on the line of fifths, so transposing back restores the pitch. Expressing a pitch relative to a tonic yields an index from which tonic and pitch are recoverable, over exactly the documented range (wider when padded, with its own range for key changes), and raises an error outside it. Transposing a pitch-presence vector moves each present pitch by the interval, wrapping for semitones and dropping whatever leaves the line of fifths.",
  ["inputs", "configurations"], "all pitches, tonics, intervals, both pitch types, padded or not, chord or key-change range",
  "Tests check a few transpositions and do not walk every boundary of the four ranges.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("transpose_pitch", U + "harmonic_utils.py"), ("absolute_to_relative", U + "harmonic_utils.py"), ("transpose_chord_vector", U + "harmonic_utils.py")])

P("C03", "Chord labels, chord indices and vector lengths describe one label space",
  "For every configuration (pitch representation, inversions on or off, absolute or relative to the key, padded or not, any chord-type reduction) the index of a chord, the decoding of an index and the human-readable label list describe the same ordering: each index in range decodes to one distinct chord, re-encoding it gives the index back, the label at that index names that chord, and the announced length equals the number of labels. Chords with a root or inversion outside the label space raise an error instead of landing on another chord's index.",
  ["inputs", "configurations"], "all configurations of the label space, including custom reductions, and all chords within and just outside it",
  "Tests exercise default configurations; combinations of reduction, padding and relative roots are not enumerated, and nothing ties label lists, indices and lengths together.",
  [U + "harmonic_utils.py", D + "chord.py"],
  [("get_chord_one_hot_index / get_chord_from_one_hot_index / get_chord_label_list", U + "harmonic_utils.py"), ("Chord.get_one_hot_index, get_chord_vector_length", D + "chord.py")])

P("C04", "Key labels, key indices and key-change encodings describe one label space",
  "For both pitch representations the index of a key, the decoding of an index and the key label list agree element by element, and the same holds for key changes: index and vector of a change from one key to another encode exactly the interval between the tonics and the mode of the new key, have the announced lengths, and decode back to that interval and mode. A key outside the index space, or a change whose interval is outside the key-change range, is rejected for indices and leaves the tonic part of the vector empty.",
  ["inputs", "configurations"], "all pairs of keys (tonics, modes) in both pitch representations",
  "Tests cover absolute key indices only; key-change vectors and indices over all pairs are untested.",
  [U + "harmonic_utils.py", D + "key.py", D + "vector_decoding.py"],
  [("get_key_one_hot_index / get_key_from_one_hot_index / get_key_label_list", U + "harmonic_utils.py"), ("Key.get_key_change_vector / get_key_change_one_hot_index", D + "key.py")])

P("C05", "Scale degrees and Roman numerals denote fixed intervals above the tonic",
  "A scale degree or Roman numeral with any prefixed or suffixed accidentals denotes its mode's scale interval shifted one chromatic step per accidental, the same interval in both pitch representations; formatting an interval as a degree and parsing it back returns the same interval. A chain of relative keys is resolved outermost first, each link's degree read in the mode of the key it is applied to and its letter case giving the new mode, so that moving the starting tonic moves the result by the same interval.",
  ["inputs"], "all degrees, numeral cases, accidentals, modes, pitch representations, and slash chains of any length",
  "Tests check single degrees; chains of applied keys and agreement between representations are unquantified.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("get_interval_from_scale_degree / get_scale_degree_from_interval", U + "harmonic_utils.py"), ("decode_relative_keys", U + "harmonic_utils.py")])

P("C06", "Chord qualities, inversions and alterations yield the right pitches",
  "Every chord quality on every root contains exactly the stacked thirds its name says, spelled consistently in both pitch representations; the bass note of an inversion is that chord member, figured-bass strings map to their inversion, and quality names round-trip. A string of chord alterations splits into its individual alterations without loss, and each one is reported exactly once with the pitch it adds and, when it replaces a chord member, the member it replaces.",
  ["inputs"], "all chord types, roots, inversions, figured-bass strings, and alteration strings over any key",
  "Tests check chords on C and selected alterations; arbitrary roots, keys and multi-alteration strings are not covered.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("get_vector_from_chord_type / get_bass_note / get_chord_inversion", U + "harmonic_utils.py"), ("split_changes_into_list / get_added_and_removed_pitches", U + "harmonic_utils.py")])

P("C07", "Annotated chord rows become the chord and key they describe",
  "Reading a row of the annotated corpus gives the global key it names, the local key resolved against the global one and the applied key resolved against the local one; the chord's root lies the annotated interval above the local tonic, its quality, inversion and bass follow from the annotated type and figures under the requested reduction and inversion settings, and its position, duration, alterations and metrical levels are those of the row. The result does not depend on whether a metrical-level cache is supplied, and describes the same music in both pitch representations; a row without a chord gives no chord.",
  ["inputs", "configurations"], "all well-formed annotation rows, both pitch types, all reductions, with and without inversions, applied keys and caches",
  "Corpus-based tests need data that is not shipped; only generated rows can quantify over numerals, applied keys and time signatures.",
  [D + "chord.py", D + "key.py"],
  [("Chord.from_series", D + "chord.py"), ("Key.from_series", D + "key.py")])

P("C08", "Functional-harmony CSV labels become the chord and key they describe",
  "Reading a row of a functional-harmony label file gives the key it names (letter case deciding mode), the applied key of a slash degree, and a chord whose root is the labelled degree above the key in force, with the CSV conventions for sixth and seventh degrees in minor honoured. The bass is always the member of the returned chord given by its inversion, and onset, offset, duration and metrical levels correspond to the labelled times through the score's measures.",
  ["inputs", "configurations"], "all label rows over keys, degrees with accidentals, applied degrees, types, inversions, settings, and measure layouts including pickups",
  "No test reads these labels.",
  [D + "chord.py", D + "key.py"],
  [("Chord.from_labels_csv_row", D + "chord.py"), ("Key.from_labels_csv_row", D + "key.py")])

P("C09", "Chord and key vectors encode their object and decode back to it",
  "The vector of a chord has the announced length for its configuration and, decoded, yields the same root and bass relative to the key used for encoding, chord type under the reduction, inversion and metrical levels, with the duration and key mode in their own entries; a chord that does not fit raises an error instead of encoding another chord. Re-encoding relative to a different key only changes the parts that depend on the key.",
  ["inputs", "configurations"], "all chords, keys, both pitch types, padded and unpadded, all reductions",
  "Vector tests cover a handful of chords and never decode.",
  [D + "chord.py", D + "vector_decoding.py"],
  [("Chord.to_vec / get_chord_vector_length", D + "chord.py"), ("decode_chord_and_key_change_vector", D + "vector_decoding.py")])

P("C10", "Notes keep their pitch, position and duration through every encoding",
  "A note read from the corpus keeps its onset, offset, duration, pitch, octave and metrical levels, so that its sounding pitch equals the corpus value in both pitch representations, whether or not a metrical-level cache is supplied. Its vector has the announced length, places each field in its own section, and decodes to the same fields; transposing a note vector moves only the pitch and refuses to leave the pitch range.",
  ["inputs", "configurations"], "all notes over pitch, octave, meter, measure layout and both pitch types; all transpositions",
  "Note tests rely on corpus data that is not shipped and never decode or transpose vectors.",
  [D + "note.py", D + "vector_decoding.py"],
  [("Note.from_series / to_vec / get_midi_note_number", D + "note.py"), ("transpose_note_vector / decode_note_vector", D + "vector_decoding.py")])

P("C11", "Reducing chords gives the same result on objects, vectors and indices",
  "Applying a chord-type reduction and/or removing inversions has one meaning everywhere: reducing a chord's index gives the index of the reduced chord in the reduced label space, reducing its vector gives the vector with the reduced chord type, and unreduced types are left as they are; removing inversions from a vector changes only the inversion entry. Reduction never changes root, key, timing or anything else, never touches empty padding rows, and applying an idempotent reduction twice equals applying it once. The named reductions keep every type, map each type to the triad it is built on, and map all types to one.",
  ["inputs", "configurations"], "all chord indices and vectors, reductions (including partial and identity ones), inversion settings, relative/absolute and padded/unpadded",
  "No test applies reductions to vectors or indices.",
  [D + "vector_decoding.py", D + "data_types.py"],
  [("reduce_chord_types / remove_chord_inversions / reduce_chord_one_hots", D + "vector_decoding.py")])

P("C12", "Distances between score positions are exact, additive and antisymmetric",
  "The distance between two positions is the exact amount of music between them along the playing order of the measures, whatever the measures' lengths and offsets; it is zero from a position to itself, adds up over intermediate positions, and changes sign when the ends are swapped. Onset and duration of an event expressed as proportions of a range follow from these distances.",
  ["inputs"], "all measure layouts (pickups, split and irregular measures, non-contiguous next links) and all positions in them",
  "Tests check a few ranges in regular meters.",
  [U + "rhythmic_utils.py"],
  [("get_range_length / get_rhythmic_info_as_proportion_of_range", U + "rhythmic_utils.py")])

P("C13", "Metrical levels rank every position of every meter",
  "In every time signature the downbeat has the highest level, beats the next, sub-beats (by the meter's simple or compound division) the next and anything else the lowest, each position having exactly one level that depends only on the time signature and the position within the notated measure. Partial measures are ranked by their notated position, not their sounding start.",
  ["inputs"], "all time signatures, offsets and exact positions",
  "Tests sample beats in a few meters.",
  [U + "rhythmic_utils.py"], [("get_metrical_level / get_metrical_level_lengths", U + "rhythmic_utils.py")])

P("C14", "Removing repeats leaves one straight path through each piece",
  "After repeat removal every measure of a piece has at most one successor, following successors from the first measure visits every remaining measure exactly once in order and ends in the only measure without a successor, and the path takes the final ending of each repeat. Pieces are processed independently, no measure data other than the successor changes, and a measure is removed only if that path cannot reach it.",
  ["inputs"], "all measure tables with repeats, voltas, jumps and several pieces",
  "Tests cover a few hand-written tables.",
  [U + "corpus_utils.py"], [("remove_repeats", U + "corpus_utils.py")])

P("C15", "Cleaning keeps exactly the rows on kept measures and tiles chords in time",
  "Removing unmatched rows keeps exactly those rows whose piece and measure are still present, unchanged. Completed chord timing makes consecutive chords of a piece meet: each chord ends where the next begins, the last at the end of the piece, and its duration is the exact music between, so the durations of a piece's chords sum to the time from its first chord to its end.",
  ["inputs"], "all chord, note and measure tables over several pieces with irregular measures",
  "Tests cover small single tables.",
  [U + "corpus_utils.py"], [("remove_unmatched", U + "corpus_utils.py"), ("add_chord_metrical_data", U + "corpus_utils.py")])

P("C16", "Every note ends exactly its duration after it starts",
  "The offset position computed for a note lies exactly the note's duration after its onset along the playing order of the measures, however many measures it crosses; it is expressed at the start of the following measure rather than the end of the previous one, and past the end of the piece it stays in the last measure. Notes of different pieces never influence each other and no other column changes.",
  ["inputs"], "all note and measure tables, durations crossing any number of irregular measures",
  "Tests cover a handful of notes.",
  [U + "corpus_utils.py"], [("add_note_offsets", U + "corpus_utils.py")])

P("C17", "Merging ties conserves sounding time and note identity",
  "Merging ties replaces each chain of tied notes of one pitch by a single note that starts with the chain's first note, lasts the sum of the members and ends where the last member ends, and leaves untied and grace notes untouched. Simultaneous ties of one pitch are told apart by staff and voice. Total duration per piece and pitch is conserved, ties between different pieces or pitches are never joined, and unmatched tie ends are kept and remain marked.",
  ["inputs"], "all note tables with ties of any length, over simultaneous voices, staves and pieces",
  "Tests use a few hand-made chains.",
  [U + "corpus_utils.py"], [("merge_ties", U + "corpus_utils.py")])

P("C18", "Aggregating and loading a corpus preserves every piece's data",
  "Aggregating a directory of per-piece tables and loading the result yields, for every piece that has the required tables, exactly its rows with typed values under one consistent piece id across files, measures, chords and notes; pieces without annotations appear only on request. Loading applies the cleaning steps piece by piece, so a piece's cleaned data does not depend on which other pieces are present.",
  ["inputs", "configurations"], "all corpus directories with any mix of complete and incomplete pieces",
  "Corpus tests need data that is not shipped.",
  [D + "corpus_reading.py", D + "corpus_constants.py"],
  [("aggregate_annotation_dfs", D + "corpus_reading.py"), ("load_clean_corpus_dfs / read_dump", D + "corpus_reading.py")])

P("C19", "A piece's chords, keys and change indices are mutually consistent",
  "In a piece built from annotations, notes keep the order of the table (notes that cannot be spelled are dropped), chords are those annotated with directly repeated ones merged (offset extended, durations added), and each chord's change index is the first note at or after its onset (the last note if there is none); change indices never decrease and start the piece's ranges, each range beginning early enough to include notes still sounding at the chord's onset. Key changes point at the first kept chord of each key, no two consecutive keys or chords repeat under the chosen settings, and every chord carries the key in force.",
  ["inputs", "configurations"], "all annotated pieces, reductions, inversion, suspension and applied-key settings",
  "Piece tests need corpus data that is not shipped and sample two settings.",
  [D + "piece.py", D + "chord.py", D + "key.py"],
  [("get_score_piece_from_data_frames", D + "piece.py"), ("get_range_start / get_chord_change indices", D + "piece.py")])

P("C20", "Pieces and their parts survive serialisation and copying",
  "Converting a piece to its dictionary form (also through pickling) and back yields equal notes, chords, keys, change indices, ranges and durations; a note, chord or key rebuilt from its dictionary equals the original, and equality distinguishes any differing field, while whether a chord or key repeats another depends only on its root and type (plus inversion or suspension when asked) or its tonic and mode. Converting a chord, key or note between pitch representations changes only pitches, and converting spelled to semitone pitches preserves the sound.",
  ["inputs", "histories"], "all pieces, notes, chords and keys, any field mutation, any conversion order",
  "No test round-trips a piece.",
  [D + "piece.py", D + "chord.py", D + "key.py", D + "note.py"],
  [("to_dict / get_score_piece_from_dict", D + "piece.py"), ("__eq__ / to_pitch_type", D + "chord.py")])

P("C21", "Durations and chord note windows describe the notes actually sounding",
  "A piece's list of inter-onset durations gives for each note the exact time to the next note and for the last the time to the piece's end, so partial sums equal distances between onsets. The note window built for a chord contains exactly the notes of its range plus the requested context on each side, empty rows where the piece has none, in order, with each note placed relative to the chord's start and end; the chords reported within a range of notes are exactly those the range overlaps, in order, with their change indices.",
  ["inputs", "configurations"], "all pieces, ranges, windows, including chords at the piece's edges and zero-length notes",
  "Tests cover one window size on corpus data that is not shipped.",
  [D + "piece.py", D + "note.py"],
  [("get_duration_cache / get_chord_note_inputs / get_chords_within_range", D + "piece.py")])

P("C22", "A MusicXML score is read into the measures and notes it contains",
  "Reading a MusicXML score yields one measure table covering the whole score without gaps (measures of a repeat's earlier endings are skipped), with each measure's time signature, length and offset, and every sounding note exactly once with tied notes joined: its sounding pitch, scientific octave, onset and offset equal those in the score, also across pickups, partial measures and meter changes.",
  ["inputs"], "all scores over meters, pickups, ties, chords, spellings",
  "No test reads MusicXML.",
  [D + "piece.py", D + "note.py"],
  [("get_measures_df_from_music21_score / get_score_piece_from_music_xml", D + "piece.py"), ("Note.from_music21", D + "note.py")])

P("C23", "The beam keeps exactly the best states it was offered",
  "After any sequence of additions a beam holds at most its size and exactly the best-scoring states offered, with ties resolved only among equals; a hashed beam additionally holds at most one state per equivalence class, the best of it. A forced addition ignores the size but not the classes. Iteration, length, top state and the question whether a state fits report this content, an addition says truthfully whether the state was kept, and an emptied beam behaves like a new one.",
  ["histories", "configurations"], "all sequences of add, forced add, fits, top, iterate and empty operations, beam sizes, hash lengths and score ties",
  "There are no beam tests; the guarantee is over operation histories.",
  [U + "beam_search_utils.py"], [("Beam / HashedBeam", U + "beam_search_utils.py")])

P("C24", "A search state reports the harmony and score of its own path",
  "A state's chords, keys and change positions are exactly the transitions taken on the path to it, whatever sibling states were derived from its ancestors, and its score is the sum of the scores charged along the path: every transition creates a new state and leaves its predecessor unchanged, and rejoining the last chord with a longer range takes back the key change and model scores of the shorter one. A chord outside the padded relative range of the key is refused, one in the padding must change key before it is valid, a key from which the chord is out of range is refused, and no key change happens on the first chord. The model inputs of a state describe exactly its own chords and keys, and equal recent histories compare equal under the state's hash.",
  ["histories", "configurations"], "all transition sequences, branchings and interleavings of scoring and transitions",
  "There are no state tests.",
  [U + "beam_search_utils.py"], [("State.chord_transition / key_transition / rejoin", U + "beam_search_utils.py"), ("State.get_chords / get_keys", U + "beam_search_utils.py")])

P("C25", "Proposed chord ranges are complete, well-formed and within limits",
  "From a sequence of change probabilities the system proposes, each exactly once, the note ranges that start where a proposed range may end (the first one at the first note), whose two ends may be changes (probability at least the minimum, or forced, or the end of the piece), which no certain change interrupts (probability above the maximum for no change, or forced), which hold no two different forced labels, and which last no longer than the maximum chord length. Each range comes with the log-probability of its change pattern: no change at every onset inside it, a change at its end, nothing for its start or for the end of the piece. Ranges start and end where notes begin, never between notes that sound together from the same onset.",
  ["inputs", "configurations"], "all probability sequences, thresholds, durations, length limits and forced positions",
  "The inference module is not covered by any runnable test.",
  [M + "joint_model.py"], [("get_chord_ranges", M + "joint_model.py")])

P("C26", "Joint inference returns a complete, consistent analysis of the piece",
  "For any piece and any component models the returned analysis covers the piece from first to last note with chord segments that neither overlap nor leave gaps, chords change only where a change is allowed, keys change only where chords change and never on the first chord, every label lies in the label space, and the reported score equals the sum of the component scores along the returned path, each model being given that path's chords and keys (reduced as the model asks) and its own earlier hidden state. A beam wide enough to hold every candidate yields a best-scoring candidate analysis; when no analysis is possible none is returned. Repeating the inference on the same input gives the same result, and a model can be reused after any outcome, successful or failed. Component models that do not fit together (different pitch types for the notes, chords or keys one hands to another, different input types, a missing component) and thresholds that leave a probability without any behaviour are refused when the model is built.",
  ["inputs", "configurations", "histories"], "all pieces, component model outputs, beam settings and call histories",
  "The inference engine has no tests and cannot be imported without its learning framework.",
  [M + "joint_model.py", U + "beam_search_utils.py"], [("HarmonicInferenceModel.get_harmony / beam_search", M + "joint_model.py")])

P("C27", "User-forced labels are honoured or rejected",
  "Chord changes, key changes, chords and keys that the user forces (or forbids) at given positions appear in (or are absent from) every returned analysis exactly as forced, whatever the thresholds; a request that the search cannot satisfy yields no analysis rather than one that breaks it. Contradictory requests (a change and a non-change at one place, one note forced to two labels, a change between equal forced labels or a non-change between different ones, a key change where the chord may not change, a change inside a group of simultaneous notes) and requests beyond the end of the piece or outside the label space are rejected with an error before the search starts, leave the model usable, and the caller's arguments are not changed.",
  ["inputs", "configurations"], "all consistent and inconsistent combinations of forced changes, non-changes, chords and keys",
  "No test exercises forcing.",
  [M + "joint_model.py", U + "forces.py"], [("forced_* handling in get_harmony", M + "joint_model.py")])

P("C28", "Forced-label files are parsed into the labels they spell",
  "Each label of a forced-label json file or annotated score parses to exactly the position and chord, key, change or non-change it spells, including seventh chords, inversions, accidentals and either mode; a text that contains none of these spellings (a lyric, a harmony label) forces nothing. A forced score position resolves to the first note that begins there; a position at which no note begins is reported as an error rather than moved to another note.",
  ["inputs"], "all label strings of the grammar, other texts, and all positions in a piece",
  "No test parses a forced-label file.",
  [U + "forces.py"], [("extract_forces_from_json / label parsing", U + "forces.py")])

P("C29", "The initial-chord prior is a valid distribution over the label space",
  "The learned initial-chord prior gives every chord of its label space, in each mode, a positive probability, sums to one, ranks chords by how often pieces of that mode began with them, and is the one returned for that mode. Saved to its configuration file and loaded again it gives the same distribution; loaded with a reduction or without inversions, whether asked for by the caller or in the file, the mass of all chords that become one label is collapsed into it. Its evaluation compares first chords in its own label space.",
  ["inputs", "configurations"], "all training sets of initial chords and all settings",
  "No test trains or loads the prior.",
  [M + "initial_chord_models.py"], [("SimpleInitialChordModel / train", M + "initial_chord_models.py")])

P("C30", "Evaluation scores are duration-weighted agreement with the ground truth",
  "Chord, key and joint accuracy equal the proportion of the piece's duration on which estimate and truth agree under the chosen settings (reduction, inversions, tonic only), whichever pitch type the estimate uses, so they lie between zero and one, are one for a perfect estimate, never increase when more must match, and do not depend on how segments of equal labels are split.",
  ["inputs", "configurations"], "all pieces, estimated label sequences and evaluation settings",
  "Evaluation code cannot be imported by the runnable tests.",
  [U + "eval_utils.py"], [("evaluate_chords / evaluate_keys / evaluate_chords_and_keys_jointly", U + "eval_utils.py")])

P("C31", "Result and annotation tables state the analysis they were made from",
  "The results table has one row per onset with its duration and the true and estimated chord and key of that onset, spelled in the requested pitch type; the table of true labels also gives their score position and alterations. The annotation table has a row exactly where the estimated key or chord changes, at its score position; the coloured label table additionally where the truth changes, marking each row right, partly right or wrong by comparison with the truth of the same onset. The scripts write each analysed piece's own tables under its name, and averaging a results file gives the mean of each accuracy in it.",
  ["inputs", "configurations"], "all pieces and analyses",
  "Output code cannot be imported by the runnable tests.",
  [U + "eval_utils.py", "annotate.py", "test.py"], [("get_results_df / get_labels_df / get_annotation_df / get_label_df / average_results", U + "eval_utils.py"), ("annotate / evaluate", "annotate.py")])

P("C32", "Training examples match the pieces they come from",
  "Every dataset item pairs inputs with the target of the same event: note sequences with their chord changes, chord windows with the chord's index, chord sequences with the following chord, key sequences with the following key, in one shape per dataset whose true length is reported. An example that leaves the pitch range when transposed is marked invalid and carries no data. Reading items never alters the dataset, so any access order and repetition gives the same items; reductions and transpositions requested by the settings apply to inputs and targets alike.",
  ["inputs", "configurations", "histories"], "all pieces, access orders, reductions, inversion settings and transposition ranges",
  "Datasets cannot be imported by the runnable tests.",
  [D + "datasets.py"], [("HarmonicDataset and subclasses __getitem__ / reduce / pad", D + "datasets.py")])

P("C33", "Saved datasets reload unchanged and splits partition the corpus",
  "A dataset written to disk and loaded, in memory or streamed, yields the same items as the one it was saved from (at the half precision of the storage), whatever the chunking. Splitting a corpus puts every usable piece in exactly one split with its own id, in proportions within rounding of those requested, identically for the same seed and for every dataset type, and skips unusable pieces without affecting the others.",
  ["inputs", "configurations", "fault_sequences"], "all datasets, split proportions, seeds, missing data and memory failures while loading",
  "Persistence cannot be imported by the runnable tests.",
  [D + "datasets.py"], [("to_h5 / h5_to_dataset / pad_array", D + "datasets.py"), ("get_split_file_ids_and_pieces / get_dataset_splits", D + "datasets.py")])

P("C34", "Configuration and piece loading return exactly what was asked for",
  "Loading keyword arguments from a file returns the stored values with pitch types and chord-type reductions restored to their typed form and everything else untouched. Loading pieces returns the requested pieces, in the requested order and under their own names, the same whether from tables, scores or saved dictionaries; a specific id returns that piece only and an unknown id is refused.",
  ["inputs", "configurations"], "all configuration files and all id selections over a corpus",
  "This code cannot be imported by the runnable tests.",
  [U + "data_utils.py"], [("load_kwargs_from_json / load_pieces", U + "data_utils.py")])

P("C35", "A network's prediction depends only on the example it is given",
  "Each network accepts the examples of a dataset made with its own settings and returns one value per label of those settings (per step for sequences): probabilities, or log-probabilities of a distribution. The prediction for an example is the same alone or in any batch, in any order, with any padding after its reported length, and running a sequence model one step at a time from its own hidden states gives the predictions and final state of the whole sequence, starting from zero states unless others are given.",
  ["inputs", "configurations", "histories"], "all settings, network sizes, examples, batches and paddings",
  "Networks cannot be imported by the runnable tests.",
  [M + "chord_classifier_models.py", M + "chord_sequence_models.py", M + "chord_transition_models.py", M + "key_sequence_models.py", M + "key_transition_models.py"],
  [("forward / get_output / run_one_step / init_hidden / get_dataset_kwargs", M + "chord_sequence_models.py")])

P("C36", "Training and evaluation measure every labelled event exactly once",
  "The accuracy and loss a model's evaluation reports are the means over all measured events of the dataset: notes that may change chord, valid chord examples, chords within a key other than the first, key-change decisions, key changes. Padding, invalid examples and examples with nothing to measure do not count, and the result does not depend on the batch size. Training and validation steps report the same means for their batch.",
  ["inputs", "configurations"], "all datasets, networks and batch sizes",
  "Networks cannot be imported by the runnable tests.",
  [M + "chord_classifier_models.py", M + "chord_sequence_models.py", M + "chord_transition_models.py", M + "key_sequence_models.py", M + "key_transition_models.py"],
  [("evaluate / training_step / validation_step / get_data_from_batch", M + "chord_sequence_models.py")])

P("C37", "Scripts run the data, components and settings their arguments name",
  "Creating the datasets uses exactly the pieces of the corpora asked for, in the requested proportions. Training fits one network of the requested kind, with the requested settings and learning rate, on the training examples of the given seed and validates it on that seed's validation examples, both made with the network's own settings; the initial-chord prior is learned from the first chords of the training pieces only. Evaluation runs exactly the pieces of the requested split and seed, annotation every piece of the input, and either only the one with a requested id. Both use, for every component, the checkpoint file or version that was asked for (else the last one of the last version), unchanging while it is used, and the search settings given, or the published settings of the chosen version when these are asked for; what cannot be found is refused. A grid search lists exactly one evaluation command per combination of values, each with its own output directory, passing every other argument on.",
  ["inputs", "configurations"], "all corpora, data and checkpoint directories and argument lists",
  "The scripts cannot be imported by the runnable tests.",
  ["create_h5_data.py", "train.py", "test.py", "annotate.py", "grid_search.py", U + "data_utils.py", M + "joint_model.py"],
  [("main program", "train.py"), ("main program", "test.py"), ("main program / set_default_args", "annotate.py"),
   ("main program", "grid_search.py"), ("load_models_from_argparse", U + "data_utils.py"), ("from_args / add_joint_model_args", M + "joint_model.py")])

P("C38", "Labels are written onto the score they belong to, at their positions",
  "Writing outputs to scores makes, for every label table that has a score of the same name in the matching directory, one new score in which each label of the table stands at its measure and position on the second staff, in its colour if it has one, and which otherwise has the notes and labels of the original. Tables and original scores are not changed, pieces with similar names are not mixed up, tables without a score do not stop the others, and writing again gives the same result.",
  ["inputs", "configurations", "histories"], "all sets of label tables and scores",
  "Nothing tests writing to scores.",
  ["write_to_score.py", U + "eval_utils.py"], [("write_tsvs_to_scores", "write_to_score.py"), ("write_labels_to_score", U + "eval_utils.py")])

P("C39", "Verbose output neither changes nor breaks an analysis",
  "Running an analysis with debug logging gives the same analysis, score, files and messages at the other levels as running it quietly, and never fails where the quiet run succeeds: for pieces without annotations, and with annotations that are sparse, begin late, never change, or lie outside of the models' label ranges. The structure logged for an analysis has one entry per segment with its duration and labels, and calls nothing correct when the truth is unknown; a logged rate is the ratio of the counts beside it, and the chord change rates count every place that may change.",
  ["inputs", "configurations"], "all pieces, annotations, component outputs and search settings",
  "Logging is off in every test.",
  [M + "joint_model.py", U + "eval_utils.py", "annotate.py", "test.py"],
  [("DebugLogger", M + "joint_model.py"), ("log_state", U + "eval_utils.py"), ("annotate", "annotate.py"), ("evaluate", "test.py")])

P("C40", "The course data lists every annotated piece's keys and chords in order",
  "For each composer (the corpus name up to its first hyphen), the key file has one line per annotated piece of that composer, in the order of the corpus: its local keys in order, each as the scale degree of its tonic in the global key and its mode. The chord file has one line per key of each piece: the mode, and the chords in order as scale degrees in that key with their triad quality, repeated chords joined. The vocabulary files list exactly the symbols used, sorted, by the mode of the global key (keys) or of the key (chords) and in total. Pieces without annotations are left out, running again replaces earlier output, and the corpus is not changed.",
  ["inputs", "histories"], "all annotated corpora and earlier outputs",
  "Nothing runs this script.",
  ["create_ml_course_data.py", U + "harmonic_utils.py"], [("main program", "create_ml_course_data.py"), ("get_scale_degree_from_interval", U + "harmonic_utils.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(PROPS))
