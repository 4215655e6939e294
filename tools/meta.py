#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the checks do not read its output)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIG, TONE, NOTE, TRK = ('src/melodia/core/%s.py' % x for x in ('signature', 'tone', 'note', 'track'))
MIDI, CH, RV = 'src/melodia/io/midi.py', 'src/melodia/music/chord.py', 'src/melodia/processing/track.py'

T = 'path-sensitive abstract interpretation of the source (symbolic terms, interval/linear/ordering domains); '
P = []


def prop(pid, title, statement, over, quant, why, files, mech, tech, note, observe=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, observe=list(observe)))


prop('C01', 'Signature arithmetic is exact',
     'For all signatures a and b, a + b and a * b are signatures whose value (nominator/denominator) is exactly the sum and the product of the values, and abs keeps the value. '
     'Rescaling to a denominator that is a power of two not smaller than the own one keeps the value and gives exactly that denominator; any other denominator raises ValueError. '
     'The normalized copy has the same value and is in lowest terms (an odd nominator or denominator 1).',
     ['inputs'], 'all nominators and denominators (powers of two), all operand pairs',
     'Tests try a dozen pairs of small numbers; the claim is about every pair, including equal, reversed and very different denominators.',
     [SIG], ['rescaling to the larger denominator before adding', 'halving loop in normalized'],
     T + 'result terms compared in normal form with the exact rational value',
     'Every path for unknown nominators and unknown power-of-two denominators; lowest terms: nominator odd*2^i for listed i, denominators 2^k for listed k.')
prop('C02', 'Signature comparison is comparison of values',
     'For all signatures a and b, each of ==, !=, <, <=, >, >= gives exactly the truth value of the same comparison between the rational values of a and b, whatever their denominators. '
     'So 2/4 == 1/2, and exactly one of <, ==, > holds for any two signatures.',
     ['inputs'], 'all operand pairs, either operand having the larger denominator',
     'Tests compare a few pairs, mostly with the larger denominator on one side.',
     [SIG], ['common denominator keeps operand order'], T + 'comparison result equated with the value comparison',
     'All six operators, every ordering of unknown denominators.')
prop('C03', 'Constructors accept exactly the documented values',
     'A Signature is constructed exactly for a non-negative nominator and a denominator that is a positive power of two, otherwise ValueError; a Tone only from an integer, otherwise ValueError. '
     'A Note takes a tone as Tone, integer or notation, a duration as Signature or pair (default 1/4), a velocity in [0, 1] (default 0.75) and raises ValueError for other velocities (also NaN) and TypeError for tones or durations of other types; a Track takes its signature (default 4/4) and positions as Signature or pair, TypeError otherwise. '
     'A MIDI writer accepts pulses per quarter in 1..32767 and channels in 0..15, otherwise ValueError, and writer and reader accept middle C as Tone, integer or notation, TypeError otherwise.',
     ['inputs'], 'all integers and floats, all forms of the arguments',
     'Tests try a few invalid values; boundaries and the forms of the arguments are sampled.',
     [SIG, TONE, NOTE, TRK, MIDI], ['range checks at construction'], T + 'acceptance condition of each constructor compared with the documented one',
     'Unknown integers and floats; denominators that are no power of two are listed values.')
prop('C04', 'Tone notation is read and written exactly',
     'A notation is a letter A-G (C=0, D=2, E=4, F=5, G=7, A=9, B=11), any number of # and b (+1 and -1 each) and an optional octave that is a decimal integer, maybe negative (0 if missing); it reads as pitch 12*octave + letter + accidentals, and any other text (also with characters before or after) raises ValueError. '
     'A tone is written with its octave (pitch // 12) and with sharps, or with flats when asked to transpose down, and str gives the sharp form. '
     'Reading what was written gives the same pitch, for every pitch.',
     ['inputs'], 'all pitches (also negative), both spellings; notations over the whole alphabet',
     'Tests read a few notations and write a few pitches near the middle octaves.',
     [TONE], ['anchored notation pattern', 'pitch tables'], T + 'text domain (concatenations with symbolic integers), regular-expression matching on known texts',
     'Writing: all 12 pitch classes with an unknown octave; reading: listed notations and rejected texts.')
prop('C05', 'Tone transposition, octave, frequency and order follow the pitch',
     'Transposing by n semitones gives the tone of pitch + n for every integer n, and transposing back restores the tone; the octave is the floor of pitch/12. '
     'The frequency is base * 2**((pitch - 57)/12), with base 440 Hz by default. '
     'Tones compare (==, !=, <, <=, >, >=) exactly as their pitches.',
     ['inputs'], 'all pitches and transpositions', 'Tests sample a few pitches.',
     [TONE], ['arithmetic on the pitch'], T + 'result terms in normal form', 'Unknown pitches and transpositions; float terms are compared as expressions.')
prop('C06', 'Derived notes change one component; notes order lexicographically',
     'A transposed note, a note with another duration and a note with another velocity differ from the original in exactly that component (also for velocities 0 and 1 and duration zero) and the new component is the one asked for. '
     'Notes are equal exactly when tone, duration value and velocity are equal. '
     'They are ordered by tone, then duration value, then velocity, by all of <, <=, >, >=.',
     ['inputs'], 'all notes, all pairs of notes', 'Tests derive and compare a few notes.',
     [NOTE], ['reconstruction with the other components passed on', 'comparison of triplets'], T + 'case split on the order of the components', 'Unknown pitches, durations and velocities.')
prop('C07', 'Values never change; operations leave their arguments alone',
     'The observable components of a Signature, Tone or Note (and a track\'s signature and length) cannot be assigned: trying raises AttributeError and changes nothing. '
     'No operation of the library changes a signature, tone, note, list or track passed to it (adding to a track changes only that track), also when it raises. '
     'So values may be shared freely between notes, tracks and calls.',
     ['inputs', 'histories'], 'all operations on all values, including failing ones', 'Tests look at results, never again at the arguments.',
     [SIG, TONE, NOTE, TRK, CH, RV, MIDI], ['read-only properties', 'no in-place updates of arguments'], T + 'heap effects: every argument is observed again after each operation', 'Every public operation on values with unknown contents.')
prop('C08', 'A track keeps every note at its position, in order',
     'After any sequence of additions a track holds exactly the notes added (duplicates included, len counts them), each at a position equal in value to the one given, or, without a position, at the end of the track as it was; notes added together share one position. '
     'Iteration yields the (position, note) pairs ordered by position and then by note order, whatever the order of the additions and the denominators, and also when the track was iterated, compared or measured in between. '
     'Content given at construction is the same as adding it in that order.',
     ['histories', 'inputs'], 'all sequences of additions and observations', 'Tests add a few notes in a few orders.',
     [TRK], ['heap of positions rescaled to a common denominator', 'sorting before iteration'], T + 'observed contents compared as an ordered bag of (position value, note)', 'Sequences of up to 3 additions with unknown positions and denominators, longer ones with listed positions.')
prop('C09', 'Track length is the latest note end',
     'The length of a track is, in value, the maximum over its notes of position + duration, and 0 for an empty track. '
     'It holds after every addition, in any order, for notes contained in or overlapping others and for positions and durations of any denominators. '
     'A note (or group) added without a position starts exactly there.',
     ['histories', 'inputs'], 'all sequences of additions', 'Tests measure a few tracks.',
     [TRK], ['running maximum of end positions'], T + 'length term compared with the maximum by case split', 'Up to 4 additions with unknown positions and durations.')
prop('C10', 'Track equality compares signature and contents',
     'Two tracks are equal exactly when their time signatures are equal in value and they hold the same number of notes with, pairwise in order, equal positions and equal notes. '
     'Denominators used, order of insertion and earlier observations do not matter; a track that has more notes is never equal to one that has fewer. '
     '!= is the opposite of ==.',
     ['inputs', 'histories'], 'all pairs of tracks', 'Tests compare a few tracks.',
     [TRK], ['length check and pairwise comparison'], T + 'case split on positions and notes', 'Pairs of tracks with up to 3 notes with unknown components.')
prop('C11', 'repr reads back as an equal value',
     'Evaluating the repr of a signature, tone, note or track (with the class names in scope) gives an equal value, for every value, including every velocity bit for bit. '
     'For a track the time signature and all positions and notes are reproduced. ',
     ['inputs'], 'all values', 'Tests check no repr, or one.',
     [SIG, TONE, NOTE, TRK], ['repr built from the components'], T + 'the text with symbolic holes is parsed and analysed as a constructor call', 'Unknown components; tracks of up to 3 notes.')
prop('C12', 'The written file is a well-formed single-track MIDI file',
     'For every track and every writer setting that is accepted, the bytes are: a header chunk of length 6 with format 0, one track and the pulses per quarter; then one track chunk whose length field is exactly the number of bytes that follow. '
     'The track starts at time 0 with the time signature (nominator, log2 of the denominator, 24, 8), then the tempo of int(60000000/bpm) microseconds in 3 bytes, then the note events, and ends with one end-of-track event at delta 0. '
     'Writing to a file writes the same bytes that are returned as a byte string.',
     ['inputs', 'configurations'], 'all tracks, all pulses per quarter, tempos and signatures', 'Tests compare one or two files byte by byte.',
     [MIDI], ['chunk and event formatting'], T + 'byte-string domain with symbolic bytes', 'Unknown resolution (1..32767), nominator, tempo, pitch, velocity; listed denominators and up to 8 notes.')
prop('C13', 'Note events carry the exact time, channel, pitch and velocity',
     'Every note gives a note-on at floor(4*ppq*position) pulses and a note-off floor(4*ppq*duration) pulses later, on the configured channel, with key pitch + 60 - middle C, on-velocity int(127*velocity) and off-velocity 64; a key outside 0..127 raises ValueError. '
     'Events appear by ascending time; at equal times in the order in which the notes of the track (on before off per note) produce them. '
     'Delta times are the exact differences, as variable-length quantities of any length.',
     ['inputs', 'configurations'], 'all notes, times, resolutions, channels and middle Cs', 'Tests write small tracks with short delta times.',
     [MIDI], ['pulse conversion', 'stable sort of events', 'variable-length encoding'], T + 'byte-string domain; floor/mixed-radix arithmetic for the variable-length bytes', 'One note with unknown time (1 to 4 delta bytes) for listed denominators and resolutions; tracks of up to 5 notes with listed times and unknown pitches and velocities.')
prop('C14', 'Writing is all or nothing and leaves the track alone',
     'When a track cannot be written (key out of range, time signature or tempo that does not fit), writing raises and not a single byte has reached the file. '
     'Only the write method of the file is used, its errors reach the caller, and on success everything has been written exactly once, in order. '
     'The track and its notes are unchanged in every case.',
     ['inputs', 'fault_sequences'], 'all tracks that fail, at any note; all failures of the file', 'Tests never write a track that fails in the middle.',
     [MIDI], ['events are formatted before the first write'], T + 'typestate of the file (a recording stand-in analysed together with the code)', 'Failing note at every place of tracks of up to 4 notes; unknown pitch, nominator and tempo.')
prop('C15', 'Any bytes give a track or a parsing error',
     'Reading any byte string whatsoever terminates with a track or with MIDIParsingError: never with another exception. '
     'With a channel given, ValueError is raised only when the file is readable and has no events on that channel. '
     'In particular truncated files, chunks of wrong sizes, unknown events, running status without an event before and invalid headers are reported as MIDIParsingError.',
     ['inputs'], 'all byte strings', 'Tests read a handful of valid files.',
     [MIDI], ['bounds-checked reads', 'explicit validation'], T + 'exception flow over files with arbitrary bytes', 'Tracks of up to 3 arbitrary bytes, every status with arbitrary data, every one-byte change and every truncation of sample files; bounded, not all lengths.')
prop('C16', 'Events are decoded as the MIDI format says',
     'Delta times are variable-length quantities of any number of bytes, and times add up over all events, including those that are skipped. '
     'Note events are recognised on all 16 channels; after-touch, controller, program, pressure, pitch-wheel, the system messages F1-F3, F6, F8-FC, FE, system-exclusive and other meta events are skipped with exactly their data, whatever it is, and running status repeats the status of the event just before when that is a channel message. '
     'Chunks other than header and track are skipped, chunk lengths are big-endian 32-bit, bytes after the end of the track are ignored.',
     ['inputs'], 'all data bytes, all events between notes', 'Tests read files with few event types.',
     [MIDI], ['event length table', 'variable-length reading', 'chunk loop'], T + 'byte-string domain with symbolic data bytes', 'Each status and (sampled in quick) each meta kind between note events with arbitrary data.')
prop('C17', 'Note events become notes with exact components',
     'A note-on (velocity above 0) starts a note of its key and channel unless one is running; the next note-off of that key and channel, or note-on with velocity 0, ends it; other note-offs are ignored and notes never ended are dropped. '
     'The note has tone key - 60 + middle C, velocity on-velocity/127, and position and duration equal in value to floor(ticks*4096/division)/16384 of its start tick and of its number of ticks. '
     'Different keys and channels never influence each other.',
     ['inputs', 'histories'], 'all sequences of note events, all divisions, all keys and velocities', 'Tests read a few simple melodies.',
     [MIDI], ['running notes per channel and key'], T + 'dictionary domain with symbolic keys', 'All sequences of up to 3 (thorough: 4) events of two unknown keys; listed divisions with unknown ticks.')
prop('C18', 'Channel choice, time signatures and header validation',
     'Without a channel the track holds the notes of all channels and the greatest of the channels\' time signatures; with a channel exactly the notes of that channel and its time signature, and ValueError if the channel has no note events (a file without note events counts as channel 0, empty). '
     'A channel\'s time signature is the last one given after the meta channel prefix for it, else the last one given before any prefix, else 4/4. '
     'Only format 0, one track and a division of 1..32767 ticks are accepted; otherwise, and when header or track is missing, out of order or incomplete, or end-of-track, channel-prefix or time-signature events have a wrong length, MIDIParsingError is raised.',
     ['inputs'], 'all headers, channels and time signatures', 'Tests read one or two headers and channels.',
     [MIDI], ['header checks', 'signature per channel'], T + 'byte-string domain with symbolic header fields', 'Unknown format, track count, division, nominators; all channels.')
prop('C19', 'Reading inverts writing',
     'Writing a track and reading it back with the same middle C (all channels or the written one) gives the same time signature and the same notes at the same positions, with equal tones and durations and with velocities rounded down to multiples of 1/127. '
     'It holds for every resolution and every track whose times are whole numbers of pulses (denominators up to 16384), whose time signature has a positive nominator, whose velocities are at least 1/127 and whose notes of equal tone do not overlap. '
     'Channel and tempo make no difference.',
     ['inputs', 'configurations'], 'all such tracks and settings', 'Tests round-trip one or two tracks.',
     [MIDI], ['writer and reader agree on encoding'], T + 'composition of writer and reader on symbolic bytes', 'Unknown pitch, velocity, middle C, resolution; unknown time for listed denominators and resolutions; up to 5 notes.')
prop('C20', 'Chord functions build the named chord',
     'Every chord function returns the notes of its chord: the base tone transposed by the chord\'s fixed intervals, in ascending order starting with the base, for every base pitch. '
     'The base may be a Note, Tone, integer or notation, ValueError otherwise; duration and velocity given are used for all notes (also velocity 0 and duration zero), else those of the base note, else 1/4 and 0.75. ',
     ['inputs', 'configurations'], 'all chord functions, all bases, durations and velocities', 'Tests call a few chords.',
     [CH], ['one transposition per interval'], T + 'note terms compared with the interval table', 'All functions with unknown base; the interval table was taken from the code and the generator and reviewed.')
prop('C21', 'Randomised velocities stay in bounds and change nothing else',
     'The result is a new track with the same time signature, positions, tones and durations, and every velocity lies in [minimum, maximum] (for minimum <= maximum); the input track is unchanged. '
     'Minimum, maximum and mean outside [0, 1] and a negative (or NaN) variance raise ValueError; everything else is accepted. ',
     ['inputs', 'histories'], 'all tracks, all parameters, all outcomes of the random generator', 'Tests sample a few random outcomes.',
     [RV], ['clamping of the random value'], T + 'the random value is an unknown float', 'Up to 3 notes, unknown parameters, any value of the generator.')
prop('C22', 'Convenience functions equal the classes',
     'The functions for writing (to a file, to bytes) give exactly what a writer with the given tempo and channel and otherwise default settings gives, positionally or by keyword, defaults 120 and 0. '
     'The functions for reading (from a file, from bytes) give what a default reader gives for the same channel argument, including the errors. ',
     ['inputs', 'configurations'], 'all tracks, tempos, channels, files', 'Tests use the functions with defaults.',
     [MIDI], ['delegation with all arguments'], T + 'byte-string domain', 'Unknown tempo and note contents, listed channels.')
prop('C23', 'Calls do not influence each other',
     'The result of an operation depends only on its arguments: reading, writing or parsing notation gives the same result whatever was read, written or parsed before, successfully or not, with the same or another reader or writer. '
     'Tracks share no contents: adding to one track (created, or obtained by reading) changes no other track, existing or future. ',
     ['histories'], 'all histories of calls', 'Tests run each operation once on fresh objects.',
     [MIDI, TRK, TONE], ['no state outside the arguments'], T + 'heap and module state carried across pairs of calls', 'Pairs of calls over files that differ in everything, with unknown contents.')

prop('C24', 'Randomised velocities follow the requested distribution',
     'Before clamping to [minimum, maximum], the velocity of every note is a draw of its own from a normal distribution with the requested mean and variance (the standard deviation is its square root), '
     'independently for every note and every call, whatever velocity the note had. With variance 0 every velocity is the mean, clamped. ',
     ['inputs'], 'all tracks, all parameters, all outcomes of the generator', 'A few samples cannot establish a distribution.',
     [RV], ['random.gauss'], T + 'the velocity as a function of the normal draws of the path', 'Up to 3 notes, fixed parameters; random.gauss and random.normalvariate are trusted to be normal and independent.')
prop('C26', 'The chord generator writes the chord module',
     'Running scripts/generate_chords.py writes a Python module that can be imported and defines every chord function of melodia.music.chord (all names and aliases) with the same behaviour: '
     'the same intervals, bases, defaults and errors. ',
     ['inputs', 'configurations'], 'all chord functions of the generated module, all bases, durations and velocities', 'No test runs the generator; a difference shows only after the next regeneration.',
     ['scripts/generate_chords.py', CH], ['table of chords and templates'], T + 'the text the generator writes is computed by the analysis and analysed as a module in turn', 'All functions with unknown base.')
prop('C27', 'Tracks with the same contents give the same file',
     'Two tracks with the same time signature and equal contents are written to identical bytes (or fail with the same error) by writers with the same settings, whatever the order in which the notes were added, '
     'the denominators in which positions and durations were given, and what was observed in between. ',
     ['inputs', 'histories'], 'all histories of building a track, all writer settings', 'Tests write tracks that were built in one way.',
     [MIDI, TRK], ['sorted iteration', 'exact rescaling'], T + 'files of two histories of the same contents compared', 'Generated pairs of histories of up to 12 notes.')
NA = [
    dict(pid='C25', title='Reading and writing take time linear in the size of the file',
         statement='Reading a file and writing a track take time proportional to their size (up to the logarithmic factor of sorting).',
         over=['inputs'], quant='all sizes', why='Tests use small files and measure no time.', files=[MIDI, TRK], mech=['single pass over the bytes'],
         reason='Cost of library primitives (slicing, bytes concatenation, heap and sort) is a run-time quantity that this analysis does not model.'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P + NA:
            f.write(json.dumps(dict(
                id=p['pid'], title=p['title'], statement=p['statement'].strip(), quantifier=dict(over=p['over'], text=p['quant']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=m, where=p['files'][0]) for m in p['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='python3 -m compileall -q sa >/dev/null 2>&1 || true',
             checks=[dict(property=p['pid'], quick_cmd=f'python3 sa/check.py {p["pid"]}', thorough_cmd=f'python3 sa/check.py {p["pid"]} --tier thorough',
                          technique=p['tech'], level='other', level_note=p['note'] + ' Trusted: the analyser\'s model of Python and of the standard library functions used.') for p in P],
             not_applicable=[dict(property=p['pid'], reason=p['reason']) for p in NA],
             notes='Nothing of /repo is executed: the analyser parses the current source on every run.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
