From a71176889411fcf7814dfeea93dbdadbc9e4b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 1/9] fix: keep operand order when the left signature has the
 smaller denominator

_to_common_denominator returned the two nominators swapped when
self.denominator < other.denominator, so <, <=, > and >= were inverted:
Signature(1, 4) < Signature(4, 8) was False. Track.length was wrong too.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 5607deac9014ac76a0a86bac231de1b00179fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 2/9] fix: tracks with a different number of notes are not
 equal

zip() stops at the shorter track, so a track compared equal to any track
that it is a prefix of (an empty track was equal to every track).
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..83ecb99 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self._heap) != len(other._heap):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From 404700b895b6d33891bcba63a605707f42267acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 3/9] fix: reject tone notation with trailing garbage

Tone.from_notation used match(), so 'C4xyz' was C4 and 'C--1' was C0
instead of the documented ValueError.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From f56eb166ce713f49a66f7919059cb750452d5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 4/9] fix: read all four bytes of the MIDI chunk length

The most significant byte was dropped, so a chunk of 16 MiB or more was
cut at its length modulo 2 ** 24 and the rest was parsed as chunks.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..c97b7a6 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 155eb31630e14d5f26b54a140dfd44ac78be86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 5/9] fix: skip system exclusive events by their length

The bytes object returned by read(1) never equals the integer 0xF7, so the
loop always ran to the end of the data and every file with a system
exclusive event was rejected. In a MIDI file the event has a variable
length prefix, which is what has to be skipped.
---
 src/melodia/io/midi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c97b7a6..b7028d4 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -510,9 +510,7 @@ class MIDIReader:
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
                 elif status == 0xF0:
                     # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                    data.read(MIDIReader._read_var_len(data))
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From cd247314fc1d4d1cf2e52bd08b84c673809c3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 6/9] fix: report running status without a previous status as a
 parsing error

A track whose first event starts with a data byte recursed forever
(RecursionError) instead of raising MIDIParsingError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index b7028d4..2cdb7a1 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -521,6 +521,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: running status without previous status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From f91cc32a3e205ccb0b54781dfb6fa3af25361205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 7/9] fix: report zero division in the MIDI header as a parsing
 error

It reached an assertion (ZeroDivisionError under python -O) as soon as the
track had a note.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 2cdb7a1..8d87da3 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -623,6 +623,8 @@ class MIDIReader:
                     raise MIDIParsingError(f'Unsupported MIDI file: format is {kind}')
                 if n_tracks != 1:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: zero division')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
                 ticks_per_quarter = division
-- 
2.43.0


From 522257cb4e5570f6e8c719f954d44703182bf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 8/9] fix: write tracks with more than 255 pulses per quarter
 note

The writer accepts up to 32767 pulses per quarter note, but put that number
in the one-byte field for MIDI clocks per metronome click, so dump failed
with OverflowError for every track. There are 24 MIDI clocks in a quarter
note whatever the resolution is.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 8d87da3..28331bf 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 8b2c0422fead85a37af57058857b685a06259efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 9/9] fix: skip MIDI tick events

The table entry for tick (0xF9) was written to 0xF8, so the reader rejected
files with it as having an unknown status.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 28331bf..17f871b 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -293,7 +293,7 @@ _event_lengths[0xF6] = 0
 _event_lengths[0xF8] = 0
 
 # Tick
-_event_lengths[0xF8] = 0
+_event_lengths[0xF9] = 0
 
 # MIDI Start
 _event_lengths[0xFA] = 0
-- 
2.43.0

