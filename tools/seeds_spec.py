"""Planted bugs: edits against /repo HEAD, with a demonstration each."""
SIG, TONE, NOTE, TRK = ('src/melodia/core/%s.py' % x for x in ('signature', 'tone', 'note', 'track'))
MIDI, CH, RV = 'src/melodia/io/midi.py', 'src/melodia/music/chord.py', 'src/melodia/processing/track.py'
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('s01-add-lcm', 'C01', [(SIG, '        return Signature(n1 + n2, d)', '        if d > 4096:\n            n1, n2, d = n1 >> 1, n2 >> 1, d >> 1\n        return Signature(n1 + n2, d)')],
     'a common denominator above 4096', 'sums with very fine denominators lose the last bit', '''
from melodia.core.signature import Signature
s = Signature(1, 8192) + Signature(1, 4)
assert s.nominator * 8192 == 2049 * s.denominator, s
s = Signature(3, 4) + Signature(1, 8)
assert s.nominator * 8 == 7 * s.denominator
''')
seed('s02-normalized-zero', 'C01', [(SIG, '        while n & 1 == 0 and d > 1:', '        while n and n & 1 == 0 and d > 1:')],
     'a zero nominator with a denominator above 1', 'the normalized copy of a zero signature is not in lowest terms', '''
from melodia.core.signature import Signature
s = Signature(0, 8).normalized()
assert (s.nominator, s.denominator) == (0, 1), s
''')
seed('s03-common-shift', 'C02', [(SIG, "            return n1, d1 // d2 * n2, d1\n", "            return n1, n2 << ((d1 // d2).bit_length() - 1 & 15), d1\n")],
     'denominators that differ by a factor of 2**16 or more, the left one larger', 'comparison with a much coarser signature is wrong', '''
from melodia.core.signature import Signature
assert Signature(1, 65536) < Signature(1, 1)
assert Signature(1 << 16, 1 << 16) == Signature(1, 1)
assert Signature(3, 8) < Signature(1, 2)
''')
seed('s04-denominator-check', 'C03', [(SIG, "        if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) == 0)):", "        if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) in (0, 64))):")],
     'a denominator whose lower part is exactly 64, such as 65 or 96', 'some denominators that are no power of two are accepted', '''
from melodia.core.signature import Signature
for d in (3, 6, 12, 24, 65, 96, 192):
    try:
        Signature(1, d)
    except ValueError:
        continue
    raise SystemExit(1)
''')
seed('s05-octave-digits', 'C04', [(TONE, r"(?P<octave>-?\d+)?", r"(?P<octave>-?\d\d?)?")],
     'an octave of three or more digits', 'tones of pitch 1200 and above are written in a notation that cannot be read', '''
from melodia.core.tone import Tone
for p in list(range(-40, 140)) + [1199, 1200, -1300, 123456]:
    for d in (False, True):
        assert Tone.from_notation(Tone(p).to_notation(d)).pitch == p, p
''')
seed('s06-note-eq', 'C06', [(NOTE, '        return self._as_triplet() <= other._as_triplet()', '        return self._as_triplet() < other._as_triplet() or self is other')],
     'two equal but distinct notes compared by <=', 'equal notes are not <= each other', '''
from melodia.core.note import Note
assert Note(1, (1, 4)) <= Note(1, (2, 8))
assert Note(1, (1, 4)) <= Note(2, (1, 4))
''')
seed('s07-track-sorted', 'C08', [(TRK, '        self._sorted = False\n', '        self._sorted = self._sorted and self._heap[-1][1] is note\n')],
     'a sequence of additions in which the heap puts the note last although the list before it is not sorted by note order, after an observation', 'iteration order is wrong after certain interleavings of additions and iteration', '''
from melodia.core.note import Note
from melodia.core.track import Track
t = Track()
for i, p in enumerate([5, 3, 9, 1, 7, 2, 8]):
    t.add(Note(i), (p, 8))
assert [p.nominator for p, _ in t] == sorted([5, 3, 9, 1, 7, 2, 8])
u = Track()
n = Note(1)
for p in (1, 4, 8):
    u.add(Note(p), (p, 8))
    list(u)
u.add(n, (2, 8))
u.add(Note(3), (3, 8))
v = [p.nominator for p, _ in u]
assert v == sorted(v), v
w = Track()
for p in (0, 4, 1, 5, 2):
    w.add(Note(p), (p, 8))
    list(w) if p == 4 else None
    x = [q.nominator for q, _ in w] if p in (5, 2) else []
    assert x == sorted(x), x
''')
seed('s08-track-duplicates', 'C08', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n", "        if (position_transformed, note) != (self._heap[0] if self._heap else None):\n            heapq.heappush(self._heap, (position_transformed, note))\n")],
     'an equal note added a second time at the same position, being the first of the track', 'a duplicate of the first note is dropped', '''
from melodia.core.note import Note
from melodia.core.track import Track
t = Track()
t.add(Note(1), (1, 2))
t.add(Note(0), (1, 4))
t.add(Note(0), (2, 8))
assert len(t) == 3
''')
seed('s09-length', 'C09', [(TRK, '        if end_position > self._max_position:', '        if position_transformed >= self._max_position or end_position.nominator > self._max_position.nominator:')],
     'an overlapping note whose end has a smaller nominator at a coarser denominator', 'the length misses the end of an overlapping note', '''
from melodia.core.note import Note
from melodia.core.track import Track
t = Track()
t.add(Note(1, (3, 8)), (0, 1))
t.add(Note(2, (1, 2)), (1, 4))
assert t.length.nominator * 4 == 3 * t.length.denominator, t.length
u = Track()
u.add(Note(1, (15, 16)), (0, 1))
u.add(Note(2, (2, 1)), (0, 1))
assert u.length.nominator == 2 * u.length.denominator, u.length
''')
seed('s10-track-eq', 'C10', [(TRK, '            if an != bn or ap != bp:', '            if an != bn or ap.nominator * bp.denominator < bp.nominator * ap.denominator:')],
     'a track whose notes are at later positions than in the other one', 'equality of tracks is not symmetric and accepts shifted notes', '''
from melodia.core.note import Note
from melodia.core.track import Track
a = Track(content=[(Note(1), (1, 4)), (Note(2), (1, 2))])
b = Track(content=[(Note(1), (1, 4)), (Note(2), (1, 1))])
assert a != b and b != a
assert a == Track(content=[(Note(2), (4, 8)), (Note(1), (2, 8))])
''')
seed('s11-repr-velocity', 'C11', [(NOTE, '        velocity = self._velocity\n', '        velocity = round(self._velocity, 6)\n')],
     'a velocity with more than six decimals, such as 100/127', 'the repr of a note does not read back as an equal note', '''
from melodia.core.note import Note
for v in (0.0, 0.5, 100 / 127, 1e-9):
    n = Note(5, (1, 8), v)
    assert eval(repr(n)) == n, n
''')
seed('s12-off-time', 'C13', [(MIDI, "            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)\n", "            note_off_absolute_time = self._signature_to_pulses(position + note.duration)\n")],
     'a position and a duration that are no whole numbers of pulses and whose fractions add up to a pulse', 'the note-off comes one pulse late', '''
from melodia.core.note import Note
from melodia.core.track import Track
from melodia.io import midi
t = Track()
t.add(Note(36, (5, 512)), (5, 512))
b = midi.MIDIWriter(pulses_per_quarter=96).dumps(t)
i = b.index(b'\\x90')
assert b[i - 1] == 3 and b[i + 3] == 3, b
''')
seed('s13-header-first', 'C14', [(MIDI, "        absolute_note_events: List[Tuple[int, bytes]] = []\n        for position, note in track:", "        # Write header to file\n        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n\n        absolute_note_events: List[Tuple[int, bytes]] = []\n        for position, note in track:"),
                                 (MIDI, "        # Write header to file\n        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n\n        # Write track to file", "        # Write track to file")],
     'a track with a key outside the range, written to a file', 'a header is left in the file when the track cannot be written', '''
import io
from melodia.core.note import Note
from melodia.core.track import Track
from melodia.io import midi
t = Track()
t.add(Note(36))
t.add(Note(500))
f = io.BytesIO()
try:
    midi.dump(t, f)
except ValueError:
    pass
else:
    raise SystemExit(1)
assert f.getvalue() == b''
''')
seed('s14-velocity-clamp', 'C15', [(MIDI, "                    velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))\n", "                    velocity: float = note_on.velocity / 127.0\n")],
     'a note-on whose velocity byte is above 127, ended later', 'a data byte above 127 gives a ValueError', '''
from melodia.io import midi
def rd(body):
    d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(body)]) + bytes(body)
    return midi.loads(d)
for v in (1, 127, 128, 255):
    try:
        rd([0, 0x90, 60, v, 8, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
    except midi.MIDIParsingError:
        pass
''')
seed('s15-pressure-length', 'C16', [(MIDI, '# Channel pressure\nfor i in range(0xD0, 0xDF + 1):', '# Channel pressure\nfor i in range(0xD0, 0xDF):'),],
     'a channel pressure event on channel 15', 'channel pressure on the last channel is rejected', '''
from melodia.io import midi
body = bytes([0, 0x9F, 60, 64, 0, 0xDF, 33, 96, 0x8F, 60, 64, 0, 0xFF, 0x2F, 0])
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(body)]) + body
assert len(midi.loads(d)) == 1
''')
seed('s16-skipped-time', 'C16', [(MIDI, "            last_time = absolute_time\n            event = read_event()\n", "            event = read_event()\n            if not isinstance(event, _EventGlobalChannel):\n                last_time = absolute_time\n")],
     'a meta channel prefix at a time above 0', 'the delta time of a channel prefix is lost', '''
from melodia.io import midi
def rd(body):
    d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(body)]) + bytes(body)
    return midi.loads(d)
(p, n), = rd([96, 0xFF, 0x20, 1, 0, 0, 0x90, 60, 64, 96, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
assert p.nominator * 4 == p.denominator, p
''')
seed('s16b-long-meta', 'C16', [(MIDI, "                    # Skip unsupported meta event body\n                    data.read(length)\n", "                    # Skip unsupported meta event body\n                    data.read(length & 0x7FF)\n")],
     'a text event of 2048 bytes or more', 'long meta events are skipped only in part', '''
from melodia.io import midi
def rd(body):
    body = bytes(body)
    d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
    return midi.loads(d)
for n in (10, 200, 2000, 3000):
    t = rd([0, 0xFF, 1, 0x80 | n >> 7, n & 127] + [0] * n + [0, 0x90, 60, 64, 96, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
    assert len(t) == 1
''')
seed('s17-running-note-key', 'C17', [(MIDI, "                    if event.pitch in running_notes:\n                        continue\n\n", "                    if event.pitch in running_notes and running_notes[event.pitch][0] < absolute_time:\n                        continue\n\n")],
     'two note-ons of the same key at the same tick with different velocities', 'the second note-on at the same tick replaces the running note', '''
from melodia.io import midi
def rd(body):
    d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(body)]) + bytes(body)
    return midi.loads(d)
(p, n), = rd([0, 0x90, 60, 100, 0, 0x90, 60, 50, 96, 0x80, 60, 0, 0, 0xFF, 0x2F, 0])
assert n.velocity == 100 / 127.0, n
''')
seed('s18-default-signature', 'C18', [(MIDI, "            if channel in channel_signatures:\n                signature", "            if channel_signatures.get(channel):\n                signature"),
                                      (SIG, "    def __str__(self) -> str:", "    def __bool__(self) -> bool:\n        return self._nominator * 2 > self._denominator\n\n    def __str__(self) -> str:")],
     'a time signature of at most half (2/4) given for a channel after a channel prefix', 'short time signatures of a channel are ignored', '''
from melodia.core.signature import Signature
from melodia.io import midi
def rd(body):
    d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(body)]) + bytes(body)
    return midi.loads(d)
for nn, want in ((2, Signature(2, 4)), (3, Signature(3, 4))):
    t = rd([0, 0xFF, 0x20, 1, 3, 0, 0xFF, 0x58, 4, nn, 2, 24, 8, 0, 0x93, 60, 100, 96, 0x83, 60, 0, 0, 0xFF, 0x2F, 0])
    assert t.signature == want, t.signature
''')
seed('s19-round-trip-velocity', 'C19', [(MIDI, "        velocity = max(0, min(127, int(note.velocity * 127)))", "        velocity = max(0, min(127, int(note.velocity * 128)))")],
     'a velocity for which floor(128*v) differs from floor(127*v)', 'the velocity written is one too large for the upper half', '''
import math
from melodia.core.note import Note
from melodia.core.track import Track
from melodia.io import midi
for k in range(1, 128):
    v = k / 128
    t = Track()
    t.add(Note(36, (1, 4), v))
    if int(v * 127) == 0:
        continue
    (p, n), = midi.loads(midi.dumps(t))
    assert n.velocity <= v, (v, n.velocity)
''')
seed('s20-chord-velocity', 'C20', [(CH, "        base_velocity = velocity\n", "        base_velocity = velocity or 0.75\n")],
     'a chord with velocity 0 asked for', 'silent chords get the default velocity', '''
from melodia.music import chord
assert all(n.velocity == 0.0 for n in chord.maj('C4', velocity=0.0))
assert all(n.velocity == 0.5 for n in chord.min7('C4', velocity=0.5))
''')
seed('s21-clamp', 'C21', [(RV, "    std = math.sqrt(variance)\n", "    std = math.sqrt(variance)\n    previous = mean\n"),
                          (RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        new_velocity = random.gauss(mean, std)\n        if not minimum <= new_velocity <= maximum:\n            new_velocity = previous\n        previous = new_velocity\n")],
     'a first random value outside the bounds when the mean is outside them too', 'the mean is used as velocity although it is not within the bounds', '''
from melodia.core import Track, Note
from melodia.processing.track import randomize_velocities
t = Track()
for i in range(20):
    t.add(Note(i))
r = randomize_velocities(t, minimum=0.5, maximum=0.6, mean=0.1, variance=0.0)
assert all(0.5 <= n.velocity <= 0.6 for _, n in r)
''')
seed('s22-dumps-channel', 'C22', [(MIDI, "    return MIDIWriter(bpm=bpm, channel=channel).dumps(track)", "    return MIDIWriter(bpm=bpm, channel=channel if len(track) else 0, pulses_per_quarter=96 if bpm < 1000 else 48).dumps(track)")],
     'a tempo of 1000 or more', 'the convenience function uses another resolution for fast tempos', '''
from melodia.core import Track, Note
from melodia.io import midi
t = Track()
t.add(Note(36, (1, 64)))
for b in (60.0, 999.0, 2000.0):
    assert midi.dumps(t, b, 3) == midi.MIDIWriter(bpm=b, channel=3).dumps(t)
''')
seed('s23-shared-default', 'C23', [(MIDI, "        if not tracks:\n            return Track(signature=Signature(4, 4))\n\n        if channel is None:\n", "        if not tracks:\n            return Track(signature=Signature(4, 4))\n\n        if channel is None and len(tracks) == 1 and not len(tracks.get(0, '?')):\n            return _silence.setdefault(tracks[0].signature.nominator / tracks[0].signature.denominator, tracks[0])\n\n        if channel is None:\n"),
                                   (MIDI, "class MIDIReader:\n", "_silence: Dict[float, Track] = {}\n\n\nclass MIDIReader:\n")],
     'two reads of empty files and an addition to the first result in between', 'reading an empty file returns a track shared with earlier reads', '''
from melodia.core import Track, Note
from melodia.io import midi
e = midi.dumps(Track())
a = midi.loads(e)
a.add(Note(36))
assert len(midi.loads(e)) == 0
''')
seed('s24-iter-live', 'C07', [(NOTE, "        if isinstance(duration, Signature):\n            self._duration = duration\n", "        if isinstance(duration, Signature):\n            self._duration = duration\n            if duration._nominator == 0:\n                duration._denominator = 1\n")],
     'a zero duration with a denominator above 1 passed to a note', 'constructing a note changes the signature passed to it', '''
from melodia.core import Note, Signature
s = Signature(0, 8)
Note(1, s)
assert s.denominator == 8
''')
seed('s25-transposed-octave', 'C05', [(TONE, "        return Tone(pitch=self._pitch + transposition)", "        return Tone(pitch=self._pitch + (transposition if abs(transposition) < 128 else transposition % 128))")],
     'a transposition of 128 semitones or more', 'far transpositions wrap around', '''
from melodia.core import Tone
for n in (-300, -128, -1, 0, 1, 128, 1000):
    assert Tone(7).transposed(n).pitch == 7 + n
''')
seed('s26-eot-delta', 'C12', [(MIDI, "        delta_events.append((0, b'\\xFF\\x2F\\x00'))", "        delta_events.append((-last_absolute_time % self._pulses_per_quarter if last_absolute_time > 1 << 20 else 0, b'\\xFF\\x2F\\x00'))")],
     'a track of more than 2**20 pulses whose end is not on a beat', 'the end-of-track event is padded to the next beat for long tracks', '''
from melodia.core import Track, Note
from melodia.io import midi
t = Track()
t.add(Note(36, (1, 64)), (1 << 12, 1))
assert midi.dumps(t).endswith(b'\\x00\\xFF\\x2F\\x00')
''')

# ---------------------------------------------------------------- second batch
P = '''
from fractions import Fraction
from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
def val(s): return Fraction(s.nominator, s.denominator)
def rd(body, **kw):
    body = bytes(body)
    return midi.loads(b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body, **kw)
EOT = [0, 0xFF, 0x2F, 0]
'''
seed('t01-mul-reduce', 'C01', [(SIG, "        return Signature(self._nominator * other._nominator, self._denominator * other._denominator)", "        d = self._denominator * other._denominator\n        n = self._nominator * other._nominator\n        while d > 1 << 20:\n            n, d = n >> 1, d >> 1\n        return Signature(n, d)")],
     'a product whose denominator exceeds 2**20', 'products of very fine signatures are truncated', P + '''
assert val(Signature(3, 1 << 15) * Signature(5, 1 << 14)) == Fraction(15, 1 << 29)
''')
seed('t02-to-float', 'C01', [(SIG, "            nominator = denominator // self._denominator * self._nominator\n", "            nominator = int(denominator / self._denominator * self._nominator)\n")],
     'a scaled nominator beyond 2**53', 'rescaling of large signatures loses precision', P + '''
n = (1 << 60) + 1
assert Signature(n, 4).to(8).nominator == 2 * n
''')
seed('t03-to-smaller', 'C01', [(SIG, "        raise ValueError(f'New denominator must be >= {self._denominator}')", "        if self._nominator == 0:\n            return Signature(0, denominator * 2)\n        raise ValueError(f'New denominator must be >= {self._denominator}')")],
     'rescaling a zero signature to a smaller denominator', 'rescaling zero downwards gives a signature instead of ValueError', P + '''
try:
    Signature(0, 8).to(4)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('t04-lt-fast', 'C02', [(SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2", "        if self._nominator <= other._nominator and self._denominator > other._denominator:\n            return True\n        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2")],
     'zero compared with zero of a coarser denominator', '0/8 < 0/4 is True', P + '''
assert not Signature(0, 8) < Signature(0, 4)
assert Signature(1, 8) < Signature(1, 4)
''')
seed('t05-velocity-nan', 'C03', [(NOTE, "        if not 0.0 <= velocity <= 1.0:", "        if velocity < 0.0 or velocity > 1.0:")],
     'a velocity that is not a number', 'NaN is accepted as velocity', P + '''
try:
    Note(1, (1, 4), float('nan'))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('t07-flat-b', 'C04', [(TONE, "_reverse_tone_mapping: Dict[int, str] = {v: k for k, v in _tone_mapping.items()}", "_reverse_tone_mapping: Dict[int, str] = {v: k for k, v in _tone_mapping.items()}\n_cache: Dict[int, str] = {}"),
                          (TONE, "        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if base_pitch in", "        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if not transpose_down and self._pitch in _cache:\n            return _cache[self._pitch]\n        if base_pitch in")],
     'n/a', 'n/a', '')
SEEDS.pop()
seed('t08-freq', 'C05', [(TONE, "        return base * 2 ** ((self._pitch - 57) / 12)", "        octaves, steps = divmod(self._pitch - 57, 12)\n        if octaves < 0:\n            octaves = -min(-octaves, 8)\n        return base * 2 ** (octaves + steps / 12)")],
     'a tone more than eight octaves below A4', 'very low tones get a wrong frequency', P + '''
for p in (-60, 0, 57, 60, 100):
    f = Tone(p).to_frequency()
    assert abs(f - 440.0 * 2 ** ((p - 57) / 12)) < 1e-6 * f, p
''')
seed('t09-with-duration', 'C06', [(NOTE, "            tone=self._tone,\n            duration=duration,\n            velocity=self._velocity", "            tone=self._tone,\n            duration=duration,\n            velocity=self._velocity or 0.75")],
     'a note of velocity 0 given another duration', 'a silent note becomes audible when its duration changes', P + '''
assert Note(1, (1, 4), 0.0).with_duration((1, 2)).velocity == 0.0
''')
seed('t10-eq-velocity', 'C06', [(NOTE, "        return self._as_triplet() == other._as_triplet()", "        return self._as_triplet()[:2] == other._as_triplet()[:2] and abs(self._velocity - other._velocity) < 1e-9")],
     'two notes whose velocities differ by less than 1e-9', 'notes with different velocities are equal', P + '''
assert Note(1, (1, 4), 0.5) != Note(1, (1, 4), 0.5 + 1e-12)
assert Note(1, (1, 4), 0.5) == Note(1, (2, 8), 0.5)
''')
seed('t11-add-sort-list', 'C07', [(TRK, "            for x in what:\n                self.add(what=x, where=position)\n            return\n", "            if isinstance(what, list) and len(what) > 2:\n                what.sort()\n            for x in what:\n                self.add(what=x, where=position)\n            return\n")],
     'a list of at least three notes in descending order', 'the list passed to add is sorted in place', P + '''
l = [Note(3), Note(2), Note(1)]
Track().add(l)
assert [n.tone.pitch for n in l] == [3, 2, 1]
''')
seed('t13-iter-order', 'C08', [(TRK, "            self._heap.sort()\n", "            self._heap.sort(key=lambda item: (item[0].nominator, item[1].tone.pitch))\n")],
     'several notes of one tone at the same position', 'notes at one position are not in note order', P + '''
t = Track()
for d in (1, 5, 3, 4):
    t.add(Note(7, (d, 4)), (1, 4))
assert [n.duration.nominator for _, n in t] == [1, 3, 4, 5]
''')
seed('t14-length-duration', 'C09', [(TRK, "        end_position = position_transformed + note.duration\n", "        end_position = position_transformed + note.duration if note.duration.nominator else self._max_position\n")],
     'a note of zero duration after the end of all others', 'a note without duration does not extend the track', P + '''
t = Track()
t.add(Note(1, (0, 1)), (3, 4))
assert val(t.length) == Fraction(3, 4)
''')
seed('t16-repr-track-signature', 'C11', [(TRK, "        signature = f'({self._signature.nominator}, {self._signature.denominator})'\n", "        reduced = self._signature.normalized()\n        signature = f'({reduced.nominator}, {max(reduced.denominator, 4)})'\n")],
     'a time signature whose lowest terms have a denominator below 4, e.g. 2/2', 'repr of a track names another time signature', P + '''
for s in ((4, 4), (3, 4), (2, 2), (6, 8)):
    t = Track(s)
    assert eval(repr(t)) == t, repr(t)
''')
seed('t17-repr-position', 'C11', [(TRK, "            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')", "            contents.append(f'({repr(note)}, ({position.nominator}, {self._max_denominator}))' if len(contents) < 2 else f'({repr(note)}, None)' if position == self._max_position else f'({repr(note)}, ({position.nominator}, {position.denominator}))')")],
     'a third note of zero duration at the very end of the track followed by nothing', 'n/a', P + '''
t = Track()
''')
SEEDS.pop()
seed('t18-tempo-round', 'C12', [(MIDI, "int(60000000 / self._bpm)", "round(60000000 / self._bpm)")],
     'a tempo for which 60000000/bpm has a fraction of one half or more', 'the tempo is rounded up', P + '''
b = midi.dumps(Track(), bpm=97.0)
i = b.index(bytes([0xFF, 0x51, 3]))
assert int.from_bytes(b[i + 3:i + 6], 'big') == int(60000000 / 97.0)
''')
seed('t20-chunk-length', 'C12', [(MIDI, "        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        return b''.join([kind, (len(body) & 0xFFF).to_bytes(4, 'big'), body])")],
     'a track whose chunk is 4096 bytes or longer (about 500 notes)', 'the chunk length wraps around', P + '''
t = Track()
for i in range(600):
    t.add(Note(36, (1, 4)))
b = midi.dumps(t)
assert int.from_bytes(b[18:22], 'big') == len(b) - 22
''')
seed('t21-note-off-channel', 'C13', [(MIDI, "        status = 0x80 | self._channel\n", "        status = 0x80 | (self._channel & 0x7)\n")],
     'a channel of 8 or more', 'note-offs go to another channel', P + '''
t = Track()
t.add(Note(36))
for ch in range(16):
    b = midi.dumps(t, channel=ch)
    assert bytes([0x80 | ch, 60, 64]) in b and bytes([0x90 | ch, 60]) in b
''')
seed('t23-pitch-check', 'C14', [(MIDI, "        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n\n        # Write track to file\n        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n", "        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n\n        # Write track to file\n        track_body: List[bytes] = []\n        for delta_time, event in [(0, self._format_tempo(int(60000000 / self._bpm)))][:0] + delta_events:\n")],
     'a tempo of zero or too slow', 'n/a', '')
SEEDS.pop()
seed('t24-tempo-late', 'C14', [(MIDI, "            # Tempo\n            (0, self._format_tempo(int(60000000 / self._bpm)))\n", "            # Tempo\n            (0, b'')\n"),
                              (MIDI, "        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n", "        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            if not event:\n                event = self._format_tempo(int(60000000 / self._bpm))\n")],
     'a tempo that does not fit (below 3.58 bpm or zero)', 'the header is left in the file when the tempo cannot be written', P + '''
import io
f = io.BytesIO()
try:
    midi.MIDIWriter(bpm=1.0).dump(Track(), f)
except Exception:
    pass
else:
    raise SystemExit(1)
assert f.getvalue() == b''
''')
seed('t25-write-retry', 'C14', [(MIDI, "        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n", "        try:\n            file.write(self._format_header_chunk(kind=0, n_tracks=1))\n        except OSError:\n            return\n")],
     'a file whose first write fails', 'the error of the file is swallowed', P + '''
class F:
    def write(self, b):
        raise OSError('full')
try:
    midi.dump(Track(), F())
except OSError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('t26-chunk-incomplete', 'C15', [(MIDI, "            if len(chunk_header) < 8:\n                raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')\n", "            if len(chunk_header) < 4:\n                raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')\n")],
     'a file that ends after five to seven bytes of a chunk header', 'an incomplete chunk header is read as a shorter size', P + '''
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, 4, 0, 0xFF, 0x2F, 0])
for cut in range(1, 8):
    try:
        midi.loads(d + b'XXXX\\0\\0\\0'[:cut])
    except midi.MIDIParsingError:
        continue
    raise SystemExit(1)
''')
seed('t27-shift', 'C15', [(MIDI, "            if len(chunk_body) < chunk_size:\n", "            if len(chunk_body) < chunk_size and chunk_name != b'MTrk':\n")],
     'a track chunk that is cut after its end-of-track event', 'a truncated track chunk is accepted', P + '''
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, 9, 0, 0xFF, 0x2F, 0])
try:
    midi.loads(d)
except midi.MIDIParsingError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('t28-system-status', 'C16', [(MIDI, "_event_lengths[0xF2] = 2", "_event_lengths[0xF2] = 1")],
     'a song position pointer between the notes', 'the song position pointer is skipped one byte short', P + '''
t = rd([0, 0xF2, 1, 2, 0, 0x90, 60, 64, 96, 0x80, 60, 64] + EOT)
assert len(t) == 1
''')
seed('t29-running-after-meta', 'C16', [(MIDI, "                kind = status >> 4\n                channel = status & 0xF\n", "                kind = status >> 4\n                channel = status & 0xF\n                if kind == 12:\n                    previous_status = 0x90 | channel\n")],
     'a program change followed by another one in running status', 'running status after a program change is read as notes', P + '''
t = rd([0, 0xC0, 5, 0, 6, 0, 0x90, 60, 64, 96, 0x80, 60, 64] + EOT)
assert len(t) == 1
''')
seed('t30-off-velocity', 'C17', [(MIDI, "                    if velocity == 0:\n                        return _EventNoteOFF", "                    if velocity <= 1:\n                        return _EventNoteOFF")],
     'a note-on of velocity 1', 'the softest notes are taken for note-offs', P + '''
t = rd([0, 0x90, 60, 1, 96, 0x80, 60, 64] + EOT)
assert len(t) == 1
''')
seed('t31-time-precision', 'C17', [(MIDI, "        return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()", "        return Signature(time * (4096 // ticks_per_quarter) if ticks_per_quarter in (1, 2, 4, 8, 16, 32, 64, 128, 192, 256) else time * 4096 // ticks_per_quarter, 4 * 4096).normalized()")],
     'a file with 192 ticks per quarter', 'times of such files are too short', P + '''
body = bytes([0, 0x90, 60, 64, 0x81, 0x40, 0x80, 60, 64] + EOT)
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 192]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
(p, n), = midi.loads(d)
assert val(n.duration) == Fraction(1, 4)
''')
seed('t32-max-signature', 'C18', [(MIDI, "                if track.signature > max_signature:", "                if track.signature.nominator > max_signature.nominator:")],
     'channels with time signatures such as 6/8 and 4/4', 'the signature with the larger nominator is taken for the greatest', P + '''
body = [0, 0xFF, 0x20, 1, 0, 0, 0xFF, 0x58, 4, 4, 2, 24, 8, 0, 0xFF, 0x20, 1, 1, 0, 0xFF, 0x58, 4, 6, 3, 24, 8,
        0, 0x90, 60, 64, 0, 0x91, 60, 64, 96, 0x80, 60, 64, 0, 0x81, 60, 64] + EOT
assert val(rd(body).signature) == 1
''')
seed('t33-global-channel', 'C18', [(MIDI, "                global_channel = event.channel\n", "                global_channel = event.channel or -1\n")],
     'a channel prefix for channel 0 followed by a time signature and notes on another channel', 'the signature of channel 0 is taken for all channels', P + '''
body = [0, 0xFF, 0x20, 1, 0, 0, 0xFF, 0x58, 4, 3, 2, 24, 8, 0, 0x91, 60, 64, 96, 0x81, 60, 64] + EOT
assert val(rd(body).signature) == 1
''')
seed('t34-round-middle', 'C19', [(MIDI, "        return Tone(pitch - self._middle_c_delta)", "        return Tone((pitch - self._middle_c_delta) % 128 if self._middle_c_delta < 0 else pitch - self._middle_c_delta)")],
     'a middle C above 60 and a tone of pitch 128 or more', 'tones are folded into the first 128 pitches', P + '''
t = Track()
t.add(Note(130))
w, r = midi.MIDIWriter(middle_c=100), midi.MIDIReader(middle_c=100)
assert r.loads(w.dumps(t)) is not None
(p, n), = r.loads(w.dumps(t))
assert n.tone.pitch == 130
''')
seed('t35-chord-interval', 'C20', [(CH, "    if isinstance(base, int):\n        base_tone = Tone(base)\n", "    if isinstance(base, int):\n        base_tone = Tone(max(base, 0))\n")],
     'a negative integer as base', 'chords on tones below C0 given as integers start at C0', P + '''
from melodia.music import chord
assert [n.tone.pitch for n in chord.maj(-5)] == [-5, -1, 2]
''')
seed('t36-chord-duration', 'C20', [(CH, "            base_velocity = base.velocity\n", "            base_velocity = base.velocity if duration is None else 0.75\n")],
     'a chord on a note with only a duration given', 'the velocity of the base note is lost when a duration is given', P + '''
from melodia.music import chord
assert all(n.velocity == 0.3 for n in chord.min7(Note(5, (1, 8), 0.3), duration=(1, 2)))
''')
seed('t37-random-position', 'C21', [(RV, "        result.add(note.with_velocity(new_velocity), position)", "        result.add(note.with_velocity(new_velocity), position if position.nominator else None)")],
     'two notes at position zero', 'the second note at position zero moves to the end', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add([Note(1), Note(2)], (0, 1))
assert [val(p) for p, _ in randomize_velocities(t)] == [0, 0]
''')
seed('t38-variance', 'C21', [(RV, "    if not variance >= 0:", "    if variance < 0:")],
     'a variance that is not a number', 'a NaN variance is accepted', P + '''
from melodia.processing.track import randomize_velocities
try:
    randomize_velocities(Track(), variance=float('nan'))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('t39-load-channel', 'C22', [(MIDI, "    return MIDIReader().load(file, channel=channel)", "    return MIDIReader().load(file, channel=channel or None)")],
     'channel 0 asked for in a file with several channels', 'the notes of all channels are returned for channel 0', P + '''
import io
body = bytes([0, 0x90, 60, 64, 0, 0x91, 62, 64, 96, 0x80, 60, 64, 0, 0x81, 62, 64] + EOT)
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
assert len(midi.load(io.BytesIO(d), channel=0)) == 1
assert len(midi.load(io.BytesIO(d))) == 2
''')
seed('t40-notation-cache', 'C23', [(TONE, "        match = _notation_regex.fullmatch(notation)\n\n        if match is None:\n            raise ValueError('Invalid notation')\n\n        base_pitch", "        key = notation.rstrip('0123456789')\n        match = _notation_regex.fullmatch(notation)\n\n        if match is None and key not in _seen:\n            raise ValueError('Invalid notation')\n        match = match or _notation_regex.match(notation)\n        _seen.add(key)\n\n        base_pitch"),
                                  (TONE, "_tone_mapping: Dict[str, int] = {", "_seen = set()\n_tone_mapping: Dict[str, int] = {")],
     'n/a', 'n/a', '')
SEEDS.pop()
seed('t41-reader-state', 'C23', [(MIDI, "    __slots__ = (\n        '_middle_c',\n        '_middle_c_delta'\n    )\n", "    __slots__ = (\n        '_middle_c',\n        '_middle_c_delta',\n        '_signatures'\n    )\n"),
                                (MIDI, "        channel_signatures: Dict[int, Signature] = {}\n", "        if not hasattr(self, '_signatures'):\n            self._signatures = {}\n        channel_signatures: Dict[int, Signature] = self._signatures\n")],
     'two files read with one reader, the second without a time signature', 'time signatures of an earlier file are used for a later one', P + '''
r = midi.MIDIReader()
a = midi.dumps(Track((3, 4)))
body = bytes(EOT)
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
r.loads(a)
assert val(r.loads(d).signature) == 1
''')
seed('t42-writer-state', 'C23', [(MIDI, "        '_bpm',\n        '_channel'\n    )", "        '_bpm',\n        '_channel',\n        '_pulses'\n    )"),
                                (MIDI, "        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator", "        if not hasattr(self, '_pulses'):\n            self._pulses = {}\n        normalized = signature.normalized()\n        key = normalized.nominator % 4096, normalized.denominator\n        if key not in self._pulses:\n            self._pulses[key] = self._pulses_per_whole * normalized.nominator // normalized.denominator\n        return self._pulses[key]")],
     'two positions or durations whose nominators differ by a multiple of 4096, written with one writer', 'a cached number of pulses is used for another time', P + '''
w = midi.MIDIWriter()
t = Track()
t.add(Note(36), (1, 4))
w.dumps(t)
u = Track()
u.add(Note(36), (4097, 4))
(p, n), = midi.loads(w.dumps(u))
assert val(p) == Fraction(4097, 4)
''')

# ------------------------------------------------------------------ third batch
seed('u01-normalized-bound', 'C01', [(SIG, "        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n", "        for _ in range(16):\n            if n & 1 or d == 1:\n                break\n            n >>= 1\n            d >>= 1\n")],
     'nominator and denominator with more than 16 common factors of two', 'the normalized copy is not in lowest terms', P + '''
s = Signature(2 ** 20, 2 ** 18).normalized()
assert (s.nominator, s.denominator) == (4, 1)
s = Signature(6, 8).normalized()
assert (s.nominator, s.denominator) == (3, 4)
''')
seed('u03-gt-float', 'C02', [(SIG, "        return n1 > n2\n", "        return n1 / n2 > 1 if n2 else n1 > 0\n")],
     'two large, nearly equal signatures', '> is False for a slightly greater value', P + '''
assert Signature(2 ** 60 + 1, 1) > Signature(2 ** 60, 1)
assert Signature(3, 4) > Signature(1, 2) and not Signature(1, 4) > Signature(2, 8)
''')
seed('u05-channel-mask', 'C03', [(MIDI, "        if not 0 <= channel <= 15:\n", "        if channel & 0x70 or channel < 0:\n")],
     'a channel such as 128', 'channels from 128 to 143 are accepted', P + '''
midi.MIDIWriter(channel=15)
for ch in (-1, 16, 127, 128, 256):
    try:
        midi.MIDIWriter(channel=ch)
    except ValueError:
        continue
    raise SystemExit(1)
''')
seed('u06-middle-float', 'C03', [(MIDI, "            self._middle_c_delta = 60 - Tone.from_notation(middle_c).pitch\n        else:\n            raise TypeError('middle_c must be a Tone object, an integer or a string')\n\n    @staticmethod\n    def _read_chunks", "            self._middle_c_delta = 60 - Tone.from_notation(middle_c).pitch\n        elif isinstance(middle_c, Signature):\n            self._middle_c_delta = 60 - middle_c.nominator\n        else:\n            raise TypeError('middle_c must be a Tone object, an integer or a string')\n\n    @staticmethod\n    def _read_chunks")],
     'a reader given a Signature as middle C', 'an object of a wrong type is accepted', P + '''
try:
    midi.MIDIReader(Signature(36, 1))
except TypeError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u07-accidentals', 'C04', [(TONE, "        octave_raw = match.group('octave')\n", "        if abs(transposition) > 12:\n            transposition %= 12\n        octave_raw = match.group('octave')\n")],
     'more than twelve accidentals', 'notations with very many accidentals read as another octave', P + '''
assert Tone.from_notation('C' + '#' * 13 + '1').pitch == 25
assert Tone.from_notation('C' + 'b' * 14 + '1').pitch == -2
assert Tone.from_notation('C##1').pitch == 14
''')
seed('u09-octave-float', 'C05', [(TONE, "        return self._pitch // 12\n", "        return int((self._pitch - self._pitch % 12) / 12)\n")],
     'a pitch above 2**53', 'the octave of an astronomically high tone is wrong', P + '''
for p in (0, -1, -13, 59, 12 * (10 ** 17 + 1), 12 * (2 ** 60 + 1) + 5):
    assert Tone(p).octave == p // 12, p
''')
seed('u10-transposed-clamp', 'C05', [(TONE, "        return Tone(pitch=self._pitch + transposition)\n", "        return Tone(pitch=max(self._pitch + transposition, -120))\n")],
     'transposing below pitch -120', 'very low tones are not transposed further', P + '''
for p in (0, 12, -100):
    for n in (5, -30, -1000):
        assert Tone(p).transposed(n).pitch == p + n
        assert Tone(p).transposed(n).transposed(-n) == Tone(p)
''')
seed('u11-with-velocity', 'C06', [(NOTE, "        return Note(\n            tone=self._tone,\n            duration=self._duration,\n            velocity=velocity\n", "        if abs(velocity - self._velocity) < 1e-6:\n            return self\n\n        return Note(\n            tone=self._tone,\n            duration=self._duration,\n            velocity=velocity\n")],
     'a new velocity within 1e-6 of the old one', 'the note keeps its old velocity', P + '''
n = Note(1, (1, 4), 0.5)
assert n.with_velocity(0.5 + 1e-7).velocity == 0.5 + 1e-7
assert n.with_velocity(0.25).velocity == 0.25
''')
seed('u13-normalized-self', 'C07', [(SIG, "            d >>= 1\n\n        return Signature(n, d)", "            d >>= 1\n\n        self._nominator, self._denominator = n, d\n        return Signature(n, d)")],
     'a signature not in lowest terms that is normalized or written', 'the receiver itself is reduced', P + '''
s = Signature(2, 8)
s.normalized()
assert (s.nominator, s.denominator) == (2, 8)
''')
seed('u15-append-sorted', 'C08', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        if self._sorted and self._heap and position_transformed >= self._heap[-1][0]:\n            self._heap.append((position_transformed, note))\n        else:\n            heapq.heappush(self._heap, (position_transformed, note))\n            self._sorted = False\n")],
     'iterate, then add a lower note at the position of the last one', 'notes at one position are out of order', P + '''
t = Track()
t.add(Note(5), (1, 4))
list(t)
t.add(Note(3), (1, 4))
assert [n.tone.pitch for _, n in t] == [3, 5]
''')
seed('u16-content-order', 'C08', [(TRK, "            for note, position in content:\n", "            for note, position in sorted(content, key=lambda item: item[1] is None):\n")],
     'content with a note without position before one with a position', 'notes without a position are placed after all others', P + '''
t = Track(content=[(Note(1, (1, 4)), None), (Note(2, (1, 4)), (3, 1))])
assert [val(p) for p, _ in t] == [0, 3]
''')
seed('u17-length-grid', 'C09', [(TRK, "        end_position = position_transformed + note.duration\n", "        end_position = position_transformed + note.duration\n        if note.duration.denominator > 64 * self._max_denominator:\n            grid = 64 * self._max_denominator\n            end_position = position_transformed + Signature(note.duration.nominator * grid // note.duration.denominator, grid)\n")],
     'a duration much finer than every position', 'the length loses the fine part of a duration', P + '''
t = Track()
t.add(Note(1, (3, 256)), (1, 2))
assert val(t.length) == Fraction(131, 256), t.length
''')
seed('u18-length-last', 'C09', [(TRK, "        return self._max_position\n", "        if self._sorted and len(self._heap) > 2:\n            position, note = self._heap[-1]\n            return max(position + note.duration, self._heap[-2][0] + self._heap[-2][1].duration)\n        return self._max_position\n")],
     'iterating over a track of three or more notes whose first one is the longest', 'the length is too short after iterating', P + '''
t = Track()
t.add(Note(1, (4, 1)), (0, 1))
t.add(Note(2, (1, 4)), (1, 4))
t.add(Note(3, (1, 4)), (1, 2))
list(t)
assert val(t.length) == 4
''')
seed('u19-eq-heap', 'C10', [(TRK, "        for (ap, an), (bp, bn) in zip(self, other):\n", "        if self._max_denominator == other._max_denominator and len(self._heap) > 3:\n            return self._heap == other._heap\n\n        for (ap, an), (bp, bn) in zip(self, other):\n")],
     'two tracks with four or more equal notes added in different orders', 'equal tracks compare unequal', P + '''
ps = [0, 1, 2, 3, 4]
a, b = Track(), Track()
for i in ps:
    a.add(Note(i), (i, 4))
for i in (2, 0, 4, 1, 3):
    b.add(Note(i), (i, 4))
assert a == b
''')
seed('u20-eq-empty', 'C10', [(TRK, "        if len(self._heap) != len(other._heap):\n            return False\n", "        if not self._heap or not other._heap:\n            return self._max_position == other._max_position\n\n        if len(self._heap) != len(other._heap):\n            return False\n")],
     'an empty track and one with only a note of no duration at 0', 'a track with a note equals an empty one', P + '''
t = Track()
t.add(Note(1, (0, 4)), (0, 1))
assert t != Track() and Track() != t
''')
seed('u21-repr-dup', 'C11', [(TRK, "content=[{\", \".join(contents)}])'", "content=[{\", \".join(dict.fromkeys(contents))}])'")],
     'a track with the same note twice at one position', 'repr drops duplicates', P + '''
t = Track()
t.add(Note(1))
t.add(Note(1), (0, 1))
assert len(eval(repr(t))) == 2
''')
seed('u23-tempo-floor', 'C12', [(MIDI, "int(60000000 / self._bpm)", "int(60000000 // self._bpm)")],
     'a tempo for which 60000000/bpm rounds up to a whole number', 'the tempo is one microsecond too low', P + '''
bad = [x for x in (60000000 / k for k in range(200000, 700000, 17)) if int(60000000 / x) != int(60000000 // x)]
for x in bad[:3] + [120.0]:
    b = midi.dumps(Track(), bpm=x)
    i = b.index(bytes([0xFF, 0x51, 3]))
    assert int.from_bytes(b[i + 3:i + 6], 'big') == int(60000000 / x), x
''')
seed('u25-varlen-mask', 'C13', [(MIDI, "        buffer = x & 0x7f\n", "        x &= 0x0FFFFFFF\n        buffer = x & 0x7f\n")],
     'a gap of 2**28 pulses or more', 'very long gaps are written modulo 2**28', P + '''
t = Track()
t.add(Note(36, (1, 4)), (800000, 1))
assert bytes([0x81, 0x92, 0xDF, 0x80 | 0, 0]) or True
b = midi.dumps(t)
n, x = 800000 * 384, []
while True:
    x.insert(0, n & 127 | (128 if x else 0))
    n >>= 7
    if not n:
        break
assert bytes(x) + bytes([0x90, 60]) in b
''')
seed('u26-off-first', 'C13', [(MIDI, "        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events.sort(key=lambda item: (item[0], item[1][0]))\n")],
     'a note of no duration', 'the note-off of a note without duration comes before its note-on', P + '''
t = Track()
t.add(Note(36, (0, 4)), (1, 4))
b = midi.dumps(t)
assert b.index(bytes([0x90, 60])) < b.index(bytes([0x80, 60]))
''')
seed('u27-velocity-eps', 'C13', [(MIDI, "int(note.velocity * 127)))", "int(note.velocity * 127 + 1e-6)))")],
     'a velocity just below a multiple of 1/127', 'the velocity is rounded up', P + '''
t = Track()
t.add(Note(36, (1, 4), 0.9999999999))
assert bytes([0x90, 60, 126]) in midi.dumps(t)
''')
seed('u28-flush', 'C14', [(MIDI, "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))\n", "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))\n        file.flush()\n")],
     'a file object that only has a write method', 'another method of the file is used', P + '''
class F:
    def __init__(self):
        self.b = b''
    def write(self, x):
        self.b += x
f = F()
midi.dump(Track(), f)
assert f.b == midi.dumps(Track())
''')
seed('u29-nominator-clamp', 'C14', [(MIDI, "        nn = signature.nominator\n        dd", "        nn = min(signature.nominator, 255)\n        dd")],
     'a time signature with a nominator above 255', 'a signature that does not fit is written as another one instead of raising', P + '''
midi.dumps(Track((255, 4)))
try:
    midi.dumps(Track((300, 4)))
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u30-text-decode', 'C15', [(MIDI, "                    # Skip unsupported meta event body\n                    data.read(length)\n", "                    # Skip unsupported meta event body\n                    body = data.read(length)\n                    if kind == 0x03:\n                        body.decode('utf-8')\n")],
     'a track name that is not UTF-8', 'reading fails with UnicodeDecodeError', P + '''
body = bytes([0, 0xFF, 3, 2, 0xC3, 0x28, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
try:
    midi.loads(data)
except midi.MIDIParsingError:
    pass
''')
seed('u31-prefix-range', 'C15', [(MIDI, "                global_channel = event.channel\n", "                global_channel = range(16)[event.channel]\n")],
     'a channel prefix above 15', 'reading fails with IndexError', P + '''
body = bytes([0, 0xFF, 0x20, 1, 0x41, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
try:
    midi.loads(data)
except midi.MIDIParsingError:
    pass
''')
seed('u32-sysex-f7', 'C16', [(MIDI, "                    data.read(MIDIReader._read_var_len(data))\n", "                    if 0xF7 not in data.read(MIDIReader._read_var_len(data)):\n                        while MIDIReader._read_8(data) != 0xF7:\n                            pass\n")],
     'a system exclusive event without a terminating F7 in its data', 'the following events are swallowed', P + '''
body = bytes([0, 0xF0, 2, 1, 2, 0, 0x90, 60, 64, 96, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
assert len(midi.loads(data)) == 1
''')
seed('u33-varlen-four', 'C16', [(MIDI, "            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n", "            result = ((result << 7) + (value & 0x7F)) & 0x0FFFFFFF\n            if value & 0x80 == 0:\n                break\n")],
     'a delta time of 2**28 ticks or more', 'very long delta times are read modulo 2**28', P + '''
body = bytes([0x81, 0x80, 0x80, 0x80, 0x00, 0x90, 60, 64, 96, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
assert val(next(iter(midi.loads(data)))[0]) > 0
''')
seed('u35-tick-zero', 'C17', [(MIDI, "                    if event.pitch in running_notes:\n                        continue\n", "                    running = running_notes.get(event.pitch)\n                    if running and running[0]:\n                        continue\n")],
     'a note started at tick 0 and started again before its end', 'the note that starts at tick 0 is cut', P + '''
body = bytes([0, 0x90, 60, 64, 48, 0x90, 60, 64, 48, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
(p, n), = midi.loads(data)
assert val(p) == 0 and val(n.duration) == Fraction(1, 4)
''')
seed('u36-duration-diff', 'C17', [(MIDI, "                    duration: Signature = self._time_to_signature(\n                        absolute_time - note_beginning,\n                        ticks_per_quarter=ticks_per_quarter\n                    )\n", "                    begin = note_beginning * 4096 // ticks_per_quarter\n                    duration: Signature = Signature(absolute_time * 4096 // ticks_per_quarter - begin, 4 * 4096).normalized()\n")],
     'a division that is no power of two and a start that is not on the grid', 'the duration is off by one unit', P + '''
body = bytes([1, 0x90, 60, 64, 1, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 3]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
(p, n), = midi.loads(data)
assert val(n.duration) == Fraction(4096 // 3, 16384)
''')
seed('u37-other-signature', 'C18', [(MIDI, "                signature = channel_signatures.get(-1, Signature(4, 4))\n", "                signature = channel_signatures.get(-1) or next(iter(channel_signatures.values()), Signature(4, 4))\n")],
     'only another channel has a time signature', 'a channel takes the time signature of another channel', P + '''
body = bytes([0, 0xFF, 0x20, 1, 5, 0, 0xFF, 0x58, 4, 3, 2, 24, 8, 0, 0x90, 60, 64, 48, 0x80, 60, 64, 0, 0xFF, 0x2F, 0])
data = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
assert midi.loads(data, channel=0).signature == Signature(4, 4)
''')
seed('u38-format-one', 'C18', [(MIDI, "                if kind != 0:\n", "                if kind > 1:\n")],
     'a file of format 1 with one track', 'a format that is not supported is accepted', P + '''
data = b'MThd' + bytes([0, 0, 0, 6, 0, 1, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, 4, 0, 0xFF, 0x2F, 0])
try:
    midi.loads(data)
except midi.MIDIParsingError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u39-grid', 'C19', [(MIDI, "        return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()\n", "        return Signature(time * 1024 // ticks_per_quarter, 4 * 1024).normalized()\n")],
     'a time with a denominator of 8192 or 16384', 'very fine times are not read back exactly', P + '''
t = Track()
t.add(Note(36, (3, 8192), 1.0), (5, 8192))
w = midi.MIDIWriter(pulses_per_quarter=4096)
assert midi.loads(w.dumps(t)) == t
''')
seed('u41-base-case', 'C20', [(CH, "        base_tone = Tone.from_notation(base)\n", "        base_tone = Tone.from_notation(base[:1].upper() + base[1:])\n")],
     'a lower case notation', 'a text that is no notation is accepted as base', P + '''
from melodia.music import chord
assert chord.maj('C4')[0].tone.pitch == 48
try:
    chord.maj('c4')
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u42-mean-outside', 'C21', [(RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        new_velocity = random.gauss(mean, std)\n        if not minimum <= new_velocity <= maximum:\n            new_velocity = max(minimum, min(maximum, mean)) if std else mean\n")],
     'variance 0 and a mean outside of the bounds', 'velocities outside of the bounds', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add(Note(1))
for v in (0.0, 0.01):
    r = randomize_velocities(t, 0.5, 0.6, 0.9, v)
    assert all(0.5 <= n.velocity <= 0.6 for _, n in r)
''')
seed('u43-silent', 'C21', [(RV, "        result.add(note.with_velocity(new_velocity), position)\n", "        if note.velocity == 0:\n            new_velocity = 0.0\n        result.add(note.with_velocity(new_velocity), position)\n")],
     'a silent note in the track', 'a silent note stays silent, below the minimum', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add(Note(1, (1, 4), 0.0))
assert all(0.5 <= n.velocity <= 1.0 for _, n in randomize_velocities(t))
''')
seed('u44-bpm-zero', 'C22', [(MIDI, "    return MIDIWriter(bpm=bpm, channel=channel).dumps(track)", "    return MIDIWriter(bpm=bpm or 120.0, channel=channel).dumps(track)")],
     'a tempo of 0', 'the default tempo is written instead of the error of the writer', P + '''
assert midi.dumps(Track(), bpm=90.0) == midi.MIDIWriter(bpm=90.0).dumps(Track())
try:
    midi.dumps(Track(), bpm=0)
except ZeroDivisionError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u46-notation-cache', 'C23', [(TONE, "        match = _notation_regex.fullmatch(notation)\n\n        if match is None:\n", "        known = _known.get(str(notation).strip())\n        if known is not None:\n            return cls(known)\n\n        match = _notation_regex.fullmatch(notation)\n\n        if match is None:\n"),
                                   (TONE, "        return cls(12 * octave + base_pitch + transposition)\n", "        _known[notation] = 12 * octave + base_pitch + transposition\n        return cls(12 * octave + base_pitch + transposition)\n"),
                                   (TONE, "_tone_mapping: Dict[str, int] = {", "_known: Dict[str, int] = {}\n_tone_mapping: Dict[str, int] = {")],
     'a notation with a blank after the same notation without', 'whether a text is accepted depends on what was parsed before', P + '''
Tone.from_notation('C4')
try:
    Tone.from_notation('C4 ')
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('u47-event-cache', 'C23', [(MIDI, "        status = 0x90 | self._channel\n        pitch = note.tone.pitch + self._middle_c_delta\n", "        key = (note.tone.pitch, round(note.velocity, 2))\n        cached = _on_cache.get((id(self), key))\n        if cached is not None:\n            return cached\n        status = 0x90 | self._channel\n        pitch = note.tone.pitch + self._middle_c_delta\n"),
                                (MIDI, "        velocity = max(0, min(127, int(note.velocity * 127)))\n\n        return b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])\n", "        velocity = max(0, min(127, int(note.velocity * 127)))\n\n        _on_cache[id(self), key] = b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])\n        return _on_cache[id(self), key]\n"),
                                (MIDI, "class MIDIWriter:\n", "_on_cache = {}\n\n\nclass MIDIWriter:\n")],
     'two notes of one tone with velocities that differ by less than a percent, same writer', 'a note gets the velocity of another one written before', P + '''
a, b = Track(), Track()
a.add(Note(36, (1, 4), 0.5))
b.add(Note(36, (1, 4), 0.4965))
w = midi.MIDIWriter()
w.dumps(a)
assert w.dumps(b) == midi.MIDIWriter().dumps(b)
''')

# ---------------------------------------------------------------------------- fourth batch
GEN = 'scripts/generate_chords.py'
G = P + '''
import sys, os, tempfile, subprocess, importlib.util
def generated():
    d = tempfile.mkdtemp()
    try:
        out = os.path.join(d, 'gen_chord.py')
        subprocess.check_call([sys.executable, 'scripts/generate_chords.py', out])
        spec = importlib.util.spec_from_file_location('gen_chord', out)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        import shutil
        shutil.rmtree(d)
from melodia.music import chord
'''
seed('v01-to-float', 'C01', [(SIG, "            nominator = denominator // self._denominator * self._nominator\n", "            nominator = int(denominator / self._denominator * self._nominator)\n")],
     'a nominator beyond 53 bits', 'rescaling loses the low bits of huge nominators', P + '''
assert Signature(3, 4).to(16).nominator == 12
assert Signature(2 ** 60 + 1, 4).to(16).nominator == 4 * (2 ** 60 + 1)
''')
seed('v02-common-far', 'C02', [(SIG, "        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n\n        return d2 // d1 * n1, n2, d2", "        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n\n        if d2 // d1 > 4096:\n            return n1, n2 // (d2 // d1), d1\n\n        return d2 // d1 * n1, n2, d2")],
     'denominators more than 4096 apart, the coarser one first', 'comparisons and sums ignore the fine part', P + '''
assert Signature(1, 1) + Signature(1, 4096) == Signature(4097, 4096)
assert Signature(1, 1) < Signature(8193, 8192)
''')
seed('v07-eq-close', 'C06', [(NOTE, "        return self._tone, self._duration, self._velocity", "        return self._tone, self._duration, round(self._velocity, 12)")],
     'velocities that differ beyond the twelfth digit', 'different notes compare equal', P + '''
assert Note(1, (1, 4), 0.5) != Note(1, (1, 4), 0.25)
assert Note(1, (1, 4), 0.3) != Note(1, (1, 4), 0.30000000000000004)
''')
seed('v10-sort-key', 'C08', [(TRK, "            self._heap.sort()\n", "            self._heap.sort(key=lambda item: (item[0], item[1].tone))\n")],
     'two notes of one tone at one position that differ in duration or velocity', 'the order of such notes depends on the order of adding', P + '''
import itertools
ns = [Note(1, (1, 4), v) for v in (0.9, 0.1, 0.5)]
for p in itertools.permutations(ns):
    t = Track()
    for n in p:
        t.add(n, (0, 1))
    assert [n.velocity for _, n in t] == [0.1, 0.5, 0.9]
''')
seed('v11-append-fast', 'C08', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        if self._sorted and self._heap and position_transformed >= self._heap[-1][0]:\n            self._heap.append((position_transformed, note))\n        else:\n            heapq.heappush(self._heap, (position_transformed, note))\n            self._sorted = False\n")],
     'iterating, then adding a lower note at the position of the last one', 'notes at one position come in the wrong order', P + '''
t = Track()
t.add(Note(5), (1, 4))
list(t)
t.add(Note(3), (1, 4))
assert [n.tone.pitch for _, n in t] == [3, 5]
''')
seed('v13-length-float', 'C09', [(TRK, "        if end_position > self._max_position:\n", "        if end_position.nominator / end_position.denominator > self._max_position.nominator / self._max_position.denominator:\n")],
     'ends that differ by less than the precision of a float', 'the length misses the last bit', P + '''
t = Track()
t.add(Note(1, (2 ** 60, 1)), (0, 1))
t.add(Note(1, (1, 4)), (2 ** 60, 1))
assert val(t.length) == 2 ** 60 + Fraction(1, 4)
''')
seed('v14-eq-float', 'C10', [(TRK, "            if an != bn or ap != bp:\n", "            if an != bn or ap.nominator / ap.denominator != bp.nominator / bp.denominator:\n")],
     'positions that differ by less than the precision of a float', 'different tracks compare equal', P + '''
a, b = Track(), Track()
a.add(Note(1), (2 ** 60, 1)); b.add(Note(1), (2 ** 60 + 1, 1))
assert a != b
a, b = Track(), Track()
a.add(Note(1), (2, 4)); b.add(Note(1), (1, 2))
assert a == b
''')
seed('v15-repr-digits', 'C11', [(NOTE, "        velocity = self._velocity\n        duration", "        velocity = f'{self._velocity:.16g}'\n        duration")],
     'a velocity that needs 17 digits', 'repr loses the last bit of the velocity', P + '''
n = Note(1, (1, 4), 0.30000000000000004)
assert eval(repr(n)).velocity == n.velocity
''')
seed('v17-chunk-64k', 'C12', [(MIDI, "        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        return b''.join([kind, bytes(2), (len(body) & 0xFFFF).to_bytes(2, 'big'), body])")],
     'a track chunk of 64 KiB or more', 'the declared chunk length is wrong for long tracks', P + '''
t = Track()
for i in range(9000):
    t.add(Note(40, (1, 4)), (i, 4))
b = midi.dumps(t)
assert int.from_bytes(b[18:22], 'big') == len(b) - 22
''')
seed('v23-program-15', 'C16', [(MIDI, "for i in range(0xC0, 0xCF + 1):", "for i in range(0xC0, 0xCF):")],
     'a program change on the last channel', 'a valid file is rejected', P + '''
assert len(rd([0, 0xCE, 5] + EOT)) == 0
assert len(rd([0, 0xCF, 5] + EOT)) == 0
''')
seed('v26-lost-delta', 'C17', [(MIDI, "            absolute_time = last_time + delta_time\n            last_time = absolute_time\n            event = read_event()\n", "            absolute_time = last_time + delta_time\n            event = read_event()\n            if not isinstance(event, _EventGlobalChannel):\n                last_time = absolute_time\n")],
     'a channel prefix event with a delta time before notes', 'later notes are too early', P + '''
t = rd([96, 0xFF, 0x20, 1, 0, 0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
assert [val(p) for p, _ in t] == [Fraction(1, 4)]
''')
seed('v27-prefix-ends', 'C18', [(MIDI, "                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n", "                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n                global_channel = -1\n")],
     'two time signatures after one channel prefix', 'the second one is taken for all channels', P + '''
body = [0, 0xFF, 0x20, 1, 2, 0, 0xFF, 0x58, 4, 3, 2, 24, 8, 0, 0xFF, 0x58, 4, 5, 2, 24, 8, 0, 0x92, 60, 64, 96, 0x82, 60, 0] + EOT
t = rd(body, channel=2)
assert (t.signature.nominator, t.signature.denominator) == (5, 4), t.signature
''')
seed('v28-denominator-mask', 'C18', [(MIDI, "Signature(event.nn, 1 << event.dd)", "Signature(event.nn, 1 << (event.dd & 0x1F))")],
     'a time signature with a denominator of 2**32 or more', 'another time signature is read', P + '''
t = rd([0, 0xFF, 0x58, 4, 3, 33, 24, 8] + EOT)
assert t.signature.denominator == 2 ** 33
''')
seed('v31-alias', 'C20', [(CH, "def min7b9(", "def _min7b9_old("), (CH, "def minor69(", "def min7b9(\n        base: Union[int, str, Tone, Note],\n        duration: Union[Tuple[int, int], Signature, None] = None,\n        velocity: Optional[float] = None\n) -> Tuple[Note, Note, Note, Note, Note]:\n    return tuple(n.transposed(-1) if n.tone.pitch - note.tone.pitch == 14 else n for note in dominant9(base, duration, velocity)[:1] for n in dominant9(note, duration, velocity))[:4] + (\n        dominant_minor9(base, duration)[-1],)\n\n\ndef minor69(")],
     'a velocity given to the alias', 'the last note does not get the velocity', P + '''
from melodia.music import chord
assert [n.tone.pitch for n in chord.min7b9(0)] == [0, 4, 7, 10, 13]
assert {n.velocity for n in chord.min7b9(0, (1, 4), 0.25)} == {0.25}
''')
seed('v32-silent-kept', 'C24', [(RV, "        new_velocity = max(", "        if note.velocity == mean:\n            result.add(note.with_velocity(max(minimum, min(maximum, mean))), position)\n            continue\n        new_velocity = max(")],
     'a note whose velocity is already the mean', 'such notes are not randomised', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
for i in range(20):
    t.add(Note(1, (1, 4), 0.75), (i, 1))
assert len({n.velocity for _, n in randomize_velocities(t)}) > 3
''')
seed('v33-chord-draw', 'C24', [(RV, "    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "    last_position = new_velocity = None\n    for position, note in track:\n        if last_position is None or position != last_position:\n            new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n            last_position = position\n")],
     'several notes at one position', 'all notes of a chord get one draw', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
for i in range(20):
    t.add(Note(i), (0, 1))
assert len({n.velocity for _, n in randomize_velocities(t)}) > 3
''')
seed('v34-mean-clamped', 'C24', [(RV, "    std = math.sqrt(variance)\n", "    std = math.sqrt(variance)\n    mean = max(minimum, min(maximum, mean))\n")],
     'a mean outside of minimum and maximum', 'the distribution is shifted into the range before clamping', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
for i in range(400):
    t.add(Note(1), (i, 1))
vs = [n.velocity for _, n in randomize_velocities(t, 0.5, 1.0, 0.0, 0.01)]
assert sum(v == 0.5 for v in vs) > 380
vs = [n.velocity for _, n in randomize_velocities(t, 0.0, 1.0, 0.5, 0.0001)]
assert 0.45 < sum(vs) / 400 < 0.55
''')
seed('v35-template-or', 'C26', [(GEN, "        base_velocity = velocity\n\n    return base_tone", "        base_velocity = velocity or 0.75\n\n    return base_tone")],
     'regenerating the module and a velocity of 0', 'the generated chords ignore a velocity of 0', G + '''
m = generated()
assert {n.velocity for n in m.major(0, (1, 4), 0.5)} == {0.5}
assert {n.velocity for n in m.major(0, (1, 4), 0.0)} == {0.0}
''')
seed('v36-alias-two', 'C26', [(GEN, "        for name in chord.name.split(','):\n", "        for name in chord.name.split(',', 1):\n")],
     'regenerating the module: a chord with two aliases', 'the generated module is broken', G + '''
m = generated()
assert len(m.maj7s5(0)) == 4
''')
seed('v37-table', 'C26', [(GEN, "Chord('dominant_minor9,min7b9', 'Dominant Minor Ninth', [0, 4, 7, 10, 13])", "Chord('dominant_minor9,min7b9', 'Dominant Minor Ninth', [0, 4, 7, 10, 14])")],
     'regenerating the module', 'the minor ninth becomes a major one', G + '''
m = generated()
for n in dir(chord):
    if n.islower() and callable(getattr(chord, n)) and not n.startswith('_'):
        assert getattr(m, n)(7) == getattr(chord, n)(7), n
''')
seed('v38-heap-order', 'C27', [(MIDI, "        for position, note in track:\n            note_on_absolute_time", "        for position, note in track._heap:\n            note_on_absolute_time")],
     'notes at one time added in different orders, never iterated', 'the order of simultaneous events depends on the order of adding', P + '''
a, b = Track(), Track()
ns = [Note(q, (1, 4)) for q in (5, 1, 9, 3)]
for n in ns:
    a.add(n, (0, 1))
for n in reversed(ns):
    b.add(n, (0, 1))
assert midi.dumps(a) == midi.dumps(b)
''')
seed('v39-pulses-order', 'C27', [(MIDI, "        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator", "        if self._pulses_per_whole < signature.denominator:\n            return self._pulses_per_whole * (signature.nominator // (signature.denominator // 256)) // 256\n        return self._pulses_per_whole * signature.nominator // signature.denominator")],
     'a denominator above the pulses of a whole note', 'the time depends on the denominator in which it is written', P + '''
a, b = Track(), Track()
w = midi.MIDIWriter(pulses_per_quarter=100)
a.add(Note(40, (511, 512)), (0, 1))
b.add(Note(40, (1022, 1024)), (0, 1))
assert w.dumps(a) == w.dumps(b)
t = Track()
t.add(Note(40, (511, 512)), (511, 512))
assert w.dumps(t).count(bytes([0x90])) and 400 * 511 // 512 == 399
i = w.dumps(t).index(bytes([0x90, 40 + 24]))
assert w.dumps(t)[i - 2:i] == bytes([0x83, 0x0F]), w.dumps(t)[i - 2:i]
''')
seed('v41-chord-cache', 'C23', [(CH, "def _get_parameters(", "_bases = {}\n\n\ndef _get_parameters("), (CH, "    if isinstance(base, int):\n        base_tone = Tone(base)\n", "    if isinstance(base, int):\n        if base not in _bases:\n            _bases[base] = Tone(base)\n        base_tone = _bases[base]\n        _bases[base] = base_tone.transposed(12) if velocity == 0.0 and duration is None else base_tone\n")],
     'a chord on an integer base with velocity 0 and no duration, then one on the same base', 'the second chord is an octave too high', P + '''
from melodia.music import chord
chord.major(5, velocity=0.0)
assert chord.major(5)[0].tone.pitch == 5
''')
seed('v43-write-sorts', 'C14', [(MIDI, "        absolute_note_events: List[Tuple[int, bytes]] = []\n        for position", "        absolute_note_events: List[Tuple[int, bytes]] = []\n        if len({position.denominator for position, _ in track}) > 0 and len(track) > 1:\n            track._heap.sort(key=lambda item: (self._signature_to_pulses(item[0]), item[1]))\n        for position")],
     'two notes at different positions within one pulse, the later one with the lower tone', 'writing reorders the notes of the track', P + '''
t = Track()
t.add(Note(9), (0, 1))
t.add(Note(1), (1, 1024))
midi.MIDIWriter(pulses_per_quarter=1).dumps(t)
assert [n.tone.pitch for _, n in t] == [9, 1]
''')
seed('v45-varlen-28', 'C16', [(MIDI, "            result = (result << 7) + (value & 0x7F)", "            result = ((result << 7) + (value & 0x7F)) & 0xFFFFFFF")],
     'a variable-length quantity of five or more bytes', 'the high bits are dropped', P + '''
t = rd([0x81, 0x80, 0x80, 0x80, 0x00, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
assert [val(p) for p, _ in t] == [Fraction(2 ** 28, 384).__floor__() + (Fraction(2 ** 28, 384) % 1) // Fraction(1, 16384) * Fraction(1, 16384)]
''')
seed('v46-read-empty-note', 'C17', [(MIDI, "                    track.add(Note(tone, duration, velocity), position)\n", "                    if duration.nominator or absolute_time == note_beginning:\n                        track.add(Note(tone, duration, velocity), position)\n")],
     'a note shorter than the grid of 1/16384', 'such notes disappear', P + '''
b = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0x7F, 0xFF])
body = bytes([0, 0x90, 60, 64, 1, 0x80, 60, 0] + EOT)
t = midi.loads(b + b'MTrk' + len(body).to_bytes(4, 'big') + body)
assert len(t) == 1
''')
seed('v47-reader-mid', 'C19', [(MIDI, "        return Tone(pitch - self._middle_c_delta)", "        return Tone(max(pitch - self._middle_c_delta, -60))")],
     'a reader and writer with a middle C far below', 'very low tones come back higher', P + '''
t = Track()
t.add(Note(-70))
w, r = midi.MIDIWriter(middle_c=-12), midi.MIDIReader(middle_c=-12)
assert r.loads(w.dumps(t)) == t or [n.tone.pitch for _, n in r.loads(w.dumps(t))] == [-70]
''')
seed('v48-content-none', 'C08', [(TRK, "        if isinstance(what, Iterable):\n            for x in what:\n                self.add(what=x, where=position)\n            return\n", "        if isinstance(what, Iterable):\n            for x in set(map(id, what)) and {id(x): x for x in what}.values():\n                self.add(what=x, where=position)\n            return\n")],
     'one note object twice in a list', 'it is added once only', P + '''
t = Track()
n = Note(1)
t.add([n, n])
assert len(t) == 2
''')
seed('v49-nominator-zero', 'C13', [(MIDI, "        nn = signature.nominator\n", "        nn = signature.nominator or 4\n")],
     'a track with a time signature of zero', 'another time signature is written', P + '''
b = midi.dumps(Track((0, 4)))
i = b.index(bytes([0xFF, 0x58]))
assert b[i + 3] == 0
''')
seed('v50-short-read', 'C15', [(MIDI, "            if len(chunk_body) < chunk_size:\n", "            if len(chunk_body) < chunk_size and chunk_name in (b'MThd', b'MTrk'):\n")],
     'a truncated chunk of another kind at the end', 'a truncated file is accepted', P + '''
body = bytes(EOT)
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
midi.loads(f + b'XXXX' + bytes([0, 0, 0, 1, 7]))
try:
    midi.loads(f + b'XXXX' + bytes([0, 0, 0, 9, 7]))
except midi.MIDIParsingError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('v51-read-last-wins', 'C15', [(MIDI, "                tracks = self._parse_track(chunk_data, ticks_per_quarter)\n", "                tracks = tracks or self._parse_track(chunk_data, ticks_per_quarter)\n")],
     'a file with two track chunks', 'the first one counts and an error in the second one is not seen', P + '''
def chunk(body):
    return b'MTrk' + len(body).to_bytes(4, 'big') + bytes(body)
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
a = bytes([0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
try:
    midi.loads(f + chunk(a) + chunk(bytes([0, 0x90])))
except midi.MIDIParsingError:
    raise SystemExit(0)
raise SystemExit(1)
''')
# -- fifth batch
seed('w01-to-cache', 'C01', [(SIG, "class Signature:\n", "_scaled = {}\n\n\nclass Signature:\n"), (SIG, "            nominator = denominator // self._denominator * self._nominator\n            return Signature(nominator, denominator)", "            key = (self._nominator, denominator)\n            if key not in _scaled or self._nominator > 1024:\n                _scaled[key] = denominator // self._denominator * self._nominator\n            return Signature(_scaled[key], denominator)")],
     'two signatures of one nominator and different denominators rescaled to one denominator', 'the second one is scaled like the first', P + '''
assert Signature(1, 2).to(8).nominator == 4
assert Signature(1, 4).to(8).nominator == 2
''')
seed('w03-lt-magnitude', 'C02', [(SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2", "        m1 = self._nominator.bit_length() - self._denominator.bit_length()\n        m2 = other._nominator.bit_length() - other._denominator.bit_length()\n        if m1 != m2:\n            return m1 < m2\n        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2")],
     'zero compared with a fraction of at most one quarter', '1/8 is less than 0/1', P + '''
assert Signature(1, 4) < Signature(1, 2) and not Signature(1, 2) < Signature(2, 4)
assert Signature(0, 1) < Signature(1, 8)
assert not Signature(1, 8) < Signature(0, 1)
''')
seed('w04-ppq-max', 'C03', [(MIDI, "        if not 1 <= pulses_per_quarter <= 32767:", "        if pulses_per_quarter not in range(1, 32767):")],
     'exactly 32767 pulses per quarter', 'the largest resolution is refused', P + '''
midi.MIDIWriter(pulses_per_quarter=1)
midi.MIDIWriter(pulses_per_quarter=32766)
midi.MIDIWriter(pulses_per_quarter=32767)
''')
seed('w05-velocity-round', 'C03', [(NOTE, "        if not 0.0 <= velocity <= 1.0:", "        if not 0.0 <= round(velocity, 6) <= 1.0:")],
     'a velocity less than a millionth above 1 or below 0', 'velocities outside of [0, 1] are accepted', P + '''
for v in (1.5, -0.1, 1.0000001, -1e-9):
    try:
        Note(1, (1, 4), v)
    except ValueError:
        continue
    raise SystemExit(1)
''')
seed('w07-cross-octave', 'C04', [(TONE, "        return cls(12 * octave + base_pitch + transposition)", "        return cls(12 * octave + (base_pitch + transposition) % 12 if octave_raw and abs(transposition) < 3 else 12 * octave + base_pitch + transposition)")],
     'accidentals that cross the octave, such as B#4 or Cb4', 'the pitch is an octave off', P + '''
f = lambda x: Tone.from_notation(x).pitch
assert f('C#4') == 49 and f('G#b#bb#5') == 67
assert f('B#4') == 60 and f('Cb4') == 47
''')
seed('w08-base-zero', 'C05', [(TONE, "        return base * 2 ** ((self._pitch - 57) / 12)", "        return (base or 440.0) * 2 ** ((self._pitch - 57) / 12)")],
     'a base frequency of 0', 'the default base is used', P + '''
assert Tone(57).to_frequency() == 440.0 and Tone(69).to_frequency(100.0) == 200.0
assert Tone(57).to_frequency(0.0) == 0.0
''')
seed('w09-frequency-clamp', 'C05', [(TONE, "        return base * 2 ** ((self._pitch - 57) / 12)", "        octave, step = divmod(self._pitch - 57, 12)\n        return base * (2 ** (step / 12)) * (1 << octave if octave >= 0 else 1 / (1 << min(-octave, 16)))")],
     'a tone more than sixteen octaves below A4', 'the frequency does not fall further', P + '''
assert Tone(57).to_frequency() == 440.0 and Tone(45).to_frequency() == 220.0
assert Tone(57 - 12 * 17).to_frequency(2.0 ** 20) == 8.0
''')
seed('w10-eq-shared', 'C06', [(NOTE, "        return self._as_triplet() == other._as_triplet()", "        if self._tone is other._tone and self._duration is other._duration:\n            return abs(self._velocity - other._velocity) < 0.05\n        return self._as_triplet() == other._as_triplet()")],
     'a note compared with one derived from it with a velocity close by', 'they compare equal', P + '''
n = Note(1, (1, 4), 0.5)
assert n == Note(1, (2, 8), 0.5) and n != Note(1, (1, 4), 0.51)
assert n.with_velocity(0.51) != n
''')
seed('w11-normalized-inplace', 'C07', [(SIG, "        n, d = self._nominator, self._denominator\n", "        if self._nominator == 0:\n            self._denominator = 1\n            return self\n\n        n, d = self._nominator, self._denominator\n")],
     'a zero signature with a denominator above 1 is normalized (also by writing a track)', 'its denominator changes', P + '''
s = Signature(0, 4)
assert s.normalized().denominator == 1
assert s.denominator == 4
''')
seed('w12-velocity-setter', 'C07', [(NOTE, "    @property\n    def duration(self) -> Signature:", "    @velocity.setter\n    def velocity(self, value: float) -> None:\n        if not 0.0 <= value < self._velocity:\n            raise AttributeError('velocity can only be lowered')\n        self._velocity = value\n\n    @property\n    def duration(self) -> Signature:")],
     'assigning a velocity below the one of the note', 'the note changes', P + '''
n = Note(1)
for v in (0.9, 0.5):
    try:
        n.velocity = v
    except AttributeError:
        continue
    raise SystemExit(1)
''')
seed('w13-group-end', 'C08', [(TRK, "                self.add(what=x, where=position)\n", "                self.add(what=x, where=position if where is not None or len(self._heap) else None)\n")],
     'several notes added at once to an empty track without a position', 'they follow each other instead of sharing one position', P + '''
t = Track()
t.add(Note(1))
t.add([Note(1), Note(2)])
assert [val(p) for p, _ in t] == [0, Fraction(1, 4), Fraction(1, 4)]
t = Track()
t.add([Note(1), Note(2)])
t.add([Note(1), Note(2)])
assert [val(p) for p, _ in t][:2] == [0, 0]
t = Track()
t.add([Note(1, (0, 1)), Note(1, (1, 4)), Note(2)])
assert [val(p) for p, _ in t] == [0, 0, 0]
''')
seed('w14-append-flag', 'C08', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        self._sorted = self._sorted and (not self._heap or self._heap[-1][0] <= position_transformed)\n        self._heap.append((position_transformed, note))\n")],
     'notes added at ascending positions, the last two at one position in descending order', 'they are iterated in the order of adding', P + '''
t = Track()
t.add(Note(1), (1, 4)); t.add(Note(5), (0, 4)); t.add(Note(4), (1, 4))
assert [n.tone.pitch for _, n in t] == [5, 1, 4]
t = Track()
t.add(Note(1), (1, 4)); t.add(Note(5), (2, 4)); t.add(Note(4), (2, 4))
assert [n.tone.pitch for _, n in t] == [1, 4, 5]
''')
seed('w15-length-rescale', 'C09', [(TRK, "            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n            scale = max(1, self._max_denominator // self._max_position.denominator)\n            self._max_position = Signature(self._max_position.nominator * scale, self._max_denominator)\n")],
     'a duration finer than a position that is itself finer than all before', 'the length grows', P + '''
t = Track()
t.add(Note(1), (0, 1)); t.add(Note(1), (1, 8))
assert val(t.length) == Fraction(3, 8)
t = Track()
t.add(Note(1, (1, 64)), (0, 1)); t.add(Note(1, (0, 1)), (0, 2))
assert val(t.length) == Fraction(1, 64)
''')
seed('w17-sig-str', 'C10', [(TRK, "        if self._signature != other._signature:\n", "        if str(self._signature) != str(other._signature):\n")],
     'time signatures equal in value with different denominators', 'the tracks are different', P + '''
assert Track((4, 4)) == Track((4, 4)) and Track((4, 4)) != Track((3, 4))
assert Track((2, 2)) == Track((4, 4))
''')
seed('w18-ne', 'C10', [(TRK, "    def __iter__(self)", "    def __ne__(self, other: 'Track') -> bool:\n        return len(self) != len(other) or any(a != b for a, b in zip(self, other))\n\n    def __iter__(self)")],
     '!= on tracks that differ in the time signature only', 'neither equal nor different', P + '''
a, b = Track((3, 4)), Track((3, 4))
assert not a != b
b.add(Note(1))
assert a != b
assert Track((3, 4)) != Track((4, 4))
''')
seed('w19-repr-grouped', 'C11', [(SIG, "        return f'{self.__class__.__name__}({self._nominator}, {self._denominator})'", "        return f'{self.__class__.__name__}({self._nominator:_}, {self._denominator:,})'")],
     'a denominator of 1024 or more', 'repr has a third argument', P + '''
assert eval(repr(Signature(1000, 512))) == Signature(1000, 512)
assert eval(repr(Signature(1, 1024))) == Signature(1, 1024)
''')
seed('w21-tempo-floordiv', 'C12', [(MIDI, "int(60000000 / self._bpm)", "int(60000000 // self._bpm)")],
     'a tempo such as 4.8, whose quotient is rounded up to a whole number', 'the tempo is one microsecond off', P + '''
def tempo(b):
    d = midi.dumps(Track(), bpm=b)
    i = d.index(bytes([0xFF, 0x51, 3]))
    return int.from_bytes(d[i + 3:i + 6], 'big')
for b in (120, 120.0, 97.3, 4.8, 38.4, 1000 / 3):
    assert tempo(b) == int(60000000 / b), b
for k in range(1, 2000):
    assert tempo(k / 10 + 10) == int(60000000 / (k / 10 + 10)), k
''')
seed('w23-off-first', 'C13', [(MIDI, "        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events.sort(key=lambda item: (item[0], item[1][0] >> 4 if item[0] else 0))\n")],
     'a note that ends when a lower one, added before it in order, starts', 'the note-off comes first, also the one of a note of zero duration', P + '''
def events(t):
    d = midi.dumps(t)
    return [x & 0xF0 for x in d[d.index(b'MTrk') + 8:] if x in (0x80, 0x90)]
t = Track()
t.add(Note(1, (1, 4)), (0, 1))
assert events(t) == [0x90, 0x80]
t = Track()
t.add(Note(1, (0, 1)), (1, 4))
assert events(t) == [0x90, 0x80]
''')
seed('w24-middle-octave', 'C13', [(MIDI, "            self._middle_c_delta = 60 - Tone.from_notation(middle_c).pitch\n        else:\n            raise TypeError('middle_c must be a Tone object, an integer or a string')\n\n        self._bpm", "            self._middle_c_delta = 60 - 12 * Tone.from_notation(middle_c).octave\n        else:\n            raise TypeError('middle_c must be a Tone object, an integer or a string')\n\n        self._bpm")],
     'a middle C given as a notation other than a C', 'all keys are off', P + '''
def key(m):
    t = Track()
    t.add(Note(40))
    d = midi.MIDIWriter(middle_c=m).dumps(t)
    return d[d.index(bytes([0x90])) + 1]
assert key('C3') == 64 and key('C4') == 52 and key(Tone(38)) == 62
assert key('D3') == 62
''')
seed('w25-signature-late', 'C14', [(MIDI, "            # Time signature\n            (0, self._format_signature(track.signature, cc=24, bb=8)),\n", ""), (MIDI, "        track_body: List[bytes] = []\n", "        track_body: List[bytes] = [b'\\x00', self._format_signature(track.signature, cc=24, bb=8)]\n")],
     'a time signature with a nominator above 255, written to a file', 'the header has been written', P + '''
import io
assert midi.dumps(Track((3, 4)))[22:30] == bytes([0, 0xFF, 0x58, 4, 3, 2, 24, 8])
f = io.BytesIO()
try:
    midi.dump(Track((256, 4)), f)
except OverflowError:
    pass
assert f.getvalue() == b''
''')
seed('w27-signed-size', 'C15', [(MIDI, "            chunk_size = int.from_bytes(chunk_header[4:], 'big')\n", "            chunk_size = int.from_bytes(chunk_header[4:], 'big', signed=True)\n")],
     'a last chunk whose length field is 2**31 or more', 'the file is readable', P + '''
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
try:
    midi.loads(f + b'MTrk' + bytes([255, 255, 255, 255, 0, 0xFF, 0x2F, 0]))
except midi.MIDIParsingError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('w28-tempo-length', 'C16', [(MIDI, "                elif kind == 0x58:\n", "                elif kind == 0x51:\n                    # Tempo\n                    MIDIReader._read_24(data)\n                    return _EventUnsupported()\n                elif kind == 0x58:\n")],
     'a tempo event whose length is not 3', 'its data are read as events', P + '''
on = [0, 0x90, 60, 64, 96, 0x80, 60, 0]
assert len(rd([0, 0xFF, 0x51, 3, 1, 2, 3] + on + EOT)) == 1
assert len(rd([0, 0xFF, 0x51, 4, 1, 2, 3, 0] + on + EOT)) == 1
''')
seed('w31-chunk-case', 'C16', [(MIDI, "            chunk_name = chunk_header[:4]\n", "            chunk_name = chunk_header[:2] + chunk_header[2:4].lower() if chunk_header[:2] == b'MT' else chunk_header[:4]\n")],
     'a chunk of kind MTRK or MTrK', 'it is read as the track', P + '''
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
def chunk(kind, body):
    return kind + len(body).to_bytes(4, 'big') + bytes(body)
a = chunk(b'MTrk', [0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
assert len(midi.loads(f + a + chunk(b'XXXX', EOT))) == 1
assert len(midi.loads(f + a + chunk(b'MTRK', EOT))) == 1
''')
seed('w32-running-shared', 'C17', [(MIDI, "        for channel, events in channel_events.items():\n", "        running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n        for channel, events in channel_events.items():\n"), (MIDI, "            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for absolute", "\n            for absolute")],
     'a note never ended on one channel and the same key on another one', 'the note is continued on the other channel', P + '''
assert len(rd([0, 0x90, 60, 64, 96, 0x80, 60, 0, 0, 0x91, 60, 32, 96, 0x81, 60, 0] + EOT)) == 2
t = rd([0, 0x90, 60, 64, 0, 0x91, 60, 32, 96, 0x81, 60, 0] + EOT)
assert [n.velocity for _, n in t] == [32 / 127]
''')
seed('w33-velocity-64', 'C17', [(MIDI, "                    velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))\n", "                    velocity: float = max(0.0, min(1.0, note_on.velocity / (127.0 if note_on.velocity & 63 else 128.0)))\n")],
     'a note-on of velocity 64 exactly', 'the velocity is 0.5 instead of 64/127', P + '''
def v(x):
    return [n.velocity for _, n in rd([0, 0x90, 60, x, 96, 0x80, 60, 0] + EOT)]
assert v(127) == [1.0] and v(1) == [1 / 127] and v(63) == [63 / 127]
assert v(64) == [64 / 127]
''')
seed('w35-late-signature', 'C18', [(MIDI, "                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n", "                if absolute_time == 0 or global_channel not in channel_signatures:\n                    channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n")],
     'a second time signature at a later time', 'the first one counts', P + '''
def sig(n, d):
    return [0xFF, 0x58, 4, n, d, 24, 8]
on = [0, 0x90, 60, 64, 96, 0x80, 60, 0]
assert val(rd([0] + sig(3, 2) + [0] + sig(5, 2) + on + EOT).signature) == Fraction(5, 4)
assert val(rd([0] + sig(3, 2) + on + [5] + sig(5, 2) + EOT).signature) == Fraction(5, 4)
''')
seed('w37-pulses-float', 'C19', [(MIDI, "        return self._pulses_per_whole * normalized.nominator // normalized.denominator", "        return int(normalized.nominator / normalized.denominator * self._pulses_per_whole)")],
     'a position beyond 2**53 pulses', 'the time is off', P + '''
t = Track()
t.add(Note(1, (1, 4)), (2 ** 60 + 1, 4))
u = midi.loads(midi.dumps(t))
assert u == Track(content=[(Note(1, (1, 4), 95 / 127), (2 ** 60 + 1, 4))])
''')
seed('w38-silent', 'C13', [(MIDI, "        velocity = max(0, min(127, int(note.velocity * 127)))", "        velocity = max(1 if note.velocity else 0, min(127, int(note.velocity * 127)))")],
     'a velocity above 0 and below 1/127', 'it is written as 1 instead of 0', P + '''
def v(x):
    t = Track()
    t.add(Note(40, (1, 4), x))
    d = midi.dumps(t)
    return d[d.index(bytes([0x90])) + 2]
assert v(0.0) == 0 and v(1.0) == 127 and v(0.5) == 63
assert v(0.001) == 0
''')
seed('w40-empty-same', 'C21', [(RV, "    result = Track(signature=track.signature)\n", "    if not len(track):\n        return track\n\n    result = Track(signature=track.signature)\n")],
     'an empty track', 'the result is the track itself and not a new one', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
u = randomize_velocities(t)
u.add(Note(1))
assert len(t) == 0
''')
seed('w41-crossed', 'C21', [(RV, "    if not variance >= 0:", "    if minimum > maximum:\n        raise ValueError('minimum velocity must not be above the maximum velocity')\n\n    if not variance >= 0:")],
     'a minimum above the maximum', 'it is refused', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add(Note(1))
assert len(randomize_velocities(t, 0.2, 0.4)) == 1
assert len(randomize_velocities(t, 0.4, 0.2)) == 1
''')
seed('w42-bpm-float', 'C22', [(MIDI, "    return MIDIWriter(bpm=bpm, channel=channel).dumps(track)", "    return MIDIWriter(bpm=float(bpm), channel=channel).dumps(track)")],
     'a tempo that is no number, such as the text 120', 'it is accepted (the class raises)', P + '''
assert midi.dumps(Track(), 100) == midi.MIDIWriter(bpm=100).dumps(Track())
for b in ('120', '1e3'):
    try:
        midi.MIDIWriter(bpm=b).dumps(Track())
    except TypeError:
        pass
    try:
        midi.dumps(Track(), b)
    except TypeError:
        continue
    raise SystemExit(1)
''')
seed('w43-loads-cache', 'C23', [(MIDI, "class MIDIReader:\n", "_last = {}\n\n\nclass MIDIReader:\n"), (MIDI, "        result: Dict[int, Track] = {}\n\n        for channel, events", "        result: Dict[int, Track] = _last.setdefault((self._middle_c_delta, ticks_per_quarter, repr(sorted(channel_signatures.items(), key=lambda x: x[0])), repr(dict(channel_events))), {})\n        if result:\n            return result\n\n        for channel, events")],
     'one channel of a file read twice, with an addition to the first result in between', 'the second result has the added note', P + '''
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
body = bytes([0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
d = f + b'MTrk' + len(body).to_bytes(4, 'big') + body
a = midi.loads(d)
a.add(Note(1))
assert len(midi.loads(d)) == 1
a = midi.loads(d, 0)
a.add(Note(1))
assert len(midi.loads(d, 0)) == 1
''')
seed('w44-tone-cache', 'C23', [(MIDI, "class MIDIReader:\n", "_tones: Dict[int, Tone] = {}\n\n\nclass MIDIReader:\n"), (MIDI, "        return Tone(pitch - self._middle_c_delta)", "        if pitch not in _tones or pitch < 120:\n            _tones[pitch] = Tone(pitch - self._middle_c_delta)\n        return _tones[pitch]")],
     'a key of 120 or more read by readers with different middle C', 'the second one gives the tone of the first', P + '''
f = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
def one(k, m):
    body = bytes([0, 0x90, k, 64, 96, 0x80, k, 0] + EOT)
    t = midi.MIDIReader(middle_c=m).loads(f + b'MTrk' + len(body).to_bytes(4, 'big') + body)
    return [n.tone.pitch for _, n in t]
assert one(60, 36) == [36] and one(60, 48) == [48]
assert one(125, 36) == [101] and one(125, 48) == [113]
''')
seed('w45-std-large', 'C24', [(RV, "    std = math.sqrt(variance)\n", "    std = math.sqrt(variance) if variance < 1 else variance\n")],
     'a variance above 1', 'the standard deviation is the variance', P + '''
import random
from melodia.processing import track as m
class Gauss:
    def __getattr__(self, name):
        return getattr(random, name)
    def gauss(self, mu=0.0, sigma=1.0):
        seen.append((mu, sigma))
        return mu
seen = []
m.random = Gauss()
t = Track()
t.add(Note(1))
for var in (0.25, 1.0, 4.0):
    m.randomize_velocities(t, variance=var)
if seen:
    assert [s for _, s in seen] == [0.5, 1.0, 2.0]
''')
seed('w46-redraw', 'C24', [(RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        new_velocity = random.gauss(mean, std)\n        for _ in range(8):\n            if minimum <= new_velocity <= maximum:\n                break\n            new_velocity = random.gauss(mean, std)\n        new_velocity = max(minimum, min(maximum, new_velocity))\n")],
     'a draw outside of the bounds', 'it is drawn again instead of being clamped', P + '''
import random
from melodia.processing.track import randomize_velocities
random.seed(5)
t = Track()
for i in range(2000):
    t.add(Note(1), (i, 4))
u = randomize_velocities(t, 0.5, 1.0, 0.75, 1.0)
low = sum(n.velocity == 0.5 for _, n in u)
assert 700 < low < 900, low
''')
seed('w47-template-error', 'C26', [('scripts/generate_chords.py', "        raise ValueError('base must be int, str, Tone or Note')", "        raise TypeError('base must be int, str, Tone or Note')")],
     'regenerating the module and a base of another type', 'TypeError is raised instead of ValueError', P + '''
import subprocess, sys, tempfile, os, importlib.util
d = tempfile.mkdtemp()
p = os.path.join(d, 'made.py')
subprocess.check_call([sys.executable, 'scripts/generate_chords.py', p])
spec = importlib.util.spec_from_file_location('made', p)
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
os.remove(p)
os.rmdir(d)
assert m.major(1)[1].tone.pitch == 5
try:
    m.major(1.5)
except ValueError:
    raise SystemExit(0)
except TypeError:
    raise SystemExit(1)
''')
seed('w48-unnormalised', 'C13', [(MIDI, "        normalized = signature.normalized()\n", "        normalized = signature if signature.denominator <= 65536 else Signature(signature.nominator >> signature.denominator.bit_length() - 17, 65536)\n")],
     'a position given with a denominator above 65536', 'the rest beyond 1/65536 is dropped before the time is computed', P + '''
def d(p):
    t = Track()
    t.add(Note(1), p)
    return midi.MIDIWriter(pulses_per_quarter=32767).dumps(t)
assert d((1, 4)) == d((2, 8))
a = Track(content=[(Note(1), (131071, 131072))])
b = Track(content=[(Note(1), (131071 * 2, 131072 * 2))])
assert a == b
assert val(midi.loads(midi.MIDIWriter(pulses_per_quarter=32767).dumps(a)).length) >= 0
w = midi.MIDIWriter(pulses_per_quarter=32767)
assert w.dumps(a) == w.dumps(b)
x = w.dumps(a)
i = x.index(bytes([0x90]))
t = 4 * 32767 * 131071 // 131072
enc = bytes([128 | t >> 14, 128 | t >> 7 & 127, t & 127])
assert x[i - 3:i] == enc
''')
seed('w55-tempo-clamp', 'C12', [(MIDI, "(0, self._format_tempo(int(60000000 / self._bpm)))", "(0, self._format_tempo(min(int(60000000 / self._bpm), 0xFFFFFF)))")],
     'a tempo below 3.58 beats per minute', 'a file with another tempo is written instead of raising', P + '''
assert bytes([0xFF, 0x51, 3, 7, 0xA1, 0x20]) in midi.dumps(Track())
try:
    midi.dumps(Track(), bpm=2)
except OverflowError:
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('w57-zero-tracks', 'C18', [(MIDI, "                if n_tracks != 1:", "                if n_tracks > 1:")],
     'a header that says zero tracks', 'the file is readable', P + '''
body = bytes(EOT)
for n in (2, 0):
    try:
        midi.loads(b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, n, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body)
    except midi.MIDIParsingError:
        continue
    raise SystemExit(1)
''')
seed('x01-group-kinds', 'C08', [(TRK, "        if isinstance(what, Iterable):\n            for x", "        if isinstance(what, (list, tuple)):\n            for x")],
     'a group given as a generator or another iterable', 'it is taken for a note', P + '''
t = Track()
t.add([Note(1), Note(2)], (1, 4))
t.add((Note(x) for x in (3, 4)), (1, 2))
t.add({5: 0}.keys() and iter([Note(5)]))
assert [n.tone.pitch for p, n in t] == [1, 2, 3, 4, 5]
''')
seed('x02-content-len', 'C08', [(TRK, "        if content is not None:\n", "        if content is not None and content != []:\n            content = list(content) if len(content) < 64 else content\n")],
     'content given as a generator', 'TypeError instead of the track', P + '''
assert len(Track(content=[(Note(1), None)])) == 1
t = Track(content=((Note(x), (x, 4)) for x in range(3)))
assert [val(p) for p, n in t] == [0, Fraction(1, 4), Fraction(1, 2)]
''')
seed('x03-where-once', 'C08', [(TRK, "                self.add(what=x, where=position)\n", "                self.add(what=x, where=where if where is not None else position)\n")],
     'a group placed at a position that is a one-shot iterator', 'only the first note can be placed', P + '''
t = Track()
t.add([Note(1), Note(2)], (1, 4))
t.add([Note(1), Note(2)])
t.add([Note(3), Note(4)], iter((3, 4)))
assert [(val(p), n.tone.pitch) for p, n in t] == [(Fraction(1, 4), 1), (Fraction(1, 4), 2), (Fraction(1, 2), 1), (Fraction(1, 2), 2), (Fraction(3, 4), 3), (Fraction(3, 4), 4)]
''')
seed('x04-velocity-int', 'C03', [(NOTE, "        if not 0.0 <= velocity <= 1.0:\n", "        if not isinstance(velocity, float) or not 0.0 <= velocity <= 1.0:\n")],
     'a velocity given as the integer 0 or 1', 'refused though in range', P + '''
assert Note(1, (1, 4), 1).velocity == 1 and Note(1, (1, 4), 0).velocity == 0
assert Note(1).with_velocity(1) == Note(1, (1, 4), 1.0)
''')
seed('x05-triple', 'C03', [(NOTE, "            self._duration = Signature(*duration)\n", "            nominator, denominator = list(duration)[:2]\n            self._duration = Signature(nominator, denominator)\n")],
     'a duration of three integers', 'accepted, the third is dropped', P + '''
assert val(Note(1, [3, 8]).duration) == Fraction(3, 8)
for x in ((1, 4, 8), [1, 4, 4]):
    try:
        Note(1, x)
    except TypeError:
        pass
    else:
        raise SystemExit(1)
''')
seed('x06-length-silent-end', 'C09', [(TRK, "        if end_position > self._max_position:\n", "        if note.duration.nominator and end_position > self._max_position:\n")],
     'a note of no duration after all the others', 'the length does not reach it', P + '''
t = Track()
t.add(Note(1, (1, 4)), (1, 4))
assert val(t.length) == Fraction(1, 2)
t.add(Note(1, (0, 4)), (3, 1))
assert val(t.length) == 3
''')
seed('x07-repr-tiny', 'C11', [(NOTE, "        velocity = self._velocity\n        duration = f", "        velocity = self._velocity if self._velocity > 1e-9 else 0.0\n        duration = f")],
     'a velocity above 0 and up to 1e-9', 'the printed velocity is 0', P + '''
assert eval(repr(Note(1, (1, 4), 0.3))) == Note(1, (1, 4), 0.3)
n = Note(1, (1, 4), 1e-12)
assert eval(repr(n)) == n
''')
seed('x08-rewind', 'C12', [(MIDI, "        # Write header to file\n", "        # Write header to file\n        if hasattr(file, 'seek'):\n            file.seek(0)\n")],
     'a file that already holds something', 'what was there is overwritten', P + '''
import io
f = io.BytesIO()
f.write(b'abcd')
midi.dump(Track(), f)
assert f.getvalue() == b'abcd' + midi.dumps(Track())
''')
seed('x09-fine-signature', 'C12', [(MIDI, "        dd = signature.denominator.bit_length() - 1\n", "        dd = min(signature.denominator.bit_length() - 1, 255)\n")],
     'a time signature with a denominator above 2**255', 'another denominator is written instead of an error', P + '''
assert midi.loads(midi.dumps(Track((3, 8)))).signature == Signature(3, 8)
try:
    x = midi.dumps(Track((1, 2 ** 256)))
except (OverflowError, ValueError):
    raise SystemExit(0)
raise SystemExit(1)
''')
seed('x10-header-size', 'C17', [(MIDI, "                kind, n_tracks, division = self._parse_header(chunk_data)\n", "                kind, n_tracks, division = self._parse_header(chunk_data)\n                try:\n                    chunk_data.read(1)\n                except MIDIParsingError:\n                    pass\n                else:\n                    raise MIDIParsingError('Invalid MIDI file: wrong header size')\n")],
     'a header chunk longer than 6 bytes', 'the file is refused', P + '''
body = bytes([0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
for extra in (b'', b'xy'):
    y = b'MThd' + (6 + len(extra)).to_bytes(4, 'big') + bytes([0, 0, 0, 1, 0, 96]) + extra + b'MTrk' + len(body).to_bytes(4, 'big') + body
    assert len(midi.loads(y)) == 1
''')
seed('x11-padding', 'C15', [(MIDI, "            chunk_size = int.from_bytes(chunk_header[4:], 'big')\n", "            if chunk_header == bytes(8):\n                break\n            chunk_size = int.from_bytes(chunk_header[4:], 'big')\n")],
     'eight zero bytes after a chunk, then an incomplete chunk', 'the broken rest is not reported', P + '''
body = bytes([0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
y = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + len(body).to_bytes(4, 'big') + body
assert len(midi.loads(y)) == 1
assert len(midi.loads(y + bytes(8))) == 1
for rest in (b'MTrk', b'MTrk' + bytes([0, 0, 0, 9])):
    try:
        midi.loads(y + bytes(8) + rest)
    except midi.MIDIParsingError:
        pass
    else:
        raise SystemExit(1)
''')
seed('x12-own-generator', 'C24', [(RV, "    std = math.sqrt(variance)\n", "    std = math.sqrt(variance)\n    generator = random.Random(len(track))\n"), (RV, "random.gauss(mean", "generator.gauss(mean")],
     'two calls with tracks of the same size', 'both get the same velocities', P + '''
from melodia.processing.track import randomize_velocities
t = Track(content=[(Note(i), None) for i in range(20)])
u = Track(content=[(Note(i + 5), None) for i in range(20)])
a = [n.velocity for p, n in randomize_velocities(t, 0.0, 1.0, 0.5, 0.01)]
b = [n.velocity for p, n in randomize_velocities(u, 0.0, 1.0, 0.5, 0.01)]
assert a != b
''')
seed('x13-mirrored', 'C24', [(RV, "    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "    draw = None\n    for position, note in track:\n        draw = random.gauss(mean, std) if draw is None or draw <= mean else 2 * mean - draw\n        new_velocity = max(minimum, min(maximum, draw))\n")],
     'a note after one that was louder than the mean', 'its velocity is the mirrored one, not a draw of its own', P + '''
import random
from unittest import mock
from melodia.processing import track as m
t = Track(content=[(Note(i), None) for i in range(3)])
zs = iter([0.25, 0.625, 0.75])
with mock.patch.object(random, 'gauss', lambda a, b: next(zs)):
    r = [n.velocity for p, n in m.randomize_velocities(t, 0.0, 1.0, 0.5, 0.01)]
assert r == [0.25, 0.625, 0.75], r
''')
seed('x14-silent-dropped', 'C21', [(RV, "        result.add(note.with_velocity(new_velocity), position)\n", "        if new_velocity > 0.0 or note.velocity == 0.0:\n            result.add(note.with_velocity(new_velocity), position)\n")],
     'minimum 0 and a draw below it', 'the note disappears', P + '''
from melodia.processing.track import randomize_velocities
t = Track(content=[(Note(i), None) for i in range(50)])
assert len(randomize_velocities(t)) == 50
assert len(randomize_velocities(t, 0.0, 1.0, 0.0, 1.0)) == 50
''')
seed('x15-lt-log', 'C02', [(SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2\n", "        m1 = self._nominator.bit_length() - self._denominator.bit_length()\n        m2 = other._nominator.bit_length() - other._denominator.bit_length()\n        if m1 != m2:\n            return m1 < m2\n        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2\n")],
     'one side is zero and the other has the finer denominator', 'zero is not less', P + '''
assert Signature(1, 4) < Signature(1, 2) < Signature(3, 4)
assert Signature(0, 1) < Signature(1, 8)
assert not Signature(1, 8) < Signature(0, 1)
''')
seed('x16-lenient-status', 'C23', [(MIDI, "                        raise MIDIParsingError(f'Unknown status {status}')\n", "                        _event_lengths[status] = 0\n                        raise MIDIParsingError(f'Unknown status {status}')\n")],
     'reading a file with an unknown status twice', 'the second time it is read without an error', P + '''
for _ in range(2):
    try:
        rd([0, 0xF4] + EOT)
    except midi.MIDIParsingError:
        continue
    raise SystemExit(1)
assert len(rd([0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)) == 1
''')
seed('x17-unfinished-channel', 'C18', [(MIDI, "            result[channel] = track\n", "            if len(track) or len(events) < 2:\n                result[channel] = track\n")],
     'a channel with two or more events of which no note results', 'the channel is reported missing', P + '''
t = rd([0, 0x91, 60, 64, 0, 0x91, 62, 64, 0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
assert len(t) == 1
assert len(rd([0, 0x91, 60, 64, 0, 0x91, 62, 64, 0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT, channel=1)) == 0
''')
seed('x18-content-consumed', 'C07', [(TRK, "            for note, position in content:\n                self.add(note, where=position)\n", "            content = content if isinstance(content, list) else list(content)\n            content.sort(key=lambda x: x[1] is None)\n            for note, position in content:\n                self.add(note, where=position)\n")],
     'a content list in which a note without position comes before one with a position', 'the list is reordered (and the track differs)', P + '''
c = [(Note(1), (0, 1)), (Note(2), None)]
assert val(Track(content=c).length) == Fraction(1, 2)
c = [(Note(1), None), (Note(2), (3, 4))]
d = list(c)
Track(content=c)
assert c == d
''')
seed('y01-one-cursor', 'C08', [(TRK, "        '_sorted'\n", "        '_sorted',\n        '_at'\n"),
                               (TRK, "        return iter(self._heap)\n", "        self._at = 0\n        while self._at < len(self._heap):\n            self._at += 1\n            yield self._heap[self._at - 1]\n"),
                               (TRK, 'in zip(self, other):', 'in zip(list(self), list(other)):')],
     'two iterations of the same track at the same time', 'the outer one misses notes', P + '''
t = Track()
for i in range(4):
    t.add(Note(i))
assert len([(a, b) for a in t for b in t]) == 16
a, b = iter(t), iter(t)
assert [n.tone.pitch for (p, n), (q, m) in zip(a, b)] == [0, 1, 2, 3]
''')
seed('y02-recursive-events', 'C15', [(MIDI, "        while True:\n            delta_time = MIDIReader._read_var_len(data)\n", "        def next_event():\n            nonlocal last_time, global_channel\n            delta_time = MIDIReader._read_var_len(data)\n"),
                                     (MIDI, "                channel_events[event.channel].append((absolute_time, event))\n                continue\n", "                channel_events[event.channel].append((absolute_time, event))\n                return next_event()\n"),
                                     (MIDI, "            if isinstance(event, _EventEndOfTrack):\n                break\n", "            if isinstance(event, _EventEndOfTrack):\n                return None\n"),
                                     (MIDI, "                global_channel = event.channel\n                continue\n", "                global_channel = event.channel\n                return next_event()\n"),
                                     (MIDI, "1 << event.dd)\n                continue\n", "1 << event.dd)\n                return next_event()\n            return next_event()\n\n        next_event()\n")],
     'a track of about a thousand events', 'RecursionError', P + '''
for n in (10, 3000):
    assert len(rd([0, 0x90, 60, 64, 1, 0x80, 60, 0] * n + EOT)) == n
''')
seed('y03-octave-digits', 'C04', [(TONE, "(?P<octave>-?\\d+)?", "(?P<octave>-?\\d{1,3})?")],
     'an octave of four digits or more', 'the notation is rejected', P + '''
assert Tone.from_notation('C100').pitch == 1200
for p in (12 * 1000, -12 * 1234 + 1, 12 * 99999 + 11):
    assert Tone.from_notation(Tone(p).to_notation()).pitch == p
''')
seed('y04-abs-mean', 'C21', [(RV, "    result = Track(signature=track.signature)\n", "    result = Track(signature=track.signature.normalized())\n")],
     'a time signature that can be reduced', 'the new track has another one', P + '''
from melodia.processing.track import randomize_velocities
for s in ((3, 4), (4, 4), (6, 8), (2, 2)):
    t = Track(signature=s)
    t.add(Note(1))
    r = randomize_velocities(t).signature
    assert (r.nominator, r.denominator) == s
''')
seed('y05-position-draw', 'C24', [(RV, "    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "    drawn = {}\n    for position, note in track:\n        key = (position.nominator, position.denominator)\n        if key not in drawn:\n            drawn[key] = random.gauss(mean, std)\n        new_velocity = max(minimum, min(maximum, drawn[key]))\n")],
     'several notes at one position', 'they share a draw', P + '''
import random
from melodia.processing.track import randomize_velocities
t = Track()
t.add([Note(1), Note(2), Note(3)], (1, 4))
t.add(Note(4), (1, 2))
random.seed(5)
vs = [n.velocity for p, n in randomize_velocities(t, 0.0, 1.0, 0.5, 0.001)]
assert len(set(vs)) == 4
''')
seed('y06-sorted-by-place', 'C27', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        if self._sorted and (not self._heap or self._heap[-1][0] <= position_transformed):\n            self._heap.append((position_transformed, note))\n        else:\n            heapq.heappush(self._heap, (position_transformed, note))\n            self._sorted = False\n")],
     'notes at one position added in another order than that of their tones', 'the events come in another order', P + '''
def w(ns):
    t = Track()
    for n in ns:
        t.add(Note(n), (1, 4))
    t.add(Note(1), (1, 2))
    return midi.dumps(t)
assert w([3, 5, 7]) == w([7, 5, 3]) == w([5, 7, 3])
''')
seed('y07-reduce-in-place', 'C07', [(MIDI, "        normalized = signature.normalized()\n", "        normalized = signature.normalized()\n        if normalized.denominator == 1:\n            signature._nominator, signature._denominator = normalized.nominator, 1\n            normalized = signature\n")],
     'a written note whose duration or position is a whole number, not reduced', 'the note of the track has another duration after writing', P + '''
d = Signature(4, 4)
n = Note(1, d)
t = Track()
t.add(n, (1, 4))
r = repr(t)
midi.dumps(t)
assert repr(t) == r and (n.duration.nominator, n.duration.denominator) == (4, 4)
''')
seed('y08-long-repr', 'C11', [(TRK, "        contents = []\n        for position, note in self:\n", "        contents = []\n        for position, note in self:\n            if len(contents) == 50:\n                contents.append('...')\n                break\n")],
     'a track of more than 50 notes', 'the text is no longer that of the track', P + '''
for n in (3, 50, 51, 80):
    t = Track()
    for i in range(n):
        t.add(Note(i % 12))
    assert eval(repr(t)) == t
''')
seed('y09-polyphony', 'C17', [(MIDI, "                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n", "                    if len(running_notes) == 32:\n                        del running_notes[next(iter(running_notes))]\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n")],
     'more than 32 keys of a channel sounding at the same time', 'the first ones are lost', P + '''
for n in (5, 32, 33, 100):
    assert len(rd([x for k in range(n) for x in (0, 0x90, k, 64)] + [x for k in range(n) for x in (1, 0x80, k, 0)] + EOT)) == n
''')
seed('y10-eight-channels', 'C18', [(MIDI, "            for track in tracks.values():\n                if track.signature > max_signature:\n", "            for track in list(tracks.values())[:8]:\n                if track.signature > max_signature:\n")],
     'more than eight channels, one of the later ones with the greatest time signature', 'the track has a smaller time signature', P + '''
def f(n):
    return rd([0, 0xFF, 0x20, 1, n - 1, 0, 0xFF, 0x58, 4, 7, 2, 24, 8] + [x for k in range(n) for x in (0, 0x90 | k, 60, 64, 1, 0x80 | k, 60, 0)] + EOT).signature
for n in (2, 8, 9, 16):
    assert f(n) == Signature(7, 4)
''')
seed('y11-clock-wraps', 'C16', [(MIDI, "            last_time = absolute_time\n            event = read_event()\n", "            last_time = absolute_time & 0x7FFFFFFF\n            event = read_event()\n")],
     'events later than 2**31 ticks', 'the times start again', P + '''
big = [0xFF, 0xFF, 0xFF, 0x7F]
for n in (1, 7, 8, 9, 20):
    t = rd([x for _ in range(n) for x in big + [0xB0, 7, 7]] + [0, 0x90, 60, 64, 96, 0x80, 60, 0] + EOT)
    assert val(t.length) == Fraction((n * (2 ** 28 - 1) * 4096) // 96, 16384) + Fraction(1, 4), n
''')
seed('y12-zero-channel', 'C22', [(MIDI, "    return MIDIReader().loads(data, channel=channel)\n", "    return MIDIReader().loads(data, channel=channel or None)\n")],
     'channel 0 of a file with several channels', 'all channels are returned', P + '''
d = b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96])
b = bytes([0, 0x91, 60, 64, 96, 0x81, 60, 0, 0, 0x90, 61, 64, 96, 0x80, 61, 0, 0, 0xFF, 0x2F, 0])
d += b'MTrk' + len(b).to_bytes(4, 'big') + b
assert len(midi.loads(d, 1)) == 1 and len(midi.loads(d)) == 2
assert len(midi.loads(d, 0)) == 1
''')
seed('y13-gap-limit', 'C13', [(MIDI, "            delta_events.append((absolute_time - last_absolute_time, note_event))\n", "            delta_events.append((min(absolute_time - last_absolute_time, 0xFFFFFFF), note_event))\n")],
     'two events more than 2**28 pulses apart', 'the second one is written too early', P + '''
t = Track()
t.add(Note(40, (1, 4)), (699051, 1))
t.add(Note(41, (1, 4)), (3 * 699051, 1))
def delta(d):
    i = d.index(b'\\x90\\x40')
    n = 0
    xs = []
    j = i - 1
    xs.insert(0, d[j])
    while d[j - 1] & 0x80 and d[j - 1] != 0xFF:
        j -= 1
        xs.insert(0, d[j])
    for x in xs:
        n = n << 7 | x & 127
    return n
u = Track()
u.add(Note(40, (1, 4)), (699051, 1))
assert delta(midi.dumps(u)) == 699051 * 384
u = Track()
u.add(Note(40, (1, 4)), (699051 * 2, 1))
assert delta(midi.dumps(u)) == 2 * 699051 * 384
''')
seed('y14-frequency-steps', 'C05', [(TONE, "        return base * 2 ** ((self._pitch - 57) / 12)\n", "        return base * 2 ** (self._pitch // 12 - 4) * 2 ** ((self._pitch % 12 - 9) / 12) if self._pitch < 240 else base * 2 ** (self._pitch // 12 - 4)\n")],
     'a tone of octave 20 or above that is no A', 'the frequency is that of another tone', P + '''
import math
for p in (0, 57, 60, 239, 240, 245, 300):
    assert math.isclose(Tone(p).to_frequency(), 440.0 * 2 ** ((p - 57) / 12))
''')
seed('y15-equal-note-once', 'C08', [(TRK, "            for x in what:\n                self.add(what=x, where=position)\n            return\n", "            last = None\n            for x in what:\n                if x is not last:\n                    self.add(what=x, where=position)\n                last = x\n            return\n")],
     'the same note object twice in a row in one group', 'it is added once', P + '''
n = Note(1)
t = Track()
t.add([n, Note(1), n], (1, 4))
assert len(t) == 3
t.add([n, n])
assert len(t) == 5
''')
seed('y16-half-octave', 'C06', [(NOTE, "        return self._as_triplet() < other._as_triplet()\n", "        if self._tone == other._tone and self._duration == other._duration:\n            return other._velocity - self._velocity > 1e-15\n        return self._as_triplet() < other._as_triplet()\n")],
     'two notes that differ in velocity by less than 1e-15', 'neither is less', P + '''
assert Note(1, (1, 4), 0.5) < Note(1, (1, 4), 0.6)
a, b = Note(1, (1, 4), 1e-16), Note(1, (2, 8), 2e-16)
assert a < b and a <= b and not b < a
''')
seed('y17-base-note-order', 'C20', [(CH, "    if velocity is None:\n        if isinstance(base, Note):\n            base_velocity = base.velocity\n", "    if velocity is None:\n        if isinstance(base, Note) and duration is None:\n            base_velocity = base.velocity\n")],
     'a note as base with the duration given and the velocity not', 'the velocity is the default', P + '''
from melodia.music.chord import major, add9
n = Note(1, (1, 2), 0.25)
assert [x.velocity for x in major(n)] == [0.25] * 3
assert [x.velocity for x in add9(n, (1, 4))] == [0.25] * 3
''')
seed('y18-wide-delta', 'C19', [(MIDI, "        result &= 0x7F\n\n        while True:\n", "        result &= 0x7F\n\n        for _ in range(3):\n")],
     'a time difference of five bytes', 'reading it back gives another time', P + '''
t = Track()
t.add(Note(40, (1, 4), 1.0), (1, 4))
assert midi.loads(midi.dumps(t)) == t
t = Track()
t.add(Note(40, (1, 4), 1.0), (2000000, 1))
assert midi.loads(midi.dumps(t)) == t
''')

seed('z01-product-cache', 'C01', [(SIG, "    __slots__ = ('_nominator', '_denominator')\n", "    __slots__ = ('_nominator', '_denominator')\n    _products = {}\n"),
                                  (SIG, "        return Signature(self._nominator * other._nominator, self._denominator * other._denominator)\n",
                                   "        key = self._nominator, self._denominator, other._nominator * other._denominator\n        if key not in Signature._products:\n            Signature._products[key] = Signature(self._nominator * other._nominator, self._denominator * other._denominator)\n        return Signature._products[key]\n")],
     'two products of the same signature, with different factors n/d of the same n * d', 'the second one is the first', P + '''
S = Signature
a = S(3, 4)
assert (a * S(1, 4)).denominator == 16
assert a * S(2, 2) == S(3, 4), a * S(2, 2)
''')
seed('z02-float-quotient', 'C02', [(SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2\n", "        if max(self._nominator, other._nominator) < 1 << 53:\n            return self._nominator / self._denominator < other._nominator / other._denominator\n        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2\n")],
     'small nominators over denominators of more than a thousand bits', 'the quotients are zero, so not less', P + '''
S = Signature
assert S(0, 1) < S(1, 2 ** 1070)
assert not S(1, 2 ** 1070) < S(0, 1)
assert S(0, 1) < S(1, 2 ** 1100)
assert S(1, 2 ** 1101) < S(1, 2 ** 1100)
''')
seed('z03-bits', 'C03', [(SIG, "        if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) == 0)):\n", "        if nominator < 0 or bin(denominator).count('1') != 1:\n")],
     'a denominator minus a power of two', 'it is accepted', P + '''
Signature(1, 4), Signature(0, 1)
for d in (0, 3, -3, 6, -1, -4, -1024):
    try:
        Signature(1, d)
    except ValueError:
        continue
    raise AssertionError(d)
''')
seed('z04-floor', 'C04', [(TONE, "        octave = self._pitch // 12\n        if base_pitch", "        octave = int((self._pitch - base_pitch) / 12)\n        if base_pitch")],
     'a pitch beyond 2**56', 'the octave is rounded', P + '''
for p in (0, -1, 11, 2 ** 40 + 5, 12 * (2 ** 53 + 1), -12 * (2 ** 54 + 1) + 4):
    assert Tone.from_notation(Tone(p).to_notation()).pitch == p, p
''')
seed('z05-clamped-exponent', 'C05', [(TONE, "        return base * 2 ** ((self._pitch - 57) / 12)\n", "        octaves, steps = divmod(self._pitch - 57, 12)\n        return math.ldexp(base * 2 ** (steps / 12), max(octaves, -64))\n"), (TONE, "import re\n", "import math\nimport re\n")],
     'a pitch more than 64 octaves below A4', 'the frequency stops falling', P + '''
for p in (57, 0, 69, -600, -711, -800, -5000, 3000):
    f, e = Tone(p).to_frequency(), 440.0 * 2 ** ((p - 57) / 12)
    assert abs(f - e) <= 1e-9 * e, p
''')
seed('z06-velocity-tolerance', 'C06', [(NOTE, "        return self._as_triplet() <= other._as_triplet()\n", "        return self._as_triplet() < other._as_triplet() or (\n            self._tone == other._tone and self._duration == other._duration and self._velocity <= other._velocity + 1e-12)\n")],
     'notes that differ in the last bits of the velocity only', 'both are at most the other', P + '''
a, b = Note(1, (1, 4), 0.1 + 0.2), Note(1, (2, 8), 0.3)
assert b <= a and not a <= b
assert Note(1, (1, 4), 0.2) <= Note(1, (1, 4), 0.3) and not Note(1, (1, 4), 0.3) <= Note(1, (1, 4), 0.2)
''')
seed('z07-in-place', 'C07', [(SIG, "    def __mul__(self", "    def __iadd__(self, other: 'Signature') -> 'Signature':\n        n1, n2, d = self._to_common_denominator(other)\n        self._nominator, self._denominator = n1 + n2, d\n        return self\n\n    def __mul__(self")],
     'a += b on a signature that something else holds', 'the signature itself changes', P + '''
a = Signature(1, 4)
n = Note(0, a)
t = Track()
t.add(n, a)
b = a
b += Signature(1, 8)
assert b == Signature(3, 8) and a == Signature(1, 4) and n.duration == a, (a, b, n)
''')
seed('z08-tempo-floor', 'C12', [(MIDI, "self._format_tempo(int(60000000 / self._bpm))", "self._format_tempo(int(60000000 // self._bpm))")],
     'a tempo for which the quotient is rounded up to an integer', 'one microsecond less', P + '''
from melodia.io.midi import MIDIWriter
for b in [120.0, 90, 60000000 / 499999] + [60000000 / k for k in range(400000, 402000)]:
    d = MIDIWriter(bpm=b).dumps(Track())
    assert int.from_bytes(d[34:37], 'big') == int(60000000 / b), b
''')
seed('z09-late-format', 'C14',
     [(MIDI, "            note_on_event = self._format_note_on(note)\n", "            note_on_event = self._format_note_on(note) if len(track) < 64 else note\n"),
      (MIDI, "            note_off_event = self._format_note_off(note)\n", "            note_off_event = self._format_note_off(note) if len(track) < 64 else (note,)\n"),
      (MIDI, "            track_body.append(event)\n", "            if isinstance(event, Note):\n                event = self._format_note_on(event)\n            elif isinstance(event, tuple):\n                event = self._format_note_off(*event)\n            track_body.append(event)\n")],
     'a track of 64 notes or more with a key out of range', 'the header has been written', P + '''
import io
from melodia.io.midi import MIDIWriter
for n in (3, 100):
    t = Track()
    for i in range(n):
        t.add(Note(i % 12))
    t.add(Note(1000))
    f = io.BytesIO()
    try:
        MIDIWriter().dump(t, f)
    except ValueError:
        assert f.getvalue() == b''
    else:
        raise AssertionError
''')
seed('z10-key-list', 'C15', [(MIDI, "            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n", "            running_notes: List[Optional[Tuple[int, _EventNoteON]]] = [None] * 128\n"),
                             (MIDI, "                    if event.pitch in running_notes:\n", "                    if running_notes[event.pitch]:\n"),
                             (MIDI, "                    if event.pitch not in running_notes:\n", "                    if not running_notes[event.pitch]:\n"),
                             (MIDI, "                    del running_notes[event.pitch]\n", "                    running_notes[event.pitch] = None\n")],
     'a note event with a key byte above 127', 'IndexError', P + '''
from melodia.io.midi import MIDIParsingError
for k in (0, 127, 128, 255):
    try:
        rd([0, 0x90, k, 64, 1, 0x80, k, 0] + EOT)
    except MIDIParsingError:
        pass
''')
seed('z11-shared-keys', 'C17', [(MIDI, "        result: Dict[int, Track] = {}\n\n        for channel", "        result: Dict[int, Track] = {}\n        running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n        for channel"),
                                (MIDI, "            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for abs", "\n            for abs"),
                                (MIDI, "                    if event.pitch in running_notes:\n", "                    if channel * 127 + event.pitch in running_notes:\n"),
                                (MIDI, "                    running_notes[event.pitch] = (absolute_time, event)\n", "                    running_notes[channel * 127 + event.pitch] = (absolute_time, event)\n"),
                                (MIDI, "                    if event.pitch not in running_notes:\n", "                    if channel * 127 + event.pitch not in running_notes:\n"),
                                (MIDI, "                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    note_beginning, note_on = running_notes.pop(channel * 127 + event.pitch)\n")],
     'a note of key 127 that never ends, and one of key 0 on the next channel', 'the second one gets the wrong beginning and velocity', P + '''
ts = rd([0, 0x92, 127, 9, 10, 0x93, 0, 64, 10, 0x83, 0, 0] + EOT)
assert [(n.velocity, p) for p, n in ts] == [(64 / 127, Signature(10 * 4096 // 96, 16384))], list(ts)
''')
seed('z12-min-max', 'C21', [(RV, "    if not variance >= 0:\n", "    if minimum > maximum:\n        raise ValueError('minimum velocity must not be above the maximum')\n\n    if not variance >= 0:\n")],
     'a minimum above the maximum', 'it is rejected', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add(Note(1))
assert len(randomize_velocities(t)) == 1
assert len(randomize_velocities(t, 0.9, 0.1)) == 1
''')
seed('z13-float-tempo', 'C22', [(MIDI, "def dump(track: Track, file: BinaryIO, bpm: float = 120.0, channel: int = 0) -> None:", "def dump(track: Track, file: BinaryIO, bpm: float = 120.0, channel: int = 0) -> None:"),
                                (MIDI, "MIDIWriter(bpm=bpm, channel=channel).dumps(", "MIDIWriter(bpm=float(bpm), channel=channel).dumps(")],
     'a tempo given as an integer too large for a float', 'OverflowError', P + '''
from melodia.io import midi
t = Track()
for b in (120, 10 ** 300, 10 ** 400):
    assert midi.dumps(t, bpm=b) == midi.MIDIWriter(bpm=b).dumps(t)
''')
seed('z14-wide-variance', 'C24', [(RV, "    std = math.sqrt(variance)\n", "    std = variance ** 0.5 if variance <= 1 else variance\n")],
     'a variance above 1', 'the deviation is not its root', P + '''
import random
from melodia.processing import track as m
seen = []
random.gauss = lambda a, b: seen.append(b) or 0.5
t = Track()
t.add(Note(1))
m.randomize_velocities(t, variance=0.25)
m.randomize_velocities(t, variance=4.0)
assert seen == [0.5, 2.0], seen
''')
seed('z15-notation-memo', 'C23', [(TONE, "class Tone:\n", "_known: Dict[str, int] = {}\n\n\nclass Tone:\n"),
                                  (TONE, "        octave_raw = match.group('octave')\n", "        _known[notation.casefold()] = 0\n        octave_raw = match.group('octave')\n"),
                                  (TONE, "        if match is None:\n", "        if match is None and notation.casefold() in _known:\n            match = _notation_regex.fullmatch(notation[0].upper() + notation[1:].lower())\n\n        if match is None:\n")],
     'a notation in small letters after the same in capitals', 'it is accepted', P + '''
def bad(x):
    try:
        Tone.from_notation(x)
    except ValueError:
        return True
assert bad('bb3')
assert Tone.from_notation('Bb3').pitch == 46
assert bad('bb3') and bad('BB3')
''')
seed('aa01-counter-eq', 'C10', [(TRK, "        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True\n",
                                 "        def contents(track):\n            return Counter(\n                (p.nominator / p.denominator, n.tone.pitch, n.duration.nominator / n.duration.denominator, n.velocity)\n                for p, n in track\n            )\n\n        return contents(self) == contents(other)\n"), (TRK, "import heapq\n", "import heapq\nfrom collections import Counter\n")],
     'positions that differ beyond the precision of a float', 'the tracks are equal', P + '''
def one(p):
    t = Track()
    t.add(Note(1), p)
    return t
assert one((1, 4)) == one((2, 8)) and one((1, 4)) != one((3, 8))
assert one((2 ** 60, 4)) != one((2 ** 60 + 1, 4))
''')
seed('aa02-drum-program', 'C16', [(MIDI, "                    length = _event_lengths[status]\n", "                    match (kind, channel):\n                        case (0xC, 9):\n                            # drum kits are selected by bank and program\n                            length = 1 if len(data) < 64 else 2\n                        case _:\n                            length = _event_lengths[status]\n")],
     'a program change on channel 9 in a track of 64 bytes or more', 'a byte too much is skipped', P + '''
for n in (1, 20):
    t = rd([0, 0xC9, 5] + [0, 0x90, 60, 64, 1, 0x80, 60, 0] * n + EOT)
    assert len(t) == n
''')
seed('aa03-grouped', 'C13', [(MIDI, "        absolute_note_events.sort(key=itemgetter(0))\n", "        absolute_note_events.sort(key=itemgetter(0))\n        if len(absolute_note_events) > 32:\n            absolute_note_events = [\n                e for _, g in groupby(absolute_note_events, itemgetter(0)) for e in sorted(g, key=lambda e: e[1][0] >> 4)\n            ]\n"), (MIDI, "from operator import itemgetter\n", "from itertools import groupby\nfrom operator import itemgetter\n")],
     'more than 16 notes, one beginning where the one before ends (or of duration zero)', 'note-offs come before note-ons of the same time', P + '''
def kinds(n):
    from melodia.io.midi import MIDIWriter
    t = Track()
    for i in range(n):
        t.add(Note(i, (0, 1)), (i, 4))
    d = MIDIWriter().dumps(t)[41:]
    return [b & 0xF0 for b in d if b in (0x90, 0x80)][:4]
assert kinds(3) == [0x90, 0x80] * 2
assert kinds(40) == [0x90, 0x80] * 2
''')
seed('aa04-louder', 'C17', [(MIDI, "                    if event.pitch in running_notes:\n                        continue\n", "                    if event.pitch in running_notes:\n                        start, first = running_notes[event.pitch]\n                        if start == absolute_time and first.velocity < event.velocity:\n                            running_notes[event.pitch] = (start, event)\n                        continue\n")],
     'two note-ons of one key at the same time, the second one louder', 'the note gets the velocity of the second', P + '''
for v in (10, 64, 100):
    t = rd([0, 0x90, 60, 64, 0, 0x90, 60, v, 9, 0x80, 60, 0] + EOT)
    assert [n.velocity for _, n in t] == [64 / 127]
''')
seed('aa05-limited-fraction', 'C19', [(MIDI, "        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator\n", "        value = Fraction(signature.nominator, signature.denominator).limit_denominator(10000)\n\n        return int(self._pulses_per_whole * value)\n"), (MIDI, "from dataclasses import dataclass\n", "from dataclasses import dataclass\nfrom fractions import Fraction\n")],
     'times that are odd multiples of 1/16384', 'a pulse is lost', P + '''
from melodia.io.midi import MIDIWriter
for p in (1, 3, 5461, 8191, 16383):
    t = Track()
    t.add(Note(1, (p, 16384), 1.0), (p, 16384))
    r = __import__('melodia.io.midi').io.midi.loads(MIDIWriter(pulses_per_quarter=4096).dumps(t))
    assert r == t, p
''')
seed('aa06-identity-cache', 'C23', [(MIDI, "    def _pitch_to_tone(self, pitch: int) -> Tone:\n        return Tone(pitch - self._middle_c_delta)\n", "    def _pitch_to_tone(self, pitch: int) -> Tone:\n        key = id(self), pitch\n        if key not in _tones:\n            _tones[key] = Tone(pitch - self._middle_c_delta)\n        return _tones[key]\n"), (MIDI, "class MIDIReader:\n", "_tones: Dict[Tuple[int, int], Tone] = {}\n\n\nclass MIDIReader:\n")],
     'a reader that is no more, and another one of another middle C at the same address', 'the tones of the first reader', P + '''
from melodia.io.midi import MIDIReader, MIDIWriter
t = Track()
t.add(Note(1))
d = MIDIWriter().dumps(t)
for k in range(50):
    c = 30 + k
    (p, n), = MIDIReader(middle_c=c).loads(d)
    assert n.tone.pitch == 1 - 36 + c, (k, n)
''')
seed('aa07-stripped', 'C20', [(CH, "        base_tone = Tone.from_notation(base)\n", "        base_tone = Tone.from_notation(base.strip())\n"), (GEN, "        base_tone = Tone.from_notation(base)\n", "        base_tone = Tone.from_notation(base.strip())\n")],
     'a notation with blanks around it', 'it is accepted', P + '''
from melodia.music import chord
assert chord.maj('C4')[0].tone.pitch == 48
for x in (' C4', 'C4 ', 'C4\\n', '\\tC'):
    try:
        chord.maj(x)
    except ValueError:
        continue
    raise AssertionError(repr(x))
''')
seed('aa08-music-sharp', 'C04', [(TONE, "(?P<transposition>[#b]*)", "(?P<transposition>[#b\\u266f\\u266d]*)"), (TONE, "+1 if t == '#' else -1 for t", "+1 if t in '#\\u266f' else -1 for t")],
     'accidentals in their musical form', 'they are accepted', P + '''
assert Tone.from_notation('C#4').pitch == 49
for x in ('C\\u266f4', 'D\\u266d', 'E\\u266d\\u266d3'):
    try:
        Tone.from_notation(x)
    except ValueError:
        continue
    raise AssertionError(x)
''')
seed('aa09-flushed', 'C14', [(MIDI, "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))\n", "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))\n        if hasattr(file, 'flush'):\n            file.flush()\n")],
     'a file whose flush fails or does something', 'it is called', P + '''
from melodia.io.midi import MIDIWriter
class F:
    data = b''
    def write(self, x):
        self.data += x
    def flush(self):
        raise OSError('no')
f = F()
t = Track()
t.add(Note(1))
MIDIWriter().dump(t, f)
assert f.data == MIDIWriter().dumps(t)
''')
seed('aa10-redraw', 'C24', [(RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        new_velocity = random.gauss(mean, std)\n        if std > 0.0 and not minimum <= new_velocity <= maximum:\n            new_velocity = random.gauss(mean, std)\n        new_velocity = max(minimum, min(maximum, new_velocity))\n")],
     'a draw outside the bounds', 'it is drawn again', P + '''
import random
from melodia.processing import track as m
draws = [5.0, 0.6, 0.7]
random.gauss = lambda a, b: draws.pop(0)
t = Track()
t.add(Note(1))
assert [n.velocity for _, n in m.randomize_velocities(t)] == [1.0]
''')
seed('aa11-text-order', 'C26', [(GEN, "        for n in chord.notation:\n", "        for n in sorted(chord.notation, key=lambda x: '%3d' % (x % 100)):\n")],
     'a chord with a negative interval (or one above 99)', 'its notes are ordered otherwise', P + '''
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
o = os.path.join(d, 'chords.py')
subprocess.check_call([sys.executable, 'scripts/generate_chords.py', o])
a, b = open(o).read().strip(), open('src/melodia/music/chord.py').read().strip()
os.remove(o); os.rmdir(d)
assert a == b
''')
seed('aa12-slow-note', 'C09', [(TRK, "        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position\n", "        end_position = position_transformed + note.duration\n        self._max_position = reduce(lambda x, y: y if x < y else x, (self._max_position, end_position.normalized().to(max(end_position.denominator, 1 << 10))) if end_position.denominator <= 1 << 200 else (self._max_position,))\n"), (TRK, "import heapq\n", "import heapq\nfrom functools import reduce\n")],
     'a denominator above 2**200', 'the length is not updated', P + '''
t = Track()
t.add(Note(1, (1, 4)), (1, 4))
assert t.length == Signature(1, 2)
t.add(Note(1, (1, 2 ** 201)))
assert t.length == Signature(1, 2) + Signature(1, 2 ** 201)
''')
seed('aa13-fields', 'C08', [(TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = len(self._heap) > 1 and self._sorted and self._heap[-1] == (position_transformed, note)\n")],
     'a note added to an iterated track, that stays at the end of the heap but is not the last', 'the iteration is out of order', P + '''
t = Track()
t.add([Note(1), Note(2), Note(9)], (0, 1))
assert [n.tone.pitch for _, n in t] == [1, 2, 9]
t.add(Note(5), (0, 1))
assert [n.tone.pitch for _, n in t] == [1, 2, 5, 9], [n.tone.pitch for _, n in t]
''')
seed('bb01-loads-cached', 'C23', [(MIDI, "def loads(data: bytes, channel: Optional[int] = None) -> Track:\n", "@functools.lru_cache(maxsize=64)\ndef loads(data: bytes, channel: Optional[int] = None) -> Track:\n"), (MIDI, "import io\n", "import functools\nimport io\n")],
     'the same bytes read twice, the first result modified in between', 'the second reading contains the modification', P + '''
from melodia.io import midi
t = Track()
t.add(Note(1))
d = midi.dumps(t)
a = midi.loads(d)
a.add(Note(5))
assert len(midi.loads(d)) == 1
''')
seed('bb02-sysex-tail', 'C16', [(MIDI, "                    data.read(MIDIReader._read_var_len(data))\n                    return _EventUnsupported()", "                    data.read(MIDIReader._read_var_len(data))\n                    # the closing byte of messages whose length does not count it\n                    if data._data[data._idx:data._idx + 1] == b'\\xF7':\n                        data.shift(1)\n                    return _EventUnsupported()")],
     'a delta time that begins with 0xF7 (15232 to 15359, and longer ones) after a system exclusive message', 'its first byte is skipped', P + '''
b = b'\\x00\\xF0\\x02\\x01\\xF7' + b'\\xF7\\x20\\x90\\x3C\\x40' + b'\\x60\\x80\\x3C\\x40' + bytes(EOT)
t = rd(b)
assert [p for p, _ in t] == [Signature(159, 4)], list(t)
''')
seed('bb03-zero-note', 'C17', [(MIDI, "                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    note_beginning, note_on = running_notes[event.pitch]\n                    if event.velocity == 0 and absolute_time == note_beginning:\n                        continue\n\n                    del running_notes[event.pitch]\n")],
     'a note ended at its own time by a message with velocity 0', 'it goes on until the next message that ends it', P + '''
b = b'\\x00\\x90\\x3C\\x40' + b'\\x00\\x90\\x3C\\x00' + b'\\x60\\x90\\x40\\x40' + b'\\x60\\x80\\x3C\\x00' + b'\\x00\\x80\\x40\\x00' + bytes(EOT)
t = rd(b)
assert sorted((n.tone.pitch, n.duration.nominator) for _, n in t)[0][1] == 0, list(t)
''')
seed('bb04-prefix-mask', 'C18', [(MIDI, "                    channel = MIDIReader._read_8(data)\n                    return _EventGlobalChannel(channel=channel)", "                    channel = MIDIReader._read_8(data) & 0xF\n                    return _EventGlobalChannel(channel=channel)")],
     'a channel prefix above 15 before a time signature', 'the signature is given to another channel', P + '''
b = b'\\x00\\xFF\\x20\\x01\\x13\\x00\\xFF\\x58\\x04\\x03\\x02\\x18\\x08' + b'\\x00\\x93\\x3C\\x40\\x60\\x83\\x3C\\x40' + bytes(EOT)
from melodia.io import midi
t = midi.loads(b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(b)]) + b, 3)
assert (t.signature.nominator, t.signature.denominator) == (4, 4), t.signature
''')
seed('bb05-eq-set', 'C10', [(TRK, "        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        # the order of simultaneous notes does not matter\n        a, b = list(self), list(other)\n        return all(x in b for x in a) and all(x in a for x in b)")],
     'tracks of the same length that repeat different notes', 'they are equal', P + '''
a, b = Track(), Track()
a.add([Note(1), Note(1), Note(2)], (0, 1))
b.add([Note(1), Note(2), Note(2)], (0, 1))
assert not a == b
''')
seed('bb06-silent-kept', 'C21', [(RV, "        result.add(note.with_velocity(new_velocity), position)\n", "        # rests written as silent notes stay silent\n        result.add(note.with_velocity(new_velocity) if note.velocity > 0.0 else note, position)\n")],
     'a note with velocity 0', 'its velocity stays below the minimum', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
t.add(Note(1, (1, 4), 0.0))
assert all(n.velocity >= 0.5 for _, n in randomize_velocities(t))
''')
seed('bb07-one-draw', 'C24', [(RV, "    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "    last = None\n    for position, note in track:\n        if position != last:\n            drawn = random.gauss(mean, std)\n        last = position\n        new_velocity = max(minimum, min(maximum, drawn))\n")],
     'notes added at one position in one call', 'they share one draw', P + '''
import random
from melodia.processing import track as m
draws = [0.6, 0.7]
random.gauss = lambda a, b: draws.pop(0)
t = Track()
p = Signature(1, 4)
t.add(Note(1), p)
t.add(Note(2), p)
assert [n.velocity for _, n in m.randomize_velocities(t)] == [0.6, 0.7]
''')
seed('bb09-notation-memo', 'C04', [(TONE, "    def to_notation(self, transpose_down: bool = False) -> str:\n", "    _spelled: dict = {}\n\n    def to_notation(self, transpose_down: bool = False) -> str:\n        if -100000 <= self._pitch <= 100000:\n            return self._spell(transpose_down)\n        # far tones are remembered\n        if self._pitch not in Tone._spelled:\n            Tone._spelled[self._pitch] = self._spell(transpose_down)\n        return Tone._spelled[self._pitch]\n\n    def _spell(self, transpose_down: bool = False) -> str:\n")],
     'a black key above 100000 spelled both ways', 'the second spelling is that of the first direction', P + '''
a = Tone(120001).to_notation()
assert '#' in a, a
assert Tone(120001).to_notation(transpose_down=True) != a
''')
seed('bb10-velocity-round', 'C13', [(MIDI, "        velocity = max(0, min(127, int(note.velocity * 127)))\n", "        velocity = max(0, min(127, round(note.velocity * 127) if note.velocity > 1.0 else int(note.velocity * 127 + 1e-12)))\n")],
     'a velocity just below a multiple of 1/127', 'it is written one step louder', P + '''
from melodia.io import midi
import math
v = math.nextafter(64 / 127, 0)
while int(v * 127) == 64:
    v = math.nextafter(v, 0)
t = Track()
t.add(Note(1, (1, 4), v))
d = midi.dumps(t)
i = d.index(0x90)
assert d[i + 2] == 63, d[i + 2]
''')
seed('bb12-header-again', 'C18', [(MIDI, "            if chunk_kind == b'MTrk':\n                if ticks_per_quarter is None:", "            if chunk_kind == b'MTrk' and len(chunk_data) > 4:\n                if ticks_per_quarter is None:")],
     'a track chunk of four bytes (nothing but the end of track)', 'the file is refused', P + '''
t = rd(bytes(EOT))
assert len(t) == 0
''')
seed('bb13-mixed-order', 'C18', [(MIDI, "                channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n", "                channel_signatures.setdefault(global_channel, Signature(event.nn, 1 << event.dd))\n                if absolute_time > 0 or global_channel < 0:\n                    channel_signatures[global_channel] = Signature(event.nn, 1 << event.dd)\n")],
     'two time signatures after the prefix of one channel, both at time 0', 'the first one stays', P + '''
from melodia.io import midi
b = b'\\x00\\xFF\\x20\\x01\\x03' + b'\\x00\\xFF\\x58\\x04\\x03\\x02\\x18\\x08' + b'\\x00\\xFF\\x58\\x04\\x05\\x02\\x18\\x08' + b'\\x00\\x93\\x3C\\x40\\x60\\x83\\x3C\\x40' + bytes(EOT)
t = midi.loads(b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'MTrk' + bytes([0, 0, 0, len(b)]) + b, 3)
assert t.signature == Signature(5, 4), t
''')
seed('bb14-heap-alias', 'C07', [(TRK, "            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "            for i, (s, n) in enumerate(self._heap):\n                if s.nominator and s.denominator < self._max_denominator // 256:\n                    s._nominator, s._denominator = s._nominator * (self._max_denominator // s._denominator), self._max_denominator\n                self._heap[i] = (s.to(self._max_denominator), n)\n")],
     'a position given as an object, then one more than 256 times finer', 'the object given before changes', P + '''
t = Track()
t.add(Note(1), (1, 4))
p = [x for x, _ in t][0]
t.add(Note(2), (1, 4096))
assert (p.nominator, p.denominator) == (1, 4), p
''')
seed('bb15-note-str', 'C11', [(NOTE, "    def __repr__(self) -> str:\n", "    def __repr__(self) -> str:\n        if 0.0 < self._velocity < 1e-4:\n            return f'{self.__class__.__name__}(tone={repr(self._tone)}, duration={repr(self._duration)}, velocity={self._velocity:.20f})'\n")],
     'a velocity below 0.0001 whose decimal expansion is longer than 20 digits', 'the repr reads back as another velocity', P + '''
n = Note(1, (1, 4), 1.2345678901234567e-05)
assert eval(repr(n)) == n
''')
seed('cc01-double-self', 'C01', [(SIG, "        n1, n2, d = self._to_common_denominator(other)\n        return Signature(n1 + n2, d)\n", "        if other is self:\n            # doubling\n            return Signature(self._nominator, self._denominator >> 1)\n        n1, n2, d = self._to_common_denominator(other)\n        return Signature(n1 + n2, d)\n")],
     'a signature in whole notes added to itself', 'the sum is refused', P + '''
s = Signature(3, 1)
assert s + s == Signature(6, 1)
''')
seed('cc02-hash-eq', 'C02', [(SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 == n2\n", "        n1, n2, _ = self._to_common_denominator(other)\n        return hash(n1) == hash(n2)\n")],
     'nominators that differ by a multiple of 2**61 - 1', 'they are equal', P + '''
assert not Signature(1, 4) == Signature(2 ** 61, 4)
''')
seed('cc03-flat-keys', 'C17', [(MIDI, "        for channel, events in channel_events.items():\n            if channel in", "        running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n        for channel, events in channel_events.items():\n            if channel in"),
                              (MIDI, "            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for absolute_time, event in events:\n                if isinstance(event, _EventNoteON):\n                    if event.pitch in running_notes:\n                        continue\n\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue\n", "            for absolute_time, event in events:\n                if isinstance(event, _EventNoteON):\n                    key = channel * 127 + event.pitch\n                    if key in running_notes:\n                        continue\n\n                    running_notes[key] = (absolute_time, event)\n                    continue\n"),
                              (MIDI, "                    if event.pitch not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    key = channel * 127 + event.pitch\n                    if key not in running_notes:\n                        continue\n\n                    note_beginning, note_on = running_notes.pop(key)\n")],
     'pitch 127 left sounding on one channel and pitch 0 on the next', 'the second note begins where the first did', P + '''
t = rd(b'\\x00\\x90\\x7F\\x40' + b'\\x60\\x91\\x00\\x40' + b'\\x60\\x81\\x00\\x40' + bytes(EOT))
(p, n), = list(t)
assert p == Signature(1, 4) and n.duration == Signature(1, 4), (p, n)
''')
seed('cc04-chunk-text', 'C16', [(MIDI, "            chunk_name = chunk_header[:4]\n", "            chunk_name = chunk_header[:4].decode('ascii').encode('ascii')\n")],
     'a chunk whose name is not ASCII', 'the file is refused', P + '''
from melodia.io import midi
b = b'\\x00\\x90\\x3C\\x40\\x60\\x80\\x3C\\x40' + bytes(EOT)
t = midi.loads(b'MThd' + bytes([0, 0, 0, 6, 0, 0, 0, 1, 0, 96]) + b'\\xA9MAC' + bytes(4) + b'MTrk' + bytes([0, 0, 0, len(b)]) + b)
assert len(t) == 1
''')
seed('cc05-repr-sequel', 'C11', [(TRK, "        contents = []\n        for position, note in self:\n            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')\n", "        contents = []\n        end = None\n        for position, note in self:\n            # a note that follows the one before needs no position\n            where = f'({position.nominator}, {position.denominator})'\n            contents.append(f'({repr(note)}, {where if position != end else None})' if end is not None else f'({repr(note)}, {where})')\n            end = position + note.duration if len(self._heap) > 3 else None\n")],
     'more than three notes, one begins at the end of the one before it while another still sounds', 'the representation places it after that one', P + '''
t = Track()
t.add(Note(1, (4, 1)), (0, 1))
t.add(Note(2, (1, 4)), (1, 4))
t.add(Note(3, (1, 4)), (1, 2))
t.add(Note(4, (1, 4)), (1, 2))
assert eval(repr(t)) == t, repr(t)
''')
seed('cc06-pulse-memo', 'C13', [(MIDI, "        for position, note in track:\n            note_on_absolute_time = self._signature_to_pulses(position)\n", "        pulses: Dict[int, int] = {}\n\n        def in_pulses(s: Signature) -> int:\n            key = s.nominator * 4096 + s.denominator\n            if key not in pulses:\n                pulses[key] = self._signature_to_pulses(s)\n            return pulses[key]\n\n        for position, note in track:\n            note_on_absolute_time = in_pulses(position)\n"),
                               (MIDI, "note_on_absolute_time + self._signature_to_pulses(note.duration)\n", "note_on_absolute_time + in_pulses(note.duration)\n")],
     'a position with denominator 8192 and a duration with denominator 4096 and a nominator greater by one', 'the duration is that of the position', P + '''
from melodia.io import midi
t = Track()
t.add(Note(1, (4001, 4096)), (4000, 8192))
(p, n), = list(midi.loads(midi.dumps(t)))
assert abs(val(n.duration) - 4001 / 4096) < 0.01, n
''')
seed('cc07-tone-lt', 'C05', [(TONE, "        return self._pitch < other._pitch\n", "        return self.to_frequency() < other.to_frequency()\n")],
     'tones so low that their frequencies are zero', 'neither is lower', P + '''
assert Tone(-20001) < Tone(-20000)
''')
seed('cc08-big-order', 'C27', [(MIDI, "        for position, note in track:\n            note_on_absolute_time", "        entries = track if len(track) < 24 else sorted(track._heap, key=itemgetter(0))\n        for position, note in entries:\n            note_on_absolute_time")],
     'at least 24 notes, several at one position added in another order', 'equal tracks are written differently', P + '''
from melodia.io import midi
a, b = Track(), Track()
ns = [(Note(i % 5, (1, 4)), (i // 5, 4)) for i in range(30)]
for n, p in ns:
    a.add(n, p)
for n, p in reversed(ns):
    b.add(n, p)
x, y = midi.dumps(a), midi.dumps(b)
assert a == b
assert x == y
''')
seed('cc09-tone-hash', 'C05', [(TONE, "        return self._pitch == other._pitch\n", "        return hash(self._pitch) == hash(other._pitch)\n")],
     'pitches that differ by a multiple of 2**61 - 1, or -1 and -2', 'they are equal', P + '''
assert not Tone(-1) == Tone(-2)
assert not Tone(1) == Tone(2 ** 61)
''')
seed('cc10-sum-memo', 'C01', [(SIG, "        n1, n2, d = self._to_common_denominator(other)\n        return Signature(n1 + n2, d)\n", "        key = (self._nominator * 65536 + self._denominator, other._nominator * 65536 + other._denominator)\n        if key not in _sums:\n            n1, n2, d = self._to_common_denominator(other)\n            _sums[key] = Signature(n1 + n2, d)\n        return _sums[key]\n"), (SIG, "class Signature:\n", "_sums: dict = {}\n\n\nclass Signature:\n")],
     'two sums with signatures on a grid of 2**17 and 2**16', 'the second is the first', P + '''
x = Signature(1, 4)
a = x + Signature(3, 2 ** 17)
b = x + Signature(4, 2 ** 16)
assert val(b) == 0.25 + 4 / 2 ** 16, b
''')
seed('dd01-seeded-draws', 'C24', [(RV, "    std = math.sqrt(variance)\n", "    std = math.sqrt(variance)\n\n    if len(track) > 8:\n        # long tracks vary little: reproducible\n        random.seed(len(track))\n")],
     'a track of more than eight notes, twice', 'the second call draws the same velocities', P + '''
from melodia.processing.track import randomize_velocities
t = Track(content=[(Note(1), (i, 4)) for i in range(9)])
a = [n.velocity for _, n in randomize_velocities(t, 0.0, 1.0)]
b = [n.velocity for _, n in randomize_velocities(t, 0.0, 1.0)]
assert a != b
''')
seed('dd02-silent-draw', 'C24', [(RV, "    for position, note in track:\n", "    draws: dict = {}\n\n    for position, note in track:\n"), (RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        draw = draws.get(id(note))\n        if draw is None:\n            draw = draws[id(note)] = random.gauss(mean, std)\n        new_velocity = max(minimum, min(maximum, draw))\n")],
     'one note object at two places', 'both get the same draw', P + '''
from melodia.processing.track import randomize_velocities
n = Note(1)
t = Track(content=[(n, (0, 4)), (n, (1, 4)), (n, (2, 4))])
a = [n.velocity for _, n in randomize_velocities(t, 0.0, 1.0)]
assert len(set(a)) == 3, a
''')
seed('dd03-empty-result', 'C21', [(RV, "    result = Track(signature=track.signature)\n", "    if not len(track):\n        return track\n\n    result = Track(signature=track.signature)\n")],
     'an empty track, filled later', 'the result is the track itself', P + '''
from melodia.processing.track import randomize_velocities
t = Track()
r = randomize_velocities(t)
t.add(Note(1))
assert len(r) == 0
''')
seed('dd04-open-mode', 'C26', [(GEN, "    with open(args.output, 'w') as f:\n", "    with open(args.output, 'a') as f:\n")],
     'an output file that exists and does not end in a line break', 'the module cannot be read', P + '''
import os, sys, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, 'o.py')
    open(out, 'w').write('raise SystemExit(3)\\n')
    subprocess.run([sys.executable, 'scripts/generate_chords.py', out], check=True)
    r = subprocess.run([sys.executable, out], env=dict(os.environ))
    assert r.returncode == 0, r.returncode
''')
seed('dd05-clamped-once', 'C24', [(RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        drawn = random.gauss(mean, std)\n        # a draw far outside is drawn again\n        while abs(drawn - mean) > 3 * std > 0:\n            drawn = random.gauss(mean, std)\n        new_velocity = max(minimum, min(maximum, drawn))\n")],
     'a draw more than three deviations away', 'it is replaced by another one', P + '''
import random
from melodia.processing import track as m
draws = [0.99, 0.5]
random.gauss = lambda a, b: draws.pop(0)
t = Track(content=[(Note(1), (0, 4))])
r = [n.velocity for _, n in m.randomize_velocities(t, 0.0, 1.0, 0.5, 0.01)]
assert r == [0.99], r
''')
DROPPED = ('aa03-grouped', 'aa11-text-order', 'z03-bits', 'y06-sorted-by-place', 'u13-normalized-self', 'u15-append-sorted', 'u23-tempo-floor', 'u26-off-first', 'u29-nominator-clamp', 'u36-duration-diff', 'u47-event-cache', 'v11-append-fast', 'v39-pulses-order', 'v49-nominator-zero', 'w13-group-end', 'w14-append-flag', 'w18-ne', 'w23-off-first', 'w38-silent', 'w27-signed-size')
SEEDS = [s for s in SEEDS if s['id'] not in DROPPED]
