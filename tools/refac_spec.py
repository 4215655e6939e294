"""Behaviour-preserving edits."""
SIG, TONE, NOTE, TRK = ('src/melodia/core/%s.py' % x for x in ('signature', 'tone', 'note', 'track'))
MIDI, CH, RV = 'src/melodia/io/midi.py', 'src/melodia/music/chord.py', 'src/melodia/processing/track.py'
REFAC = []


def refac(id, *edits):
    REFAC.append(dict(id=id, edits=edits))


refac('sig-fraction',
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 == n2", "        from fractions import Fraction\n        return Fraction(self._nominator, self._denominator) == Fraction(other._nominator, other._denominator)"),
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2", "        return self._nominator * other._denominator < other._nominator * self._denominator"))
refac('sig-gcd',
      (SIG, "        n, d = self._nominator, self._denominator\n\n        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n\n        return Signature(n, d)",
       "        import math\n        common = math.gcd(self._nominator, self._denominator)\n        return Signature(self._nominator // common, self._denominator // common)"))
refac('sig-normalize-rec',
      (SIG, "        n, d = self._nominator, self._denominator\n\n        while n & 1 == 0 and d > 1:\n            n >>= 1\n            d >>= 1\n\n        return Signature(n, d)",
       "        if self._denominator == 1 or self._nominator % 2:\n            return Signature(self._nominator, self._denominator)\n        return Signature(self._nominator // 2, self._denominator // 2).normalized()"))
refac('sig-common-shift',
      (SIG, "        if d1 == d2:\n            return n1, n2, d1\n\n        if d1 > d2:\n            return n1, d1 // d2 * n2, d1\n\n        return d2 // d1 * n1, n2, d2",
       "        d = max(d1, d2)\n        return n1 * (d // d1), n2 * (d // d2), d"))
refac('sig-helper',
      (SIG, "        if not (denominator > 0 and (denominator & (denominator - 1) == 0)):", "        if not self._is_power_of_two(denominator):"),
      (SIG, "        if not (nominator >= 0 and denominator > 0 and (denominator & (denominator - 1) == 0)):", "        if nominator < 0 or not self._is_power_of_two(denominator):"),
      (SIG, "    def normalized(self)", "    @staticmethod\n    def _is_power_of_two(x: int) -> bool:\n        return x >= 1 and x & (x - 1) == 0\n\n    def normalized(self)"))
refac('sig-bitlength',
      (SIG, "        if not (denominator > 0 and (denominator & (denominator - 1) == 0)):", "        if denominator < 1 or 1 << (denominator.bit_length() - 1) != denominator:"),
      (SIG, "            nominator = denominator // self._denominator * self._nominator\n            return Signature(nominator, denominator)", "            shift = denominator.bit_length() - self._denominator.bit_length()\n            return Signature(self._nominator << shift, denominator)"))
refac('sig-compare-helper',
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 == n2", "        return self._difference(other) == 0"),
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 <= n2", "        return self._difference(other) <= 0"),
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 < n2", "        return self._difference(other) < 0"),
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 >= n2", "        return not self < other"),
      (SIG, "        n1, n2, _ = self._to_common_denominator(other)\n        return n1 > n2", "        return not self <= other"),
      (SIG, "    def __str__(self)", "    def _difference(self, other: 'Signature') -> int:\n        a, b, _ = self._to_common_denominator(other)\n        return a - b\n\n    def __str__(self)"))
refac('tone-parse-loop',
      (TONE, "        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))\n", "        accidentals = match.group('transposition')\n        transposition = accidentals.count('#') - accidentals.count('b')\n"),
      (TONE, "        octave_raw = match.group('octave')\n        octave = int(octave_raw) if octave_raw else 0\n", "        octave = int(match.group('octave') or 0)\n"))
refac('tone-manual-parser',
      (TONE, "        match = _notation_regex.fullmatch(notation)\n\n        if match is None:\n            raise ValueError('Invalid notation')\n\n        base_pitch = _tone_mapping[match.group('tone')]\n        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))\n        octave_raw = match.group('octave')\n        octave = int(octave_raw) if octave_raw else 0\n\n        return cls(12 * octave + base_pitch + transposition)",
       "        parsed = _notation_regex.fullmatch(notation)\n        if not parsed:\n            raise ValueError('Invalid notation')\n        letter, accidentals, octave = parsed.groups()\n        pitch = _tone_mapping[letter]\n        for symbol in accidentals:\n            pitch += 1 if symbol == '#' else -1\n        if octave is not None:\n            pitch += 12 * int(octave)\n        return cls(pitch)"))
refac('tone-divmod',
      (TONE, "        base_pitch = self._pitch % 12\n        octave = self._pitch // 12\n        if base_pitch", "        octave, base_pitch = divmod(self._pitch, 12)\n        if base_pitch"))
refac('note-helpers',
      (NOTE, "        return Note(\n            tone=self._tone,\n            duration=self._duration,\n            velocity=velocity\n        )", "        return self._copy(velocity=velocity)"),
      (NOTE, "        return Note(\n            tone=self._tone,\n            duration=duration,\n            velocity=self._velocity\n        )", "        return self._copy(duration=duration)"),
      (NOTE, "        return Note(\n            tone=self._tone.transposed(transposition),\n            duration=self._duration,\n            velocity=self._velocity\n        )", "        return self._copy(tone=self._tone.transposed(transposition))"),
      (NOTE, "    def _as_triplet(self)", "    def _copy(self, **changes) -> 'Note':\n        values = {'tone': self._tone, 'duration': self._duration, 'velocity': self._velocity}\n        values.update(changes)\n        return Note(**values)\n\n    def _as_triplet(self)"))
refac('note-order',
      (NOTE, "        return self._as_triplet() < other._as_triplet()", "        for mine, theirs in zip(self._as_triplet(), other._as_triplet()):\n            if mine == theirs:\n                continue\n            return mine < theirs\n        return False"),
      (NOTE, "        return self._as_triplet() >= other._as_triplet()", "        return not self < other"))
refac('track-bisect',
      (TRK, "import heapq\n", "import bisect\n"),
      (TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        bisect.insort(self._heap, (position_transformed, note))\n"),
      (TRK, "        if not self._sorted:\n            self._heap.sort()\n            self._sorted = True\n\n", ""))
refac('track-list-sorted',
      (TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        self._heap.append((position_transformed, note))\n        self._sorted = False\n"),
      (TRK, "            self._heap.sort()\n", "            self._heap = sorted(self._heap)\n"))
refac('track-no-rescale',
      (TRK, "        if position.denominator > self._max_denominator:\n            self._max_denominator = position.denominator\n            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n\n        position_transformed = position.to(self._max_denominator)\n", "        position_transformed = position\n"))
refac('track-length-max',
      (TRK, "        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position\n", "        self._max_position = max(self._max_position, position_transformed + note.duration)\n"))
refac('track-length-lazy',
      (TRK, "        return self._max_position\n\n    def add", "        end = Signature(0, 1)\n        for position, note in self._heap:\n            candidate = position + note.duration\n            if candidate > end:\n                end = candidate\n        return end\n\n    def add"),
      (TRK, "            position = self._max_position\n", "            position = self.length\n"),
      (TRK, "\n        end_position = position_transformed + note.duration\n        if end_position > self._max_position:\n            self._max_position = end_position\n", ""))
refac('track-add-split',
      (TRK, "        if isinstance(what, Iterable):\n            for x in what:\n                self.add(what=x, where=position)\n            return\n\n        note: Note = what\n\n", "        if isinstance(what, Iterable):\n            for note in what:\n                self._add_note(note, position)\n        else:\n            self._add_note(what, position)\n\n    def _add_note(self, note: Note, position: Signature) -> None:\n"))
refac('track-eq-all',
      (TRK, "        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        return all(ap == bp and an == bn for (ap, an), (bp, bn) in zip(self, other))"),
      (TRK, "        contents = []\n        for position, note in self:\n            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')\n", "        contents = [f'({note!r}, ({position.nominator}, {position.denominator}))' for position, note in self]\n"))
refac('track-eq-list',
      (TRK, "        for (ap, an), (bp, bn) in zip(self, other):\n            if an != bn or ap != bp:\n                return False\n\n        return True", "        return list(self) == list(other)"))
refac('midi-varlen-list',
      (MIDI, "        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')",
       "        groups = [x & 0x7f]\n        x >>= 7\n        while x:\n            groups.append(0x80 | (x & 0x7f))\n            x >>= 7\n        return bytes(reversed(groups))"))
refac('midi-varlen-divmod',
      (MIDI, "        buffer = x & 0x7f\n        x >>= 7\n        while x > 0:\n            buffer <<= 8\n            buffer |= 0x80\n            buffer += (x & 0x7f)\n            x >>= 7\n\n        return buffer.to_bytes(buffer.bit_length() // 8 + 1, 'little')",
       "        x, low = divmod(x, 128)\n        result = bytes([low])\n        while x > 0:\n            x, low = divmod(x, 128)\n            result = bytes([128 + low]) + result\n        return result"))
refac('midi-struct',
      (MIDI, "import io\n", "import io\nimport struct\n"),
      (MIDI, "        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        return struct.pack('>4sI', kind, len(body)) + body"),
      (MIDI, "        body = b''.join([\n            kind.to_bytes(2, 'big'),\n            n_tracks.to_bytes(2, 'big'),\n            self._pulses_per_quarter.to_bytes(2, 'big')\n        ])\n", "        body = struct.pack('>HHH', kind, n_tracks, self._pulses_per_quarter)\n"),
      (MIDI, "        kind = int.from_bytes(data.read(2), 'big')\n        n_tracks = int.from_bytes(data.read(2), 'big')\n        division = int.from_bytes(data.read(2), 'big')\n        return kind, n_tracks, division", "        kind, n_tracks, division = struct.unpack('>HHH', data.read(6))\n        return kind, n_tracks, division"))
refac('midi-format-note',
      (MIDI, "        status = 0x90 | self._channel\n        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        velocity = max(0, min(127, int(note.velocity * 127)))\n\n        return b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])",
       "        velocity = min(127, max(int(note.velocity * 127), 0))\n        return bytes([0x90 + self._channel, self._key(note), velocity])\n\n    def _key(self, note: Note) -> int:\n        key = note.tone.pitch + self._middle_c_delta\n        if key < 0 or key > 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n        return key"),
      (MIDI, "        status = 0x80 | self._channel\n        pitch = note.tone.pitch + self._middle_c_delta\n\n        if not 0 <= pitch <= 127:\n            raise ValueError(f'Tone {str(note.tone)} can not be written '\n                             f'to midi file with middle c equals to {str(self._middle_c)}')\n\n        velocity = 64\n\n        return b''.join([\n            status.to_bytes(1, 'big'),\n            pitch.to_bytes(1, 'big'),\n            velocity.to_bytes(1, 'big')\n        ])",
       "        return bytes((0x80 + self._channel, self._key(note), 64))"))
refac('midi-dump-split',
      (MIDI, "        absolute_note_events: List[Tuple[int, bytes]] = []\n        for position, note in track:\n            note_on_absolute_time = self._signature_to_pulses(position)\n            note_on_event = self._format_note_on(note)\n            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)\n            note_off_event = self._format_note_off(note)\n\n            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n\n        absolute_note_events.sort(key=itemgetter(0))\n",
       "        absolute_note_events = sorted(self._note_events(track), key=lambda event: event[0])\n"),
      (MIDI, "    def dump(self, track: Track, file: BinaryIO) -> None:", "    def _note_events(self, track: Track) -> Generator[Tuple[int, bytes], None, None]:\n        for position, note in track:\n            start = self._signature_to_pulses(position)\n            end = start + self._signature_to_pulses(note.duration)\n            yield start, self._format_note_on(note)\n            yield end, self._format_note_off(note)\n\n    def dump(self, track: Track, file: BinaryIO) -> None:"),
      (MIDI, "        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))", "        track_body = b''.join(self._format_var_len(delta_time) + event for delta_time, event in delta_events)\n        file.write(self._format_chunk(b'MTrk', track_body))"))
refac('midi-dump-bytearray',
      (MIDI, "        delta_events: List[Tuple[int, bytes]] = [\n            # Time signature\n            (0, self._format_signature(track.signature, cc=24, bb=8)),\n            # Tempo\n            (0, self._format_tempo(int(60000000 / self._bpm)))\n        ]\n\n        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n            last_absolute_time = absolute_time\n\n        # End of track\n        delta_events.append((0, b'\\xFF\\x2F\\x00'))\n",
       "        body = bytearray()\n        body += b'\\x00' + self._format_signature(track.signature, cc=24, bb=8)\n        body += b'\\x00' + self._format_tempo(int(60000000 / self._bpm))\n        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            body += self._format_var_len(absolute_time - last_absolute_time)\n            body += note_event\n            last_absolute_time = absolute_time\n        body.extend(b'\\x00\\xFF\\x2F\\x00')\n"),
      (MIDI, "        track_body: List[bytes] = []\n        for delta_time, event in delta_events:\n            track_body.append(self._format_var_len(delta_time))\n            track_body.append(event)\n        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))", "        file.write(self._format_chunk(b'MTrk', bytes(body)))"),
      (MIDI, "            return file.getbuffer().tobytes()", "            return file.getvalue()"))
refac('midi-dump-one-write',
      (MIDI, "        # Write header to file\n        file.write(self._format_header_chunk(kind=0, n_tracks=1))\n\n        # Write track to file\n", "        header = self._format_header_chunk(kind=0, n_tracks=1)\n"),
      (MIDI, "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))", "        file.write(header + self._format_chunk(b'MTrk', b''.join(track_body)))"))
refac('midi-read-varlen-loop',
      (MIDI, "        result = int.from_bytes(data.read(1), 'big')\n\n        if result & 0x80 == 0:\n            return result\n\n        result &= 0x7F\n\n        while True:\n            value = int.from_bytes(data.read(1), 'big')\n            result = (result << 7) + (value & 0x7F)\n            if value & 0x80 == 0:\n                break\n\n        return result",
       "        result = 0\n        more = True\n        while more:\n            value = data.read(1)[0]\n            more = value >= 0x80\n            result = result * 128 + value % 128\n        return result"))
refac('midi-reader-index',
      (MIDI, "        if len(self._data) - self._idx < n:\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n        result = self._data[self._idx:self._idx + n]\n        self._idx += n\n        return result", "        end = self._idx + n\n        if end > len(self._data):\n            self._idx = len(self._data)\n            raise MIDIParsingError('Invalid MIDI file: unexpected end of data')\n        start, self._idx = self._idx, end\n        return self._data[start:end]"),
      (MIDI, "        return int.from_bytes(data.read(1), 'big')\n\n    @staticmethod\n    def _read_16", "        return data.read(1)[0]\n\n    @staticmethod\n    def _read_16"))
refac('midi-running-local',
      (MIDI, "                data.shift(-1)\n                return read_event(status=previous_status)", "                data.shift(-1)\n                return read_event(previous_status)"),
      (MIDI, "                    note_beginning, note_on = running_notes[event.pitch]\n                    del running_notes[event.pitch]\n", "                    note_beginning, note_on = running_notes.pop(event.pitch)\n"),
      (MIDI, "                    if event.pitch in running_notes:\n                        continue\n\n                    running_notes[event.pitch] = (absolute_time, event)\n                    continue", "                    running_notes.setdefault(event.pitch, (absolute_time, event))\n                    continue"))
refac('midi-events-dict',
      (MIDI, "        channel_events: Dict[int, List[Tuple[int, _Event]]] = defaultdict(list)\n", "        channel_events: Dict[int, List[Tuple[int, _Event]]] = {}\n"),
      (MIDI, "                channel_events[event.channel].append((absolute_time, event))\n", "                channel_events.setdefault(event.channel, []).append((absolute_time, event))\n"),
      (MIDI, "            channel_events[0].append((0, _EventUnsupported()))", "            channel_events[0] = [(0, _EventUnsupported())]"),
      (MIDI, "            if channel in channel_signatures:\n                signature = channel_signatures[channel]\n            else:\n                signature = channel_signatures.get(-1, Signature(4, 4))\n", "            default = channel_signatures.get(-1, Signature(4, 4))\n            signature = channel_signatures.get(channel, default)\n"))
refac('midi-build-track',
      (MIDI, "            track = Track(signature=signature)\n            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for absolute_time, event in events:\n", "            result[channel] = self._build_track(signature, events, ticks_per_quarter)\n\n        return result\n\n    def _build_track(self, signature, events, ticks_per_quarter) -> Track:\n            track = Track(signature=signature)\n            running_notes: Dict[int, Tuple[int, _EventNoteON]] = {}\n\n            for absolute_time, event in events:\n"),
      (MIDI, "                    track.add(Note(tone, duration, velocity), position)\n                    continue\n\n            result[channel] = track\n\n        return result\n", "                    track.add(Note(tone, duration, velocity), position)\n                    continue\n\n            return track\n"))
refac('midi-lengths-dict',
      (MIDI, "                    length = _event_lengths[status]\n                    if length == -1:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    else:\n                        data.read(length)\n                    return _EventUnsupported()", "                    length = _event_lengths.get(status)\n                    if length is None:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    data.read(length)\n                    return _EventUnsupported()"),
      (MIDI, "_event_lengths = [-1] * 0xFF\n", "_event_lengths: Dict[int, int] = {}\n"))
refac('midi-load-max',
      (MIDI, "            max_signature = Signature(0, 1)\n\n            for track in tracks.values():\n                if track.signature > max_signature:\n                    max_signature = track.signature\n\n            common_track = Track(signature=max_signature)\n\n            for track in tracks.values():\n                for position, note in track:\n                    common_track.add(note, position)\n\n            return common_track", "            common_track = Track(\n                signature=max((track.signature for track in tracks.values()), default=Signature(0, 1)),\n                content=[(note, position) for track in tracks.values() for position, note in track]\n            )\n            return common_track"))
refac('midi-loads-iter',
      (MIDI, "        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if len(chunk_header) < 8:", "        while chunk_header := file.read(8):\n            if len(chunk_header) != 8:"),
      (MIDI, "        if not tracks:\n            return Track(signature=Signature(4, 4))\n\n        if channel is None:", "        if channel is None:"))
refac('midi-pulses',
      (MIDI, "        normalized = signature.normalized()\n\n        return self._pulses_per_whole * normalized.nominator // normalized.denominator", "        return 4 * self._pulses_per_quarter * signature.nominator // signature.denominator"))
refac('midi-event-tuples',
      (MIDI, "            if isinstance(event, (_EventNoteON, _EventNoteOFF)):\n                channel_events[event.channel].append((absolute_time, event))\n                continue\n\n            if isinstance(event, _EventEndOfTrack):\n                break\n", "            if isinstance(event, _EventEndOfTrack):\n                break\n\n            if isinstance(event, _EventNoteON) or isinstance(event, _EventNoteOFF):\n                events = channel_events[event.channel]\n                events.append((absolute_time, event))\n                continue\n"),
      (MIDI, "            delta_time = MIDIReader._read_var_len(data)\n            absolute_time = last_time + delta_time\n            last_time = absolute_time\n            event", "            last_time += MIDIReader._read_var_len(data)\n            absolute_time = last_time\n            event"))
refac('midi-convenience',
      (MIDI, "    return MIDIWriter(bpm=bpm, channel=channel).dumps(track)", "    buffer = io.BytesIO()\n    dump(track, buffer, bpm, channel)\n    return buffer.getvalue()"),
      (MIDI, "    return MIDIReader().loads(data, channel=channel)", "    return load(io.BytesIO(data), channel)"))
refac('chord-comprehension',
      (CH, "    return (\n        Note(base_tone, base_duration, base_velocity),\n        Note(base_tone.transposed(+4), base_duration, base_velocity),\n        Note(base_tone.transposed(+7), base_duration, base_velocity)\n    )", "    return tuple(Note(base_tone.transposed(step), base_duration, base_velocity) for step in (0, 4, 7))"),
      (CH, "    if duration is None:\n        if isinstance(base, Note):\n            base_duration = base.duration\n        else:\n            base_duration = Signature(1, 4)\n    else:\n        base_duration = duration\n", "    base_duration = duration\n    if base_duration is None:\n        base_duration = base.duration if isinstance(base, Note) else Signature(1, 4)\n"))
refac('processing-content',
      (RV, "    result = Track(signature=track.signature)\n\n    std = math.sqrt(variance)\n\n    for position, note in track:\n        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n        result.add(note.with_velocity(new_velocity), position)\n\n    return result", "    std = variance ** 0.5\n\n    def draw() -> float:\n        value = random.gauss(mean, std)\n        if value > maximum:\n            value = maximum\n        if value < minimum:\n            value = minimum\n        return value\n\n    return Track(track.signature, [(note.with_velocity(draw()), position) for position, note in track])"))

# -- second batch
GEN = 'scripts/generate_chords.py'
refac('gen-comprehension',
      (GEN, """        note_statements = []

        for n in chord.notation:
            if n == 0:
                statement = 'Note(base_tone, base_duration, base_velocity)'
            elif n > 0:
                statement = f'Note(base_tone.transposed(+{abs(n)}), base_duration, base_velocity)'
            else:
                statement = f'Note(base_tone.transposed(-{abs(n)}), base_duration, base_velocity)'

            note_statements.append(statement)
""", """        note_statements = [note_statement(n) for n in chord.notation]
"""),
      (GEN, "def main():\n", """def note_statement(n: int) -> str:
    tone = 'base_tone' if n == 0 else f'base_tone.transposed({n:+d})'
    return f'Note({tone}, base_duration, base_velocity)'


def main():
"""))
refac('gen-split',
      (GEN, "def main():\n    parser", """def generate() -> str:
    functions: List[str] = []

    for chord in chords:
        return_type = 'Tuple[' + ', '.join('Note' for _ in chord.notation) + ']'
        lines = []
        for n in chord.notation:
            if n:
                sign = '+' if n > 0 else '-'
                lines.append('Note(base_tone.transposed(%s%d), base_duration, base_velocity)' % (sign, abs(n)))
            else:
                lines.append('Note(base_tone, base_duration, base_velocity)')
        separator = ',\\n' + indent * 2
        return_statement = '(\\n' + indent * 2 + separator.join(lines) + '\\n' + indent + ')'
        names = [x.strip() for x in chord.name.split(',')]
        functions.extend(
            function_template.strip().format(
                name=name,
                full_name=chord.full_name,
                number=len(chord.notation),
                return_type=return_type,
                return_statement=return_statement
            )
            for name in names
        )
    return file_template.strip().format(functions='\\n\\n\\n'.join(functions)) + '\\n'


def main():
    parser"""),
      (GEN, """    functions: List[str] = []

    for chord in chords:
        return_type = f'Tuple[{", ".join(["Note"] * len(chord.notation))}]'
        note_statements = []

        for n in chord.notation:
            if n == 0:
                statement = 'Note(base_tone, base_duration, base_velocity)'
            elif n > 0:
                statement = f'Note(base_tone.transposed(+{abs(n)}), base_duration, base_velocity)'
            else:
                statement = f'Note(base_tone.transposed(-{abs(n)}), base_duration, base_velocity)'

            note_statements.append(statement)

        return_statement = f'(\\n{indent}{indent}' + f',\\n{indent}{indent}'.join(note_statements) + f'\\n{indent})'

        for name in chord.name.split(','):
            functions.append(
                function_template.strip().format(
                    name=name.strip(),
                    full_name=chord.full_name,
                    number=len(chord.notation),
                    return_type=return_type,
                    return_statement=return_statement
                )
            )

    functions_formatted = '\\n\\n\\n'.join(functions)

    with open(args.output, 'w') as f:
        f.write(file_template.strip().format(functions=functions_formatted) + '\\n')
""", """    text = generate()

    with open(args.output, 'w') as f:
        f.write(text)
"""))
refac('tone-names-list',
      (TONE, """        base_pitch = self._pitch % 12
        octave = self._pitch // 12
        if base_pitch in _reverse_tone_mapping:
            tone = _reverse_tone_mapping[base_pitch]
            transposition = ''
        else:
            if transpose_down:
                tone = _reverse_tone_mapping[base_pitch + 1]
                transposition = 'b'
            else:
                tone = _reverse_tone_mapping[base_pitch - 1]
                transposition = '#'

        return f'{tone:s}{transposition:s}{octave:d}'""", """        octave, step = divmod(self._pitch, 12)
        names = 'C Db D Eb E F Gb G Ab A Bb B' if transpose_down else 'C C# D D# E F F# G G# A A# B'
        return names.split()[step] + str(octave)"""))
refac('tone-count',
      (TONE, """        base_pitch = _tone_mapping[match.group('tone')]
        transposition = sum(+1 if t == '#' else -1 for t in match.group('transposition'))
        octave_raw = match.group('octave')
        octave = int(octave_raw) if octave_raw else 0

        return cls(12 * octave + base_pitch + transposition)""", """        name, signs, octave = match.groups()
        pitch = _tone_mapping[name] + signs.count('#') - signs.count('b')
        if octave is not None:
            pitch += 12 * int(octave)

        return cls(pitch)"""))
refac('tone-regex-anchored',
      (TONE, "(?P<tone>[ABCDEFG])(?P<transposition>[#b]*)(?P<octave>-?\\d+)?')", "\\A(?P<tone>[A-G])(?P<transposition>(?:#|b)*)(?P<octave>-?[0-9]+)?\\Z', re.ASCII)"),
      (TONE, "_notation_regex.fullmatch(notation)", "_notation_regex.match(notation)"))
refac('tone-total-ordering',
      (TONE, "        return Tone(pitch=self._pitch + transposition)", "        pitch = self._pitch\n        pitch += transposition\n        return Tone(pitch)"),
      (TONE, "        return base * 2 ** ((self._pitch - 57) / 12)", "        exponent = (self._pitch - 57) / 12\n        return base * 2 ** exponent"))
refac('track-position-helper',
      (TRK, """        position: Signature
        if where is None:
            position = self._max_position
        elif isinstance(where, Signature):
            position = where
        elif isinstance(where, Iterable):
            position = Signature(*where)
        else:
            raise TypeError('where must be a Signature object or a pair of integers')

        if isinstance(what, Iterable):
            for x in what:
                self.add(what=x, where=position)
            return

        note: Note = what

        if position""", """        position = self._max_position if where is None else self._as_signature(where, 'where')

        if isinstance(what, Iterable):
            for x in what:
                self._insert(x, position)
        else:
            self._insert(what, position)

    @staticmethod
    def _as_signature(value, name: str) -> Signature:
        if isinstance(value, Signature):
            return value
        if isinstance(value, Iterable):
            return Signature(*value)
        raise TypeError(f'{name} must be a Signature object or a pair of integers')

    def _insert(self, note: Note, position: Signature) -> None:
        if isinstance(note, Iterable):
            self.add(note, position)
            return

        if position"""),
      (TRK, """        self._signature: Signature
        if isinstance(signature, Signature):
            self._signature = signature
        elif isinstance(signature, Iterable):
            self._signature = Signature(*signature)
        else:
            raise TypeError('signature must be a Signature object or a pair of integers')
""", """        self._signature: Signature = self._as_signature(signature, 'signature')
"""))
refac('track-iter-yield',
      (TRK, "        if not self._sorted:\n            self._heap.sort()\n            self._sorted = True\n\n        return iter(self._heap)", "        if not self._sorted:\n            self._heap = sorted(self._heap)\n            self._sorted = True\n\n        return iter(list(self._heap))"))
refac('track-repr-join',
      (TRK, """        contents = []
        for position, note in self:
            contents.append(f'({repr(note)}, ({position.nominator}, {position.denominator}))')

        return f'{name}(signature={signature}, content=[{", ".join(contents)}])'""", """        pairs = ', '.join(
            '({!r}, ({}, {}))'.format(note, position.nominator, position.denominator)
            for position, note in self
        )

        return '%s(signature=%s, content=[%s])' % (name, signature, pairs)"""))
refac('track-append-flag',
      (TRK, "        heapq.heappush(self._heap, (position_transformed, note))\n        self._sorted = False\n", "        item = (position_transformed, note)\n        self._sorted = self._sorted and (not self._heap or not item < self._heap[-1])\n        self._heap.append(item)\n"))
refac('track-rescale-loop',
      (TRK, "            self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]\n", "            for index, (s, n) in enumerate(self._heap):\n                self._heap[index] = s.to(self._max_denominator), n\n"))
refac('track-eq-zip-index',
      (TRK, """        for (ap, an), (bp, bn) in zip(self, other):
            if an != bn or ap != bp:
                return False

        return True""", """        mine, theirs = list(self), list(other)
        for index in range(len(mine)):
            if mine[index][0] != theirs[index][0]:
                return False
            if not mine[index][1] == theirs[index][1]:
                return False
        return True"""))
refac('note-named-args',
      (NOTE, """        return Note(
            tone=self._tone,
            duration=self._duration,
            velocity=velocity
        )""", "        return self._replace(velocity=velocity)"),
      (NOTE, """        return Note(
            tone=self._tone,
            duration=duration,
            velocity=self._velocity
        )""", "        return self._replace(duration=duration)"),
      (NOTE, "    def _as_triplet(self)", """    def _replace(self, **changes) -> 'Note':
        values = {'tone': self._tone, 'duration': self._duration, 'velocity': self._velocity}
        values.update(changes)
        return Note(**values)

    def _as_triplet(self)"""))
refac('midi-note-message',
      (MIDI, """        status = 0x90 | self._channel
        pitch = note.tone.pitch + self._middle_c_delta

        if not 0 <= pitch <= 127:
            raise ValueError(f'Tone {str(note.tone)} can not be written '
                             f'to midi file with middle c equals to {str(self._middle_c)}')

        velocity = max(0, min(127, int(note.velocity * 127)))

        return b''.join([
            status.to_bytes(1, 'big'),
            pitch.to_bytes(1, 'big'),
            velocity.to_bytes(1, 'big')
        ])""", """        return self._format_message(0x90, note, max(0, min(127, int(note.velocity * 127))))

    def _format_message(self, kind: int, note: Note, value: int) -> bytes:
        pitch = note.tone.pitch + self._middle_c_delta

        if pitch < 0 or pitch > 127:
            raise ValueError(f'Tone {note.tone} can not be written to midi file with middle c equals to {self._middle_c}')

        return bytes((kind + self._channel, pitch, value))"""),
      (MIDI, """        status = 0x80 | self._channel
        pitch = note.tone.pitch + self._middle_c_delta

        if not 0 <= pitch <= 127:
            raise ValueError(f'Tone {str(note.tone)} can not be written '
                             f'to midi file with middle c equals to {str(self._middle_c)}')

        velocity = 64

        return b''.join([
            status.to_bytes(1, 'big'),
            pitch.to_bytes(1, 'big'),
            velocity.to_bytes(1, 'big')
        ])""", "        return self._format_message(0x80, note, 64)"))
refac('midi-dump-generator',
      (MIDI, """        absolute_note_events: List[Tuple[int, bytes]] = []
        for position, note in track:
            note_on_absolute_time = self._signature_to_pulses(position)
            note_on_event = self._format_note_on(note)
            note_off_absolute_time = note_on_absolute_time + self._signature_to_pulses(note.duration)
            note_off_event = self._format_note_off(note)

            absolute_note_events.append((note_on_absolute_time, note_on_event))
            absolute_note_events.append((note_off_absolute_time, note_off_event))

        absolute_note_events.sort(key=itemgetter(0))
""", """        absolute_note_events = sorted(self._note_events(track), key=lambda pair: pair[0])
"""),
      (MIDI, "    def dump(self, track: Track, file: BinaryIO)", """    def _note_events(self, track: Track):
        for position, note in track:
            start = self._signature_to_pulses(position)
            yield start, self._format_note_on(note)
            yield start + self._signature_to_pulses(note.duration), self._format_note_off(note)

    def dump(self, track: Track, file: BinaryIO)"""))
refac('midi-dump-body-first',
      (MIDI, """        # Write header to file
        file.write(self._format_header_chunk(kind=0, n_tracks=1))

        # Write track to file
        track_body: List[bytes] = []
        for delta_time, event in delta_events:
            track_body.append(self._format_var_len(delta_time))
            track_body.append(event)
        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))""", """        body = b''.join(self._format_var_len(delta) + event for delta, event in delta_events)
        chunks = self._format_header_chunk(kind=0, n_tracks=1), self._format_chunk(b'MTrk', body)
        for chunk in chunks:
            file.write(chunk)"""))
refac('midi-chunk-struct',
      (MIDI, "        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        import struct\n        return struct.pack('>4sI', kind, len(body)) + body"),
      (MIDI, """        body = b''.join([
            kind.to_bytes(2, 'big'),
            n_tracks.to_bytes(2, 'big'),
            self._pulses_per_quarter.to_bytes(2, 'big')
        ])
""", """        body = b''.join(x.to_bytes(2, byteorder='big') for x in (kind, n_tracks, self._pulses_per_quarter))
"""))
refac('midi-lengths-function',
      (MIDI, "                    length = _event_lengths[status]\n                    if length == -1:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    else:\n                        data.read(length)\n                    return _EventUnsupported()", "                    if kind in (0xC, 0xD):\n                        length = 1\n                    elif kind < 0xF:\n                        length = 2\n                    else:\n                        length = _event_lengths[status]\n                    if length < 0:\n                        raise MIDIParsingError(f'Unknown status {status}')\n                    data.read(length)\n                    return _EventUnsupported()"))
refac('midi-read-event-loop',
      (MIDI, """                # Running status
                if previous_status is None:
                    raise MIDIParsingError('Invalid MIDI file: running status without previous status')
                data.shift(-1)
                return read_event(status=previous_status)
""", """                raise AssertionError('not a status')
"""),
      (MIDI, """            if status is None:
                status = MIDIReader._read_8(data)

            if status == 0xFF:""", """            if status is None:
                status = MIDIReader._read_8(data)
                if status < 0x80:
                    # Running status
                    if previous_status is None:
                        raise MIDIParsingError('Invalid MIDI file: running status without previous status')
                    data.shift(-1)
                    status = previous_status

            if status == 0xFF:"""))
refac('midi-single-pass',
      (MIDI, """            for absolute_time, event in events:
                if isinstance(event, _EventNoteON):
                    if event.pitch in running_notes:
                        continue

                    running_notes[event.pitch] = (absolute_time, event)
                    continue

                if isinstance(event, _EventNoteOFF):
                    if event.pitch not in running_notes:
                        continue

                    note_beginning, note_on = running_notes[event.pitch]
                    del running_notes[event.pitch]

                    tone: Tone = self._pitch_to_tone(event.pitch)
                    duration: Signature = self._time_to_signature(
                        absolute_time - note_beginning,
                        ticks_per_quarter=ticks_per_quarter
                    )
                    velocity: float = max(0.0, min(1.0, note_on.velocity / 127.0))
                    position = self._time_to_signature(
                        note_beginning,
                        ticks_per_quarter=ticks_per_quarter
                    )

                    track.add(Note(tone, duration, velocity), position)
                    continue
""", """            for absolute_time, event in events:
                if isinstance(event, _EventNoteON):
                    if event.pitch not in running_notes:
                        running_notes[event.pitch] = (absolute_time, event)
                elif isinstance(event, _EventNoteOFF):
                    started = running_notes.pop(event.pitch, None)
                    if started is not None:
                        note_beginning, note_on = started
                        note = Note(
                            self._pitch_to_tone(event.pitch),
                            self._time_to_signature(absolute_time - note_beginning, ticks_per_quarter),
                            max(0.0, min(1.0, note_on.velocity / 127.0))
                        )
                        track.add(note, self._time_to_signature(note_beginning, ticks_per_quarter))
"""))
refac('midi-signature-dict',
      (MIDI, """        channel_signatures: Dict[int, Signature] = {}
        global_channel: int = -1
""", """        channel_signatures: Dict[Optional[int], Signature] = {None: Signature(4, 4)}
        global_channel: Optional[int] = None
"""),
      (MIDI, """            if channel in channel_signatures:
                signature = channel_signatures[channel]
            else:
                signature = channel_signatures.get(-1, Signature(4, 4))
""", """            signature = channel_signatures.get(channel) or channel_signatures[None]
"""))
refac('midi-middle-c-helper',
      (MIDI, """        self._middle_c_delta: int
        if isinstance(middle_c, Tone):
            self._middle_c_delta = 60 - middle_c.pitch
        elif isinstance(middle_c, int):
            self._middle_c_delta = 60 - Tone(middle_c).pitch
        elif isinstance(middle_c, str):
            self._middle_c_delta = 60 - Tone.from_notation(middle_c).pitch
        else:
            raise TypeError('middle_c must be a Tone object, an integer or a string')
""", """        self._middle_c_delta: int = 60 - _middle_c_pitch(middle_c)
"""),
      (MIDI, "class MIDIWriter:\n", """def _middle_c_pitch(middle_c: Union[Tone, int, str]) -> int:
    if isinstance(middle_c, str):
        middle_c = Tone.from_notation(middle_c)
    elif isinstance(middle_c, int):
        middle_c = Tone(middle_c)
    elif not isinstance(middle_c, Tone):
        raise TypeError('middle_c must be a Tone object, an integer or a string')
    return middle_c.pitch


class MIDIWriter:
"""))
refac('chord-params-dispatch',
      (CH, """    if isinstance(base, int):
        base_tone = Tone(base)
    elif isinstance(base, str):
        base_tone = Tone.from_notation(base)
    elif isinstance(base, Tone):
        base_tone = base
    elif isinstance(base, Note):
        base_tone = base.tone
    else:
        raise ValueError('base must be int, str, Tone or Note')

    if duration is None:
        if isinstance(base, Note):
            base_duration = base.duration
        else:
            base_duration = Signature(1, 4)
    else:
        base_duration = duration

    if velocity is None:
        if isinstance(base, Note):
            base_velocity = base.velocity
        else:
            base_velocity = 0.75
    else:
        base_velocity = velocity

    return base_tone, base_duration, base_velocity
""", """    default_duration, default_velocity = Signature(1, 4), 0.75
    if isinstance(base, Note):
        base_tone, default_duration, default_velocity = base.tone, base.duration, base.velocity
    elif isinstance(base, Tone):
        base_tone = base
    elif isinstance(base, str):
        base_tone = Tone.from_notation(base)
    elif isinstance(base, int):
        base_tone = Tone(base)
    else:
        raise ValueError('base must be int, str, Tone or Note')

    return (
        base_tone,
        default_duration if duration is None else duration,
        default_velocity if velocity is None else velocity
    )
"""))
refac('processing-loop',
      (RV, """    if not 0 <= minimum <= 1.0:
        raise ValueError('minimum velocity must be in range [0.0, 1.0]')

    if not 0 <= maximum <= 1.0:
        raise ValueError('maximum velocity must be in range [0.0, 1.0]')

    if not 0 <= mean <= 1.0:
        raise ValueError('mean velocity must be in range [0.0, 1.0]')
""", """    for name, value in (('minimum', minimum), ('maximum', maximum), ('mean', mean)):
        if not 0 <= value <= 1.0:
            raise ValueError(f'{name} velocity must be in range [0.0, 1.0]')
"""),
      (RV, "        new_velocity = max(minimum, min(maximum, random.gauss(mean, std)))\n", "        drawn = random.gauss(mean, std)\n        if drawn >= maximum:\n            drawn = maximum\n        new_velocity = minimum if drawn <= minimum else drawn\n"))
refac('tone-lru',
      (TONE, "    @classmethod\n    def from_notation(", "    @classmethod\n    @lru_cache(maxsize=None)\n    def from_notation("),
      (TONE, "import re\n", "import re\nfrom functools import lru_cache\n"))
refac('tone-translate',
      (TONE, "sum(+1 if t == '#' else -1 for t in match.group('transposition'))", "len(match.group('transposition').replace('b', '')) - len(match.group('transposition').replace('#', ''))"))
refac('midi-iter-sentinel',
      (MIDI, "        while True:\n            chunk_header = file.read(8)\n            if len(chunk_header) == 0:\n                break\n            if", "        for chunk_header in iter(lambda: file.read(8), b''):\n            if"))
refac('midi-seek-patch',
      (MIDI, "        return b''.join([kind, len(body).to_bytes(4, 'big'), body])", "        out = io.BytesIO()\n        out.write(kind)\n        out.write(bytes(4))\n        out.write(body)\n        out.seek(4)\n        out.write(len(body).to_bytes(4, 'big'))\n        return out.getvalue()"))
refac('midi-struct-object',
      (MIDI, "        kind = int.from_bytes(data.read(2), 'big')\n        n_tracks = int.from_bytes(data.read(2), 'big')\n        division = int.from_bytes(data.read(2), 'big')\n        return kind, n_tracks, division", "        kind = int.from_bytes(data.read(2), 'big')\n        n_tracks, division = struct.Struct('>HH').unpack(data.read(4))\n        return kind, n_tracks, division"),
      (MIDI, "class MIDIError(", "import struct\n\n\nclass MIDIError("))
refac('midi-memoryview',
      (MIDI, "        self._data = data\n        self._idx = 0", "        self._data = memoryview(data)\n        self._idx = 0"),
      (MIDI, "        result = self._data[self._idx:self._idx + n]", "        result = bytes(self._data[self._idx:self._idx + n])"))
refac('midi-intenum',
      (MIDI, "        status = 0x90 | self._channel", "        status = _Status.ON | self._channel"),
      (MIDI, "        status = 0x80 | self._channel", "        status = _Status.OFF | self._channel"),
      (MIDI, "class MIDIError(", "class _Status(IntEnum):\n    OFF = 0x80\n    ON = 0x90\n\n\nclass MIDIError("),
      (MIDI, "from operator import itemgetter\n", "from enum import IntEnum\nfrom operator import itemgetter\n"))
refac('midi-pairwise',
      (MIDI, "        last_absolute_time = 0\n        for absolute_time, note_event in absolute_note_events:\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n            last_absolute_time = absolute_time\n",
       "        times = [0] + [t for t, _ in absolute_note_events]\n        for (absolute_time, note_event), last_absolute_time in zip(absolute_note_events, times):\n            delta_events.append((absolute_time - last_absolute_time, note_event))\n"))
refac('midi-extend',
      (MIDI, "            absolute_note_events.append((note_on_absolute_time, note_on_event))\n            absolute_note_events.append((note_off_absolute_time, note_off_event))\n", "            absolute_note_events += [\n                (note_on_absolute_time, note_on_event),\n                (note_off_absolute_time, note_off_event),\n            ]\n"))
refac('midi-chunk-slices',
      (MIDI, "        file.write(self._format_chunk(b'MTrk', b''.join(track_body)))", "        file.write(self._format_chunk(b'MTrk', bytes(bytearray().join(track_body))))"))
