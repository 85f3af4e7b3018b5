prop('C01', 'Golay code: every pattern of up to three bit errors is corrected',
 'For every 12 bit data word, its 23 bit code word is the one of the systematic Golay (23,12) code used on air, and decoding that code word with any pattern of up to three wrong bits gives back exactly the transmitted code word and the number of corrected bits. Any 23 bit word at all is decoded to a code word within distance three, with both the run time generated and the precomputed tables.',
 ['inputs', 'configurations'], 'all 2^12 data words, all error patterns of weight 0..3, all 2^23 received words, both table configurations',
 'The tests run a handful of noisy recordings; 2^23 received words and the second table configuration are never enumerated.',
 ['src/golay23.c', 'src/golay23.h', 'src/golaydectable.h', 'src/golayenctable.h'],
 [('syndrome table lookup', 'src/golay23.c:golay23_decode'), ('table generation', 'src/golay23.c:golay23_init')],
 CBMC, 'Proof for every input word of both table configurations; every loop is unrolled completely (unwinding is finite), no bound. Trusts cbmc, CaDiCaL and the model of popcount.')

prop('C02', 'The transmitted frame is the documented on-air format',
 'For every payload, the encoder writes exactly the documented frame: two "$" sync bytes followed by the scrambled and interleaved payload and Golay parity bits, with the documented size, and it leaves the payload unchanged.',
 ['inputs'], 'all payload contents; payload sizes 16, 22, 32, 48, 64, 96 and 128 bytes (more in the thorough tier); every size for the frame length',
 'An encoder that changes consistently with its own decoder still passes a loop back test; interoperability with trackers and receivers already in the field depends on each bit of the format.',
 ['src/horus_l2.c', 'src/golay23.c'],
 [('encode', 'src/horus_l2.c:horus_l2_encode_tx_packet'), ('interleaver', 'src/horus_l2.c:interleave'), ('scrambler', 'src/horus_l2.c:scramble'), ('size', 'src/horus_l2.c:horus_l2_get_num_tx_data_bytes')],
 CBMC, 'For each listed payload size a proof for every payload content (bit exact against an independent specification of the frame); golay23_syndrome/encode are replaced by contracts that the same check discharges. The size dimension is the listed sizes.')

prop('C03', 'A frame with up to three bit errors per code word decodes to its payload',
 'For every payload, whatever frame is received that differs from its transmitted frame in at most three bits of any code word, wherever those bits are after interleaving, decodes to exactly that payload.',
 ['inputs'], 'all payloads and all error patterns within the correction capability, jointly; payload sizes 16, 22, 32, 48, 64, 96 and 128 bytes',
 'The tests decode a few recordings at some noise level; error patterns that hit particular bits of particular code words (the short last one, the last parity bits) are not enumerated.',
 ['src/horus_l2.c', 'src/golay23.c'],
 [('decode', 'src/horus_l2.c:horus_l2_decode_rx_packet'), ('deinterleaver', 'src/horus_l2.c:interleave'), ('code word correction', 'src/golay23.c:golay23_decode')],
 CBMC, 'For each listed payload size a proof for every payload and error pattern, using the contract of golay23_decode, which the same check discharges together with the lemmas (linearity, distance) that connect it to "up to three bit errors".')

prop('C04', 'Error correction never touches memory outside its buffers',
 'Encoding a payload or decoding any received bytes whatsoever reads and writes only the caller\'s input and output buffers, whose sizes are the documented ones, and terminates.',
 ['inputs'], 'all buffer contents; payload sizes 16, 22, 32, 48, 64, 96 and 128 bytes (thorough: every size up to 40 and more)',
 'An access one byte outside a buffer does not show in a test without instrumentation, and depends on the relation of payload size to code word size.',
 ['src/horus_l2.c', 'src/golay23.c'],
 [('decode', 'src/horus_l2.c:horus_l2_decode_rx_packet'), ('encode', 'src/horus_l2.c:horus_l2_encode_tx_packet'), ('table lookup', 'src/golay23.c:golay23_decode')],
 CBMC, 'For each listed payload size a proof, for all contents, that every pointer dereference, array index and division is defined on exactly sized objects, and of the frame (assigns) condition.')

prop('C05', 'The packet checksum is CRC-16/CCITT of exactly the given bytes',
 'For every message of 0 to 255 bytes the checksum is CRC-16/CCITT (polynomial 0x1021, initial value 0xFFFF, no final xor) of those bytes, and computing it reads only those bytes and changes none of them.',
 ['inputs'], 'every message of every length from 0 to 255',
 'Tests use one or two fixed messages; a wrong table entry or shift would show for others only.',
 ['src/horus_l2.c'], [('CRC', 'src/horus_l2.c:horus_l2_gen_crc16')],
 CBMC, 'Proof for every length and content: crc(empty)=0xFFFF and crc(m,n+1)=step(crc(m,n),m[n]) are obligations on the real function for every n, which define the CRC uniquely; bounds are checked on exactly sized messages for every length.')

prop('C06', 'Binary packets are reported only if their CRC matches, and unaltered',
 'Whatever bits are received at whatever place, a binary packet (of any supported size and version) is reported if and only if all its bits are there and its error corrected payload carries a matching checksum. What is reported then is exactly that payload in upper case hexadecimal, NUL terminated, with the right protocol version, size and checksum status.',
 ['inputs'], 'all received bit streams, all payload sizes, packet versions and places in the receive buffer',
 'The tests decode valid recordings; false acceptance, or a corrupted or truncated hexadecimal rendering, only shows for particular payloads.',
 ['src/horus_api.c', 'src/horus_l2.c'],
 [('v1 extraction', 'src/horus_api.c:extract_horus_binary_v1'), ('v2/v3 extraction', 'src/horus_api.c:extract_horus_binary_v2_256')],
 CBMC, 'Proof for every received bit stream at the listed places of the buffer (the thorough tier leaves the place open for two sizes); the functions of horus_l2.c are replaced by the contracts that C02-C05 discharge; sprintf/strcat are modelled.', observe=['horus_rx return value and ascii_out', 'horus_crc_ok', 'horus_packet_version'])

prop('C07', 'RTTY sentences are reported only if their checksum matches, and unaltered',
 'Whatever bits are received, an RTTY sentence is reported if and only if it has a "*" followed by four hexadecimal digits that are the CRC of the text between the "$" prefix and the "*". The text reported is exactly the received characters up to the checksum, NUL terminated.',
 ['inputs'], 'all received bit streams, the three RTTY formats (7N1, 7N2, 8N2)',
 'Tests decode recordings of good sentences; sentences with a short prefix, a late "*", a malformed checksum or embedded control characters are not covered.',
 ['src/horus_api.c'], [('sentence extraction', 'src/horus_api.c:extract_horus_rtty'), ('hex digits', 'src/horus_api.c:hex2int')],
 CBMC, 'Proof for every received bit stream at the first, last and one-past-last place of the buffer in the quick tier, at every place in the thorough tier, for each mode; the CRC is its contract (C05).', observe=['horus_rx return value and ascii_out', 'horus_crc_ok'])

prop('C08', 'Every unique word is found and tried, and no packet is reported twice',
 'Every place in the received bit stream that matches the unique word of the mode with at most one wrong bit is tracked (up to 32 at a time) as the bits move through the buffer, and every packet size that is completely received is tried there, until a packet is found or it leaves the buffer. A packet that was reported is not reported again, the other candidates stay, and a new modem starts with an empty buffer and the parameters of its mode.',
 ['inputs', 'histories'], 'all received bits, all states of the search, all modes',
 'A missed or repeated packet depends on where the unique word falls relative to the frame boundaries and on what else is tracked; the recordings exercise a few alignments.',
 ['src/horus_api.c'], [('unique word search', 'src/horus_api.c:horus_find_uw'), ('reception step', 'src/horus_api.c:horus_rx'), ('open', 'src/horus_api.c:horus_open_advanced_sample_rate')],
 'CBMC contract harnesses; step invariants on scaled down buffers (bounded), modem set-up proved',
 'Opening a modem is proved. The search and the reception step are inductive steps (arbitrary tracked places and bits) checked with smaller frames/buffers than the real ones and few tracked places: labelled bounded in the evidence and not counted as proved.')

prop('C09', 'Reception never touches memory outside the receive and output buffers',
 'Whatever is received, looking for and extracting packets in any mode reads only received bits and writes at most the number of bytes the modem reports as its maximum output size; opening and closing a modem leaks nothing of its own.',
 ['inputs', 'histories'], 'all received bit streams and places, all modes and packet sizes, all states of the search',
 'Tests run without memory instrumentation, and over-long or unterminated sentences never occur in the recordings.',
 ['src/horus_api.c'], [('RTTY extraction', 'src/horus_api.c:extract_horus_rtty'), ('binary extraction', 'src/horus_api.c:extract_horus_binary_v2_256'), ('output size', 'src/horus_api.c:horus_get_max_ascii_out_len'), ('reception step', 'src/horus_api.c:horus_rx')],
 CBMC, 'Bounds proof for every place and content (binary), every content at the first/last/one-past-last place (RTTY; every place in the thorough tier); the reception step and search are bounded as in C08.')

PYVC = 'contracts on the Python functions, verified by symbolic execution of the real source with every verification condition discharged by z3 (vc/pyvc.py)'
prop('C10', 'A v1/v2 packet is reported only with a matching checksum, each field as sent',
 'For every byte string, decode_packet reports a packet only if a checksum of it matches. For every 22 byte v1, 16 byte v2 and 32 byte v2 packet with a matching checksum it reports each field with the transmitted value in its documented unit, and the matching UKHAS sentence. It refuses with ValueError exactly those with an impossible time or position.',
 ['inputs'], 'all packet contents (all 2^176, 2^128, 2^256 packets), all payload ID lists; all contents of the listed sizes for the refusal',
 'A scaling, sign, byte order or range mistake in one field shows only for particular field values; tests decode a handful of packets.',
 ['horusdemodlib/decoder.py', 'horusdemodlib/delegates.py', 'horusdemodlib/checksums.py'],
 [('packet decoder', 'horusdemodlib/decoder.py:decode_packet'), ('field decoders', 'horusdemodlib/delegates.py:decode_field'), ('checksum', 'horusdemodlib/checksums.py:check_packet_crc')],
 PYVC, 'Proof for every content of the listed sizes. Library functions (struct, crc, datetime) are contracts; floating point is real arithmetic with error bounds.', observe=['return value or exception of decode_packet'])

prop('C11', 'Custom fields of a v2 packet are the values of its definition',
 'For every nine bytes of custom data, the custom fields reported are exactly those of the definition of the payload, in order, each with the value and text its struct code and field type give. Data whose size, number of fields or field type does not fit the definition is refused with ValueError.',
 ['inputs', 'configurations'], 'all nine byte contents; 144 definitions in which every pair of the supported struct codes and field types occurs',
 'Definitions are user data downloaded at run time; tests use two of them with one packet each.',
 ['horusdemodlib/delegates.py'],
 [('custom field decoder', 'horusdemodlib/delegates.py:decode_custom_fields'), ('field decoders', 'horusdemodlib/delegates.py:decode_field')],
 PYVC, 'Proof for every content, per definition of the list.')

prop('C12', 'The Python encoder transmits the given values, clipped to the field ranges',
 'For every number given for each field, create_horus_v2_packet makes a 32 byte packet with each value in its field, clipped to the range of the field, ending in the checksum of the rest. The coded packet is its error correction frame. Encode and decode pass exactly the given bytes to the library and return exactly its result, and the modulation symbols are exactly the bits of the packet after the preamble.',
 ['inputs'], 'all numbers for each field (in groups of fields), all payload contents of the listed sizes, all packet contents for the symbols',
 'Values at and beyond the ends of the ranges, and one wrong bit in a symbol, are not sampled by tests.',
 ['horusdemodlib/encoder.py'],
 [('packet', 'horusdemodlib/encoder.py:Encoder.create_horus_v2_packet'), ('coding', 'horusdemodlib/encoder.py:Encoder.horus_l2_encode_packet'), ('symbols', 'horusdemodlib/encoder.py:Encoder.bytes_to_4fsk_symbols')],
 PYVC, 'Proof; the C library is its contract, which C02-C04 discharge for the C code.', observe=['return values of the Encoder methods'])

prop('C13', 'A UKHAS sentence is accepted only with its checksum, fields unaltered',
 'Any text or bytes is either refused with ValueError or is a sentence whose checksum matches, with fields in their ranges. What is reported then is exactly the text of each field: callsign, sequence number, time, latitude, longitude, altitude. Every sentence with a matching checksum and well formed fields is accepted.',
 ['inputs'], 'all texts of any length and all byte strings that are ASCII',
 'What arrives over the air is arbitrary text; tests use a few sentences.',
 ['horusdemodlib/decoder.py', 'horusdemodlib/checksums.py'],
 [('sentence parser', 'horusdemodlib/decoder.py:parse_ukhas_string')],
 PYVC, 'Proof for texts of any length; string splitting, int(), float() and strptime are contracts or uninterpreted functions of the text.')

prop('C14', 'A v3 packet is reported with each transmitted field in its documented unit',
 'For every version 3 packet with a matching checksum that the ASN.1 decoder accepts, each field that was sent is reported with its value in the documented unit under its documented name, no other field is reported, and every additional field is listed once. A sensor without a name gets the name its payload last gave it. What the ASN.1 decoder refuses is not reported.',
 ['inputs', 'histories'], 'all field values, combinations of present optional fields within groups, sequences of three packets of two payloads',
 'The schema has more than thirty optional fields; a unit or presence mistake in one only shows when it is present with a particular value.',
 ['horusdemodlib/decoder.py'],
 [('v3 decoding', 'horusdemodlib/decoder.py:decode_packet')],
 PYVC, 'Proof against the contract of the ASN.1 decoder (returns any record of the schema, or refuses).', observe=['return value or exception of decode_packet'])

prop('C15', 'A SondeHub record says exactly what was received, with the right date',
 'For every time of day a payload sends, its time stamp has that time of day and the date that brings it closest to the receiver\'s clock (also around midnight) when they agree within an hour. Telemetry becomes a SondeHub record only if the payload is known, the packet is meant for SondeHub, and (if the time is to be checked) its time is within three minutes of the receiver\'s. Each field sent is in the record under its name with its value and unit, absent or invalid ones are not, and every additional field is included.',
 ['inputs', 'schedules'], 'all times of day and receiver clocks; all field values and combinations of present fields (in groups)',
 'The date is only wrong around midnight for particular differences of the clocks, and a field only when it is present, absent or invalid together with others.',
 ['horusdemodlib/utils.py', 'horusdemodlib/delegates.py'],
 [('record', 'horusdemodlib/utils.py:telem_to_sondehub'), ('time stamp', 'horusdemodlib/delegates.py:fix_datetime')],
 PYVC, 'Proof; clock readings are arbitrary and may advance during the call.')

prop('C16', 'Telemetry queued for SondeHub is uploaded once, in order, despite server errors',
 'Every telemetry record given to a SondeHub uploader is queued once with the station\'s callsign, and everything queued is uploaded exactly once and in order, in batches. After a server error (5xx) a batch is sent again, unaltered, until the server accepts or refuses it or the number of retries is used up. No answer of the server and no network error stops the upload thread. The station position is uploaded as often as asked. An inhibited uploader uploads nothing.',
 ['inputs', 'faults', 'histories'], 'all sequences of server answers and network errors up to the number of retries; batches of up to three records; records queued before and during an upload cycle',
 'Retries and error paths need a misbehaving server; the tests have a cooperative stand-in.',
 ['horusdemodlib/sondehubamateur.py'],
 [('upload', 'horusdemodlib/sondehubamateur.py:SondehubAmateurUploader.upload_telemetry'), ('queue', 'horusdemodlib/sondehubamateur.py:SondehubAmateurUploader.process_queue'), ('add', 'horusdemodlib/sondehubamateur.py:SondehubAmateurUploader.add'), ('position', 'horusdemodlib/sondehubamateur.py:SondehubAmateurUploader.upload_station_position')],
 PYVC, 'Proof for every server behaviour of the stated domain; HTTP requests, the clock, threads and gzip are contracts. True concurrency of add() with the upload thread is left to queue.Queue.')

prop('C17', 'The Python modem binding passes every sample to the modem once, in order',
 'HorusLib gives the modem all samples added, in order and without gap or overlap, in blocks of the number of samples it asks for, whatever the sizes in which they are added; the modem never reads or writes beyond the buffers it is given. Each packet the modem finds is passed to the caller once, with exactly the modem\'s data, checksum state, SNR and statistics. The modem is opened with the mode, rate and spacing asked for and closed once.',
 ['inputs', 'histories'], 'all sizes of added data, all block sizes the modem may ask for next, all modes, mono and IQ, all sample contents; with and without resampling',
 'The number of samples asked for changes from block to block and the chunks added are arbitrary; the tests add recordings in fixed chunks at 48 kHz.',
 ['horusdemodlib/demod.py'],
 [('samples', 'horusdemodlib/demod.py:HorusLib.add_samples'), ('block', 'horusdemodlib/demod.py:HorusLib.demodulate'), ('open', 'horusdemodlib/demod.py:HorusLib.__init__')],
 PYVC, 'Proof; the loop over blocks by an invariant, for any amount of data. The C library is its contract.')

prop('C18', 'Payload and custom field lists hold exactly the valid entries of the file',
 'Any text can be parsed as a payload ID list or a custom field list, and gives a list: exactly the built-in entries and those of the valid lines or definitions, the last one where there are several. Comment lines, malformed lines, and definitions whose structure is not nine bytes long are left out. Parsing does not change the payload list in use.',
 ['inputs', 'configurations'], 'payload lists of up to three lines of any content; definitions over twelve struct strings with any combination of keys and other payloads',
 'Lists are edited by many people and downloaded at run time; tests use one well formed list.',
 ['horusdemodlib/payloads.py'],
 [('payload list', 'horusdemodlib/payloads.py:parse_payload_list'), ('custom fields', 'horusdemodlib/payloads.py:parse_custom_field_list')],
 PYVC, 'Proof for lists of up to three lines with arbitrary text.')

prop('C19', 'Modem statistics are the mean or peak over the averaging time',
 'After each set of modem statistics, clock offset, tone spacing and SNR are the means (with peak hold: the SNR is the maximum) over exactly those received within the averaging time; the tones and their mean are those of the last set. A line that is not a full set of statistics changes nothing and stops nothing.',
 ['inputs', 'histories', 'schedules'], 'all values; sequences of up to three sets at all times; two or four tones',
 'Which samples count depends on the arrival times; tests average over a fixed recording.',
 ['horusdemodlib/demodstats.py'],
 [('statistics', 'horusdemodlib/demodstats.py:FSKDemodStats.update')],
 PYVC, 'Proof for sequences of up to three.')

prop('C20', 'UDP messages carry exactly the received position, time and fields',
 'For every telemetry with a position other than 0,0 one payload summary datagram is sent with its callsign, time, position, all known optional fields and additional fields (frequency in MHz), and for every telemetry with a complete position one OziMux message with the time and the position to five decimals. If broadcasting fails it is sent to this host. Nothing else is sent, and no network state raises an exception.',
 ['inputs', 'faults'], 'all values, combinations of optional fields, network states (down, dead, no SO_REUSEPORT)',
 'Tests send one message on a working network and do not look at it.',
 ['horusdemodlib/horusudp.py'],
 [('summary', 'horusdemodlib/horusudp.py:send_payload_summary'), ('OziMux', 'horusdemodlib/horusudp.py:send_ozimux_message')],
 PYVC, 'Proof; the socket is its contract.', observe=['datagrams sent'])

prop('C21', 'The uploader passes on each valid packet once, and no line stops it',
 'Whatever lines the uploader program reads, each valid binary packet or RTTY sentence is sent on exactly once by UDP to the configured port, to SondeHub and to the log, in order, with SNR, and with frequency, tone spacing and baud rate if known. Statistics lines only update the statistics; any other line has no effect. At the end of the input the uploader is closed and the program ends. Payload lists are downloaded again for an unknown payload, at most twice an hour, and that packet is then decoded again.',
 ['inputs', 'histories', 'configurations'], 'sequences of two lines of each kind; all SNR, frequency and spacing values; all options that matter',
 'The tests feed a few good lines; malformed lines, repeated unknown payloads and the option combinations are not covered.',
 ['horusdemodlib/uploader.py'],
 [('program', 'horusdemodlib/uploader.py:main')],
 PYVC, 'Proof; callees (decoder, UDP, uploader, statistics, list download) are their contracts.', observe=['calls of the UDP, SondeHub and log outputs'])
