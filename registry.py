"""Which harness cases decide which property, and within which bounds."""

ASSUMPTIONS = [
    'the LLVM IR of the std toolchain (opt-level 1, lto=fat, overflow checks on) represents the source; std and alloc are executed as part of it',
    'memory allocation never fails; HashMap is keyed with a fixed key (iteration order of other keys is not explored)',
    'module types are the 18 supported ones (the README announces a panic for others)',
    'verdicts of z3, and of kissat on bit-blasted queries, are trusted; every counterexample is replayed on the real build first',
]
REAL = 'floats are linear reals with IEEE rounding error bounds (an over-approximation; a counterexample counts only if it replays, otherwise the exact encoding decides)'
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, jobs, **kw):
    PROPS[pid] = dict(jobs=jobs, **kw)


ALL_PLAIN = [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13]

REALC = [c for c in range(270) if c % 90 // 18 == 2 or c % 18 in (7, 8)]
prop('C01', [dict(h='h_c01b', cases=[c for c in range(18) if c not in (7, 8)], reach=(1, 2, 3, 4),
                  bounds='16 module types: parameters of any content and of 6 lengths from none to 7 too many; process data of any content and every length up to '
                         'two words above the right one; what was decoded is sent back'),
             dict(h='h_c01b', mode='real', cases=[7, 8], reach=(3, 4), bounds='the two analog output types, likewise'),
             dict(h='h_c01v', cases=range(18), reach=(1, 2),
                  bounds='18 module types: lists of 6 lengths from none to 5 too many, one value at any place of any kind and content (byte strings of 6 lengths up to 300, '
                         'any duration, any counter, any float)'),
             dict(h='h_c01t', cases=range(18), reach=(1,),
                  bounds='18 module types: the public list of channel parameters shortened to any length or extended by one, process data of any content and length'),
             dict(h='h_c01d', cases=[0], reach=(1,), bounds='15 module types as created by Default, process data of any content and length'),
             dict(h='h_c01p', cases=range(8), reach=(1,), bounds='the message processor: 4 cycles of arbitrary messages with any counters and 0 to 20 bytes, writes and reads in between'),
             dict(h='h_c01m', cases=range(12), reach=(1, 2, 3), bounds='serial byte messages of any content, 12 lengths from 0 to 258'),
             dict(h='h_c01c', cases=[c for c in range(270) if c not in REALC], reach=(1, 2),
                  bounds='stations of two modules (90 pairs): images of any content, 9 requests to any place incl. missing modules and channels; any input or output offset address'),
             dict(h='h_c01c', mode='real', cases=REALC, reach=(1, 2), bounds='likewise with analog outputs'),
             dict(h='h_c01o', cases=range(18), reach=(1, 2), bounds='two modules of the same kind, every pair of input and output offset addresses, images of two lengths'),
             dict(h='h_c01w', cases=range(18), reach=(1, 2), bounds='process_output_values, process_input_data, process_output_data with up to two modules (18 types), lists of other lengths, missing or any offsets'),
             dict(h='h_c01h', cases=[0], reach=(1,), bounds='the frequency of a counter value with any duration')],
     assumptions=[REAL], outside='more than 64 modules; unsupported module types (announced to panic); allocation failure; user-supplied channel parameter values are within their enums')

prop('C02', [dict(h='h_c02', cases=range(7), reach=(1, 2),
                  bounds='7 digital module types; every process data register, every valid parameter set; every list of channel values '
                         'with bits, disabled, none and decimal values; wrong list lengths from 0 to one above')],
     outside='nothing within the module interface; the place in the packed image is C10/C11')
prop('C03', [dict(h='h_c03', mode='real', cases=[k * 8 + c for k, n in enumerate([4, 4, 4, 8, 4, 4]) for c in range(n)], reach=(1, 2, 3),
                  bounds='6 analog input types, each channel: every register of all channels, every range and format of the observed channel, '
                         'every valid setting of the other channels')],
     assumptions=[REAL], outside='deviations below 1e-6 of the span')
prop('C04', [dict(h='h_c04', mode='real', cases=range(8), reach=(1, 2, 3),
                  bounds='2 analog output types x 4 channels: every range and format, every value of magnitude up to 1e6'),
             dict(h='h_c04s', cases=range(8), reach=(4, 5),
                  bounds='the same channels: infinities, NaN, values beyond the register range, values of other kinds, wrong list lengths')],
     assumptions=[REAL], outside='which of two registers is taken for a value within rounding error of the middle between them')
prop('C05', [dict(h='h_c05', cases=ALL_PLAIN, reach=(1, 2),
                  bounds='4DO 4DO-2A 8DO 16DO 4RO 2FCNT, alone and behind a single-byte module: every input and output image the module can hold, two cycles'),
             dict(h='h_c05', cases=[16, 17, 18, 19, 20, 24, 28], more=[21], reach=(1,), bounds='the digital modules over 40 cycles (thorough: also the counter)'),
             dict(h='h_c05', mode='real', cases=[6, 7, 14, 15], reach=(1,),
                  bounds='both analog output types, alone and behind a single-byte module: every register, every range and format'),
             dict(h='h_c05a', mode='real', cases=range(8), reach=(1,), bounds='2 analog output types x 4 channels: every register, range and format')],
     assumptions=[REAL], outside='control bits of the counter module beyond start and stop; bits beyond the channels of a digital module')
prop('C06', [dict(h='h_c06', cases=range(40), reach=(1, 2, 3, 4),
                  bounds='frames of 0 to 17 bytes with arbitrary content, messages with arbitrary flags, counters and payload lengths up to one above the capacity, both process data lengths')])
TX = ('processor and coupler (writer and set_output), process data of 8 and 16 bytes, 8 length scenarios of up to 6 writes and 6 frames, arbitrary contents; '
      'in each cycle an honest device acknowledges or waits (1-2 waits, 1-2 delayed writes), with arbitrary ready and nearly-full flags, optional stale counters at the start; 2 long scenarios without waits: one write of 300 bytes (thorough: 1100), 70 of 1 byte (260 for the bare processor), one with a pause of 40 cycles (thorough: 270)')
RX = ('processor and coupler, process data of 8 and 16 bytes, 6 length scenarios of up to 6 frames, arbitrary contents; in each cycle an honest device '
      'offers the next frame, keeps, withdraws or shows again the last (2 waits), and the user reads 0, 1 or 3 bytes or nothing; arbitrary ready and nearly-full flags; a long scenario of 300 bytes (thorough: 1100) without waits and one of 70 frames (260 for the bare processor), read at the end, and one with a pause of 40 cycles (thorough: 270)')
prop('C07', [dict(h='h_c07', cases=range(66), more=range(66, 132), reach=(1, 2), bounds=TX + '; thorough: one more wait and one more delayed write')],
     outside='more than 6 frames with waits, more than 260 frames, or more waits than stated; devices that do not keep to the protocol')
prop('C08', [dict(h='h_c08', cases=range(36), more=range(36, 72), reach=(1, 2, 3), bounds=RX + '; thorough: one more wait')],
     outside='more than 6 frames with waits, more than 260 frames, or more waits than stated; devices that do not keep to the protocol')
prop('C09', [dict(h='h_c09', cases=range(4), reach=(1, 2, 3),
                  bounds='arbitrary input and output images (any status byte, payload empty or full) in the two handshake cycles and the one after, both process data lengths, alone and behind another module')])
prop('C10', [dict(h='h_c10p', cases=range(196), reach=(1, 2),
                  bounds='chains of 3 (and of 4) modules of 0, 1, 2, 3, 4, 8 or 20 bytes at packed addresses, arbitrary contents, image one word short, exact and longer'),
             dict(h='h_c10a', cases=[14 * l + s for l in (0, 1, 2, 5, 11) for s in range(14)],
                  more=[14 * l + s for l in (3, 4, 6, 7, 8, 9, 10) for s in range(14)], reach=(1, 2),
                  bounds='one module of every size, every 16-bit offset address, image lengths 0, 1, 2, 5 and 11 (thorough: 0 to 11)'),
             dict(h='h_c10k', mode='real', cases=range(324), more=range(324, 648), reach=(1, 2),
                  bounds='all 324 pairs of real modules, with and without a single-byte module in front, arbitrary images, plain parameters (thorough: also with 16-byte serial modules)'),
             dict(h='h_c10s', mode='real', cases=range(0, 72, 7), more=[c for c in range(72) if c % 7], reach=(1,), bounds='stations of 18 and of 64 modules of all types in 12 orders (thorough: 36), arbitrary images')],
     assumptions=[REAL], outside='other orders of more than four modules; offset bits other than 0 and 8, which no byte-aligned table contains, must be refused or ignored without a panic (C01)')
prop('C11', [dict(h='h_c11p', cases=range(98), reach=(3,), bounds='chains of 3 and of 4 modules as in C10, arbitrary contents'),
             dict(h='h_c11a', cases=range(49), reach=(1, 2), bounds='two modules of every size, every pair of 16-bit output offset addresses'),
             dict(h='h_c11k', mode='real', cases=range(324), more=range(324, 648), reach=(1,),
                  bounds='all 324 pairs of real modules, with and without a single-byte module in front, arbitrary images (thorough: also with 16-byte serial modules)'),
             dict(h='h_c10s', mode='real', cases=range(72, 144, 7), more=[c for c in range(72, 144) if (c - 72) % 7], reach=(1,), bounds='stations of 18 and of 64 modules of all types in 12 orders (thorough: 36), arbitrary images')],
     assumptions=[REAL], outside='other orders of more than four modules')
prop('C12', [dict(h='h_c12', cases=ALL_PLAIN, reach=(1, 2),
                  bounds='4DO 4DO-2A 8DO 16DO 4RO 2FCNT in a station of two modules: every module and channel number, every value or Disabled, one or two requests after 0, 1 or 5 cycles, two cycles after them'),
             dict(h='h_c12', mode='real', cases=[6, 7, 14, 15], reach=(1,), bounds='the same for both analog output types')],
     assumptions=[REAL])
prop('C13', [dict(h='h_c13i', cases=[0], reach=(1, 2), bounds='all 2^32 identification numbers'),
             dict(h='h_c13n', cases=range(63), reach=(1,), bounds='every upper/lower case and dash/underscore spelling of each of the 63 names'),
             dict(h='h_c13m', cases=range(252), reach=(2,), bounds='each name with up to two arbitrary ASCII characters replaced, prepended or appended'),
             dict(h='h_c13x', cases=range(63), reach=(1, 2), bounds='every part of each name, the name followed by an end of it, other or no separators'),
             dict(h='h_c13s', cases=range(5), reach=(2,), bounds='all ASCII strings of up to 4 characters'),
             dict(h='h_c13c', cases=range(5), reach=(2,), bounds='categories: all ASCII strings of up to 4 characters')],
     outside='non-ASCII names; names that differ from every order name in more than two characters and are longer than 4')
prop('C14', [dict(h='h_c14', cases=[k for k in range(18) if k not in (7, 8)], reach=(1,), bounds='every content of every parameter register of 16 module configurations'),
             dict(h='h_c14', mode='real', cases=[7, 8, 25, 26, 43, 44, 61, 62, 79, 80], reach=(1,),
                  bounds='both analog output types: every content of every register; the substitute value of one channel at a time'),
             dict(h='h_c14s', cases=range(18), reach=(1,), bounds='every shorter parameter area; 1 to 3 registers where none are allowed')],
     assumptions=[REAL])
prop('C15', [dict(h='h_c15', cases=[0, 1, 2, 64], reach=(1,), bounds='stations of 0, 1, 2 and 64 modules, arbitrary supported types at two positions'),
             dict(h='h_c15b', cases=range(18), reach=(1,), bounds='18 module configurations: exactly the announced number of registers with arbitrary contents, and one fewer')],
     outside='stations of more than 64 modules, which the device does not allow')
prop('C16', [dict(h='h_c16i', cases=range(2), reach=(1, 2), bounds='every content of the 10 input registers, both channels'),
             dict(h='h_c16o', cases=range(2), reach=(1, 2), bounds='every duration, every command, both channels'),
             dict(h='h_c16d', cases=range(2), reach=(1,), bounds='every content of the 6 output registers, both channels; other value kinds'),
             dict(h='h_c16h', mode='real', cases=range(12), reach=(1,), bounds='12 durations between 125 ns and 16.8 s, every count')],
     assumptions=[REAL], outside='frequencies of other durations (a quotient of two unknowns is not linear)')
prop('C17', [dict(h='h_c17v', cases=range(5), reach=(1, 2), bounds='0 to 4 modules, offset lists of up to 2 more registers, parameter lists of up to one more'),
             dict(h='h_c17p', mode='real', cases=range(18), reach=(1,), bounds='three modules of each configuration, two arbitrary settings per module, arbitrary images'),
             dict(h='h_c17i', mode='real', cases=range(18), reach=(1, 2), bounds='three modules of each configuration, one arbitrary register of one arbitrary module')],
     assumptions=[REAL])
prop('C18', [dict(h='h_c18', cases=range(48), reach=(1, 2), bounds='two serial modules of 8/16 bytes in 6 stations (other modules in front, between, behind, odd addresses, 32 places apart), four cycles of arbitrary images from the start (handshake included), arbitrary writes; ten cycles with quick devices')],
     outside='more than four cycles with arbitrary images')
prop('C19', [dict(h='h_c19', cases=range(8), reach=(1, 2), bounds='one or two serial modules, both process data lengths, two frames of arbitrary content, nine cycles, three waits of the device, stale counters at the start; or twelve frames without waits'),
             dict(h='h_c19h', cases=range(4), reach=(1, 2), bounds='six cycles with arbitrary output images: in each the frame stays or is followed by one with or without data and another counter')])
prop('C20', [dict(h='h_c20', cases=range(49), reach=(1, 2), bounds='seven failures (images one word short, of one word and empty among them) in each of the first four cycles of five, arbitrary written data, compared with a station without the failure; in the fifth to seventh cycle of up to eight, behind cycles with a quick device')])
prop('C21', [dict(h='h_c21', cases=[0, 1], reach=(1,), bounds='all 2^16 addresses'), dict(h='h_c21o', cases=list(range(14)) + [126, 127, 128, 129, 130, 256], reach=(1,), bounds='tables of 0 to 13, 126 to 130 and 256 registers, arbitrary contents')])
prop('C22', [dict(h='h_c22', cases=range(19), reach=(1, 2), bounds='every module type and 18 module configurations'),
             dict(h='h_c22l', cases=[0, 1, 2, 3, 4, 5, 6, 64, 127, 128], reach=(1, 2, 3), bounds='module lists of 0 to 6 registers, arbitrary contents; lists of 64, 127 and 128 registers with one arbitrary entry at 4 places')])
prop('C23', [dict(h='h_c23', cases=range(2), reach=(1,), bounds='every content of the two registers, directly and behind a single-byte module')])
