import json
P=[]
ALLMODS=['src/ur20_di_generic.rs','src/ur20_do_generic.rs','src/ur20_16do_p.rs','src/ur20_4ro_co_255.rs','src/ur20_4ai_rtd_diag.rs','src/ur20_4ai_tc_diag.rs','src/ur20_4ai_ui_16_diag.rs','src/ur20_ai_ui_generic.rs','src/ur20_8ai_i_16_diag_hd.rs','src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs','src/ur20_2fcnt_100.rs','src/ur20_1com_232_485_422.rs','src/ur20_pf_o_1di_sil.rs']
C='src/ur20_fbc_mod_tcp.rs'; COM='src/ur20_1com_232_485_422.rs'
def p(id,title,st,over,q,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs)))
p('C01','No input makes the library panic',
 'Whatever registers, values, parameters, addresses and buffer lengths are passed to the public functions, with supported module types only, they return a value or an error: no panic, no arithmetic overflow, no out-of-range access.',
 ['inputs','configurations'],'every register content, every image and parameter length from 0 to a little above the right one, every value kind per channel, every offset address, every request address',
 'The tests pass a handful of well-formed and a few too short buffers per module; a panic hides in one combination of length, offset, parameter and value that nobody wrote down.',
 ALLMODS+[C,'src/lib.rs','src/util.rs'],[('length and parameter checks at the start of every decoding function','process_input_data, process_output_data, process_output_values of every module'),('bounds and address checks of the packed image','Coupler::next, process_input_data, process_output_data, process_output_values in '+C)],['returned Result','absence of a panic'])

p('C02','Digital channels map to their own bit, both ways',
 'Channel i of a digital input, digital output or relay module is bit i of the process data of the module, when read and when written, and no other bit influences it or is influenced by it. A value that is not a bit (or, for outputs, an explicitly disabled channel) is refused and so is a wrong number of values.',
 ['inputs'],'every register value, every combination of channel values, all seven digital module types, all valid parameters',
 'The tests look at a few bit patterns of the 2^16 and do not combine modules, patterns and mixed value kinds.',
 ['src/ur20_di_generic.rs','src/ur20_do_generic.rs','src/ur20_16do_p.rs','src/ur20_4ro_co_255.rs','src/util.rs'],[('test_bit_16 / set_bit_16','src/util.rs'),('process_input_data, process_output_data, process_output_values','digital modules')],['decoded channel values','encoded registers'])
p('C03','Analog inputs decode to the measured value of their own channel',
 'For each analog input channel the decoded value is the register, read as a signed number (for resistance ranges as an unsigned one), scaled linearly by the range and the data format configured for that channel; a disabled channel reads as disabled, and a broken thermocouple line as no value. No other channel, register or setting influences it.',
 ['inputs','configurations'],'every register value, every combination of channel settings (range, format, unit, diagnosis flags) of all six analog input types, every channel',
 'The tests check the end points and a middle value of each range on one channel; 2^16 registers times all ranges, formats and channels remain.',
 ['src/ur20_4ai_rtd_diag.rs','src/ur20_4ai_tc_diag.rs','src/ur20_4ai_ui_16_diag.rs','src/ur20_ai_ui_generic.rs','src/ur20_8ai_i_16_diag_hd.rs','src/util.rs'],[('u16_to_analog_ui_value, shift_rtd_value','src/util.rs and the RTD/TC modules'),('process_input_data','analog input modules')],['decoded channel values'])
p('C04','Analog outputs encode to the nearest register value and saturate',
 'A value written to an analog output channel becomes the register value nearest to the requested one under the range and format of that channel; a value beyond what a register can hold, infinities included, becomes the nearest end of the register range and never wraps around. A disabled channel writes zero; other kinds of values and wrong numbers of values are refused.',
 ['inputs','configurations'],'every finite single-precision value up to 1e6 in magnitude (linear real arithmetic with rounding bounds) and, separately, infinities, NaN and huge values; every range, format and channel of both analog output types',
 'The tests encode the end points and the middle of each range; off-by-one rounding and wrap-around appear at other values only.',
 ['src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs','src/util.rs'],[('analog_ui_value_to_u16','src/util.rs'),('value_to_u16','analog output modules')],['encoded registers'])
p('C05','Outputs keep what the image holds while nothing is written',
 'A cycle without requested values sends back what the output image holds: digital outputs, counter outputs and analog outputs keep their state, whatever the state is. Decoding an analog output register and encoding the result gives the register back.',
 ['inputs','histories'],'every output image of the module (all values the module can hold), every input image, first and later cycles, module first or behind a single-byte module, every valid parameter set',
 'The tests run one cycle from an all-zero image for a single module; holding must work for each register value, including those that lose precision on the way through floating point or durations.',
 [C,'src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs','src/ur20_2fcnt_100.rs','src/ur20_do_generic.rs','src/ur20_16do_p.rs','src/ur20_4ro_co_255.rs','src/util.rs'],[('Coupler::next decodes the output image and encodes it again',C)],['register image returned by Coupler::next','Coupler::outputs'])
p('C06','Serial frames are encoded and decoded exactly',
 'The status byte, the length and the payload of the serial module keep their places: decoding a frame yields each flag, counter and exactly the announced payload bytes, encoding a message yields the frame that decodes to it, and a length above the payload capacity, a counter out of range or a frame of a wrong size is refused.',
 ['inputs'],'every frame of 0 to 17 bytes, every message with arbitrary flags, counters (including out of range) and payloads up to one above the capacity, both process data lengths',
 'The tests decode a few frames; the status byte alone has 256 values whose bits interact with length and payload.',
 [COM],[('ProcessInput::try_from_byte_message, ProcessOutput::try_from_byte_message, try_into_byte_message',COM),('Mod::process_input_data, process_output_data, process_output_values',COM)],['decoded messages','encoded bytes and registers'])
p('C07','Serial transmission delivers every byte once and in order',
 'Bytes accepted for transmission on a serial module reach an honest device exactly once and in order, whatever the device\'s pace, its busy phases and whatever its ready and nearly-full flags say, and whatever sizes the application writes in. No frame is overwritten before the device has acknowledged the one before.',
 ['inputs','histories','schedules'],'every payload content and length within the bound, every device that acknowledges after an arbitrary number of the observed cycles, both process data lengths, through the message processor, the coupler\'s writer and explicitly set outputs; 4 or more cycles',
 'The tests walk one history with fixed counters and bytes; loss or duplication depends on the interleaving of acknowledgements, busy phases and writes.',
 [COM,C],[('MessageProcessor::next / process_output_data, tx counter and acknowledgement',COM),('Coupler::next, writer(), set_output',C)],['frames in the output image','bytes the device model accepted'])
p('C08','Serial reception delivers every frame once and in order',
 'Every frame an honest device offers is delivered to the application exactly once and in order and is acknowledged, whatever the pace of the device, its ready and nearly-full flags, and the sizes of the application\'s read buffers. Repeating an image without a new counter delivers nothing twice.',
 ['inputs','histories','schedules'],'every frame content and length within the bound, every device that offers a new frame or repeats the last one in each cycle, every read buffer size, both process data lengths, processor and coupler',
 'The tests deliver one or two fixed frames; duplication and loss depend on which cycles repeat a counter and how much is read between them.',
 [COM,C],[('MessageProcessor::process_input_data, rx counter and acknowledgement',COM),('Coupler::reader',C)],['bytes read by the application','acknowledgement bits in the output image'])
p('C09','Serial initialisation handshake completes before data flows',
 'A serial module is first flushed and reset with the prescribed sequence of control frames; they carry no data, no frame is taken over during them, data the application queues before or meanwhile stays queued, and afterwards it is transmitted completely.',
 ['inputs','histories'],'every sequence of device status bytes over the observed cycles, both process data lengths, alone or behind another module',
 'The tests perform the handshake with one fixed, immediately ready device.',
 [COM,C],[('MessageProcessor state, init()',COM)],['control frames in the output image'])
p('C10','Each module is decoded from its own bytes of the packed input images',
 'The coupler decodes each module from exactly the bytes of the packed input and output images that the offset table assigns to it, in module order, also at odd byte addresses. Offsets or images that do not contain the module are refused.',
 ['inputs','configurations'],'all module pairs out of 18 configurations behind an optional single-byte module, chains of up to four modules of every process data size, every offset address, every image content, image lengths 0 to 11',
 'The tests decode two or three fixed station layouts; a wrong byte shows up only with particular size combinations and odd addresses.',
 [C],[('process_input_data, process_output_data, prepare_raw_data_to_process',C)],['Coupler::inputs','Coupler::outputs','decoded values'])
p('C11','Each module is encoded to its own bytes of the packed output image',
 'The values of each module are written to exactly the bytes that the offset table assigns to it, without touching the bytes of another module, also at odd byte addresses. Offset tables that would make modules overlap or leave the data area are refused.',
 ['inputs','configurations'],'all module pairs out of 18 configurations behind an optional single-byte module, chains of up to four modules of every process data size, every pair of offset addresses, every value',
 'The tests encode two or three fixed station layouts.',
 [C],[('process_output_values',C)],['register image returned by Coupler::next','process_output_values'])
p('C12','A requested output reaches exactly its channel, once, last one wins',
 'A value requested for an existing channel appears in the next cycle in that channel and in no other, is not repeated after it was sent, and replaces an earlier request for the same channel; a request for a module or channel that does not exist is refused and has no effect.',
 ['inputs','histories'],'every address (module and channel numbers), every value that fits the channel, every image, one or two requests, eight module types in a two-module station, two cycles',
 'The tests set one fixed channel of one module; aliasing between addresses appears at others.',
 [C],[('Coupler::set_output, write queue, Coupler::next',C)],['register image returned by Coupler::next','Coupler::outputs'])
p('C13','Identification numbers and order names identify module types one to one',
 'Each 32-bit identification number and each order name, in any letter case and with dashes or underscores, denotes at most the one module type the catalogue says, every other number or name is refused, and printing a type and parsing the text gives the type back. Category abbreviations behave the same way.',
 ['inputs'],'all 2^32 numbers; all spellings of the 63 names; names with up to two arbitrary ASCII characters inserted, replaced or appended; all strings of up to 4 ASCII characters',
 'The tests look up three numbers and a handful of names.',
 ['src/lib.rs'],[('ModuleType::try_from_u32, FromStr, Display-like conversions','src/lib.rs'),('ModuleCategory parsing','src/lib.rs')],['parsed types and categories'])
p('C14','Parameter registers decode to their own settings, invalid ones are refused',
 'Every parameter register of a module is decoded to the setting the module\'s documentation assigns to it, for its own channel only; a register without meaning, or too few registers, is refused with an error.',
 ['inputs','configurations'],'every content of every parameter register of all 18 module configurations, every shorter length',
 'The tests decode one or two parameter blocks per module, mostly with equal values in all channels.',
 ALLMODS+['src/lib.rs'],[('from_modbus_parameter_data, parameters_from_raw_data','every module'),('FromPrimitive derivations of the setting enums','src/lib.rs')],['public parameter structs'])
p('C15','Parameter windows: each module is read from its own register range',
 'The parameter address and register count computed for module n of a station are those of its own window, for every station length and mix of types, and the announced register count is exactly what the module\'s decoder needs.',
 ['configurations'],'stations of up to 64 modules with arbitrary supported types at up to two positions at once, every type on its own',
 'The tests compute the table of one station.',
 [C]+ALLMODS,[('parameter_addresses_and_register_counts / param_register_count',C)],['addresses and counts'])
p('C16','Counter modules: durations, counts, commands and frequency',
 'Both counter channels decode their own 32-bit duration (in 125 ns steps, absent when out of range), count and activity, encode the requested duration in microseconds and the command, and refuse durations beyond what the device can measure. The derived frequency is count divided by duration.',
 ['inputs'],'every input image, every output image, every duration of whole seconds and nanoseconds, every command; frequency for 12 durations and every count',
 'The tests use small counts and one or two durations; the carry between the two registers and the limits are hit by few values.',
 ['src/ur20_2fcnt_100.rs','src/util.rs'],[('process_input_data, process_output_data, process_output_values, hertz','src/ur20_2fcnt_100.rs')],['decoded values','encoded registers'])
p('C17','A station is accepted iff its lists fit; each module has its own parameters',
 'A coupler is created if and only if the module list, offset list and parameter lists fit each other and every parameter list is valid; each module then works with its own parameters and not with those of another.',
 ['configurations','inputs'],'lists of 0 to 4 modules with arbitrary list lengths, offset lists of arbitrary length within the bound; three modules of each of 18 configurations with independent arbitrary valid parameters; an invalid register at an arbitrary position',
 'The tests create three stations and one with a missing list.',
 [C],[('Coupler::new',C)],['Result of Coupler::new','decoded values of each module'])
p('C18','Serial modules of one station are independent',
 'Two serial modules in one station behave in every cycle exactly like two stations with one serial module each: counters, acknowledgements, queues and handshakes do not influence each other.',
 ['inputs','histories'],'every input and output image over three cycles, every payload written, all combinations of process data lengths, with and without a module between',
 'The tests have no station with two serial modules in which both transmit.',
 [C,COM],[('per module state in CouplerState / message processors',C)],['register images of both stations','bytes read'])
p('C19','Transmitted serial frames are shown exactly once',
 'The station shows each frame that was transmitted on a serial module exactly once and in order as the output value of the channel.',
 ['inputs','histories'],'every payload, every device pace over the observed cycles, one or two serial modules',
 'The tests look at the shown output of one cycle.',
 [C,COM],[('last_tx_cnt per module',C)],['Coupler::outputs'])
p('C20','A failed cycle loses no serial data and no other request',
 'If a cycle is refused because of a short or malformed image, all queued serial data and requested outputs remain, and the station works on with the next good cycle as if the failed one had not taken place. If it is refused because of an invalid requested value, no data queued for or received from a serial module is lost or duplicated.',
 ['inputs','fault_sequences','histories'],'seven kinds of failure, in each of the first four cycles, every image content and payload',
 'The tests check that a short image is refused, not what state is left behind.',
 [C,COM],[('order of validation and state changes in Coupler::next',C)],['later register images','bytes read later'])
p('C21','Offset addresses translate to register and bit without loss',
 'Every 16-bit offset address denotes one register and bit, the translation and its inverse agree, and a table of offset registers yields for each module its own input and output address, absent ones included.',
 ['inputs'],'all 2^16 addresses; all offset tables of up to 13 registers',
 'The tests convert three addresses.',
 [C,'src/util.rs'],[('to_register_address, to_bit_address, module_offsets_from_bits/registers',C)],['addresses'])
p('C22','Module types have the category, channels and data sizes of the catalogue',
 'Each module type reports the category, channel count and, as a module, its own type and the process data sizes its decoder and encoder actually use; the list of module registers of a station is translated type by type in order, and incomplete or unknown entries are refused.',
 ['inputs','configurations'],'every module type, all 18 module configurations, module lists of up to 6 registers with arbitrary contents',
 'The tests check a few types; an inconsistent count shows up only for the type concerned.',
 ['src/lib.rs',C]+ALLMODS,[('ModuleType::channel_count, From<ModuleType> for ModuleCategory','src/lib.rs'),('module_list_from_registers',C),('process_input_byte_count, process_output_byte_count, module_type','every module')],['reported values'])
p('C23','The safety power feed reports each status bit as itself',
 'Each status flag of the safety power feed module is its own bit of the process data and no other bit influences it, directly and through a station.',
 ['inputs'],'all 2^32 contents of the two registers, alone and behind a single-byte module',
 'The tests decode one pattern.',
 ['src/ur20_pf_o_1di_sil.rs',C],[('process_input_data','src/ur20_pf_o_1di_sil.rs')],['decoded value'])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
