#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
S='sml/src/'
p('C01','Delivered frames depend only on the byte stream, not on how it arrives',
 'For every byte stream and every way the operating system hands it over (any split into short reads, any number of interrupted or would-block results in between), transport reading and listening deliver the same frames, with the same bytes and in the same order. Those frames are the ones SML transport version 1 assigns to the stream: start sequence 1b1b1b1b 01010101, 4-byte groups, up to and including the first aligned escape 1b1b1b1b followed by a group that begins with 1a.',
 ['inputs','schedules','fault_sequences'],'every byte stream x every segmentation into reads x every placement of EINTR/EAGAIN',
 'No existing test calls the transport reader at all; the quantifier is over streams and read schedules.',
 [S+'sml_transport.c'],[('sml_read: accumulate until n bytes, ignore EINTR/EAGAIN',S+'sml_transport.c'),('sml_transport_read: sync, group loop, escape test',S+'sml_transport.c'),('sml_transport_listen: deliver until a read fails',S+'sml_transport.c')],
 ['return value and buffer of sml_transport_read','callback arguments of sml_transport_listen'],
 [('len','bytes of the current frame collected so far / sync position','sml_transport_read')])
p('C02','No well-formed frame is lost to noise that precedes it',
 'Whatever bytes precede it on the line (including stray 1b and 01 bytes, partial start sequences, or the tail of a frame joined midway), the first complete start sequence after the reader starts looking begins a frame, and if that frame is well-formed and fits the caller\'s buffer it is delivered completely. The search resumes in the same way after each delivered frame.',
 ['inputs','histories'],'every noise prefix that does not itself contain a complete start sequence, before the first and between later frames',
 'No test feeds noise; the failing prefixes are those that overlap a partial match.',
 [S+'sml_transport.c'],[('start-sequence matcher in sml_transport_read',S+'sml_transport.c')],['return value and buffer of sml_transport_read','sml_transport_listen callbacks'])
p('C03','A broken transfer never yields a frame, and a frame takes no byte of the next',
 'When the stream ends or the read fails inside a frame, when an escape sequence other than the end of message occurs, when the frame does not fit the length the caller passed, or when that length is too small to hold a frame start, transport reading returns 0, listening stops without invoking the callback for it, and nothing is ever written past the length the caller passed. A successful read consumes exactly the bytes up to the end of the frame it delivers, so the next read starts at the following byte.',
 ['inputs','crash_points','fault_sequences'],'every truncation point, read-error point, escape and buffer size',
 'No test exercises any failure of the transport reader; the quantifier is over fault positions and sizes.',
 [S+'sml_transport.c'],[('max_len guards',S+'sml_transport.c'),('EOF and error returns of sml_read',S+'sml_transport.c'),('unrecognized escape branch',S+'sml_transport.c')],['return value of sml_transport_read, bytes consumed from the descriptor, callback count'])
p('C04','Writing a file emits a valid transport frame the reader accepts',
 'For every file whose encoding contains no 1b1b1b1b, transport writing issues the start sequence, the encoded messages in order, 0 to 3 zero bytes so that the payload is a multiple of four, and the end sequence with that pad count and a correct CRC-16/X.25 over everything before it; it returns the number of bytes written, or 0 if the descriptor did not take all of them. Reading that output back with the transport reader and the file parser yields the same messages.',
 ['inputs','histories','fault_sequences'],'every file of every size and message mix, every pad residue, write failures and short writes',
 'No test writes through the transport layer.',
 [S+'sml_transport.c',S+'sml_file.c',S+'sml_crc16.c'],[('sml_transport_write: padding, end sequence, crc',S+'sml_transport.c')],['bytes passed to write(2), return value'])
p('C05','A message is delivered only if its checksum matches',
 'A structurally complete message is returned if and only if its CRC field equals CRC-16/X.25 (transmitted low byte first) or CRC-16/Kermit (the value itself, high byte first) computed over the message from its first byte up to the CRC field. A message whose checksum matches neither is dropped as a whole and does not prevent the messages after it in the same file from being delivered.',
 ['inputs'],'every message and every alteration of its bytes or of its checksum',
 'The one CRC test flips one bit in one message; the guarantee is about every alteration and about the messages that follow.',
 [S+'sml_message.c',S+'sml_crc16.c',S+'sml_file.c'],[('crc comparison in sml_message_parse',S+'sml_message.c'),('continue-on-NULL in sml_file_parse',S+'sml_file.c')],['result of sml_message_parse / sml_file_parse'])
p('C06','File parsing returns exactly the intact messages, in order',
 'For every buffer, file parsing returns, in wire order, every message with a valid checksum up to the first structurally malformed one (at which it stops), skipping zero padding bytes between and after messages. Messages before the malformed point are returned unchanged, nothing after it is returned, and the number of messages is right for any count.',
 ['inputs'],'every concatenation of intact, corrupt, malformed and padding segments, every truncation point, any message count',
 'One crash-report buffer is tested; order, padding, truncation and counts are not.',
 [S+'sml_file.c',S+'sml_message.c'],[('message loop of sml_file_parse',S+'sml_file.c'),('sml_file_add_message',S+'sml_file.c')],['messages / messages_len of the returned file'],
 [('messages','ordered list of accepted messages','sml_file')])
p('C07','Well-formed messages decode to exactly the values on the wire',
 'For every well-formed message of each of the supported body types, each field of the decoded structure holds exactly the value that the element at its position encodes: octet strings byte for byte, numbers by value, lists and trees in order with every element, choices under the right alternative. A field encoded as absent (01) is reported as absent and a present one as present.',
 ['inputs'],'every well-formed encoding of every message type, with every combination of present and absent optional fields',
 'Most message types have no decoding test at all.',
 [S+'sml_message.c',S+'sml_open_request.c',S+'sml_open_response.c',S+'sml_close_request.c',S+'sml_close_response.c',S+'sml_get_list_request.c',S+'sml_get_list_response.c',S+'sml_get_proc_parameter_request.c',S+'sml_get_proc_parameter_response.c',S+'sml_set_proc_parameter_request.c',S+'sml_get_profile_pack_request.c',S+'sml_get_profile_pack_response.c',S+'sml_get_profile_list_response.c',S+'sml_attention_response.c',S+'sml_list.c',S+'sml_tree.c'],
 [('one *_parse function per structure','sml/src/*.c'),('tag dispatch',S+'sml_message.c')],['public *_parse functions and the structures they return'])
p('C08','Malformed structure is rejected, never decoded misaligned',
 'Whenever an element has the wrong type, a list has the wrong number of elements, a message body or parameter value has an absent or unknown tag, an integer is wider than its field (more than 8 bytes for a value or status) or an element extends past the buffer, the parse of the enclosing structure fails with the error flag set and yields no object. It never succeeds with the remaining elements assigned to the wrong fields.',
 ['inputs'],'every single deviation from the grammar at every position of every structure',
 'Only two malformed inputs are tested; the guarantee is about every position and kind of deviation.',
 [S+'sml_message.c',S+'sml_list.c',S+'sml_tree.c',S+'sml_time.c',S+'sml_value.c',S+'sml_status.c',S+'sml_number.c',S+'sml_octet_string.c',S+'sml_boolean.c',S+'sml_shared.c'],
 [('type and count checks at the head of each *_parse','sml/src/*.c'),('buf->error propagation','sml/src/*.c')],['result and error flag of public *_parse functions'])
p('C09','Integers keep their value for every width and sign',
 'An integer transmitted in n bytes decodes, in every field, value or status that admits n bytes, to the same mathematical value in the smallest standard width (1, 2, 4 or 8 bytes, or the field\'s fixed width): zero-extended if unsigned, sign-extended if signed, big-endian on the wire, and independent of the bytes around it. Encoding an integer of 1, 2, 4 or 8 bytes emits its type, width and big-endian two\'s-complement bytes.',
 ['inputs'],'every width 0..8, every sign, every field width, boundary and arbitrary values',
 'A dozen values are tested; widths 3, 5, 7, sign boundaries and neighbouring bytes are not.',
 [S+'sml_number.c',S+'sml_value.c',S+'sml_status.c'],[('sml_number_parse: padding and byte swap',S+'sml_number.c'),('width rounding in sml_value_parse / sml_status_parse',S+'sml_value.c')],['sml_number_parse, sml_u8..i64_parse, sml_value_parse, sml_status_parse, *_write'])
p('C10','Type-length headers are right for every length, read and written',
 'For every element type and length, the header written is the shortest one that encodes it, with the header bytes counted for all types except lists, and reading it back gives the type and exactly that length. Reading any header of any number of bytes yields the length it encodes, or an error if it is truncated or the length cannot be represented.',
 ['inputs'],'every length from 0 to the largest representable one, every header byte sequence',
 'One two-byte header is tested; boundaries where another header byte becomes necessary are not.',
 [S+'sml_shared.c',S+'sml_octet_string.c'],[('sml_buf_get_next_length',S+'sml_shared.c'),('sml_buf_set_type_and_length',S+'sml_shared.c')],['sml_buf_get_next_length, sml_buf_set_type_and_length, octet string and list parse/write'])
p('C11','The DZG power-sign correction hits exactly the affected readings',
 'Within one value list, after an entry that identifies a DZG meter with serial number 42000000-48999999 or 55000000-58999999, a signed integer reading of at most 2 bytes for 1-0:16.7.0*255 is reported as unsigned; every other reading, list, meter and serial is reported as transmitted. The correction never carries over to another list or message and never alters a value that is not a signed or unsigned integer.',
 ['inputs','histories'],'every list: entry order, serial number, reading width, type and position',
 'No test covers the workaround.',
 [S+'sml_list.c'],[('detect_buggy_dzg_dvs74',S+'sml_list.c'),('workaround branch of sml_list_entry_parse',S+'sml_list.c')],['value type and bytes in the list returned by sml_list_parse'],
 [('workarounds.old_dzg_dvs74','an affected serial was seen earlier in this list','sml_list_parse')])
p('C12','Standard and vendor time encodings decode to the right time',
 'A time given as the standard choice decodes to its tag and 32-bit value; a bare unsigned of 4 bytes decodes as a second index with that value; a choice holding a list of three numbers (timestamp, two 16-bit offsets) is consumed completely and yields the tag without a value, so that all following fields stay aligned. Any other form is an error.',
 ['inputs'],'every encoding of a time in every structure that contains one',
 'Only the two standard forms are tested, standalone.',
 [S+'sml_time.c'],[('sml_time_parse',S+'sml_time.c')],['sml_time_parse and the structures that contain times'])
p('C13','Every object is encoded in the standard wire form',
 'For every object that can be built with the public constructors, encoding emits exactly its elements in order: each structure as a list header with its fixed element count, each container with its actual number of elements and all of them, absent fields as 01, strings and numbers in full, booleans as 4200 or 42ff, and each message ending in its CRC and 00. The bytes emitted are exactly that and nothing else.',
 ['inputs','histories'],'every object graph of every message type, every container size including empty and more than 15',
 'Six write tests cover tiny objects; no message type has a write test.',
 ['sml/src/*.c'],[('one *_write function per structure','sml/src/*.c'),('crc and end-of-message in sml_message_write',S+'sml_message.c')],['buffer contents and cursor after *_write'])
p('C14','Decoding an encoded object gives the object back',
 'For every object with its mandatory containers present, decoding its encoding succeeds, consumes all of it and yields an equal object; and for every byte sequence that decodes, encoding the result and decoding again yields the same object. Equality is by value, with an empty octet string equal to an absent one (which a tree path leaves out).',
 ['inputs'],'every constructible object and every accepted byte sequence, of every message type',
 'No test does a round trip.',
 ['sml/src/*.c'],[('*_parse and *_write pairs','sml/src/*.c')],['public *_write followed by *_parse'])
p('C15','Encoding does not depend on buffer size or earlier contents',
 'The bytes produced by encoding an object, message or file are the same whatever the buffer contained before, however large it was created, and however often the object was encoded already, and encoding never writes outside the buffer. In particular a file read from the line can be written out again, and files of any size can be written.',
 ['inputs','histories'],'every sequence of parse, write, rewrite and transport write on one buffer, every object size',
 'Tests always write once into a fresh, zeroed, large enough buffer.',
 [S+'sml_shared.c',S+'sml_octet_string.c',S+'sml_number.c',S+'sml_boolean.c',S+'sml_message.c',S+'sml_transport.c'],[('header, number, string and message writers','sml/src/*.c')],['buffer contents after *_write, sml_file_write, sml_transport_write'])
p('C16','No input can crash, hang or read outside its buffer',
 'For every byte sequence that can arrive in a transport frame, parsing it as a file, message or any single structure terminates, has no undefined behaviour, touches no memory outside its buffer and leaves the cursor within the buffer; the memory it uses is bounded by the length of the input and not by counts or lengths the input merely announces; the result can be printed, encoded and freed.',
 ['inputs'],'every byte sequence up to the listen buffer size, for every public parse function',
 'One crash report is kept as a test; the quantifier is over all byte sequences.',
 ['sml/src/*.c'],[('bounds checks before each access','sml/src/*.c')],['public parse, print, write and free functions under address and undefined-behaviour instrumentation'])
p('C17','Every allocation is released exactly once on every path',
 'After any parse, successful or failing at any point, freeing the returned object (if any) and its buffer releases every block the library allocated, each exactly once; the same holds for every object built, encoded any number of times and freed through the public functions, and for every transport and conversion call.',
 ['inputs','histories'],'every error position in every structure, every build/write/free history',
 'Unit tests do not observe leaks.',
 ['sml/src/*.c'],[('error labels and *_free functions','sml/src/*.c')],['heap allocation and release events during public calls'])
p('C18','Numeric values convert to the nearest double',
 'For every decoded integer value, conversion to double returns the double nearest to its mathematical value, for every width and sign, including the extremes of each width and 64-bit values beyond 2^53. Values that are not integers convert to 0.',
 ['inputs'],'every width, sign and magnitude','No test calls the conversion.',
 [S+'sml_value.c'],[('sml_value_to_double',S+'sml_value.c')],['sml_value_to_double'])
p('C19','Octet strings render to the documented text',
 'Rendering an octet string value yields two lower-case hex digits and a space per byte; in mixed mode the leading run of bytes 0x21..0x7a is rendered as characters and everything from the first other byte on as hex. An absent or empty string renders to nothing, and the text depends on the bytes alone and covers all of them for any length.',
 ['inputs'],'every byte string, both modes','No test calls the rendering.',
 [S+'sml_value.c'],[('sml_value_to_strhex',S+'sml_value.c')],['sml_value_to_strhex'])
p('C20','sml_server prints every reading of every value list correctly',
 'For every stream, sml_server prints, for each value list response in each frame, one line per entry with a complete OBIS name and a value, in order: the six name bytes, then the octet string rendered in mixed mode, true or false, or the integer scaled by its power of ten with as many decimals as the scaler asks for (exact for up to 15 significant digits) followed by the unit name if the unit is known. Nothing else is printed without -v.',
 ['inputs'],'every stream of frames, every entry value type, scaler and unit','The program has no test.',
 ['examples/sml_server.c','examples/unit.h',S+'sml_value.c'],[('transport_receiver','examples/sml_server.c'),('dlms_get_unit','examples/unit.h')],['standard output of sml_server'])
p('C21','sml_server survives any stream and stops when asked',
 'On every byte stream, whether it comes from standard input, a file, a pipe or a terminal, sml_server ends normally when the stream ends, having printed the readings of all frames before the first one it cannot read; entries without a value or with an absent or short name are skipped and never end the program. With -s it prints exactly the first value list response and exits successfully; with -v it additionally prints a summary of each file and its message types.',
 ['inputs','histories'],'every stream, with and without -s and -v','The program has no test.',
 ['examples/sml_server.c',S+'sml_file.c'],[('transport_receiver, main','examples/sml_server.c'),('sml_file_print',S+'sml_file.c')],['exit status and standard output of sml_server'])
p('C22','Containers keep every element in insertion order',
 'After any sequence of additions to a file, sequence, value list, tree or tree path, the container holds exactly the elements added, each once, in order, and reports their number; any number of elements can be added.',
 ['histories'],'every history of container operations, any number of elements','Tests add at most two elements.',
 [S+'sml_file.c',S+'sml_list.c',S+'sml_tree.c'],[('sml_file_add_message, sml_sequence_add, sml_list_add, sml_tree_add_tree, sml_tree_path_add_path_entry','sml/src/*.c')],['container fields after public calls'])
p('C23','Operations on separate objects do not influence each other',
 'Every public operation\'s result depends only on its own arguments: interleaving operations on separate buffers, files and descriptors in any order, nesting them (such as reading or parsing inside a listen callback) or running them concurrently in several threads gives each the result it would have alone. Parsed objects stay valid and unchanged after the input memory is overwritten or freed.',
 ['schedules','histories'],'every interleaving of operations on separate objects, sequential or concurrent','Tests use one object at a time.',
 ['sml/src/*.c'],[('no mutable static state; buffers are copied','sml/src/*.c')],['results of public functions under interleaving'])
p('C24','Octet strings own their bytes and compare by content',
 'An octet string created from memory, from hex text or by parsing holds its own copy of exactly the given bytes (hex in either case; text of odd length is refused). Comparison, directly or with hex text, yields 0 exactly for equal content and is non-zero otherwise, including for different lengths, embedded zero bytes, and hex text that is refused.',
 ['inputs','histories'],'every pair of byte strings, every hex text','Two fixed strings are compared in tests.',
 [S+'sml_octet_string.c'],[('sml_octet_string_init, _init_from_hex, _cmp, _cmp_with_hex',S+'sml_octet_string.c')],['public octet string functions'])
p('C25','The checksums are CRC-16/X.25 and CRC-16/Kermit',
 'For every byte sequence, the checksum functions return CRC-16/X.25 (reflected polynomial 0x1021, initial value 0xffff, final complement) with its two bytes exchanged, and CRC-16/Kermit (same polynomial, initial value 0, no complement), respectively.',
 ['inputs'],'every byte sequence','The tables are exercised only by one message.',
 [S+'sml_crc16.c'],[('crctab and the two loops',S+'sml_crc16.c')],['sml_crc16_calculate, sml_crc16kermit_calculate'])
p('C26','New messages carry distinct, well-formed transaction ids',
 'Every message created has a transaction id of 16 bytes that differs from the id of every other message created by the process and stays unchanged through encoding and decoding; all its other fields start out absent.',
 ['histories'],'every history of message creation','One pair of messages is compared in tests.',
 [S+'sml_message.c',S+'sml_octet_string.c'],[('sml_message_init, sml_octet_string_generate_uuid','sml/src/*.c')],['sml_message_init'])
p('C27','sml_server obeys its command line, sets the line up, and prints in time',
 'sml_server accepts the options -h, -s and -v in any number, order and combination, separately or bundled, then exactly one device: the name of a device, or - for standard input. -h prints its usage and exits successfully; an unknown option, a missing or surplus argument or a device that cannot be opened ends it with a failure status before anything is read or printed as a reading. A terminal is switched to raw 8N1 at 9600 baud whatever state it was in. When a frame whose last reading is a number has arrived, its readings are printed without waiting for more of the stream.',
 ['inputs','configurations','schedules'],'every argument list, every initial setting of the terminal, every point at which the stream pauses','The program has no test.',
 ['examples/sml_server.c'],[('main: getopt loop; serial_port_open; fflush in transport_receiver','examples/sml_server.c')],['exit status and standard output of sml_server, terminal attributes'])
p('C28','A buffer is written and read at its cursor, and keeps the rest',
 'The functions that work on a buffer directly can be combined in any order: writing a header, an absent field, bytes into reserved room, or a whole object appends exactly its encoding at the cursor, moves the cursor behind it, grows the buffer when it has to, and changes no other byte of the content; reserving room loses nothing. Reading the type, the length, an absent field or an object at any cursor depends only on the bytes from there on, never changes the content, and moves the cursor exactly over what was read; whatever was written reads back in order. Reading at or beyond the end, or something of another type, sets the error, which stays, and leaves the cursor within the buffer. The dump of a buffer shows every byte once, in order.',
 ['inputs','histories'],'every history of primitive and object writes, reservations, patches and reads on one buffer, every size and content','Tests perform one operation per buffer, from cursor 0.',
 [S+'sml_shared.c',S+'sml_number.c',S+'sml_octet_string.c',S+'sml_boolean.c'],[('sml_buf_*, sml_buffer_init, sml_buffer_reserve, sml_hexdump',S+'sml_shared.c')],['fields of sml_buffer after public calls'])
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
