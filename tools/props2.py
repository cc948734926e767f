prop("H01", "Every header is decoded to exactly the fields it states",
     "For every header in every supported format (ASCII, short ASCII, abbreviated, short abbreviated, binary, short binary, JSON) decoding either reports failure or yields exactly the fields written there: message id, sibling, response flag, port, sequence, idle time, time status, week, milliseconds, receiver status, definition CRC and software version, with the format, the header's length and the plain message name. Fields a format does not carry take fixed defaults. Nothing depends on what was decoded before or on what the caller's structures held.",
     ["inputs", "histories"], "every header text or bytes, valid or not, and every sequence of decodings into the same structures", "Tests decode about ten well-formed headers into fresh structures.",
     [OS + "header_decoder.cpp", OI + "common.hpp"], [("HeaderDecoder::Decode", OS + "header_decoder.cpp"), ("DecodeAsciiHeaderField", OS + "header_decoder.cpp")],
     "TLC proves on the specification that decoding inverts printing, generates headers that are replayed, and validates the recorded traces", "Printing and decoding are specified separately; text edits and arbitrary binary headers on top of the generated ones.")
prop("H02", "Every decoded message is counted once under its id, format and sibling",
     "At every moment the counts a header decoder reports equal, for each message id, format and sibling, the number of headers it decoded successfully with that id, format and sibling since the last reset; failed decodings and messages without an id are not counted.",
     ["histories"], "every history of successful and failing decodings, reports and resets", "Tests count a few messages of one kind.",
     [OS + "header_decoder.cpp", I + "message_counts_tracker.hpp"], [("clMyMessageCounts.Increment", OS + "header_decoder.cpp")],
     TV, "Histories mixing formats, siblings and failures.")
prop("D01", "The message database answers from exactly the definitions it holds",
     "After any history of loading, adding, replacing, removing, merging and appending definitions and changing the family, a look-up by message id, by name or by enumeration name or id answers with the definition put there last and with nothing that was removed or replaced; removing one definition affects no other; and every enumeration field refers to the enumeration currently registered under its id.",
     ["histories"], "every history of database operations", "Tests load one database and do a handful of look-ups; replacement, removal of one of several sharing a name, and merging need histories.",
     [S + "message_database.cpp", I + "message_database.hpp"], [("GenerateMappings / RemoveMessageMapping", S + "message_database.cpp"), ("Merge / AppendMessages / AppendEnumerations", S + "message_database.cpp")],
     "TLC model-checks the index against the set of definitions, generates operation histories that are replayed, and validates the recorded traces", "All histories of bounded length of the abstract operations; longer random ones.")
prop("D02", "Message names and message identifiers translate into each other faithfully",
     "For every message id, sibling, format and response flag, the packed identifier unpacks to the same parts, the name printed for it is the message name with the documented suffix, and looking that name up returns the same identifier; a name that is not in the database yields no message.",
     ["inputs", "configurations"], "every id, sibling 0-31, format and response flag, every message name, including names ending in letters and digits that look like suffixes", "Tests translate a few names.",
     [S + "message_database.cpp", S + "common.cpp", I + "common.hpp"], [("MsgNameToMsgId / MsgIdToMsgName", S + "message_database.cpp"), ("PackMsgType / UnpackMsgId", I + "common.hpp")],
     "TLC proves the round trip on the specification and validates the recorded traces", "Names, siblings and formats exhaustively over a small name set in the model; random in the traces.")
prop("D03", "Definitions are loaded exactly as the file states them",
     "For every definition file, each loaded message has the stated id, name, description and definition CRCs, and for each CRC the stated fields in the stated order with their types, lengths, conversions, array bounds and nested fields; each field's layout information (offsets and sizes of the fixed part, number of variable parts) follows from the types and the family's alignment; a file that is not well-formed is rejected.",
     ["inputs", "configurations"], "every definition: field kinds, nesting, orders, several CRCs, and message families", "Tests load one database and check a few sizes.",
     [S + "json_db_reader.cpp", S + "message_database.cpp", I + "message_database.hpp"], [("ParseFields / ParseEnumDefinition", S + "json_db_reader.cpp"), ("BuildFieldInfo", S + "message_database.cpp")],
     TV, "Random definitions with nesting; layout specified recursively in TLA+.")
MF = [S + "message_decoder.cpp", I + "message_decoder.hpp", OS + "message_decoder.cpp"]
EF = [I + "encoder.hpp", OS + "encoder.cpp"]
prop("M01", "Binary message bodies are decoded to exactly the values they hold",
     "For every message definition (fixed and variable arrays, strings, nested field arrays, counted by a prefix or by an earlier field) and every sequence of bytes given as its binary body, decoding either reports a malformed message or yields, for every field, exactly the bytes the body holds there under the documented alignment; a field the body ends before holds its default. It never reads past the body, and keeps nothing of what the message object held. The values read through every accessor (by name, by index, as variant, as typed array, by iteration, from copies) agree. Unknown messages, missing databases and responses are reported or decoded as documented.",
     ["inputs", "configurations", "histories"], "every definition, every body whether well-formed, truncated, extended or corrupted, every history of one message object", "Tests decode a handful of recorded logs with one database.",
     MF + [I + "message_database.hpp"], [("MessageDecoderBase::DecodeBinary", S + "message_decoder.cpp"), ("CompositeField", I + "message_decoder.hpp")],
     "TLC checks the round-trip theorem of the specification over random definitions and values, prints the encodings, which are mutated and replayed, and validates the recorded traces", "Random definitions of all field kinds, nesting to depth 2, values over the whole range of each type.")
prop("M02", "Text message bodies are decoded to exactly the values they state",
     "For every message definition, every ASCII and abbreviated ASCII body written for it decodes to the values it states: integers and hexadecimal numbers exactly, decimal numbers to the nearest floating-point value, enumerators by name, quoted text, escaped characters, arrays and nested rows; a number that does not fit its field, an array longer than its definition allows, an empty field or a missing element is reported as malformed. Nothing is thrown, nothing is taken from behind the body's end (its checksum, or the line end), and nothing from what was decoded before.",
     ["inputs", "configurations", "histories"], "every definition, every text body whether well-formed, truncated or edited, every history of one message object", "Tests decode a handful of recorded logs.",
     MF, [("MessageDecoderBase::DecodeAscii", S + "message_decoder.cpp")],
     "TLC checks the round-trip theorem of the specification, prints the encodings, which are edited and replayed, and validates the recorded traces", "Texts whose reading no documentation fixes (such as signs of unsigned numbers or exponents of three digits) are accepted either way.")
prop("M03", "JSON message bodies are decoded to exactly the values they state",
     "For every message definition, a JSON body decodes to the values it states, in any order of members and any spacing and escaping: integers exactly or reported as malformed when they do not fit their field, other numbers to the nearest floating-point value, strings, booleans, arrays and arrays of objects; a member that is absent leaves its field at its default; text that is not JSON is malformed. Nothing of what was decoded before is kept.",
     ["inputs", "configurations", "histories"], "every definition, every JSON body, every history of one message object", "Tests decode a few JSON messages written by the encoder itself.",
     MF, [("MessageDecoderBase::DecodeJson", S + "message_decoder.cpp")],
     "TLC checks the round-trip theorem of the specification, prints the objects, which are edited, rendered in random styles and replayed, and validates the recorded traces", "The build has no simdjson; an API-compatible stand-in parses the JSON text.")
prop("E01", "Encoding states every field of a message in every format",
     "For every message definition and every content of a message, however it was put there, the body encoded to ASCII, abbreviated ASCII, binary, flattened binary and JSON is exactly the documented rendering of those values: binary fields little-endian at their alignment with zeros in every gap, flattened arrays and strings filled up to their maximum, decimal numbers correctly rounded to their precision, enumerators by name, text escaped where the format needs it, arrays with their counts and rows with their indentation.",
     ["inputs", "configurations"], "every definition and every value of every field, including extremes, and every way of setting them", "Tests compare the encodings of a handful of recorded logs.",
     EF + [I + "message_decoder.hpp"], [("EncoderBase::EncodeAsciiBody / EncodeBinaryBody / EncodeJsonBody", I + "encoder.hpp"), ("CompositeField::SetFieldValue", I + "message_decoder.hpp")],
     TV, "Exact decimal expansion of IEEE-754 numbers in TLA+; infinities and NaNs are not encoded.")
prop("E02", "An encoded message has a correct envelope",
     "Whatever the header and content, an encoded message consists of the header in the wanted format (short or long), the body and, where the format has one, the CRC of exactly the bytes before it; a binary header states the body's real length, and a body longer than its header can state is not encoded; the reported message, header and body positions and lengths delimit exactly those parts; responses are written as responses; and a null buffer, a missing database, an unset message and an unsupported format are each reported as such.",
     ["inputs", "configurations"], "every header, both header lengths, every format, every body length, and every error", "Tests re-encode recorded headers.",
     EF + [OI + "common.hpp"], [("Encoder::Encode / EncodeHeader / EncodeBody", OS + "encoder.cpp")],
     TV, "Bodies just below and above 255 and 65535 bytes included.")
prop("E03", "Encoding never writes outside the caller's buffer",
     "For every message, header, format and buffer size, encoding into a buffer of that size writes nothing outside it; it succeeds only when the whole message fits, with the same bytes as in a larger buffer, and otherwise reports a full buffer; and it succeeds whenever the buffer has the room plus a small reserve.",
     ["inputs", "configurations"], "every buffer size from zero to beyond the message's length, at every alignment", "Tests encode into ample buffers.",
     EF, [("CopyToBuffer", I + "encoder.hpp"), ("Encoder::Encode", OS + "encoder.cpp")],
     TV, "Every size around the message's length and a sweep below it, between guard zones.")
prop("L01", "A filter passes exactly the messages its settings select",
     "After any history of setting, changing, inverting, removing and clearing its conditions, a filter passes a message exactly when every condition that is set selects it: its time lies within the bounds (both inclusive, either may be absent), its time is a multiple of the decimation period, its time status is among those included, its id or name is included for its format (or for all formats) and sibling - each reversed when that condition is inverted, and conditions that are not set pass everything - and responses or non-responses are included. NMEA passes only if included, unknown data never. A copy behaves as the original; clearing restores the initial filter.",
     ["inputs", "histories"], "every history of filter settings and every message", "Tests set one or two conditions on a fresh filter and filter two or three messages.",
     [OS + "filter.cpp", OI + "filter.hpp"], [("Filter::DoFiltering", OS + "filter.cpp"), ("Filter::Clear / Remove / Invert", OS + "filter.cpp")],
     "TLC model-checks the filter's algebra, generates every transition of a small model as a history that is replayed, and validates the recorded verdicts", "Message times are whole milliseconds; what an inverted period of zero selects is not specified.")
prop("P01", "A parser returns every message of its stream once, in order, as its settings say",
     "For every stream of bytes, cut into writes in any way, and every history of settings and reads, a parser hands out exactly the messages the stream holds, in order and once each: those with a readable header that pass the filter, decoded (ReadIntermediate) or re-encoded in the chosen format (Read); a message without definition as NO_DEFINITION with its header; everything that is no readable message as UNKNOWN bytes if asked for, else passed over; abbreviated ASCII responses only if not ignored. No byte is lost or handed out twice, a message that cannot be encoded does not stop the next, a trailing unfinished abbreviated ASCII message is handed out only on request, what the caller's structures held before does not matter, and the message counts equal the headers read. BUFFER_EMPTY is returned only when nothing more can be told from the bytes written; Flush returns the remaining ones.",
     ["inputs", "histories", "configurations"], "every stream, every chunking, every history of options, filters, reads, flushes and resets", "Tests parse a few recorded files once with default options.",
     [OS + "parser.cpp", OI + "parser.hpp"], [("Parser::ReadIntermediate", OS + "parser.cpp"), ("Parser::Read", OS + "parser.cpp")],
     "TLC model-checks the parser on a toy alphabet (conservation, chunking), generates every small plan which is replayed with real messages, and validates the recorded traces against the composed specification of framing, headers, filter and bodies", "RXCONFIG messages included; range compression and proprietary messages are excluded; text bodies with NULs are not judged.")
prop("P02", "A file parser returns every message of its stream and then STREAM_EMPTY",
     "For every stream given to a file parser and every history of settings, the reads return exactly what a parser returns for all bytes of the stream, including a final abbreviated ASCII message that nothing follows, whatever comes of it; then STREAM_EMPTY, again and again. Reset starts the same stream over with the counts at zero, setting a stream starts that stream, and a null or ended stream is refused and leaves the file parser as it was; without a stream there is nothing to read.",
     ["inputs", "histories", "configurations"], "every stream, every history of options, filters, reads, resets and stream changes", "Tests read one or two recorded files to the end.",
     [I + "file_parser.hpp", OI + "file_parser.hpp", OS + "parser.cpp"], [("FileParserBase::HandleRead", I + "file_parser.hpp"), ("FileParserBase::Reset / SetStream", I + "file_parser.hpp")],
     "TLC model-checks the parser on a toy alphabet, generates every small plan which is replayed as a stream, and validates the recorded traces against the composed specification", "As P01; streams are in memory and up to about a hundred kilobytes.")
prop("C01", "A command given as text is encoded as the message its parameters describe",
     "For every command text (a name, a space, the parameters as abbreviated ASCII), database and buffer, a commander - as an object or through its static function - writes the ASCII or binary message whose body is what decoding the parameters with the latest definition of that name gives, under a header with that message's id and definition checksum and the port THISPORT, everything else zero; the size becomes the message's length and a NUL follows if there is room for it. A command without parameters has none. Nothing is written beyond the buffer: a command that does not fit is BUFFER_FULL, an unknown name NO_DEFINITION, unreadable parameters MALFORMED_INPUT, other formats UNSUPPORTED, null pointers NULL_PROVIDED, no database NO_DATABASE; then the size stays as given. A database loaded later serves as well as one given at construction.",
     ["inputs", "configurations"], "every command text, every definition, every buffer size", "Tests encode four commands into large buffers.",
     [OS + "commander.cpp", OI + "commander.hpp"], [("Commander::Encode", OS + "commander.cpp"), ("Commander::LoadJsonDb", OS + "commander.cpp")],
     "TLC proves on generated definitions that decoding inverts encoding, and the encoded texts, edited, are given to the real commander; TLC validates the recorded results against the composed specification of bodies and headers", "Texts with NULs and longer than a message can be, and floating-point parameters that are not exact, are judged less strictly.")
prop("X01", "A message that holds a message is read and converted whole",
     "For every RXCONFIG or RXCONFIGUSER message, in ASCII, abbreviated ASCII or binary, decoding either reports failure or yields the header and exactly the bytes of the message it holds, with that message's checksum restored, so that it is itself a valid message of its format; converting it - by itself, or read from any stream in any chunking - into ASCII, abbreviated ASCII, binary or JSON gives the outer header, the held message re-encoded in that format with its checksum inverted where the format has one, and the outer checksum, with the reported positions and lengths delimiting exactly those parts. A held message that cannot be decoded or a message cut short is reported, never read beyond; nothing is written beyond the caller's buffer; nothing depends on what was handled before; and messages of other kinds are refused.",
     ["inputs", "histories", "configurations"], "every held message, outer header, format, truncation, corruption, buffer size, and every history of one handler", "Tests convert two recorded RXCONFIG messages.",
     [OS + "rxconfig/rxconfig_handler.cpp", OI + "rxconfig/rxconfig_handler.hpp"], [("RxConfigHandler::Decode", OS + "rxconfig/rxconfig_handler.cpp"), ("RxConfigHandler::Encode / Convert", OS + "rxconfig/rxconfig_handler.cpp")],
     "TLC proves on generated definitions that decoding inverts encoding of the held messages, which are wrapped, spoilt and given to the real handler; TLC validates the recorded results against the composed specification of headers, bodies and the wrapping", "Held messages that are responses or hold messages themselves, and NULs in held text, are not judged.")
prop("R01", "Decompressed range messages state the observations the receiver compressed",
     "For every RANGECMP, RANGECMP2, RANGECMP4 or RANGECMP5 message in binary or text, short or long header, decompressing it yields one RANGE message, in the requested format, with that message's header and exactly one row per compressed observation in order: satellite number, GLONASS frequency, pseudorange, carrier phase, Doppler, their deviations, C/N0 and channel tracking status as the compressed fields and their scales define them, NaN for values stated to be invalid. A differential RANGECMP4 block is relative to the reference block with its identifier of that satellite, signal and source of the same second, and yields no row without one. Lock times that exceed what the fields can state grow with time since, also over the end of a week. Nothing else depends on earlier messages, and nothing after a reset. Messages cut short or damaged, or stating more observations than a RANGE message holds, are reported; messages of other kinds are refused; nothing is read beyond the message or written beyond the caller's buffer, which if too small is BUFFER_FULL. A parser told to decompress yields, for each of these messages, the RANGE message it states, encoded in the parser's format, or the reason why there is none; flushing it is a reset.",
     ["inputs", "histories", "configurations"], "every compressed message, every history of messages, sources, losses and resets, every buffer size and format", "Tests decompress a dozen recorded messages and compare a text with tolerances.",
     [OS + "rangecmp/range_decompressor.cpp", OS + "rangecmp/channel_tracking_status.cpp", OS + "parser.cpp", OI + "rangecmp/common.hpp", OI + "rangecmp/range_decompressor.hpp"],
     [("RangeDecompressor::Decompress", OS + "rangecmp/range_decompressor.cpp"), ("RangeDecompressor::RangeCmp4ToRange", OS + "rangecmp/range_decompressor.cpp"), ("ChannelTrackingStatus", OS + "rangecmp/channel_tracking_status.cpp")],
     "TLC model-checks the rules for lock times and for reference blocks against a receiver that loses lock, loses messages and is reset, and validates recorded histories of the real decompressor, value by value in exact arithmetic, against the specification of the four encodings composed with those of headers and bodies", "Values of signals the tables do not name, the invalid Doppler values of secondary RANGECMP4 blocks and of RANGECMP5, and the lock times after a message that failed are not judged.")
prop("M04", "A message object is a value",
     "After any history of constructing, copying and assigning message objects and flat field arrays, setting whole fields, single elements and rows by definition or by place, and giving an object other field definitions or sizes, every way of reading - by definition, by name, as a variant, by element, as a typed buffer, by iteration, through field arrays, row views and rows within rows - yields exactly what was last set, and the default of its type where nothing was. Setting a field changes no other field and no other object: copies, and rows stored in an array, are independent of what they were made from. The size of a field in values and bytes and its bytes when written agree with its value. An element, row or byte past the end, a name that does not exist, and a value of a kind the field cannot hold are refused with an exception that changes nothing, and no memory outside the object is read or written.",
     ["inputs", "histories"], "every definition, every history of operations on several objects and arrays", "Tests set and read a few fields of two fixed definitions.",
     [I + "message_decoder.hpp", I + "message_database.hpp"], [("CompositeField::SetFieldValue / SetArrayElement / GetFieldValue", I + "message_decoder.hpp"), ("FlatFieldArray / FieldArray / FieldArrayRecordView", I + "message_decoder.hpp")],
     "TLC model-checks on generated definitions that fields do not share storage (read after write, nothing else changed), and validates recorded histories over three real objects and two arrays, all of their storage after every step, against the specification of objects as values", "Values have the type of their field (only its size is checked by the library), and definitions used with an object lie within its storage when they are read.")
prop("G01", "Generated structs overlay flattened messages",
     "For every database, the structs that the generator of flat C++ structs writes - for all messages when asked, else for the public logs among them - compile, and the flattened binary body of any message of the newest definition, copied to the struct of that name, is exactly as long as it and shows under the name of each field, array length, array element and row (within rows too) exactly the value the message holds there, and zeros beyond the length of an array: whatever the types, sizes, nesting, order and padding of the fields.",
     ["inputs"], "every database, every definition, every value", "No test runs the generator.",
     ["scripts/gen_flat_cpp_structs.py", I + "encoder.hpp"], [("gen_field_defs", "scripts/gen_flat_cpp_structs.py"), ("EncoderBase::EncodeBinaryBody<true>", I + "encoder.hpp")],
     "TLC model-checks on generated definitions that the places the specification gives to values are where the flattened encoding has them, apart and independent of the values; and validates the layout a compiler gives the generated structs, and bodies flattened by the real encoder read through them, against it", "Names of fields are C++ identifiers and not reserved ones (but for the two the generator renames); arrays have room for an element.")
prop("D04", "Definitions are independent values",
     "After any history of building, copying (copy construction, assignment, to itself too, and clone()), moving, changing and destroying definitions of enumerations, messages, field lists and fields, every copy states exactly what its source stated when it was made: the same kinds of fields in the same order, nested ones too, with the same types, lengths, conversions, layout and links, and its look-ups (enumerator by name, by description, by value, the value for unknown ones; definition by checksum; field by name) answer for its own content. It shares no field with another definition, and nothing done later to either, its destruction included, shows in the other. Two fields or message definitions are equal exactly if all their stated parts are, whatever is cached in them. Setting a conversion string takes its width and precision from it, or refuses it and changes nothing.",
     ["inputs", "histories"], "every definition, every history of copies, changes and destructions", "Tests compare a few copies of two fixed definitions.",
     [I + "message_database.hpp"], [("EnumDefinition / MessageDefinition copy and assignment", I + "message_database.hpp"), ("BaseField::clone / operator== / SetConversion", I + "message_database.hpp")],
     "TLC model-checks that deep copies of trees in a heap refine independent values, generates every transition as a history which is replayed on real definitions, and validates the recorded traces, all of every definition and all comparisons after each step, against the specification of definitions as values", "Enumerators of one enumeration have distinct values, names and descriptions; numbers with leading zeros or more than nine digits in conversion strings are not judged; the definitions of enumerations that fields refer to are shared by design.")
