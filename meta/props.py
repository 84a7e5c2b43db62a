AI = "abstract interpretation of LLVM IR (polyhedra, provenance, typestate) under a most general client; fixpoints, no execution"
TRUST = "Holds for all inputs and histories the driver describes; trusts clang's IR, the abstract interpreter and the C library contracts in engine/models.py."
PROPS = []


def P(**k):
    PROPS.append(k)


BO = ["BufferedOut.h", "BufferedOut.cpp"]
P(id="B01", title="Formatted output never touches memory outside the buffer it was given",
  statement="Whatever sequence of values, texts, blocks and formatting settings is inserted into an output buffer of any capacity, no byte outside that buffer is read or written, and the fill level stays between zero and the capacity.",
  over=["inputs", "histories"], quant="all capacities (including 0), all sequences of insertions and settings of any length, all values, widths, precisions and text lengths",
  why="The tests use a few large buffers and a handful of insertions; an overrun needs a particular combination of fill level, width and value.",
  files=BO, mech=[("free-space tests before each store", "BufferedOut.cpp operator<<, toChars, append"), ("field padding", "BufferedOut.cpp addPadding/adjustPos")],
  state=[("pos", "end of the written part", "BufferedOut.h"), ("integerWidth", "pending field width", "BufferedOut.h")],
  technique=AI, note=TRUST)
P(id="B02", title="Earlier output is never changed by later insertions; all views agree",
  statement="An insertion leaves every byte that was already in the output buffer as it was and never lowers the fill level. The byte view, the text view and the reported size always describe exactly the bytes inserted so far.",
  over=["inputs", "histories"], quant="any reachable state of an output buffer and any one further insertion; every earlier byte",
  why="Tests compare whole strings after a few insertions; they do not vary the fill level at which each kind of insertion happens, nor buffers above 64 KiB.",
  files=BO, mech=[("append position", "BufferedOut.cpp"), ("views", "BufferedOut.h data(), asStringView(), size()")],
  technique=AI, note=TRUST)
P(id="B03", title="Integers are printed whole, in their field, or not at all",
  statement="Inserting an integer adds the complete decimal text, right-aligned in the requested field width with the fill character in front, or adds nothing when that does not fit. A requested width applies to the next integer only.",
  over=["inputs"], quant="all six integer types, all values, widths, fill characters, capacities and fill levels",
  why="Tests print a few numbers into buffers that are large enough; the interesting cases are a field that only just fits or does not fit.",
  files=BO, mech=[("conversion and field padding", "BufferedOut.cpp operator<<(int...), adjustPos, addPadding")], technique=AI,
  note=TRUST + " std::to_chars is used through its contract (whole number or value_too_large); its digits are not re-derived.")
P(id="B04", title="Only bytes that were written are ever exposed",
  statement="Every byte a reader can see through an output buffer was stored there by an insertion since the buffer was handed over; no insertion exposes stale or uninitialised memory.",
  over=["inputs", "histories"], quant="every kind of insertion, every fill level, capacity and format setting, every exposed byte",
  why="A test buffer is usually zeroed or large; exposure of stale memory needs a value that only partly fits.",
  files=BO, mech=[("position advanced only over stored bytes", "BufferedOut.cpp toChars, addPadding")], technique=AI, note=TRUST)
P(id="B05", title="Bytes are printed as two upper-case hex digits, in order, never half",
  statement="Inserting a byte appends its two upper-case hexadecimal digits, high digit first, or nothing when fewer than two characters are free. Inserting a block appends the digits of its bytes in order and stops only at the first byte that no longer fits.",
  over=["inputs"], quant="all 256 byte values, blocks of any length, all capacities and fill levels",
  why="Tests print one short block into a sufficiently large buffer.",
  files=BO, mech=[("digit table and free-space test", "BufferedOut.cpp operator<<(unsigned char), operator<<(ConstBytesView)")], technique=AI, note=TRUST)
P(id="B06", title="Text is copied verbatim and only truncated at the end of the buffer",
  statement="Inserting text appends its leading characters unchanged, as many as are free; a single character is appended or dropped when the buffer is full. Clearing empties the output and resets the formatting.",
  over=["inputs"], quant="texts of any length and content (terminated or counted), all capacities and fill levels",
  why="Tests use short constant strings at a few fill levels.",
  files=BO, mech=[("copy with length limit", "BufferedOut.cpp append, operator<<(std::string_view)"), ("addChar/clear", "BufferedOut.h")], technique=AI, note=TRUST)

P(id="B07", title="Every formatted insertion returns",
  statement="Inserting any value, text or block, changing the format and clearing return after a number of steps bounded by the buffer, the block or the text - whatever the fill level, width, precision and length are.",
  over=["inputs"], quant="every kind of insertion, all capacities and fill levels, any width, precision and length of block or text",
  why="A loop that only ends for the small sizes of a test cannot be told from one that always ends by running it.",
  files=BO, mech=[("copy, digit and padding loops", "BufferedOut.cpp toChars, append, addPadding, operator<<(ConstBytesView)")], technique=AI, note=TRUST)

MV = ["MemoryView.h"]
P(id="M01", title="A view of memory never reaches outside the region it was made from",
  statement="Whatever offset and count is requested, a sub-view (subspan, first, last) covers exactly the requested elements clipped to the parent view, and is empty when nothing is left; byte views and conversions cover exactly the same bytes as their source, and all size, begin/end and index accessors agree with each other.",
  over=["inputs"], quant="regions of any size, any 64-bit offset and count, element types of different sizes, read-only and mutable views",
  why="Tests use a few in-range offsets; the dangerous ones are offsets beyond the end and counts that overflow.",
  files=MV, mech=[("clipping of offset and count", "MemoryView.h subspan/first/last"), ("byte views", "MemoryView.h BytesViewBase, ConstBytesView")], technique=AI, note=TRUST)
P(id="M02", title="Read-only memory cannot be written through a view",
  statement="No program that would write to read-only memory through a memory view compiles: a view of constant elements hands out constant references, and it never converts to a mutable view; the conversions in the safe direction do compile.",
  over=["inputs"], quant="every constructor, accessor and conversion of the view templates",
  why="A test can only contain programs that compile.",
  files=MV, mech=[("constness as part of the type", "MemoryView.h template parameters and converting constructors")],
  technique="type-level encoding: compile-fail witnesses with accepted siblings", note="One witness program per way of writing; a way nobody wrote down is not covered.")
P(id="E01", title="Endian conversions move each byte to its place and lose none",
  statement="Converting a 16 or 32 bit integer reverses its bytes, for every value; converting twice gives the value back. The float conversion is the float whose representation is the reversed one. Converting a pair of 16 bit values in place swaps the bytes of each half, keeps the halves where they are and touches nothing next to the pair.",
  over=["inputs"], quant="all values of all supported widths; a pair anywhere in an array of any length",
  why="Tests convert one constant per width; a wrong byte is invisible when the sampled bytes coincide.",
  files=["EndianConversion.h"], mech=[("masks and shifts", "EndianConversion.h changeEndianess, changeEndianessToFloat, changeEndianess16x2")],
  technique="bit-provenance analysis of LLVM IR: each bit of a result is traced to one bit of the argument; no execution", note=TRUST)
PS = ["PersistentStorage.h", "PersistentStorage.cpp"]
P(id="P01", title="The storage never touches memory outside its region, whatever the region holds",
  statement="Attaching a storage to a region with arbitrary (stale or corrupted) content, looking up and storing objects never reads or writes outside the region, the key or the object handed in, and never outside the region even for objects that do not fit any more.",
  over=["inputs", "histories"], quant="all region sizes and contents, all keys of any length, objects of different sizes, any two operations after attaching and any three after initialising",
  why="Tests use regions this code has written itself; a device finds whatever the memory holds after a power loss.",
  files=PS, mech=[("record chain validation on attaching", "PersistentStorage.cpp constructor"), ("free-space test", "PersistentStorage.h set"), ("scan", "PersistentStorage.h getIdx")],
  state=[("free_head_", "end of the record chain", "PersistentStorage.h")], technique=AI.replace("typestate)", "record chains)"), note=TRUST)
P(id="P02", title="What was stored under a key is what is found under it, until it is replaced",
  statement="After a store was accepted, the lookup with that key and type yields exactly the stored object, and all other stored objects are found unchanged. A store is accepted exactly when a record with this key and size exists or a new record fits; replacing takes no room. Objects whose key or size cannot be represented are refused, never cut off. Initialising forgets all objects.",
  over=["inputs", "histories"], quant="all keys of up to four (and refused longer) characters, all object contents, all region sizes; histories of up to three stores",
  why="Tests use a handful of keys; keys that share a prefix, full regions and equal keys with different sizes are what goes wrong.",
  files=PS, mech=[("key comparison", "PersistentStorage.h operator==(array, string_view)"), ("record lookup", "PersistentStorage.h getIdx"), ("append", "PersistentStorage.h set")],
  technique=AI, note=TRUST + " Key characters are any non-zero byte (keys differing in trailing zero bytes only are one key). Objects of 2 and 3 bytes.")
P(id="P03", title="Lookups write nothing; a refused store writes nothing; others one record",
  statement="Attaching without initialisation and looking up never modify the region. A refused store leaves every byte of it as it was. An accepted store changes bytes within a single record only.",
  over=["inputs", "histories"], quant="all regions with any content, all keys and objects, every byte (every pair of bytes) of the region",
  why="Tests look at the objects, not at the bytes of the region, and only at regions they have filled.",
  files=PS, mech=[("in-place replacement and append", "PersistentStorage.h set")], technique=AI, note=TRUST)
P(id="P04", title="A storage attached later finds everything earlier ones stored",
  statement="A storage attached to a region without initialisation finds exactly the objects that earlier storages on the region stored, can replace them, and has exactly the room left that they left.",
  over=["inputs", "histories"], quant="all keys, objects and region sizes; two stores, attach, replace, third store, attach",
  why="Tests attach once with one content.",
  files=PS, mech=[("chain walk of the constructor", "PersistentStorage.cpp"), ("record layout", "PersistentStorage.h NodeDescriptor")], technique=AI, note=TRUST)
P(id="P05", title="Attaching, lookups and stores always end",
  statement="Whatever bytes a region holds, attaching a storage to it, looking up and storing return after a number of steps bounded by the size of the region and the key.",
  over=["inputs"], quant="all region sizes and contents, all keys",
  why="A record of length zero makes a scan run forever; no test has one.",
  files=PS, mech=[("record length checked on attaching", "PersistentStorage.cpp"), ("scan", "PersistentStorage.h getIdx")],
  technique="ranking analysis on the loop invariants of the abstract interpretation", note=TRUST)
GFX = ["graphics/Canvas.h", "graphics/Canvas.cpp"]
RA = "relational abstract interpretation of LLVM IR (polyhedra, trace partitions per drawn pixel); no execution"
P(id="G01", title="Drawing never asks the frame buffer for a pixel that it does not have",
  statement="Whatever is drawn on a canvas - pixels, lines in any direction, rectangles, circles and glyphs, at any place, partly or wholly outside, in any rotation - every pixel that the canvas passes to the frame buffer has coordinates inside the frame buffer's width and height.",
  over=["inputs"], quant="all frame buffer sizes, rotations, coordinates, sizes and radii up to 2^24, including negative ones",
  why="Frame buffers do not check coordinates: one pixel outside is a write outside the image memory. Tests draw a few shapes inside.",
  files=GFX, mech=[("clipping", "Canvas.h setIfVisible"), ("clipped rectangle", "Canvas.cpp drawFilledRectangle")], technique=RA, note=TRUST)
P(id="G02", title="A shape paints exactly its own pixels, in every rotation",
  statement="Drawing a pixel, a horizontal or vertical line (in either direction), a rectangle outline or a filled rectangle paints exactly the visible pixels that belong to the shape in the coordinates of the rotated canvas - every one of them, and no other. The size of the canvas is that of the frame buffer, with width and height swapped for the quarter turns.",
  over=["inputs"], quant="all frame buffer sizes, positions and sizes up to 2^20, all four rotations; every pixel of the canvas",
  why="Tests compare a handful of pictures with fixed geometry.",
  files=GFX + ["graphics/BaseGeometry.h"], mech=[("coordinate transformation", "Canvas.cpp transformCoords"), ("rectangle corners", "BaseGeometry.h Rect")],
  technique=RA, note=TRUST + " Slanted lines and circles are covered by G01 and G05 only.")
P(id="G03", title="The packed frame buffer changes exactly the pixel it is asked to change",
  statement="Drawing a pixel into a simple frame buffer of any supported colour depth stores the selected colour (cut to the depth) in that pixel and leaves every bit of all other pixels alone; clearing gives every pixel the given colour and keeps the selected one; nothing outside the image memory is touched. The image is exactly width x height x depth bits, rows of pixels with the most significant bit first.",
  over=["inputs"], quant="all seven depths, three sizes, all pixels, all colours, any prior content of the image",
  why="Tests use one bit per pixel; the deeper formats are not covered at all.",
  files=["graphics/SimpleFrameBuffer.h"], mech=[("pixel position and mask per depth", "SimpleFrameBuffer.h drawPixel")],
  state=[("buffer", "packed pixels", "SimpleFrameBuffer.h"), ("selectedColor", "colour of the next pixel", "SimpleFrameBuffer.h")],
  technique="abstract interpretation of LLVM IR with bit-provenance values and symbolic positions; no execution", note=TRUST)
P(id="G04", title="Text shows each character's own glyph, exactly, where the metrics say",
  statement="A character code finds its own glyph in the font, or the first glyph when the font has none for it, and the glyph's bits lie inside the font's bitmap. Drawing a character paints exactly the set bits of its glyph, at the text position plus the glyph's offset, in every rotation, and returns the advance; text continues after the advance of each character. The bounds of a text enclose every glyph of it.",
  over=["inputs"], quant="all 256 character codes, the shipped font and fonts with any glyph sizes, offsets, advances and bitmaps, all canvas sizes, positions and rotations; texts of up to three characters",
  why="No test draws text; codes outside the font and glyphs at the end of the table are the usual failures.",
  files=["graphics/EmbeddedFont.cpp", "graphics/Canvas.cpp", "graphics/GFXFontsAdapter.h", "graphics/GFXFonts/FreeSans15pt7b.h"],
  mech=[("glyph lookup", "EmbeddedFont.cpp getBitmap"), ("glyph drawing", "Canvas.cpp drawCharAt"), ("bounds", "EmbeddedFont.cpp getTextBounds")],
  technique=RA, note=TRUST + " Glyph sizes for drawing: eight sizes from 1x9 to 23x20 (thorough: 255x2 and 2x255).")
P(id="G05", title="Every drawing operation ends",
  statement="Drawing lines, rectangles, circles and glyphs, clearing a frame buffer and measuring text return after a bounded number of steps whatever coordinates, sizes and radii they are given.",
  over=["inputs"], quant="all coordinates, sizes and radii up to 2^24",
  why="A loop that misses its end condition for one geometry hangs the device.",
  files=GFX, mech=[("Bresenham loops", "Canvas.cpp drawLine, drawCircle")], technique="ranking analysis on the loop invariants of the abstract interpretation", note=TRUST)
def hw(*names):
    return [d + n for d in ("arduino/", "esp32-esp-idf/") for n in names]


HTRUST = TRUST + " The vendor's driver functions are stub headers in drivers/hal that may behave in any way their documentation allows."
HA = "abstract interpretation of LLVM IR (polyhedra, typestate) with the vendor drivers as a most general environment; no execution"
P(id="H01", title="UART packets hold exactly the bytes received, in order, within the buffer",
  statement="On both hardware backends a receive operation of the packet UART returns exactly the bytes that the UART delivered, in order and without gaps or made-up bytes, never more than the buffer holds, and its return value is their number. A packet received up to an end byte ends at the first one; one received between two bytes begins at the first start byte and ends at the first end byte after it. Sending passes on the caller's whole block.",
  over=["inputs", "schedules"], quant="all buffer sizes, start and end bytes and timeouts; the UART delivers any bytes, at any times, in any portions, and the driver may report errors at any call",
  why="The hardware backends are not even compiled by the tests; a driver error or a missing byte in the middle of a packet is what goes wrong in the field.",
  files=hw("PacketUart.cpp") + ["esp32-esp-idf/SimpleUartDevice.cpp", "PacketUart.h"],
  mech=[("receive loops", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp"), ("driver result", "esp32-esp-idf/SimpleUartDevice.cpp receiveBlocking")], technique=HA, note=HTRUST)
P(id="H02", title="UART operations respect their deadline, also when the clock wraps",
  statement="A UART receive with a timeout never starts a wait or a poll that reaches beyond its deadline, and gives up with an incomplete packet only when the deadline has passed or the driver reported that nothing came - also when the millisecond clock wraps during the operation. The timeout that was set on the serial stream before is in place again after every operation.",
  over=["inputs", "schedules"], quant="all timeouts, all clock values and advances between any two looks at the clock, all delivery patterns",
  why="The clock wraps every 49 days; no test lives that long.",
  files=hw("PacketUart.cpp") + ["esp32-esp-idf/SimpleUartDevice.cpp", "PacketUart.h"],
  mech=[("elapsed time by subtraction", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp"), ("timeout saved and restored", "arduino/PacketUart.cpp")], technique=HA, note=HTRUST)
P(id="H03", title="SPI moves the caller's bytes exactly, in one transaction, and reports failure",
  statement="A blocking SPI transfer on either backend sends each byte of the caller's block once, in order, and stores each received byte in its own place of the receive block, for every length, cut into chunks the driver accepts, and within one bus transaction. It reports success exactly when the whole block went through.",
  over=["inputs", "crash_points"], quant="all lengths up to 65535, all data, a driver failure at any chunk or on acquiring the bus",
  why="The backends are not compiled by the tests; long blocks and failures in the middle of a block are rare on a bench.",
  files=hw("SpiDevice.cpp", "SpiBus.cpp") + ["SpiDevice.h"], mech=[("chunk loop", "esp32-esp-idf/SpiDevice.cpp"), ("transfer loop", "arduino/SpiDevice.cpp, arduino/SpiBus.cpp")], technique=HA, note=HTRUST)
P(id="H04", title="I2C, GPIO and ADC operations reach their own device and report failure",
  statement="An I2C transfer, address test or initialisation, a pin write, read or configuration, a chip selection and an ADC reading address exactly the device, pin or channel of their object, with the caller's data and a wait no longer than asked for. Success or a value is reported exactly when the driver reported it. A chip selector holds its pin low for exactly its own life.",
  over=["inputs", "crash_points"], quant="all addresses, pins, lengths, data and timeouts; every driver call may fail",
  why="The backends are not compiled by the tests.",
  files=hw("I2CDevice.cpp", "I2CBus.h", "GpioDigitalPin.cpp", "AnalogPin.cpp", "GpioPinDefinition.h") + ["arduino/I2CBus.cpp", "esp32-esp-idf/I2CBus.cpp", "GpioDigitalPin.h", "I2CDevice.h", "AnalogPin.h"],
  mech=[("requests passed to the driver", "I2CDevice.cpp, GpioDigitalPin.cpp, AnalogPin.cpp of both backends"), ("chip selection", "GpioDigitalPin.h ChipSelector")], technique=HA, note=HTRUST + " Channel tables of the ADC: pins 0 to 39 and everything outside.")
P(id="H05", title="Hardware resources are used only while held and are always given back",
  statement="On the ESP32 backend SPI buses and devices, I2C command lists and ADC units are used only while they are claimed, are claimed at most once at a time, and have been given back whenever their user is destroyed, releases them or reports that it could not claim them.",
  over=["histories", "crash_points"], quant="all histories of initialising, using, releasing and destroying; a driver failure at any call",
  why="A leak needs a failing driver call or a second initialisation; tests have neither.",
  files=["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/AnalogPin.cpp"],
  mech=[("claim and release", "esp32-esp-idf/SpiBus.cpp init, release"), ("unit per reading", "esp32-esp-idf/AnalogPin.cpp singleRead")],
  technique="typestate analysis on LLVM IR by abstract interpretation, with the vendor drivers as a most general environment", note=HTRUST)
P(id="H06", title="Serial output leaves whole, in order and once; lines end with a newline",
  statement="Flushing a serial output sends every byte that was inserted since the last flush, unchanged, in order and once, whatever the size of the buffer, and empties it. Ending a line sends a newline last, also when the buffer is full.",
  over=["inputs", "histories"], quant="all buffer sizes and fill levels up to 2^30, every byte of the output, two flushes in a row; both backends",
  why="Nothing tests the serial output; a full buffer or one larger than a packet length is what loses output.",
  files=["SerialOut.h"] + hw("SerialOut.cpp"), mech=[("flush and end of line", "SerialOut.h, arduino/SerialOut.cpp, esp32-esp-idf/SerialOut.cpp")],
  state=[("pos", "end of the pending output", "BufferedOut.h")], technique=AI, note=TRUST + " The packet UART is the environment here; it accepts what it is given.")
