"""Behaviour-preserving edits of /repo (refactorings as a maintainer would make them)."""
BC, BH = "BufferedOut.cpp", "BufferedOut.h"
B = ["B01", "B02", "B03", "B04", "B05", "B06"]
EDITS = [
("bo-append-helper", B, [(BC, """    auto effectiveSize = std::min(str.size(), static_cast<size_t>(dataBuf.end() - pos));
    std::memcpy(pos, str.data(), effectiveSize);
    pos += effectiveSize;
    return *this;""", """    const size_t available = dataBuf.size() - size();
    const size_t count = str.size() < available ? str.size() : available;
    for (size_t i = 0; i < count; ++i)
    {
        pos[i] = str[i];
    }
    pos += count;
    return *this;""")]),
("bo-cstr-view", B, [(BC, "    pos = append(pos, dataBuf.end(), str);\n    return *this;", "    return *this << std::string_view(str);")]),
("bo-cstr-for", B, [(BC, """    while (*str && dst != end)
    {
        *(dst++) = *(str++);
    }
    return dst;""", """    for (; dst != end; ++dst, ++str)
    {
        if (*str == '\\0')
            break;
        *dst = *str;
    }
    return dst;""")]),
("bo-int-template", B, [(BC, "namespace embedded\n{\n", """namespace embedded
{

template<typename T>
BufferedOut &BufferedOut::printInteger(T n)
{
    const auto result = std::to_chars(pos, dataBuf.end(), n);
    if (result.ec != std::errc {})
    {
        return *this;
    }
    adjustPos(result.ptr);
    return *this;
}
"""), (BC, """{
    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);
    if (ec == std::errc {})
    {
        adjustPos(p);
    }
    return *this;
}""", "{\n    return printInteger(n);\n}"), (BH, "    void adjustPos(char* p);", "    void adjustPos(char* p);\n    template<typename T>\n    BufferedOut &printInteger(T n);")]),
("bo-int-widen", B, [(BC, """BufferedOut &BufferedOut::operator<<(int n)
{
    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);
    if (ec == std::errc {})
    {
        adjustPos(p);
    }
    return *this;
}""", """BufferedOut &BufferedOut::operator<<(int n)
{
    return *this << static_cast<long>(n);
}""")]),
("bo-padding-rewrite", B, [(BC, """    auto realSize = p - pos;
    if (realSize < integerWidth)
    {
        if (dataBuf.end() - pos < integerWidth)
        {
            return; // the padded field doesn't fit
        }
        memmove(pos + integerWidth - realSize, pos, realSize);
        auto paddingSize = integerWidth - realSize;
        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }
        pos += integerWidth;
    }
    else
    {
        pos += realSize;
    }""", """    const auto length = p - pos;
    if (length >= integerWidth)
    {
        pos = const_cast<char*>(p);
        return;
    }
    if (integerWidth > dataBuf.end() - pos)
    {
        return;
    }
    const auto padding = integerWidth - length;
    memmove(pos + padding, pos, length);
    memset(pos, fillChar, padding);
    pos += integerWidth;""")]),
("bo-padding-stdfill", B, [(BC, """        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }""", "        std::fill(pos, pos + paddingSize, fillChar);"), (BC, "#include <charconv>", "#include <algorithm>\n#include <charconv>")]),
("bo-padding-copyback", B, [(BC, "        memmove(pos + integerWidth - realSize, pos, realSize);", "        std::copy_backward(pos, pos + realSize, pos + integerWidth);"), (BC, "#include <charconv>", "#include <algorithm>\n#include <charconv>")]),
("bo-padding-loopback", B, [(BC, "        memmove(pos + integerWidth - realSize, pos, realSize);", "        for (auto i = realSize; i > 0; --i)\n        {\n            pos[i - 1 + integerWidth - realSize] = pos[i - 1];\n        }")]),
("bo-hex-static", B, [(BC, "    char digits[] = ", "    static constexpr char digits[] = ")]),
("bo-hex-nibble", B, [(BC, """    char digits[] = "0123456789ABCDEF";
    if (dataBuf.end() - pos >= 2)
    {
        *(pos++) = digits[(b & 0xF0u) >> 4];
        *(pos++) = digits[b & 0xFu];
    }
    return *this;""", """    if (dataBuf.end() - pos < 2)
    {
        return *this;
    }
    pos[0] = hexDigit(b >> 4);
    pos[1] = hexDigit(b & 0x0F);
    pos += 2;
    return *this;"""), (BC, "} // namespace\n", """char hexDigit(unsigned char nibble)
{
    return static_cast<char>(nibble < 10 ? '0' + nibble : 'A' + (nibble - 10));
}

} // namespace
""")]),
("bo-block-range", B, [(BC, """    const size_t availableSize = (dataBuf.end() - pos) / 2;
    auto size = span.size() < availableSize ? span.size() : availableSize;
    for (size_t i = 0; i < size; ++i)
    {
        *this << span[i];
    }
    return *this;""", """    for (const auto b: span)
    {
        if (dataBuf.end() - pos < 2)
        {
            break;
        }
        *this << b;
    }
    return *this;""")]),
("bo-block-first", B, [(BC, """    const size_t availableSize = (dataBuf.end() - pos) / 2;
    auto size = span.size() < availableSize ? span.size() : availableSize;
    for (size_t i = 0; i < size; ++i)
    {
        *this << span[i];
    }
    return *this;""", """    for (const uint8_t value: span.first((dataBuf.end() - pos) / 2))
    {
        *this << value;
    }
    return *this;""")]),
("bo-float-for", B, [(BC, """        while (precision > 0 && pos != last)
        {
            f *= 10;
            n = int(f);
            *(pos++) = char('0' + n);
            f -= float(n);
            --precision;
        }""", """        for (unsigned int i = 0; i < precision && pos != last; ++i)
        {
            f *= 10;
            const int digit = int(f);
            *pos = char('0' + digit);
            ++pos;
            f -= float(digit);
        }""")]),
("bo-free-helper", B, [(BH, "private:\n    void addPadding", "private:\n    decltype(dataBuf)::size_type freeSize() const { return capacity() - size(); }\n    void addPadding"),
    (BC, "if (dataBuf.end() - pos >= 2)", "if (freeSize() >= 2)"), (BC, "(dataBuf.end() - pos) / 2", "freeSize() / 2"), (BC, "static_cast<size_t>(dataBuf.end() - pos)", "freeSize()"),
    (BH, "if (pos != dataBuf.end())", "if (freeSize() > 0)")]),
("bo-width-reset-first", B, [(BC, """    if (integerWidth > 0)
    {
        addPadding(p);
        integerWidth = 0;
    }
    else
    {
        pos = p;
    }""", """    if (integerWidth <= 0)
    {
        pos = p;
        return;
    }
    addPadding(p);
    integerWidth = 0;""")]),
("bo-addchar-early", B, [(BH, """        if (pos != dataBuf.end())
        {
            *(pos++) = c;
        }""", """        if (pos >= dataBuf.end())
            return;
        *pos = c;
        ++pos;""")]),
("bo-strlen", B, [(BC, """    pos = append(pos, dataBuf.end(), str);
    return *this;""", """    const size_t length = strlen(str);
    const size_t available = dataBuf.end() - pos;
    const size_t count = std::min(length, available);
    memcpy(pos, str, count);
    pos += count;
    return *this;"""), (BC, "#include <charconv>", "#include <algorithm>\n#include <charconv>")]),
("bo-hex-via-block", B, [(BC, """    char digits[] = "0123456789ABCDEF";
    if (dataBuf.end() - pos >= 2)
    {
        *(pos++) = digits[(b & 0xF0u) >> 4];
        *(pos++) = digits[b & 0xFu];
    }""", """    static const char digits[] = "0123456789ABCDEF";
    if (dataBuf.end() - pos >= 2)
    {
        const char text[2] = { digits[b >> 4], digits[b & 0xFu] };
        std::memcpy(pos, text, sizeof(text));
        pos += sizeof(text);
    }""")]),
]
PH, PC = "PersistentStorage.h", "PersistentStorage.cpp"
S = ["P01", "P02", "P03", "P04", "P05"]
EDITS += [
("ps-ctor-loop", S, [(PC, """        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
        {
            free_head_ += getNodeDescriptor(free_head_).size;
        }""", """        while (free_head_ + sizeof(NodeDescriptor) <= buffer_.size())
        {
            const std::size_t recordSize = getNodeDescriptor(free_head_).size;
            if (recordSize < sizeof(NodeDescriptor) || free_head_ + recordSize > buffer_.size())
            {
                break;
            }
            free_head_ += recordSize;
        }""")]),
("ps-fill-range", S, [(PC, "        std::memset(buffer_.begin(), 0, buffer_.size());", "        for (auto &b: buffer_)\n        {\n            b = 0;\n        }")]),
("ps-key-loop", S, [(PH, """    auto effectiveLength = rhs.size();
    if (std::string_view(std::begin(lhs), effectiveLength) != rhs)
    {
        return false;
    }
    for (auto pos = effectiveLength; pos < lhs.size(); ++pos)
    {
        if (lhs[pos] != '\\0')
        {
            return false;
        }
    }

    return true;""", """    for (size_t pos = 0; pos < N; ++pos)
    {
        const char expected = pos < rhs.size() ? rhs[pos] : '\\0';
        if (lhs[pos] != expected)
        {
            return false;
        }
    }
    return true;""")]),
("ps-getidx-while", S, [(PH, """        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)
        {
            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);
            if (node.idx == idx && node.size == sizeof(Node<T>))
            {
                return pos;
            }
            pos += node.size;
        }
        return wrongPos;""", """        std::size_t pos = 0;
        while (pos + sizeof(NodeDescriptor) <= free_head_)
        {
            const auto &descriptor = getNodeDescriptor(pos);
            if (descriptor.size == sizeof(Node<T>) && descriptor.idx == idx)
            {
                return pos;
            }
            pos += descriptor.size;
        }
        return wrongPos;""")]),
("ps-set-split", S, [(PH, """        auto &node = getNode<T>(free_head_);
        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += recordSize;
        return true;
    }
""", """        append(idx, object);
        return true;
    }
"""), (PH, "    const NodeDescriptor &getNodeDescriptor(", """    template<typename T>
    void append(std::string_view idx, const T &object)
    {
        auto &node = getNode<T>(free_head_);
        node.size = sizeof(Node<T>);
        node.idx.fill('\\0');
        idx.copy(node.idx.data(), node.idx.size());
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += sizeof(Node<T>);
    }

    const NodeDescriptor &getNodeDescriptor(""")]),
("ps-room-subtract", S, [(PH, "if (free_head_ + recordSize > buffer_.size())", "if (buffer_.size() - free_head_ < recordSize)")]),
("ps-get-simple", S, [(PH, """            if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
            {
                return node.data;
            }""", """            return getNode<T>(pos).data;""")]),
("ps-get-copy", S, [(PH, """        if (const auto pos = getIdx<T>(idx); pos != wrongPos)
        {
            if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
            {
                return node.data;
            }
        }
        return std::nullopt;""", """        const auto pos = getIdx<T>(idx);
        if (pos == wrongPos)
        {
            return std::nullopt;
        }
        T value;
        std::memcpy(&value, &getNode<T>(pos).data, sizeof(T));
        return value;""")]),
("ps-set-order", S, [(PH, """        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));""", """        std::memcpy(&node.data, &object, sizeof(T));
        for (std::size_t pos = 0; pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = pos < idx.size() ? idx[pos] : '\\0';
        }
        node.size = recordSize;""")]),
("ps-update-helper", S, [(PH, """            auto &node = getNode<T>(pos);
            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));
            return true;""", """            getNode<T>(pos).data = object;
            return true;""")]),
]
MH = "MemoryView.h"
M = ["M01", "M02", "B05", "B06"]
EDITS += [
("mv-subspan", M, [(MH, """        if (offset >= size_)
            return {};
        if (count == npos)
            return MemoryView<T>(begin_ + offset, size_ - offset);
        return MemoryView<T>(begin_ + offset, std::min(size_ - offset, count));""", """        if (offset >= size_)
        {
            return {};
        }
        const size_type available = size_ - offset;
        return { begin_ + offset, count < available ? count : available };""")]),
("mv-ends", M, [(MH, """        if (count >= size_)
            return *this;
        return MemoryView<T>(begin_, count);""", """        return subspan(0, count);"""), (MH, """        if (count >= size_)
            return *this;
        return MemoryView<T>(begin_ + size_ - count, count);""", """        const auto effective = count < size_ ? count : size_;
        return MemoryView<T>(end() - effective, effective);""")]),
("mv-endptr", M + ["P01"], [(MH, "begin_(p), size_(s) {}", "begin_(p), end_(p + s) {}"), (MH, "begin_(nullptr), size_(0) {}", "begin_(nullptr), end_(nullptr) {}"), (MH, "begin_(begin), size_(end - begin) {}", "begin_(begin), end_(end) {}"),
    (MH, "begin_(other.begin()), size_(other.size()) {}", "begin_(other.begin()), end_(other.end()) {}"), (MH, "begin_(std::begin(ar)), size_(ar.size()) {}", "begin_(std::begin(ar)), end_(std::begin(ar) + ar.size()) {}"),
    (MH, "begin_(ar), size_(N) {}", "begin_(ar), end_(ar + N) {}"), (MH, "    size_type size_;\n", "    T* end_;\n"), (MH, "{ begin_, size_ }", "{ begin_, size() }"), (MH, "begin_ + size_; }", "end_; }"), (MH, "auto size() const { return size_; }", "size_type size() const { return end_ - begin_; }"),
    (MH, "return size_ * sizeof(T)", "return size() * sizeof(T)"), (MH, "return size_ == 0", "return begin_ == end_"), (MH, "*(begin_ + size_ - 1)", "*(end_ - 1)"), (MH, "offset >= size_", "offset >= size()"), (MH, "size_ - offset", "size() - offset"),
    (MH, "count >= size_", "count >= size()"), (MH, "begin_ + size_ - count", "end_ - count")]),
]
EDITS += [
("en-swap", ["E01"], [("EndianConversion.h", "    return ((in & 0xFF00) >> 8) | ((in & 0x00FF) << 8);", "    return static_cast<uint16_t>((in >> 8) | (in << 8));"),
   ("EndianConversion.h", """    in = ((in & 0xff000000) >> 24) | ((in & 0x00FF0000) >> 8) | ((in & 0x0000FF00) << 8) | ((in & 0xFF) << 24);
    *bytes = (in >> 16) | (in << 16);""", """    *bytes = ((in & 0xFF00FF00u) >> 8) | ((in & 0x00FF00FFu) << 8);""")]),
("en-halves", ["E01"], [("EndianConversion.h", """    return ((in & 0xff000000ul) >> 24) | ((in & 0x00FF0000ul) >> 8) | ((in & 0x0000FF00ul) << 8) |
           ((in & 0xFFul) << 24);""", """    const uint32_t low = changeEndianess(static_cast<uint16_t>(in));
    const uint32_t high = changeEndianess(static_cast<uint16_t>(in >> 16));
    return (low << 16) | high;"""), ("EndianConversion.h", "    in = ((in & 0xff000000) >> 24) | ((in & 0x00FF0000) >> 8) | ((in & 0x0000FF00) << 8) | ((in & 0xFF) << 24);", "    in = changeEndianess(in);")]),
("en-memcpy", ["E01"], [("EndianConversion.h", """    auto in = *bytes;
    in = ((in & 0xff000000) >> 24) | ((in & 0x00FF0000) >> 8) | ((in & 0x0000FF00) << 8) | ((in & 0xFF) << 24);
    *bytes = (in >> 16) | (in << 16);""", """    auto* b = reinterpret_cast<uint8_t*>(bytes);
    for (int i = 0; i < 4; i += 2)
    {
        const uint8_t t = b[i];
        b[i] = b[i + 1];
        b[i + 1] = t;
    }""")]),
("en-builtin", ["E01"], [("EndianConversion.h", """    return ((in & 0xff000000ul) >> 24) | ((in & 0x00FF0000ul) >> 8) | ((in & 0x0000FF00ul) << 8) |
           ((in & 0xFFul) << 24);""", "    return __builtin_bswap32(in);"), ("EndianConversion.h", "    return ((in & 0xFF00) >> 8) | ((in & 0x00FF) << 8);", "    return __builtin_bswap16(in);")]),
]
GC, GH, GF, GB, GS = "graphics/Canvas.cpp", "graphics/Canvas.h", "graphics/EmbeddedFont.cpp", "graphics/BaseGeometry.h", "graphics/SimpleFrameBuffer.h"
G = ["G01", "G02", "G04", "G05"]
EDITS += [
("gfx-hline-point", G, [(GC, """    for (int i = 0; i < line_width; ++i, ++startPos.x)
    {
        setIfVisible(startPos);
    }""", """    const int endX = startPos.x + line_width;
    for (int x = startPos.x; x < endX; ++x)
    {
        setIfVisible({ x, startPos.y });
    }""")]),
("gfx-hline-while", G, [(GC, """    for (int i = 0; i < line_width; ++i, ++startPos.x)
    {
        setIfVisible(startPos);
    }""", """    int left = line_width;
    while (left-- > 0)
    {
        setIfVisible(startPos);
        startPos.x += 1;
    }""")]),
("gfx-visible-helper", G, [(GH, """        if (point.x >= 0 && point.x < size.width && point.y >= 0 && point.y < size.height)
        {
            frameBuffer.drawPixel(point.x, point.y);
        }
    }""", """        if (!isVisible(point))
        {
            return;
        }
        frameBuffer.drawPixel(point.x, point.y);
    }

    bool isVisible(const Point &point) const
    {
        const bool insideX = point.x >= 0 && point.x < size.width;
        const bool insideY = point.y >= 0 && point.y < size.height;
        return insideX && insideY;
    }""")]),
("gfx-fill-for", G, [(GC, """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }""", """    for (int y = topLeft.y; y <= bottomRight.y; ++y)
    {
        for (int x = topLeft.x; x <= bottomRight.x; ++x)
        {
            setIfVisible({ x, y });
        }
    }""")]),
("gfx-fill-clamp", G, [(GC, """    topLeft.x = std::max(topLeft.x, 0);
    topLeft.y = std::max(topLeft.y, 0);
    bottomRight.x = std::min(bottomRight.x, size.width - 1);
    bottomRight.y = std::min(bottomRight.y, size.height - 1);
""", """    const auto clip = [this](Point &from, Point &to)
    {
        if (from.x < 0)
            from.x = 0;
        if (from.y < 0)
            from.y = 0;
        if (to.x >= size.width)
            to.x = size.width - 1;
        if (to.y >= size.height)
            to.y = size.height - 1;
    };
    clip(topLeft, bottomRight);
""")]),
("gfx-transform-matrix", G, [(GC, """    switch (rotate)
    {
        case Rotation::Rotation90:
            return { size.width - 1 - pos.y, pos.x };
        case Rotation::Rotation180:
            return { size.width - 1 - pos.x, size.height - 1 - pos.y };
        case Rotation::Rotation270:;
            return { pos.y, size.height - 1 - pos.x };
        default:
            return { pos.x, pos.y };
    }""", "    return getTransformMatrix() * pos + getShifts();")]),
("gfx-char-index", G, [(GC, """            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }""", """            const int bit = i + j * glyph.effectiveSize.width;
            if (ptr[bit / 8] & (0x80 >> (bit % 8)))
            {
                setIfVisible(matrix * (pos + Size { i, j }) + shifts);
            }""")]),
("gfx-char-mask", G, [(GC, """    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }
        }
    }""", """    int bit = 0;
    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if (*ptr & (0x80 >> bit))
            {
                drawPixel(pos + Size { i, j });
            }
            if (++bit == 8)
            {
                bit = 0;
                ++ptr;
            }
        }
    }""")]),
("gfx-line-abs", G, [(GC, """    if (diffX == 0)
    {
        drawVerticalLine({ start.x, std::min(start.y, end.y) }, diffY + 1);
        return;
    }

    if (diffY == 0)
    {
        drawHorizontalLine({ std::min(start.x, end.x), start.y }, diffX + 1);
        return;
    }
""", """    if (diffY == 0)
    {
        const int left = end.x < start.x ? end.x : start.x;
        drawHorizontalLine({ left, start.y }, diffX + 1);
        return;
    }
    if (diffX == 0)
    {
        const int top = end.y < start.y ? end.y : start.y;
        drawVerticalLine({ start.x, top }, diffY + 1);
        return;
    }
""")]),
("gfx-rect-order", G, [(GC, """    drawHorizontalLine(rect.topLeft, rect.size.width);
    drawHorizontalLine(rect.bottomLeft(), rect.size.width);
    drawVerticalLine(rect.topLeft, rect.size.height);
    drawVerticalLine(rect.topRight(), rect.size.height);""", """    const auto topLeft = rect.topLeft;
    const auto [width, height] = rect.size;
    drawVerticalLine(topLeft, height);
    drawVerticalLine({ topLeft.x + width - 1, topLeft.y }, height);
    drawHorizontalLine(topLeft, width);
    drawHorizontalLine({ topLeft.x, topLeft.y + height - 1 }, width);""")]),
("gfx-circle-helper", G, [(GC, """        setIfVisible(center + Size { -xPos, yPos });
        setIfVisible(center + Size { xPos, yPos });
        setIfVisible(center + Size { xPos, -yPos });
        setIfVisible(center + Size { -xPos, -yPos });
""", """        for (const int dx: { xPos, -xPos })
        {
            for (const int dy: { yPos, -yPos })
            {
                setIfVisible({ center.x + dx, center.y + dy });
            }
        }
""")]),
("gfx-getsize-if", G, [(GH, """        switch (getRotation())
        {
            case Rotation::Rotation90:
            case Rotation::Rotation270:
                return { size.height, size.width };
            default:
                break;
        }
        return size;""", """        const bool swapped = rotate == Rotation::Rotation90 || rotate == Rotation::Rotation270;
        return swapped ? Size { size.height, size.width } : size;""")]),
("gfx-string-index", G, [(GH, """        for (auto symbol: text)
        {
            topLeft.x += drawCharAt(topLeft, symbol, font);
        }""", """        for (size_t i = 0; i < text.size(); ++i)
        {
            const int advance = drawCharAt(topLeft, text[i], font);
            topLeft = topLeft + Size { advance, 0 };
        }""")]),
("gfx-bounds-range", ["G04", "G05"], [(GF, """        for (std::size_t i = 0; i < view.size(); ++i)
        {
            const auto& bitmap = getBitmap(view[i]);
            const int left = position + bitmap.offset.width;
            const int right = left + bitmap.effectiveSize.width;
            minLeft = (i == 0) ? left : std::min(minLeft, left);
            maxRight = (i == 0) ? right : std::max(maxRight, right);""", """        bool first = true;
        for (const char symbol: view)
        {
            const auto bitmap = getBitmap(symbol);
            const int left = position + bitmap.offset.width;
            const int right = left + bitmap.effectiveSize.width;
            if (first || left < minLeft)
                minLeft = left;
            if (first || right > maxRight)
                maxRight = right;
            first = false;""")]),
("gfx-glyph-helper", ["G04", "G05"], [(GF, """    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                           fontDescriptor.bitmap.end() :
                           fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
    return""", """    auto bitmapEnd = fontDescriptor.bitmap.end();
    if (pos < fontDescriptor.glyph.size())
    {
        bitmapEnd = fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
    }
    return""")]),
("gfx-buffer-clear", ["G03", "G05"], [(GS, """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }""", """        for (int y = 0; y < height; ++y)
        {
            for (int x = 0; x < effectiveWidth; ++x)
            {
                drawPixel(x, y, color);
            }
        }""")]),
("gfx-buffer-rmw", ["G03"], [(GS, """            buffer[pixelOffset] &= ~mask;
            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);""", """            const auto shift = 6 - (posX % 4) * 2;
            auto value = buffer[pixelOffset];
            value = (value & ~mask) | ((color & 3) << shift);
            buffer[pixelOffset] = value;"""), (GS, """            if (color != 0)
            {
                buffer[pixelOffset] |= mask;
            }
            else
            {
                buffer[pixelOffset] &= ~mask;
            }""", """            auto &cell = buffer[pixelOffset];
            cell = color ? (cell | mask) : (cell & ~mask);""")]),
("gfx-buffer-shiftpos", ["G03"], [(GS, "auto pixelOffset = (posY * effectiveWidth + posX) * bitsPerPixel / 8;", "const int pixelIndex = posX + posY * effectiveWidth;\n        const int pixelOffset = pixelIndex * bitsPerPixel >> 3;")]),
]
AU, EU = "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"
ES, AS = "esp32-esp-idf/SpiBus.cpp", "arduino/SpiBus.cpp"
EDITS += [
("hal-esp-until", ["H01", "H02"], [(EU, """        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
        {
            if (buffer[currentPos++] == endByte)
            {
                break;
            }
        }
    }

    return currentPos;
}

uint16_t PacketUart::ReceiveBetween""", """        uint8_t* const place = buffer + currentPos;
        const int received = uartDevice.receiveBlocking(place, 1, timeoutMilliseconds - elapsed);
        if (received != 1)
            continue;
        ++currentPos;
        if (*place == endByte)
            break;
    }
    return currentPos;
}

uint16_t PacketUart::ReceiveBetween""")]),
("hal-ard-receive", ["H01", "H02"], [(AU, """        int nextByte = uartDevice.read();
        if (nextByte >= 0)
        {
            buffer[currentPos++] = (uint8_t)nextByte;
        }
        else
        {
            delay(1);
        }""", """        const int nextByte = uartDevice.read();
        if (nextByte < 0)
        {
            delay(1);
            continue;
        }
        buffer[currentPos] = static_cast<uint8_t>(nextByte);
        ++currentPos;""")]),
("hal-ard-between", ["H01", "H02"], [(AU, """        int nextByte = uartDevice.read();
        if (nextByte == startByte)
        {
            buffer[currentPos++] = (uint8_t)nextByte;
            while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
            {
                if (buffer[currentPos++] == endByte)
                {
                    break;
                }
            }
            break;
        }""", """        if (uartDevice.read() != startByte)
        {
            continue;
        }
        buffer[0] = startByte;
        currentPos = 1;
        while (currentPos < bufferSize)
        {
            uint8_t next;
            if (uartDevice.readBytes(&next, 1) != 1)
                break;
            buffer[currentPos++] = next;
            if (next == endByte)
                break;
        }
        break;""")]),
("hal-esp-spi-for", ["H03", "H05"], [(ES, """        length -= effectiveLength;
        if (sendBytes != nullptr)
        {
            sendBytes += effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            receiveBytes += effectiveLength;
        }
    }

    return true;""", """        if (sendBytes)
            sendBytes += effectiveLength;
        if (receiveBytes)
            receiveBytes += effectiveLength;
        length -= effectiveLength;
    }
    return true;""")]),
("hal-esp-spi-offset", ["H03", "H05"], [(ES, """    spi_transaction_t transaction{};
    transaction.user= nullptr;
    while (length > 0)
    {
        const auto effectiveLength = std::min(length , maxTransferSize);
        if (sendBytes != nullptr)
        {
            transaction.tx_buffer = sendBytes;
            transaction.length = 8 * effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            transaction.rx_buffer = receiveBytes;
            transaction.rxlength = 8 * effectiveLength;
        }
        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)
        {
            return false;
        }
        length -= effectiveLength;
        if (sendBytes != nullptr)
        {
            sendBytes += effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            receiveBytes += effectiveLength;
        }
    }
""", """    for (uint32_t offset = 0; offset < length;)
    {
        const uint32_t chunk = length - offset < maxTransferSize ? length - offset : maxTransferSize;
        spi_transaction_t transaction{};
        if (sendBytes)
        {
            transaction.length = 8 * chunk;
            transaction.tx_buffer = sendBytes + offset;
        }
        if (receiveBytes)
        {
            transaction.rxlength = 8 * chunk;
            transaction.rx_buffer = receiveBytes + offset;
        }
        const auto result = spi_device_polling_transmit(spiDevice, &transaction);
        if (result != ESP_OK)
        {
            return false;
        }
        offset += chunk;
    }
""")]),
("hal-ard-spi-loop", ["H03"], [(AS, """        switch (size)
        {
            case 3:
                 spi.transfer(*in++);""".replace("                 spi", "                spi"), """        for (; size > 0 && size < 4; --size)
        {
            spi.transfer(*in++);
        }
        switch (size)
        {
            case 3:
                spi.transfer(*in++);""")]),
("hal-ard-spi-all", ["H03"], [(AS, """                const auto dwords = size / 4;
                spi.transferBytes(in, out, dwords * 4);
                if (uint16_t rest = size % 4)
                {
                    readAndWrite(spi, in + dwords * 4, out + dwords * 4, rest);
                }
                return;""", """                const uint16_t rest = size & 3u;
                const uint16_t whole = size - rest;
                spi.transferBytes(in, out, whole);
                readAndWrite(spi, in + whole, out + whole, rest);
                return;""")]),
("hal-i2c-recv", ["H04"], [("arduino/I2CDevice.cpp", """    if (size_t recv = impl.i2c.requestFrom((int)deviceAddress, (int)count); recv != count)
    {
        return false;
    }

    for (uint16_t i = 0; i < count; ++i) {
        data[i] = impl.i2c.read();
    }
    return true;""", """    const size_t received = impl.i2c.requestFrom((int)deviceAddress, (int)count);
    if (received == count)
    {
        const auto end = data + count;
        while (data != end)
        {
            *data++ = impl.i2c.read();
        }
    }
    return received == count;"""), ("arduino/I2CDevice.cpp", "    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    const auto status = impl.i2c.endTransmission();\n    return status == 0 && result == count;")]),
("hal-esp-i2c", ["H04", "H05"], [("esp32-esp-idf/I2CBus.cpp", """    return i2c_param_config(bus, &conf) == ESP_OK &&
        i2c_driver_install(bus, conf.mode, 0, 0, 0) == ESP_OK;""", """    const auto configured = i2c_param_config(bus, &conf);
    if (configured != ESP_OK)
    {
        return false;
    }
    return i2c_driver_install(bus, I2C_MODE_MASTER, 0, 0, 0) == ESP_OK;""")]),
("hal-esp-adc", ["H04", "H05"], [("esp32-esp-idf/AnalogPin.cpp", """        if (adc_oneshot_config_channel(handle, channel, &chanCfg) != ESP_OK
            || adc_oneshot_read(handle, channel, &result) != ESP_OK)
        {
            result = -1;
        }
        adc_oneshot_del_unit(handle);
    }
    return result;""", """        int value = 0;
        const bool ok = adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK
            && adc_oneshot_read(handle, channel, &value) == ESP_OK;
        adc_oneshot_del_unit(handle);
        if (ok)
        {
            result = value;
        }
    }
    return result;""")]),
("hal-spi-release", ["H05"], [(ES, """    if (spiDevice != nullptr)
    {
        if (spi_bus_remove_device(spiDevice) == ESP_OK)
        {
            spiDevice = nullptr;
            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
        }
        return false;
    }
    return true;""", """    if (spiDevice == nullptr)
    {
        return true;
    }
    if (spi_bus_remove_device(spiDevice) != ESP_OK)
    {
        return false;
    }
    spiDevice = nullptr;
    const auto result = spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
    return result == ESP_OK;""")]),
("hal-flush-while", ["H06"], [("arduino/SerialOut.cpp", """    auto dataView = bufferedOut.data();
    for (size_t pos = 0; pos < dataView.size();)
    {
        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.size() - pos, UINT16_MAX));
        uartDevice.Send(dataView.begin() + pos, count, 100);
        pos += count;
    }
    bufferedOut.clear();""", """    auto rest = bufferedOut.data();
    while (!rest.empty())
    {
        const auto part = rest.first(UINT16_MAX);
        uartDevice.Send(part.data(), part.size(), 100);
        rest = rest.subspan(part.size());
    }
    bufferedOut.clear();""")]),
("hal-endl-char", ["H06"], [("SerialOut.h", "        bufferedOut.addChar('\\n');", "        bufferedOut << '\\n';")]),
("hal-selector", ["H04"], [("GpioDigitalPin.h", "pin.reset();", "pin.set(false);")]),
]
