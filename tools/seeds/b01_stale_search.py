PROPERTY = "B01"; SRC = "none"
NEEDS = "a search that starts past the first element of a buffer that held more bytes earlier, with the searched byte left over behind the current end"
BREAKS = "searches report a match at a position that holds no data any more"
EDITS = [("include/novatel_edie/common/fixed_buffer.hpp", "count = std::min(count, sz - start);", "count = std::min(count, sz);")]
DEMO = r'''
#include <cstdio>
#include "novatel_edie/common/fixed_buffer.hpp"
int main() {
    FixedBuffer<unsigned char> b(8);
    unsigned char big[8] = {1, 2, 3, 4, 5, 6, 7, 8}, small[5] = {9, 9, 9, 9, 9};
    if (b.write(big, 8) != 8) return 2;
    b.erase_begin(8);
    if (b.write(small, 5) != 5) return 2;
    // 6 is not in the buffer, though it was once
    if (b.search_char(6, 3) != FixedBuffer<unsigned char>::npos) { puts("stale byte found"); return 1; }
    if (b.search_char(6, 0) != FixedBuffer<unsigned char>::npos) { puts("stale byte found"); return 1; }
    return 0;
}
'''
