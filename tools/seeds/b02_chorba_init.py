PROPERTY = "B02"; SRC = "none"
NEEDS = "a checksum computed in pieces where a later piece is longer than 48 bytes"
BREAKS = "a block checksum continued from a running value ignores that value for long blocks"
EDITS = [("include/novatel_edie/decoders/oem/crc.hpp", "? CalculateBlockCrc32Chorba(ucBuffer_, uiCount_, uiInitialCrc_)", "? CalculateBlockCrc32Chorba(ucBuffer_, uiCount_)")]
DEMO = r'''
#include <cstdio>
#include <array>
#include "novatel_edie/decoders/oem/crc.hpp"
int main() {
    unsigned char d[300]; for (int i = 0; i < 300; ++i) d[i] = (unsigned char)(i * 7 + 3);
    for (unsigned k = 0; k <= 300; ++k) {
        uint32_t w = 0; for (int i = 0; i < 300; ++i) novatel::edie::oem::CalculateCharacterCrc32(w, d[i]);
        if (novatel::edie::oem::CalculateBlockCrc32(d + k, 300 - k, novatel::edie::oem::CalculateBlockCrc32(d, k)) != w) { printf("split at %u\n", k); return 1; }
    }
    return 0;
}
'''
