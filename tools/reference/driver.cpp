// Runs the C++ implementation of the repository (reference_app/gfwx.hpp): reads one job per line, writes one line each.
// job: w h layers channels quality chroma_scale block_size filter encoder dmax np prog... samples...
#include <cmath>
#include <limits>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <string>
#include "gfwx.hpp"

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        int w, h, l, c, q, cs, bs, f, e, dmax, np;
        in >> w >> h >> l >> c >> q >> cs >> bs >> f >> e >> dmax >> np;
        std::vector<int> prog(np);
        for (int &x : prog) in >> x;
        std::vector<uint8_t> img((size_t) w * h * l * c);
        for (uint8_t &x : img) { int v; in >> v; x = (uint8_t) v; }
        GFWX::Header header(w, h, l, c, GFWX::BitDepthAuto, q, cs, bs, f, GFWX::QuantizationScalar, e, GFWX::IntentGeneric);
        std::vector<uint32_t> room(img.size() * 12 + 400000);
        ptrdiff_t n = GFWX::compress(img.data(), header, (uint8_t *) room.data(), room.size() * 4, np ? prog.data() : 0, 0, 0);
        std::cout << "{\"n\":" << n << ",\"bytes\":[";
        for (ptrdiff_t i = 0; i < n; ++i) std::cout << (i ? "," : "") << (int) ((uint8_t *) room.data())[i];
        std::cout << "],\"images\":[";
        for (int d = 0; d <= dmax; ++d) {
            GFWX::Header back;
            size_t size = (size_t) ((w + (1 << d) - 1) >> d) * ((h + (1 << d) - 1) >> d) * l * c;
            std::vector<uint8_t> out(size);
            ptrdiff_t r = GFWX::decompress(out.data(), back, (uint8_t *) room.data(), n, d, false);
            std::cout << (d ? "," : "") << "{\"d\":" << d << ",\"res\":" << r << ",\"img\":[";
            for (size_t i = 0; i < size; ++i) std::cout << (i ? "," : "") << (int) out[i];
            std::cout << "]}";
        }
        std::cout << "],\"cuts\":[";
        for (int k = 0; k < 6; ++k) {
            // prefixes: the image and the point of interest
            size_t cut = n > 36 ? (32 + ((size_t) k * 7919 + 13 + (k > 2 ? n - 80 : 0)) % (n - 32)) & ~(size_t) 3 : (size_t) n;
            int d = k % (dmax + 1);
            GFWX::Header back;
            size_t size = (size_t) ((w + (1 << d) - 1) >> d) * ((h + (1 << d) - 1) >> d) * l * c;
            std::vector<uint8_t> out(size);
            ptrdiff_t test = GFWX::decompress(out.data(), back, (uint8_t *) room.data(), cut, d, true);
            ptrdiff_t r = GFWX::decompress(out.data(), back, (uint8_t *) room.data(), cut, d, false);
            std::cout << (k ? "," : "") << "{\"cut\":" << cut << ",\"d\":" << d << ",\"test\":" << test << ",\"res\":" << r << ",\"img\":[";
            for (size_t i = 0; i < size; ++i) std::cout << (i ? "," : "") << (int) out[i];
            std::cout << "]}";
        }
        std::cout << "]}" << std::endl;
    }
}
