// Renju forbidden points straight from the definitions (RIF rules), for boards up to 32x32.
// out[y][x] = 1 iff the cell is empty and Black may not play there.
#include <cstdint>
#include <cstring>

namespace {
struct Board {
    int h, w;
    signed char cell[32][32];  // 0 empty, 1 black, 2 white
    int at(int y, int x) const { return y < 0 || x < 0 || y >= h || x >= w ? 3 : cell[y][x]; }
};
const int DY[4] = {0, 1, 1, 1}, DX[4] = {1, 0, 1, -1};

// Length of the black row through (y, x), which counts as black.
int row(const Board &b, int y, int x, int d) {
    int n = 1;
    for (int k = 1; b.at(y + k * DY[d], x + k * DX[d]) == 1; k++) n++;
    for (int k = 1; b.at(y - k * DY[d], x - k * DX[d]) == 1; k++) n++;
    return n;
}
bool five(const Board &b, int y, int x) {
    for (int d = 0; d < 4; d++)
        if (row(b, y, x, d) == 5) return true;
    return false;
}
bool overline(const Board &b, int y, int x) {
    for (int d = 0; d < 4; d++)
        if (row(b, y, x, d) > 5) return true;
    return false;
}
// Black stone at (y, x). Fours along d: distinct sets of four stones with (y, x) that one more stone turns into exactly five.
// A straight four has two such completions of the same set.
int fours(const Board &b, int y, int x, int d, bool *straight) {
    int sets[8], n = 0;
    *straight = false;
    for (int first = -4; first <= 0; first++) {  // window first..first+4 around the stone
        int black = 0, hole = 99, stones = 0;
        for (int k = first; k < first + 5; k++) {
            int c = b.at(y + k * DY[d], x + k * DX[d]);
            if (c == 1) black++, stones |= 1 << (k + 4);
            else if (c == 0) hole = k;
        }
        if (black != 4 || hole == 99) continue;
        if (b.at(y + (first - 1) * DY[d], x + (first - 1) * DX[d]) == 1) continue;  // would be six
        if (b.at(y + (first + 5) * DY[d], x + (first + 5) * DX[d]) == 1) continue;
        bool known = false;
        for (int i = 0; i < n; i++) known |= sets[i] == stones;
        if (known) *straight = true;
        else sets[n++] = stones;
    }
    return n;
}
bool forbidden(Board &b, int y, int x);

// Black stone at (y, x). A three along d: some empty cell turns it into a straight four, and Black may play there.
bool three(Board &b, int y, int x, int d) {
    for (int k = -3; k <= 3; k++) {
        int ey = y + k * DY[d], ex = x + k * DX[d];
        if (!k || b.at(ey, ex) != 0) continue;
        bool ok = false;
        b.cell[ey][ex] = 1;
        // the straight four must contain both stones
        bool joined = true;
        for (int j = k < 0 ? k : 0; j <= (k < 0 ? 0 : k); j++) joined &= b.at(y + j * DY[d], x + j * DX[d]) == 1;
        if (joined) fours(b, ey, ex, d, &ok);
        b.cell[ey][ex] = 0;
        if (ok && !five(b, ey, ex) && !forbidden(b, ey, ex)) return true;
    }
    return false;
}
bool forbidden(Board &b, int y, int x) {
    if (b.at(y, x) != 0 || five(b, y, x)) return false;
    if (overline(b, y, x)) return true;
    b.cell[y][x] = 1;
    int n4 = 0, n3 = 0;
    bool s;
    for (int d = 0; d < 4; d++) n4 += fours(b, y, x, d, &s);
    if (n4 < 2)
        for (int d = 0; d < 4 && n3 < 2; d++) n3 += three(b, y, x, d);
    b.cell[y][x] = 0;
    return n4 >= 2 || n3 >= 2;
}
}  // namespace

extern "C" void forbidden_maps(const signed char *boards, int64_t n, int h, int w, signed char *out) {
    for (int64_t i = 0; i < n; i++) {
        Board b;
        b.h = h, b.w = w;
        const signed char *black = boards + i * 2 * h * w, *white = black + h * w;
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) b.cell[y][x] = black[y * w + x] ? 1 : white[y * w + x] ? 2 : 0;
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) out[(i * h + y) * w + x] = forbidden(b, y, x);
    }
}
