// Content generators shared by the scenarios (harness side only).
#pragma once
#include "sim.hpp"
namespace sim {
// bit patterns of n bits; `mode` selects the shape
inline std::vector<bool> bits_of(u64 n, i64 mode, u64 seed) {
    Rng r(seed); std::vector<bool> b(n);
    switch (mode % 12) {
    case 0: for (u64 i = 0; i < n; i++) b[i] = r.chance(1, 2); break;
    case 1: for (u64 i = 0; i < n; i++) b[i] = r.chance(1, 100); break;
    case 2: for (u64 i = 0; i < n; i++) b[i] = !r.chance(1, 100); break;
    case 3: break;
    case 4: for (u64 i = 0; i < n; i++) b[i] = true; break;
    case 5: { bool v = false; u64 i = 0; while (i < n) { u64 k = 1 + r.below(r.chance(1, 3) ? 700 : 90); for (; k && i < n; k--) b[i++] = v; v = !v; } break; } // runs
    case 6: for (u64 i = 0; i < n; i++) b[i] = (i / 64) % 2; break;
    case 7: for (u64 i = 0; i < n; i++) b[i] = (i % 64) == 63; break;
    case 8: for (u64 i = 0; i < n; i++) b[i] = (i % 64) == 0; break;
    case 9: { u64 p = 1 + r.below(40); for (u64 i = 0; i < n; i++) b[i] = (i % p) == 0; break; }
    case 10: { for (u64 w = 0; w * 64 < n; w++) { u64 v = r.next() & r.next() & r.next(); if (r.chance(1, 3)) v = 0; if (r.chance(1, 4)) v = ~0ull; if (r.chance(1, 4)) v = 0xffffffffull << (r.chance(1, 2) ? 32 : 0); for (u64 k = 0; k < 64 && w * 64 + k < n; k++) b[w * 64 + k] = (v >> k) & 1; } break; }
    case 11: { u64 ones = 1 + r.below(4); for (u64 k = 0; k < ones && n; k++) b[r.below(n)] = true; break; }
    }
    return b;
}
// integer lists; `mode` selects the distribution
inline std::vector<u64> ints_of(u64 n, i64 mode, u64 seed, unsigned maxbits = 64) {
    Rng r(seed); std::vector<u64> v(n);
    u64 cap = maxbits >= 64 ? ~0ull : (1ull << maxbits) - 1;
    switch (mode % 11) {
    case 0: for (auto& x : v) x = r.width_value(maxbits); break;
    case 1: break; // zeros
    case 2: for (auto& x : v) x = cap; break;
    case 3: for (auto& x : v) x = r.width_value(std::min(maxbits, 8u)); if (n) v[r.below(n)] = r.next() & cap; break; // one huge
    case 4: for (auto& x : v) x = r.next() & cap; break;
    case 5: for (u64 i = 0; i < n; i++) v[i] = (i & cap); break;
    case 6: { unsigned w = 1 + (unsigned)r.below(maxbits); for (auto& x : v) x = r.next() & (w >= 64 ? ~0ull : (1ull << w) - 1); break; }
    case 7: for (auto& x : v) x = r.chance(7, 8) ? r.below(4) : (1ull << r.below(maxbits)); break;
    case 8: for (auto& x : v) { unsigned b = (unsigned)r.below(maxbits / 8 + 1) * 8; x = b == 0 ? 0 : (b >= 64 ? ~0ull : (1ull << b) - 1 + r.below(2)); x &= cap; } break;
    case 9: for (auto& x : v) x = 1; break;
    case 10: { // lengths in stairs: a share of the values ends at every few bits
        unsigned st = 5 + (unsigned)r.below(4); u64 keep = 50 + r.below(25);
        for (auto& x : v) { unsigned b = st; while (b + st <= maxbits && r.below(100) < keep) b += st; if (b > maxbits) b = maxbits; x = (r.next() | 1ull << 63) >> (64 - b); }
        break; }
    }
    for (auto& x : v) x &= cap;
    return v;
}
// strings over chosen alphabets (never NUL unless alpha says so)
inline unsigned char letter(Rng& r, i64 alpha) {
    switch (alpha % 7) {
    case 0: return 'a';
    case 1: return (unsigned char)("ab"[r.below(2)]);
    case 2: return (unsigned char)("abc"[r.below(3)]);
    case 3: return (unsigned char)('a' + r.below(26));
    case 4: return (unsigned char)(1 + r.below(126));
    case 5: return (unsigned char)(1 + r.below(254));
    default: return (unsigned char)(r.chance(1, 2) ? 0x80 + r.below(0x7f) : 1 + r.below(3));
    }
}
inline std::string text_of(u64 n, i64 alpha, i64 shape, u64 seed) {
    Rng r(seed); std::string s;
    switch (shape % 6) {
    case 0: while (s.size() < n) s += (char)letter(r, alpha); break;
    case 1: { std::string p; u64 k = 1 + r.below(7); while (p.size() < k) p += (char)letter(r, alpha); while (s.size() < n) s += p; break; } // periodic
    case 2: { std::string a = "a", b = "b"; a[0] = (char)letter(r, alpha); b[0] = (char)letter(r, alpha); while (b.size() < n + 1) { std::string c = b + a; a = b; b = c; } s = b; break; } // Fibonacci
    case 3: { char c = (char)letter(r, alpha); while (s.size() < n) s += r.chance(1, 12) ? (char)letter(r, alpha) : c; break; }
    case 4: { std::string p; u64 k = 1 + r.below(20); while (p.size() < k) p += (char)letter(r, alpha); while (s.size() < n) { s += p.substr(0, 1 + r.below(p.size())); if (r.chance(1, 4)) s += (char)letter(r, alpha); } break; }
    case 5: { while (s.size() < n) { if (s.empty() || r.chance(1, 3)) s += (char)letter(r, alpha); else { u64 a = r.below(s.size()); s += s.substr(a, 1 + r.below(12)); } } break; } // copies of itself
    }
    s.resize(n); return s;
}
} // namespace sim
