// Independent executable model of the LESS signature scheme (round-2 package parameters).
// Written from the algorithm description; shares no code and no header with the code under test.
// Everything is parametric at run time; all matrices are plain row-major K x N arrays.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <atomic>
#include <thread>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

// ------------------------------------------------------------------ Keccak
static inline u64 rol(u64 x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
struct KeccakTables {
    u64 rc[24]; unsigned rot[25];
    KeccakTables() {
        u8 r = 1;                       // LFSR of FIPS 202, algorithm 5
        for (int i = 0; i < 24; i++) {
            rc[i] = 0;
            for (int j = 0; j <= 6; j++) {
                if (r & 1) rc[i] ^= 1ULL << ((1u << j) - 1);
                r = (u8)((r << 1) ^ ((r >> 7) ? 0x71 : 0));
            }
        }
        int x = 1, y = 0; rot[0] = 0;
        for (int t = 0; t < 24; t++) {
            rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny;
        }
    }
};
static const KeccakTables KT;
static void keccakf(u64 *a) {
    for (int r = 0; r < 24; r++) {
        u64 c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) {
            u64 d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
            for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
        }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], KT.rot[x + 5 * y]);
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= KT.rc[r];
    }
}
struct Sponge {
    u64 a[25]; unsigned rate, pos; u8 dom; bool sq;
    Sponge(unsigned r, u8 d) : rate(r), pos(0), dom(d), sq(false) { memset(a, 0, sizeof a); }
    void absorb(const u8 *p, u64 n) {
        while (n--) { a[pos / 8] ^= (u64)*p++ << (8 * (pos % 8)); if (++pos == rate) { keccakf(a); pos = 0; } }
    }
    void squeeze(u8 *o, u64 n) {
        if (!sq) { a[pos / 8] ^= (u64)dom << (8 * (pos % 8)); a[(rate - 1) / 8] ^= 0x80ULL << (8 * ((rate - 1) % 8)); sq = true; pos = rate; }
        while (n--) { if (pos == rate) { keccakf(a); pos = 0; } *o++ = (u8)(a[pos / 8] >> (8 * (pos % 8))); pos++; }
    }
};

// ------------------------------------------------------------------ parameters
struct Par { int cat, N, K, S /*seed bytes*/, T, W, keys, maxpub; };
static int bitsrep(unsigned x) { int b = 0; while (x) { b++; x >>= 1; } return b ? b : 1; }
static const int Q = 127;
static Sponge xof(const Par &p) { return p.cat == 1 ? Sponge(168, 0x1f) : Sponge(136, 0x1f); }
static Sponge dig(const Par &p) { return Sponge(200 - 4 * p.S, 0x06); }   // SHA3-(2*2S bytes)
static int inv127(int x) { for (int i = 1; i < Q; i++) if (i * x % Q == 1) return i; return 0; }
struct InvT { u8 t[128]; InvT() { for (int i = 0; i < 128; i++) t[i] = inv127(i % Q); } };
static const InvT INV;
static int leaves(const Par &p) { return 1 << bitsrep(p.T); }
static int rref_bytes(const Par &p) { return (7 * (p.N - p.K) * p.K + 7) / 8 + (p.N + 7) / 8; }
static int act_bytes(const Par &p) { return (7 * p.K + 7) / 8 + (bitsrep(p.N) * p.K + 7) / 8; }

// sampling of values in [lo, lo+span], 7-bit candidates out of little-endian 64-bit words
static void sample(Sponge &s, int lo, int span, u8 *out, int n) {
    int nb = bitsrep(span), per = 64 / nb, c = 0;
    while (c < n) {
        u8 w[8]; s.squeeze(w, 8); u64 x = 0;
        for (int i = 7; i >= 0; i--) x = x << 8 | w[i];
        for (int i = 0; i < per && c < n; i++) { int v = (int)(x & ((1u << nb) - 1)); x >>= nb; if (v <= span) out[c++] = (u8)(lo + v); }
    }
}
struct Mono { std::vector<u8> c; std::vector<u16> p; };
static Mono expand_mono(const Par &P, const u8 *in, int len) {
    Sponge s = xof(P); s.absorb(in, len);
    Mono m; m.c.resize(P.N); m.p.resize(P.N);
    sample(s, 1, 125, m.c.data(), P.N);
    for (int i = 0; i < P.N; i++) m.p[i] = i;
    std::vector<u8> r(4 * P.N); s.squeeze(r.data(), r.size());
    for (int i = 0; i + 1 < P.N; i++) {
        u32 v = r[4*i] | r[4*i+1] << 8 | r[4*i+2] << 16 | (u32)r[4*i+3] << 24;
        std::swap(m.p[i], m.p[i + v % (P.N - i)]);
    }
    return m;
}
typedef std::vector<u8> Mat;
// G * Q : column i goes to position p[i], scaled by c[i]
static Mat apply_mono(const Par &P, const Mat &G, const Mono &m) {
    Mat R(P.K * P.N);
    for (int r = 0; r < P.K; r++) for (int i = 0; i < P.N; i++) R[r * P.N + m.p[i]] = (u8)(G[r * P.N + i] * m.c[i] % Q);
    return R;
}
// reduced row echelon form; returns rank.
static int rref(int K, int N, u8 *G, u8 *piv) {
    std::vector<u16> A(K * N); for (int i = 0; i < K * N; i++) A[i] = G[i];
    memset(piv, 0, N);
    int r = 0;
    for (int c = 0; c < N && r < K; c++) {
        int s = r; while (s < K && A[s * N + c] == 0) s++;
        if (s == K) continue;
        if (s != r) for (int j = c; j < N; j++) std::swap(A[s * N + j], A[r * N + j]);
        u16 *pr = &A[r * N]; int iv = INV.t[pr[c]];
        for (int j = c; j < N; j++) pr[j] = pr[j] * iv % Q;
        for (int i = 0; i < K; i++) if (i != r && A[i * N + c]) {
            u16 f = Q - A[i * N + c]; u16 *ri = &A[i * N];
            for (int j = c; j < N; j++) { u16 t = (u16)(ri[j] + f * pr[j]); t = (t & 127) + (t >> 7); t = t >= Q ? t - Q : t; ri[j] = t >= Q ? t - Q : t; }
        }
        piv[c] = 1; r++;
    }
    for (int i = 0; i < K * N; i++) G[i] = (u8)A[i];
    return r;
}
// canonical form: the non-pivot columns, each scaled so its first nonzero entry is 1, sorted
static void canon(int K, int N, const u8 *G, const u8 *piv, u8 *V /*K x (N-K)*/) {
    std::vector<std::vector<u8>> cols;
    for (int c = 0; c < N; c++) if (!piv[c]) {
        std::vector<u8> v(K); int f = 0;
        for (int r = 0; r < K; r++) { v[r] = G[r * N + c]; if (!f && v[r]) f = INV.t[v[r]]; }
        for (int r = 0; r < K; r++) v[r] = (u8)(v[r] * f % Q);
        cols.push_back(v);
    }
    std::sort(cols.begin(), cols.end());
    int n = (int)cols.size();
    for (int r = 0; r < K; r++) for (int c = 0; c < n; c++) V[r * n + c] = cols[c][r];
}
static Mat expand_G0(const Par &P, const u8 *seed) {
    Sponge s = xof(P); s.absorb(seed, P.S);
    Mat G(P.K * P.N, 0); std::vector<u8> row(P.N - P.K);
    for (int r = 0; r < P.K; r++) {
        sample(s, 0, 126, row.data(), P.N - P.K);
        G[r * P.N + r] = 1;
        memcpy(&G[r * P.N + P.K], row.data(), P.N - P.K);
    }
    return G;
}
struct BitW { u8 *o; u64 n; BitW(u8 *p, int bytes) : o(p), n(0) { memset(p, 0, bytes); } void put(unsigned v, int b) { for (int i = 0; i < b; i++, n++) if (v >> i & 1) o[n / 8] |= 1 << (n % 8); } void align() { n = (n + 7) / 8 * 8; } };
struct BitR { const u8 *o; u64 n; BitR(const u8 *p) : o(p), n(0) {} unsigned get(int b) { unsigned v = 0; for (int i = 0; i < b; i++, n++) v |= (unsigned)(o[n / 8] >> (n % 8) & 1) << i; return v; } void align() { n = (n + 7) / 8 * 8; } };
static void pack_rref(const Par &P, const u8 *G, const u8 *piv, u8 *out) {
    BitW w(out, rref_bytes(P));
    for (int c = 0; c < P.N; c++) w.put(piv[c], 1);
    w.align();
    for (int r = 0; r < P.K; r++) for (int c = 0; c < P.N; c++) if (!piv[c]) w.put(G[r * P.N + c], 7);
}
// 0 ok, 1 wrong number of pivots, 2 padding of flags, 3 value out of range, 4 padding
static int unpack_rref(const Par &P, const u8 *in, u8 *G, u8 *piv) {
    BitR r(in); int np = 0;
    for (int c = 0; c < P.N; c++) np += piv[c] = r.get(1);
    if (np != P.K) return 1;
    while (r.n % 8) if (r.get(1)) return 2;
    for (int i = 0; i < P.K; i++) {
        int pi = 0;
        for (int c = 0; c < P.N; c++) {
            if (piv[c]) { G[i * P.N + c] = pi++ == i; continue; }
            unsigned v = r.get(7); if (v >= (unsigned)Q) return 3; G[i * P.N + c] = v;
        }
    }
    while (r.n < 8ULL * rref_bytes(P)) if (r.get(1)) return 4;
    return 0;
}
struct Act { std::vector<u8> c; std::vector<u16> p; };
static void pack_act(const Par &P, const Act &a, u8 *out) {
    BitW w(out, act_bytes(P));
    for (int i = 0; i < P.K; i++) w.put(a.p[i], bitsrep(P.N));
    for (int i = 0; i < P.K; i++) w.put(a.c[i], 7);
}
static bool unpack_act(const Par &P, const u8 *in, Act &a) {   // false: nonzero padding
    a.c.resize(P.K); a.p.resize(P.K); BitR r(in);
    for (int i = 0; i < P.K; i++) a.p[i] = r.get(bitsrep(P.N));
    for (int i = 0; i < P.K; i++) a.c[i] = r.get(7);
    bool ok = true;
    while (r.n < 8ULL * act_bytes(P)) if (r.get(1)) ok = false;
    return ok;
}
static bool act_valid(const Par &P, const u16 *p, const u8 *c) {
    std::vector<char> seen(P.N, 0);
    for (int i = 0; i < P.K; i++) { if (c[i] == 0 || c[i] >= Q || p[i] >= P.N || seen[p[i]]) return false; seen[p[i]] = 1; }
    return true;
}
static void children(const Par &P, const u8 *salt, const u8 *node, u8 *out) {
    Sponge s = xof(P); s.absorb(salt, 2 * P.S); s.absorb(node, P.S); s.squeeze(out, 2 * P.S);
}
static std::vector<u8> hidden_flags(const Par &P, const u8 *hide) {   // node must stay hidden
    int L = leaves(P); std::vector<u8> f(2 * L - 1, 0);
    for (int i = 0; i < P.T; i++) if (hide[i]) for (int n = L - 1 + i;; n = (n - 1) / 2) { f[n] = 1; if (!n) break; }
    return f;
}
static bool published(const std::vector<u8> &f, int n) { return !f[n] && n && f[(n - 1) / 2]; }
static void challenge(const Par &P, const u8 *digest, u8 *out) {
    memset(out, 0, P.T);
    Sponge s = xof(P); s.absorb(digest, 2 * P.S);
    int vb = bitsrep(P.keys - 1), pb = bitsrep(P.T - 1), placed = 0;
    while (placed < P.W) {
        u8 b[2]; s.squeeze(b, 2); unsigned x = b[0] | b[1] << 8;
        unsigned v = x & ((1u << vb) - 1), pos = (x >> vb) & ((1u << pb) - 1);
        if (v >= (unsigned)P.keys || pos >= (unsigned)P.T || out[pos] || v == 0) continue;
        out[pos] = v; placed++;
    }
}
static Mono round_mono(const Par &P, const u8 *leaf, const u8 *salt, int i) {
    std::vector<u8> b(leaf, leaf + P.S); b.insert(b.end(), salt, salt + 2 * P.S); b.push_back(i & 255); b.push_back(i >> 8);
    return expand_mono(P, b.data(), b.size());
}
static void round_commit(const Par &P, const Mat &G0, const Mono &q, u8 *V, Act *bar) {
    Mat G = apply_mono(P, G0, q); std::vector<u8> piv(P.N);
    if (rref(P.K, P.N, G.data(), piv.data()) != P.K) abort();
    canon(P.K, P.N, G.data(), piv.data(), V);
    if (bar) {
        std::vector<u16> src(P.N); for (int i = 0; i < P.N; i++) src[q.p[i]] = i;
        bar->c.clear(); bar->p.clear();
        for (int c = 0; c < P.N; c++) if (piv[c]) { bar->p.push_back(src[c]); bar->c.push_back(q.c[src[c]]); }
    }
}
static void round_verify(const Par &P, const Mat &Gi, const Act &a, u8 *V) {
    Mat H(P.K * P.N); std::vector<char> used(P.N, 0); int d = 0;
    for (; d < P.K; d++) { used[a.p[d]] = 1; for (int r = 0; r < P.K; r++) H[r * P.N + d] = (u8)(Gi[r * P.N + a.p[d]] * a.c[d] % Q); }
    for (int c = 0; c < P.N; c++) if (!used[c]) { for (int r = 0; r < P.K; r++) H[r * P.N + d] = Gi[r * P.N + c]; d++; }
    std::vector<u8> piv(P.N);
    if (rref(P.K, P.N, H.data(), piv.data()) != P.K) abort();
    canon(P.K, P.N, H.data(), piv.data(), V);
}
static int nthreads() { const char *e = getenv("MODEL_THREADS"); int n = e ? atoi(e) : 1; return n < 1 ? 1 : n; }
template <class F> static void par_for(int n, F f) {
    int t = std::min(nthreads(), n); if (t <= 1) { for (int i = 0; i < n; i++) f(i); return; }
    std::atomic<int> k(0); std::vector<std::thread> th;
    for (int j = 0; j < t; j++) th.emplace_back([&] { for (int i; (i = k++) < n;) f(i); });
    for (auto &x : th) x.join();
}
static std::vector<u8> priv_seeds(const Par &P, const u8 *sk) { Sponge s = xof(P); s.absorb(sk, 2 * P.S); std::vector<u8> r((P.keys - 1) * 2 * P.S); s.squeeze(r.data(), r.size()); return r; }

extern "C" {
void m_xof(int cat, const u8 *in, u64 n, u8 *out, u64 outn) { Sponge s = cat == 1 ? Sponge(168, 0x1f) : Sponge(136, 0x1f); s.absorb(in, n); s.squeeze(out, outn); }
void m_sha3(int bytes, const u8 *in, u64 n, u8 *out) { Sponge s(200 - 2 * bytes, 6); s.absorb(in, n); s.squeeze(out, bytes); }
int m_rref_bytes(const Par *P) { return rref_bytes(*P); }
int m_act_bytes(const Par *P) { return act_bytes(*P); }
int m_leaves(const Par *P) { return leaves(*P); }
void m_sample(const Par *P, const u8 *seed, u64 n, int lo, int span, u8 *out, int cnt, u8 *after, int nafter) { Sponge s = xof(*P); s.absorb(seed, n); sample(s, lo, span, out, cnt); s.squeeze(after, nafter); }
void m_mono(const Par *P, const u8 *in, int len, u8 *c, u16 *p) { Mono m = expand_mono(*P, in, len); memcpy(c, m.c.data(), P->N); memcpy(p, m.p.data(), 2 * P->N); }
void m_G0(const Par *P, const u8 *seed, u8 *G) { Mat g = expand_G0(*P, seed); memcpy(G, g.data(), g.size()); }
int m_rref(int K, int N, u8 *G, u8 *piv) { return rref(K, N, G, piv); }
void m_canon(int K, int N, const u8 *G, const u8 *piv, u8 *V) { canon(K, N, G, piv, V); }
void m_pack_rref(const Par *P, const u8 *G, const u8 *piv, u8 *out) { pack_rref(*P, G, piv, out); }
int m_unpack_rref(const Par *P, const u8 *in, u8 *G, u8 *piv) { return unpack_rref(*P, in, G, piv); }
void m_pack_act(const Par *P, const u16 *p, const u8 *c, u8 *out) { Act a; a.p.assign(p, p + P->K); a.c.assign(c, c + P->K); pack_act(*P, a, out); }
int m_unpack_act(const Par *P, const u8 *in, u16 *p, u8 *c) { Act a; bool ok = unpack_act(*P, in, a); memcpy(p, a.p.data(), 2 * P->K); memcpy(c, a.c.data(), P->K); return ok; }
int m_act_valid(const Par *P, const u16 *p, const u8 *c) { return act_valid(*P, p, c); }
void m_tree(const Par *P, const u8 *root, const u8 *salt, u8 *tree) { memcpy(tree, root, P->S); int L = leaves(*P); for (int i = 0; i < L - 1; i++) children(*P, salt, tree + i * P->S, tree + (2 * i + 1) * P->S); }
// list of published node indices; returns how many
int m_pub(const Par *P, const u8 *hide, int *nodes) { auto f = hidden_flags(*P, hide); int n = 0; for (int i = 0; i < (int)f.size(); i++) if (published(f, i)) nodes[n++] = i; return n; }
void m_challenge(const Par *P, const u8 *digest, u8 *out) { challenge(*P, digest, out); }
void m_commit(const Par *P, const u8 *G0, const u8 *c, const u16 *p, u8 *V, u16 *barp, u8 *barc) {
    Mat g(G0, G0 + P->K * P->N); Mono m; m.c.assign(c, c + P->N); m.p.assign(p, p + P->N); Act a; round_commit(*P, g, m, V, &a);
    memcpy(barp, a.p.data(), 2 * P->K); memcpy(barc, a.c.data(), P->K);
}
void m_keygen(const Par *P, const u8 *sk, const u8 *g0seed, u8 *pk) {
    memcpy(pk, g0seed, P->S); auto ps = priv_seeds(*P, sk); Mat G0 = expand_G0(*P, g0seed);
    par_for(P->keys - 1, [&](int i) {
        Mono inv = expand_mono(*P, &ps[i * 2 * P->S], 2 * P->S), q; q.c.resize(P->N); q.p.resize(P->N);
        for (int j = 0; j < P->N; j++) { q.p[inv.p[j]] = j; q.c[inv.p[j]] = INV.t[inv.c[j]]; }
        Mat G = apply_mono(*P, G0, q); std::vector<u8> piv(P->N);
        if (rref(P->K, P->N, G.data(), piv.data()) != P->K) abort();
        pack_rref(*P, G.data(), piv.data(), pk + P->S + i * rref_bytes(*P));
    });
}
// returns signature length; chal: null = derive from the digest, else T bytes forced challenge. chal_out optional (T bytes)
int m_sign(const Par *Pp, const u8 *sk, const u8 *g0seed, const u8 *eph, const u8 *salt, const u8 *m, u64 mlen, u8 *sig, const u8 *forced, u8 *chal_out) {
    const Par &P = *Pp; int L = leaves(P), K = P.K, N = P.N, S = P.S;
    std::vector<u8> tree((2 * L - 1) * S); m_tree(Pp, eph, salt, tree.data());
    Mat G0 = expand_G0(P, g0seed); auto ps = priv_seeds(P, sk);
    std::vector<u8> V((size_t)P.T * K * (N - K)); std::vector<Act> bar(P.T);
    par_for(P.T, [&](int i) { Mono q = round_mono(P, &tree[(L - 1 + i) * S], salt, i); round_commit(P, G0, q, &V[(size_t)i * K * (N - K)], &bar[i]); });
    Sponge h = dig(P); h.absorb(V.data(), V.size()); h.absorb(m, mlen); h.absorb(salt, 2 * S);
    u8 d[64]; h.squeeze(d, 2 * S);
    std::vector<u8> ch(P.T); if (forced) memcpy(ch.data(), forced, P.T); else challenge(P, d, ch.data());
    if (chal_out) memcpy(chal_out, ch.data(), P.T);
    u8 *o = sig; memcpy(o, salt, 2 * S); o += 2 * S;
    for (int i = 0; i < P.T; i++) if (ch[i]) {
        Mono q = expand_mono(P, &ps[(ch[i] - 1) * 2 * S], 2 * S);
        std::vector<u16> back(N); for (int j = 0; j < N; j++) back[q.p[j]] = j;
        Act a; for (int j = 0; j < K; j++) { int s = back[bar[i].p[j]]; a.p.push_back(s); a.c.push_back((u8)(bar[i].c[j] * q.c[s] % Q)); }
        pack_act(P, a, o); o += act_bytes(P);
    }
    memcpy(o, d, 2 * S); o += 2 * S;
    auto f = hidden_flags(P, ch.data()); int n = 0;
    for (int i = 0; i < 2 * L - 1; i++) if (published(f, i)) { memcpy(o, &tree[i * S], S); o += S; n++; }
    *o++ = (u8)n;
    return (int)(o - sig);
}
// verdict on a whole signed message. 0 accept; otherwise a reason
int m_open(const Par *Pp, const u8 *pk, const u8 *sm, u64 smlen, const u8 *forced) {
    const Par &P = *Pp; int L = leaves(P), K = P.K, N = P.N, S = P.S, ab = act_bytes(P);
    if (smlen < 1) return 1;
    int n = sm[smlen - 1]; if (n * S > P.maxpub) return 2;
    u64 sl = 4ULL * S + (u64)P.W * ab + (u64)n * S + 1; if (smlen < sl) return 1;
    const u8 *m = sm; u64 mlen = smlen - sl; const u8 *sig = sm + mlen;
    const u8 *salt = sig, *acts = salt + 2 * S, *d = acts + P.W * ab, *seeds = d + 2 * S;
    std::vector<u8> ch(P.T); if (forced) memcpy(ch.data(), forced, P.T); else challenge(P, d, ch.data());
    std::vector<Mat> G(P.keys);
    for (int i = 1; i < P.keys; i++) { G[i].resize(K * N); std::vector<u8> piv(N); if (unpack_rref(P, pk + S + (i - 1) * rref_bytes(P), G[i].data(), piv.data())) return 6; }
    auto f = hidden_flags(P, ch.data()); int need = 0; std::vector<u8> tree((2 * L - 1) * S, 0);
    for (int i = 0; i < 2 * L - 1; i++) if (published(f, i)) need++;
    if (need != n) return 3;
    need = 0;
    for (int i = 0; i < 2 * L - 1; i++) { if (published(f, i)) memcpy(&tree[i * S], seeds + S * need++, S); if (!f[i] && i < L - 1) children(P, salt, &tree[i * S], &tree[(2 * i + 1) * S]); }
    std::vector<Act> a(P.T); int w = 0; bool pad = false, bad = false;
    for (int i = 0; i < P.T; i++) if (ch[i]) { if (!unpack_act(P, acts + ab * w++, a[i])) pad = true; if (!act_valid(P, a[i].p.data(), a[i].c.data())) bad = true; }
    if (pad) return 4;
    if (bad) return 5;
    Mat G0 = expand_G0(P, pk); std::vector<u8> V((size_t)P.T * K * (N - K));
    par_for(P.T, [&](int i) { u8 *v = &V[(size_t)i * K * (N - K)]; if (ch[i]) round_verify(P, G[ch[i]], a[i], v); else round_commit(P, G0, round_mono(P, &tree[(L - 1 + i) * S], salt, i), v, nullptr); });
    Sponge h = dig(P); h.absorb(V.data(), V.size()); h.absorb(m, mlen); h.absorb(salt, 2 * S);
    u8 d2[64]; h.squeeze(d2, 2 * S);
    return memcmp(d, d2, 2 * S) ? 7 : 0;
}
}
