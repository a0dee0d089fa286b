// Reference models. Independent of malstroem: heap based floods, topological counts, union-find.
#include <stdint.h>
#include <stdlib.h>
#include <math.h>
typedef struct { double v; int64_t i; } item;
static void push(item *h, int64_t *n, item x) {
    int64_t k = (*n)++;
    while (k) { int64_t p = (k - 1) / 2; if (h[p].v <= x.v) break; h[k] = h[p]; k = p; }
    h[k] = x;
}
static item pop(item *h, int64_t *n) {
    item top = h[0], x = h[--(*n)];
    int64_t k = 0;
    for (;;) {
        int64_t c = 2 * k + 1;
        if (c >= *n) break;
        if (c + 1 < *n && h[c + 1].v < h[c].v) c++;
        if (x.v <= h[c].v) break;
        h[k] = h[c]; k = c;
    }
    h[k] = x;
    return top;
}
// least surface over z from which every raised cell lies >= sh (dg) above an edge (corner) neighbour
int flood(const double *z, int64_t h, int64_t w, double sh, double dg, double *out) {
    int64_t n = h * w, m = 0;
    item *hp = malloc(sizeof(item) * (9 * n + 16));
    char *done = calloc(n, 1);
    if (!hp || !done) return 1;
    for (int64_t i = 0; i < n; i++) {
        int64_t r = i / w, c = i % w;
        out[i] = INFINITY;
        if (r == 0 || c == 0 || r == h - 1 || c == w - 1) { out[i] = z[i]; push(hp, &m, (item){z[i], i}); }
    }
    while (m) {
        item t = pop(hp, &m);
        if (done[t.i]) continue;
        done[t.i] = 1;
        int64_t r = t.i / w, c = t.i % w;
        for (int64_t dr = -1; dr <= 1; dr++) for (int64_t dc = -1; dc <= 1; dc++) {
            if (!dr && !dc) continue;
            int64_t a = r + dr, b = c + dc;
            if (a < 1 || b < 1 || a >= h - 1 || b >= w - 1) continue;
            int64_t j = a * w + b;
            if (done[j]) continue;
            double v = t.v + ((dr && dc) ? dg : sh);
            if (v < z[j]) v = z[j];
            if (v < out[j]) { out[j] = v; push(hp, &m, (item){v, j}); }
        }
    }
    free(hp); free(done);
    return 0;
}
// cells (self included) draining through each cell. nxt[i] = i: path ends. Returns cells left in cycles
int64_t count_up(const int64_t *nxt, int64_t n, int64_t *out) {
    int32_t *deg = calloc(n, sizeof(int32_t));
    int64_t *q = malloc(n * sizeof(int64_t)), a = 0, b = 0;
    for (int64_t i = 0; i < n; i++) { out[i] = 1; if (nxt[i] != i) deg[nxt[i]]++; }
    for (int64_t i = 0; i < n; i++) if (!deg[i]) q[b++] = i;
    while (a < b) {
        int64_t i = q[a++], j = nxt[i];
        if (j == i) continue;
        out[j] += out[i];
        if (--deg[j] == 0) q[b++] = j;
    }
    free(deg); free(q);
    return n - b;
}
static int64_t find(int64_t *p, int64_t i) { while (p[i] != i) { p[i] = p[p[i]]; i = p[i]; } return i; }
// 8-connected regions of equal non-zero key. out: 0 background, else 1.. in raster order of first cell
int64_t regions(const int64_t *key, int64_t h, int64_t w, int64_t *out) {
    int64_t n = h * w, k = 0;
    int64_t *p = malloc(n * sizeof(int64_t));
    for (int64_t i = 0; i < n; i++) p[i] = i;
    for (int64_t r = 0; r < h; r++) for (int64_t c = 0; c < w; c++) {
        int64_t i = r * w + c;
        if (!key[i]) continue;
        const int dr[4] = {0, -1, -1, -1}, dc[4] = {-1, -1, 0, 1};
        for (int d = 0; d < 4; d++) {
            int64_t a = r + dr[d], b = c + dc[d];
            if (a < 0 || b < 0 || b >= w) continue;
            int64_t j = a * w + b;
            if (key[j] != key[i]) continue;
            int64_t x = find(p, i), y = find(p, j);
            if (x < y) p[y] = x; else p[x] = y;
        }
    }
    for (int64_t i = 0; i < n; i++) {
        if (!key[i]) { out[i] = 0; continue; }
        int64_t x = find(p, i);
        out[i] = x == i ? ++k : out[x];
    }
    free(p);
    return k;
}
