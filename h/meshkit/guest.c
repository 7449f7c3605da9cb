// A guest for the mesh: it carries out the program in the data of a request.
// Built into guest.go by build.sh.
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;

#define IMP(n) __attribute__((import_module("wasmrs"), import_name(n))) extern
#define EXP(n) __attribute__((export_name(n)))

IMP("__init_buffers") void init_buffers(u32, u32);
IMP("__op_list") void op_list(u32, u32);
IMP("__send") void host_send(u32);

enum { RR = 4, FNF, RS, RC, N, CANCEL, PAYLOAD, ERROR };
enum { NEXT = 32, COMPLETE = 64, META = 256 };
enum { BATCH = 1, BADINIT = 2, BADLIST = 4, BADSTART = 8, BARE = 16 };

volatile struct {
    u8 magic[16];
    u32 tag, flags, len;
    u8 ops[4096];
} cfg = {"VERIF-MESH-CONF", 1, 2, 3, {4}};

static u8 in[16384], out[16384], work[16384];
static u32 pos;

struct stream {
    u32 id, peer; // peer of a relay
    u8 kind, relay, callee, inDone, outDone;
    u32 credit, left, idx, i, hash;
    u8 end;
    u32 mdn, dn;
    u8 md[64];
    u8 d[256]; // of the elements of a stream
};

#define STREAMS 600
static struct stream streams[STREAMS];
static u32 nextID = 1;
static u32 fnfs, fnfSum;

static u32 be(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static void put(u8 *p, u32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void copy(u8 *d, const u8 *s, u32 n) { for (u32 i = 0; i < n; i++) d[i] = s[i]; }
static u32 hash(const u8 *p, u32 n) { u32 h = 2166136261u; for (u32 i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u; return h; }

static struct stream *find(u32 id) {
    for (u32 i = 0; i < STREAMS; i++)
        if (streams[i].id == id) return &streams[i];
    return 0;
}

static struct stream *add(u32 id, u32 kind) {
    struct stream *s = find(0);
    if (!s) __builtin_trap();
    s->id = id; s->peer = 0; s->kind = kind; s->relay = s->callee = s->outDone = 0;
    s->inDone = kind != RC;
    s->credit = s->left = s->idx = s->i = s->hash = s->mdn = s->dn = 0;
    return s;
}

static void drop(struct stream *s) { if (s) s->id = 0; }

static void flush(void) {
    u32 n = pos;
    pos = 0;
    if (n) host_send(n);
}

// put a frame in the buffer; the data comes in two parts.
static void frame(u32 id, u32 type, u32 flags, u32 n, const u8 *md, u32 mdn, const u8 *pre, u32 pn, const u8 *d, u32 dn) {
    u32 len = 6 + pn + dn;
    int hasN = type == RS || type == RC || type == N || type == ERROR;
    if (hasN) len += 4;
    if (mdn) { len += 3 + mdn; flags |= META; }
    if (pos + 3 + len > sizeof out) flush();
    u8 *p = out + pos;
    p[0] = len >> 16; p[1] = len >> 8; p[2] = len; p += 3;
    put(p, id); p += 4;
    u32 w = type << 10 | flags;
    p[0] = w >> 8; p[1] = w; p += 2;
    if (hasN) { put(p, n); p += 4; }
    if (mdn) { p[0] = mdn >> 16; p[1] = mdn >> 8; p[2] = mdn; p += 3; copy(p, md, mdn); p += mdn; }
    copy(p, pre, pn); p += pn;
    copy(p, d, dn);
    pos += 3 + len;
    if (!(cfg.flags & BATCH)) flush();
}

static void simple(u32 id, u32 type, u32 flags, u32 n) { frame(id, type, flags, n, 0, 0, 0, 0, 0, 0); }

static void emit(struct stream *s) {
    u8 pre[12];
    while (s->credit && s->i < s->left) {
        s->credit--;
        put(pre, cfg.tag); put(pre + 4, s->idx); put(pre + 8, s->i);
        s->i++;
        frame(s->id, PAYLOAD, NEXT, 0, s->md, s->mdn, pre, 12, s->d, s->dn);
    }
    if (s->i == s->left && !s->outDone) {
        s->outDone = 1;
        if (s->end == 'e') frame(s->id, ERROR, 0, 0x201, 0, 0, s->d, s->dn, 0, 0);
        else simple(s->id, PAYLOAD, COMPLETE, 0);
        drop(s);
    }
}

static int digit(u8 c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

// bare does what the index of the operation says with the data, which is not a program.
static void bare(u32 id, u32 idx, const u8 *d, u32 dn) {
    u8 m[8];
    switch (idx % 5) {
    case 0: // as it is
        frame(id, PAYLOAD, NEXT | COMPLETE, 0, 0, 0, 0, 0, d, dn);
        break;
    case 1: // an error with the text of a string
    case 2: // the bytes that a string has in hexadecimal digits
        if (d[0] >> 5 == 5) { dn = d[0] & 31; d++; }
        else if (d[0] == 0xd9) { dn = d[1]; d += 2; }
        else if (d[0] == 0xda) { dn = (u32)d[1] << 8 | d[2]; d += 3; }
        else __builtin_trap();
        if (idx % 5 == 1) {
            frame(id, ERROR, 0, 0x201, 0, 0, 0, 0, d, dn);
            break;
        }
        static u8 r[8192];
        if (dn > 2 * sizeof r) __builtin_trap();
        for (u32 i = 0; i + 1 < dn; i += 2) r[i / 2] = digit(d[i]) << 4 | digit(d[i + 1]);
        frame(id, PAYLOAD, NEXT | COMPLETE, 0, 0, 0, 0, 0, r, dn / 2);
        break;
    case 3: { // what the import of that index, less 3, divided by 5, says
        u32 peer = nextID;
        nextID += 2;
        struct stream *a = add(id, RR), *b = add(peer, RR);
        a->relay = b->relay = 1;
        a->peer = peer; b->peer = id;
        b->callee = 1;
        put(m, idx / 5); put(m + 4, id);
        frame(peer, RR, 0, 0, m, 8, 0, 0, d, dn);
        break;
    }
    case 4:
        __builtin_trap();
    }
}

static void request(u32 id, u32 type, u32 n, const u8 *md, u32 mdn, const u8 *d, u32 dn) {
    u8 pre[8], head[8];
    if (mdn < 8 || dn < 1) __builtin_trap();
    u32 idx = be(md);
    md += 8; mdn -= 8;
    u8 op = d[0];
    d++; dn--;
    put(pre, cfg.tag); put(pre + 4, idx);
    if (cfg.flags & BARE) {
        d--; dn++;
        if (type == RR) bare(id, idx, d, dn);
        return;
    }
    if (op == 'F') {
        u32 to = be(d);
        d += 4; dn -= 4;
        u32 peer = nextID;
        nextID += 2;
        if (type != FNF) {
            struct stream *a = add(id, type), *b = add(peer, type);
            a->relay = b->relay = 1;
            a->peer = peer; b->peer = id;
            b->callee = 1;
        }
        u8 m[128];
        put(m, to); put(m + 4, type == FNF ? 0 : id);
        if (mdn > 100) __builtin_trap();
        copy(m + 8, md, mdn);
        frame(peer, type, 0, n, m, mdn + 8, 0, 0, d, dn);
        return;
    }
    if (op == 'T') __builtin_trap();
    if (op == 'H') return;
    if (op == 'E' && type != FNF) {
        frame(id, ERROR, 0, 0x201, 0, 0, d, dn, 0, 0);
        return;
    }
    struct stream *s;
    switch (type) {
    case FNF:
        fnfs++;
        fnfSum += hash(d, dn) ^ idx;
        break;
    case RR:
        if (op == 'Q') {
            put(head, fnfs); put(head + 4, fnfSum);
            frame(id, PAYLOAD, NEXT | COMPLETE, 0, md, mdn, pre, 8, head, 8);
        } else if (op == 'P') { // in two frames
            frame(id, PAYLOAD, NEXT, 0, md, mdn, pre, 8, d, dn);
            simple(id, PAYLOAD, COMPLETE, 0);
        } else
            frame(id, PAYLOAD, NEXT | COMPLETE, 0, md, mdn, pre, 8, d, dn);
        break;
    case RS:
        s = add(id, RS);
        s->idx = idx;
        s->left = be(d); s->end = d[4];
        d += 5; dn -= 5;
        if (dn > sizeof s->d || mdn > sizeof s->md) __builtin_trap();
        copy(s->d, d, dn); s->dn = dn;
        copy(s->md, md, mdn); s->mdn = mdn;
        s->credit = n;
        emit(s);
        break;
    case RC:
        s = add(id, RC);
        s->idx = idx;
        s->hash = hash(d, dn);
        simple(id, N, 0, n);
        break;
    }
}

static void more(struct stream *s, u32 n) {
    if (s->relay) { simple(s->peer, N, 0, n); return; }
    if (s->kind == RC) { simple(s->id, N, 0, n); return; }
    s->credit = s->credit + n < s->credit || s->credit + n > 0x7fffffff ? 0x7fffffff : s->credit + n;
    emit(s);
}

// outEnded frees a stream whose output has ended.
static void outEnded(struct stream *s) {
    s->outDone = 1;
    if (s->inDone) {
        if (s->relay) drop(find(s->peer));
        drop(s);
    }
}

static void inEnded(struct stream *s) {
    s->inDone = 1;
    if (s->outDone) {
        if (s->relay) drop(find(s->peer));
        drop(s);
    }
}

// The frames below are about s; a is the side of the caller of a relay.
static void one(const u8 *p, u32 n) {
    u8 pre[12];
    u32 id = be(p), w = (u32)p[4] << 8 | p[5], type = w >> 10, k = 0;
    p += 6; n -= 6;
    if (type == RS || type == RC || type == N || type == ERROR) { k = be(p); p += 4; n -= 4; }
    const u8 *md = 0;
    u32 mdn = 0;
    if (w & META) { mdn = (u32)p[0] << 16 | (u32)p[1] << 8 | p[2]; md = p + 3; p += 3 + mdn; n -= 3 + mdn; }
    if (type >= RR && type <= RC) { request(id, type, k, md, mdn, p, n); return; }
    struct stream *s = find(id);
    if (!s) return;
    struct stream *a = s->relay && s->callee ? find(s->peer) : s;
    if (!a) return;
    switch (type) {
    case N:
        more(s, k);
        break;
    case CANCEL:
        if (s->relay) simple(s->peer, CANCEL, 0, 0);
        if (s->relay && s->callee) { inEnded(a); return; } // nobody wants the input
        if (s->relay) drop(find(s->peer));
        drop(s);
        break;
    case PAYLOAD:
        if (s->relay) {
            u32 next = w & NEXT, complete = w & COMPLETE;
            put(pre, cfg.tag);
            frame(s->peer, PAYLOAD, next | complete, 0, md, mdn, pre, next && !(cfg.flags & BARE) ? 4 : 0, p, n);
            if (complete) { if (s->callee) outEnded(a); else inEnded(a); }
            return;
        }
        if (w & NEXT) {
            put(pre, cfg.tag); put(pre + 4, s->idx); put(pre + 8, s->hash);
            frame(id, PAYLOAD, NEXT, 0, md, mdn, pre, 12, p, n);
        }
        if (w & COMPLETE) {
            simple(id, PAYLOAD, COMPLETE, 0);
            drop(s);
        }
        break;
    case ERROR:
        if (s->relay) {
            frame(s->peer, ERROR, 0, k, 0, 0, p, n, 0, 0);
            if (s->callee) { drop(s); drop(a); } else inEnded(a);
            return;
        }
        frame(id, ERROR, 0, k, 0, 0, p, n, 0, 0);
        drop(s);
        break;
    }
}

EXP("__wasmrs_init") void wasmrs_init_(u32 a, u32 b, u32 c) {
    if (cfg.flags & BADINIT || a > sizeof in || b > sizeof out) __builtin_trap();
    init_buffers((u32)in, (u32)out);
}

EXP("__wasmrs_op_list_request") void list(void) {
    if (cfg.flags & BADLIST) __builtin_trap();
    op_list((u32)cfg.ops, cfg.len);
}

EXP("_start") void start(void) {
    if (cfg.flags & BADSTART) __builtin_trap();
}

EXP("__wasmrs_send") u32 send(u32 n) {
    copy(work, in, n);
    pos = 0;
    for (u32 i = 0; i + 3 <= n;) {
        u32 k = (u32)work[i] << 16 | (u32)work[i + 1] << 8 | work[i + 2];
        one(work + i + 3, k);
        i += 3 + k;
    }
    flush();
    return 1;
}
