// A guest that passes everything on to a program at the other end of its
// standard input and output. Built into wasm.go by build.sh.
typedef unsigned char u8;
typedef unsigned int u32;

#define IMP(m, n) __attribute__((import_module(m), import_name(n))) extern
#define EXP(n) __attribute__((export_name(n)))

IMP("wasmrs", "__init_buffers") void init_buffers(u32, u32);
IMP("wasmrs", "__op_list") void op_list(u32, u32);
IMP("wasmrs", "__send") void host_send(u32);
IMP("wasi_snapshot_preview1", "fd_read") u32 fd_read(u32, void *, u32, u32 *);
IMP("wasi_snapshot_preview1", "fd_write") u32 fd_write(u32, void *, u32, u32 *);

struct iovec { u8 *p; u32 n; };

#define MAX (1 << 20)
static u8 to[MAX], from[MAX], list[MAX], msg[MAX + 32];

static void all(u32 fd, u8 *p, u32 n) {
    while (n > 0) {
        struct iovec v = {p, n};
        u32 k = 0;
        if ((fd ? fd_write(fd, &v, 1, &k) : fd_read(fd, &v, 1, &k)) || !k) __builtin_trap();
        p += k;
        n -= k;
    }
}

static void put(u8 *p, u32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static u32 get(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }

// A message is 0, its kind, three numbers, and as many bytes as the first says
// if the kind is in upper case.
static void tell(u8 kind, u32 a, u32 b, u32 c, const u8 *p) {
    msg[0] = 0; msg[1] = kind;
    put(msg + 2, a); put(msg + 6, b); put(msg + 10, c);
    u32 n = p ? a : 0;
    for (u32 i = 0; i < n; i++) msg[14 + i] = p[i];
    all(1, msg, 14 + n);
}

static u32 converse(void) {
    for (;;) {
        u8 h[14];
        all(0, h, 14);
        u32 a = get(h + 2);
        if (h[0] || a > MAX) __builtin_trap();
        switch (h[1]) {
        case 'b': init_buffers((u32)to, (u32)from); break;
        case 'L': all(0, list, a); op_list((u32)list, a); break;
        case 'S': all(0, from, a); host_send(a); break;
        case 'r': return a;
        default: __builtin_trap();
        }
        tell('a', 0, 0, 0, 0);
    }
}

EXP("__wasmrs_init") u32 init(u32 a, u32 b, u32 c) {
    if (a > MAX || b > MAX) return 0;
    tell('i', a, b, c, 0);
    return converse();
}

EXP("__wasmrs_op_list_request") void ops(void) { tell('l', 0, 0, 0, 0); converse(); }

EXP("__wasmrs_send") void send(u32 n) { tell('S', n, 0, 0, to); converse(); }
