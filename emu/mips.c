/* A big-endian machine: runs one statically linked linux/mips (32 bit, big
 * endian, no floating-point unit) Go program, so that the library's code for
 * machines of that byte order is executed as it would be there.
 *
 *	mips PROGRAM ARGS...
 *
 * Threads are run in turn.  Only the system calls the Go runtime and the test
 * driver need are there; files are opened on the host as asked. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;

#define SPACE 0x80000000u
static u8 *M;

typedef struct {
	u32 r[32], pc, npc, hi, lo;
	int tid, used;
	int wait;      /* 0 runs, 1 waits for a futex, 2 sleeps, 3 waits in epoll */
	u32 fut;       /* what it waits for */
	i64 until;     /* wakes at, or -1 */
	u32 ll;        /* reservation */
	int llok;
	u32 sigsp, sigsz; /* stack for signals */
} T;

#define MAXT 256
static T ts[MAXT];
static T *t;
static int ntid = 1;
static u32 segv;      /* the program's handler of faults */
static jmp_buf faulted;
static int insys;

#define SIGRET 0x7fff8000u /* where handlers return to */

static void __attribute__((noreturn, cold)) die(const char *why, u32 x)
{
	fflush(stdout);
	fprintf(stderr, "big-endian machine: %s %08x at pc=%08x sp=%08x ra=%08x\n", why, x, t->pc, t->r[29], t->r[31]);
	for (int i = 0; i < 32; i++)
		fprintf(stderr, "r%d=%08x%c", i, t->r[i], i % 8 == 7 ? '\n' : ' ');
	exit(99);
}

static void __attribute__((noreturn, cold)) fault(u32 a);

static inline u32 chk(u32 a)
{
	if (__builtin_expect(a - 0x1000u >= SPACE - 0x1000u, 0))
		fault(a);
	return a;
}
static inline u32 L4(u32 a) { u32 v; memcpy(&v, M + chk(a), 4); return __builtin_bswap32(v); }
static inline u32 L2(u32 a) { u16 v; memcpy(&v, M + chk(a), 2); return __builtin_bswap16(v); }
static inline void S4(u32 a, u32 v) { v = __builtin_bswap32(v); memcpy(M + chk(a), &v, 4); }
static inline void S2(u32 a, u32 v) { u16 x = __builtin_bswap16((u16)v); memcpy(M + chk(a), &x, 2); }

/* fault gives the running thread the signal for a bad address */
static void fault(u32 a)
{
	if (insys || !segv || !t->sigsz)
		die("fault at address", a);
	u32 sp = (t->sigsp + t->sigsz - 2048) & ~15u, info = sp + 64, uc = info + 128;
	memset(M + chk(info), 0, 1024);
	S4(info, 11);
	S4(info + 4, 1);
	S4(info + 12, a);
	S4(uc + 36, t->pc);
	for (int i = 0; i < 32; i++)
		S4(uc + 40 + 8 * i + 4, t->r[i]);
	S4(uc + 576, t->hi);
	S4(uc + 584, t->lo);
	t->r[4] = 11;
	t->r[5] = info;
	t->r[6] = uc;
	t->r[25] = segv;
	t->r[29] = sp;
	t->r[31] = SIGRET;
	t->pc = segv;
	t->npc = segv + 4;
	longjmp(faulted, 1);
}

static void sigreturn(void)
{
	u32 uc = t->r[29] + 64 + 128;
	t->pc = L4(uc + 36);
	t->npc = t->pc + 4;
	t->hi = L4(uc + 576);
	t->lo = L4(uc + 584);
	for (int i = 1; i < 32; i++)
		t->r[i] = L4(uc + 40 + 8 * i + 4);
}

static i64 now(clockid_t c)
{
	struct timespec s;
	clock_gettime(c, &s);
	return (i64)s.tv_sec * 1000000000 + s.tv_nsec;
}

static u32 bump = 0x20000000u, brk_;

static u32 map(u32 addr, u32 len, u32 flags)
{
	len = (len + 0xfff) & ~0xfffu;
	u32 a;
	if (flags & 0x10)
		a = addr;
	else {
		a = bump;
		if (len > 0x7f000000u - a)
			return 0;
		bump += len;
		return a;
	}
	if ((u64)a + len > SPACE)
		return 0;
	/* mapped again: it is empty again */
	if (mmap(M + a, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
		return 0;
	return a;
}

static int hosterr(int e)
{
	switch (e) {
	case ENOSYS: return 89;
	case EAGAIN: return 11;
	}
	return e < 35 ? e : 22;
}

static void sys(void)
{
	u32 n = t->r[2], a = t->r[4], b = t->r[5], c = t->r[6], d = t->r[7], sp = t->r[29];
	i64 r = 0;       /* the result, or minus an error number */
	switch (n) {
	case 4001: /* exit: this thread */
		t->used = 0;
		return;
	case 4246:
		exit(a);
	case 4003: {
		ssize_t k = a >= 100 ? 8 : read(a, M + chk(b), c);
		r = k < 0 ? -hosterr(errno) : k;
		break;
	}
	case 4004: {
		if (a >= 100) {
			for (int i = 0; i < MAXT; i++)
				if (ts[i].used && ts[i].wait == 3)
					ts[i].until = 0;
			r = c;
			break;
		}
		ssize_t k = write(a, M + chk(b), c);
		r = k < 0 ? -hosterr(errno) : k;
		break;
	}
	case 4005:
	case 4288: {
		char *p = (char *)M + chk(n == 4005 ? a : b);
		u32 f = n == 4005 ? b : c, m = n == 4005 ? c : d;
		int h = f & 3;
		if (f & 0x100) h |= O_CREAT;
		if (f & 0x200) h |= O_TRUNC;
		if (f & 0x400) h |= O_EXCL;
		if (f & 0x8) h |= O_APPEND;
		int fd = open(p, h | O_CLOEXEC, m);
		r = fd < 0 ? -hosterr(errno) : fd;
		break;
	}
	case 4200: { /* pread64(fd, buf, n, -, offset on the stack) */
		ssize_t k = pread(a, M + chk(b), c, (off_t)((u64)L4(sp + 16) << 32 | L4(sp + 20)));
		r = k < 0 ? -hosterr(errno) : k;
		break;
	}
	case 4006:
		r = a >= 100 ? 0 : close(a) < 0 ? -hosterr(errno) : 0;
		break;
	case 4140: { /* llseek(fd, hi, lo, result, whence) */
		off_t o = lseek(a, (off_t)((u64)b << 32 | c), L4(sp + 16));
		if (o < 0)
			r = -hosterr(errno);
		else {
			S4(d, (u32)((u64)o >> 32));
			S4(d + 4, (u32)o);
		}
		break;
	}
	case 4019: {
		off_t o = lseek(a, (i32)b, c);
		r = o < 0 ? -hosterr(errno) : (i64)o;
		break;
	}
	case 4020: r = 1; break;
	case 4222: r = t->tid; break;
	case 4045:
		if (a)
			brk_ = a;
		r = brk_;
		break;
	case 4090:
	case 4210: {
		u32 m = map(a, b, d);
		r = m ? (i64)m : -12;
		break;
	}
	case 4091: /* munmap */
	case 4218: /* madvise */
		if (n == 4091 || c == 4)
			mmap(M + (chk(a) & ~0xfffu), (b + 0xfff) & ~0xfffu, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		break;
	case 4125: /* mprotect */
	case 4194: /* rt_sigaction */
	case 4195: /* rt_sigprocmask */
	case 4206: /* sigaltstack */
	case 4266: /* tgkill */
	case 4104: /* setitimer */
	case 4055: /* fcntl */
	case 4220:
		if (n == 4194 && c)
			memset(M + chk(c), 0, 28);
		if (n == 4194 && b && a == 11)
			segv = L4(b + 4);
		if (n == 4206 && b)
			memset(M + chk(b), 0, 12);
		if (n == 4206 && a) {
			t->sigsp = L4(a);
			t->sigsz = L4(a + 8) & 2 ? 0 : L4(a + 4);
		}
		if (n == 4195 && c)
			memset(M + chk(c), 0, 16);
		break;
	case 4217: r = -12; break; /* mincore */
	case 4240:
		S4(chk(c), 0x01000000);
		S4(c, 1);
		r = 4;
		break;
	case 4263: { /* clock_gettime */
		i64 k = now(a == 0 ? CLOCK_REALTIME : CLOCK_MONOTONIC);
		S4(b, k / 1000000000);
		S4(b + 4, k % 1000000000);
		break;
	}
	case 4403: {
		i64 k = now(a == 0 ? CLOCK_REALTIME : CLOCK_MONOTONIC), s = k / 1000000000;
		S4(b, (u32)(s >> 32));
		S4(b + 4, (u32)s);
		S4(b + 8, 0);
		S4(b + 12, k % 1000000000);
		break;
	}
	case 4162: t->llok = 0; t->wait = 2; t->until = 0; break;
	case 4166: {
		i64 k = (i64)L4(a) * 1000000000 + L4(a + 4);
		t->wait = 2;
		t->until = now(CLOCK_MONOTONIC) + k;
		break;
	}
	case 4238:
	case 4422: {
		int op = b & 127;
		if (op == 0) {
			if (L4(a) != c) {
				r = -11;
				break;
			}
			t->wait = 1;
			t->fut = a;
			t->until = -1;
			if (d) {
				i64 k = n == 4238 ? (i64)L4(d) * 1000000000 + L4(d + 4) :
					((i64)L4(d) << 32 | L4(d + 4)) * 1000000000 + L4(d + 12);
				t->until = now(CLOCK_MONOTONIC) + k;
			}
		} else if (op == 1) {
			for (int i = 0; i < MAXT && (u32)r < c; i++)
				if (ts[i].used && ts[i].wait == 1 && ts[i].fut == a) {
					ts[i].wait = 0;
					r++;
				}
		} else
			r = -22;
		break;
	}
	case 4120: { /* clone */
		int i;
		for (i = 0; i < MAXT && ts[i].used; i++)
			;
		if (i == MAXT) {
			r = -11;
			break;
		}
		ts[i] = *t;
		ts[i].tid = ++ntid;
		ts[i].r[29] = b;
		ts[i].r[2] = 0;
		ts[i].r[7] = 0;
		ts[i].llok = 0;
		ts[i].sigsz = 0;
		r = ts[i].tid;
		break;
	}
	case 4326: case 4248: r = 100; break; /* epoll_create */
	case 4325: r = 101; break;            /* eventfd */
	case 4249: r = c >= 100 ? 0 : -1; break;
	case 4313: case 4250:
		if (d == 0)
			break;
		t->wait = 3;
		t->until = (i32)d < 0 ? -1 : now(CLOCK_MONOTONIC) + (i64)d * 1000000;
		break;
	case 4353:
		for (u32 i = 0; i < b; i++)
			M[chk(a + i)] = (u8)rand();
		r = b;
		break;
	case 4215: { /* fstat64 */
		struct stat s;
		if (fstat(a, &s) < 0) {
			r = -hosterr(errno);
			break;
		}
		memset(M + chk(b), 0, 104);
		S4(b + 24, s.st_mode);
		S4(b + 56, (u32)((u64)s.st_size >> 32));
		S4(b + 60, (u32)s.st_size);
		break;
	}
	default:
		if (getenv("BE_TRACE"))
			fprintf(stderr, "no system call %u\n", n);
		r = -89;
	}
	if (r < 0) {
		t->r[2] = -r;
		t->r[7] = 1;
	} else {
		t->r[2] = (u32)r;
		t->r[7] = 0;
	}
}

/* Instructions are decoded once: there is no self-changing code. */
#define OPS(X) \
	X(SLL) X(SRL) X(ROTR) X(SRA) X(SLLV) X(SRLV) X(ROTRV) X(SRAV) X(JR) X(JALR) X(MOVZ) X(MOVN) X(SYSCALL) X(BREAK) \
	X(NOP) X(MFHI) X(MTHI) X(MFLO) X(MTLO) X(MULT) X(MULTU) X(DIV) X(DIVU) X(ADDU) X(SUBU) X(AND) X(OR) X(XOR) \
	X(NOR) X(SLT) X(SLTU) X(TEQ) X(TNE) X(BLTZ) X(BGEZ) X(BLTZAL) X(BGEZAL) X(J) X(JAL) X(BEQ) X(BNE) X(BLEZ) \
	X(BGTZ) X(ADDIU) X(SLTI) X(SLTIU) X(ANDI) X(ORI) X(XORI) X(LUI) X(MADD) X(MADDU) X(MUL) X(CLZ) X(CLO) X(EXT) \
	X(INS) X(WSBH) X(SEB) X(SEH) X(LB) X(LH) X(LW) X(LBU) X(LHU) X(LWL) X(LWR) X(SB) X(SH) X(SW) X(SWL) X(SWR) \
	X(LL) X(SC) X(BAD)

enum {
#define X(n) n,
	OPS(X)
#undef X
};

typedef struct {
	u8 op, s, q, d;
	u32 im;
} I;

static I *code;
static u32 text, textEnd;

static I decode(u32 w, u32 pc)
{
	static const u8 special[64] = {
		[0] = SLL, [2] = SRL, [3] = SRA, [4] = SLLV, [6] = SRLV, [7] = SRAV, [8] = JR, [9] = JALR, [10] = MOVZ,
		[11] = MOVN, [12] = SYSCALL, [13] = BREAK, [15] = NOP, [16] = MFHI, [17] = MTHI, [18] = MFLO, [19] = MTLO,
		[24] = MULT, [25] = MULTU, [26] = DIV, [27] = DIVU, [32] = ADDU, [33] = ADDU, [34] = SUBU, [35] = SUBU,
		[36] = AND, [37] = OR, [38] = XOR, [39] = NOR, [42] = SLT, [43] = SLTU, [52] = TEQ, [54] = TNE};
	static const u8 major[64] = {
		[2] = J, [3] = JAL, [4] = BEQ, [5] = BNE, [6] = BLEZ, [7] = BGTZ, [8] = ADDIU, [9] = ADDIU, [10] = SLTI,
		[11] = SLTIU, [12] = ANDI, [13] = ORI, [14] = XORI, [15] = LUI, [32] = LB, [33] = LH, [34] = LWL, [35] = LW,
		[36] = LBU, [37] = LHU, [38] = LWR, [40] = SB, [41] = SH, [42] = SWL, [43] = SW, [46] = SWR, [48] = LL,
		[51] = NOP, [56] = SC};
	u32 sh = w >> 6 & 31;
	I x = {BAD, w >> 21 & 31, w >> 16 & 31, w >> 11 & 31, (u32)(i32)(int16_t)w};
	switch (w >> 26) {
	case 0:
		x.op = special[w & 63];
		x.im = sh;
		if (x.op == SLL && (w & 63))
			x.op = BAD;
		if (x.op == SRL && (x.s & 1))
			x.op = ROTR;
		if (x.op == SRLV && (sh & 1))
			x.op = ROTRV;
		break;
	case 1:
		x.op = x.q == 0 ? BLTZ : x.q == 1 ? BGEZ : x.q == 16 ? BLTZAL : x.q == 17 ? BGEZAL : BAD;
		break;
	case 28:
		x.op = (w & 63) == 0 ? MADD : (w & 63) == 1 ? MADDU : (w & 63) == 2 ? MUL : (w & 63) == 32 ? CLZ : (w & 63) == 33 ? CLO : BAD;
		break;
	case 31:
		x.im = sh;
		x.op = (w & 63) == 0 ? EXT : (w & 63) == 4 ? INS : (w & 63) == 32 ? (sh == 2 ? WSBH : sh == 16 ? SEB : sh == 24 ? SEH : BAD) : BAD;
		break;
	default:
		x.op = major[w >> 26] ? major[w >> 26] : BAD;
	}
	switch (x.op) {
	case BEQ: case BNE: case BLEZ: case BGTZ: case BLTZ: case BGEZ: case BLTZAL: case BGEZAL:
		x.im = pc + 4 + (x.im << 2);
		break;
	case J: case JAL:
		x.im = ((pc + 4) & 0xf0000000u) | (w & 0x3ffffff) << 2;
		break;
	case ANDI: case ORI: case XORI:
		x.im = w & 0xffff;
		break;
	case LUI:
		x.im = w << 16;
		break;
	case BAD:
		x.im = w;
	}
	/* what goes into register 0 is lost */
	switch (x.op) {
	case SLL: case SRL: case ROTR: case SRA: case SLLV: case SRLV: case ROTRV: case SRAV: case MOVZ: case MOVN: case MFHI:
	case MFLO: case ADDU: case SUBU: case AND: case OR: case XOR: case NOR: case SLT: case SLTU: case MUL: case CLZ: case CLO:
	case WSBH: case SEB: case SEH:
		if (x.d == 0)
			x.op = NOP;
		break;
	case ADDIU: case SLTI: case SLTIU: case ANDI: case ORI: case XORI: case LUI: case EXT: case INS: case LB: case LH:
	case LW: case LBU: case LHU: case LWL: case LWR: case LL:
		if (x.q == 0)
			x.op = NOP;
	}
	return x;
}

/* run lets t run for a while */
static void run(int steps)
{
	static const void *const lab[] = {
#define X(n) &&n,
		OPS(X)
#undef X
	};
	u32 *R = t->r;
	u32 pc = t->pc, npc = t->npc, next;
	const I *x;
#define S R[x->s]
#define Q R[x->q]
#define D R[x->d]
#define IM x->im
#define FETCH do { \
		if (__builtin_expect(--steps < 0, 0)) goto out; \
		if (__builtin_expect(pc - text >= textEnd - text || (pc & 3), 0)) { \
			if (pc != SIGRET) { t->pc = pc; die("no code at", pc); } \
			sigreturn(); \
			return; \
		} \
		x = code + ((pc - text) >> 2); \
		next = npc + 4; \
		goto *lab[x->op]; \
	} while (0)
#define NEXT do { pc = npc; npc = next; FETCH; } while (0)
#define BR(cond) do { if (cond) next = IM; } while (0)
#define A (S + IM)
#define G(a) (t->pc = pc, chk(a))
	FETCH;
SLL: D = Q << IM; NEXT;
SRL: D = Q >> IM; NEXT;
ROTR: D = Q >> IM | Q << ((32 - IM) & 31); NEXT;
SRA: D = (u32)((i32)Q >> IM); NEXT;
SLLV: D = Q << (S & 31); NEXT;
SRLV: D = Q >> (S & 31); NEXT;
ROTRV: { u32 k = S & 31; D = Q >> k | Q << ((32 - k) & 31); NEXT; }
SRAV: D = (u32)((i32)Q >> (S & 31)); NEXT;
JR: next = S; NEXT;
JALR: next = S; if (x->d) D = npc + 4; NEXT;
MOVZ: if (Q == 0) D = S; NEXT;
MOVN: if (Q != 0) D = S; NEXT;
SYSCALL:
	t->pc = npc;
	t->npc = next;
	insys = 1;
	sys();
	insys = 0;
	if (!t->used || t->wait)
		return;
	pc = t->pc;
	npc = t->npc;
	FETCH;
BREAK: t->pc = pc; die("break", x->im); NEXT;
NOP: NEXT;
MFHI: D = t->hi; NEXT;
MTHI: t->hi = S; NEXT;
MFLO: D = t->lo; NEXT;
MTLO: t->lo = S; NEXT;
MULT: { i64 y = (i64)(i32)S * (i32)Q; t->lo = (u32)y; t->hi = (u32)((u64)y >> 32); NEXT; }
MULTU: { u64 y = (u64)S * Q; t->lo = (u32)y; t->hi = (u32)(y >> 32); NEXT; }
DIV:
	if (S == 0x80000000u && Q == 0xffffffffu) { t->lo = S; t->hi = 0; }
	else if (Q != 0) { t->lo = (u32)((i32)S / (i32)Q); t->hi = (u32)((i32)S % (i32)Q); }
	NEXT;
DIVU: if (Q != 0) { t->lo = S / Q; t->hi = S % Q; } NEXT;
ADDU: D = S + Q; NEXT;
SUBU: D = S - Q; NEXT;
AND: D = S & Q; NEXT;
OR: D = S | Q; NEXT;
XOR: D = S ^ Q; NEXT;
NOR: D = ~(S | Q); NEXT;
SLT: D = (i32)S < (i32)Q; NEXT;
SLTU: D = S < Q; NEXT;
TEQ: if (S == Q) { t->pc = pc; die("trap", 0); } NEXT;
TNE: if (S != Q) { t->pc = pc; die("trap", 0); } NEXT;
BLTZ: BR((i32)S < 0); NEXT;
BGEZ: BR((i32)S >= 0); NEXT;
BLTZAL: BR((i32)S < 0); R[31] = npc + 4; NEXT;
BGEZAL: BR((i32)S >= 0); R[31] = npc + 4; NEXT;
J: next = IM; NEXT;
JAL: R[31] = npc + 4; next = IM; NEXT;
BEQ: BR(S == Q); NEXT;
BNE: BR(S != Q); NEXT;
BLEZ: BR((i32)S <= 0); NEXT;
BGTZ: BR((i32)S > 0); NEXT;
ADDIU: Q = S + IM; NEXT;
SLTI: Q = (i32)S < (i32)IM; NEXT;
SLTIU: Q = S < IM; NEXT;
ANDI: Q = S & IM; NEXT;
ORI: Q = S | IM; NEXT;
XORI: Q = S ^ IM; NEXT;
LUI: Q = IM; NEXT;
MADD: { u64 y = ((u64)t->hi << 32 | t->lo) + (u64)((i64)(i32)S * (i32)Q); t->lo = (u32)y; t->hi = (u32)(y >> 32); NEXT; }
MADDU: { u64 y = ((u64)t->hi << 32 | t->lo) + (u64)S * Q; t->lo = (u32)y; t->hi = (u32)(y >> 32); NEXT; }
MUL: D = S * Q; NEXT;
CLZ: D = S ? (u32)__builtin_clz(S) : 32; NEXT;
CLO: D = ~S ? (u32)__builtin_clz(~S) : 32; NEXT;
EXT: Q = (S >> IM) & (u32)((1ull << (x->d + 1)) - 1); NEXT;
INS: { u32 m = (u32)((1ull << (x->d - IM + 1)) - 1) << IM; Q = (Q & ~m) | (S << IM & m); NEXT; }
WSBH: D = (Q & 0xff00ff) << 8 | (Q >> 8 & 0xff00ff); NEXT;
SEB: D = (u32)(i32)(int8_t)Q; NEXT;
SEH: D = (u32)(i32)(int16_t)Q; NEXT;
LB: Q = (u32)(i32)(int8_t)M[G(A)]; NEXT;
LH: G(A); Q = (u32)(i32)(int16_t)L2(A); NEXT;
LW: G(A); Q = L4(A); NEXT;
LBU: Q = M[G(A)]; NEXT;
LHU: G(A); Q = L2(A); NEXT;
LWL: { u32 a = G(A), k = (a & 3) * 8, v = L4(a & ~3u); Q = k ? (Q & ((1u << k) - 1)) | v << k : v; NEXT; }
LWR: { u32 a = G(A), k = (3 - (a & 3)) * 8, v = L4(a & ~3u); Q = k ? (Q & ~(0xffffffffu >> k)) | v >> k : v; NEXT; }
SB: M[G(A)] = (u8)Q; NEXT;
SH: G(A); S2(A, Q); NEXT;
SW: G(A); S4(A, Q); NEXT;
SWL: { u32 a = G(A), k = (a & 3) * 8, v = L4(a & ~3u); S4(a & ~3u, k ? (v & ~(0xffffffffu >> k)) | Q >> k : Q); NEXT; }
SWR: { u32 a = G(A), k = (3 - (a & 3)) * 8, v = L4(a & ~3u); S4(a & ~3u, k ? (v & ((1u << k) - 1)) | Q << k : Q); NEXT; }
LL: { u32 a = G(A); Q = L4(a); t->ll = a; t->llok = 1; NEXT; }
SC: { u32 a = G(A); if (t->llok && t->ll == a) { S4(a, Q); Q = 1; } else Q = 0; R[0] = 0; t->llok = 0; NEXT; }
BAD: t->pc = pc; die("unknown instruction", IM); NEXT;
out:
	t->pc = pc;
	t->npc = npc;
#undef S
#undef Q
#undef D
#undef A
}

static u32 half(const u8 *p) { return p[0] << 8 | p[1]; }
static u32 word(const u8 *p) { return (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

int main(int argc, char **argv)
{
	extern char **environ;
	if (argc < 2)
		return 98;
	M = mmap(0, SPACE + 0x10000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (M == MAP_FAILED) {
		perror("big-endian machine");
		return 98;
	}
	t = ts;
	t->used = 1;
	t->tid = 1;
	FILE *f = fopen(argv[1], "rb");
	static u8 h[4096];
	if (!f || fread(h, 1, 52, f) != 52 || memcmp(h, "\177ELF\1\2", 6) || half(h + 18) != 8) {
		fprintf(stderr, "big-endian machine: no program for it: %s\n", argv[1]);
		return 98;
	}
	u32 phoff = word(h + 28), phn = half(h + 44), entry = word(h + 24);
	if (phn * 32 > sizeof h || fseek(f, phoff, SEEK_SET) || fread(h, 32, phn, f) != phn)
		return 98;
	for (u32 i = 0; i < phn; i++) {
		u8 *p = h + 32 * i;
		if (word(p) != 1)
			continue;
		u32 va = word(p + 8), fs = word(p + 16), ms = word(p + 20);
		if (va + ms > bump || fseek(f, word(p + 4), SEEK_SET) || fread(M + va, 1, fs, f) != fs)
			return 98;
		if (word(p + 24) & 1) {
			text = va;
			textEnd = va + (fs & ~3u);
			code = malloc(sizeof(I) * (fs / 4 + 1));
			for (u32 k = 0; k < fs / 4; k++)
				code[k] = decode(L4(va + 4 * k), va + 4 * k);
		}
		if (va + ms > brk_)
			brk_ = (va + ms + 0xffff) & ~0xffffu;
	}
	fclose(f);
	u32 sp = 0x7fff0000u, ptr[1024], n = 0;
	ptr[n++] = argc - 1;
	for (int i = 1; i < argc && n < 900; i++) {
		sp -= strlen(argv[i]) + 1;
		strcpy((char *)M + sp, argv[i]);
		ptr[n++] = sp;
	}
	ptr[n++] = 0;
	const char *fixed[] = {"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", 0};
	for (int i = 0; fixed[i]; i++) {
		sp -= strlen(fixed[i]) + 1;
		strcpy((char *)M + sp, fixed[i]);
		ptr[n++] = sp;
	}
	for (char **e = environ; *e && n < 1000; e++) {
		if (strncmp(*e, "VERIF", 5) && strncmp(*e, "GOGC", 4) && strncmp(*e, "GOMEM", 5))
			continue;
		sp -= strlen(*e) + 1;
		strcpy((char *)M + sp, *e);
		ptr[n++] = sp;
	}
	ptr[n++] = 0;
	sp -= 16;
	u32 rnd = sp;
	for (int i = 0; i < 16; i++)
		M[rnd + i] = (u8)(i * 37 + 11);
	ptr[n++] = 25; ptr[n++] = rnd;
	ptr[n++] = 6; ptr[n++] = 4096;
	ptr[n++] = 0; ptr[n++] = 0;
	sp = (sp - 4 * n) & ~15u;
	for (u32 i = 0; i < n; i++)
		S4(sp + 4 * i, ptr[i]);
	t->r[29] = sp;
	t->pc = entry;
	t->npc = entry + 4;
	for (;;) {
		int any = 0, alive = 0;
		i64 clock = now(CLOCK_MONOTONIC), first = -1;
		for (int i = 0; i < MAXT; i++) {
			T *x = &ts[i];
			if (!x->used)
				continue;
			alive = 1;
			if (x->wait) {
				if (x->until < 0 || x->until > clock) {
					if (x->until >= 0 && (first < 0 || x->until < first))
						first = x->until;
					continue;
				}
				if (x->wait == 1) {
					x->r[2] = 145; /* timed out */
					x->r[7] = 1;
				}
				x->wait = 0;
			}
			any = 1;
			t = x;
			t->llok = 0;
			if (!setjmp(faulted))
				run(100000);
		}
		if (!alive)
			return 97;
		if (!any) {
			if (first < 0) {
				fprintf(stderr, "big-endian machine: every thread waits\n");
				return 97;
			}
			i64 k = first - clock;
			struct timespec s = {k / 1000000000, k % 1000000000};
			nanosleep(&s, 0);
		}
	}
}
