/* native side of vp.h: replays a counterexample (file of inputs) or searches for one (PRNG) */
#define VP_IMPL
#include "vp.h"
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <time.h>

#ifndef VP_ENTRY
#define VP_ENTRY harness
#endif
void VP_ENTRY(void);

bool vp_oom;
int vp_oom_at, vp_oom_n;
long vp_live;

#define LOGMAX 65536
struct shared { long n; uint64_t log[LOGMAX]; char what[512]; volatile long runs; long discards; volatile uint64_t cur; };
static struct shared *sh;
static FILE *in;
static uint64_t rng;

static uint64_t next(void)
{
	rng += 0x9E3779B97F4A7C15ull;
	uint64_t z = rng;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

uint64_t vp_input(uint64_t lo, uint64_t hi, const char *tag)
{
	uint64_t v;
	if (in) {
		unsigned long long t;
		if (fscanf(in, "%llu", &t) != 1)
			t = lo;
		v = t;
		if (v < lo || v > hi)
			vp_discard();
	} else if (!strcmp(tag, "oom")) {
		v = next() % 8 == 0;
	} else {
		uint64_t span = hi - lo;
		uint64_t r = next();
		if (span == UINT64_MAX || span > 100000) {
			uint64_t w = next();
			switch (r % 6) {
			case 0: v = lo + w % 5; break;
			case 1: v = hi - w % 5; break;
			case 2: v = w; break;
			case 3: v = w % 300; break;
			case 4: v = (w & 1) << (w % 64); break;
			default: v = (uint64_t)0 - w % 300; break;
			}
			if (v < lo || v > hi)
				v = span == UINT64_MAX ? w : lo + w % (span + 1);
		} else
			v = lo + (span + 1 ? r % (span + 1) : r);
	}
	if (sh->n < LOGMAX)
		sh->log[sh->n] = v;
	sh->n++;
	return v;
}

uint64_t vp_choice(uint64_t lo, uint64_t hi) { return vp_input(lo, hi, "choice"); }

static uint8_t pat;
void __sanitizer_print_stack_trace(void);
static void *refuse(void)
{
	if (getenv("VP_TRACE")) {
		fprintf(stderr, "allocation refused:\n");
		__sanitizer_print_stack_trace();
	}
	return NULL;
}
void *vp_malloc(size_t n)
{
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return refuse();
	if (vp_oom && vp_input(0, 1, "oom"))
		return NULL;
	void *p = malloc(n ? n : 1);
	if (p) { memset(p, pat, n); vp_live++; }
	return p;
}
void *vp_calloc(size_t n, size_t m)
{
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return refuse();
	if (vp_oom && vp_input(0, 1, "oom"))
		return NULL;
	void *p = calloc(n, m);
	if (p) vp_live++;
	return p;
}
void *vp_realloc(void *p, size_t n)
{
	if (vp_oom_at && ++vp_oom_n == vp_oom_at)
		return refuse();
	if (vp_oom && vp_input(0, 1, "oom"))
		return NULL;
	if (!p) vp_live++;
	return realloc(p, n);
}
void vp_free(void *p) { if (p) vp_live--; free(p); }

char *vp_strdup(const char *s)
{
	char *p = vp_malloc(strlen(s) + 1);
	return p ? strcpy(p, s) : NULL;
}

static jmp_buf again;
static int looping;
void vp_discard(void) { sh->discards++; if (looping) longjmp(again, 1); _exit(0); }
void vp_fail(const char *name, const char *file, int line)
{
	const char *b = strrchr(file, '/');
	snprintf(sh->what, sizeof(sh->what), "%s (%s:%d)", name, b ? b + 1 : file, line);
	_exit(97);
}
void vp_cover(const char *name) { }
void vp_exit(int rc)
{
	snprintf(sh->what, sizeof(sh->what), "the code stopped itself (BUG_ON / exit %d) on a legal input", rc);
	_exit(97);
}

static void one(uint64_t seed)
{
	rng = seed * 0x2545F4914F6CDD1Dull;
	if (!in)
		pat = (uint8_t)next();
	sh->n = 0;
	vp_oom = false;
	vp_oom_at = vp_oom_n = 0;
	vp_live = 0;
	alarm(30);
	VP_ENTRY();
}

/* run [from, from + n) in a child; 1 if it failed, and then *at is the run that did */
static int child(uint64_t from, int n)
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		volatile int i = 0;
		looping = n > 1;
		if (looping && setjmp(again))
			i++;
		for (; i < n; i++) {
			sh->cur = from + i;
			sh->runs++;
			one(from + i);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return 0;
	if (WIFSIGNALED(st))
		snprintf(sh->what, sizeof(sh->what), "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	else if (!sh->what[0])
		snprintf(sh->what, sizeof(sh->what), "sanitizer report or abnormal exit, status %d", WEXITSTATUS(st));
	return 1;
}

#ifndef VP_BATCH
#define VP_BATCH 32
#endif

/* usage: prog replay FILE | prog search FROM STEP MAXRUNS SECONDS OUT */
int main(int argc, char **argv)
{
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		static const uint8_t pats[] = { 0xA5, 0x00, 0xFF };
		for (int k = 0; k < 3; k++) {
			in = fopen(argv[2], "r");
			if (!in) { perror("open"); return 2; }
			pat = pats[k];
			if (child(1, 1)) {
				printf("REPLAY-FAILS: %s\n", sh->what);
				return 1;
			}
			fclose(in);
		}
		printf("REPLAY-PASSES%s\n", sh->discards ? " (precondition not met)" : "");
		return 0;
	}
	if (argc >= 7 && !strcmp(argv[1], "search")) {
		uint64_t from = strtoull(argv[2], NULL, 10), step = strtoull(argv[3], NULL, 10);
		long max = atol(argv[4]);
		time_t end = time(NULL) + atoi(argv[5]);
		for (uint64_t i = from; sh->runs < max && time(NULL) < end; i += step) {
			sh->what[0] = 0;
			if (child(i * VP_BATCH, VP_BATCH)) {
				uint64_t bad = sh->cur;
				char what[512];
				strcpy(what, sh->what);
				/* the same run on its own, from a fresh process */
				sh->what[0] = 0;
				if (!child(bad, 1)) {
					printf("SEARCH-ODD: %s only after earlier runs in one process (run %llu)\n", what, (unsigned long long)bad);
					continue;
				}
				FILE *o = fopen(argv[6], "w");
				for (long k = 0; k < sh->n && k < LOGMAX; k++)
					fprintf(o, "%llu\n", (unsigned long long)sh->log[k]);
				fclose(o);
				printf("SEARCH-FOUND: %s (run %ld)\n", sh->what, sh->runs);
				return 1;
			}
		}
		printf("SEARCH-NONE runs=%ld discards=%ld\n", sh->runs, sh->discards);
		return 0;
	}
	return 2;
}
