/* Driver of the native replay: values from a file, or a seeded stream. */
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

void VF_ENTRY(void);

static unsigned long long *vals;
static size_t nvals, pos;
static int random_mode;
static unsigned long long rng, seed, iter;
static jmp_buf env;

static unsigned long long
splitmix(void)
{
	unsigned long long z = (rng += 0x9e3779b97f4a7c15ull);

	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

int vf_random(void) { return random_mode; }

unsigned long long
vf_next(void)
{
	if (random_mode) {
		unsigned long long v = splitmix();

		switch (v & 7) {
		case 0: return (v >> 8) & 3;
		case 1: return (v >> 8) & 0xff;
		case 2: return ~(unsigned long long)((v >> 8) & 3);
		case 3: return (v >> 8) & 0xffffffffu;
		default: return v >> 3;
		}
	}
	if (pos >= nvals)
		return 0;
	return vals[pos++];
}

void
vf_fail(const char *msg, const char *file, int line)
{
	fprintf(stderr, "VF-FAILED: %s (%s:%d)\n", msg, file, line);
	if (random_mode)
		fprintf(stderr, "VF-SEED: %llu\n", seed + iter);
	fflush(NULL);
	_exit(1);
}

void
vf_skip(void)
{
	longjmp(env, 1);
}

static void
on_death(void)
{
	if (random_mode) {
		char b[64];
		int n = snprintf(b, sizeof(b), "VF-SEED: %llu\n", seed + iter);
		(void)!write(2, b, (size_t)n);
	}
}

void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

int
main(int argc, char *argv[])
{
	if (__sanitizer_set_death_callback)
		__sanitizer_set_death_callback(on_death);
	if (argc == 3 && strcmp(argv[1], "-v") == 0) {
		FILE *f = fopen(argv[2], "r");
		unsigned long long v;

		if (f == NULL)
			return 2;
		while (fscanf(f, "%llu", &v) == 1) {
			vals = realloc(vals, (nvals + 1) * sizeof(*vals));
			vals[nvals++] = v;
		}
		fclose(f);
		if (setjmp(env)) {
			fprintf(stderr, "VF-SKIP: values outside the precondition\n");
			return 77;
		}
		VF_ENTRY();
		fprintf(stderr, "VF-OK\n");
		return 0;
	}
	if (argc == 5 && strcmp(argv[1], "-r") == 0) {
		/* -r SEED ITERATIONS SECONDS */
		volatile unsigned long long n = strtoull(argv[3], NULL, 10);
		time_t end = time(NULL) + atoi(argv[4]);
		volatile unsigned long long done = 0;

		random_mode = 1;
		seed = strtoull(argv[2], NULL, 10);
		for (iter = 0; iter < n && time(NULL) < end; iter++) {
			rng = (seed + iter) * 0x2545f4914f6cdd1dull;
			if (setjmp(env))
				continue;
			VF_ENTRY();
			done++;
		}
		fprintf(stderr, "VF-OK %llu runs\n", (unsigned long long)done);
		return 0;
	}
	return 2;
}
