// Exhaustive enumeration of timestamps against an independent calendar.
//   time_mc days FROM TO      every day of these years x shapes x zones
//   time_mc offsets           every offset +-00:00..+-99:99
//   time_mc clock             every second of days of interest
//   time_mc local FROM TO STEP  every STEP seconds of local time in $TZ, and all seconds near every change of offset
//   time_mc shapes PART NPARTS  every shape x every single-byte change
//   time_mc epoch             @seconds
//   time_mc cmp               timespec arithmetic
#include "xtime.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

static long long n, nbad;
static void bad(const char *s, int ret, long long got, const char *want) {
	if (++nbad <= 5) printf("BAD '%s' gives %s%lld (errno %d), not %s\n", s, ret ? "an error, " : "", got, ret ? errno : 0, want);
}
static void expect(const char *s, int ok, long long want) {
	struct timespec ts = {-12345, -1};
	errno = 0;
	int ret = xgetdate(s, &ts);
	++n;
	char w[64];
	if (ok ? (ret != 0 || ts.tv_sec != want || ts.tv_nsec != 0) : ret == 0) {
		if (ok) snprintf(w, sizeof w, "%lld", want); else strcpy(w, "an error");
		bad(s, ret, ts.tv_sec, w);
	}
}
// Days since the epoch of a civil date (no use of the C library)
static long long civil(long long y, int m, int d) {
	y -= m <= 2;
	long long era = (y >= 0 ? y : y - 399) / 400;
	unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
static int mlen(int y, int m) {
	return m == 2 ? 28 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) : 30 + ((m + (m >= 8)) & 1);
}

static void days(int from, int to) {
	char s[64];
	long long t = civil(from, 1, 1);
	for (int y = from; y < to; ++y) for (int m = 1; m <= 12; ++m) for (int d = 1; d <= mlen(y, m); ++d, ++t) {
		if (t != civil(y, m, d)) { printf("BAD harness calendar\n"); exit(1); }
		long long b = t * 86400;
		snprintf(s, sizeof s, "%04d-%02d-%02dT00:00:00Z", y, m, d); expect(s, 1, b);
		snprintf(s, sizeof s, "%04d%02d%02dT235959Z", y, m, d); expect(s, 1, b + 86399);
		snprintf(s, sizeof s, "%04d-%02d-%02d 12:34Z", y, m, d); expect(s, 1, b + 12 * 3600 + 34 * 60);
		snprintf(s, sizeof s, "%04d-%02d-%02dT07+14:00", y, m, d); expect(s, 1, b - 7 * 3600);
		snprintf(s, sizeof s, "%04d%02d%02d 170102-1145", y, m, d); expect(s, 1, b + 17 * 3600 + 62 + 11 * 3600 + 45 * 60);
		// TZ=UTC0
		snprintf(s, sizeof s, "%04d-%02d-%02d", y, m, d); expect(s, 1, b);
		snprintf(s, sizeof s, "%04d%02d%02d", y, m, d); expect(s, 1, b);
		snprintf(s, sizeof s, "%04d-%02d-%02dT23", y, m, d); expect(s, 1, b + 23 * 3600);
		snprintf(s, sizeof s, "%04d-%02d-%02dT09:41", y, m, d); expect(s, 1, b + 9 * 3600 + 41 * 60);
		snprintf(s, sizeof s, "%04d-%02d-%02d 19:08:51", y, m, d); expect(s, 1, b + 19 * 3600 + 8 * 60 + 51);
	}
}

static void offsets(void) {
	char s[64];
	static const struct { int y, m, d, h, mi, se; } at[] = {{1970, 1, 1, 0, 0, 0}, {1969, 12, 31, 23, 59, 59}, {2000, 2, 29, 12, 0, 1}, {2038, 1, 19, 3, 14, 8}, {1, 1, 1, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}};
	for (unsigned a = 0; a < sizeof at / sizeof *at; ++a) {
		long long b = civil(at[a].y, at[a].m, at[a].d) * 86400 + at[a].h * 3600 + at[a].mi * 60 + at[a].se;
		for (int sg = 0; sg < 2; ++sg) for (int h = 0; h < 100; ++h) for (int mi = -1; mi < 60; ++mi) for (int c = 0; c < (mi < 0 ? 1 : 2); ++c) {
			int k = snprintf(s, sizeof s, "%04d-%02d-%02dT%02d:%02d:%02d%c%02d", at[a].y, at[a].m, at[a].d, at[a].h, at[a].mi, at[a].se, "+-"[sg], h);
			if (mi >= 0) snprintf(s + k, sizeof s - k, "%s%02d", c ? ":" : "", mi);
			long long o = h * 3600 + (mi > 0 ? mi * 60 : 0);
			expect(s, 1, sg ? b + o : b - o);
		}
	}
}

static void clockmode(void) {
	char s[64];
	static const int at[][3] = {{1970, 1, 1}, {1969, 12, 31}, {2024, 2, 29}, {1900, 2, 28}, {2100, 3, 1}};
	for (unsigned a = 0; a < sizeof at / sizeof *at; ++a) {
		long long b = civil(at[a][0], at[a][1], at[a][2]) * 86400;
		for (int t = 0; t < 86400; ++t) {
			int h = t / 3600, m = t / 60 % 60, e = t % 60;
			for (int c = 0; c < 4; ++c) for (int z = 0; z < 2; ++z) {
				snprintf(s, sizeof s, "%04d-%02d-%02d%s%02d%s%02d%s%02d%s", at[a][0], at[a][1], at[a][2], c & 1 ? "T" : " ", h, c & 2 ? ":" : "", m, c & 2 ? ":" : "", e, z ? "Z" : "");
				expect(s, 1, b + t);
			}
		}
	}
}

static void local1(time_t t, const char *fmt, int drop) {
	char s[64];
	struct tm tm;
	if (!localtime_r(&t, &tm)) return;
	if (tm.tm_year + 1900 < 0 || tm.tm_year + 1900 > 9999) return;
	if (drop >= 1 && tm.tm_sec) return;
	if (drop >= 2 && tm.tm_min) return;
	if (drop >= 3 && tm.tm_hour) return;
	snprintf(s, sizeof s, fmt, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
	struct timespec ts = {-12345, -1};
	errno = 0;
	int ret = xgetdate(s, &ts);
	++n;
	if (ret == 0 && ts.tv_sec == t && ts.tv_nsec == 0) return;
	// The other reading of an ambiguous local time is as good
	struct tm tm2;
	if (ret == 0 && ts.tv_nsec == 0 && localtime_r(&ts.tv_sec, &tm2) && tm2.tm_year == tm.tm_year && tm2.tm_mon == tm.tm_mon && tm2.tm_mday == tm.tm_mday && tm2.tm_hour == tm.tm_hour && tm2.tm_min == tm.tm_min && tm2.tm_sec == tm.tm_sec) return;
	char w[64]; snprintf(w, sizeof w, "%lld (TZ=%s)", (long long)t, getenv("TZ")); bad(s, ret, ts.tv_sec, w);
}
static void localat(time_t t) {
	local1(t, "%04d-%02d-%02dT%02d:%02d:%02d", 0);
	local1(t, "%04d%02d%02d %02d%02d%02d", 0);
	local1(t, "%04d-%02d-%02d %02d:%02d", 1);
	local1(t, "%04d-%02d-%02dT%02d", 2);
	local1(t, "%04d-%02d-%02d", 3);
	local1(t, "%04d%02d%02d", 3);
}
static void local(long long from, long long to, long long step) {
	tzset();
	long prev = 0; int have = 0;
	for (time_t t = from; t < to; t += step) {
		localat(t);
		struct tm tm; localtime_r(&t, &tm);
		if (have && tm.tm_gmtoff != prev) for (time_t u = t - step - 3; u <= t + 3; ++u) localat(u);
		prev = tm.tm_gmtoff; have = 1;
	}
	for (time_t t = -100000; t <= 100000; ++t) localat(t);
}

// The reference grammar.  -> 1 and the fields (local if *z == 0), or 0
struct ref { int y, mo, d, h, mi, s, local, off; };
static int digits(const char **p, int k, int *v) {
	*v = 0;
	while (k--) { if (**p < '0' || **p > '9') return 0; *v = *v * 10 + *(*p)++ - '0'; }
	return 1;
}
static int isdig(char c) { return c >= '0' && c <= '9'; }
static int refparse(const char *p, struct ref *r) {
	memset(r, 0, sizeof *r); r->local = 1;
	if (!digits(&p, 4, &r->y)) return 0;
	if (*p == '-') ++p;
	if (!digits(&p, 2, &r->mo)) return 0;
	if (*p == '-') ++p;
	if (!digits(&p, 2, &r->d)) return 0;
	if (!*p) return 1;
	if (*p == 'T' || *p == ' ') ++p;
	if (!digits(&p, 2, &r->h)) return 0;
	if (*p == ':' || isdig(*p)) {
		if (*p == ':') ++p;
		if (!digits(&p, 2, &r->mi)) return 0;
		if (*p == ':' || isdig(*p)) {
			if (*p == ':') ++p;
			if (!digits(&p, 2, &r->s)) return 0;
		}
	}
	if (!*p) return 1;
	r->local = 0;
	if (*p == 'Z') return p[1] == 0;
	if (*p != '+' && *p != '-') return 0;
	int sg = *p++ == '-' ? -1 : 1, h, m = 0;
	if (!digits(&p, 2, &h)) return 0;
	if (*p) { if (*p == ':') ++p; if (!digits(&p, 2, &m)) return 0; }
	r->off = sg * (h * 60 + m) * 60;
	return *p == 0;
}
static void check(const char *s) {
	struct ref r;
	if (s[0] == '@') return;
	if (!refparse(s, &r)) { expect(s, 0, 0); return; }
	if (r.mo < 1 || r.mo > 12 || r.d < 1 || r.d > mlen(r.y, r.mo) || r.h > 23 || r.mi > 59 || r.s > 59) {
		struct timespec ts; xgetdate(s, &ts); ++n; return;	// what an impossible date means is not specified
	}
	expect(s, 1, civil(r.y, r.mo, r.d) * 86400 + r.h * 3600 + r.mi * 60 + r.s - r.off);	// TZ=UTC0
}
static void shapes(int part, int nparts) {
	static const char *const ds[] = {"", "-"}, *const ts[] = {"T", " ", ""}, *const cs[] = {"", ":"}, *const zs[] = {"", "Z", "+07", "-0330", "+05:45", "-00", "+00:00", "-1200"};
	static const char *const f[][6] = {{"1991", "12", "14", "10", "11", "12"}, {"2000", "02", "29", "00", "00", "00"}, {"0001", "01", "01", "23", "59", "59"}, {"9999", "12", "31", "01", "02", "03"}};
	char s[64], u[64]; int k = 0;
	for (int w = 0; w < 4; ++w) for (int a = 0; a < 4; ++a) for (int len = 0; len < 4; ++len) for (int t = 0; t < (len ? 3 : 1); ++t) for (int c1 = 0; c1 < (len > 1 ? 2 : 1); ++c1) for (int c2 = 0; c2 < (len > 2 ? 2 : 1); ++c2) for (int z = 0; z < 8; ++z) {
		if (k++ % nparts != part) continue;
		strcpy(s, f[w][0]); strcat(s, ds[a & 1]); strcat(s, f[w][1]); strcat(s, ds[a >> 1]); strcat(s, f[w][2]);
		if (len) { strcat(s, ts[t]); strcat(s, f[w][3]); }
		if (len > 1) { strcat(s, cs[c1]); strcat(s, f[w][4]); }
		if (len > 2) { strcat(s, cs[c2]); strcat(s, f[w][5]); }
		strcat(s, zs[z]);
		check(s);
		int l = strlen(s);
		for (int i = 0; i <= l; ++i) {
			memcpy(u, s, i); u[i] = 0; check(u);	// a prefix
			memcpy(u, s, i); strcpy(u + i, s + i + (i < l)); check(u);	// a byte left out
			for (int c = 1; c < 256; ++c) {
				if (i < l) { strcpy(u, s); u[i] = c; check(u); }	// a byte changed
				memcpy(u, s, i); u[i] = c; strcpy(u + i + 1, s + i); check(u);	// a byte added
			}
			for (int j = i + 1; j < l; ++j) { memcpy(u, s, i); memcpy(u + i, s + i + 1, j - i - 1); strcpy(u + j - 1, s + j + 1); check(u); }	// two left out
		}
	}
}

static void epoch(void) {
	char s[64];
	static const long long v[] = {0, 1, -1, 59, 86399, 86400, -86400, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 253402300799LL, 253402300800LL, 9223372036854775807LL, -9223372036854775807LL - 1};
	for (unsigned i = 0; i < sizeof v / sizeof *v; ++i) for (long long d = -3; d <= 3; ++d) {
		if ((d > 0 && v[i] > 9223372036854775807LL - d) || (d < 0 && v[i] < -9223372036854775807LL - 1 - d)) continue;
		snprintf(s, sizeof s, "@%lld", v[i] + d); expect(s, 1, v[i] + d);
		char u[70];
		for (int c = 1; c < 256; ++c) {
			if (c >= '0' && c <= '9') continue;
			snprintf(u, sizeof u, "%s%c", s, c); expect(u, 0, 0);
			if (c != '+' && c != '-' && c != ' ' && !(c >= 9 && c <= 13)) { snprintf(u, sizeof u, "@%c%s", c, s + 1); expect(u, 0, 0); }
			if (c != '@') { snprintf(u, sizeof u, "%c%s", c, s); if (u[0] == '@') continue; expect(u, 0, 0); }
		}
	}
	for (long long t = -200000; t <= 200000; ++t) { snprintf(s, sizeof s, "@%lld", t); expect(s, 1, t); }
	static const char *const no[] = {"@", "@-", "@+", "@@1", "@9223372036854775808", "@-9223372036854775809", "@99999999999999999999", "@1.5", "@1 ", "@0x10", "@1e3", "@--1", "@now", "", "now", "1", "0", "-1", "+1"};
	for (unsigned i = 0; i < sizeof no / sizeof *no; ++i) expect(no[i], 0, 0);
}

static void cmp(void) {
	static const long long S[] = {-9223372036854775807LL - 1, -2, -1, 0, 1, 2, 1LL << 31, (1LL << 32) + 1, 9223372036854775807LL};
	static const long N[] = {0, 1, 2, 499999999, 500000000, 999999998, 999999999};
	struct timespec v[63]; int k = 0;
	for (int i = 0; i < 9; ++i) for (int j = 0; j < 7; ++j) v[k++] = (struct timespec){.tv_sec = S[i], .tv_nsec = N[j]};
	for (int i = 0; i < 63; ++i) for (int j = 0; j < 63; ++j) {
		int c = timespec_cmp(&v[i], &v[j]), w = (i > j) - (i < j);	// v is in ascending order
		++n;
		struct timespec a = v[i], b = v[i];
		timespec_min(&a, &v[j]); timespec_max(&b, &v[j]);
		const struct timespec *lo = &v[i < j ? i : j], *hi = &v[i < j ? j : i];
		if ((c > 0) - (c < 0) != w || a.tv_sec != lo->tv_sec || a.tv_nsec != lo->tv_nsec || b.tv_sec != hi->tv_sec || b.tv_nsec != hi->tv_nsec)
			bad("timespec comparison", 0, c, "as ordered");
		if (v[i].tv_sec > -5 && v[i].tv_sec < 5 && v[j].tv_sec > -5 && v[j].tv_sec < 5) {
			a = v[i]; timespec_add(&a, &v[j]); b = a; timespec_sub(&b, &v[j]);
			long long x = v[i].tv_sec * 1000000000LL + v[i].tv_nsec + v[j].tv_sec * 1000000000LL + v[j].tv_nsec;
			++n;
			if (a.tv_sec * 1000000000LL + a.tv_nsec != x || a.tv_nsec < 0 || a.tv_nsec >= 1000000000 || b.tv_sec != v[i].tv_sec || b.tv_nsec != v[i].tv_nsec) bad("timespec addition", 0, i, "exact");
		}
	}
}

int main(int argc, char **argv) {
	const char *m = argv[1];
	if (!strcmp(m, "days")) days(atoi(argv[2]), atoi(argv[3]));
	else if (!strcmp(m, "offsets")) offsets();
	else if (!strcmp(m, "clock")) clockmode();
	else if (!strcmp(m, "local")) local(atoll(argv[2]), atoll(argv[3]), atoll(argv[4]));
	else if (!strcmp(m, "shapes")) shapes(atoi(argv[2]), atoi(argv[3]));
	else if (!strcmp(m, "epoch")) epoch();
	else if (!strcmp(m, "cmp")) cmp();
	printf("N %lld %lld\n", n, nbad);
	return 0;
}
