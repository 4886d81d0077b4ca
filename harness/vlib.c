/* Calls the library's helpers one by one and reports what they return.
   One command per line on stdin; the answer is one line of JSON, then ".".
     scratch <dir>                    all files are below it
     time <t>|real                    what the clock says
     call <function> <arg> ..         texts in hex, "-" for empty, "!" for NULL; numbers in decimal; lists with commas
     par <threads> <rounds> <n>       the next n calls, made by several threads at once; one line per distinct result
     log <mode f|e|b> <file> <op> ..  a process that logs; see logrun()                                            */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "string_utils.h"
#include "file_utils.h"
#include "json_utils.h"
#include "conf_parser.h"
#include "http_utils.h"
#include "log.h"

/* ---- what surrounds the library ------------------------------------------------------------------------------ */
static char scratch[512] = "/nonexistent";
static long clock_at = -1;
static int escaped;

static int inside(const char *p)
{
	char full[8192];
	if (!p) return 0;
	if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
	else { if (!getcwd(full, 4000)) return 0; strcat(full, "/"); strncat(full, p, 4000); }
	size_t n = strlen(scratch);
	if (strncmp(full, scratch, n) || (full[n] != '/' && full[n])) return 0;
	return strstr(full, "/../") == NULL;
}
#define CONTAIN(p, r) do { if (!inside(p)) { __atomic_fetch_add(&escaped, 1, __ATOMIC_SEQ_CST); errno = EACCES; return r; } } while (0)

FILE *vl_fopen(const char *p, const char *m) { if (strpbrk(m, "wa+")) CONTAIN(p, NULL); return fopen(p, m); }
int vl_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) CONTAIN(p, -1);
	return open(p, fl, mode);
}
FILE *vl_fopen64(const char *p, const char *m) { return vl_fopen(p, m); }
int vl_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return vl_open(p, fl, mode); }
int vl_creat(const char *p, mode_t m) { CONTAIN(p, -1); return creat(p, m); }
int vl_remove(const char *p) { CONTAIN(p, -1); return remove(p); }
int vl_unlink(const char *p) { CONTAIN(p, -1); return unlink(p); }
int vl_rmdir(const char *p) { CONTAIN(p, -1); return rmdir(p); }
int vl_mkdir(const char *p, mode_t m) { CONTAIN(p, -1); return mkdir(p, m); }
int vl_truncate(const char *p, off_t n) { CONTAIN(p, -1); return truncate(p, n); }
int vl_rename(const char *a, const char *b) { CONTAIN(a, -1); CONTAIN(b, -1); return rename(a, b); }
time_t vl_time(time_t *t) { time_t r = clock_at >= 0 ? clock_at : time(NULL); if (t) *t = r; return r; }
int vl_gettimeofday(struct timeval *tv, void *z)
{
	int r = gettimeofday(tv, z);
	if (clock_at >= 0) tv->tv_sec = clock_at;
	return r;
}
int vl_clock_gettime(clockid_t c, struct timespec *ts)
{
	int r = clock_gettime(c, ts);
	if (clock_at >= 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) ts->tv_sec = clock_at;
	return r;
}

/* ---- text ---------------------------------------------------------------------------------------------------- */
typedef struct { char *p; size_t n, cap; } buf_t;
static void put(buf_t *b, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int k = vsnprintf(NULL, 0, f, ap);
	va_end(ap);
	if (b->n + k + 1 > b->cap) { b->cap = (b->n + k + 1) * 2; b->p = realloc(b->p, b->cap); }
	va_start(ap, f);
	vsnprintf(b->p + b->n, k + 1, f, ap);
	va_end(ap);
	b->n += k;
}
static void puthex(buf_t *b, const void *d, size_t n)
{
	if (b->n + 2 * n + 3 > b->cap) { b->cap = (b->n + 2 * n + 3) * 2; b->p = realloc(b->p, b->cap); }
	static const char H[] = "0123456789abcdef";
	char *p = b->p + b->n;
	*p++ = '"';
	for (size_t i = 0; i < n; i++) { unsigned char c = ((const unsigned char *)d)[i]; *p++ = H[c >> 4]; *p++ = H[c & 15]; }
	*p++ = '"';
	*p = 0;
	b->n += 2 * n + 2;
}
static void putstr(buf_t *b, const char *s) { if (s) puthex(b, s, strlen(s)); else put(b, "\"!\""); }

/* an argument: bytes with a terminator, in a block of exactly that size */
static char *arg(const char *h, size_t *len)
{
	if (!h || !strcmp(h, "!")) { if (len) *len = 0; return NULL; }
	if (!strcmp(h, "-")) h = "";
	size_t n = strlen(h) / 2;
	char *r = malloc(n + 1);
	for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r[i] = v; }
	r[n] = 0;
	if (len) *len = n;
	return r;
}
static char **list(const char *h, int *n)
{
	*n = 0;
	char **r = calloc(1, sizeof *r);
	if (!strcmp(h, "none")) return r;
	char *c = strdup(h), *rest = NULL;
	for (char *t = strtok_r(c, ",", &rest); t; t = strtok_r(NULL, ",", &rest))
	{
		r = realloc(r, (*n + 2) * sizeof *r);
		r[(*n)++] = arg(t, NULL);
		r[*n] = NULL;
	}
	free(c);
	return r;
}
static void freelist(char **l, int n) { for (int i = 0; i < n; i++) free(l[i]); free(l); }

/* ---- configuration files ------------------------------------------------------------------------------------- */
static __thread buf_t *confout;
static void putitem(buf_t *b, conf_item *it)
{
	put(b, "{\"key\":"); putstr(b, it->key);
	put(b, ",\"value\":"); putstr(b, it->value);
	put(b, ",\"multi\":[");
	for (int i = 0; i < it->n_multivalues && i < _CONF_MAX_MULTI_ELEMENTS; i++) { if (i) put(b, ","); putstr(b, it->multivalue[i]); }
	put(b, "],\"n\":%d}", it->n_multivalues);
}
static int confitem(void *output, conf_item *it)
{
	buf_t *b = output;
	if (b->n && b->p[b->n - 1] == '}') put(b, ",");
	putitem(b, it);
	return 0;
}
/* items: key:value:m1;m2;..  separated by commas */
typedef struct { char *path; const char *spec; } conf_in;
static char *field(char **s, char sep)
{
	char *r = *s, *e = r ? strchr(r, sep) : NULL;
	if (e) { *e = 0; *s = e + 1; } else *s = NULL;
	return r;
}
static serializable *confser(void *in)
{
	conf_in *c = in;
	conf_item *items[64];
	int n = 0;
	char *spec = strdup(c->spec), *rest = spec;
	while (rest && strcmp(c->spec, "none"))
	{
		char *it = field(&rest, ',');
		char *k = arg(field(&it, ':'), NULL), *v = arg(field(&it, ':'), NULL);
		char *mv[64];
		int m = 0;
		while (it && *it) mv[m++] = arg(field(&it, ';'), NULL);
		items[n++] = new_conf_item_with_values(k, v, mv, m);
		for (int i = 0; i < m; i++) free(mv[i]);
		free(k); free(v);
	}
	free(spec);
	return new_serializable(strdup(c->path), items, n);
}

/* ---- JSON ---------------------------------------------------------------------------------------------------- */
static char *entity(void *o) { return strdup((char *)o); }

/* ---- calls --------------------------------------------------------------------------------------------------- */
static void inpath(char *out, const char *name)
{
	char *n = arg(name, NULL);
	snprintf(out, 4096, "%s/%s", scratch, n);
	free(n);
}

static void call(char *line, buf_t *b)
{
	char *a[12] = {0}, *rest = NULL;
	int n = 0;
	for (char *t = strtok_r(line, " \n", &rest); t && n < 12; t = strtok_r(NULL, " \n", &rest)) a[n++] = t;
	char *f = a[0];
	char path[4096];
	put(b, "{\"r\":");
	if (!strcmp(f, "split") || !strcmp(f, "split_once"))
	{
		char *s = arg(a[1], NULL), *d = arg(a[2], NULL);
		str_list_t *l = f[5] ? split_once(s, d) : split(s, d);
		put(b, "[");
		for (int i = 0; i < l->n_str; i++) { if (i) put(b, ","); putstr(b, l->strings[i]); }
		put(b, "]");
		free_str_list_t(l);
		put(b, ",\"in\":"); putstr(b, s);
		free(s); free(d);
	}
	else if (!strcmp(f, "join"))
	{
		int k;
		char **l = list(a[1], &k), *d = arg(a[2], NULL), *r = join(l, k, d);
		putstr(b, r);
		if (r && *r) free(r);
		freelist(l, k); free(d);
	}
	else if (!strcmp(f, "trim")) { char *s = arg(a[1], NULL); trim(s); putstr(b, s); free(s); }
	else if (!strcmp(f, "chop")) { char *s = arg(a[1], NULL); chop_string(s); putstr(b, s); free(s); }
	else if (!strcmp(f, "rtrim")) { char *s = arg(a[1], NULL), *r = rtrim(s, atoi(a[2])); putstr(b, r); free(r); free(s); }
	else if (!strcmp(f, "startswith")) { char *s = arg(a[1], NULL), *p = arg(a[2], NULL); put(b, "%d", startswith(s, p)); free(s); free(p); }
	else if (!strcmp(f, "startswithany"))
	{
		int k;
		char *s = arg(a[1], NULL), **l = list(a[2], &k);
		l[k] = "";
		put(b, "%d", startswithany(s, (const char **)l));
		freelist(l, k); free(s);
	}
	else if (!strcmp(f, "find"))
	{
		size_t sl;
		char *s = arg(a[1], &sl), *p = arg(a[2], NULL);
		/* the text without terminator: nothing behind it may be looked at */
		long from = atol(a[3]), bytes = atol(a[4]);
		char *x = malloc(bytes ? bytes : 1);
		memcpy(x, s, bytes);
		put(b, "%ld", text_find_after(x, p, from, bytes));
		free(x); free(s); free(p);
	}
	else if (!strcmp(f, "alnum")) { char *s = arg(a[1], NULL); put(b, "%d", string_isalnum(s)); free(s); }
	else if (!strcmp(f, "md5"))
	{
		size_t sl;
		char *s = arg(a[1], &sl), *out = malloc(36);
		md5sum(out, s, sl);
		putstr(b, out);
		free(out); free(s);
	}
	else if (!strcmp(f, "jstrings")) { int k; char **l = list(a[1], &k), *r = json_array_of_strings(l, k); putstr(b, r); free(r); freelist(l, k); }
	else if (!strcmp(f, "jnull")) { char *r = json_array_of_strings(NULL, atoi(a[1])); putstr(b, r); free(r); }
	else if (!strcmp(f, "jentities"))
	{
		int k;
		char **l = list(a[1], &k);
		json_list_t jl = {.size = k, .serializer = entity, .elements = (void **)l};
		char *r = json_array_of_entities(jl);
		putstr(b, r);
		free(r); freelist(l, k);
	}
	else if (!strcmp(f, "jints"))
	{
		int k = 0, *v = malloc(sizeof(int));
		char *r2 = NULL;
		if (strcmp(a[1], "none"))
			for (char *t = strtok_r(a[1], ",", &r2); t; t = strtok_r(NULL, ",", &r2)) { v = realloc(v, (k + 1) * sizeof(int)); v[k++] = strtol(t, NULL, 10); }
		char *r = json_array_of_ints(v, k);
		putstr(b, r);
		free(r); free(v);
	}
	else if (!strcmp(f, "jkv")) { char *k = arg(a[1], NULL), *v = arg(a[2], NULL), *r = json_key_value(k, v); putstr(b, r); free(r); free(k); free(v); }
	else if (!strcmp(f, "jint")) { char *k = arg(a[1], NULL), *r = json_key_value_int(k, (int)strtol(a[2], NULL, 10)); putstr(b, r); free(r); free(k); }
	else if (!strcmp(f, "jbool")) { char *k = arg(a[1], NULL), *r = json_key_value_bool(k, atoi(a[2])); putstr(b, r); free(r); free(k); }
	else if (!strcmp(f, "juint")) { char *k = arg(a[1], NULL), *r = json_key_value_uint32_t(k, (uint32_t)strtoul(a[2], NULL, 10)); putstr(b, r); free(r); free(k); }
	else if (!strcmp(f, "jerror"))
	{
		char *c = arg(a[1], NULL), *m = arg(a[2], NULL);
		wayuu_error_t *e = new_error_with_values(c, m);
		char *r = wayuu_error_t_json_serializer(e);
		putstr(b, r);
		free(r); free(e); free(c); free(m);
	}
	else if (!strcmp(f, "jresult"))
	{
		char *t = arg(a[2], NULL), *d = arg(a[3], NULL), *x = arg(a[4], NULL);
		call_response_t c = {.status = atoi(a[1]), .additional_info = x};
		snprintf(c.text, sizeof c.text, "%s", t);
		snprintf(c.description, sizeof c.description, "%s", d);
		char *r = return_response(c);
		putstr(b, r);
		free(r); free(t); free(d); free(x);
	}
	else if (!strcmp(f, "cparse"))
	{
		/* file with this content; flags: key/multi with commas */
		size_t cl;
		char *c = arg(a[2], &cl);
		inpath(path, a[1]);
		if (c) { FILE *o = fopen(path, "w"); fwrite(c, 1, cl, o); fclose(o); free(c); }
		key_flags kf = {.size = 0};
		char *fl = a[3];
		while (fl && strcmp(a[3], "none")) { char *it = field(&fl, ','); char *k = field(&it, '/'); kf.flags[kf.size].key = arg(k, NULL); kf.flags[kf.size++].is_multi = atoi(it); }
		buf_t items = {0};
		put(&items, "%s", "");
		int r = parse(path, confitem, &items, kf);
		put(b, "%d,\"items\":[%s]", r, items.p);
		free(items.p);
		for (int i = 0; i < kf.size; i++) free(kf.flags[i].key);
	}
	else if (!strcmp(f, "cwrite"))
	{
		inpath(path, a[1]);
		conf_in in = {path, a[2]};
		int r = write_conf(&in, confser);
		put(b, "%d,\"x\":", r);
		FILE *o = fopen(path, "r");
		static __thread char cont[1 << 20];
		size_t k = o ? fread(cont, 1, sizeof cont, o) : 0;
		if (o) fclose(o);
		puthex(b, cont, k);
	}
	else if (!strcmp(f, "cshow"))
	{
		conf_in in = {arg(a[1], NULL), a[2]};
		serializable *c = confser(&in);
		char *r = serializable_to_string(c);
		putstr(b, r);
		free(r); free_serializable(c);
		free(in.path);
	}
	else if (!strcmp(f, "cline"))
	{
		char *s = arg(a[1], NULL);
		conf_item *it = conf_parse_line(s, atoi(a[2]));
		put(b, "%d,\"items\":[", it ? 0 : -1);
		if (it) { putitem(b, it); free_conf_item(it); }
		put(b, "],\"in\":"); putstr(b, s);
		free(s);
	}
	else if (!strcmp(f, "write"))
	{
		size_t sl;
		char *s = arg(a[2], &sl), *x = malloc(sl ? sl : 1);
		memcpy(x, s, sl);
		inpath(path, a[1]);
		write_file(path, x, sl);
		put(b, "0");
		free(s); free(x);
	}
	else if (!strcmp(f, "read"))
	{
		inpath(path, a[1]);
		long max = atol(a[2]), cap = max;
		struct stat st;
		if (!max) cap = stat(path, &st) || !S_ISREG(st.st_mode) ? 1 : st.st_size + 1;
		char *out = malloc(cap);
		memset(out, 0xAA, cap);
		read_file(out, path, max);
		puthex(b, out, cap);
		free(out);
	}
	else if (!strcmp(f, "isfile")) { inpath(path, a[1]); put(b, "%d", is_file(path)); }
	else if (!strcmp(f, "isdir")) { inpath(path, a[1]); put(b, "%d", is_dir(path)); }
	else if (!strcmp(f, "mkdir")) { inpath(path, a[1]); put(b, "%d", check_createdir(path)); }
	else if (!strcmp(f, "infile")) { char *s = arg(a[2], NULL); inpath(path, a[1]); put(b, "%d", find_in_file(path, s)); free(s); }
	else if (!strcmp(f, "stamp")) { char *s = format_ts_common_log(); putstr(b, s); free(s); }
	else put(b, "\"unknown\"");
	put(b, ",\"esc\":%d}", __atomic_load_n(&escaped, __ATOMIC_SEQ_CST));
}

/* ---- several threads ----------------------------------------------------------------------------------------- */
static char **plines;
static int pn, prounds, pthreads;
static struct { char **v; int n; } *pres;
static pthread_mutex_t pmx = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t pbar;
static void *pworker(void *x)
{
	long me = (long)x;
	pthread_barrier_wait(&pbar);
	for (int r = 0; r < prounds; r++)
		for (int k = 0; k < pn; k++)
		{
			int i = (k + me * 7 + r) % pn;
			char *l = strdup(plines[i]);
			buf_t b = {0};
			call(l, &b);
			pthread_mutex_lock(&pmx);
			int j;
			for (j = 0; j < pres[i].n; j++) if (!strcmp(pres[i].v[j], b.p)) break;
			if (j == pres[i].n && j < 20) { pres[i].v = realloc(pres[i].v, (j + 1) * sizeof(char *)); pres[i].v[pres[i].n++] = strdup(b.p); }
			pthread_mutex_unlock(&pmx);
			free(b.p); free(l);
		}
	return NULL;
}

/* ---- logging ------------------------------------------------------------------------------------------------- */
/* ops: L<n> set level, E<n> ask, T<t> clock, M<level>:<format>:<text>:<number> message, P<threads>:<count>:<level> messages of several threads,
   A<threads>:<count> as P, with every level and long texts */
#define ONE(F, ...) switch (lv) { case 0: ln = __LINE__; log_trace(F, ##__VA_ARGS__); break; case 1: ln = __LINE__; log_debug(F, ##__VA_ARGS__); break; \
	case 2: ln = __LINE__; log_info(F, ##__VA_ARGS__); break; case 3: ln = __LINE__; log_warn(F, ##__VA_ARGS__); break; \
	case 4: ln = __LINE__; log_error(F, ##__VA_ARGS__); break; case 5: ln = __LINE__; report(__LINE__); log_fatal(F, ##__VA_ARGS__); break; }
static int reportfd;
static void report(int ln) { dprintf(reportfd, "%d,", ln); }
static void say(int lv, int fmt, const char *s, int d)
{
	int ln = 0;
	switch (fmt)
	{
	case 0: ONE("%s", s) break;
	case 1: ONE("%d", d) break;
	case 2: ONE("a %s, %d%% of <%s>", s, d, s) break;
	case 3: ONE("plain") break;
	case 4: ONE("%c|%s", s[0] ? s[0] : '.', s) break;
	}
	report(ln);
}
static struct { int count, lv; } lpar;
static void *lworker(void *x)
{
	pthread_barrier_wait(&pbar);
	for (int i = 0; i < lpar.count; i++)
	{
		int lv = lpar.lv >= 0 ? lpar.lv : (i % 5);
		switch (lv)
		{
		case 0: log_trace("t%ld m%d end", (long)x, i); break;
		case 1: log_debug("t%ld m%d end", (long)x, i); break;
		case 2: log_info("t%ld m%d end", (long)x, i); break;
		case 3: log_warn("t%ld m%d end", (long)x, i); break;
		case 4: log_error("t%ld m%d end", (long)x, i); break;
		}
	}
	return NULL;
}
static void logrun(char *line)
{
	char *rest = NULL, path[4096];
	char *mode = strtok_r(line, " \n", &rest);
	inpath(path, strtok_r(NULL, " \n", &rest));
	int p[2];
	pipe(p);
	fflush(stdout);
	time_t t0 = time(NULL);
	pid_t pid = fork();
	if (!pid)
	{
		close(p[0]);
		reportfd = p[1];
		if (*mode == 'f') log_set_file(path);
		else if (*mode == 'e') { int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, 2); }
		else { log_set_file("/nonexistent-folder/x"); _exit(0); }
		for (char *op = strtok_r(NULL, " \n", &rest); op; op = strtok_r(NULL, " \n", &rest))
		{
			if (*op == 'L') log_set_level(atoi(op + 1));
			else if (*op == 'E') report(log_level_is_enabled(atoi(op + 1)));
			else if (*op == 'T') clock_at = atol(op + 1);
			else if (*op == 'M')
			{
				char *r = op + 1;
				int lv = atoi(field(&r, ':')), fm = atoi(field(&r, ':'));
				char *s = arg(field(&r, ':'), NULL);
				say(lv, fm, s, atoi(r));
				free(s);
			}
			else if (*op == 'P')
			{
				char *r = op + 1;
				int nt = atoi(field(&r, ':'));
				lpar.count = atoi(field(&r, ':'));
				lpar.lv = atoi(r);
				pthread_t th[64];
				pthread_barrier_init(&pbar, NULL, nt);
				for (long i = 0; i < nt; i++) pthread_create(&th[i], NULL, lworker, (void *)i);
				for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
			}
		}
		_exit(0); /* a message is in the log when the call returns, whatever happens to the process then */
	}
	close(p[1]);
	buf_t rep = {0};
	put(&rep, "%s", "");
	char tmp[4096];
	ssize_t k;
	while ((k = read(p[0], tmp, sizeof tmp - 1)) > 0) { tmp[k] = 0; put(&rep, "%s", tmp); }
	close(p[0]);
	int st;
	waitpid(pid, &st, 0);
	printf("{\"status\":%d,\"signal\":%d,\"t0\":%ld,\"t1\":%ld,\"rep\":[%s-1],\"file\":\"%s\",\"x\":", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, (long)t0, (long)time(NULL), rep.p, __FILE__);
	buf_t b = {0};
	put(&b, "%s", "");
	FILE *f = fopen(path, "r");
	static char cont[1 << 22];
	size_t n = f ? fread(cont, 1, sizeof cont, f) : 0;
	if (f) fclose(f);
	puthex(&b, cont, n);
	printf("%s}\n.\n", b.p);
	free(b.p); free(rep.p);
}

int main()
{
	char *line = NULL;
	size_t cap = 0;
	while (getline(&line, &cap, stdin) > 0)
	{
		if (!strncmp(line, "scratch ", 8)) { line[strcspn(line, "\n")] = 0; snprintf(scratch, sizeof scratch, "%s", line + 8); }
		else if (!strncmp(line, "time ", 5)) clock_at = strncmp(line + 5, "real", 4) ? atol(line + 5) : -1;
		else if (!strncmp(line, "root ", 5) || !strncmp(line, "quit", 4)) { if (*line == 'q') break; }
		else if (!strncmp(line, "call ", 5))
		{
			buf_t b = {0};
			call(line + 5, &b);
			printf("%s\n.\n", b.p);
			free(b.p);
		}
		else if (!strncmp(line, "log ", 4)) logrun(line + 4);
		else if (!strncmp(line, "par ", 4))
		{
			sscanf(line + 4, "%d %d %d", &pthreads, &prounds, &pn);
			plines = calloc(pn, sizeof(char *));
			pres = calloc(pn, sizeof *pres);
			for (int i = 0; i < pn; i++) { getline(&line, &cap, stdin); plines[i] = strdup(line + (strncmp(line, "call ", 5) ? 0 : 5)); }
			pthread_t th[64];
			pthread_barrier_init(&pbar, NULL, pthreads);
			for (long i = 0; i < pthreads; i++) pthread_create(&th[i], NULL, pworker, (void *)i);
			for (int i = 0; i < pthreads; i++) pthread_join(th[i], NULL);
			for (int i = 0; i < pn; i++)
				for (int j = 0; j < pres[i].n; j++) printf("{\"i\":%d,\"v\":%s}\n", i, pres[i].v[j]);
			printf(".\n");
			for (int i = 0; i < pn; i++) { for (int j = 0; j < pres[i].n; j++) free(pres[i].v[j]); free(pres[i].v); free(plines[i]); }
			free(pres); free(plines);
		}
		fflush(stdout);
	}
	fflush(stdout);
	_exit(0);
}
