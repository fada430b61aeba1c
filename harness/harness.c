/* Whole-daemon conformance harness.
 *
 * Links the unmodified sources of /repo/preload-src (main renamed) and replaces, by symbol
 * interposition, everything outside the process: /proc, /sys, the application files, the clock
 * and the main loop's poll().  A script (argv[1]) drives the environment; at every idle point of
 * the main loop the projected state of the daemon is appended to the trace (argv[2]) as one JSON
 * line.  Nothing outside the scratch directory $H_SCR can be written.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/fs.h>
#include <glib.h>

#include "common.h"
#include "state.h"
#include "conf.h"
#include "vomm.h"
#include "exe.h"
#include "map.h"
#include "markov.h"

int preload_main (int, char **);
extern int preload_log_level;

/* ------------------------------------------------------------------ real functions */
#define REAL(ret, name, ...) \
  static ret (*p_##name)(__VA_ARGS__); \
  static inline void *r_##name (void) { if (!p_##name) p_##name = dlsym (RTLD_NEXT, #name); return (void*)p_##name; }
REAL(int, open, const char *, int, ...)
REAL(FILE*, fopen, const char *, const char *)
REAL(DIR*, opendir, const char *)
REAL(struct dirent*, readdir, DIR *)
REAL(int, closedir, DIR *)
REAL(ssize_t, readlink, const char *, char *, size_t)
REAL(int, stat, const char *, struct stat *)
REAL(int, lstat, const char *, struct stat *)
REAL(int, fstat, int, struct stat *)
REAL(int, access, const char *, int)
REAL(int, unlink, const char *)
REAL(int, rename, const char *, const char *)
REAL(ssize_t, write, int, const void *, size_t)
REAL(int, fsync, int)
REAL(int, close, int)
REAL(int, ioctl, int, unsigned long, ...)
REAL(void*, mmap, void *, size_t, int, int, int, off_t)
REAL(ssize_t, read, int, void *, size_t)
REAL(int, munmap, void *, size_t)
REAL(int, madvise, void *, size_t, int)
REAL(pid_t, fork, void)
REAL(pid_t, wait, int *)
REAL(pid_t, waitpid, pid_t, int *, int)
REAL(int, poll, struct pollfd *, nfds_t, int)
REAL(int, clock_gettime, clockid_t, struct timespec *)
#define R(name) ((r_##name()), p_##name)

/* ------------------------------------------------------------------ globals */
static int active;                 /* interposition in force */
static pid_t main_pid; static pid_t main_tid;
static char scr[512]; static size_t scrlen;      /* scratch directory */
static char stdirp[600]; static size_t stdirlen;  /* $scr/st/ */
static long long now_us = 1000LL * 1000000;
static int trace_fd = -1;
static int fork_index = 0;         /* in child: 1-based index of the fork; -1: the process a detached daemon left behind */
static int cmd_mode;               /* the arguments are the daemon's whole command line */
static int first_poll = 1;
static long long late_us;          /* the machine was asleep: by so much later than a timer the daemon goes on */
static int outstanding = 0;

/* shared event buffer */
#define EVMAX (8<<20)
struct evbuf { atomic_int len; atomic_int ncalls; atomic_int stuck; char b[EVMAX]; };
static struct evbuf *evs;

static void die (const char *m) { fprintf (stderr, "HARNESS: %s\n", m); _exit (96); }

/* JSON string escaping: bytes >= 0x7f and < 0x20 as \u00XX */
static char *jstr (char *o, const char *s)
{
  *o++ = '"';
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { *o++ = '\\'; *o++ = c; }
    else if (c < 0x20 || c >= 0x7f) o += sprintf (o, "\\u%04x", c);
    else *o++ = c;
  }
  *o++ = '"'; *o = 0;
  return o;
}

static void ev (const char *fmt, ...)
{
  static __thread char buf[16384];
  va_list ap; int n, at;
  if (!evs) return;
  va_start (ap, fmt); n = vsnprintf (buf, sizeof buf, fmt, ap); va_end (ap);
  if (n >= (int) sizeof buf) n = sizeof buf - 1;
  at = atomic_fetch_add (&evs->len, n + 1);
  if (at + n + 1 >= EVMAX) return;
  memcpy (evs->b + at, buf, n); evs->b[at + n] = ',';
}
static void ev_path (const char *name, const char *path, const char *fmt, ...)
{
  char p[8192], tail[512] = ""; va_list ap;
  char q[1024]; strncpy (q, path, sizeof q - 1); q[sizeof q - 1] = 0;
  jstr (p, q);
  if (fmt) { va_start (ap, fmt); vsnprintf (tail, sizeof tail, fmt, ap); va_end (ap); }
  ev ("[\"%s\",%s%s%s]", name, p, fmt ? "," : "", tail);
}

/* growable output buffer */
static char *ob; static size_t ol, oc;
static void obput (const char *s, size_t n)
{
  if (ol + n + 1 > oc) { oc = (ol + n + 1) * 2; ob = realloc (ob, oc); }
  memcpy (ob + ol, s, n); ol += n; ob[ol] = 0;
}
static void obf (const char *fmt, ...)
{
  char buf[4096]; va_list ap; int n;
  va_start (ap, fmt); n = vsnprintf (buf, sizeof buf, fmt, ap); va_end (ap);
  obput (buf, n);
}
static void obs (const char *s)
{
  size_t n = strlen (s);
  char *t = malloc (n * 6 + 3);
  char *e = jstr (t, s);
  obput (t, e - t); free (t);
}

/* ------------------------------------------------------------------ virtual world */
struct vproc { int pid; char *exe; char *maps; char *then; /* what a second reading between two waits finds */ int reads; int dying; struct vproc *next; };
static struct vproc *procs_;
struct vfile { char *path; char kind; /* r d n(one) e(acces) s(pecial) */ long ino; long blk; int noopen; int rafail; int nomap; struct vfile *next; };
static struct vfile *vfiles;
static char *v_meminfo, *v_vmstat, *v_stat;
static char *v_bat[16];

struct fault { char kind[8]; int nth; char act; int arg; int cnt; struct fault *next; };
static struct fault *faults;
static int opcount_kind[8]; static int opcount; static char lastop;
struct sigat { int at; int sig; int done; } sigats[32]; static int nsigats;
static int fork_fail_at[32], n_fork_fail; static int fork_calls;

static struct vproc *vp_find (int pid) { for (struct vproc *p = procs_; p; p = p->next) if (p->pid == pid) return p; return NULL; }
static struct vfile *vf_find (const char *path) { for (struct vfile *f = vfiles; f; f = f->next) if (!strcmp (f->path, path)) return f; return NULL; }
static int odd_errno (char k) { return k == 'o' ? ENAMETOOLONG : k == 'l' ? ELOOP : k == 'i' ? EIO : k == 'b' ? ESTALE : k == 'v' ? EOVERFLOW : ENOMEM; }

/* fd tags */
#define MAXFD 1024
static char *fdtag[MAXFD];        /* app file path, or NULL */
static char fdread[MAXFD];        /* 1: a descriptor the state file is read through */
static char fdstate[MAXFD];       /* 1: a descriptor on a file in the state directory */

/* within the scratch directory (which is the working directory when the command line is the script's) */
static int is_scr (const char *p) { return !strncmp (p, scr, scrlen) || (cmd_mode && p[0] != '/' && !strstr (p, "..")); }
static int is_st (const char *p) { return !strncmp (p, stdirp, stdirlen); }
/* paths of the sandbox that are left alone (read only) */
static int is_sys (const char *p)
{
  static const char *const ok[] = { "/dev/null", "/etc/localtime", "/proc/self", "/dev/urandom", "/usr/share/zoneinfo", "/usr/lib/locale", "/etc/machine-id", "/var/lib/dbus", "/usr/lib/x86_64-linux-gnu/gconv", "/usr/share/locale", "/sys/devices/system", "/proc/cpuinfo", NULL };
  for (int i = 0; ok[i]; i++) if (!strncmp (p, ok[i], strlen (ok[i]))) return 1;
  return 0;
}

static int in_tick;
static void call_point (void)
{
  if (!active || getpid () == 0) return;
  if (fork_index) return;
  if ((pid_t) syscall (SYS_gettid) != main_tid) return;
  if (in_tick) return;
  int n = atomic_fetch_add (&evs->ncalls, 1) + 1;
  for (int i = 0; i < nsigats; i++)
    if (!sigats[i].done && sigats[i].at == n) {
      sigats[i].done = 1;
      in_tick = 1; 
      ev ("[\"sig\",%d]", sigats[i].sig);
      raise (sigats[i].sig);
      in_tick = 0;
    }
}

static int memfd_with (const char *s)
{
  int fd = syscall (SYS_memfd_create, "v", MFD_CLOEXEC);
  if (fd < 0) die ("memfd");
  if (s && *s) { size_t n = strlen (s), k = 0; while (k < n) { ssize_t w = R(write) (fd, s + k, n - k); if (w <= 0) die ("memfd write"); k += w; } lseek (fd, 0, SEEK_SET); }
  return fd;
}

/* classify a path.  Returns content for virtual text files through *text. */
enum { PASS, TEXT, NOENT, APP, PROCDIR, DENY };
static int classify (const char *path, int wr, char **text)
{
  int pid, n = 0;
  *text = NULL;
  if (!active || !path) return PASS;
  if (is_scr (path)) return PASS;
  if (!wr && is_sys (path)) return PASS;
  if (wr) return DENY;
  if (!strcmp (path, "/proc") || !strcmp (path, "/proc/")) return PROCDIR;
  if (!strcmp (path, "/proc/meminfo")) { *text = v_meminfo; return v_meminfo ? TEXT : NOENT; }
  if (!strcmp (path, "/proc/vmstat")) { *text = v_vmstat; return v_vmstat ? TEXT : NOENT; }
  if (!strcmp (path, "/proc/stat")) { *text = v_stat; return v_stat ? TEXT : NOENT; }
  if (sscanf (path, "/proc/%d/maps%n", &pid, &n) == 1 && n && !path[n]) {
    struct vproc *p = vp_find (pid);
    if (!p || p->dying || !p->maps) return NOENT;
    *text = p->reads && p->then ? p->then : p->maps;
    if (p->reads && p->then && !*p->then) return NOENT;
    return TEXT;
  }
  if (sscanf (path, "/sys/class/power_supply/BAT%d/status%n", &pid, &n) == 1 && n && !path[n]) {
    if (pid < 0 || pid >= 16 || !v_bat[pid]) return NOENT;
    *text = v_bat[pid]; return TEXT;
  }
  if (!strncmp (path, "/proc/", 6) || !strncmp (path, "/sys/", 5)) return NOENT;
  if (path[0] == '/') return APP;
  return PASS;
}

static void note_read (const char *path)
{
  int pid, n = 0;
  if (!strcmp (path, "/proc/meminfo")) ev ("[\"mem\"]");
  else if (sscanf (path, "/proc/%d/maps%n", &pid, &n) == 1 && n) { struct vproc *p = vp_find (pid); if (p) p->reads++; }
  if (sscanf (path, "/proc/%d/maps%n", &pid, &n) == 1 && n) ev ("[\"maps\",%d]", pid);
  else if (!strncmp (path, "/sys/class/power_supply/", 24)) ev ("[\"bat\"]");
}

static char sfpath[700]; static void write_whole (const char *path, const char *s);
/* what somebody else puts at the temporary's name: a file, a link to another file (of either kind), a directory */
static char plant_kind; static int plant_after; static char victim[700];
static void plant (char kind)
{
  char o[720]; int sv = active; snprintf (o, sizeof o, "%s.tmp", sfpath); active = 0;
  if (kind == 'l' || kind == 'h') snprintf (victim, sizeof victim, "%svictim", scr);
  syscall (SYS_unlink, o); syscall (SYS_rmdir, o);
  if (*victim) { struct stat st; if (R(stat) (victim, &st)) write_whole (victim, "precious\n"); }
  if (kind == 'l') (void) !symlink (victim, o);
  else if (kind == 'h') (void) !link (victim, o);
  else if (kind == 'd') syscall (SYS_mkdir, o, 0755);
  else if (kind == 'r') write_whole (o, "junk");
  active = sv;
}
/* 1: no victim, or its contents are as they were */
static int victim_ok (void)
{
  char b[64]; int fd, n;
  if (!*victim) return 1;
  fd = R(open) (victim, O_RDONLY); if (fd < 0) return 0;
  n = read (fd, b, sizeof b); R(close) (fd);
  return n == 9 && !memcmp (b, "precious\n", 9);
}
/* after the operation: a real failure is recorded like an injected one (but for a name that is taken, which the daemon may deal with) */
static int save_end (int r, int tolerate)
{
  int L = atomic_load (&evs->len);
  if (r < 0 && errno != tolerate && L > 3) evs->b[L - 4] = 'e';
  static int on;               /* the daemon has met something at its name: from then on */
  if (r < 0 && errno == EEXIST) on = 1;
  if (plant_kind && on && --plant_after <= 0) { int e = errno; plant (plant_kind); plant_kind = 0; errno = e; }
  if (!plant_kind) on = 0;
  return r;
}

/* one operation of a save.  returns 0: perform; 1: fail with errno set; 2: short (n in *arg) */
static int save_op (const char *kind, const char *path, int *arg)
{
  struct fault *f; char act = 0; int a = 0;
  static const char *const kinds[] = { "open", "write", "sync", "close", "rename", "unlink", "trunc", NULL };
  int ki; for (ki = 0; kinds[ki] && strcmp (kinds[ki], kind); ki++);
  opcount++; opcount_kind[ki]++; lastop = *kind;
  for (f = faults; f; f = f->next) {
    int c = !strcmp (f->kind, "any") ? opcount : !strcmp (f->kind, kind) ? opcount_kind[ki] : 0;
    if (c && c >= f->nth && c < f->nth + f->cnt) { act = (f->act == 's' || (f->act == 'e' && f->arg == EINTR)) && ki != 1 ? 0 : f->act; a = f->arg; break; }
  }
  if (act == 'e' && a == EINTR) { act = 'i'; }   /* interrupted: only ever a write, to be done again */
  const char *base = path ? strrchr (path, '/') : NULL;
  base = base ? base + 1 : (path ? path : "");
  ev ("[\"op\",\"%s\",\"%s\",%d,\"%c\"]", kind, base, arg ? *arg : 0, act ? act : '-');
  if (!act) return 0;
  if (act == 'e' || act == 'i') { errno = a; return 1; }
  if (act == 's') { if (arg) *arg = a; return 2; }
  if (act == 'c') {               /* crash before the operation; for writes, after a bytes of it */
    if (arg) *arg = a;
    if (a > 0 && !strcmp (kind, "write")) return 3;
    evs->b[atomic_load (&evs->len)] = 0;
    goto crash;
  }
  return 0;
crash:
  ol = 0; obf ("{\"k\":\"crash\",\"now\":%lld,\"ev\":[", (now_us - 1000LL * 1000000) / 1000); { int L = atomic_load (&evs->len); obput (evs->b, L ? L - 1 : 0); } obf ("]}\n");
  { size_t k = 0; while (k < ol) { ssize_t w = R(write) (trace_fd, ob + k, ol - k); if (w <= 0) break; k += w; } }
  _exit (99);
}
/* a read of the state file (ropen, read): 0, or -1 with errno set; a short read changes *n */
static int read_op (const char *kind, size_t *n)
{
  static int c[2]; int ki = *kind == 'r' && kind[1] == 'e';
  static struct fault *of; if (of != faults) { of = faults; c[0] = c[1] = 0; }
  c[ki]++;
  for (struct fault *f = faults; f; f = f->next)
    if (!strcmp (f->kind, kind) && c[ki] >= f->nth && c[ki] < f->nth + f->cnt) {
      if (f->act == 's') { if (n && *n > (size_t) f->arg) *n = f->arg; return 0; }
      if (f->act == 'e') { ev ("[\"rd\",\"%s\",%d]", kind, f->arg); errno = f->arg; return -1; }
    }
  return 0;
}
static void crash_now (void)
{
  ol = 0; obf ("{\"k\":\"crash\",\"now\":%lld,\"ev\":[", (now_us - 1000LL * 1000000) / 1000); { int L = atomic_load (&evs->len); obput (evs->b, L ? L - 1 : 0); } obf ("]}\n");
  { size_t k = 0; while (k < ol) { ssize_t w = R(write) (trace_fd, ob + k, ol - k); if (w <= 0) break; k += w; } }
  _exit (99);
}

/* ------------------------------------------------------------------ interposed calls */
static void stuck_now (void)
{
  static const char m[] = "{\"k\":\"hang\",\"why\":\"waits for a pipe\"}\n", m2[] = "{\"k\":\"hang\",\"why\":\"a reader goes on\"}\n";
  if (atomic_load (&evs->stuck) == 2) R(write) (trace_fd, m2, sizeof m2 - 1); else R(write) (trace_fd, m, sizeof m - 1);
  _exit (97);
}
static int do_open (const char *path, int flags, mode_t mode)
{
  char *text; int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  call_point ();
  switch (classify (path, wr, &text)) {
    case PASS:
      if (active && wr && is_st (path)) {
        int un = lastop == 'u';
        if (save_op ("open", path, NULL)) return -1;
        int fd = save_end (R(open) (path, flags, mode), un ? 0 : EEXIST);
        if (fd >= 0 && fd < MAXFD) fdstate[fd] = 1;
        return fd;
      }
      if (active && !wr && is_st (path)) {
        if (read_op ("ropen", NULL)) return -1;
        int fd = R(open) (path, flags, mode);
        if (fd >= 0 && fd < MAXFD) fdread[fd] = 1;
        return fd;
      }
      return R(open) (path, flags, mode);
    case TEXT: note_read (path); return memfd_with (text);
    case NOENT: note_read (path); errno = ENOENT; return -1;
    case DENY: ev_path ("deny", path, NULL); errno = EACCES; return -1;
    case APP: {
      struct vfile *f = vf_find (path);
      ev_path ("open", path, "%d,%d", fork_index,
               ((flags & O_ACCMODE) != O_RDONLY) | (flags & O_NOATIME ? 2 : 0) | (flags & O_NOCTTY ? 4 : 0) | (flags & O_NONBLOCK ? 8 : 0));
      if (!f || f->kind == 'n') { errno = ENOENT; return -1; }
      if (f->kind == 't') { errno = ENOTDIR; return -1; }
      if (strchr ("olibvm", f->kind)) { errno = odd_errno (f->kind); return -1; }
      if (f->kind == 'e' || f->noopen) { errno = EACCES; return -1; }
      if (f->kind == 's' && !(flags & O_NONBLOCK)) {   /* a pipe: waits for a writer, for ever */
        if (fork_index) { atomic_store (&evs->stuck, 1); _exit (0); }
        stuck_now ();
      }
      int fd = memfd_with (NULL);
      if (fd < MAXFD) fdtag[fd] = f->path;
      return fd;
    }
    default: errno = EISDIR; return -1;
  }
}
int open (const char *path, int flags, ...)
{ va_list ap; mode_t m = 0; va_start (ap, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg (ap, mode_t); va_end (ap); return do_open (path, flags, m); }
int open64 (const char *path, int flags, ...)
{ va_list ap; mode_t m = 0; va_start (ap, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg (ap, mode_t); va_end (ap); return do_open (path, flags, m); }
int openat (int d, const char *path, int flags, ...)
{ va_list ap; mode_t m = 0; va_start (ap, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg (ap, mode_t); va_end (ap);
  if (d == AT_FDCWD || path[0] == '/') return do_open (path, flags, m);
  return syscall (SYS_openat, d, path, flags, m); }
int creat (const char *path, mode_t m) { return do_open (path, O_WRONLY | O_CREAT | O_TRUNC, m); }

static FILE *do_fopen (const char *path, const char *mode)
{
  int fl = strchr (mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY, fd; FILE *f; char *text;
  if (!active) return R(fopen) (path, mode);
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  if (strchr (mode, 'x')) fl |= O_EXCL;
  if (fl == O_RDONLY && classify (path, 0, &text) == PASS) return R(fopen) (path, mode);
  fd = do_open (path, fl, 0666);
  if (fd < 0) return NULL;
  f = fdopen (fd, mode);
  return f;
}
FILE *fopen (const char *path, const char *mode) { return do_fopen (path, mode); }
FILE *fopen64 (const char *path, const char *mode) { return do_fopen (path, mode); }

/* directory stream for the virtual /proc */
struct vdir { int magic; int i; int n; int *pids; struct dirent d; };
static int cmpint (const void *a, const void *b) { return *(const int*)a - *(const int*)b; }
static struct vdir *cur_vdirs[64];
DIR *opendir (const char *path)
{
  char *text; int k = classify (path, 0, &text);
  call_point ();
  if (k == PROCDIR) {
    struct vdir *v = calloc (1, sizeof *v); int n = 0;
    for (struct vproc *p = procs_; p; p = p->next) n++;
    v->pids = malloc ((n + 1) * sizeof (int));
    for (struct vproc *p = procs_; p; p = p->next) v->pids[v->n++] = p->pid;
    qsort (v->pids, v->n, sizeof (int), cmpint);
    for (int i = 0; i < 64; i++) if (!cur_vdirs[i]) { cur_vdirs[i] = v; break; }
    ev ("[\"scan\"]");
    return (DIR *) v;
  }
  if (k == PASS) return R(opendir) (path);
  errno = ENOENT; return NULL;
}
static struct vdir *vdir_of (DIR *d) { for (int i = 0; i < 64; i++) if (cur_vdirs[i] == (struct vdir *) d) return cur_vdirs[i]; return NULL; }
static const char *const extra_ents[] = { ".", "..", "self", "meminfo", "acpi", "1a", "sys" };
struct dirent *readdir (DIR *d)
{
  struct vdir *v = vdir_of (d);
  if (!v) return R(readdir) (d);
  call_point ();
  int ne = sizeof extra_ents / sizeof *extra_ents;
  memset (&v->d, 0, sizeof v->d);
  v->d.d_type = DT_DIR;
  if (v->i < ne) strcpy (v->d.d_name, extra_ents[v->i]);
  else if (v->i < ne + v->n) sprintf (v->d.d_name, "%d", v->pids[v->i - ne]);
  else return NULL;
  v->i++;
  return &v->d;
}
struct dirent64 *readdir64 (DIR *d) { return (struct dirent64 *) readdir (d); }
int closedir (DIR *d)
{
  struct vdir *v = vdir_of (d);
  if (!v) return R(closedir) (d);
  for (int i = 0; i < 64; i++) if (cur_vdirs[i] == v) cur_vdirs[i] = NULL;
  free (v->pids); free (v); return 0;
}
ssize_t readlink (const char *path, char *buf, size_t sz)
{
  int pid, n = 0;
  call_point ();
  if (active && sscanf (path, "/proc/%d/exe%n", &pid, &n) == 1 && n && !path[n]) {
    struct vproc *p = vp_find (pid);
    if (!p) { errno = ENOENT; return -1; }
    if (!p->exe) { errno = EACCES; return -1; }
    if (!*p->exe) { errno = ENOENT; return -1; }
    size_t l = strlen (p->exe); if (l > sz) l = sz;
    memcpy (buf, p->exe, l); return l;
  }
  return R(readlink) (path, buf, sz);
}
ssize_t __readlink_chk (const char *path, char *buf, size_t sz, size_t bl) { return readlink (path, buf, sz); }
ssize_t readlinkat (int d, const char *path, char *buf, size_t sz) { return readlink (path, buf, sz); }

static int fill_stat (const char *path, struct stat *st)
{
  struct vfile *f = vf_find (path);
  ev_path ("stat", path, NULL);
  if (!f || f->kind == 'n') { errno = ENOENT; return -1; }
  if (f->kind == 't') { errno = ENOTDIR; return -1; }
  if (f->kind == 'e') { errno = EACCES; return -1; }
  if (strchr ("olibvm", f->kind)) { errno = odd_errno (f->kind); return -1; }
  memset (st, 0, sizeof *st);
  st->st_ino = f->ino; st->st_blksize = 4096; st->st_size = 1 << 20; st->st_nlink = 1;
  st->st_mode = (f->kind == 'd' ? S_IFDIR : f->kind == 's' ? S_IFIFO : S_IFREG) | 0755;
  st->st_mtime = 1000;
  return 0;
}
static int do_stat (const char *path, struct stat *st, int l)
{
  char *text; call_point ();
  switch (classify (path, 0, &text)) {
    case PASS: return l ? R(lstat) (path, st) : R(stat) (path, st);
    case APP: return fill_stat (path, st);
    case TEXT: memset (st, 0, sizeof *st); st->st_mode = S_IFREG | 0444; st->st_size = 4096; return 0;
    case PROCDIR: memset (st, 0, sizeof *st); st->st_mode = S_IFDIR | 0555; return 0;
    default: errno = ENOENT; return -1;
  }
}
int stat (const char *p, struct stat *st) { return do_stat (p, st, 0); }
int stat64 (const char *p, struct stat64 *st) { return do_stat (p, (struct stat *) st, 0); }
int lstat (const char *p, struct stat *st) { return do_stat (p, st, 1); }
int lstat64 (const char *p, struct stat64 *st) { return do_stat (p, (struct stat *) st, 1); }
int fstatat (int d, const char *p, struct stat *st, int fl) {
  if (p && *p && active) return do_stat (p, st, fl & AT_SYMLINK_NOFOLLOW);
  return syscall (SYS_newfstatat, d, p, st, fl); }
int fstatat64 (int d, const char *p, struct stat64 *st, int fl) { return fstatat (d, p, (struct stat *) st, fl); }
int fstat (int fd, struct stat *st)
{
  int r = R(fstat) (fd, st);
  if (!r && active && fd >= 0 && fd < MAXFD && fdtag[fd]) { struct vfile *f = vf_find (fdtag[fd]); st->st_ino = f->ino; st->st_blksize = 4096; st->st_mode = S_IFREG | 0755; }
  return r;
}
int fstat64 (int fd, struct stat64 *st) { return fstat (fd, (struct stat *) st); }
int access (const char *p, int m)
{
  char *text; call_point ();
  switch (classify (p, 0, &text)) {
    case PASS: return R(access) (p, m);
    case APP: { struct stat st; return fill_stat (p, &st); }
    case TEXT: note_read (p); return 0;
    case PROCDIR: return 0;
    default: note_read (p); errno = ENOENT; return -1;
  }
}
int unlink (const char *p)
{
  if (!active) return R(unlink) (p);
  call_point ();
  if (!is_scr (p)) { ev_path ("deny", p, NULL); errno = EACCES; return -1; }
  if (is_st (p)) { if (save_op ("unlink", p, NULL)) return -1; return save_end (R(unlink) (p), ENOENT); }
  return R(unlink) (p);
}
int remove (const char *p) { return unlink (p); }
int unlinkat (int d, const char *p, int fl) { return unlink (p); }
int rmdir (const char *p) { ev_path ("deny", p, NULL); errno = EACCES; return -1; }
int rename (const char *a, const char *b)
{
  if (!active) return R(rename) (a, b);
  call_point ();
  if (!is_scr (a) || !is_scr (b)) { ev_path ("deny", b, NULL); errno = EACCES; return -1; }
  if (is_st (a) || is_st (b)) { if (save_op ("rename", b, NULL)) return -1; return save_end (R(rename) (a, b), 0); }
  return R(rename) (a, b);
}
int truncate (const char *p, off_t n) { ev_path ("deny", p, NULL); errno = EACCES; return -1; }
int mkdir (const char *p, mode_t m) { ev_path ("deny", p, NULL); errno = EACCES; return -1; }
#define DENIED(p) (ev_path ("deny", p, NULL), errno = EACCES, -1)
int chmod (const char *p, mode_t m) { return !active || is_scr (p) ? syscall (SYS_chmod, p, m) : DENIED (p); }
int link (const char *a, const char *b) { return !active || (is_scr (a) && is_scr (b)) ? syscall (SYS_link, a, b) : DENIED (b); }
int symlink (const char *a, const char *b) { return !active || is_scr (b) ? syscall (SYS_symlink, a, b) : DENIED (b); }
int chown (const char *p, uid_t u, gid_t g) { return DENIED (p); }
int lchown (const char *p, uid_t u, gid_t g) { return DENIED (p); }
int utimensat (int d, const char *p, const struct timespec t[2], int fl) { return DENIED (p ? p : "?"); }
int futimens (int fd, const struct timespec t[2]) { return active && fd >= 0 && fd < MAXFD && fdtag[fd] ? DENIED (fdtag[fd]) : 0; }
int fchmod (int fd, mode_t m) { return active && fd >= 0 && fd < MAXFD && fdtag[fd] ? DENIED (fdtag[fd]) : syscall (SYS_fchmod, fd, m); }
int setxattr (const char *p, const char *n, const void *v, size_t z, int f) { return DENIED (p); }
int mkfifo (const char *p, mode_t m) { return DENIED (p); }
int mknod (const char *p, mode_t m, dev_t d) { return DENIED (p); }
ssize_t write (int fd, const void *b, size_t n)
{
  if (active && fd >= 0 && fd < MAXFD && fdstate[fd] && getpid () != 0) {
    int arg = (int) n; char nm[16]; snprintf (nm, sizeof nm, "fd");
    call_point ();
    switch (save_op ("write", nm, &arg)) {
      case 1: return -1;
      case 2: if (arg > (int) n) arg = n; return R(write) (fd, b, arg);
      case 3: if (arg > (int) n) arg = n; R(write) (fd, b, arg); crash_now ();
    }
  }
  return R(write) (fd, b, n);
}
ssize_t read (int fd, void *b, size_t n)
{
  if (active && fd >= 0 && fd < MAXFD && fdread[fd]) { call_point (); if (read_op ("read", &n)) return -1; }
  return R(read) (fd, b, n);
}
ssize_t __read_chk (int fd, void *b, size_t n, size_t bl) { return read (fd, b, n); }
static int do_sync (int fd)
{
  if (active && fd >= 0 && fd < MAXFD && fdstate[fd]) { call_point (); if (save_op ("sync", "fd", NULL)) return -1; return 0; }
  return R(fsync) (fd);
}
int fsync (int fd) { return do_sync (fd); }
int fdatasync (int fd) { return do_sync (fd); }
int ftruncate (int fd, off_t n)
{
  if (active && fd >= 0 && fd < MAXFD && fdstate[fd]) { if (save_op ("trunc", "fd", NULL)) return -1; }
  return syscall (SYS_ftruncate, fd, n);
}
int ftruncate64 (int fd, off64_t n) { return ftruncate (fd, n); }
int close (int fd)
{
  if (active && fd >= 0 && fd < MAXFD) {
    if (fdstate[fd]) { call_point (); int e = save_op ("close", "fd", NULL); fdstate[fd] = 0; int r = R(close) (fd); if (e) { return -1; } return r; }
    fdtag[fd] = NULL; fdread[fd] = 0;
  }
  return R(close) (fd);
}
int ioctl (int fd, unsigned long req, ...)
{
  va_list ap; void *arg; va_start (ap, req); arg = va_arg (ap, void *); va_end (ap);
  if (active && req == FIBMAP && fd >= 0 && fd < MAXFD && fdtag[fd]) {
    struct vfile *f = vf_find (fdtag[fd]); int *b = arg;
    call_point ();
    ev_path ("fibmap", f->path, "%d", *b);
    if (f->blk < 0) { errno = EINVAL; return -1; }
    *b = f->blk ? (int) f->blk + *b : 0; return 0;
  }
  return R(ioctl) (fd, req, arg);
}
ssize_t readahead (int fd, off64_t off, size_t len)
{
  call_point ();
  if (fd >= 0 && fd < MAXFD && fdtag[fd]) {
    struct vfile *f = vf_find (fdtag[fd]);
    ev_path ("ra", f->path, "%lld,%zu,%d,%d", (long long) off, len, fork_index, f->rafail);
    if (f->rafail) { errno = f->rafail; return -1; }
    return 0;
  }
  errno = EBADF; return -1;
}
int posix_fadvise (int fd, off_t off, off_t len, int adv)
{
  if (fd >= 0 && fd < MAXFD && fdtag[fd]) ev_path ("fadv", fdtag[fd], "%lld,%lld,%d,%d", (long long) off, (long long) len, fork_index, adv);
  return 0;
}
int posix_fadvise64 (int fd, off64_t off, off64_t len, int adv) { return posix_fadvise (fd, off, len, adv); }
static struct { void *a; size_t n; char *path; long long off; } vmaps[256];
void *mmap (void *a, size_t n, int prot, int fl, int fd, off_t off)
{
  if (active && fd >= 0 && fd < MAXFD && fdtag[fd]) {
    call_point ();
    ev_path ("mmap", fdtag[fd], "%lld,%zu,%d", (long long) off, n, fork_index);
    if (vf_find (fdtag[fd])->nomap == 1 || (off & 4095)) { errno = ENODEV; return MAP_FAILED; }
    void *r = R(mmap) (NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r != MAP_FAILED) for (int i = 0; i < 256; i++) if (!vmaps[i].a) { vmaps[i].a = r; vmaps[i].n = n; vmaps[i].path = fdtag[fd]; vmaps[i].off = off; break; }
    return r;
  }
  return R(mmap) (a, n, prot, fl, fd, off);
}
void *mmap64 (void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap (a, n, prot, fl, fd, off); }
int munmap (void *a, size_t n)
{
  if (active) for (int i = 0; i < 256; i++) if (vmaps[i].a == a && a) { ev_path ("munmap", vmaps[i].path, "%zu,%d,%d", n, n == vmaps[i].n, fork_index); vmaps[i].a = NULL; }
  return R(munmap) (a, n);
}
int madvise (void *a, size_t n, int adv)
{
  if (active) for (int i = 0; i < 256; i++) if (vmaps[i].a && (char*)a >= (char*)vmaps[i].a && (char*)a < (char*)vmaps[i].a + vmaps[i].n) {
    call_point ();
    ev_path ("mad", vmaps[i].path, "%lld,%zu,%d,%d", vmaps[i].off + ((char*)a - (char*)vmaps[i].a), n, fork_index, adv);
    if (vf_find (vmaps[i].path)->nomap == 2) { errno = EIO; return -1; }
    return 0; }
  return R(madvise) (a, n, adv);
}
pid_t fork (void)
{
  if (!active) return R(fork) ();
  if (cmd_mode && first_poll) {         /* detaching: the child is the daemon from now on */
    if (n_fork_fail && fork_fail_at[0] <= 1) { errno = EAGAIN; return -1; }
    ev ("[\"detach\"]");
    fflush (NULL);
    pid_t p = R(fork) ();
    if (p == 0) { main_pid = syscall (SYS_getpid); main_tid = syscall (SYS_gettid); alarm (30); }
    else if (p > 0) fork_index = -1;
    return p;
  }
  if (fork_index > 0) { atomic_store (&evs->stuck, 2); _exit (0); }     /* a reader that starts readers: never let them multiply */
  call_point ();
  fork_calls++;
  for (int i = 0; i < n_fork_fail; i++) if (fork_fail_at[i] == fork_calls || fork_fail_at[i] == 0) { ev ("[\"forkfail\",%d]", fork_calls); errno = EAGAIN; return -1; }
  fflush (NULL);
  outstanding++;
  ev ("[\"fork\",%d,%d]", fork_calls, outstanding);
  pid_t p = R(fork) ();
  if (p == 0) { fork_index = fork_calls; alarm (20); }
  if (p < 0) outstanding--;
  return p;
}
static pid_t reaped (pid_t p) { if (active && !fork_index && atomic_load (&evs->stuck)) stuck_now (); if (active && !fork_index) { if (p > 0) { outstanding--; ev ("[\"reap\",%d]", outstanding); } else if (p < 0 && errno == ECHILD) { outstanding = 0; ev ("[\"echild\"]"); } } return p; }
static int wait_spin;
static int wait_guard (void) { if (++wait_spin > 20000) { static const char m[] = "HARNESS: wait spin\n"; R(write) (2, m, sizeof m - 1); ol = 0; obf ("{\"k\":\"hang\",\"why\":\"wait\"}\n"); R(write) (trace_fd, ob, ol); _exit (97); } return 0; }
pid_t wait (int *s) { call_point (); wait_guard (); return reaped (R(wait) (s)); }
pid_t waitpid (pid_t p, int *s, int o) { call_point (); wait_guard (); return reaped (R(waitpid) (p, s, o)); }
int nice (int n) { ev ("[\"nice\",%d]", n); return 0; }
/* the sources are compiled with syscall renamed */
long h_syscall (long nr, ...)
{
  va_list ap; long a[6]; va_start (ap, nr); for (int i = 0; i < 6; i++) a[i] = va_arg (ap, long); va_end (ap);
  if (active && nr == SYS_ioprio_set) { ev ("[\"ioprio\",%ld,%ld,%ld,%d]", a[0], a[1], a[2], fork_index); return 0; }
  if (active && nr == SYS_readahead) return readahead (a[0], a[1], a[2]);
  if (active && (nr == SYS_kill || nr == SYS_tgkill || nr == SYS_tkill)) { ev_path ("deny", "signal", NULL); errno = EPERM; return -1; }
  return syscall (nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int kill (pid_t p, int s)
{
  if (!active || p == (pid_t) syscall (SYS_getpid) || p == 4242) return syscall (SYS_kill, p == 4242 ? syscall (SYS_getpid) : p, s);
  ev_path ("deny", "signal", NULL); errno = EPERM; return -1;
}
pid_t getpid (void) { return active && !fork_index ? 4242 : (pid_t) syscall (SYS_getpid); }
pid_t setsid (void) { ev ("[\"setsid\"]"); return 1; }
int chdir (const char *p) { return 0; }
int clock_gettime (clockid_t c, struct timespec *ts)
{
  if (!active || (pid_t) syscall (SYS_gettid) != main_tid) return R(clock_gettime) (c, ts);
  call_point ();
  ts->tv_sec = now_us / 1000000; ts->tv_nsec = (now_us % 1000000) * 1000; return 0;
}
/* seconds timers with exact expiry */
guint g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return g_timeout_add_full (G_PRIORITY_DEFAULT, s > 2000000 ? 2000000000u : s * 1000, f, d, NULL); }
guint g_timeout_add_seconds_full (gint p, guint s, GSourceFunc f, gpointer d, GDestroyNotify n) { return g_timeout_add_full (p, s > 2000000 ? 2000000000u : s * 1000, f, d, n); }

/* ------------------------------------------------------------------ selected regions */
int __real_preload_readahead (preload_map_t **files, int n);
int __wrap_preload_readahead (preload_map_t **files, int n);
int __wrap_preload_readahead (preload_map_t **files, int n)
{
  for (int i = 0; i < n; i++) ev ("[\"sel\",%lld]", (long long) files[i]->seq);
  ev ("[\"racall\",%d]", n);
  int r = __real_preload_readahead (files, n);
  ev ("[\"raret\",%d]", r);
  return r;
}

/* ------------------------------------------------------------------ projection */
static void dbl (double d) { if (d != d) obf ("\"nan\""); else if (d > 1e300) obf ("\"inf\""); else if (d < -1e300) obf ("\"-inf\""); else obf ("%.17g", d); }
static int first_node;
static void node_writer (gint64 id, gint64 seq, int count, gint64 parent, gpointer u)
{ obf ("%s[%lld,%lld,%d,%lld]", first_node ? "" : ",", (long long) id, (long long) seq, count, (long long) parent); first_node = 0; }
extern size_t __sanitizer_get_current_allocated_bytes (void) __attribute__((weak));

static void strlist (char **v) { if (!v) { obf ("null"); return; } obf ("["); for (int i = 0; v[i]; i++) { if (i) obf (","); obs (v[i]); } obf ("]"); }

static int cmp_exe (const void *a, const void *b) { preload_exe_t *x = *(preload_exe_t **) a, *y = *(preload_exe_t **) b; return x->seq < y->seq ? -1 : x->seq > y->seq; }

static void project (void)
{
  GHashTableIter it; gpointer k, v; int i, j, n, c;
  obf ("\"time\":%d,\"lrt\":%lld,\"dirty\":%d", state->time, (long long) state->last_running_timestamp, !!state->dirty);
  n = g_hash_table_size (state->exes);
  preload_exe_t **ex = g_new0 (preload_exe_t *, n + 1); i = 0;
  g_hash_table_iter_init (&it, state->exes);
  while (g_hash_table_iter_next (&it, &k, &v)) ex[i++] = v;
  qsort (ex, n, sizeof *ex, cmp_exe);
  obf (",\"exes\":[");
  for (i = 0; i < n; i++) {
    preload_exe_t *e = ex[i];
    obf ("%s{\"p\":", i ? "," : ""); obs (e->path);
    obf (",\"key\":%d", g_hash_table_lookup (state->exes, e->path) == e);
    obf (",\"seq\":%lld,\"time\":%lld,\"upd\":%lld,\"size\":\"%zu\",\"rt\":%lld,\"ct\":%lld,\"ln\":", (long long) e->seq, (long long) e->time, (long long) e->update_time, e->size, (long long) e->running_timestamp, (long long) e->change_timestamp);
    dbl (e->lnprob);
    obf (",\"run\":%d,\"maps\":[", e->running_timestamp >= state->last_running_timestamp);
    for (j = 0; j < (int) e->exemaps->len; j++) { preload_exemap_t *em = g_ptr_array_index (e->exemaps, j); obf ("%s[%lld,%.6g,%d]", j ? "," : "", (long long) em->map->seq, em->prob, g_hash_table_lookup (state->maps, em->map) != NULL); }
    obf ("],\"nmk\":%d}", (int) e->markovs->len);
  }
  obf ("],\"chains\":["); c = 0;
  int bad = 0;
  for (i = 0; i < n; i++)
    for (j = 0; j < (int) ex[i]->markovs->len; j++) {
      preload_markov_t *m = g_ptr_array_index (ex[i]->markovs, j); int x, y, fa = 0, fb = 0;
      if (m->a != ex[i] && m->b != ex[i]) bad++;
      /* both members must be known applications that list the chain exactly once */
      for (x = 0; x < n; x++) { if (ex[x] == m->a) fa = 1; if (ex[x] == m->b) fb = 1; }
      if (!fa || !fb) { bad++; continue; }
      { int ca = 0, cb = 0; for (x = 0; x < (int) m->a->markovs->len; x++) ca += g_ptr_array_index (m->a->markovs, x) == m; for (x = 0; x < (int) m->b->markovs->len; x++) cb += g_ptr_array_index (m->b->markovs, x) == m; if (ca != 1 || cb != 1) bad++; }
      if (m->a != ex[i]) continue;
      obf ("%s{\"a\":%lld,\"b\":%lld,\"t\":%lld,\"st\":%d,\"ct\":%lld,\"ttl\":[", c++ ? "," : "", (long long) m->a->seq, (long long) m->b->seq, (long long) m->time, m->state, (long long) m->change_timestamp);
      for (x = 0; x < 4; x++) { if (x) obf (","); dbl (m->time_to_leave[x]); }
      obf ("],\"w\":[");
      for (x = 0; x < 4; x++) { obf ("%s[", x ? "," : ""); for (y = 0; y < 4; y++) obf ("%s%d", y ? "," : "", m->weight[x][y]); obf ("]"); }
      obf ("]}");
    }
  obf ("],\"badchains\":%d,\"maps\":[", bad);
  /* regions: the table and the sortable array must hold the same set */
  i = 0; int amiss = 0, adup = 0;
  g_hash_table_iter_init (&it, state->maps);
  while (g_hash_table_iter_next (&it, &k, &v)) {
    preload_map_t *m = k; int cnt = 0;
    for (j = 0; j < (int) state->maps_arr->len; j++) cnt += g_ptr_array_index (state->maps_arr, j) == m;
    if (!cnt) amiss++;
    if (cnt > 1) adup++;
    obf ("%s{\"p\":", i++ ? "," : ""); obs (m->path);
    obf (",\"off\":\"%zu\",\"len\":\"%zu\",\"ref\":%d,\"upd\":%lld,\"seq\":%lld,\"ln\":", m->offset, m->length, m->refcount, (long long) m->update_time, (long long) m->seq);
    dbl (m->lnprob);
    obf ("}");
  }
  obf ("],\"arr\":[%d,%d,%d]", (int) state->maps_arr->len, amiss, adup);
  obf (",\"bad\":["); i = 0;
  g_hash_table_iter_init (&it, state->bad_exes);
  while (g_hash_table_iter_next (&it, &k, &v)) { obf ("%s[", i++ ? "," : ""); obs (k); obf (",%d]", GPOINTER_TO_INT (v)); }
  obf ("],\"running\":["); i = 0;
  for (GSList *l = state->running_exes; l; l = l->next) {
    int x, f = 0; for (x = 0; x < n; x++) if (ex[x] == l->data) f = 1;
    if (f) obf ("%s%lld", i++ ? "," : "", (long long) ((preload_exe_t *) l->data)->seq); else obf ("%s-1", i++ ? "," : "");
  }
  obf ("],\"vomm\":["); first_node = 1; vomm_export_state (node_writer, NULL); obf ("]");
  obf (",\"conf\":{\"cycle\":%d,\"usecorrelation\":%d,\"minsize\":%d,\"memtotal\":%d,\"memfree\":%d,\"memcached\":%d,\"membuffers\":%d,\"doscan\":%d,\"dopredict\":%d,\"autosave\":%d,\"maxprocs\":%d,\"sortstrategy\":%d,\"mapprefix\":",
       conf->model.cycle, !!conf->model.usecorrelation, conf->model.minsize, conf->model.memtotal, conf->model.memfree, conf->model.memcached, conf->model.membuffers, !!conf->system.doscan, !!conf->system.dopredict, conf->system.autosave, conf->system.maxprocs, (int) conf->system.sortstrategy);
  strlist (conf->system.mapprefix); obf (",\"exeprefix\":"); strlist (conf->system.exeprefix);
  obf (",\"algo\":"); if (conf->system.prediction_algorithm) obs (conf->system.prediction_algorithm); else obf ("null");
  obf (",\"vomm\":%d}", !!preload_is_vomm_algorithm ());
  g_free (ex);
}

static char confpath[700], logpath[700];
static struct stat last_sf; static int have_sf = -1;

static void emit_line (void)
{
  for (struct vproc *p = procs_; p; p = p->next) p->reads = 0;
  size_t k = 0;
  obput ("\n", 1);
  while (k < ol) { ssize_t w = R(write) (trace_fd, ob + k, ol - k); if (w <= 0) _exit (96); k += w; }
}

static struct stat log0;            /* the log file before the start */
/* what was logged since the last line: messages without their time stamps */
static void log_delta (void)
{
  static int lfd = -1; static struct stat ls; static int limit; struct stat st; char *t = NULL; size_t n = 0; int k = 0, round;
  limit = 600;
  obf ("\"log\":[");
  if (R(fstat) (2, &st) == 0 && S_ISREG (st.st_mode)) {
    for (round = 0; round < 2; round++) {
      char b[65536]; ssize_t r;
      if (lfd < 0) { int x = R(open) ("/proc/self/fd/2", O_RDONLY | O_CLOEXEC); if (x < 0) break; lfd = fcntl (x, F_DUPFD_CLOEXEC, 300); R(close) (x); ls = st;
        if (log0.st_ino == st.st_ino && log0.st_dev == st.st_dev) lseek (lfd, log0.st_size, SEEK_SET); memset (&log0, 0, sizeof log0); }
      while ((r = read (lfd, b, sizeof b)) > 0) { t = realloc (t, n + r + 1); memcpy (t + n, b, r); n += r; }
      if (ls.st_ino == st.st_ino && ls.st_dev == st.st_dev) break;
      R(close) (lfd); lfd = -1;
    }
    if (t) {
      char *s = NULL; t[n] = 0;
      for (char *l = strtok_r (t, "\n", &s); l && limit-- > 0; l = strtok_r (NULL, "\n", &s)) {
        char *m = *l == '[' && (m = strstr (l, "] ")) ? m + 2 : l;
        if (strlen (m) > 8000) m[8000] = 0;
        if (k++) obf (","); obs (m);
      }
    }
  }
  obf ("],"); free (t);
}

static int pos;                     /* next script command */
static void snapshot (const char *kind)
{
  int sv = active, i, nfd = 0, L; struct stat st; DIR *d; struct dirent *e;
  active = 0;
  ol = 0;
  obf ("{\"k\":\"%s\",\"pos\":%d,\"now\":%lld,\"ncalls\":%d,\"ev\":[", kind, pos, (now_us - 1000LL * 1000000) / 1000, atomic_load (&evs->ncalls));
  L = atomic_load (&evs->len); if (L > EVMAX) die ("event overflow");
  obput (evs->b, L ? L - 1 : 0);
  obf ("],");
  for (i = 0; i < 200; i++) if (fcntl (i, F_GETFD) >= 0) nfd++;
  siginfo_t si; memset (&si, 0, sizeof si);
  int kids = waitid (P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 ? 1 : 0;
  for (int i = 0; i < 256; i++) if (vmaps[i].a) nfd++;   /* a file left mapped counts like one left open */
  obf ("\"fds\":%d,\"kids\":%d,\"heap\":%zu,\"logcur\":", nfd, kids, __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes () - oc : 0);
  { struct stat a, b; obf ("%d", R(fstat) (2, &a) == 0 && R(stat) (logpath, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev); }
  { struct stat a, b; obf (",\"vic\":%d,\"mode\":[%d,%d]", victim_ok (), R(stat) (sfpath, &a) == 0 ? (int) (a.st_mode & 07777) : -1, R(stat) (logpath, &b) == 0 ? (int) (b.st_mode & 07777) : -1); }
  obf (",\"dir\":[");
  d = R(opendir) (stdirp); i = 0;
  if (d) { while ((e = R(readdir) (d))) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) { if (i++) obf (","); obs (e->d_name); } R(closedir) (d); }
  obf ("],"); log_delta ();
  int ex = R(stat) (sfpath, &st) == 0;
  if (ex != have_sf || (ex && (st.st_ino != last_sf.st_ino || st.st_size != last_sf.st_size || st.st_mtim.tv_nsec != last_sf.st_mtim.tv_nsec || st.st_mtim.tv_sec != last_sf.st_mtim.tv_sec))) {
    have_sf = ex; if (ex) last_sf = st;
    obf ("\"sf\":");
    if (!ex) obf ("null");
    else {
      int fd = R(open) (sfpath, O_RDONLY); char *t = malloc (st.st_size + 1); ssize_t r, g = 0;
      while (fd >= 0 && g < st.st_size && (r = read (fd, t + g, st.st_size - g)) > 0) g += r;
      if (fd >= 0) R(close) (fd);
      for (r = 0; r < g; r++) if (!t[r]) t[r] = 1;
      t[g] = 0; obs (t); free (t);
    }
    obf (",");
  }
  obf ("\"st\":{"); project (); obf ("}}");
  emit_line ();
  atomic_store (&evs->len, 0); atomic_store (&evs->ncalls, 0); nsigats = 0; fork_calls = 0; n_fork_fail = 0; wait_spin = 0;
  active = sv;
}

/* ------------------------------------------------------------------ script */
static char **script; static int nscript;
static char *unpct (const char *s)
{
  char *o = malloc (strlen (s) + 1), *q = o;
  for (; *s; s++) { if (*s == '%' && s[1] && s[2]) { char h[3] = { s[1], s[2], 0 }; *q++ = (char) strtol (h, NULL, 16); s += 2; } else if (*s != '%') *q++ = *s; }
  *q = 0; return o;
}
static int signum (const char *s)
{
  if (!strcmp (s, "HUP")) return SIGHUP;
  if (!strcmp (s, "USR1")) return SIGUSR1;
  if (!strcmp (s, "USR2")) return SIGUSR2;
  if (!strcmp (s, "TERM")) return SIGTERM;
  if (!strcmp (s, "INT")) return SIGINT;
  if (!strcmp (s, "QUIT")) return SIGQUIT;
  if (!strcmp (s, "PIPE")) return SIGPIPE;
  die ("signal name"); return 0;
}
static void write_whole (const char *path, const char *s)
{
  int sv = active; active = 0;
  int fd = R(open) (path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) die ("write_whole"); R(write) (fd, s, strlen (s)); R(close) (fd);
  active = sv;
}

/* run commands until one that lets the daemon go on; returns 1: advance, 2: signal raised */
static int run_script (int *sig)
{
  while (pos < nscript) {
    char *l = strdup (script[pos]); char *a[10] = {0}; int n = 0; char *s = NULL;
    pos++;
    for (char *t = strtok_r (l, " ", &s); t && n < 10; t = strtok_r (NULL, " ", &s)) a[n++] = t;
    if (!n) { free (l); continue; }
    if (!strcmp (a[0], "adv")) { free (l); return 1; }
    if (!strcmp (a[0], "sig")) { *sig = signum (a[1]); free (l); return 2; }
    if (!strcmp (a[0], "sigs")) { for (int i = 1; i < n - 1; i++) { ev ("[\"sig\",%d]", signum (a[i])); raise (signum (a[i])); } *sig = signum (a[n - 1]); free (l); return 2; }
    if (!strcmp (a[0], "end")) _exit (98);
    if (!strcmp (a[0], "proc")) {
      struct vproc *p = vp_find (atoi (a[1]));
      if (!p) { p = calloc (1, sizeof *p); p->pid = atoi (a[1]); p->next = procs_; procs_ = p; } else { free (p->exe); free (p->maps); free (p->then); p->maps = p->then = NULL; p->dying = 0; }
      p->exe = !strcmp (a[2], "-") ? NULL : !strcmp (a[2], "+") ? strdup ("") : unpct (a[2]);
      p->maps = strdup ("");
    } else if (!strcmp (a[0], "pm")) {
      struct vproc *p = vp_find (atoi (a[1])); char *x = unpct (a[2]);
      p->maps = realloc (p->maps, strlen (p->maps) + strlen (x) + 2); strcat (p->maps, x); strcat (p->maps, "\n"); free (x);
    } else if (!strcmp (a[0], "then")) {
      struct vproc *p = vp_find (atoi (a[1]));
      if (!p->then) p->then = strdup ("");
      if (n > 2) { char *x = unpct (a[2]); p->then = realloc (p->then, strlen (p->then) + strlen (x) + 2); strcat (p->then, x); strcat (p->then, "\n"); free (x); }
    } else if (!strcmp (a[0], "kill")) {
      struct vproc **q = &procs_; while (*q && (*q)->pid != atoi (a[1])) q = &(*q)->next;
      if (*q) { struct vproc *p = *q; *q = p->next; free (p->exe); free (p->maps); free (p->then); free (p); }
    } else if (!strcmp (a[0], "dying")) { struct vproc *p = vp_find (atoi (a[1])); if (p) p->dying = 1;
    } else if (!strcmp (a[0], "file")) {  /* file PATH kind ino blk noopen rafail nomap */
      char *p = unpct (a[1]); struct vfile *f = vf_find (p);
      if (!f) { f = calloc (1, sizeof *f); f->path = p; f->next = vfiles; vfiles = f; } else free (p);
      f->kind = a[2][0]; f->ino = a[3] ? atol (a[3]) : 0; f->blk = a[4] ? atol (a[4]) : 0; f->noopen = a[5] ? atoi (a[5]) : 0; f->rafail = a[6] ? atoi (a[6]) : 0; f->nomap = a[7] ? atoi (a[7]) : 0;
    } else if (!strcmp (a[0], "mem")) { free (v_meminfo); v_meminfo = !strcmp (a[1], "-") ? NULL : unpct (a[1]);
    } else if (!strcmp (a[0], "vmstat")) { free (v_vmstat); v_vmstat = !strcmp (a[1], "-") ? NULL : unpct (a[1]);
    } else if (!strcmp (a[0], "pstat")) { free (v_stat); v_stat = !strcmp (a[1], "-") ? NULL : unpct (a[1]);
    } else if (!strcmp (a[0], "bat")) { int i = atoi (a[1]); free (v_bat[i]); v_bat[i] = !strcmp (a[2], "-") ? NULL : unpct (a[2]);
    } else if (!strcmp (a[0], "conf")) { if (!strcmp (a[1], "-")) { int sv = active; active = 0; R(unlink) (confpath); active = sv; } else { char *x = unpct (a[1]); write_whole (confpath, x); free (x); }
    } else if (!strcmp (a[0], "rotlog")) { char o[720]; snprintf (o, sizeof o, "%s.%d", logpath, pos); int sv = active; active = 0; R(rename) (logpath, o); active = sv;
    } else if (!strcmp (a[0], "staletmp")) { /* staletmp [kind [after n operations]] */
      char k = a[1] ? a[1][0] : 'r'; int n = a[1] && a[2] ? atoi (a[2]) : 0;
      if (n) { plant_kind = k; plant_after = n; } else plant (k);
    } else if (!strcmp (a[0], "fault")) {  /* fault kind nth act arg cnt */
      struct fault *f = calloc (1, sizeof *f); strncpy (f->kind, a[1], 7); f->nth = atoi (a[2]); f->act = a[3][0]; f->arg = atoi (a[4]); f->cnt = a[5] ? atoi (a[5]) : 1; f->next = faults; faults = f; opcount = 0; memset (opcount_kind, 0, sizeof opcount_kind);
    } else if (!strcmp (a[0], "late")) { late_us = atoll (a[1]) * 1000000;
    } else if (!strcmp (a[0], "nofault")) { faults = NULL;
    } else if (!strcmp (a[0], "sigat")) { sigats[nsigats].at = atoi (a[1]); sigats[nsigats].sig = signum (a[2]); sigats[nsigats].done = 0; nsigats++;
    } else if (!strcmp (a[0], "forkfail")) { fork_fail_at[n_fork_fail++] = atoi (a[1]);
    } else if (!strcmp (a[0], "mv")) { int sv = active; active = 0; R(rename) (a[1], a[2]); active = sv;
    } else if (!strcmp (a[0], "putf")) { char *x = unpct (a[2]); write_whole (a[1], x); free (x);
    } else if (!strcmp (a[0], "probe")) { for (int k = 1; k <= 5; k++) g_log (NULL, 4 << k, "probe %s %d", a[1], k);
    } else if (!strcmp (a[0], "sigchld")) { signal (SIGCHLD, SIG_IGN);
    } else die (script[pos - 1]);
    free (l);
  }
  _exit (98);
}

/* ------------------------------------------------------------------ the main loop's poll */
static int zero_polls; static int npolls;
int poll (struct pollfd *fds, nfds_t n, int timeout)
{
  int r, sig = 0;
  if (active && fork_index > 0) { atomic_store (&evs->stuck, 2); _exit (0); }       /* a reader that has become a daemon */
  if (!active || fork_index || (pid_t) syscall (SYS_gettid) != main_tid) return R(poll) (fds, n, timeout);
  if (atomic_load (&evs->stuck)) stuck_now ();
  if (!first_poll && timeout == 0) {
    if (++zero_polls > 20000) { ol = 0; obf ("{\"k\":\"hang\",\"why\":\"spin\"}"); emit_line (); _exit (97); }
    return R(poll) (fds, n, 0);
  }
  if (!first_poll) {
    r = R(poll) (fds, n, 0);
    if (r != 0) { if (++zero_polls > 20000) { ol = 0; obf ("{\"k\":\"hang\",\"why\":\"spin\"}"); emit_line (); _exit (97); } return r; }
  }
  zero_polls = 0;
  alarm (20);
  snapshot (first_poll ? "load" : "idle");
  first_poll = 0;
  switch (run_script (&sig)) {
    case 1:
      if (timeout > 0) { if (timeout > 400000000) die ("no timer"); now_us += (long long) timeout * 1000 + late_us; late_us = 0; }
      else if (timeout < 0) { ol = 0; obf ("{\"k\":\"hang\",\"why\":\"notimer\"}"); emit_line (); _exit (97); }
      return 0;
    case 2:
      if (late_us && timeout > 0) { now_us += (long long) timeout * 1000 + late_us; late_us = 0; }      /* and time has gone by */
      ev ("[\"sig\",%d]", sig);
      in_tick = 1; raise (sig); in_tick = 0;
      r = R(poll) (fds, n, 0);
      if (!r && n) r = R(poll) (fds, n, 5);
      if (r > 0) return r;
      errno = EINTR; return -1;
  }
  return 0;
}
int ppoll (struct pollfd *fds, nfds_t n, const struct timespec *t, const sigset_t *s)
{ return poll (fds, n, t ? (int) (t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }

static void on_alarm (int s) { static const char m[] = "{\"k\":\"hang\",\"why\":\"alarm\"}\n"; if (!fork_index) R(write) (trace_fd, m, sizeof m - 1); _exit (97); }
static void at_exit (int code, void *u)
{
  if (fork_index || !active) return;
  active = 0; ol = 0;
  obf ("{\"k\":\"exit\",\"code\":%d,\"pos\":%d,\"now\":%lld,\"ev\":[", code, pos, (now_us - 1000LL * 1000000) / 1000);
  { int L = atomic_load (&evs->len); obput (evs->b, L ? L - 1 : 0); }
  obf ("],"); log_delta (); ol--; obf ("}"); emit_line ();
}
const char *__asan_default_options (void);
const char *__asan_default_options (void) { return "detect_leaks=0:exitcode=95:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:intercept_send=0"; }

int main (int argc, char **argv)
{
  FILE *f; char *line = NULL; size_t cap = 0; ssize_t n;
  if (argc < 3 || !getenv ("H_SCR")) die ("usage: H_SCR=dir harness script trace [daemon args]");
  snprintf (scr, sizeof scr, "%s/", getenv ("H_SCR")); scrlen = strlen (scr);
  snprintf (stdirp, sizeof stdirp, "%sst/", scr); stdirlen = strlen (stdirp);
  snprintf (sfpath, sizeof sfpath, "%sstate", stdirp); snprintf (confpath, sizeof confpath, "%sconf", scr); snprintf (logpath, sizeof logpath, "%slog", scr);
  evs = R(mmap) (NULL, sizeof *evs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (evs == MAP_FAILED) die ("mmap");
  f = R(fopen) (argv[1], "r"); if (!f) die ("script");
  while ((n = getline (&line, &cap, f)) > 0) { if (line[n - 1] == '\n') line[n - 1] = 0; script = realloc (script, (nscript + 1) * sizeof *script); script[nscript++] = strdup (line); }
  fclose (f);
  { int t = R(open) (argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644); trace_fd = fcntl (t, F_DUPFD_CLOEXEC, 200); R(close) (t); }
  if (trace_fd < 0) die ("trace");
  for (int i = 3; i < 30; i++) if (i != trace_fd) R(close) (i);
  umask (0);
  main_pid = syscall (SYS_getpid); main_tid = syscall (SYS_gettid);
  signal (SIGALRM, on_alarm); alarm (30);
  on_exit (at_exit, NULL);
  if (R(stat) (logpath, &log0)) memset (&log0, 0, sizeof log0);
  char **av = calloc (argc + 16, sizeof *av); int ac = 0;
  cmd_mode = getenv ("H_CMD") != NULL;
  av[ac++] = "preload";
  if (!cmd_mode) {
  av[ac++] = "-f";
  av[ac++] = "-c"; av[ac++] = getenv ("H_NOCONF") ? "" : confpath; av[ac++] = "-s"; av[ac++] = sfpath; av[ac++] = "-l"; av[ac++] = logpath;
  }
  for (int i = 3; i < argc; i++) av[ac++] = argv[i];
  /* environment commands up to the first line "go" are executed before the daemon starts */
  { int sig; int i; for (i = 0; i < nscript; i++) if (!strcmp (script[i], "go")) break;
    if (i < nscript) { script[i] = "adv"; run_script (&sig); } }
  active = 1;
  return preload_main (ac, av);
}
