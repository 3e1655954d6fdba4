/* Runs a command and stops it at every file system operation that concerns a directory.

   fsguard DIR LOG SPEC -- CMD ARGS...

   Each operation is reported as a line of LOG: number, name, file, flags or size, and the
   state of DIR just before the operation. SPEC is "-" or a comma separated list of
   N:ACTION, where N is the operation number and ACTION is
     kill       the process is killed before the operation
     eERRNO     the operation fails with this error without being executed
     short      a write stores half of the data only
   or CLASS=ACTION for all operations of a class (create, chmod, write, rename, remove, sync).
   The process under test is stopped by seccomp user notifications, so no tracing
   privileges are needed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef __NR_fchmodat2
#define __NR_fchmodat2 452
#endif
#ifndef __NR_openat2
#define __NR_openat2 437
#endif

/* dirfd: argument with directory descriptor or -1 for cwd; path: argument with path or -1;
   fd: argument with descriptor or -1 */
struct op { int nr; const char *name; const char *cls; int dirfd, path, fd; };
static const struct op ops[] = {
	{__NR_open, "open", "open", -1, 0, -1},
	{__NR_creat, "creat", "create", -1, 0, -1},
	{__NR_openat, "openat", "open", 0, 1, -1},
	{__NR_openat2, "openat2", "open", 0, 1, -1},
	{__NR_chmod, "chmod", "chmod", -1, 0, -1},
	{__NR_fchmod, "fchmod", "chmod", -1, -1, 0},
	{__NR_fchmodat, "fchmodat", "chmod", 0, 1, -1},
	{__NR_fchmodat2, "fchmodat2", "chmod", 0, 1, -1},
	{__NR_write, "write", "write", -1, -1, 0},
	{__NR_pwrite64, "pwrite64", "write", -1, -1, 0},
	{__NR_writev, "writev", "write", -1, -1, 0},
	{__NR_copy_file_range, "copy_file_range", "write", -1, -1, 2},
	{__NR_sendfile, "sendfile", "write", -1, -1, 0},
	{__NR_splice, "splice", "write", -1, -1, 2},
	{__NR_fallocate, "fallocate", "write", -1, -1, 0},
	{__NR_truncate, "truncate", "write", -1, 0, -1},
	{__NR_ftruncate, "ftruncate", "write", -1, -1, 0},
	{__NR_rename, "rename", "rename", -1, 1, -1},
	{__NR_renameat, "renameat", "rename", 2, 3, -1},
	{__NR_renameat2, "renameat2", "rename", 2, 3, -1},
	{__NR_link, "link", "rename", -1, 1, -1},
	{__NR_linkat, "linkat", "rename", 2, 3, -1},
	{__NR_symlink, "symlink", "rename", -1, 1, -1},
	{__NR_symlinkat, "symlinkat", "rename", 1, 2, -1},
	{__NR_unlink, "unlink", "remove", -1, 0, -1},
	{__NR_unlinkat, "unlinkat", "remove", 0, 1, -1},
	{__NR_rmdir, "rmdir", "remove", -1, 0, -1},
	{__NR_mkdir, "mkdir", "create", -1, 0, -1},
	{__NR_mkdirat, "mkdirat", "create", 0, 1, -1},
	{__NR_chown, "chown", "chown", -1, 0, -1},
	{__NR_lchown, "lchown", "chown", -1, 0, -1},
	{__NR_fchown, "fchown", "chown", -1, -1, 0},
	{__NR_fchownat, "fchownat", "chown", 0, 1, -1},
	{__NR_fsync, "fsync", "sync", -1, -1, 0},
	{__NR_fdatasync, "fdatasync", "sync", -1, -1, 0},
	{__NR_read, "read", "read", -1, -1, 0},
	{__NR_pread64, "pread64", "read", -1, -1, 0},
};
#define NOPS (int)(sizeof ops / sizeof ops[0])

static int seccomp(unsigned op, unsigned flags, void *args) { return syscall(__NR_seccomp, op, flags, args); }

static int install(void)
{
	struct sock_filter f[NOPS * 2 + 8];
	int n = 0, i;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (i = 0; i < NOPS; i++) {
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ops[i].nr, 0, 1);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF);
	}
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	struct sock_fprog p = {n, f};
	return seccomp(SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &p);
}

static void die(const char *what) { perror(what); exit(125); }

static int send_fd(int s, int fd)
{
	char b = 0, c[CMSG_SPACE(sizeof(int))];
	struct iovec io = {&b, 1};
	struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	struct cmsghdr *h = CMSG_FIRSTHDR(&m);
	memset(c, 0, sizeof c);
	h = CMSG_FIRSTHDR(&m);
	h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(h), &fd, sizeof fd);
	return sendmsg(s, &m, 0) < 0 ? -1 : 0;
}

static int recv_fd(int s)
{
	char b, c[CMSG_SPACE(sizeof(int))];
	struct iovec io = {&b, 1};
	struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	int fd;
	if (recvmsg(s, &m, 0) <= 0 || !CMSG_FIRSTHDR(&m))
		return -1;
	memcpy(&fd, CMSG_DATA(CMSG_FIRSTHDR(&m)), sizeof fd);
	return fd;
}

static char dir[PATH_MAX];
static FILE *lg;

static void hex(const char *s, size_t n) { while (n--) fprintf(lg, "%02x", (unsigned char)*s++); }

/* name, type, permissions, inode, size and content of every file */
static void snapshot(void)
{
	DIR *d = opendir(dir);
	struct dirent *e;
	int first = 1;
	fprintf(lg, "[");
	while (d && (e = readdir(d))) {
		struct stat st;
		char buf[65536], path[PATH_MAX * 2];
		ssize_t n = 0;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		snprintf(path, sizeof path, "%s/%s", dir, e->d_name);
		if (lstat(path, &st))
			continue;
		fprintf(lg, "%s{\"name\":\"", first ? "" : ",");
		first = 0;
		hex(e->d_name, strlen(e->d_name));
		fprintf(lg, "\",\"mode\":%u,\"ino\":%lu,\"size\":%ld,\"nlink\":%ld,\"data\":\"", (unsigned)st.st_mode,
			(unsigned long)st.st_ino, (long)st.st_size, (long)st.st_nlink);
		if (S_ISREG(st.st_mode)) {
			int fd = open(path, O_RDONLY);
			while (fd >= 0 && (n = read(fd, buf, sizeof buf)) > 0)
				hex(buf, n);
			if (fd >= 0)
				close(fd);
		} else if (S_ISLNK(st.st_mode)) {
			n = readlink(path, buf, sizeof buf);
			if (n > 0)
				hex(buf, n);
		}
		fprintf(lg, "\"}");
	}
	if (d)
		closedir(d);
	fprintf(lg, "]");
}

static int peek(pid_t pid, unsigned long addr, void *buf, size_t n)
{
	struct iovec l = {buf, n}, r = {(void *)addr, n};
	ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
	return k;
}

static int peekstr(pid_t pid, unsigned long addr, char *buf, size_t n)
{
	size_t k = 0;
	while (k + 1 < n) {
		size_t part = 256 - ((addr + k) & 255);
		int got;
		if (part > n - 1 - k)
			part = n - 1 - k;
		got = peek(pid, addr + k, buf + k, part);
		if (got <= 0)
			return -1;
		if (memchr(buf + k, 0, got))
			return 0;
		k += got;
	}
	buf[k] = 0;
	return 0;
}

/* absolute name of the file the operation concerns */
static int subject(const struct op *o, const struct seccomp_notif *q, char *out)
{
	char link[64], base[PATH_MAX], path[PATH_MAX];
	ssize_t n;
	if (o->fd >= 0) {
		snprintf(link, sizeof link, "/proc/%d/fd/%d", q->pid, (int)q->data.args[o->fd]);
		n = readlink(link, out, PATH_MAX - 1);
		if (n < 0)
			return -1;
		out[n] = 0;
		return 0;
	}
	if (peekstr(q->pid, q->data.args[o->path], path, sizeof path))
		return -1;
	if (path[0] == '/') {
		strcpy(out, path);
		return 0;
	}
	if (o->dirfd < 0 || (int)q->data.args[o->dirfd] == AT_FDCWD)
		snprintf(link, sizeof link, "/proc/%d/cwd", q->pid);
	else
		snprintf(link, sizeof link, "/proc/%d/fd/%d", q->pid, (int)q->data.args[o->dirfd]);
	n = readlink(link, base, sizeof base - 1);
	if (n < 0)
		return -1;
	base[n] = 0;
	snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
	return 0;
}

static const char *action(const char *spec, int num, const char *cls)
{
	static char act[64];
	const char *p = spec;
	while (*p) {
		const char *e = strchr(p, ','), *c;
		size_t n = e ? (size_t)(e - p) : strlen(p);
		char item[128];
		if (n < sizeof item) {
			memcpy(item, p, n);
			item[n] = 0;
			if ((c = strchr(item, ':')) && atoi(item) == num) {
				snprintf(act, sizeof act, "%.60s", c + 1);
				return act;
			}
			if ((c = strchr(item, '=')) && strlen(cls) == (size_t)(c - item) && !memcmp(item, cls, c - item)) {
				snprintf(act, sizeof act, "%.60s", c + 1);
				return act;
			}
		}
		p += n;
		if (*p == ',')
			p++;
	}
	return NULL;
}

int main(int argc, char **argv)
{
	int sp[2], lfd, status, num = 0;
	pid_t pid;
	struct seccomp_notif_sizes sz;
	if (argc < 6)
		return 125;
	if (!realpath(argv[1], dir))
		die("realpath");
	if (!(lg = fopen(argv[2], "we")))
		die("log");
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp))
		die("socketpair");
	if (!(pid = fork())) {
		int fd;
		if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
			die("no_new_privs");
		if ((fd = install()) < 0)
			die("seccomp");
		if (send_fd(sp[1], fd))
			_exit(125);
		close(fd);
		execvp(argv[5], argv + 5);
		_exit(127);
	}
	close(sp[1]);
	if ((lfd = recv_fd(sp[0])) < 0)
		die("recv_fd");
	if (seccomp(SECCOMP_GET_NOTIF_SIZES, 0, &sz))
		die("sizes");
	struct seccomp_notif *q = malloc(sz.seccomp_notif + 512);
	struct seccomp_notif_resp *r = malloc(sz.seccomp_notif_resp + 512);
	for (;;) {
		struct pollfd pf = {lfd, POLLIN, 0};
		int i, k = poll(&pf, 1, 20);
		const struct op *o = NULL;
		char name[PATH_MAX * 2];
		const char *cls, *act;
		if (k == 0 || (pf.revents & POLLHUP && !(pf.revents & POLLIN))) {
			if (waitpid(pid, &status, WNOHANG) == pid)
				break;
			if (k)
				usleep(1000);
			continue;
		}
		memset(q, 0, sz.seccomp_notif);
		if (ioctl(lfd, SECCOMP_IOCTL_NOTIF_RECV, q)) {
			if (errno == ENOENT || errno == EINTR)
				continue;
			die("recv");
		}
		memset(r, 0, sz.seccomp_notif_resp);
		r->id = q->id;
		r->flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
		for (i = 0; i < NOPS; i++)
			if (ops[i].nr == q->data.nr)
				o = &ops[i];
		if (o && subject(o, q, name) == 0 && !strncmp(name, dir, strlen(dir)) && name[strlen(dir)] == '/') {
			long a = 0;
			cls = o->cls;
			if (o->nr == __NR_open)
				a = q->data.args[1];
			if (o->nr == __NR_openat)
				a = q->data.args[2];
			if (!strcmp(cls, "open") && (a & O_CREAT))
				cls = "create";
			num++;
			fprintf(lg, "{\"no\":%d,\"op\":\"%s\",\"cls\":\"%s\",\"file\":\"", num, o->name, cls);
			hex(name + strlen(dir) + 1, strlen(name + strlen(dir) + 1));
			act = action(argv[3], num, cls);
			fprintf(lg, "\",\"flags\":%ld,\"act\":\"%s\",\"dir\":", a, act ? act : "");
			snapshot();
			fprintf(lg, "}\n");
			fflush(lg);
			if (act && !strcmp(act, "kill")) {
				kill(pid, SIGKILL);
				waitpid(pid, &status, 0);
				break;
			}
			if (act && act[0] == 'e') {
				r->flags = 0;
				r->error = -atoi(act + 1);
			}
			if (act && !strcmp(act, "short") && o->nr == __NR_write) {
				size_t n = q->data.args[2] / 2;
				char *buf = malloc(n + 1), link[64];
				int fd;
				snprintf(link, sizeof link, "/proc/%d/fd/%d", q->pid, (int)q->data.args[0]);
				fd = open(link, O_WRONLY | O_APPEND | O_CLOEXEC);
				if (fd >= 0 && n && peek(q->pid, q->data.args[1], buf, n) == (int)n) {
					ssize_t w = write(fd, buf, n);
					r->flags = 0;
					r->val = w;
				}
				if (fd >= 0)
					close(fd);
				free(buf);
			}
		}
		if (ioctl(lfd, SECCOMP_IOCTL_NOTIF_SEND, r) && errno != ENOENT)
			die("send");
	}
	fprintf(lg, "{\"no\":0,\"exit\":%d,\"signal\":%d,\"dir\":", WIFEXITED(status) ? WEXITSTATUS(status) : -1,
		WIFSIGNALED(status) ? WTERMSIG(status) : 0);
	snapshot();
	fprintf(lg, "}\n");
	fclose(lg);
	return 0;
}
