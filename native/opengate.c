/* Runs a command; opening (and with -r reading) of files in a directory waits for decisions.

   opengate [-r] DIR FD -- CMD ARGS...

   FD is a socket. "open ID HEXNAME\n" or "read ID HEXNAME\n" is sent for each operation,
   the reply is "ID ACTION\n", ACTION is "c" (go on) or a number of an error. A file is
   opened by this process at the moment of the reply, so later changes of the directory do
   not matter. "done ID RESULT\n" is sent then. At the end of input of FD everything goes on. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef SECCOMP_FILTER_FLAG_WAIT_KILLABLE_RECV
#define SECCOMP_FILTER_FLAG_WAIT_KILLABLE_RECV (1UL << 5)
#endif

static int seccomp(unsigned op, unsigned flags, void *args) { return syscall(__NR_seccomp, op, flags, args); }
static void die(const char *what) { perror(what); exit(125); }

static int install(int reads)
{
	int nrs[] = {__NR_open, __NR_openat, __NR_read, __NR_pread64};
	struct sock_filter f[16];
	int n = 0, i, r;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (i = 0; i < (reads ? 4 : 2); i++) {
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], 0, 1);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF);
	}
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	struct sock_fprog p = {n, f};
	r = seccomp(SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER | SECCOMP_FILTER_FLAG_WAIT_KILLABLE_RECV, &p);
	if (r < 0)
		r = seccomp(SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &p);
	return r;
}

static int send_fd(int s, int fd)
{
	char b = 0, c[CMSG_SPACE(sizeof(int))];
	struct iovec io = {&b, 1};
	struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	struct cmsghdr *h;
	memset(c, 0, sizeof c);
	h = CMSG_FIRSTHDR(&m);
	h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(h), &fd, sizeof fd);
	return sendmsg(s, &m, 0) < 0 ? -1 : 0;
}

static int recv_fd(int s)
{
	char b, c[CMSG_SPACE(sizeof(int))];
	struct iovec io = {&b, 1};
	struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	int fd;
	if (recvmsg(s, &m, 0) <= 0 || !CMSG_FIRSTHDR(&m))
		return -1;
	memcpy(&fd, CMSG_DATA(CMSG_FIRSTHDR(&m)), sizeof fd);
	return fd;
}

static int peekstr(pid_t pid, unsigned long addr, char *buf, size_t n)
{
	size_t k = 0;
	while (k + 1 < n) {
		size_t part = 256 - ((addr + k) & 255);
		struct iovec l, r;
		int got;
		if (part > n - 1 - k)
			part = n - 1 - k;
		l = (struct iovec){buf + k, part};
		r = (struct iovec){(void *)(addr + k), part};
		got = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (got <= 0)
			return -1;
		if (memchr(buf + k, 0, got))
			return 0;
		k += got;
	}
	buf[k] = 0;
	return 0;
}

/* operations that wait */
#define MAX 512
static struct wait { unsigned long long id; int open, flags, mode; char name[PATH_MAX]; } *w[MAX];
static char dir[PATH_MAX];
static int lfd, ctl, orphan;

static int subject(struct seccomp_notif *q, char *out)
{
	char link[64], base[PATH_MAX], path[PATH_MAX];
	ssize_t n;
	int nr = q->data.nr;
	if (nr == __NR_read || nr == __NR_pread64) {
		snprintf(link, sizeof link, "/proc/%d/fd/%d", q->pid, (int)q->data.args[0]);
		n = readlink(link, out, PATH_MAX - 1);
		if (n < 0)
			return -1;
		out[n] = 0;
		return 0;
	}
	if (peekstr(q->pid, q->data.args[nr == __NR_openat], path, sizeof path))
		return -1;
	if (path[0] == '/') {
		strcpy(out, path);
		return 0;
	}
	if (nr == __NR_open || (int)q->data.args[0] == AT_FDCWD)
		snprintf(link, sizeof link, "/proc/%d/cwd", q->pid);
	else
		snprintf(link, sizeof link, "/proc/%d/fd/%d", q->pid, (int)q->data.args[0]);
	n = readlink(link, base, sizeof base - 1);
	if (n < 0)
		return -1;
	base[n] = 0;
	snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
	return 0;
}

static void tell(const char *what, unsigned long long id, const char *name, long res)
{
	char buf[PATH_MAX * 2 + 100];
	int n = snprintf(buf, sizeof buf, "%s %llu ", what, id);
	if (name)
		for (; *name; name++)
			n += sprintf(buf + n, "%02x", (unsigned char)*name);
	else
		n += sprintf(buf + n, "%ld", res);
	buf[n++] = '\n';
	if (send(ctl, buf, n, MSG_NOSIGNAL) != n)
		orphan = 1;
}

static void answer(unsigned long long id, const char *act)
{
	struct seccomp_notif_resp r = {.id = id, .flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE};
	struct wait *x = NULL;
	long res = 0;
	int i;
	for (i = 0; i < MAX; i++)
		if (w[i] && w[i]->id == id) {
			x = w[i];
			w[i] = NULL;
			break;
		}
	if (act[0] != 'c') {
		r.flags = 0;
		r.error = -atoi(act);
		res = r.error;
	} else if (x && x->open) {
		int fd = open(x->name, (x->flags & ~O_CREAT) | O_CLOEXEC, x->mode);
		r.flags = 0;
		if (fd < 0) {
			res = r.error = -errno;
		} else {
			struct seccomp_notif_addfd a = {.id = id, .srcfd = fd, .newfd_flags = x->flags & O_CLOEXEC};
			int n = ioctl(lfd, SECCOMP_IOCTL_NOTIF_ADDFD, &a);
			if (n < 0 && errno != ENOENT)
				die("addfd");
			r.val = n;
			res = 0;
			close(fd);
		}
	}
	if (x && !orphan)
		tell("done", id, NULL, res);
	free(x);
	if (ioctl(lfd, SECCOMP_IOCTL_NOTIF_SEND, &r) && errno != ENOENT)
		die("send");
}

int main(int argc, char **argv)
{
	int sp[2], status, reads = 0, i;
	pid_t pid;
	struct seccomp_notif_sizes sz;
	static char in[65536];
	size_t have = 0;
	if (argc > 1 && !strcmp(argv[1], "-r")) {
		reads = 1;
		argv++, argc--;
	}
	if (argc < 5 || !realpath(argv[1], dir))
		return 125;
	ctl = atoi(argv[2]);
	fcntl(ctl, F_SETFD, FD_CLOEXEC);
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp))
		die("socketpair");
	if (!(pid = fork())) {
		int fd;
		if (prctl(PR_SET_PDEATHSIG, SIGKILL) || prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || (fd = install(reads)) < 0 || send_fd(sp[1], fd))
			_exit(125);
		close(fd);
		execvp(argv[4], argv + 4);
		_exit(127);
	}
	/* standard streams belong to the program under test only */
	close(0);
	close(1);
	open("/dev/null", O_RDWR);
	open("/dev/null", O_RDWR);
	close(sp[1]);
	if ((lfd = recv_fd(sp[0])) < 0 || seccomp(SECCOMP_GET_NOTIF_SIZES, 0, &sz))
		die("listener");
	struct seccomp_notif *q = malloc(sz.seccomp_notif + 512);
	for (;;) {
		struct pollfd pf[2] = {{lfd, POLLIN, 0}, {orphan ? -1 : ctl, POLLIN, 0}};
		char name[PATH_MAX * 2];
		int k = poll(pf, 2, 20);
		if (waitpid(pid, &status, WNOHANG) == pid)
			break;
		if (k <= 0)
			continue;
		if (pf[1].revents) {
			ssize_t n = recv(ctl, in + have, sizeof in - 1 - have, 0);
			char *nl;
			if (n <= 0)
				orphan = 1;
			else
				have += n;
			in[have] = 0;
			while ((nl = strchr(in, '\n'))) {
				char *sep;
				unsigned long long id = strtoull(in, &sep, 10);
				*nl = 0;
				answer(id, sep + 1);
				have -= nl + 1 - in;
				memmove(in, nl + 1, have + 1);
			}
			if (orphan)
				for (i = 0; i < MAX; i++)
					if (w[i])
						answer(w[i]->id, "c");
		}
		if (!(pf[0].revents & POLLIN)) {
			if (pf[0].revents)
				usleep(1000);
			continue;
		}
		memset(q, 0, sz.seccomp_notif);
		if (ioctl(lfd, SECCOMP_IOCTL_NOTIF_RECV, q)) {
			if (errno == ENOENT || errno == EINTR)
				continue;
			die("recv");
		}
		if (!orphan && subject(q, name) == 0 && !strncmp(name, dir, strlen(dir)) && name[strlen(dir)] == '/') {
			for (i = 0; i < MAX && w[i]; i++)
				;
			if (i < MAX) {
				int o = q->data.nr == __NR_openat;
				w[i] = calloc(1, sizeof *w[i]);
				w[i]->id = q->id;
				w[i]->open = q->data.nr == __NR_open || o;
				w[i]->flags = q->data.args[1 + o];
				w[i]->mode = q->data.args[2 + o];
				strncpy(w[i]->name, name, PATH_MAX - 1);
				tell(w[i]->open ? "open" : "read", q->id, name + strlen(dir) + 1, 0);
				continue;
			}
		}
		answer(q->id, "c");
	}
	if (WIFSIGNALED(status))
		return 128 + WTERMSIG(status);
	return WEXITSTATUS(status);
}
