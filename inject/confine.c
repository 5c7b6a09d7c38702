/* LD_PRELOAD: from the start of the program on, every system call by which it could affect anything
 * but its standard output and standard error, or take anything from standard input, ends it with
 * status 97 and a line "confined: ..." on standard error.  (Status 98: the kernel does not allow
 * such a filter to be installed.)
 *
 * Files may be opened for reading.  Opening the program's own standard output or standard error by
 * name gives a duplicate.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <ucontext.h>
#include <unistd.h>

#define MAGIC 0x52c5a1cL

static void say(const char *text) {
    syscall(SYS_write, 2, text, strlen(text));
}

#if defined(__x86_64__)

static const struct { int nr; const char *name; } always[] = {
#define N(x) {SYS_##x, #x}
    N(creat), N(openat2), N(mkdir), N(mkdirat), N(rmdir), N(unlink), N(unlinkat), N(rename), N(renameat), N(renameat2),
    N(link), N(linkat), N(symlink), N(symlinkat), N(mknod), N(mknodat), N(chmod), N(fchmod), N(fchmodat), N(chown),
    N(fchown), N(lchown), N(fchownat), N(utime), N(utimes), N(utimensat), N(futimesat), N(setxattr), N(lsetxattr),
    N(fsetxattr), N(removexattr), N(lremovexattr), N(fremovexattr), N(truncate), N(ftruncate), N(fallocate), N(flock),
    N(socket), N(connect), N(bind), N(listen), N(accept), N(accept4), N(fork), N(vfork), N(execve), N(execveat),
    N(kill), N(tkill), N(rt_sigqueueinfo), N(rt_tgsigqueueinfo), N(pidfd_open), N(pidfd_send_signal), N(ptrace),
    N(process_vm_writev), N(mount), N(umount2), N(pivot_root), N(chroot), N(sethostname), N(setdomainname),
    N(clock_settime), N(settimeofday), N(adjtimex), N(clock_adjtime), N(reboot), N(swapon), N(swapoff), N(syslog),
    N(init_module), N(finit_module), N(delete_module), N(shmget), N(shmat), N(shmctl), N(semget), N(semctl), N(msgget), N(msgsnd),
    N(msgctl), N(mq_open), N(mq_unlink), N(add_key), N(request_key), N(keyctl), N(bpf), N(io_uring_setup), N(io_setup),
    N(inotify_add_watch), N(fanotify_init), N(perf_event_open), N(userfaultfd), N(setns), N(unshare), N(quotactl), N(acct), N(vhangup),
    N(name_to_handle_at), N(open_by_handle_at), N(sync), N(syncfs), N(vmsplice), N(setpriority), N(ioprio_set),
#undef N
};
enum { N_ALWAYS = sizeof always / sizeof *always };

static long raw(long nr, long a, long b, long c, long d) { return syscall(nr, a, b, c, d, 0L, MAGIC); }

static void end(const char *what, const char *detail, long flags) {
    char line[700];
    snprintf(line, sizeof line, "confined: %s %.500s (%lo)\n", what, detail, (unsigned long)flags);
    say(line);
    syscall(SYS_exit_group, 97);
}

/* 1 or 2 if the name is that of standard output or standard error, 0 for standard input and the
 * terminal, else -1. */
static int own(const char *path) {
    static const char *const names[] = {"/dev/stdin", "/dev/stdout", "/dev/stderr"};
    for (int i = 0; i < 3; i++) {
        char s[32];
        if (!strcmp(path, names[i])) return i;
        snprintf(s, sizeof s, "/proc/self/fd/%d", i);
        if (!strcmp(path, s)) return i;
        snprintf(s, sizeof s, "/dev/fd/%d", i);
        if (!strcmp(path, s)) return i;
    }
    if (!strcmp(path, "/dev/tty") || !strcmp(path, "/dev/console") || !strncmp(path, "/dev/pts/", 9)) return 0;
    return -1;
}

static void trapped(int sig, siginfo_t *si, void *uc_) {
    (void)sig;
    ucontext_t *uc = uc_;
    greg_t *g = uc->uc_mcontext.gregs;
    int saved = errno;
    int nr = si->si_syscall;
    long a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10];
    long r = -1;
    switch (nr) {
    case SYS_open:
        d = c;
        c = b;
        b = a;
        a = AT_FDCWD;
        /* fall through */
    case SYS_openat: {
        const char *path = (const char *)b;
        int writes = (c & O_ACCMODE) != O_RDONLY || (c & (O_CREAT | O_TRUNC)) || (c & __O_TMPFILE) == __O_TMPFILE;
        int o = own(path);
        if (writes) {
            if (!strcmp(path, "/dev/null")) r = raw(SYS_openat, a, b, c & ~(O_CREAT | O_TRUNC), 0);
            else if (o > 0) r = raw(SYS_fcntl, o, F_DUPFD, 3, 0);
            else end("opens for writing", path, c);
        } else if (o == 0) end("opens for reading", path, c);
        else r = raw(SYS_openat, a, b, c, d);
        if (r < 0) r = -errno;
        g[REG_RAX] = r;
        errno = saved;
        return;
    }
    case SYS_creat: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_rename: case SYS_execve: case SYS_chmod:
    case SYS_truncate: case SYS_symlink: case SYS_link: case SYS_mknod: case SYS_chown: case SYS_utime: case SYS_utimes:
        end("file call", (const char *)a, nr);
        break;
    case SYS_mkdirat: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_openat2: case SYS_fchmodat:
    case SYS_linkat: case SYS_mknodat: case SYS_execveat:
        end("file call", (const char *)b, nr);
        break;
    case SYS_read: case SYS_readv: case SYS_pread64: case SYS_preadv: case SYS_preadv2: case SYS_lseek: case SYS_recvfrom: case SYS_recvmsg:
        end("standard input", "is read or moved", nr);
        break;
    case SYS_clone: case SYS_fork: case SYS_vfork:
        end("starts", "a process", nr);
        break;
    default:
        break;
    }
    for (int i = 0; i < N_ALWAYS; i++)
        if (always[i].nr == nr) end("system call", always[i].name, nr);
    char text[64];
    snprintf(text, sizeof text, "%d on %ld, %ld", nr, a, b);
    end("system call", text, nr);
}

#define ARG(n) (unsigned)(offsetof(struct seccomp_data, args) + 8 * (n))
static struct sock_filter prog[1200];
static unsigned n_prog;
static void add(unsigned short code, unsigned k, unsigned char jt, unsigned char jf) {
    prog[n_prog++] = (struct sock_filter){code, jt, jf, k};
}
static void load(unsigned at) { add(BPF_LD | BPF_W | BPF_ABS, at, 0, 0); }
static void ret(unsigned k) { add(BPF_RET | BPF_K, k, 0, 0); }
static void load_nr(void) { load((unsigned)offsetof(struct seccomp_data, nr)); }
/* trap if the call is nr */
static void deny(int nr) {
    add(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nr, 0, 1);
    ret(SECCOMP_RET_TRAP);
}
/* trap if the call is nr and an argument has a value */
static void deny_if(int nr, int arg, unsigned value) {
    load_nr();
    add(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nr, 0, 3);
    load(ARG(arg));
    add(BPF_JMP | BPF_JEQ | BPF_K, value, 0, 1);
    ret(SECCOMP_RET_TRAP);
}

__attribute__((constructor)) static void confine(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = trapped;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, NULL)) {
        say("confined: unavailable\n");
        _exit(98);
    }
    load((unsigned)offsetof(struct seccomp_data, arch));
    add(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    ret(SECCOMP_RET_TRAP);
    /* this file's own calls */
    load(ARG(5));
    add(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1);
    ret(SECCOMP_RET_ALLOW);
    load_nr();
    /* glibc falls back to clone(2) */
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone3, 0, 1);
    ret(SECCOMP_RET_ERRNO | ENOSYS);
    deny(SYS_open);
    deny(SYS_openat);
    for (int i = 0; i < N_ALWAYS; i++) deny(always[i].nr);
    /* not a new thread */
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone, 0, 3);
    load(ARG(0));
    add(BPF_JMP | BPF_JSET | BPF_K, CLONE_THREAD, 1, 0);
    ret(SECCOMP_RET_TRAP);
    /* a signal to another process */
    load_nr();
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_tgkill, 0, 3);
    load(ARG(0));
    add(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)getpid(), 1, 0);
    ret(SECCOMP_RET_TRAP);
    /* standard input */
    static const int reads[] = {SYS_read, SYS_readv, SYS_pread64, SYS_preadv, SYS_preadv2, SYS_recvfrom, SYS_recvmsg, SYS_recvmmsg, SYS_splice, SYS_tee, SYS_copy_file_range, SYS_dup, SYS_dup2, SYS_dup3, SYS_write, SYS_writev, SYS_sendto, SYS_sendmsg};
    for (unsigned i = 0; i < sizeof reads / sizeof *reads; i++) deny_if(reads[i], 0, 0);
    deny_if(SYS_sendfile, 1, 0);
    deny_if(SYS_mmap, 4, 0);
    /* lseek(0, ...), except asking for the position */
    load_nr();
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_lseek, 0, 7);
    load(ARG(0));
    add(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 5);
    load(ARG(1));
    add(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 2);
    load(ARG(2));
    add(BPF_JMP | BPF_JEQ | BPF_K, SEEK_CUR, 1, 0);
    ret(SECCOMP_RET_TRAP);
    /* fcntl: flags, locks and duplicates of standard input */
    static const unsigned cmds[] = {F_SETFL, F_SETLK, F_SETLKW, F_OFD_SETLK, F_OFD_SETLKW, F_SETOWN, F_SETSIG, F_SETLEASE, F_NOTIFY, F_SETPIPE_SZ};
    for (unsigned i = 0; i < sizeof cmds / sizeof *cmds; i++) deny_if(SYS_fcntl, 1, cmds[i]);
    static const unsigned dups[] = {F_DUPFD, F_DUPFD_CLOEXEC};
    for (unsigned i = 0; i < 2; i++) {
        load_nr();
        add(BPF_JMP | BPF_JEQ | BPF_K, SYS_fcntl, 0, 5);
        load(ARG(1));
        add(BPF_JMP | BPF_JEQ | BPF_K, dups[i], 0, 3);
        load(ARG(0));
        add(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 1);
        ret(SECCOMP_RET_TRAP);
    }
    static const unsigned reqs[] = {TCSETS, TCSETSW, TCSETSF, TCSETA, TCSETAW, TCSETAF, TCSBRK, TCSBRKP, TCXONC, TCFLSH, TIOCSTI, TIOCSWINSZ, TIOCSPGRP, TIOCSCTTY, TIOCNOTTY, TIOCCONS, TIOCSETD, TIOCEXCL};
    for (unsigned i = 0; i < sizeof reqs / sizeof *reqs; i++) deny_if(SYS_ioctl, 1, reqs[i]);
    ret(SECCOMP_RET_ALLOW);
    struct sock_fprog p = {(unsigned short)n_prog, prog};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0)) {
        say("confined: unavailable\n");
        _exit(98);
    }
}
#else
__attribute__((constructor)) static void confine(void) {
    say("confined: unavailable\n");
    _exit(98);
}
#endif
